#include "vh.h"
#include "data/optional.h"
using pfi::data::optional;
struct Boom {}; static std::set<const void *> alive; static int fuse = -1; static void burn() { if (fuse >= 0 && fuse-- == 0) throw Boom(); }
struct X { int t; static void up(const void *p) { vh::check(alive.insert(p).second, "constructed over a live element"); } explicit X(int t) : t(t) { up(this); } X(const X &o) : t(o.t) { vh::check(alive.count(&o), "copied from a dead element"); burn(); up(this); } ~X() { vh::check(alive.erase(this), "destroyed an element that is not alive"); }
  X &operator=(const X &o) { vh::check(alive.count(this) && alive.count(&o), "assignment with a dead element"); burn(); t = o.t; return *this; } bool operator==(const X &o) const { return t == o.t; } bool operator<(const X &o) const { return t < o.t; } };
struct Z { int t; Z(const X &x) : t(x.t + 1000) { X::up(this); } Z(const Z &z) : t(z.t) { X::up(this); } ~Z() { alive.erase(this); } };
typedef optional<X> O; struct R { bool f; int t; };
static void look(const O &o, const R &r) { bool b = o ? true : false; vh::check(b == r.f && o.bool_test() == r.f && (o.get() != 0) == r.f, r.f ? "should hold a value" : "should be empty"); if (r.f) { vh::check(alive.count(o.get()) && (*o).t == r.t && o->t == r.t && o.get()->t == r.t, "holds another value than " + vh::str(r.t)); } }
static int cmp(const R &a, const R &b) { if (!a.f || !b.f) return (int)a.f - (int)b.f; return a.t < b.t ? -1 : a.t > b.t; }
int main(int c, char **v) { vh::init(c, v); do { { O o[4]; R r[4]; for (int i = 0; i < 4; i++) r[i].f = false; std::string d;
    for (int s = 0; s < 30; s++) { int i = vh::below(4), j = vh::below(4), k = vh::below(9); fuse = vh::below(4) ? -1 : (int)vh::below(2); d += " " + vh::str(k) + ":" + vh::str(i) + vh::str(j) + (fuse >= 0 ? "!" : ""); vh::begin_case(d); size_t before = alive.size(); (void)before;
      try { if (k == 0) { int f = fuse; fuse = -1; X x(vh::below(3)); fuse = f; o[i] = x; r[i].f = true; r[i].t = x.t; } else if (k == 1) { o[i] = o[j]; r[i] = r[j]; } else if (k == 2) { o[i] = O(); r[i].f = false; } else if (k == 3) { o[i].swap(o[j]); std::swap(r[i], r[j]); } else if (k == 4) { O q(o[i]); look(q, r[i]); if (r[i].f) vh::check(q.get() != o[i].get(), "copy shares its element"); } else if (k == 5 && r[i].f) { o[i] = *o[i]; } else if (k == 6) { int f = fuse; fuse = -1; X x(vh::below(3)); fuse = f; O q(x); R w = {true, x.t}; look(q, w); o[i] = q; r[i] = w; }
        else if (k == 7) { int q = cmp(r[i], r[j]); vh::check((o[i] == o[j]) == (q == 0) && (o[i] != o[j]) == (q != 0) && (o[i] < o[j]) == (q < 0) && (o[i] > o[j]) == (q > 0) && (o[i] <= o[j]) == (q <= 0) && (o[i] >= o[j]) == (q >= 0), "comparison of " + vh::str(i) + " and " + vh::str(j)); }
        else if (k == 8) { optional<Z> z(o[i]); vh::check((z.get() != 0) == r[i].f && (!z.get() || z->t == r[i].t + 1000), "conversion"); z = o[j]; vh::check((z.get() != 0) == r[j].f && (!z.get() || z->t == r[j].t + 1000), "converting assignment"); }
      } catch (Boom &) {}
      fuse = -1; size_t n = 0; for (int q = 0; q < 4; q++) { look(o[q], r[q]); n += r[q].f; } vh::check(alive.size() == n, vh::str(alive.size()) + " elements alive, " + vh::str(n) + " held"); } }
    vh::check(alive.empty(), "elements alive after destruction"); } while (vh::time_left()); return vh::done(); }
