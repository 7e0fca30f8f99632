#include "cosched.h"
#include "concurrent/mvar.h"
struct S : SpecBase { bool f; int x; S() : f(false), x(0) {}
  bool apply(const Op &o, int) { switch (o.kind) { case 0: if (f) return false; f = true; x = o.a; return true; case 1: if (!f || o.v != x) return false; f = false; return true; case 2: return f && o.v == x; case 3: if (!f || o.v != x) return false; x = o.a; return true;
    case 4: if (!o.r) return f; if (f) return false; f = true; x = o.a; return true; case 5: if (!o.r) return !f && o.v == -7; if (!f || o.v != x) return false; f = false; return true; case 6: return (o.r != 0) == !f; } return false; }
  bool enabled(const Op &o) const { return o.kind == 0 ? !f : o.kind <= 3 ? f : true; }
  std::string key() const { return f ? vh::str(x) : ""; }
  static std::string name(const Op &o) { const char *n[] = {"put ", "take", "read", "swap ", "try_put ", "try_take", "empty"}; return n[o.kind] + (o.kind == 0 || o.kind == 3 || o.kind == 4 ? vh::str(o.a) : std::string()); } };
int main(int c, char **v) { vh::init(c, v);
  do { for (int it = 0; it < 50; it++) {
    S s; bool fullinit = vh::below(2); if (fullinit) { s.f = true; s.x = 77; } int nt = vh::range(2, 4); std::vector<std::vector<Op> > scr(nt); int x = 0, mode = vh::below(4);
    for (int t = 0; t < nt; t++) { int n = vh::range(1, nt > 2 ? 3 : 4); for (int i = 0; i < n; i++) { int k = mode == 0 ? t & 1 : mode == 1 ? vh::below(4) : mode == 2 ? (vh::below(2) ? 3 : vh::below(2)) : vh::below(7); scr[t].push_back(Op(k, ++x)); } }
    std::string d = fullinit ? "initially 77:" : "initially empty:"; for (int t = 0; t < nt; t++) { d += " thread" + vh::str(t) + "{"; for (size_t i = 0; i < scr[t].size(); i++) d += S::name(scr[t][i]) + "; "; d += "}"; }
    for (int rep = 0; rep < 20; rep++) { vh::begin_case(d); sc::reset(); pfi::concurrent::mvar<int> *b = fullinit ? new pfi::concurrent::mvar<int>(77) : new pfi::concurrent::mvar<int>(); std::vector<std::vector<Op> > sc2 = scr;
      execute(s, sc2, [b](Op &o) { int val = -7; switch (o.kind) { case 0: b->put(o.a); break; case 1: val = b->take(); break; case 2: val = b->read(); break; case 3: val = b->swap(o.a); break; case 4: o.r = b->try_put(o.a); break; case 5: o.r = b->try_take(val); break; case 6: o.r = b->empty(); break; } o.v = val; }); }
  } } while (vh::time_left());
  return vh::done(); }
