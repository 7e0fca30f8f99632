#include "cosched.h"
#include "concurrent/pcbuf.h"
#include <deque>
struct S : SpecBase { size_t cap; std::deque<int> q;
  bool apply(const Op &o, int) { switch (o.kind) { case 0: if (q.size() >= cap) return false; q.push_back(o.a); return true; case 1: if (!o.r) return q.size() >= cap; if (q.size() >= cap) return false; q.push_back(o.a); return true;
    case 2: if (q.empty() || q.front() != o.v) return false; q.pop_front(); return true; case 3: if (!o.r) return o.v == -7 && q.empty(); if (q.empty() || q.front() != o.v) return false; q.pop_front(); return true;
    case 4: return (size_t)o.r == q.size(); case 5: return (o.r != 0) == q.empty(); case 6: q.clear(); return true; } return false; }
  bool enabled(const Op &o) const { return o.kind == 0 ? q.size() < cap : o.kind == 2 ? !q.empty() : true; }
  std::string key() const { std::string s; for (size_t i = 0; i < q.size(); i++) s += (char)q[i]; return s; }
  static std::string name(const Op &o) { const char *n[] = {"push ", "timed push ", "pop", "timed pop", "size", "empty", "clear"}; return n[o.kind] + (o.kind < 2 ? vh::str(o.a) : std::string()) + (o.sec >= 0 ? " " + vh::str(o.sec) + "s" : std::string()); } };
int main(int c, char **v) { vh::init(c, v);
  do { for (int it = 0; it < 50; it++) {
    S s; s.cap = vh::range(vh::below(12) ? 1 : 0, 3); int nt = vh::range(2, 4); std::vector<std::vector<Op> > scr(nt); int x = 0, mode = vh::below(4), prod = vh::range(1, nt - 1);
    for (int t = 0; t < nt; t++) { int n = vh::range(1, nt > 2 ? 3 : 5); for (int i = 0; i < n; i++) { int k = mode == 0 ? (t < prod ? 0 : 2) : mode == 1 ? (t < prod ? vh::below(2) : 2 + vh::below(2)) : mode == 2 ? vh::below(7) : vh::below(4); Op o(k, k < 2 ? ++x : 0); if (k == 1 || k == 3) { double secs[] = {0, 0.5, 1, 3}; o.sec = secs[vh::below(4)]; } scr[t].push_back(o); } }
    std::string d = "capacity " + vh::str(s.cap) + ":"; for (int t = 0; t < nt; t++) { d += " thread" + vh::str(t) + "{"; for (size_t i = 0; i < scr[t].size(); i++) d += S::name(scr[t][i]) + "; "; d += "}"; }
    for (int rep = 0; rep < 20; rep++) { vh::begin_case(d); sc::reset(); pfi::concurrent::pcbuf<int> *b = new pfi::concurrent::pcbuf<int>(s.cap); vh::check(b->capacity() == s.cap && b->empty() && b->size() == 0, "a new buffer"); std::vector<std::vector<Op> > sc2 = scr; size_t cap = s.cap;
      execute(s, sc2, [b, cap](Op &o) { int val = -7; switch (o.kind) { case 0: b->push(o.a); break; case 1: o.r = b->push(o.a, o.sec); break; case 2: b->pop(val); break; case 3: o.r = b->pop(val, o.sec); break; case 4: o.r = b->size(); if ((size_t)o.r > cap) { sc::inside = false; vh::fail("more elements than the capacity; schedule " + sc::trace); } break; case 5: o.r = b->empty(); break; case 6: b->clear(); break; } o.v = val; }); }
  } } while (vh::time_left());
  return vh::done(); }
