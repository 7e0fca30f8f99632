#include "cosched.h"
#include "concurrent/lock.h"
#include "concurrent/qsem.h"
struct S : SpecBase { int n; bool apply(const Op &o, int) { if (!o.r) return false; switch (o.kind) { case 0: case 1: if (n < o.a) return false; n -= o.a; return true; default: n += o.a; return true; } }
  bool enabled(const Op &o) const { return o.kind < 2 ? n >= o.a : true; }
  std::string key() const { return vh::str(n); }
  static std::string name(const Op &o) { const char *n[] = {"wait ", "lock ", "signal ", "unlock "}; return n[o.kind] + vh::str(o.a); } };
int main(int c, char **v) { vh::init(c, v);
  do { for (int it = 0; it < 50; it++) {
    S s; s.n = vh::range(0, 4); int nt = vh::range(2, 4); std::vector<std::vector<Op> > scr(nt);
    for (int t = 0; t < nt; t++) { int n = vh::range(1, 4); for (int i = 0; i < n; i++) { int k = vh::below(4); scr[t].push_back(Op(k, k & 1 ? 1 : vh::below(5))); } }
    std::string d = "initially " + vh::str(s.n) + ":"; for (int t = 0; t < nt; t++) { d += " thread" + vh::str(t) + "{"; for (size_t i = 0; i < scr[t].size(); i++) d += S::name(scr[t][i]) + "; "; d += "}"; }
    for (int rep = 0; rep < 20; rep++) { vh::begin_case(d); sc::reset(); pfi::concurrent::qsem *b = new pfi::concurrent::qsem(s.n); std::vector<std::vector<Op> > sc2 = scr; bool def = vh::below(2);
      execute(s, sc2, [b, def](Op &o) { switch (o.kind) { case 0: o.r = def && o.a == 1 ? b->wait() : b->wait(o.a); break; case 1: o.r = b->lock(); break; case 2: o.r = def && o.a == 1 ? b->signal() : b->signal(o.a); break; case 3: o.r = b->unlock(); break; } }); }
  } } while (vh::time_left());
  return vh::done(); }
