#include "cosched.h"
#include "concurrent/chan.h"
#include <deque>
// a write takes place channel by channel: begin (fixes the set of receivers and the order against other writes) ... end (all have it)
struct S : SpecBase { enum { V = 2 }; bool ex[6]; std::deque<int> q[6]; int fl, fx; bool und[6]; S() : fl(-1), fx(0) { for (int i = 0; i < 6; i++) ex[i] = und[i] = false; ex[0] = true; }
  bool apply(const Op &o, int var) { int c = o.a / 100; if (o.kind >= 1 && o.kind <= 4 && var) { if (!und[c]) return false; und[c] = false; q[c].push_back(fx); } else if (var) return false;
    switch (o.kind) { case 0: if (fl >= 0 || !ex[c]) return false; fl = fx = o.a % 100; for (int i = 0; i < 6; i++) und[i] = ex[i]; return true; case 10: if (fl != o.a % 100) return false; for (int i = 0; i < 6; i++) { if (und[i]) q[i].push_back(fx); und[i] = false; } fl = -1; return true;
    case 1: if (q[c].empty() || q[c].front() != o.v) return false; q[c].pop_front(); return true; case 2: q[c].push_front(o.a % 100); return true; case 3: return o.r == (int)q[c].size(); case 4: return (o.r != 0) == q[c].empty();
    case 5: if (fl >= 0 || ex[o.a % 100]) return false; ex[o.a % 100] = true; return true; case 6: if (fl >= 0) return false; ex[c] = false; q[c].clear(); return true; } return false; }
  bool enabled(const Op &o) const { return o.kind == 1 ? !q[o.a / 100].empty() : true; }
  std::string key() const { std::string s = vh::str(fl); for (int i = 0; i < 6; i++) { s += ex[i] ? 'e' : '-'; s += und[i] ? 'u' : '-'; for (size_t j = 0; j < q[i].size(); j++) s += (char)(q[i][j] + 1); s += '/'; } return s; }
  static void split(std::vector<Op> &h) { size_t n = h.size(); for (size_t i = 0; i < n; i++) if (h[i].kind == 0) { Op e = h[i]; e.kind = 10; h.push_back(e); } }
  static std::string name(const Op &o) { const char *n[] = {"write ", "read ", "unget ", "size ", "empty ", "dup ", "destroy "}; return (o.kind == 10 ? "(write ends) " : n[o.kind]) + std::string("chan") + vh::str(o.a / 100) + (o.kind == 0 || o.kind == 2 ? " item " + vh::str(o.a % 100) : o.kind == 5 ? " as chan" + vh::str(o.a % 100) : ""); } };
typedef pfi::concurrent::chan<int> C;
struct World { C *c[6]; pfi::lang::shared_ptr<C> own[6]; };
int main(int c, char **v) { vh::init(c, v);
  do { for (int it = 0; it < 50; it++) {
    S s; int nt = vh::range(2, 4); std::vector<std::vector<Op> > scr(nt); int x = 0, mode = vh::below(3); bool two = vh::below(2); if (two) s.ex[1] = true; int total = 0;
    for (int t = 0; t < nt; t++) { std::vector<int> mine; mine.push_back(0); if (two) mine.push_back(1); bool d = false, gone = false; int n = vh::range(1, nt > 2 ? 3 : 5); if (total + n > 9) n = std::max(1, 9 - total); total += n;
      for (int i = 0; i < n; i++) { int k = mode == 0 ? (vh::below(2) ? 0 : 1) : mode == 1 ? vh::below(3) : vh::below(7); int ch = mine[vh::below(mine.size())]; if (k == 5) { if (d) k = 0; else { d = true; scr[t].push_back(Op(5, ch * 100 + 2 + t)); mine.push_back(2 + t); continue; } } if (k == 6) { if (!d || gone) k = 1; else { gone = true; mine.pop_back(); scr[t].push_back(Op(6, (2 + t) * 100)); continue; } }
        scr[t].push_back(Op(k, ch * 100 + (k == 0 || k == 2 ? ++x : 0))); } }
    std::string d = two ? "chan0 and its duplicate chan1:" : "chan0:"; for (int t = 0; t < nt; t++) { d += " thread" + vh::str(t) + "{"; for (size_t i = 0; i < scr[t].size(); i++) d += S::name(scr[t][i]) + "; "; d += "}"; }
    for (int rep = 0; rep < 20; rep++) { vh::begin_case(d); sc::reset(); World *w = new World(); w->c[0] = new C(); if (two) { w->own[1] = w->c[0]->dup(); w->c[1] = w->own[1].get(); } std::vector<std::vector<Op> > sc2 = scr;
      execute(s, sc2, [w](Op &o) { int ch = o.a / 100, it = o.a % 100; switch (o.kind) { case 0: w->c[ch]->write(it); break; case 1: o.v = w->c[ch]->read(); break; case 2: w->c[ch]->unget(it); break; case 3: o.r = w->c[ch]->size(); break; case 4: o.r = w->c[ch]->empty(); break; case 5: w->own[it] = w->c[ch]->dup(); w->c[it] = w->own[it].get(); break; case 6: w->own[ch] = pfi::lang::shared_ptr<C>(); break; } }); }
  } } while (vh::time_left());
  return vh::done(); }
