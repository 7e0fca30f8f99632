#include "vh.h"
#include "data/fenwick_tree.h"
template <class T> static void one(int n, int ops) {
  vh::begin_case("size " + vh::str(n), n > 0);
  pfi::data::fenwick_tree<T> t(n); std::vector<T> a(n); std::string h;
  for (int i = 0; i < ops && n; i++) {
    if (vh::below(2)) { int k = vh::below(n); T d = (T)(int)vh::range(-1000000, 1000000); if (sizeof(T) > 4 && vh::below(3) == 0) d *= 1000003; t.increase(k, d); a[k] += d; if (h.size() < 2000) h += " inc(" + vh::str(k) + "," + vh::str(d) + ")"; }
    else { int x = vh::below(n), y = x + vh::below(n - x); T s = 0, p = 0; for (int j = 0; j <= y; j++) { p += a[j]; if (j >= x) s += a[j]; }
      T r = t.query(x, y), q = t.query(y);
      vh::check(r == s, "after" + h + " query(" + vh::str(x) + "," + vh::str(y) + ") = " + vh::str(r) + " instead of " + vh::str(s));
      vh::check(q == p, "after" + h + " query(" + vh::str(y) + ") = " + vh::str(q) + " instead of " + vh::str(p)); vh::check(t.query(-1) == 0, "query(-1)"); }
  }
}
int main(int c, char **v) { vh::init(c, v);
  for (int n = 0; n <= 40; n++) for (int i = 0; i < 20; i++) { one<int>(n, 60); one<long long>(n, 60); }
  for (int k = 1; k < 1 << 14; k *= 2) for (int d = -1; d <= 1; d++) { one<long long>(k + d, 40); one<int>(k + d, 40); }
  while (vh::time_left()) { one<long long>(vh::below(5000), 60); one<int>(vh::below(300), 60); }
  return vh::done(); }
