#include <limits>
#include <climits>
#include "vh.h"
#include "math/ratio.h"
typedef __int128 W;
static W gcdw(W a, W b) { if (a < 0) a = -a; if (b < 0) b = -b; while (b) { W t = a % b; a = b; b = t; } return a; }
template <class T> struct R { typedef pfi::math::ratio::ratio<T> r;
  static bool fits(W x) { return x == (W)(T)x && x != (W)std::numeric_limits<T>::min(); }
  static std::string sh(const r &a) { return vh::str((long long)a.num()) + "/" + vh::str((long long)a.den()); }
  static void eq(const r &g, W n, W d, const char *op) { W k = gcdw(n, d); if (d < 0) k = -k; n /= k; d /= k; vh::check((W)g.num() == n && (W)g.den() == d, std::string(op) + " gives " + sh(g) + " instead of " + vh::str((long long)n) + "/" + vh::str((long long)d)); }
  static void one(T an, T ad, T bn, T bd) {
    if (!ad || !bd || !fits(an) || !fits(ad) || !fits(bn) || !fits(bd)) return;
    vh::begin_case(vh::str((long long)an) + "/" + vh::str((long long)ad) + " and " + vh::str((long long)bn) + "/" + vh::str((long long)bd));
    r a(an, ad), b(bn, bd); eq(a, an, ad, "construction"); eq(b, bn, bd, "construction"); eq(r(an), an, 1, "construction"); eq(r(), 0, 1, "construction");
    W n1 = a.num(), d1 = a.den(), n2 = b.num(), d2 = b.den(), g = gcdw(d1, d2), M = 0; // intermediate products of the reduced operands have to fit as well
    W s1 = n1 * (d2 / g), s2 = n2 * (d1 / g), l = d1 * (d2 / g);
    if (fits(s1) && fits(s2) && fits(l)) { if (fits(s1 + s2)) { eq(a + b, s1 + s2, l, "+"); r c = a; c += b; eq(c, s1 + s2, l, "+="); vh::check((b + a) == c, "a+b != b+a"); } if (fits(s1 - s2)) { eq(a - b, s1 - s2, l, "-"); r c = a; c -= b; eq(c, s1 - s2, l, "-="); } }
    W pn = n1 * n2, pd = d1 * d2, k = gcdw(pn, pd); if (fits(pn / k) && fits(pd / k)) { eq(a * b, pn, pd, "*"); r c = a; c *= b; eq(c, pn, pd, "*="); }
    if (n2) { pn = n1 * d2; pd = d1 * n2; k = gcdw(pn, pd); if (fits(pn / k) && fits(pd / k)) { eq(a / b, pn, pd, "/"); r c = a; c /= b; eq(c, pn, pd, "/="); } }
    vh::check((a == b) == (n1 * d2 == n2 * d1), "=="); vh::check(a == a, "=="); std::ostringstream os; os << a; vh::check(os.str() == sh(a), "printing"); (void)M;
  }
  static T rv() { switch (vh::below(6)) { case 0: return (T)vh::range(-6, 6); case 1: return (T)((std::numeric_limits<T>::max)() - (T)vh::below(3)); case 2: return (T)-((std::numeric_limits<T>::max)() - (T)vh::below(3)); case 3: return (T)vh::rnd(); case 4: return (T)((T)vh::range(-1000, 1000) * (T)vh::range(0, 1000)); default: return (T)((T)1 << vh::below(sizeof(T) * 8 - 1)) * (T)(vh::below(2) ? 1 : -1); } }
  static void go() { for (int a = -7; a <= 7; a++) for (int b = -7; b <= 7; b++) for (int c = -7; c <= 7; c++) for (int d = -7; d <= 7; d++) one(a, b, c, d); }
};
int main(int c, char **v) { vh::init(c, v);
  for (size_t i = 0; i + 1 < vh::ce_i.size(); i++) { R<int>::one(vh::ce_i[i], vh::ce_i[i + 1], 1, 1); R<int>::one(vh::ce_i[i], vh::ce_i[i + 1], vh::ce_i[0], i + 2 < vh::ce_i.size() ? vh::ce_i[i + 2] : 1); }
  R<int>::go(); R<long long>::go();
  while (vh::time_left()) for (int i = 0; i < 200; i++) { R<int>::one(R<int>::rv(), R<int>::rv(), R<int>::rv(), R<int>::rv()); R<long long>::one(R<long long>::rv(), R<long long>::rv(), R<long long>::rv(), R<long long>::rv()); R<long>::one(R<long>::rv(), R<long>::rv(), R<long>::rv(), R<long>::rv()); }
  return vh::done(); }
