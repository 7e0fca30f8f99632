#include <limits>
#include <climits>
#include "vh.h"
#include "data/string/algorithm.h"
using namespace pfi::data::string;
// oracles: memoised recursion straight from the definitions, and exhaustive search for short inputs
template <class A> static int ed(const A &a, const A &b, size_t i, size_t j, std::map<std::pair<size_t, size_t>, int> &m) {
  if (i == a.size()) return b.size() - j; if (j == b.size()) return a.size() - i;
  std::pair<size_t, size_t> k(i, j); if (m.count(k)) return m[k];
  int r = a[i] == b[j] ? ed(a, b, i + 1, j + 1, m) : 1 + std::min(ed(a, b, i + 1, j + 1, m), std::min(ed(a, b, i + 1, j, m), ed(a, b, i, j + 1, m))); return m[k] = r; }
template <class A> static bool subseq(const A &s, const A &t) { size_t i = 0; for (size_t j = 0; j < t.size() && i < s.size(); j++) if (s[i] == t[j]) i++; return i == s.size(); }
template <class A> static int lcs0(const A &a, const A &b) { int r = 0; for (unsigned m = 0; m < 1u << a.size(); m++) { A s; for (size_t i = 0; i < a.size(); i++) if (m >> i & 1) s.push_back(a[i]); if ((int)s.size() > r && subseq(s, b)) r = s.size(); } return r; }
template <class A> static int lcs1(const A &a, const A &b) { std::vector<int> p(b.size() + 1), q(b.size() + 1); for (size_t i = 0; i < a.size(); i++) { for (size_t j = 0; j < b.size(); j++) q[j + 1] = a[i] == b[j] ? p[j] + 1 : std::max(p[j + 1], q[j]); p = q; } return p[b.size()]; }
static int lis0(const std::vector<int> &a) { std::vector<int> l(a.size(), 1); int r = 0; for (size_t i = 0; i < a.size(); i++) { for (size_t j = 0; j < i; j++) if (a[j] < a[i]) l[i] = std::max(l[i], l[j] + 1); r = std::max(r, l[i]); } return r; }
template <class A> static std::string sh(const A &a) { std::string s; for (size_t i = 0; i < a.size(); i++) s += (i ? "," : "") + vh::str((int)a[i]); return "[" + s + "]"; }
template <class A> static void two(const A &a, const A &b) {
  vh::begin_case(sh(a) + " and " + sh(b), a.size() && b.size()); std::map<std::pair<size_t, size_t>, int> m; A a0 = a, b0 = b;
  int e = ed(a, b, 0, 0, m), g = edit_distance(a, b); vh::check(e == g, "edit_distance = " + vh::str(g) + " instead of " + vh::str(e));
  int l = a.size() <= 6 ? lcs0(a, b) : lcs1(a, b); g = longest_common_subsequence(a, b); vh::check(l == g, "longest_common_subsequence = " + vh::str(g) + " instead of " + vh::str(l)); vh::check(a == a0 && b == b0, "arguments changed"); }
static void lis(const std::vector<int> &a) { vh::begin_case("lis " + sh(a), a.size() > 1); int e = lis0(a), g = longest_increasing_subsequence(a); vh::check(e == g, "longest_increasing_subsequence = " + vh::str(g) + " instead of " + vh::str(e)); }
int main(int c, char **v) { vh::init(c, v);
  for (int n = 0; n <= 5; n++) for (int m = 0; m <= 4; m++) for (int i = 0; i < 1 << n; i++) for (int j = 0; j < 1 << m; j++) { std::string a, b; for (int k = 0; k < n; k++) a += "ab"[i >> k & 1]; for (int k = 0; k < m; k++) b += "ab"[j >> k & 1]; two(a, b); }
  for (int n = 0; n <= 5; n++) { int t = 1; for (int k = 0; k < n; k++) t *= 5; for (int i = 0; i < t; i++) { std::vector<int> a; int x = i; const int V[] = {INT_MIN, -1, 0, 7, INT_MAX}; for (int k = 0; k < n; k++, x /= 5) a.push_back(V[x % 5]); lis(a); } }
  while (vh::time_left()) for (int it = 0; it < 20; it++) {
    std::string a, b; int al = 1 + vh::below(vh::below(2) ? 3 : 256), n = vh::below(24), m = vh::below(24); for (int i = 0; i < n; i++) a += (char)vh::below(al); for (int i = 0; i < m; i++) b += vh::below(2) && i < n ? a[i] : (char)vh::below(al); two(a, b);
    std::vector<int> x, y; for (int i = vh::below(16); i > 0; i--) x.push_back((int)vh::below(3) * 1000000007); for (int i = vh::below(40); i > 0; i--) y.push_back((int)vh::below(3) * 1000000007); two(x, y); two(y, x);
    std::vector<int> z; int r = vh::below(4); for (int i = vh::below(60); i > 0; i--) z.push_back(r == 0 ? (int)vh::rnd() : r == 1 ? vh::range(-5, 5) : r == 2 ? INT_MAX - (int)vh::below(4) : (int)(vh::below(3) ? z.size() : vh::below(50))); lis(z); }
  return vh::done(); }
