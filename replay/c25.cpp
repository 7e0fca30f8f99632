#include "vh.h"
#include "data/string/kmp.h"
#include "data/string/aho_corasick.h"
using namespace pfi::data::string;
static void k1(const std::string &q, const std::string &t) {
  vh::begin_case("kmp pattern " + vh::show(q) + " text " + vh::show(t), q.size() > 1 && t.size() > q.size()); kmp<std::string> k(q); std::string t0 = t;
  for (size_t o = 0; o <= t.size() + 1; o++) { size_t e = t.find(q, o), g = k.find(t, o); vh::check(e == g, "find from " + vh::str(o) + " = " + vh::str((long)g) + " instead of " + vh::str((long)e)); }
  size_t e = t.find(q), g = k.find(t); vh::check(e == g && t == t0, "find");
  std::vector<int> qv(q.begin(), q.end()), tv(t.begin(), t.end()); kmp<std::vector<int> > kv(qv); vh::check(kv.find(tv) == t.find(q), "find in a vector"); }
static void ac(const std::vector<std::string> &w, const std::string &t) {
  std::string d = "words"; for (size_t i = 0; i < w.size() && i < 40; i++) d += " " + vh::show(w[i]); vh::begin_case(d + " text " + vh::show(t), w.size() > 1 && t.size() > 2);
  aho_corasick a(w); std::vector<std::pair<int, int> > r, e; r.push_back(std::make_pair(-7, -7)); a.search(t, r); vh::check(r.size() && r[0] == std::make_pair(-7, -7), "results already there are kept"); r.erase(r.begin());
  for (size_t i = 0; i < w.size(); i++) for (size_t p = 0; (p = t.find(w[i], p)) != std::string::npos; p++) e.push_back(std::make_pair((int)i, (int)(p + w[i].size())));
  for (size_t i = 1; i < r.size(); i++) vh::check(r[i - 1].second <= r[i].second, "occurrences are reported from left to right");
  std::sort(r.begin(), r.end()); std::sort(e.begin(), e.end());
  for (size_t i = 0; i < r.size(); i++) { vh::check(std::binary_search(e.begin(), e.end(), r[i]), "reports word " + vh::str(r[i].first) + " ending at " + vh::str(r[i].second) + ", which does not occur there"); vh::check(!i || r[i] != r[i - 1], "an occurrence is reported twice"); }
  vh::check(r.size() == e.size(), vh::str(e.size() - r.size()) + " occurrences are not reported"); }
static std::string rs(int n, int al, int base) { std::string s; for (int i = 0; i < n; i++) s += (char)(base + vh::below(al)); return s; }
int main(int c, char **v) { vh::init(c, v);
  for (size_t i = 0; i < vh::ce_s.size(); i++) for (size_t j = 0; j < vh::ce_s.size(); j++) k1(vh::ce_s[i], vh::ce_s[j]);
  for (int n = 0; n <= 5; n++) for (int i = 0; i < 1 << n; i++) { std::string q; for (int k = 0; k < n; k++) q += "ab"[i >> k & 1]; for (int m = 0; m <= 8; m++) for (int j = 0; j < 1 << m; j += 1 + (m > 6) * (int)vh::below(3)) { std::string t; for (int k = 0; k < m; k++) t += "ab"[j >> k & 1]; k1(q, t); } }
  ac(std::vector<std::string>(), "abc");
  for (int m = 0; m < 1 << 6; m++) { std::vector<std::string> w; const char *W[] = {"a", "b", "ab", "ba", "aab", "bab"}; for (int i = 0; i < 6; i++) if (m >> i & 1) w.push_back(W[i]); for (int j = 0; j < 40; j++) ac(w, rs(vh::below(10), 2, 'a')); }
  while (vh::time_left()) for (int it = 0; it < 10; it++) {
    int al = vh::below(3) ? 2 : vh::below(2) ? 3 : 256; std::string q = rs(vh::below(12), al, al == 256 ? 0 : 'a'), t = rs(vh::below(40), al, al == 256 ? 0 : 'a'); if (vh::below(2)) t.insert(vh::below(t.size() + 1), q); k1(q, t);
    int k = 1 + vh::below(3), a2 = vh::below(2) ? 2 : vh::below(2) ? 4 : 255; std::set<std::string> S; int nw = vh::below(k == 3 ? 60 : 8); for (int i = 0; i < nw; i++) { std::string x = rs(1 + vh::below(vh::below(4) ? 4 : 12), a2, a2 == 255 ? 1 : 'a'); S.insert(x); if (vh::below(2)) { for (size_t j = 1; j < x.size(); j++) if (vh::below(2)) S.insert(x.substr(j)); } }
    std::vector<std::string> w(S.begin(), S.end()); for (size_t i = w.size(); i > 1; i--) std::swap(w[i - 1], w[vh::below(i)]); std::string tx = rs(vh::below(60), a2, a2 == 255 ? 1 : 'a'); for (int i = vh::below(6); i > 0 && w.size(); i--) tx.insert(vh::below(tx.size() + 1), w[vh::below(w.size())]); if (vh::below(4) == 0) tx.insert(vh::below(tx.size() + 1), 1, '\0'); ac(w, tx); }
  return vh::done(); }
