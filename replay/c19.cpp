#include "vh.h"
#include <list>
#include <deque>
#include "data/string/utility.h"
using namespace std; namespace ps = pfi::data::string;
static bool ws(char c) { return c == ' ' || (c >= 9 && c <= 13); }
static string ex(const string &s) { return string(s.data(), s.size()); }
static string sh(const vector<string> &v) { string r; for (size_t i = 0; i < v.size(); i++) r += (i ? "|" : "") + vh::show(v[i]); return r; }
static vector<string> osplit(const string &s, const string &sep) { vector<string> r; size_t b = 0; if (sep.empty()) return r; for (size_t i = 0;;) { if (i + sep.size() > s.size()) { r.push_back(s.substr(b)); return r; } size_t j = 0; while (j < sep.size() && s[i + j] == sep[j]) j++; if (j == sep.size()) { r.push_back(s.substr(b, i - b)); i += sep.size(); b = i; } else i++; } }
static string ojoin(const vector<string> &v, const string &sep) { string r; for (size_t i = 0; i < v.size(); i++) { if (i) r += sep; r += v[i]; } return r; }
static void strip1(const string &s) {
  vh::begin_case("strip " + vh::show(s)); size_t a = 0, b = s.size(); while (a < b && ws(s[a])) a++; string l = s.substr(a); while (b > a && ws(s[b - 1])) b--; string f = s.substr(a, b - a); b = s.size(); while (b > 0 && ws(s[b - 1])) b--; string r = s.substr(0, b), o = "old";
  vh::check(ps::strip(ex(s)) == f, "strip gave " + vh::show(ps::strip(s))); vh::check(ps::lstrip(ex(s)) == l, "lstrip gave " + vh::show(ps::lstrip(s))); vh::check(ps::rstrip(ex(s)) == r, "rstrip gave " + vh::show(ps::rstrip(s)));
  ps::strip(s, o); vh::check(o == f, "strip(,) gave " + vh::show(o)); ps::lstrip(s, o); vh::check(o == l, "lstrip(,)"); ps::rstrip(s, o); vh::check(o == r, "rstrip(,)"); o = s; ps::strip(o, o); vh::check(o == f, "strip in place gave " + vh::show(o)); }
static void split1(const string &s, char c) {
  vh::begin_case("split " + vh::show(s) + " at " + vh::show(string(1, c))); vector<string> e = osplit(s, string(1, c)), g = ps::split(ex(s), c); vh::check(g == e, "pieces " + sh(g) + ", expected " + sh(e));
  vh::check(ps::join(g, string(1, c)) == s, "joining the pieces gives " + vh::show(ps::join(g, string(1, c)))); list<string> l = ps::split<list<string> >(s, c); vh::check(vector<string>(l.begin(), l.end()) == e, "list of pieces"); deque<string> d; ps::split(s, c, back_inserter(d)); vh::check(vector<string>(d.begin(), d.end()) == e, "split to an iterator"); }
static void two(const string &s, const string &t, const string &u) {
  vh::begin_case("strings " + vh::show(s) + " " + vh::show(t) + " " + vh::show(u)); vector<string> e = osplit(s, t), g = ps::split(ex(s), ex(t)); vh::check(g == e, "split pieces " + sh(g) + ", expected " + sh(e)); if (!t.empty()) vh::check(ps::join(g, t) == s, "joining the pieces");
  list<string> l = ps::split<list<string> >(s, t); vh::check(vector<string>(l.begin(), l.end()) == e, "list of pieces");
  string x = t.empty() ? s : ojoin(e, u), o = "old"; vh::check(ps::replace(ex(s), ex(t), ex(u)) == x, "replace gave " + vh::show(ps::replace(s, t, u)) + ", expected " + vh::show(x)); ps::replace(s, t, u, o); vh::check(o == x, "replace(,,,) gave " + vh::show(o)); o = s; ps::replace(o, t, u, o); vh::check(o == x, "replace in place gave " + vh::show(o));
  bool a = s.size() >= t.size() && s.compare(0, t.size(), t) == 0, b = s.size() >= t.size() && s.compare(s.size() - t.size(), t.size(), t) == 0; vh::check(ps::starts_with(ex(s), ex(t)) == a, "starts_with is " + vh::str(!a)); vh::check(ps::ends_with(ex(s), ex(t)) == b, "ends_with is " + vh::str(!b)); }
static void join1(const vector<string> &v, const string &sep) { vh::begin_case("join " + sh(v) + " with " + vh::show(sep)); string e = ojoin(v, sep), o = "old"; vh::check(ps::join(v, sep) == e, "join gave " + vh::show(ps::join(v, sep))); ps::join(v, sep, o); vh::check(o == e, "join(,,) gave " + vh::show(o)); vh::check(ps::join(v.begin(), v.end(), sep) == e, "join of iterators"); ps::join(v.begin(), v.end(), sep, o); vh::check(o == e, "join of iterators(,)"); list<string> l(v.begin(), v.end()); vh::check(ps::join(l, sep) == e, "join of a list"); o = sep; ps::join(v, o, o); vh::check(o == e, "join into the separator"); }
static void all(const string &ab, size_t n, void (*f)(const string &)) { vector<string> cur(1, ""); for (size_t l = 0; l <= n; l++) { vector<string> nx; for (size_t i = 0; i < cur.size(); i++) { f(cur[i]); if (l < n) for (size_t c = 0; c < ab.size(); c++) nx.push_back(cur[i] + ab[c]); } nx.swap(cur); } }
static void sp2(const string &s) { split1(s, 'a'); split1(s, 0); const char *p[] = {"", "a", "b", "ab", "aa", "ba", "aab", "bab"}; for (int i = 0; i < 8; i++) two(s, p[i], i % 2 ? "x" : ""); two(s, s, "q"); two(s, s + "a", "q"); }
int main(int c, char **v) { vh::init(c, v); vector<string> &ce = vh::ce_s; for (size_t i = 0; i < ce.size(); i++) { strip1(ce[i]); split1(ce[i], ce[i].empty() ? 'a' : ce[i][0]); for (size_t j = 0; j < ce.size(); j++) two(ce[i], ce[j], "zz"); }
  all(" a\t", 6, strip1); all("ab", 7, sp2); for (int b = 0; b < 256; b++) { string s(1, b); strip1(s); strip1(" " + s + "\n"); strip1("x" + s); split1("p" + s + s + "q", b); }
  do { string s = vh::bytes(vh::below(60)), t = vh::bytes(vh::below(4), "ab"), u = vh::bytes(vh::below(40), "ab"), w = vh::bytes(vh::below(30), " \t\n\v\f\r\xa0\x85x\xff"); strip1(s); strip1(w); split1(s, vh::below(256)); split1(u, "ab"[vh::below(2)]); two(u, t, vh::bytes(vh::below(5), "abc")); two(s, s.substr(0, vh::below(s.size() + 1)), u); two(s, s.substr(vh::below(s.size() + 1)), u); two(s, vh::bytes(vh::below(3)), u);
    vector<string> x; for (int n = vh::below(6); n-- > 0;) x.push_back(vh::bytes(vh::below(8))); join1(x, vh::bytes(vh::below(4))); } while (vh::time_left());
  return vh::done(); }
