#include "vh.h"
#include "text/csv.h"
using namespace pfi::text;
typedef std::vector<std::string> Row; typedef std::vector<Row> Rows;
static std::string enc(const Rows &r, int style) {
  std::string s;
  for (size_t i = 0; i < r.size(); i++) {
    for (size_t j = 0; j < r[i].size(); j++) {
      if (j) s += ','; const std::string &f = r[i][j]; bool q = f.find_first_of(",\"\r\n") != std::string::npos || (style & 1 && vh::below(2));
      if (q) { s += '"'; for (size_t k = 0; k < f.size(); k++) { if (f[k] == '"') s += '"'; s += f[k]; } s += '"'; } else s += f;
    }
    if (i + 1 < r.size() || !(style & 4)) s += style & 2 ? "\r\n" : "\n";
  }
  return s;
}
static std::string why(const Rows &a, const Rows &b) { if (a.size() != b.size()) return vh::str(a.size()) + " rows instead of " + vh::str(b.size()); for (size_t i = 0; i < a.size(); i++) { if (a[i].size() != b[i].size()) return "row " + vh::str(i) + ": " + vh::str(a[i].size()) + " fields instead of " + vh::str(b[i].size()); for (size_t j = 0; j < a[i].size(); j++) if (a[i][j] != b[i][j]) return "row " + vh::str(i) + " field " + vh::str(j) + ": " + vh::show(a[i][j]) + " instead of " + vh::show(b[i][j]); } return ""; }
static Rows viaparser(const char *b, const char *e) { Rows r; csv_parser p(b, e); while (p.next()) { vh::check(!p.end(), "end() while rows remain"); r.push_back(Row(p.get().begin(), p.get().end())); } vh::check(p.end(), "end() after the last row"); return r; }
static void all(const std::string &s, const Rows *want, const std::string &d) {
  vh::begin_case(d + vh::show(s));
  char *b = new char[s.size()]; memcpy(b, s.data(), s.size());
  Rows r = viaparser(b, b + s.size()); if (want) { std::string w = why(r, *want); vh::check(w.empty(), w); }
  { Rows x; parse_csv(s, x); std::string w = why(x, r); vh::check(w.empty(), "parse_csv: " + w); }
  { std::istringstream is(s); csv_parser p(is); Rows x; while (p.next()) x.push_back(Row(p.get().begin(), p.get().end())); std::string w = why(x, r); vh::check(w.empty(), "from a stream: " + w); }
  { csv_parser p(s); Rows x, y; for (csv_iterator i(p), e; i != e;) { Row a(i->begin(), i->end()); csv_iterator c(i); csv_iterator o = i++; Row b2((*o).begin(), (*o).end()), c2((*c).begin(), (*c).end()); x.push_back(b2); vh::check(a == b2 && a == c2, "copied iterator differs from the row it was copied at"); } std::string w = why(x, r); vh::check(w.empty(), "iterators: " + w); }
  delete[] b;
}
static std::string field(size_t n) { std::string s = vh::below(2) ? vh::bytes(n) : vh::bytes(n, "ab,\"\n\r;c "); for (size_t i = 0; i < n; i++) if (!s[i]) s[i] = 1; return s; }
int main(int c, char **v) {
  vh::init(c, v);
  for (size_t i = 0; i < vh::ce_s.size(); i++) { all(vh::ce_s[i], 0, "text "); }
  // lengths around the buffer sizes
  for (int base = 512; base <= 4096; base *= 2) for (int d = -4; d <= 2; d++) for (int q = 0; q < 3; q++) for (int nf = 1; nf <= 4; nf++) {
    Rows r(2); size_t left = base + d; for (int f = 0; f < nf; f++) { size_t n = f + 1 == nf ? left : vh::below(left + 1); left -= n; std::string s(n, 'x'); if (q == 2 && n) s[vh::below(n)] = '"'; r[0].push_back(s); if (left > 0 && vh::below(2)) left--; } r[1].push_back("tail");
    all(enc(r, q), &r, "fields around the buffer size: "); }
  do {
    Rows r(vh::range(0, 4)); for (size_t i = 0; i < r.size(); i++) { int nf = vh::range(1, 5); for (int f = 0; f < nf; f++) r[i].push_back(field(vh::below(20) ? vh::below(6) : vh::below(1500))); }
    int st = vh::below(8); if (st & 4 && !r.empty() && r.back().size() == 1 && r.back()[0].empty()) st &= 3; if (st & 4 && r.empty()) st &= 3;
    all(enc(r, st), &r, "rows "); 
    all(vh::bytes(vh::below(12), "a,\"\n\r"), 0, "arbitrary text "); all(vh::bytes(vh::below(8)), 0, "arbitrary text ");
  } while (vh::time_left());
  return vh::done();
}
