// Bounded stand-in for C30: matrices written by the real writer and read by the real reader, in a scratch directory.
#include "vh.h"
#include "data/sparse_matrix/sparse_matrix.h"
using namespace pfi::data::sparse_matrix;
typedef std::vector<std::pair<int, unsigned char> > Row;
static std::string dir; static void cleanup() { unlink((dir + "/m").c_str()); unlink((dir + "/m.offset").c_str()); rmdir(dir.c_str()); }
static Row row(int style) {
  Row r; int n = style == 0 ? 0 : style == 1 ? 1 : (int)vh::below(style == 2 ? 6 : 400); long c = -1;
  for (int i = 0; i < n; i++) { long g; switch (vh::below(7)) { case 0: g = 1; break; case 1: g = 127 + vh::below(3); break; case 2: g = 16383 + vh::below(3); break; case 3: g = 2097151 + vh::below(3); break; case 4: g = n < 8 ? 268435455 + vh::below(3) : 1 + vh::below(300); break; default: g = 1 + vh::below(40); } if (n == 1 && !vh::below(3)) g = 2147483648L; c += g; if (c > 2147483647L) break; r.push_back(std::make_pair((int)c, (unsigned char)(vh::below(4) ? vh::rnd() : vh::below(2) ? 255 : 1))); }
  return r;
}
static std::string show(const Row &r) { std::ostringstream o; o << "["; for (size_t i = 0; i < r.size() && i < 20; i++) o << r[i].first << ":" << (int)r[i].second << " "; o << (r.size() > 20 ? "...]" : "]"); return o.str(); }
static void one() {
  int n = vh::below(3) ? (int)vh::below(8) : (int)vh::below(60); std::vector<Row> m; std::ostringstream d; d << n << " rows:"; for (int i = 0; i < n; i++) { m.push_back(row(vh::below(4))); if (i < 12) d << show(m.back()); } bool doclose = vh::below(3) != 0; d << (doclose ? " close" : " destroy"); vh::begin_case(d.str(), n > 1);
  std::string fn = dir + "/m";
  { sparse_matrix_writer w; vh::check(w.open(fn) == 0, "writer does not open"); if (!vh::below(5)) { w.append_row(row(2)); w.close(); vh::check(w.open(fn) == 0, "writer does not reopen"); }
    for (int i = 0; i < n; i++) { if (vh::below(2)) w.append_row(m[i]); else { std::map<int, unsigned char> mm(m[i].begin(), m[i].end()); w.append_row(mm); } vh::check(w.row_num() == i + 1, "writer row count"); }
    if (doclose) w.close(); }
  sparse_matrix_reader r; vh::check(r.open(fn) == 0, "reader does not open"); vh::check(r.row_num() == n, "row count");
  for (int k = 0; k < 2 * n; k++) {
    int i = k < n ? k : (int)vh::below(n); Row g; if (vh::below(2)) g = row(2); std::map<int, unsigned char> mm(m[i].begin(), m[i].end());
    vh::check(r.get_row_size(i) == (int)m[i].size() && r.get_row_nonzero_value_num(i) == (int)m[i].size(), "row size");
    switch (vh::below(3)) {
      case 0: r.get_row(i, g); vh::check(g == m[i], "row " + show(g) + " expected " + show(m[i])); break;
      case 1: { std::map<int, unsigned char> q; r.get_row(i, q); vh::check(q == mm, "row read into a map " + show(Row(q.begin(), q.end())) + " expected " + show(m[i])); break; }
      default: { pfi::data::unordered_map<int, unsigned char> q; r.get_row(i, q); vh::check(std::map<int, unsigned char>(q.begin(), q.end()) == mm, "row read into a hash map, expected " + show(m[i])); }
    }
  }
}
int main(int argc, char **argv) {
  vh::init(argc, argv); char t[] = "/tmp/c30XXXXXX"; if (!mkdtemp(t)) return 2; dir = t;
  while (vh::time_left()) one();
  cleanup(); return vh::done();
}
