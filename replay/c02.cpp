#include "vh.h"
#include "data/code/code.h"
using namespace std; using namespace pfi::data::code;
struct op { int c; unsigned v, p; };
static unsigned val() { int b = vh::range(0, 32); unsigned v = b == 32 ? 0xffffffffu : (1u << (b & 31)); switch (vh::below(4)) { case 0: return v; case 1: return v - 1; case 2: return v + 1; default: return (unsigned)vh::rnd() >> vh::range(0, 31); } }
static void go(const vector<op> &ops, bool stream) {
  ostringstream d; for (size_t i = 0; i < ops.size(); i++) d << "wgdrbp"[ops[i].c] << ops[i].v << "/" << ops[i].p << " ";
  vh::begin_case((stream ? "stream: " : "buffer: ") + d.str(), ops.size() > 0);
  encoder e;
  for (size_t i = 0; i < ops.size(); i++) { const op &o = ops[i];
    vector<unsigned char> before(e.get_bytes());
    switch (o.c) { case 0: e.word_with_length(o.v, o.p); break; case 1: e.gamma(o.v); break; case 2: e.delta(o.v); break; case 3: e.rice(o.v, o.p); break; case 4: e.byte(o.v); break; case 5: e.prefix_code(o.v); break; }
    vector<unsigned char> &after = e.get_bytes();
    vh::check(after.size() >= before.size(), "bytes lost");
    for (size_t j = 0; j + 1 < before.size(); j++) vh::check(before[j] == after[j], "earlier byte changed");
  }
  vector<unsigned char> b(e.get_bytes()); b.resize(b.size() + 8, stream ? 0 : 0xff);
  unsigned char *heap = new unsigned char[b.size()]; memcpy(heap, &b[0], b.size());
  decoder r; istringstream is(string((char *)&b[0], b.size() - 8));
  if (stream) { ostringstream os; if (b.size() > 8) { int n = e.flush(os); vh::check(n == (int)b.size() - 8 && os.str() == is.str(), "flush wrote other bytes"); } r.attach(is, b.size() - 8); } else r.attach(heap);
  for (size_t i = 0; i < ops.size(); i++) { const op &o = ops[i]; unsigned g = 0, w = o.v;
    switch (o.c) { case 0: g = r.word_with_length(o.p); w = o.p < 32 ? o.v & ((1u << o.p) - 1) : o.v; break; case 1: g = r.gamma(); break; case 2: g = r.delta(); break; case 3: g = r.rice(o.p); break; case 4: g = r.byte(); break; case 5: g = r.prefix_code(); break; }
    if (g != w) { ostringstream x; x << "item " << i << " read as " << g << " instead of " << w; vh::fail(x.str()); }
  }
  delete[] heap;
}
static op mk(int c) { op o; o.c = c; o.p = 0; o.v = val(); if (c == 0) o.p = vh::range(0, 32); if (c == 1 || c == 2) { if (!o.v) o.v = 1; } if (c == 3) { o.p = vh::range(0, 31); if ((o.v >> o.p) == 0xffffffffu) o.v--; } if (c == 4) o.v &= 255; return o; }
int main(int argc, char **argv) {
  vh::init(argc, argv);
  for (int c = 0; c < 6; c++) for (int a = 0; a < 8; a++) for (int i = 0; i < 300; i++) { vector<op> v; op z = {0, 0, (unsigned)a}; z.v = vh::rnd(); v.push_back(z); v.push_back(mk(c)); v.push_back(mk(vh::below(6))); go(v, i & 1); }
  while (vh::time_left()) { vector<op> v; int n = vh::range(0, 40); int mask = 1 + vh::below(63); for (int i = 0; i < n; i++) { int c; do c = vh::below(6); while (!(mask >> c & 1)); v.push_back(mk(c)); } go(v, vh::below(2)); }
  return vh::done();
}
