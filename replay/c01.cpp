#include "vh.h"
#include "data/encoding/base64.h"
using namespace std; using namespace pfi::data::encoding;
static const char A[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static string ref(const string &s) {
  string r;
  for (size_t i = 0; i < s.size(); i += 3) {
    unsigned v = (unsigned char)s[i] << 16; size_t m = s.size() - i;
    if (m > 1) v |= (unsigned char)s[i + 1] << 8;
    if (m > 2) v |= (unsigned char)s[i + 2];
    r += A[v >> 18]; r += A[v >> 12 & 63]; r += m > 1 ? A[v >> 6 & 63] : '='; r += m > 2 ? A[v & 63] : '=';
  }
  return r;
}
static void one(const string &s) {
  vh::begin_case("base64 of " + vh::hex(s.substr(0, 3000)), s.size() > 0);
  string e, d;
  try { e = base64_encode(s); } catch (exception &x) { vh::fail(string("encode threw ") + x.what()); }
  vh::check(e == ref(s), "encoded " + vh::show(e) + ", RFC 4648 text " + vh::show(ref(s)));
  try { d = base64_decode(string(e.data(), e.size())); } catch (exception &x) { vh::fail(string("decode threw ") + x.what()); }
  vh::check(d == s, "decoded " + vh::show(d) + " instead of " + vh::show(s));
}
static void bad(const string &t) {
  vh::begin_case("decode of malformed " + vh::show(t));
  try { string d = base64_decode(t); } catch (invalid_argument &) { return; } catch (...) { vh::fail("another exception than invalid_argument"); }
  vh::fail("accepted");
}
int main(int argc, char **argv) {
  vh::init(argc, argv);
  for (size_t i = 0; i < vh::ce_s.size(); i++) one(vh::ce_s[i]);
  for (int c = 0; c < 256; c++) for (int p = 0; p < 3; p++) for (int l = p + 1; l <= 4; l++) { string s(l, 'x'); s[p] = c; one(s); }
  for (int n = 0; n <= 70; n++) for (int i = 0; i < 20; i++) one(vh::bytes(n));
  for (int n = 1; n < 20; n++) if (n % 4) bad(string(n, 'A'));
  for (int c = 0; c < 256; c++) if (c != '=' && !(c && strchr(A, c))) for (int p = 0; p < 12; p++) { string s(12, 'Q'); s[p] = c; bad(s); }
  for (int i = 0; i < 3000; i++) { string t = base64_encode(vh::bytes(vh::range(0, 40))); if (t.size() % 4 || t.empty()) continue; size_t e = t.find('='); if (e == string::npos) e = t.size(); if (!e) continue; int c; do c = vh::below(256); while (c == '=' || (c && strchr(A, c))); t[vh::below(e)] = c; bad(t); }
  for (int i = 0; i < 3000; i++) { string t = vh::bytes(vh::range(0, 16), "AB=/+z\x80\xff "); vh::begin_case("decode of " + vh::show(t)); try { base64_decode(string(t)); } catch (invalid_argument &) {} }
  while (vh::time_left()) one(vh::bytes(vh::range(0, 400)));
  for (int k = 8; k < 17; k++) for (int d = -2; d <= 2; d++) one(vh::bytes((1 << k) + d));
  return vh::done();
}
