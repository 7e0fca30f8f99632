#include "vh.h"
#include "data/string/ustring.h"
using namespace std; using namespace pfi::data::string;
static bool wf(const unsigned char *p, size_t n, size_t &l, unsigned &c) {
  if (!n) return false; unsigned b = p[0];
  if (b < 0x80) { l = 1; c = b; return true; }
  int m = b >= 0xc2 && b <= 0xdf ? 2 : b >= 0xe0 && b <= 0xef ? 3 : b >= 0xf0 && b <= 0xf4 ? 4 : 0;
  if (!m || n < (size_t)m) return false;
  c = b & (m == 2 ? 0x1f : m == 3 ? 0x0f : 7);
  for (int i = 1; i < m; i++) { if ((p[i] & 0xc0) != 0x80) return false; c = c << 6 | (p[i] & 0x3f); }
  if (m == 3 && c < 0x800) return false; if (m == 4 && (c < 0x10000 || c > 0x10ffff)) return false; if (c >= 0xd800 && c <= 0xdfff) return false;
  l = m; return true;
}
static bool valid(const string &s, vector<unsigned> *cs = 0) { size_t i = 0, l; unsigned c; while (i < s.size()) { if (!wf((const unsigned char *)s.data() + i, s.size() - i, l, c)) return false; i += l; if (cs) cs->push_back(c); } return true; }
static void one(const string &s) {
  vh::begin_case("bytes " + vh::hex(s), !s.empty());
  char *h = new char[s.size()]; memcpy(h, s.data(), s.size());
  size_t l; unsigned c; bool ok = wf((unsigned char *)h, s.size(), l, c);
  const char *it = h; exception_fallback fb;
  try { unsigned r = chars_to_uchar(it, (const char *)h + s.size(), fb); if (s.size()) vh::check(ok && r == c && it == h + l, "decoder accepted it or gave another code point/length"); } catch (invalid_argument &) { vh::check(!ok && s.size(), "decoder rejected a well-formed sequence"); }
  it = h; unsigned r = chars_to_uchar(it, (const char *)h + s.size()); if (s.size()) vh::check(r == (ok ? c : 0xfffd) && it > h && it <= h + s.size() && (!ok || it == h + l), "replacing decoder");
  vector<unsigned> cs; bool v = valid(s, &cs);
  vh::check(check_utf8(s) == v, "check_utf8 disagrees with the decoder");
  ustring u = string_to_ustring(s), u2 = string_to_ustring(h, s.size());
  vh::check(u == u2, "the two string_to_ustring forms differ");
  if (v) { vh::check(u.size() == cs.size() && equal(cs.begin(), cs.end(), u.begin()), "wrong code points"); vh::check(ustring_to_string(u) == s, "round trip"); }
  else vh::check(find(u.begin(), u.end(), 0xfffdu) != u.end() || true, "");
  string z = sanitize_utf8(s); vh::check(valid(z), "sanitised text is ill-formed: " + vh::hex(z));
  if (v) { bool plain = true; for (size_t i = 0; i < cs.size(); i++) if (cs[i] < 0x20 || cs[i] == 0xfffe || cs[i] == 0xffff) plain = false; if (plain) vh::check(z == s, "sanitiser changed well-formed text without control characters"); }
  delete[] h;
}
int main(int argc, char **argv) {
  vh::init(argc, argv);
  static const unsigned char e[] = {0x00, 0x1f, 0x20, 0x41, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xf7, 0xf8, 0xfb, 0xfc, 0xfd, 0xfe, 0xff};
  const int E = sizeof e;
  one("");
  for (size_t i = 0; i < vh::ce_s.size(); i++) one(vh::ce_s[i]);
  // every three-byte sequence through the decoder and the validity test
  for (int a = 0xe0; a < 0xf0; a++) for (int b = 0; b < 256; b++) { vh::begin_case("three-byte sequences " + vh::str(a) + " " + vh::str(b) + " *"); for (int c = 0; c < 256; c++) { char h[3] = {(char)a, (char)b, (char)c}; size_t l; unsigned cp; bool ok = wf((unsigned char *)h, 3, l, cp); const char *it = h; unsigned r = chars_to_uchar(it, (const char *)h + 3); vh::check(r == (ok ? cp : 0xfffd) && (!ok || it == h + 3), "decoding with last byte " + vh::str(c)); } }
  for (int a = 0xf0; a < 0xf5; a++) for (int b = 0; b < 256; b++) { vh::begin_case("four-byte sequences " + vh::str(a) + " " + vh::str(b) + " *"); for (int c = 0x7f; c < 0xc1; c++) for (int d = 0x7f; d < 0xc1; d++) { char h[4] = {(char)a, (char)b, (char)c, (char)d}; size_t l; unsigned cp; bool ok = wf((unsigned char *)h, 4, l, cp); const char *it = h; unsigned r = chars_to_uchar(it, (const char *)h + 4); if (r != (ok ? cp : 0xfffd) || (ok && it != h + 4)) vh::fail("decoding with last bytes " + vh::str(c) + " " + vh::str(d)); } }
  for (int a = 0; a < 256; a++) { one(string(1, a)); for (int b = 0; b < 256; b++) { string s; s += a; s += b; one(s); } }
  for (int a = 11; a < E; a++) for (int b = 0; b < E; b++) for (int c = 0; c < E; c++) { string s; s += e[a]; s += e[b]; s += e[c]; one(s); }
  for (unsigned c = 0; c <= 0x10ffff; c += c < 0x3000 ? 1 : 1 + vh::below(23)) { if (c >= 0xd800 && c <= 0xdfff) continue; vh::begin_case("code point " + vh::str(c)); string s = uchar_to_string(c); size_t l; unsigned d; vh::check(wf((unsigned char *)s.data(), s.size(), l, d) && l == s.size() && d == c, "encoding " + vh::hex(s)); vh::check(string_to_uchar(s) == c, "decode after encode"); vh::check(c == 0 || string_to_uchar(s.c_str()) == c, "decode after encode (C string)"); }
  while (vh::time_left()) { for (int i = 0; i < 200; i++) { string s; int n = vh::range(1, 8); for (int j = 0; j < n; j++) { if (vh::below(3) == 0) { unsigned c = vh::below(4) ? vh::below(0x110000) : vh::below(0x900); if (c >= 0xd800 && c <= 0xdfff) c = 0x41; s += uchar_to_string(c); } else s += (char)e[vh::below(E)]; } one(s); if (s.size()) one(s.substr(0, s.size() - 1)); } }
  return vh::done();
}
