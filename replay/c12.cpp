#include "vh.h"
#include "network/uri.h"
using namespace std; using namespace pfi::network;
static bool unres(unsigned char c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '-' || c == '_' || c == '.' || c == '~'; }
static bool hx(char c) { return c && strchr("0123456789abcdefABCDEF", c); }
static int hv(char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }
static string enc(const string &s) { string r; for (size_t i = 0; i < s.size(); i++) { unsigned char c = s[i]; if (unres(c)) r += c; else if (c == ' ') r += '+'; else { r += '%'; r += "0123456789ABCDEF"[c >> 4]; r += "0123456789ABCDEF"[c & 15]; } } return r; }
static void one(const string &s) { vh::begin_case("percent-encode " + vh::hex(s)); string e = uri_encode(s); vh::check(e == enc(s), "encoded as " + vh::show(e) + ", expected " + vh::show(enc(s))); string d = uri_decode(string(e.data(), e.size())); vh::check(d == s, "decoded back as " + vh::hex(d)); }
static void dec(const string &t) { vh::begin_case("percent-decode " + vh::show(t)); string r; bool known = true; for (size_t i = 0; i < t.size(); i++) { if (t[i] == '%' && i + 2 < t.size()) { if (!hx(t[i + 1]) || !hx(t[i + 2])) { known = false; r += '?'; } else r += (char)(hv(t[i + 1]) * 16 + hv(t[i + 2])); i += 2; } else if (t[i] == '+') r += ' '; else r += t[i]; }
  string d = uri_decode(string(t.data(), t.size())); if (known) vh::check(d == r, "decoded as " + vh::show(d) + ", expected " + vh::show(r)); else vh::check(d.size() == r.size(), "decoded length " + vh::str(d.size()) + ", expected " + vh::str(r.size())); }
int main(int c, char **v) { vh::init(c, v); for (size_t i = 0; i < vh::ce_s.size(); i++) { one(vh::ce_s[i]); dec(vh::ce_s[i]); }
  one(""); dec(""); for (int a = 0; a < 256; a++) { one(string(1, a)); for (int b = 0; b < 256; b++) { string s; s += (char)a; s += (char)b; one(s); dec(s); char h[8]; sprintf(h, "%%%c%c", a, b); if (hx(a) && hx(b)) { dec(string(h, 3)); dec("a" + string(h, 3) + "%"); dec(string(h, 3) + "%4"); } } }
  do { one(vh::bytes(vh::below(60))); one(vh::bytes(vh::below(300), "abc %+&=~-_.\x80\xff\x01")); dec(vh::bytes(vh::below(12), "%%%0a+F9 z")); dec(vh::bytes(vh::below(12), "%41aFf")); } while (vh::time_left());
  return vh::done(); }
