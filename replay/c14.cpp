#include "vh.h"
#include <cmath>
#include "text/json.h"
using namespace std; using namespace pfi::text::json;
// ---- reference value, writer and strict reader, written from RFC 4627
struct V { int t; long long i; double d; string s; vector<V> a; map<string, V> o; V(int t = 0) : t(t), i(0), d(0) {} };     // 0 null 1 int 2 float 3 bool 4 string 5 array 6 object
static void u8(string &r, unsigned c) { if (c < 0x80) r += (char)c; else if (c < 0x800) { r += (char)(0xc0 | c >> 6); r += (char)(0x80 | (c & 63)); } else if (c < 0x10000) { r += (char)(0xe0 | c >> 12); r += (char)(0x80 | (c >> 6 & 63)); r += (char)(0x80 | (c & 63)); } else { r += (char)(0xf0 | c >> 18); r += (char)(0x80 | (c >> 12 & 63)); r += (char)(0x80 | (c >> 6 & 63)); r += (char)(0x80 | (c & 63)); } }
static unsigned cp() { switch (vh::below(9)) { case 0: return vh::below(0x20); case 1: return "\"\\/\b\f\n\r\t"[vh::below(8)]; case 2: return 0x20 + vh::below(0x60); case 3: return 0x80 + vh::below(0x780); case 4: { unsigned c = 0x800 + vh::below(0xf800); return c >= 0xd800 && c < 0xe000 ? 0xffff : c; } case 5: return 0x10000 + vh::below(0x100000); case 6: { static const unsigned e[] = {0, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x10ffff, 0x103ff, 0x10400, 0xfffd}; return e[vh::below(13)]; } default: return 'a' + vh::below(26); } }
static string rstr() { string r; size_t n = vh::below(10) == 0 ? 200 + vh::below(100) : vh::below(40) == 0 ? 400 + vh::below(1000) : vh::below(8); while (n--) u8(r, cp()); return r; }
static V gen(int depth) { V v(vh::below(depth > 0 ? 7 : 5)); switch (v.t) { case 1: { static const long long e[] = {0, -1, 1, 9, 10, INT64_MAX, INT64_MIN, 1LL << 31, -(1LL << 31), 4294967296LL, -10}; v.i = vh::below(2) ? e[vh::below(11)] : (long long)vh::rnd() >> vh::below(64); break; } case 2: v.d = vh::below(2) ? (int)vh::below(2001) / 8.0 - 125 : ldexp((double)(int)vh::rnd(), (int)vh::below(600) - 300); break; case 3: v.i = vh::below(2); break; case 4: v.s = rstr(); break; case 5: for (int n = vh::below(4); n-- > 0;) v.a.push_back(gen(depth - 1)); break; case 6: for (int n = vh::below(4); n-- > 0;) v.o[rstr()] = gen(depth - 1); } return v; }
static json mk(const V &v) { switch (v.t) { case 1: return json(new json_integer(v.i)); case 2: return json(new json_float(v.d)); case 3: return json(new json_bool(v.i)); case 4: return json(new json_string(v.s)); case 5: { json j(new json_array()); for (size_t i = 0; i < v.a.size(); i++) j.add(mk(v.a[i])); return j; } case 6: { json j(new json_object()); for (map<string, V>::const_iterator p = v.o.begin(); p != v.o.end(); ++p) j.add(p->first, mk(p->second)); return j; } } return json(new json_null()); }
static string num(double d) { return vh::str(d); }
// does j represent v?  floats only to 12 significant digits (what the printer writes), as number
static string differ(const json &j, const V &v, bool exact) {
  switch (v.t) { case 0: return j.type() == json::Null ? "" : "null expected"; case 1: { if (!exact && j.type() == json::Float) { double x = dynamic_cast<json_float *>(j.get())->get(); return fabs(x - v.i) <= 1e-11 * fabs(x) ? "" : "number differs"; } if (j.type() != json::Integer) return "integer expected"; long long x = dynamic_cast<json_integer *>(j.get())->get(); return x == v.i ? "" : "integer " + vh::str(x) + " instead of " + vh::str(v.i); }
  case 2: { double x; if (j.type() == json::Float) x = dynamic_cast<json_float *>(j.get())->get(); else if (j.type() == json::Integer && !exact) x = dynamic_cast<json_integer *>(j.get())->get(); else return "float expected"; return (exact ? x == v.d : fabs(x - v.d) <= 1e-11 * fabs(v.d)) ? "" : "float " + num(x) + " instead of " + num(v.d); }
  case 3: return j.type() == json::Bool && dynamic_cast<json_bool *>(j.get())->get() == (v.i != 0) ? "" : "boolean differs"; case 4: { if (j.type() != json::String) return "string expected"; string x = dynamic_cast<json_string *>(j.get())->get(); return x == v.s ? "" : "string " + vh::show(x) + " instead of " + vh::show(v.s); }
  case 5: { if (j.type() != json::Array) return "array expected"; if (j.size() != v.a.size()) return "array of " + vh::str(j.size()) + " elements instead of " + vh::str(v.a.size()); for (size_t i = 0; i < v.a.size(); i++) { string e = differ(j[i], v.a[i], exact); if (!e.empty()) return "element " + vh::str(i) + ": " + e; } return ""; }
  default: { if (j.type() != json::Object) return "object expected"; if (j.size() != v.o.size()) return "object of " + vh::str(j.size()) + " members instead of " + vh::str(v.o.size()); for (map<string, V>::const_iterator p = v.o.begin(); p != v.o.end(); ++p) { if (!j.count(p->first)) return "member " + vh::show(p->first) + " missing"; string e = differ(j[p->first], p->second, exact); if (!e.empty()) return "member " + vh::show(p->first) + ": " + e; } return ""; } } }
// strict reader; verdict: 1 accepted, 0 rejected, -1 not judged (leading zeros, white space or number ranges outside the standard)
struct Rd { const string &s; size_t p; bool bad, odd; Rd(const string &s) : s(s), p(0), bad(false), odd(false) {}
  void ws() { while (p < s.size() && (s[p] == ' ' || s[p] == '\t' || s[p] == '\n' || s[p] == '\r' || s[p] == '\v' || s[p] == '\f')) { if (s[p] == '\v' || s[p] == '\f') odd = true; p++; } }
  int dec() { unsigned char c = s[p]; int n = c < 0x80 ? 1 : c >= 0xc2 && c < 0xe0 ? 2 : c >= 0xe0 && c < 0xf0 ? 3 : c >= 0xf0 && c < 0xf5 ? 4 : 0; if (!n || p + n > s.size()) return -1; int v = n == 1 ? c : c & (0xff >> (n + 1)); for (int i = 1; i < n; i++) { unsigned char d = s[p + i]; if ((d & 0xc0) != 0x80) return -1; v = v << 6 | (d & 63); } if ((n == 3 && v < 0x800) || (n == 4 && (v < 0x10000 || v > 0x10ffff)) || (v >= 0xd800 && v < 0xe000)) return -1; p += n; return v; }
  int hex4() { if (p + 4 > s.size()) { bad = true; return 0; } int v = 0; for (int i = 0; i < 4; i++) { char c = s[p++]; int d = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; if (d < 0) { bad = true; return 0; } v = v * 16 + d; } return v; }
  string str() { string r; if (p >= s.size() || s[p] != '"') { bad = true; return r; } p++; while (!bad) { if (p >= s.size()) { bad = true; break; } if (s[p] == '"') { p++; break; } if (s[p] == '\\') { p++; if (p >= s.size()) { bad = true; break; } char c = s[p++]; const char *k = c ? strchr("\"\\/bfnrt", c) : 0; if (k) r += "\"\\/\b\f\n\r\t"[k - "\"\\/bfnrt"]; else if (c == 'u') { unsigned u = hex4(); if (bad) break; if (u >= 0xdc00 && u < 0xe000) { bad = true; break; } if (u >= 0xd800 && u < 0xdc00) { if (p + 2 > s.size() || s[p] != '\\' || s[p + 1] != 'u') { bad = true; break; } p += 2; unsigned l = hex4(); if (bad || l < 0xdc00 || l > 0xdfff) { bad = true; break; } u = 0x10000 + ((u - 0xd800) << 10) + (l - 0xdc00); } u8(r, u); } else bad = true; } else { int c = dec(); if (c < 0x20) { bad = true; break; } u8(r, c); } } return r; }
  V val() { ws(); V v; if (bad || p >= s.size()) { bad = true; return v; } char c = s[p]; if (c == '"') { v.t = 4; v.s = str(); }
    else if (c == '[') { v.t = 5; p++; ws(); if (p < s.size() && s[p] == ']') { p++; return v; } for (;;) { v.a.push_back(val()); if (bad) break; ws(); if (p >= s.size()) { bad = true; break; } if (s[p] == ',') p++; else if (s[p] == ']') { p++; break; } else { bad = true; break; } } }
    else if (c == '{') { v.t = 6; p++; ws(); if (p < s.size() && s[p] == '}') { p++; return v; } for (;;) { ws(); string k = str(); if (bad) break; ws(); if (p >= s.size() || s[p] != ':') { bad = true; break; } p++; V x = val(); if (bad) break; v.o[k] = x; ws(); if (p >= s.size()) { bad = true; break; } if (s[p] == ',') p++; else if (s[p] == '}') { p++; break; } else { bad = true; break; } } }
    else if (c == '-' || (c >= '0' && c <= '9')) { size_t b = p; if (c == '-') p++; size_t d = p; while (p < s.size() && isdigit((unsigned char)s[p])) p++; if (p == d) { bad = true; return v; } if (s[d] == '0' && p - d > 1) odd = true; bool fr = false; if (p < s.size() && s[p] == '.') { fr = true; p++; d = p; while (p < s.size() && isdigit((unsigned char)s[p])) p++; if (p == d) { bad = true; return v; } } if (p < s.size() && (s[p] == 'e' || s[p] == 'E')) { fr = true; p++; if (p < s.size() && (s[p] == '+' || s[p] == '-')) p++; d = p; while (p < s.size() && isdigit((unsigned char)s[p])) p++; if (p == d) { bad = true; return v; } } string t = s.substr(b, p - b); errno = 0; if (fr) { v.t = 2; v.d = strtod(t.c_str(), 0); if (errno) odd = true; } else { v.t = 1; v.i = strtoll(t.c_str(), 0, 10); if (errno) bad = true; } }
    else { const char *w[] = {"null", "true", "false"}; int i = 0; for (; i < 3; i++) if (s.compare(p, strlen(w[i]), w[i]) == 0) break; if (i == 3) { bad = true; return v; } p += strlen(w[i]); if (i) { v.t = 3; v.i = i == 1; } } return v; } };
static void read_text(const string &t) {
  vh::begin_case("parse " + vh::show(t)); Rd r(t); V v = r.val(); if (r.odd) return;
  json j; bool ok = true; string why; try { istringstream is(t); j = json_parser(is).parse(); } catch (const std::exception &e) { ok = false; why = e.what(); }
  if (r.bad) { if (ok) { ostringstream os; os << j; vh::fail("malformed text accepted as " + os.str()); } return; } if (!ok) vh::fail("well-formed text rejected: " + why); string e = differ(j, v, true); vh::check(e.empty(), e); }
static json back(const string &t, const char *what) { try { istringstream is(t); return json_parser(is).parse(); } catch (const std::exception &e) { vh::fail(string("printed text rejected (") + what + "): " + e.what() + " text " + vh::show(t)); } return json(); }
static void trip(const V &v) {
  json j = mk(v); ostringstream o[4]; o[0] << j; o[1] << without_escape(j); o[2] << pretty(j); o[3] << pretty(without_escape(j));
  static const char *nm[] = {"escaped", "not escaped", "pretty", "pretty, not escaped"};
  for (int m = 0; m < 4; m++) { string t = o[m].str(); vh::begin_case(string("print (") + nm[m] + ") and parse " + vh::show(t)); Rd r(t); V w = r.val(); r.ws(); vh::check(!r.bad && r.p == t.size(), string("printed text is not JSON")); string e = differ(j, w, false); vh::check(e.empty(), "printed text reads as another value: " + e); json k = back(t, nm[m]); e = differ(k, v, false); vh::check(e.empty(), e); if (m != 1 && m != 3) for (size_t i = 0; i < t.size(); i++) vh::check((unsigned char)t[i] < 0x7f, "escaped text holds a byte outside printable ASCII"); }
  json c = j.clone(); string e = differ(c, v, true); vh::check(e.empty(), "clone: " + e); }
static string wspc() { return vh::bytes(vh::below(3), " \t\n\r"); }
static string jstr(const string &s) { string r = "\""; for (size_t i = 0; i < s.size();) { Rd d(s); d.p = i; unsigned c = d.dec(); i = d.p; char b[16]; int k = vh::below(4); if (c == '"' || c == '\\' || c < 0x20) k = vh::below(2); const char *q = c && c < 0x80 ? strchr("\"\\/\b\f\n\r\t", c) : 0; if (k == 0 && q) { r += '\\'; r += "\"\\/bfnrt"[q - "\"\\/\b\f\n\r\t"]; if (0) q = 0; } else if (k <= 1) { if (c >= 0x10000) { sprintf(b, vh::below(2) ? "\\u%04x\\u%04X" : "\\u%04X\\u%04x", 0xd800 + ((c - 0x10000) >> 10), 0xdc00 + ((c - 0x10000) & 1023)); r += b; } else { sprintf(b, vh::below(2) ? "\\u%04x" : "\\u%04X", c); r += b; } } else r += s.substr(d.p - (c < 0x80 ? 1 : c < 0x800 ? 2 : c < 0x10000 ? 3 : 4), c < 0x80 ? 1 : c < 0x800 ? 2 : c < 0x10000 ? 3 : 4); } return r + "\""; }
static string write(const V &v) { string r = wspc(); switch (v.t) { case 0: return r + "null"; case 1: return r + vh::str(v.i); case 2: { char b[64]; sprintf(b, vh::below(2) ? "%.17g" : "%.3e", v.d); if (!strpbrk(b, ".e")) strcat(b, vh::below(2) ? ".0" : "e1"); return r + b; } case 3: return r + (v.i ? "true" : "false"); case 4: return r + jstr(v.s); case 5: { r += "["; for (size_t i = 0; i < v.a.size(); i++) { if (i) r += wspc() + ","; r += write(v.a[i]); } return r + wspc() + "]"; } default: { r += "{"; bool f = true; for (map<string, V>::const_iterator p = v.o.begin(); p != v.o.end(); ++p) { if (!f) r += ","; f = false; r += wspc() + jstr(p->first) + wspc() + ":" + write(p->second) + wspc(); } return r + "}"; } } }
struct Ev : json_parser::callback { std::string l; void null() { l += "n;"; } void boolean(bool b) { l += b ? "t;" : "f;"; } void integer(int64_t i) { l += "i" + vh::str(i) + ";"; } void number(double) { l += "d;"; } void string(const char *p, size_t n) { l += "s" + vh::hex(std::string(p, n)) + ";"; } void start_object() { l += "{;"; } void object_key(const char *p, size_t n) { l += "k" + vh::hex(std::string(p, n)) + ";"; } void end_object() { l += "};"; } void start_array() { l += "[;"; } void end_array() { l += "];"; } };
static string evs(const V &v) { switch (v.t) { case 0: return "n;"; case 1: return "i" + vh::str(v.i) + ";"; case 2: return "d;"; case 3: return v.i ? "t;" : "f;"; case 4: return "s" + vh::hex(v.s) + ";"; case 5: { string r = "[;"; for (size_t i = 0; i < v.a.size(); i++) r += evs(v.a[i]); return r + "];"; } default: { string r = "{;"; for (map<string, V>::const_iterator p = v.o.begin(); p != v.o.end(); ++p) r += "k" + vh::hex(p->first) + ";" + evs(p->second); return r + "};"; } } }
static void events(const vector<V> &vs) { string t, e; for (size_t i = 0; i < vs.size(); i++) { t += write(vs[i]) + (vh::below(2) ? " " : "\n"); e += evs(vs[i]); } vh::begin_case("documents in one stream: " + vh::show(t)); istringstream is(t); json_parser p(is); Ev ev; try { for (size_t i = 0; i < vs.size(); i++) p.parse_stream(ev); } catch (const std::exception &x) { vh::fail(string("rejected: ") + x.what()); } vh::check(ev.l == e, "events " + ev.l + " instead of " + e); try { p.parse_stream(ev); vh::fail("a value after the last document"); } catch (const pfi::lang::end_of_data &) {} catch (const std::exception &x) { vh::fail(string("end of the data reported as an error: ") + x.what()); } }
int main(int c, char **v) { vh::init(c, v); for (size_t i = 0; i < vh::ce_s.size(); i++) { V s(4); s.s = vh::ce_s[i]; read_text(vh::ce_s[i]); Rd d(s.s); bool ok = true; while (d.p < s.s.size()) if (d.dec() < 0) { ok = false; break; } if (ok) trip(s); }
  static const char *fix[] = {"", " ", "-", "- 1", "1.", "1.]", "1e", "1e+", "1e5", "1E5", "-1e5", "0", "-0", "1.5", "1.5e3", "[", "]", "[1", "[1,", "[1,]", "[,1]", "[1 2]", "[1]]", "{", "{}", "{,}", "{\"a\"}", "{\"a\":}", "{\"a\":1,}", "{\"a\":1", "{a:1}", "{\"a\" 1}", "{\"a\":1 \"b\":2}", "{1:2}", "nul", "nulL", "tru", "fals", "true", "false", "null", "\"", "\"a", "\"\\\"", "\"\\u12\"", "\"\\u123g\"", "\"\\x\"", "\"\\ud800\"", "\"\\udc00\"", "\"\\ud800\\u0041\"", "\"\\ud800\\udc00\"", "\"\\udbff\\udfff\"", "\"a\nb\"", "\"\x7f\"", "\"\\u0000\"", "[[[[]]]]", "[1,2,[3,{\"x\":[]}]]", "{\"a\":1,\"a\":2}", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "\"\xc0\x80\"", "\"\xed\xa0\x80\"", "\"\xf4\x8f\xbf\xbf\"", "\"\xf4\x90\x80\x80\"", "\"\xff\"", "[1,2]", "+1", ".5", "1 ", "[1.5 ]", "[1e5]", "[1E-2,3]", "[1.e1]", "[\"\\/\"]"};
  for (size_t i = 0; i < sizeof fix / sizeof *fix; i++) read_text(fix[i]); { string z("\"\0\"", 3); read_text(z); }
  for (int b = 0; b < 0x80; b++) { V s(4); s.s = string(1, b); trip(s); s.s = "x" + string(1, b) + "y"; trip(s); read_text("\"" + string(1, b) + "\""); read_text("\"\\" + string(1, b) + "\""); read_text(string(1, b)); read_text("[" + string(1, b) + "]"); read_text("[1" + string(1, b) + "2]"); read_text("[\"\\u00" + string(1, b) + "0\"]"); } for (int n = 236; n < 275; n++) for (int k = 0; k < 4; k++) { V s(4); static const unsigned e[] = {'a', 0xe9, 0x20ac, 0x1f600}; for (int i = 0; i < n; i++) u8(s.s, i == n - 1 ? e[k] : 'z'); trip(s); read_text("[" + jstr(s.s) + "]"); V q(4); for (int i = 0; i < n / (k + 1); i++) u8(q.s, e[k]); trip(q); }
  do { V x = gen(4); trip(x); string t = write(x); read_text(t); if (!t.empty()) { string m = t; switch (vh::below(4)) { case 0: m.resize(vh::below(m.size())); break; case 1: m.erase(vh::below(m.size()), 1); break; case 2: m[vh::below(m.size())] = vh::bytes(1, "[]{},:\"\\ 0-.eutrnl")[0]; break; default: m.insert(vh::below(m.size() + 1), vh::bytes(1, "[]{},:\"\\ 0-.eutrnl")); } read_text(m); } vector<V> d; for (int n = vh::below(4); n-- > 0;) d.push_back(gen(2)); events(d); } while (vh::time_left());
  return vh::done(); }
