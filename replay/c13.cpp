#include "vh.h"
#include "network/uri.h"
// oracle: split as RFC 3986 appendix B does, then check the characters of each component
static bool al(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); } static bool dg(char c) { return c >= '0' && c <= '9'; } static bool hx(char c) { return dg(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
static bool unres(char c) { return al(c) || dg(c) || (c && strchr("-._~", c)); } static bool sub(char c) { return c && strchr("!$&'()*+,;=", c); }
static bool chars(const std::string &s, const char *more) { for (size_t i = 0; i < s.size(); i++) { if (s[i] == '%') { if (i + 2 >= s.size() || !hx(s[i + 1]) || !hx(s[i + 2])) return false; i += 2; } else if (!(unres(s[i]) || sub(s[i]) || (s[i] && strchr(more, s[i])))) return false; } return true; }
static bool octet(const std::string &s) { if (s.empty() || s.size() > 3 || (s.size() > 1 && s[0] == '0')) return false; for (size_t i = 0; i < s.size(); i++) if (!dg(s[i])) return false; return atoi(s.c_str()) < 256; }
static std::vector<std::string> cutat(const std::string &s, char c) { std::vector<std::string> r(1); for (size_t i = 0; i < s.size(); i++) if (s[i] == c) r.push_back(""); else r.back() += s[i]; return r; }
static bool ip4(const std::string &s) { std::vector<std::string> v = cutat(s, '.'); if (v.size() != 4) return false; for (int i = 0; i < 4; i++) if (!octet(v[i])) return false; return true; }
static bool h16(const std::string &s) { if (s.empty() || s.size() > 4) return false; for (size_t i = 0; i < s.size(); i++) if (!hx(s[i])) return false; return true; }
// number of 16-bit groups in a colon separated list (an IPv4 address may come last and counts two), or -1
static int groups(const std::string &s, bool v4) { if (s.empty()) return 0; std::vector<std::string> v = cutat(s, ':'); int n = 0; for (size_t i = 0; i < v.size(); i++) { if (h16(v[i])) n++; else if (v4 && i + 1 == v.size() && ip4(v[i])) n += 2; else return -1; } return n; }
static bool ip6(const std::string &s) { size_t k = s.find("::"); if (k == std::string::npos) return groups(s, true) == 8; if (s.find("::", k + 1) != std::string::npos) return false; int a = groups(s.substr(0, k), false), b = groups(s.substr(k + 2), true); return a >= 0 && b >= 0 && a + b <= 7; }
static bool ipf(const std::string &s) { size_t k = s.find('.'); if (s.empty() || s[0] != 'v' || k == std::string::npos || k < 2 || k + 1 >= s.size()) return false; for (size_t i = 1; i < k; i++) if (!hx(s[i])) return false; for (size_t i = k + 1; i < s.size(); i++) if (!unres(s[i]) && !sub(s[i]) && s[i] != ':') return false; return true; }
struct U { std::string c[7]; };
static bool split(const std::string &s, U &u) { std::string r = s; size_t k;
  if ((k = r.find('#')) != std::string::npos) { u.c[6] = r.substr(k + 1); r.resize(k); if (!chars(u.c[6], ":@/?")) return false; }
  if ((k = r.find('?')) != std::string::npos) { u.c[5] = r.substr(k + 1); r.resize(k); if (!chars(u.c[5], ":@/?")) return false; }
  k = r.find_first_of(":/"); if (k != std::string::npos && r[k] == ':') { u.c[0] = r.substr(0, k); r = r.substr(k + 1); if (u.c[0].empty() || !al(u.c[0][0])) return false; for (size_t i = 0; i < u.c[0].size(); i++) if (!al(u.c[0][i]) && !dg(u.c[0][i]) && !(u.c[0][i] && strchr("+-.", u.c[0][i]))) return false; }
  if (r.substr(0, 2) == "//") { size_t e = r.find('/', 2); std::string a = r.substr(2, e == std::string::npos ? e : e - 2); r = e == std::string::npos ? "" : r.substr(e);
    if ((k = a.find('@')) != std::string::npos) { u.c[1] = a.substr(0, k); a = a.substr(k + 1); if (!chars(u.c[1], ":")) return false; }
    size_t h = 0; if (!a.empty() && a[0] == '[') { h = a.find(']'); if (h == std::string::npos) return false; h++; std::string l = a.substr(1, h - 2); if (!ip6(l) && !ipf(l)) return false; } else { h = a.find(':'); if (h == std::string::npos) h = a.size(); if (!chars(a.substr(0, h), "")) return false; }
    u.c[2] = a.substr(0, h); a = a.substr(h); if (!a.empty()) { if (a[0] != ':') return false; u.c[3] = a.substr(1); for (size_t i = 0; i < u.c[3].size(); i++) if (!dg(u.c[3][i])) return false; } }
  u.c[4] = r; return chars(r, ":@/"); }
static void one(const std::string &s) { vh::begin_case(vh::show(s), s.size() > 1); U e; bool ok = split(s, e); if (!ok) e = U(); char *b = new char[s.size() + 1]; memcpy(b, s.data(), s.size()); std::string copy(b, s.size()); delete[] b;
  pfi::network::uri u(copy); const std::string g[7] = {u.scheme(), u.userinfo(), u.host(), u.port(), u.path(), u.query(), u.fragment()}; const char *n[7] = {"scheme", "userinfo", "host", "port", "path", "query", "fragment"};
  for (int i = 0; i < 7; i++) vh::check(g[i] == e.c[i], std::string(n[i]) + " is " + vh::show(g[i]) + " instead of " + vh::show(e.c[i]) + (ok ? "" : " (not a URI reference)"));
  std::string a = (g[1].empty() ? "" : g[1] + "@") + g[2] + (g[3].empty() ? "" : ":" + g[3]); vh::check(u.authority() == a, "authority is " + vh::show(u.authority())); vh::check(copy == s, "argument changed"); }
static std::string pick(const char *t[], int n) { return t[vh::below(n)]; }
static std::string word(const char *abc) { std::string s; for (int k = vh::below(5); k > 0; k--) { int r = vh::below(12); if (r == 0) { s += '%'; s += "09afAFgG"[vh::below(8)]; s += "09afAFgG"[vh::below(8)]; } else if (r == 1) s += "-._~!$&'()*+,;=:@/?#[]% \"<>\\^`{|}"[vh::below(34)]; else if (r == 2 && !vh::below(6)) s += (char)vh::rnd(); else s += abc[vh::below(strlen(abc))]; } return s; }
static std::string addr6() { std::string s; int n = vh::below(9), z = vh::below(10); for (int i = 0; i < n; i++) { if (i) s += ':'; if (i == z) s += ':'; if (i == z && i == 0) s += ':'; if (i + 1 == n && !vh::below(4)) { s += "1.2.3.4"; break; } for (int k = 1 + vh::below(vh::below(9) ? 4 : 5); k > 0; k--) s += "0123456789abcdefABCDEF"[vh::below(22)]; } if (z >= n && z < n + 2) s += "::"; if (!vh::below(20)) s += ":"; return s; }
int main(int c, char **v) { vh::init(c, v); for (size_t i = 0; i < vh::ce_s.size(); i++) one(vh::ce_s[i]);
  const char *fix[] = {"", "/", "//", "///", "a:", "a:b", ":a", "a:/b", "http://127.0.0.1.nip.io/", "http://[::1]:80/x", "http://[2001:db8::1]/", "http://[1:2:3:4:5:6:7::]/", "http://[::]/", "http://[v1.ab:c]/", "http://u%41@h/", "//%41%42@h", "http://h:/", "http://a@b@c/", "%41", "%4", "%", "s://%4", "http://[", "http://[]", "http://[v", "http://[v1", "http://[v1.", "http://[::", "s:?q#f", "#", "?", "?#", "x?y?z#w", "a#b#c", "http://h/%zz", "1a:b", "./a:b", "a/b:c", "//u:p@[::1.2.3.4]:1?x#y"}; for (size_t i = 0; i < sizeof fix / sizeof *fix; i++) { one(fix[i]); for (size_t k = 0; k < strlen(fix[i]); k++) one(std::string(fix[i], k)); one(std::string(fix[i]) + '\0'); one(std::string(fix[i]) + std::string("\0x", 2)); }
  std::string abc = "a1:/?#[]@%.vA"; for (size_t i = 0; i < abc.size(); i++) for (size_t j = 0; j < abc.size(); j++) for (size_t k = 0; k < abc.size(); k++) for (size_t l = 0; l < abc.size(); l++) { std::string s; s += abc[i]; s += abc[j]; s += abc[k]; s += abc[l]; one(s); one("s://" + s); }
  for (int i = 0; i < 256; i++) { const char *pre[] = {"", "s", "s:", "s://", "s://u@", "s://h", "s://h:", "s://h/", "s://h?", "s://h#", "s://[v1.", "s://[::1"}; for (int k = 0; k < 12; k++) { std::string s = pre[k]; s += (char)i; one(s); if (k == 10 || k == 11) one(s + "]"); one(s + "@x"); } }
  while (vh::time_left()) for (int it = 0; it < 100; it++) { std::string s; const char *sc[] = {"http:", "", "a+b-.:", "X:", "1:", ""}; s += pick(sc, 6);
    if (vh::below(3)) { s += "//"; if (!vh::below(3)) s += word("abc:%41") + "@"; int r = vh::below(6); if (r == 0) s += "[" + addr6() + "]"; else if (r == 1) { for (int i = 0; i < 4; i++) s += (i ? "." : "") + vh::str((int)vh::below(300)); if (!vh::below(3)) s += word("ab."); } else if (r == 2) s += "[v" + word("0aF") + "." + word("ab:") + "]"; else s += word("abc.12"); if (!vh::below(3)) s += ":" + word("0123"); }
    for (int k = vh::below(4); k > 0; k--) s += "/" + word("abc:@"); if (!vh::below(4)) s += word("abc"); if (!vh::below(3)) s += "?" + word("q=&/?"); if (!vh::below(3)) s += "#" + word("f/?"); if (!vh::below(30) && !s.empty()) s[vh::below(s.size())] = (char)vh::rnd(); one(s); }
  return vh::done(); }
