#include "vh.h"
#include "text/xhtml.h"
using namespace std; using namespace pfi::text::xhtml; typedef pfi::lang::shared_ptr<html_elem> SP;
static string esc(const string &s) { string r; for (size_t i = 0; i < s.size(); i++) switch (s[i]) { case '&': r += "&amp;"; break; case '"': r += "&quot;"; break; case '\'': r += "&#039;"; break; case '<': r += "&lt;"; break; case '>': r += "&gt;"; break; default: r += s[i]; } return r; }
// resolves entities, numeric ones included; fails on a raw markup character
static bool unesc(const string &t, string &r) { r.clear(); for (size_t i = 0; i < t.size(); i++) { if (t[i] == '<' || t[i] == '>' || t[i] == '"' || t[i] == '\'') return false; if (t[i] != '&') { r += t[i]; continue; } size_t e = t.find(';', i); if (e == string::npos) return false; string n = t.substr(i + 1, e - i - 1); i = e;
    if (n == "amp") r += '&'; else if (n == "lt") r += '<'; else if (n == "gt") r += '>'; else if (n == "quot") r += '"'; else if (n == "apos") r += '\''; else if (n.size() > 1 && n[0] == '#') r += (char)(n[1] == 'x' ? strtol(n.c_str() + 2, 0, 16) : strtol(n.c_str() + 1, 0, 10)); else return false; } return true; }
static void one(const string &s) { vh::begin_case("escape " + vh::hex(s)); string e = html_encode(s), d; vh::check(unesc(e, d) && d == s, "escaped as " + vh::show(e) + ": not resolved back to the text"); ostringstream os; text_elem t(s); t.render(os); vh::check(unesc(os.str(), d) && d == s, "text element rendered as " + vh::show(os.str())); ostringstream op; static_cast<html_elem &>(t).pretty(op); vh::check(unesc(op.str(), d) && d == s, "text element pretty-printed as " + vh::show(op.str())); }
struct N { bool tag; string text, name; map<string, string> attr; vector<N> ch; };
static string str_() { string s = vh::bytes(vh::below(8), "ab<>&\"'=/ \x80;#039"); return s; }
static string nm() { string s = vh::bytes(1 + vh::below(4), "abcxyz<&\"'"); return "n" + s; }
static N gen(int d) { N n; n.tag = d > 0 && vh::below(4); if (!n.tag) { n.text = str_(); if (n.text.empty()) n.text = "t"; return n; } n.name = nm(); int k = vh::below(3); for (int i = 0; i < k; i++) n.attr[nm()] = str_(); k = vh::below(4); for (int i = 0; i < k; i++) { N c = gen(d - 1); if (!c.tag && !n.ch.empty() && !n.ch.back().tag) continue; n.ch.push_back(c); } return n; }
static SP mk(const N &n) { if (!n.tag) return SP(new text_elem(n.text)); tag_elem *t = vh::below(2) ? new tag_elem(n.name, n.attr) : new tag_elem(n.name); for (map<string, string>::const_iterator i = n.attr.begin(); i != n.attr.end(); ++i) (*t)[i->first] = i->second; for (size_t i = 0; i < n.ch.size(); i++) t->add_child(mk(n.ch[i])); return SP(t); }
static size_t p; static string T; static void bad(const char *w) { vh::fail(string(w) + " at " + vh::str(p) + " of " + vh::show(T)); }
static bool sp(char c) { return c == ' ' || c == '\n'; }
static string tok(const char *stop) { size_t q = p; while (p < T.size() && !strchr(stop, T[p])) p++; string d; if (!unesc(T.substr(q, p - q), d)) bad("raw markup character"); return d; }
// reads one element and compares it with n
static void rd(const N &n, bool pretty) { if (!n.tag) { string d = tok("<"); if (d != n.text) bad("text content differs"); return; }
  if (T[p] != '<') bad("tag expected"); p++; if (tok(" \n/>") != n.name) bad("tag name differs"); map<string, string> at; 
  for (;;) { while (p < T.size() && sp(T[p])) p++; if (p >= T.size()) bad("unterminated tag"); if (T[p] == '/' || T[p] == '>') break; string k = tok("= \n/>"), v; if (T[p] == '=') { p++; if (T[p] != '"') bad("quote expected"); p++; size_t q = p; while (p < T.size() && T[p] != '"') p++; if (!unesc(T.substr(q, p - q), v)) bad("raw markup character in attribute"); p++; } at[k] = v; }
  if (at != n.attr) bad("attributes differ"); if (T[p] == '/') { p++; if (T[p++] != '>') bad("> expected"); if (!n.ch.empty()) bad("children missing"); return; } p++;
  for (size_t i = 0; i < n.ch.size(); i++) rd(n.ch[i], pretty); if (T.compare(p, 2, "</")) bad("closing tag expected"); p += 2; if (tok(" \n>") != n.name) bad("closing tag differs"); while (p < T.size() && sp(T[p])) p++; if (T[p++] != '>') bad("> expected"); }
int main(int c, char **v) { vh::init(c, v); for (size_t i = 0; i < vh::ce_s.size(); i++) one(vh::ce_s[i]); one("");
  for (int a = 0; a < 256; a++) { one(string(1, a)); for (int b = 0; b < 256; b++) { string s; s += (char)a; s += (char)b; one(s); } }
  do { for (int i = 0; i < 20; i++) { one(vh::bytes(vh::below(40))); one(vh::bytes(vh::below(300), "a<>&\"';\x80\xff")); }
    N n = gen(3); SP e = mk(n); for (int pr = 0; pr < 2; pr++) { ostringstream os; if (pr) e->pretty(os); else e->render(os); T = os.str(); p = 0; vh::begin_case(string(pr ? "pretty" : "render") + " of a tree: " + vh::show(T)); rd(n, pr); if (p != T.size()) bad("trailing output"); } } while (vh::time_left());
  return vh::done(); }
