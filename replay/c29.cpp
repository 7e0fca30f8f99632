// Bounded stand-in for C29: the real http request/response/header over stand-ins for the socket calls that shorten and interrupt transfers.
#include <cerrno>
#include <sys/types.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <unistd.h>
#include "vh.h"
#include "network/socket.h"
#include "network/dns.h"
#include "network/iostream.h"
#include "network/http/base.h"
using namespace pfi::network;
struct Conn { std::string out, in; size_t kpos; bool open, conn, faulted; Conn() : kpos(0), open(true), conn(false), faulted(false) {} };
static std::map<int, Conn> K; static int nextfd = 1000000, lastfd = -1; static int perr = 0, peintr = 30, pshort = 60; static unsigned long ncalls = 0;
static bool hit(int p) { return (int)vh::below(1000) < p; }
static std::string nextin;
extern "C" {
int socket(int, int, int) { int fd = nextfd++; K[fd] = Conn(); return fd; }
int close(int fd) { if (fd < 1000000) return syscall(SYS_close, fd); vh::check(K.count(fd) && K[fd].open, "close of a descriptor that is not open"); K[fd].open = false; return 0; }
int connect(int fd, const struct sockaddr *, socklen_t) { vh::check(K.count(fd) && K[fd].open, "connect on a closed descriptor"); if (hit(peintr)) { errno = EINTR; return -1; } Conn &c = K[fd]; c.conn = true; c.in = nextin; lastfd = fd; return 0; }
int setsockopt(int, int, int, const void *, socklen_t) { return 0; }
ssize_t send(int fd, const void *b, size_t n, int) {
  ncalls++; vh::check(K.count(fd) && K[fd].open && K[fd].conn, "send on a descriptor that is not a connected socket"); Conn &c = K[fd];
  if (hit(peintr)) { errno = EINTR; return -1; }
  if (hit(perr)) { c.faulted = true; errno = vh::below(2) ? ECONNRESET : EAGAIN; return vh::below(6) ? -1 : 0; }
  size_t m = n; if (hit(pshort * 10)) m = vh::below(3) ? 1 + vh::below(n) : 1 + vh::below(n < 5 ? n : 5);
  std::string t((const char *)b, m); c.out += t; return m;
}
ssize_t recv(int fd, void *b, size_t n, int) {
  ncalls++; vh::check(K.count(fd) && K[fd].open && K[fd].conn, "recv on a descriptor that is not a connected socket"); Conn &c = K[fd];
  if (hit(peintr)) { errno = EINTR; return -1; }
  if (hit(perr)) { c.faulted = true; errno = vh::below(2) ? ECONNRESET : EAGAIN; return -1; }
  size_t left = c.in.size() - c.kpos; if (left > n) left = n; if (left == 0) return 0;
  size_t m = left; if (hit(pshort * 10)) m = vh::below(3) ? 1 + vh::below(left) : 1;
  memcpy(b, c.in.data() + c.kpos, m); c.kpos += m; return m;
}
}
struct Res : dns_resolver { std::vector<ipv4_address> resolve(const std::string &, uint16_t) { std::vector<ipv4_address> v(1, ipv4_address("127.0.0.1")); return v; } };

namespace http = pfi::network::http;
typedef pfi::lang::shared_ptr<stream_socket> Sock;
static std::string num(long n) { std::ostringstream o; o << n; return o.str(); }
static std::string hexn(unsigned n) { char b[32]; sprintf(b, vh::below(2) ? "%x" : "%X", n); return (vh::below(4) ? "" : "00") + std::string(b); }
static std::string data(size_t n) { std::string s(n, 0); int k = vh::below(3); for (size_t i = 0; i < n; i++) s[i] = k == 0 ? (char)vh::rnd() : k == 1 ? (vh::below(3) ? (char)255 : "\r\n0;\0a"[vh::below(6)]) : (char)('a' + i % 26); return s; }
static size_t amount() { switch (vh::below(8)) { case 0: return 0; case 1: return 1; case 2: return 4094 + vh::below(5); case 3: return vh::below(20000); case 4: return 8190 + vh::below(5); default: return vh::below(300); } }
static bool prefix(const std::string &a, const std::string &b) { return a.size() <= b.size() && b.compare(0, a.size(), a) == 0; }
static std::string vary(const std::string &s) { std::string r = s; for (size_t i = 0; i < r.size(); i++) if (vh::below(2)) r[i] = vh::below(2) ? toupper(r[i]) : tolower(r[i]); return r; }
static Sock connected(const std::string &in) { nextin = in; Sock s(new stream_socket()); if (!s->connect("h", 1)) vh::fail("connect fails"); return s; }
static std::string chunks(const std::string &b, std::vector<size_t> &ends, std::vector<size_t> &tl) {
  std::string w; size_t p = 0; int big = vh::below(3);
  while (p < b.size()) { size_t n = 1 + (big == 0 ? vh::below(b.size() - p) : big == 1 ? vh::below(40) : vh::below(9000)); if (n > b.size() - p) n = b.size() - p; if (vh::below(6) == 0 && b.size() - p >= 4096) n = 4096;
    w += hexn(n) + (vh::below(5) ? "" : ";ext=\"a b\"") + (vh::below(6) ? "\r\n" : "\n") + b.substr(p, n); bool crlf = vh::below(6); w += crlf ? "\r\n" : "\n"; p += n; ends.push_back(w.size()); tl.push_back(crlf ? 2 : 1); }
  w += vh::below(4) ? "0\r\n" : "000;x\r\n"; if (vh::below(3) == 0) w += "X-Trailer: 1\r\nY: 2\r\n"; w += "\r\n"; return w;
}
static std::string slurp(std::istream &is, bool &bad) {
  std::string got; int how = vh::below(4); bad = false;
  while (is.good()) switch (how == 3 ? (int)vh::below(3) : how) {
    case 0: { if (vh::below(2)) { int pk = is.peek(); if (!is.good()) break; int c = is.get(); vh::check(c == pk, "peek and get disagree: " + num(pk) + " and " + num(c)); got += (char)c; break; } int c = is.get(); if (is.good()) got += (char)c; else vh::check(c == -1, "get returns a byte and fails"); break; }
    case 1: { char b[5000]; is.read(b, 1 + vh::below(sizeof b)); got.append(b, is.gcount()); break; }
    default: { std::string l; std::getline(is, l); got += l; if (is.good()) got += '\n'; break; }
  }
  bad = is.bad(); if (!bad) { is.clear(); int c = is.get(); vh::check(c == -1, "a byte after end of file: " + num(c)); }
  return got;
}
static void body(int kind) {
  K.clear(); perr = 0; peintr = vh::below(2) ? 100 : 0; pshort = vh::below(3) ? 60 : 0;
  bool req = vh::below(2); std::string b = data(amount()), w, h = req ? "POST /x HTTP/1.1\r\n" : "HTTP/1.1 200 OK\r\n"; std::vector<size_t> ends, tl; bool ch = kind != 0 || vh::below(2);
  if (kind == 0 && vh::below(2)) ch = false;
  if (vh::below(2)) h += "X-Other: v\r\n";
  if (ch) { h += vary("Transfer-Encoding") + ": " + vary("chunked") + "\r\n"; w = chunks(b, ends, tl); } else { h += vary("Content-Length") + ":" + (vh::below(2) ? " " : "") + num(b.size()) + "\r\n"; w = b; }
  h += "\r\n"; std::string mode = "complete"; bool whole = true, cut = false;
  if (kind == 1 && ch && !ends.empty()) {   // malformed chunk
    size_t ei = vh::below(ends.size()), e = ends[ei]; whole = false;
    if (vh::below(2)) { mode = "bad chunk end"; w[e - tl[ei]] = 'x'; }
    else { static const char *bad[] = {"-1\r\n", "-5\r\n", "-80000000\r\n", "zz\r\n", "\r\n", ";3\r\n", "-\r\n"}; mode = "bad chunk size"; w = w.substr(0, e) + bad[vh::below(7)] + "abcdefgh" + w.substr(e); }
  } else if (kind == 2) { mode = "truncated"; w = w.substr(0, vh::below(w.size())); whole = false; cut = true; }
  std::string next = cut ? "" : "NEXT" + data(5);
  vh::begin_case((req ? "request, " : "response, ") + std::string(ch ? "chunked, " : "counted, ") + mode + ": " + vh::show(h + w.substr(0, 120)) + " body of " + num(b.size()) + " bytes", kind == 0);
  Sock s = connected(h + w + next); std::string got; bool bad;
  if (req) { http::request r(s); vh::check(r.method() == "POST", "method"); got = slurp(r.body(), bad); } else { http::response r(s); vh::check(r.code() == 200 && r.reason() == "OK", "status line"); got = slurp(r.body(), bad); }
  if (whole) { vh::check(got == b, "the body read has " + num(got.size()) + " bytes: " + vh::show(got) + " expected " + vh::show(b)); vh::check(!bad, "a well-formed body is reported as bad"); for (int i = 0; i < 4; i++) { int c = s->getc(); vh::check(c == "NEXT"[i], "the message after the body is damaged"); } }
  else vh::check(prefix(got, b), "bytes that are not in the body are delivered: " + vh::show(got) + " body " + vh::show(b));
}
static std::string low(std::string s) { for (size_t i = 0; i < s.size(); i++) if (s[i] >= 'A' && s[i] <= 'Z') s[i] += 32; return s; }
static std::string name() { static const char *n[] = {"A", "a1", "Content-Type", "X-Long-Header-Name", "b", "Host", "X", "content-typ"}; return vary(n[vh::below(8)]); }
static std::string value() { std::string s; int n = vh::below(12); for (int i = 0; i < n; i++) s += (i == 0 ? "v:1" : "v: 1,\t\x80\xff")[vh::below(i == 0 ? 3 : 8)]; return s; }
static void headers() {
  K.clear(); http::header h; std::vector<std::pair<std::string, std::string> > m; std::string t = "header ops:"; int n = 1 + vh::below(14);
  vh::begin_case("header ops");
  for (int i = 0; i < n; i++) {
    std::string k = name(); size_t j = 0; while (j < m.size() && low(m[j].first) != low(k)) j++;
    switch (vh::below(4)) {
      case 0: { std::string v = value(); t += " set " + k; if (vh::below(2)) h.set(k, v); else h[k] = v; if (j == m.size()) m.push_back(std::make_pair(k, v)); else m[j].second = v; break; }
      case 1: t += " erase " + k; h.erase(k); if (j < m.size()) m.erase(m.begin() + j); break;
      case 2: t += " has " + k; strncpy(vh::cur, t.c_str(), sizeof vh::cur - 1); vh::check(h.has_key(k) == (j < m.size()), "has_key(" + k + ")"); break;
      default: { t += " get " + k; strncpy(vh::cur, t.c_str(), sizeof vh::cur - 1); const http::header &c = h; vh::check(c[k] == (j < m.size() ? m[j].second : ""), "const lookup of " + k + " gives " + vh::show(c[k])); break; }
    }
    strncpy(vh::cur, t.c_str(), sizeof vh::cur - 1);
    size_t x = 0; for (http::header::iterator p = h.begin(); p != h.end(); ++p, ++x) vh::check(x < m.size() && p->first == m[x].first && p->second == m[x].second, "the fields are not the ones set"); vh::check(x == m.size(), "fields are missing");
  }
  // over the wire and back
  strncpy(vh::cur, (t + " send, read back").c_str(), sizeof vh::cur - 1);
  { Sock s = connected(""); int fd = lastfd; h.send(s); s->flush(); std::string w = K[fd].out; Sock r = connected(w); http::header g(r); size_t x = 0;
    for (http::header::iterator p = g.begin(); p != g.end(); ++p, ++x) vh::check(x < m.size() && p->first == m[x].first && p->second == m[x].second, "the fields read back are not the ones sent: " + vh::show(p->first) + vh::show(p->second)); vh::check(x == m.size(), "fields are lost on the way"); }
}
static void message() {
  K.clear(); perr = 0; bool req = vh::below(2); std::string b = data(amount()), v = value(); vh::begin_case(std::string(req ? "request" : "response") + " sent and read back, body of " + num(b.size()) + " bytes");
  Sock s = connected("ignored"); int fd = lastfd; std::string got; bool bad;
  if (req) { http::request r("PUT", uri("/p?q"), 1, 1); r.head()["X-V"] = v; r.body() << b; r.send(s); } else { http::response r(404, "Not Found", 1, 0); r.head()["X-V"] = v; r.body() << b; r.send(s); }
  std::string w = K[fd].out; Sock t = connected(w);
  if (req) { http::request r(t); vh::check(r.method() == "PUT" && r.path().path() == "/p" && r.path().query() == "q" && r.version() == std::make_pair(1, 1) && r.head()["x-v"] == v, "the request is read back differently"); got = slurp(r.body(), bad); }
  else { http::response r(t); vh::check(r.code() == 404 && r.reason() == "Not Found" && r.version() == std::make_pair(1, 0) && r.head()["x-v"] == v, "the response is read back differently"); got = slurp(r.body(), bad); }
  vh::check(got == b, "the body is read back as " + vh::show(got) + " instead of " + vh::show(b));
}
int main(int argc, char **argv) {
  vh::init(argc, argv); stream_socket::set_dns_resolver(pfi::lang::shared_ptr<dns_resolver>(new Res));
  while (vh::time_left()) for (int i = 0; i < 50; i++) { int k = vh::below(8); if (k < 3) body(0); else if (k == 3) body(1); else if (k == 4) body(2); else if (k < 7) headers(); else message(); }
  return vh::done();
}
