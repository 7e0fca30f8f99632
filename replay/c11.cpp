// Bounded stand-in for C11: the real stream_socket and socketstream over stand-ins for the socket calls that shorten, interrupt, fail and end transfers.
#include <cerrno>
#include <sys/types.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <unistd.h>
#include "vh.h"
#include "network/socket.h"
#include "network/dns.h"
#include "network/iostream.h"
using namespace pfi::network;
struct Conn { std::string out, in; size_t kpos; bool open, conn, faulted; Conn() : kpos(0), open(true), conn(false), faulted(false) {} };
static std::map<int, Conn> K; static int nextfd = 1000000, lastfd = -1; static int perr = 0, peintr = 30, pshort = 60; static unsigned long ncalls = 0;
static bool hit(int p) { return (int)vh::below(1000) < p; }
static std::string nextin;
extern "C" {
int socket(int, int, int) { int fd = nextfd++; K[fd] = Conn(); return fd; }
int close(int fd) { if (fd < 1000000) return syscall(SYS_close, fd); vh::check(K.count(fd) && K[fd].open, "close of a descriptor that is not open"); K[fd].open = false; return 0; }
int connect(int fd, const struct sockaddr *, socklen_t) { vh::check(K.count(fd) && K[fd].open, "connect on a closed descriptor"); if (hit(peintr)) { errno = EINTR; return -1; } Conn &c = K[fd]; c.conn = true; c.in = nextin; lastfd = fd; return 0; }
int setsockopt(int, int, int, const void *, socklen_t) { return 0; }
ssize_t send(int fd, const void *b, size_t n, int) {
  ncalls++; vh::check(K.count(fd) && K[fd].open && K[fd].conn, "send on a descriptor that is not a connected socket"); Conn &c = K[fd];
  if (hit(peintr)) { errno = EINTR; return -1; }
  if (hit(perr)) { c.faulted = true; errno = vh::below(2) ? ECONNRESET : EAGAIN; return vh::below(6) ? -1 : 0; }
  size_t m = n; if (hit(pshort * 10)) m = vh::below(3) ? 1 + vh::below(n) : 1 + vh::below(n < 5 ? n : 5);
  std::string t((const char *)b, m); c.out += t; return m;
}
ssize_t recv(int fd, void *b, size_t n, int) {
  ncalls++; vh::check(K.count(fd) && K[fd].open && K[fd].conn, "recv on a descriptor that is not a connected socket"); Conn &c = K[fd];
  if (hit(peintr)) { errno = EINTR; return -1; }
  if (hit(perr)) { c.faulted = true; errno = vh::below(2) ? ECONNRESET : EAGAIN; return -1; }
  size_t left = c.in.size() - c.kpos; if (left > n) left = n; if (left == 0) return 0;
  size_t m = left; if (hit(pshort * 10)) m = vh::below(3) ? 1 + vh::below(left) : 1;
  memcpy(b, c.in.data() + c.kpos, m); c.kpos += m; return m;
}
}
struct Res : dns_resolver { std::vector<ipv4_address> resolve(const std::string &, uint16_t) { std::vector<ipv4_address> v(1, ipv4_address("127.0.0.1")); return v; } };
static bool prefix(const std::string &a, const std::string &b) { return a.size() <= b.size() && b.compare(0, a.size(), a) == 0; }
static std::string data(size_t n) { std::string s(n, 0); for (size_t i = 0; i < n; i++) s[i] = vh::rnd(); return s; }
static std::string lines(size_t n) { std::string s(n, 0); for (size_t i = 0; i < n; i++) { int r = vh::below(12); s[i] = r == 0 ? '\n' : r == 1 ? '\r' : r == 2 ? (char)255 : r == 3 ? 0 : (char)('a' + vh::below(3)); } return s; }
static int amount() { switch (vh::below(8)) { case 0: return 0; case 1: return 1; case 2: return 8190 + vh::below(5); case 3: return vh::below(20000); case 4: return 16380 + vh::below(8); case 5: return vh::below(9000); default: return vh::below(200); } }
static std::string trace; static int depth_ = 0;
static void op(const std::string &s) { trace += s; trace += ' '; strncpy(vh::cur, trace.size() > 60000 ? trace.c_str() + trace.size() - 60000 : trace.c_str(), sizeof vh::cur - 1); }
static std::string num(long n) { std::ostringstream o; o << n; return o.str(); }
struct User { int fd; std::string W; size_t pos; };
static void wrote(User &u, const std::string &d, long r, bool conn) {
  Conn &c = K[u.fd]; long n = d.size();
  vh::check(r >= 0 && r <= n, "write returns " + num(r) + " of " + num(n));
  if (r == n) { u.W += d; vh::check(prefix(c.out, u.W), "the bytes sent are not the bytes written"); return; }
  vh::check(!conn, "a short write on a socket that stays connected");
  vh::check(prefix(c.out, u.W + d), "the bytes sent are not the bytes written");
  vh::check(r > 0 ? c.out.size() == u.W.size() + r : c.out.size() <= u.W.size(), "a failed write reports " + num(r) + " bytes, sent " + num(c.out.size()) + " of " + num(u.W.size()) + "+" + num(n));
  u.W = c.out;
}
static void flushed(User &u, bool ok, bool conn, long before, long r) {
  Conn &c = K[u.fd];
  if (ok) { vh::check(c.out == u.W, "flush reports success with " + num(c.out.size()) + " of " + num(u.W.size()) + " bytes sent"); return; }
  vh::check(!conn, "flush failed but the socket stays connected"); vh::check(prefix(c.out, u.W) && c.out.size() < u.W.size(), "flush reports failure but sent everything");
  if (r >= 0) vh::check((long)c.out.size() - before == r, "flush reports " + num(r) + " bytes, sent " + num((long)c.out.size() - before));
  u.W = c.out;
}
static void gotbytes(User &u, const std::string &g, long want, bool conn) {
  Conn &c = K[u.fd];
  vh::check(u.pos + g.size() <= c.kpos && c.in.compare(u.pos, g.size(), g) == 0, "read returns bytes that were not received: " + vh::show(g)); u.pos += g.size();
  if ((long)g.size() < want) { vh::check(!conn, "a short read on a socket that stays connected"); vh::check(u.pos == c.kpos, "received bytes are lost at the end"); }
}
static void gotline(User &u, bool ok, const std::string &s, int limit, bool conn, bool stripcr) {
  Conn &c = K[u.fd]; std::string e; bool nl = false, end = false; int i = 0;
  for (; limit < 0 || i < limit; i++) { if (u.pos >= c.kpos) { end = true; break; } char ch = c.in[u.pos++]; if (ch == '\n') { nl = true; break; } e += ch; }
  if (end) vh::check(!conn, "a line ends before its newline on a socket that stays connected");
  if (end && e.empty()) { vh::check(!ok, "a line is read at the end of the stream"); return; }
  if (nl && stripcr && !e.empty() && e[e.size() - 1] == '\r') e.erase(e.size() - 1);
  vh::check(ok, "line read fails"); vh::check(s == e, "line " + vh::show(s) + " expected " + vh::show(e));
}
static void session(bool faults) {
  K.clear(); trace = "socket "; perr = faults ? 25 : 0; peintr = vh::below(2) ? 100 : 0; pshort = vh::below(3) ? 60 : 0; std::vector<User> us;
  {
    stream_socket s; nextin = vh::below(2) ? data(vh::below(30000)) : lines(vh::below(12000)); op("connect(in=" + num(nextin.size()) + ")");
    if (!s.connect("h", 1)) vh::fail("connect fails"); User u; u.fd = lastfd; u.pos = 0;
    int n = 1 + vh::below(25);
    for (int i = 0; i < n; i++) switch (vh::below(9)) {
      case 0: case 1: case 2: { std::string d = data(amount()); op("write(" + num(d.size()) + ")"); if (vh::below(3)) { int r = s.write(d.data(), d.size()); wrote(u, d, r, s.is_connected()); } else { bool ok = s.puts(d); if (ok) wrote(u, d, d.size(), s.is_connected()); else { vh::check(!s.is_connected(), "puts fails on a socket that stays connected"); vh::check(prefix(K[u.fd].out, u.W + d), "the bytes sent are not the bytes written"); u.W = K[u.fd].out; } } break; }
      case 3: { op("flush"); long b = K[u.fd].out.size(); int r = s.flush(); flushed(u, r < 0, s.is_connected(), b, r); break; }
      case 4: { int m = amount(); op("read(" + num(m) + ")"); std::vector<char> b(m + 1); int r = s.read(&b[0], m); vh::check(r >= 0 && r <= m, "read returns " + num(r) + " of " + num(m)); gotbytes(u, std::string(&b[0], r), m, s.is_connected()); break; }
      case 5: { op("getc"); int c = s.getc(); vh::check(c >= -1 && c < 256, "getc returns " + num(c)); gotbytes(u, c == -1 ? std::string() : std::string(1, (char)c), 1, s.is_connected()); break; }
      case 6: case 7: { int lim = vh::below(3) ? -1 : (int)vh::below(20); op("getline(" + num(lim) + ")"); std::string l; bool ok = s.getline(l, lim); gotline(u, ok, l, lim, s.is_connected(), true); break; }
      default: if (vh::below(4)) break;
        { bool was = s.is_connected(); bool byconn = vh::below(2); nextin = lines(vh::below(9000)); op(byconn ? "reconnect" : "shutdown+connect");
          bool all0 = was; (void)all0; bool r = byconn ? s.connect("h", 1) : s.shutdown();
          if (r && was) vh::check(K[u.fd].out == u.W, "written bytes are dropped when the connection is replaced");
          if (r && !byconn) { vh::check(!s.is_connected(), "connected after shutdown"); r = s.connect("h", 1); }
          if (r) { vh::check(!K[u.fd].open || u.fd == lastfd, "the old descriptor stays open"); us.push_back(u); User v; v.fd = lastfd; v.pos = 0; u = v; }
          else { vh::check(!was || K[u.fd].faulted, "reconnect fails without a fault"); if (was || !byconn) u.W = K[u.fd].out; } }
    }
    us.push_back(u); op("destroy");
  }
  for (std::map<int, Conn>::iterator p = K.begin(); p != K.end(); ++p) vh::check(!p->second.open, "a descriptor is leaked");
  for (size_t i = 0; i < us.size(); i++) { Conn &c = K[us[i].fd]; vh::check(prefix(c.out, us[i].W), "bytes that were not written are sent"); if (i + 1 == us.size() && !c.faulted && c.kpos < c.in.size()) vh::check(c.out == us[i].W, "written bytes are dropped at destruction"); }
}
static void streams(bool faults) {
  K.clear(); trace = "stream "; perr = faults ? 15 : 0; peintr = vh::below(2) ? 100 : 0; pshort = vh::below(3) ? 60 : 0;
  pfi::lang::shared_ptr<stream_socket> s(new stream_socket()); nextin = vh::below(2) ? data(vh::below(20000)) : lines(vh::below(9000)); op("connect(in=" + num(nextin.size()) + ")");
  if (!s->connect("h", 1)) vh::fail("connect fails"); User u; u.fd = lastfd; u.pos = 0; socketstream ss(s); Conn &c = K[u.fd];
  int n = 1 + vh::below(25);
  for (int i = 0; i < n && ss.good(); i++) switch (vh::below(7)) {
    case 0: case 1: { std::string d = data(amount()); op("write(" + num(d.size()) + ")"); ss.write(d.data(), d.size()); vh::check(prefix(c.out, u.W + d), "the bytes sent are not the bytes written"); if (ss.good()) u.W += d; else vh::check(!s->is_connected(), "write fails on a connected socket"); break; }
    case 2: { char ch = vh::below(4) ? (char)vh::rnd() : (char)255; op("put"); ss.put(ch); if (ss.good()) u.W += ch; else vh::check(!s->is_connected(), "put fails on a connected socket"); vh::check(prefix(c.out, u.W + ch), "the bytes sent are not the bytes written"); break; }
    case 3: { op("flush"); ss.flush(); if (ss.good()) vh::check(c.out == u.W, "flush reports success but did not send everything"); else vh::check(!s->is_connected(), "flush fails on a connected socket"); break; }
    case 4: { int m = amount(); op("read(" + num(m) + ")"); std::vector<char> b(m + 1); ss.read(&b[0], m); long g = ss.gcount(); vh::check((g == m) == ss.good(), "read state and count disagree"); size_t p = u.pos; vh::check(p + g <= c.kpos && c.in.compare(p, g, std::string(&b[0], g)) == 0, "read returns bytes that were not received"); u.pos += g; if (g < m) vh::check(u.pos == c.kpos && !s->is_connected(), "received bytes are lost at the end"); break; }
    case 5: { op("get"); if (vh::below(2)) { int pk = ss.peek(); vh::check(pk == (u.pos < c.kpos ? (unsigned char)c.in[u.pos] : -1), "peek"); if (!ss.good()) break; } int ch = ss.get(); vh::check(u.pos < c.kpos ? ch == (unsigned char)c.in[u.pos] : ch == -1 && !s->is_connected(), "get returns " + num(ch)); if (ch >= 0) u.pos++; break; }
    default: { op("getline"); std::string l; bool ok = !!std::getline(ss, l); gotline(u, ok, l, -1, s->is_connected(), false); break; }
  }
}
int main(int argc, char **argv) {
  vh::init(argc, argv); stream_socket::set_dns_resolver(pfi::lang::shared_ptr<dns_resolver>(new Res));
  // a reconnection carries nothing over
  while (vh::time_left()) for (int i = 0; i < 50; i++) { vh::begin_case("session"); int k = vh::below(6); if (k < 4) session(k & 1); else streams(k & 1); }
  return vh::done();
}
