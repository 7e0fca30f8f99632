#include "vh.h"
#include <list>
#include <iomanip>
#include "data/digest/md5.h"
using pfi::data::digest::md5sum; typedef uint32_t u;
static const u K[64] = {0xd76aa478,0xe8c7b756,0x242070db,0xc1bdceee,0xf57c0faf,0x4787c62a,0xa8304613,0xfd469501,0x698098d8,0x8b44f7af,0xffff5bb1,0x895cd7be,0x6b901122,0xfd987193,0xa679438e,0x49b40821,0xf61e2562,0xc040b340,0x265e5a51,0xe9b6c7aa,0xd62f105d,0x02441453,0xd8a1e681,0xe7d3fbc8,0x21e1cde6,0xc33707d6,0xf4d50d87,0x455a14ed,0xa9e3e905,0xfcefa3f8,0x676f02d9,0x8d2a4c8a,0xfffa3942,0x8771f681,0x6d9d6122,0xfde5380c,0xa4beea44,0x4bdecfa9,0xf6bb4b60,0xbebfbc70,0x289b7ec6,0xeaa127fa,0xd4ef3085,0x04881d05,0xd9d4d039,0xe6db99e5,0x1fa27cf8,0xc4ac5665,0xf4292244,0x432aff97,0xab9423a7,0xfc93a039,0x655b59c3,0x8f0ccc92,0xffeff47d,0x85845dd1,0x6fa87e4f,0xfe2ce6e0,0xa3014314,0x4e0811a1,0xf7537e82,0xbd3af235,0x2ad7d2bb,0xeb86d391};
static const int R[16] = {7,12,17,22,5,9,14,20,4,11,16,23,6,10,15,21};
static void ref(const std::string &s, u h[4]) {
  std::string m = s; m += '\x80'; while (m.size() % 64 != 56) m += '\0'; uint64_t n = (uint64_t)s.size() * 8; for (int i = 0; i < 8; i++) m += (char)(n >> 8 * i);
  h[0] = 0x67452301; h[1] = 0xefcdab89; h[2] = 0x98badcfe; h[3] = 0x10325476;
  for (size_t o = 0; o < m.size(); o += 64) { u x[16]; for (int i = 0; i < 16; i++) { x[i] = 0; for (int j = 3; j >= 0; j--) x[i] = x[i] << 8 | (unsigned char)m[o + 4 * i + j]; }
    u a = h[0], b = h[1], c = h[2], d = h[3];
    for (int i = 0; i < 64; i++) { u f; int g; switch (i / 16) { case 0: f = (b & c) | (~b & d); g = i; break; case 1: f = (b & d) | (c & ~d); g = (5 * i + 1) & 15; break; case 2: f = b ^ c ^ d; g = (3 * i + 5) & 15; break; default: f = c ^ (b | ~d); g = (7 * i) & 15; }
      u t = d; d = c; c = b; u y = a + f + K[i] + x[g]; int r = R[i / 16 * 4 + i % 4]; b += y << r | y >> (32 - r); a = t; }
    h[0] += a; h[1] += b; h[2] += c; h[3] += d; } }
static std::string text(const u h[4]) { std::string r; char b[4]; for (int i = 0; i < 16; i++) { sprintf(b, "%02x", h[i / 4] >> 8 * (i % 4) & 255); r += b; } return r; }
static void same(const md5sum &m, const u h[4], const char *w) { u g[4] = {m.a, m.b, m.c, m.d}; vh::check(!memcmp(g, h, 16), std::string(w) + " gives " + text(g) + ", RFC 1321 digest is " + text(h)); }
static void one(const std::string &s, bool all = true) {
  vh::begin_case("md5 of " + vh::str(s.size()) + " bytes " + vh::hex(s.substr(0, 2000))); u h[4]; ref(s, h); md5sum a(s); same(a, h, "md5sum(string)");
  if (all) { std::istringstream is(s); md5sum b(is); same(b, h, "md5sum(istream)"); std::vector<char> v(s.begin(), s.end()); const char *p = v.empty() ? (const char *)&v : &v[0]; md5sum c(p, p + v.size()); same(c, h, "md5sum(pointers)"); std::list<char> l(s.begin(), s.end()); md5sum d(l.begin(), l.end()); same(d, h, "md5sum(list)"); }
  std::ostringstream os; os << a; vh::check(os.str() == text(h), "printed as " + vh::show(os.str()) + ", expected " + text(h));
}
static bool lt(const u a[4], const u b[4]) { for (int i = 0; i < 4; i++) if (a[i] != b[i]) return a[i] < b[i]; return false; }
int main(int c, char **v) { vh::init(c, v); for (size_t i = 0; i < vh::ce_s.size(); i++) one(vh::ce_s[i]);
  { u h[4]; ref("abc", h); if (text(h) != "900150983cd24fb0d6963f7d28e17f72") { printf("oracle\n"); return 0; } }
  for (int n = 0; n <= 300; n++) { one(std::string(n, 0)); one(std::string(n, '\xff')); one(std::string(n, '\x80')); for (int i = 0; i < 5; i++) one(vh::bytes(n)); }
  for (int i = 0; i < 20000; i++) { u a[4], b[4]; for (int j = 0; j < 4; j++) { a[j] = vh::below(3) ? (u)vh::rnd() : (u)vh::below(2) * 0x80000000u; b[j] = vh::below(3) ? a[j] : (u)vh::rnd(); } md5sum x(a[0], a[1], a[2], a[3]), y(b[0], b[1], b[2], b[3]); vh::begin_case("compare " + text(a) + " " + text(b)); vh::check((x < y) == lt(a, b) && (y < x) == lt(b, a) && !(x < x), "operator<");
    if (i < 2000) { std::ostringstream os; if (i & 1) os << std::setfill('*'); if (i & 2) os << std::oct; if (i & 4) os << std::hex; if (i & 8) os << std::showpos; std::ios::fmtflags f = os.flags(); char fi = os.fill(); os << x; vh::check(os.str() == text(a), "printed as " + vh::show(os.str()) + ", expected " + text(a)); vh::check(os.flags() == f && os.fill() == fi, "stream formatting changed"); } }
  for (size_t n : {4096u, 65536u, 1u << 20}) for (int d = -9; d <= 9; d++) one(vh::bytes(n + d), n < 70000);
  while (vh::time_left()) one(vh::bytes(vh::below(2) ? vh::below(200) : vh::below(5000)));
  return vh::done(); }
