#include "vh.h"
#include "network/ipv4.h"
using pfi::network::ipv4_address;
static ipv4_address mk(unsigned x) { return ipv4_address(x >> 24, x >> 16, x >> 8, x); }
static std::string txt(unsigned x) { char b[64]; snprintf(b, sizeof b, "%u.%u.%u.%u", x >> 24, x >> 16 & 255, x >> 8 & 255, x & 255); return b; }
static void one(unsigned x) { vh::begin_case("address " + txt(x)); ipv4_address a = mk(x); vh::check(a.to_string() == txt(x), "to_string gives " + a.to_string()); ipv4_address b(txt(x)); vh::check(a == b && !(a != b), "parsed text differs: " + b.to_string()); vh::check(!(a < b), "irreflexive"); }
static void two(unsigned x, unsigned y) { vh::begin_case("compare " + txt(x) + " " + txt(y)); ipv4_address a = mk(x), b = mk(y); vh::check((a < b) == (x < y) && (a == b) == (x == y) && (a != b) == (x != y), "comparison"); }
static void bad(const std::string &s) { vh::begin_case("parse " + vh::show(s)); ipv4_address a(s); vh::check(a == ipv4_address::none, "accepted as " + a.to_string()); }
int main(int c, char **v) { vh::init(c, v);
  for (int p = 0; p < 4; p++) for (unsigned b = 0; b < 256; b++) { one(b << 8 * p); one((b << 8 * p) | (0x01010101u & ~(255u << 8 * p))); one((b << 8 * p) | (~(255u << 8 * p))); }
  vh::check(ipv4_address().to_string() == "0.0.0.0" && ipv4_address::any.to_string() == "0.0.0.0" && ipv4_address::none.to_string() == "255.255.255.255" && ipv4_address::broadcast.to_string() == "255.255.255.255" && ipv4_address::loopback.to_string() == "127.0.0.1", "predefined");
  for (int p = 0; p < 4; p++) for (int x = -300; x < 70000; x += (x < 600 ? 1 : 97)) { if (x >= 0 && x <= 255) continue; std::string s; for (int i = 0; i < 4; i++) { if (i) s += "."; s += vh::str(i == p ? x : vh::range(0, 255)); } bad(s); }
  const char *m[] = {"", ".", "1", "1.", "1.2", "1.2.3", "1.2.3.", "1..2.3", "a.b.c.d", "1.2.3.x", ".1.2.3", "1,2,3,4", "1 2 3 4", "256.1.1.1", "1.1.1.256", "-1.0.0.0", "4294967296.1.1.1", "1.4294967297.1.1", "1.1.18446744073709551617.1", "1.1.1.99999999999999999999", "1.2:3.4", "0x1.2.3.4"};
  for (size_t i = 0; i < sizeof m / sizeof *m; i++) bad(m[i]);
  do for (int i = 0; i < 2000; i++) { unsigned x = vh::rnd(), y = vh::rnd(); one(x); if (vh::below(2)) y = (x & ~(255u << 8 * vh::below(4))) | (y & 0x01010101u); two(x, y); two(x, x); int p = vh::below(4), q = vh::below(4); two(x, x ^ (1u << 8 * p)); } while (vh::time_left());
  return vh::done(); }
