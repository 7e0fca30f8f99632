#include "vh.h"
#include <random>
#include <set>
#include "math/random.h"
using namespace pfi::math::random;
struct Tape { std::vector<uint32_t> v; size_t i; Tape() : i(0) {} uint32_t operator()(uint32_t n) { uint32_t x = i < v.size() ? v[i] : (uint32_t)vh::rnd(); i++; return x % n; } };
// generator that yields chosen words
struct Gen { static std::vector<uint32_t> w; static size_t i; Gen(uint32_t) { i = 0; } uint32_t next() { uint32_t x = w.empty() ? 0 : w[i % w.size()]; i++; return x; } };
std::vector<uint32_t> Gen::w; size_t Gen::i = 0;
static uint32_t word() { static const uint32_t S[] = {0, 1, 0xffffffffu, 0x80000000u, 0x7fffffffu, 31, 32, 63, 64, 0xffffffe0u, 0xffffffc0u}; return vh::below(3) ? (uint32_t)vh::rnd() : S[vh::below(11)]; }
int main(int c, char **v) {
  vh::init(c, v);
  for (int s = 0; s < 6 || vh::time_left(); s++) {
    uint32_t seed = s == 0 ? 5489 : s == 1 ? 0 : s == 2 ? 0xffffffffu : (uint32_t)vh::rnd(); size_t n = s < 3 ? 5000 : vh::below(3) ? 1300 : 3000;
    vh::begin_case("seed " + vh::str(seed));
    mersenne_twister m(seed); std::mt19937 r(seed); mtrand q(seed); std::mt19937 r2(seed);
    for (size_t i = 0; i < n; i++) { uint32_t a = m.next(), b = r(); if (a != b) vh::fail("output " + vh::str(i) + " is " + vh::str(a) + ", reference " + vh::str(b)); uint32_t x = i & 1 ? q.next_int() : q(), y = r2(); if (x != y) vh::fail("next_int " + vh::str(i) + " is " + vh::str(x) + ", reference " + vh::str(y)); }
    // bounded integers over chosen generator words
    for (int k = 0; k < 400; k++) { Gen::w.clear(); for (int i = 0; i < 2; i++) Gen::w.push_back(word()); pfi::math::random::random<Gen> g(0); uint32_t a = word(), b = word(); if (a > b) std::swap(a, b); Gen::i = 0;
      vh::begin_case("words " + vh::str(Gen::w[0]) + "," + vh::str(Gen::w[1]) + " bounds " + vh::str(a) + "," + vh::str(b));
      if (b) { uint32_t x = g.next_int(b); vh::check(x < b, "next_int(b) = " + vh::str(x)); x = g(b); vh::check(x < b, "operator()(b) = " + vh::str(x)); }
      if (a < b) { uint32_t x = g.next_int(a, b); vh::check(x >= a && x < b, "next_int(a,b) = " + vh::str(x)); x = g(a, b); vh::check(x >= a && x < b, "operator()(a,b) = " + vh::str(x)); }
      double d = g.next_double(); vh::check(d >= 0 && d < 1, "next_double() = " + vh::str(d)); }
    for (int k = 0; k < 200; k++) { Tape t; int n = vh::range(-1, 12), m = vh::range(-1, 13); for (int i = 0; i < 14; i++) t.v.push_back(vh::rnd()); std::vector<int> res(vh::below(4), 99); vh::begin_case("sample n=" + vh::str(n) + " k=" + vh::str(m));
      bool ok = sample_without_replacement(t, n, m, res); vh::check(ok == (n > 0 && m >= 0 && m <= n), "reports " + vh::str(ok));
      if (ok) { std::set<int> d(res.begin(), res.end()); vh::check((int)res.size() == m && (int)d.size() == m, "not k distinct values"); for (size_t i = 0; i < res.size(); i++) vh::check(res[i] >= 0 && res[i] < n, "value out of range"); }
      Tape t2; std::vector<int> r2(vh::below(4), 99); ok = sample_with_replacement(t2, n, m, r2); vh::check(ok == (n > 0 && m >= 0), "reports " + vh::str(ok));
      if (ok) { vh::check((int)r2.size() == m, "not k values"); for (size_t i = 0; i < r2.size(); i++) vh::check(r2[i] >= 0 && r2[i] < n, "value out of range"); } }
    if (s > 200000) break;
  }
  return vh::done();
}
