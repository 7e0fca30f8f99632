#include "vh.h"
#include "system/endian_util.h"
using namespace pfi::system::endian;
template <class T> static void one(T v, const char *n) {
  std::string b((char *)&v, sizeof v), r(b.rbegin(), b.rend());
  vh::begin_case(std::string(n) + " bytes " + vh::hex(b));
  T x = reverse(v); vh::check(std::string((char *)&x, sizeof x) == r, "reverse gives bytes " + vh::hex(std::string((char *)&x, sizeof x)));
  x = to_big(v); vh::check(std::string((char *)&x, sizeof x) == r, "to_big"); x = from_big(x); vh::check(!memcmp(&x, &v, sizeof v), "from_big(to_big)");
  x = to_little(v); vh::check(!memcmp(&x, &v, sizeof v), "to_little"); x = from_little(x); vh::check(!memcmp(&x, &v, sizeof v), "from_little");
}
template <class T> static void ty(const char *n) { for (int i = 0; i < 400; i++) { T v; std::string b = vh::below(2) ? vh::bytes(sizeof v) : vh::bytes(sizeof v, "\x01\x7f\x80\xff"); memcpy(&v, b.data(), sizeof v); one(v, n); } for (size_t i = 0; i < sizeof(T) * 8; i++) { unsigned long long u = 1ULL << i; T v; memcpy(&v, &u, sizeof v); one(v, n); } }
int main(int c, char **v) { vh::init(c, v);
  vh::check(is_little() && !is_big(), "host order");
  do { ty<char>("char"); ty<signed char>("schar"); ty<unsigned char>("uchar"); ty<short>("short"); ty<unsigned short>("ushort"); ty<int>("int"); ty<unsigned>("uint"); ty<long>("long"); ty<unsigned long>("ulong"); ty<long long>("llong"); ty<unsigned long long>("ullong");
    for (int i = 0; i < 300; i++) { double d = (double)(long long)vh::rnd() / 7; one(d, "double"); float f = d; one(f, "float"); }
    for (int n = 0; n <= 300; n++) { std::string b = vh::bytes(n), r(b.rbegin(), b.rend()); char *h = new char[n]; memcpy(h, b.data(), n); vh::begin_case("array of " + vh::str(n)); reverse(h, n); vh::check(std::string(h, n) == r, "reversed array " + vh::hex(std::string(h, n)) + " from " + vh::hex(b)); delete[] h; }
  } while (vh::time_left());
  return vh::done(); }
