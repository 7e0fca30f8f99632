#include "system/endian_util.h"
using namespace pfi::system::endian;
#define T(n, t) t rev_##n(t v) { return reverse(v); } t tol_##n(t v) { return to_little(v); } t tob_##n(t v) { return to_big(v); } t frl_##n(t v) { return from_little(v); } t frb_##n(t v) { return from_big(v); }
T(c, char) T(sc, signed char) T(uc, unsigned char) T(s, short) T(us, unsigned short) T(i, int) T(ui, unsigned int) T(l, long) T(ul, unsigned long) T(ll, long long) T(ull, unsigned long long)
struct d8 { unsigned long long x; }; struct d4 { unsigned x; };
void rev_bytes2(char *p) { reverse<2>(p); } void rev_bytes4(char *p) { reverse<4>(p); } void rev_bytes8(char *p) { reverse<8>(p); } void rev_bytes3(char *p) { reverse<3>(p); } void rev_bytes1(char *p) { reverse<1>(p); } void rev_bytes16(char *p) { reverse<16>(p); }
bool il() { return is_little(); } bool ib() { return is_big(); }
