#include <cstdlib>
#include <iostream>
#define private public
#include "math/ratio.h"
#undef private
typedef pfi::math::ratio::ratio<int> R; typedef pfi::math::ratio::ratio<long long> RL;
int vp_gcd(int a, int b) { return R::gcd(a, b); }
long long vp_gcdl(long long a, long long b) { return RL::gcd(a, b); }
void vp_ctor(R *r, int n, int d) { new (r) R(n, d); }
void vp_ctorl(RL *r, long long n, long long d) { new (r) RL(n, d); }
void vp_one(R *r, int n) { new (r) R(n); }
bool vp_eq(const R &a, const R &b) { return a == b; }
void vp_add(R &a, const R &b) { a += b; }
void vp_sub(R &a, const R &b) { a -= b; }
void vp_mul(R &a, const R &b) { a *= b; }
void vp_div(R &a, const R &b) { a /= b; }
