#include "math/random.h"
using namespace pfi::math::random;
void vp_mt_ctor(void *p, uint32_t s) { new (p) mersenne_twister(s); }
uint32_t vp_mt_next(mersenne_twister *m) { return m->next(); }
void vp_ctor(void *p, uint32_t s) { new (p) mtrand(s); }
uint32_t vp_int0(mtrand *r) { return r->next_int(); }
uint32_t vp_int1(mtrand *r, uint32_t a) { return r->next_int(a); }
uint32_t vp_int2(mtrand *r, uint32_t a, uint32_t b) { return r->next_int(a, b); }
uint32_t vp_op0(mtrand *r) { return (*r)(); }
uint32_t vp_op1(mtrand *r, uint32_t a) { return (*r)(a); }
uint32_t vp_op2(mtrand *r, uint32_t a, uint32_t b) { return (*r)(a, b); }
double vp_dbl(mtrand *r) { return r->next_double(); }
struct R { uint32_t operator()(uint32_t n); };
bool vp_with(R &r, int n, int k, std::vector<int> &v) { return sample_with_replacement(r, n, k, v); }
bool vp_without(R &r, int n, int k, std::vector<int> &v) { return sample_without_replacement(r, n, k, v); }
