#include "data/optional.h"
// element type whose operations are contracts of the verifier
struct X { int tag; X(const X &); ~X(); X &operator=(const X &); bool operator==(const X &) const; bool operator<(const X &) const; };
typedef pfi::data::optional<X> O; typedef pfi::data::optional<int> OI;
void vp_make(void *p) { new (p) O(); }
void vp_make_v(void *p, const X *x) { new (p) O(*x); }
void vp_copy(void *p, const O *q) { new (p) O(*q); }
void vp_destroy(O *p) { p->~O(); }
void vp_assign(O *p, const O *q) { *p = *q; }
void vp_assign_v(O *p, const X *x) { *p = *x; }
void vp_swap(O *p, O *q) { p->swap(*q); }
bool vp_test(const O *p) { return p->bool_test(); }
bool vp_test2(const O *p) { return *p ? true : false; }
X *vp_get(const O *p) { return p->get(); }
X *vp_star(const O *p) { return &**p; }
X *vp_arrow(const O *p) { return p->operator->(); }
bool vp_eq(const O *p, const O *q) { return *p == *q; }
bool vp_ne(const O *p, const O *q) { return *p != *q; }
bool vp_lt(const O *p, const O *q) { return *p < *q; }
bool vp_gt(const O *p, const O *q) { return *p > *q; }
bool vp_le(const O *p, const O *q) { return *p <= *q; }
bool vp_ge(const O *p, const O *q) { return *p >= *q; }
struct Y { int tag; };
struct Z { int tag; Z(const Y &); ~Z(); };
typedef pfi::data::optional<Y> OY; typedef pfi::data::optional<Z> OZ;
void vp_make_y(void *p, const Y *y) { new (p) OY(*y); }
void vp_make_y0(void *p) { new (p) OY(); }
void vp_conv(void *p, const OY *q) { new (p) OZ(*q); }
void vp_conv_assign(OZ *p, const OY *q) { *p = *q; }
void vp_z_destroy(OZ *p) { p->~OZ(); }
Z *vp_z_get(const OZ *p) { return p->get(); }
