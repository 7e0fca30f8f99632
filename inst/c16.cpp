#include "data/lru.h"
typedef pfi::data::lru<int, int> L;
bool vp_has(const L *l, const int *k) { return l->has(*k); }
const int *vp_get(L *l, const int *k) { return &l->get(*k); }
void vp_set(L *l, const int *k, const int *v) { l->set(*k, *v); }
void vp_touch(L *l, const int *k) { l->touch(*k); }
void vp_remove(L *l, const int *k) { l->remove(*k); }
void vp_clear(L *l) { l->clear(); }
int *vp_index(L *l, const int *k) { return &(*l)[*k]; }
void vp_make(void *p, int n) { new (p) L(n); }
