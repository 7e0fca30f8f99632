#include "data/intern.h"
typedef pfi::data::intern<int> I;
int vp_nogen(const I *t, const int *k) { return t->key2id_nogen(*k); }
int vp_id(I *t, const int *k) { return t->key2id(*k); }
int vp_id2(I *t, const int *k, bool g) { return t->key2id(*k, g); }
int vp_key(const I *t, int id) { return t->id2key(id); }
bool vp_has_key(const I *t, const int *k) { return t->exist_key(*k); }
bool vp_has_id(const I *t, int id) { return t->exist_id(id); }
bool vp_empty(const I *t) { return t->empty(); }
size_t vp_size(const I *t) { return t->size(); }
void vp_clear(I *t) { t->clear(); }
void vp_swap(I *a, I *b) { a->swap(*b); }
void vp_swap2(I *a, I *b) { swap(*a, *b); }
