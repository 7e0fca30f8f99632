#include <new>
#include "concurrent/chan.h"
typedef pfi::concurrent::chan<int> C;
C *vp_make(void *m) { return new (m) C(); }
C *vp_dup(C *c, pfi::lang::shared_ptr<C> *out) { new (out) pfi::lang::shared_ptr<C>(c->dup()); return out->get(); }
void vp_write(C *c, const int *r) { c->write(*r); }
int vp_read(C *c) { return c->read(); }
void vp_unget(C *c, const int *r) { c->unget(*r); }
int vp_size(C *c) { return c->size(); }
bool vp_empty(C *c) { return c->empty(); }
void vp_destroy(C *c) { c->~C(); }
