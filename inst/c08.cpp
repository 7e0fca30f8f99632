#include "concurrent/lock.h"
#include "concurrent/qsem.h"
pfi::concurrent::qsem *vp_make(void *m, int q) { return new (m) pfi::concurrent::qsem(q); }
bool vp_wait(pfi::concurrent::qsem *s, int q) { return s->wait(q); }
bool vp_wait1(pfi::concurrent::qsem *s) { return s->wait(); }
bool vp_signal(pfi::concurrent::qsem *s, int q) { return s->signal(q); }
bool vp_signal1(pfi::concurrent::qsem *s) { return s->signal(); }
bool vp_lock(pfi::concurrent::qsem *s) { return s->lock(); }
bool vp_unlock(pfi::concurrent::qsem *s) { return s->unlock(); }
