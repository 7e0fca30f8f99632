#include <new>
#include <string>
#include "system/mmapper.h"
typedef pfi::system::mmapper::mmapper M;
void vp_make(void *p) { new (p) M(); }
int vp_open(M *m, const std::string *f) { return m->open(*f); }
int vp_close(M *m) { return m->close(); }
void vp_destroy(M *m) { m->~M(); }
void vp_move(M *m, void *p) { new (p) M(std::move(*m)); }
void vp_assign(M *l, M *r) { *l = std::move(*r); }
void vp_swap(M *l, M *r) { std::swap(*l, *r); }
bool vp_is_open(const M *m) { return m->is_open(); }
size_t vp_size(const M *m) { return m->size(); }
const char *vp_begin(const M *m) { return m->begin(); }
const char *vp_end(const M *m) { return m->end(); }
