#include <iostream>
#include <string>
#include <iterator>
#include <stdint.h>
#define private public
#include "data/digest/md5.h"
#undef private
using namespace pfi::data::digest;
extern "C" bool vp_src_empty(); extern "C" void vp_src_get(uint32_t *);
struct VB : itr_buf_base { bool empty() const { return vp_src_empty(); } void get(uint32_t *x) { vp_src_get(x); } };
void vp_calc(md5sum *m) { VB b; m->calc(b); }
typedef itr_buf<std::string::const_iterator> SB; typedef itr_buf<const char *> PB; typedef itr_buf<std::istreambuf_iterator<char> > IB;
void vp_sb_make(void *p, const std::string *s) { new (p) SB(s->begin(), s->end()); }
void vp_pb_make(void *p, const char *a, const char *b) { new (p) PB(a, b); }
void vp_sb_get(SB *p, uint32_t *x) { p->SB::get(x); }
void vp_pb_get(PB *p, uint32_t *x) { p->PB::get(x); }
bool vp_sb_empty(SB *p) { return p->SB::empty(); }
bool vp_pb_empty(PB *p) { return p->PB::empty(); }
void vp_md5_str(void *p, const std::string *s) { new (p) md5sum(*s); }
void vp_md5_ptr(void *p, const char *a, const char *b) { new (p) md5sum(a, b); }
bool vp_less(const md5sum *a, const md5sum *b) { return *a < *b; }
void vp_print(std::ostream *os, const md5sum *m) { *os << *m; }
