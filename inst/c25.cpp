#include <iterator>
#include <string>
#include <vector>
#include <new>
#define private public
#include "data/string/kmp.h"
#undef private
typedef pfi::data::string::kmp<std::string> K;
void vp_ctor(K *k, const std::string &q) { new (k) K(q); }
size_t vp_find(const K *k, const std::string &t, int off) { return k->find(t, off); }
std::string *vp_q(K *k) { return &k->query; }
std::vector<int> *vp_n(K *k) { return &k->next; }
