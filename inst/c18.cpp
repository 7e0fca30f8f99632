#include "data/fenwick_tree.h"
template class pfi::data::fenwick_tree<int>;
template class pfi::data::fenwick_tree<long long>;
