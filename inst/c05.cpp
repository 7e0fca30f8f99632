#include "concurrent/pcbuf.h"
template class pfi::concurrent::pcbuf<int>;
