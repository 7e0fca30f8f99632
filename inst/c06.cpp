#include "concurrent/mvar.h"
template class pfi::concurrent::mvar<int>;
