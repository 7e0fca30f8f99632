#include "system/time_util.h"
using namespace pfi::system::time;
void t_add(clock_time *r, const clock_time *a, const clock_time *b) { *r = *a + *b; }
void t_sub(clock_time *r, const clock_time *a, const clock_time *b) { *r = *a - *b; }
void t_addeq(clock_time *a, const clock_time *b) { *a += *b; }
void t_subeq(clock_time *a, const clock_time *b) { *a -= *b; }
bool t_less(const clock_time *a, const clock_time *b) { return *a < *b; }
void t_cal(clock_time *r, const clock_time *a) { calendar_time c(*a); *r = clock_time(c); }
void t_fields(clock_time *r, calendar_time *o, int y, int mo, int d, int h, int mi, int s, int us) { calendar_time c(y, mo, d, h, mi, s, us); *o = c; *r = clock_time(c); }
void t_now(clock_time *r) { *r = get_clock_time(); }
