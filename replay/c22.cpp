#include "vh.h"
#include <new>
#include <time.h>
#include "system/time_util.h"
using namespace pfi::system::time;
typedef __int128 big;
static big val(const clock_time &t) { return (big)t.sec * 1000000 + t.usec; }
static std::string sh(const clock_time &t) { return vh::str(t.sec) + "." + vh::str(t.usec); }
static clock_time rt() { uint64_t s = vh::below(3) ? vh::below(1ULL << 40) : vh::below(5); int us[] = {0, 1, 499999, 500000, 999999, 999998}; return clock_time(s, vh::below(2) ? us[vh::below(6)] : vh::below(1000000)); }
int main(int c, char **v) { vh::init(c, v);
  const char *tz[] = {"UTC", "Asia/Tokyo", "EST5EDT", "CET-1CEST", "NZST-12NZDT,M9.5.0,M4.1.0"};
  do {
    for (int i = 0; i < 3000; i++) { clock_time a = rt(), b = rt(); vh::begin_case(sh(a) + " and " + sh(b));
      clock_time s = a + b; vh::check(val(s) == val(a) + val(b) && s.usec >= 0 && s.usec < 1000000, "sum " + sh(s));
      clock_time d = s - b; vh::check(val(d) == val(a) && d.usec == a.usec, "(a+b)-b = " + sh(d));
      clock_time x = a; x += b; vh::check(x.sec == s.sec && x.usec == s.usec, "+="); x -= b; vh::check(x.sec == a.sec && x.usec == a.usec, "-=");
      if (val(a) >= val(b)) { clock_time e = a - b; vh::check(val(e) == val(a) - val(b) && e.usec >= 0 && e.usec < 1000000, "difference " + sh(e)); }
      vh::check((a < b) == (val(a) < val(b)), "comparison"); vh::check(!(a < a), "irreflexive"); x = a; x -= x; vh::check(val(x) == 0, "a-=a"); x = a; x += x; vh::check(val(x) == 2 * val(a), "a+=a"); }
    for (int z = 0; z < 5; z++) { setenv("TZ", tz[z], 1); tzset();
      for (int i = 0; i < 400; i++) { clock_time a(vh::below(4102444800ULL), vh::below(1000000)); vh::begin_case(std::string("TZ=") + tz[z] + " calendar of " + sh(a)); calendar_time ct(a); clock_time b(ct); vh::check(a.sec == b.sec && a.usec == b.usec, "calendar round trip gives " + sh(b));
        time_t tt = a.sec; struct tm t; localtime_r(&tt, &t); vh::check(ct.year == t.tm_year + 1900 && ct.mon == t.tm_mon + 1 && ct.mday == t.tm_mday && ct.hour == t.tm_hour && ct.min == t.tm_min && ct.sec == t.tm_sec && ct.yday == t.tm_yday && ct.wday == t.tm_wday && ct.usec == a.usec, "fields");
        // from fields, in memory filled with both patterns
        t.tm_isdst = -1; time_t want = mktime(&t);
        for (int p = 0; p < 2; p++) { char buf[sizeof(calendar_time)]; memset(buf, p, sizeof buf); calendar_time *q = new (buf) calendar_time(ct.year, ct.mon, ct.mday, ct.hour, ct.min, ct.sec, ct.usec); clock_time r(*q);
          vh::check(r.sec == (uint64_t)want && r.usec == ct.usec, "calendar_time from the fields denotes " + sh(r) + " instead of " + vh::str(want)); vh::check(q->hour == ct.hour && q->yday == ct.yday && q->wday == ct.wday, "normalised fields"); } } }
  } while (vh::time_left());
  return vh::done(); }
