#include "vh.h"
#include <pthread.h>
#include <errno.h>
#include <math.h>
#include <memory>
#include "concurrent/mutex.h"
#include "concurrent/rwmutex.h"
#include "concurrent/condition.h"
#include "concurrent/thread.h"
using namespace pfi::concurrent;
static int self_ = 101, res_ = 0, other = 0; static double now_ = 1.7e9 + 0.25; static bool armed = false; static struct timespec dl; static std::vector<std::string> ev; static std::vector<void *> obj; static r_mutex *during = 0; static int intruder = 0;
namespace pfi { namespace concurrent { thread::tid_t thread::id() { return self_; } } }
static int rec(const char *n, void *o) { if (!armed) return 0; ev.push_back(n); obj.push_back(o); return res_; }
#define W1(f, T) extern "C" int __wrap_pthread_##f(T *m) { return rec(#f, m); }
W1(mutex_lock, pthread_mutex_t) W1(mutex_trylock, pthread_mutex_t) W1(mutex_unlock, pthread_mutex_t) W1(mutex_destroy, pthread_mutex_t) W1(cond_signal, pthread_cond_t) W1(cond_broadcast, pthread_cond_t) W1(cond_destroy, pthread_cond_t)
W1(rwlock_rdlock, pthread_rwlock_t) W1(rwlock_wrlock, pthread_rwlock_t) W1(rwlock_tryrdlock, pthread_rwlock_t) W1(rwlock_trywrlock, pthread_rwlock_t) W1(rwlock_unlock, pthread_rwlock_t) W1(rwlock_destroy, pthread_rwlock_t)
static void intrude() { if (intruder && during) { int s = self_, r = res_; armed = false; self_ = 202; for (int i = 0; i < intruder; i++) during->lock(); for (int i = 0; i < intruder; i++) during->unlock(); self_ = s; res_ = r; armed = true; } }
extern "C" { int __wrap_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *) { return rec("mutex_init", m); } int __wrap_pthread_cond_init(pthread_cond_t *m, const pthread_condattr_t *) { return rec("cond_init", m); }
int __wrap_pthread_rwlock_init(pthread_rwlock_t *m, const pthread_rwlockattr_t *) { return rec("rwlock_init", m); }
int __wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *) { int r = rec("cond_wait", c); intrude(); return r; }
int __wrap_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *, const struct timespec *t) { dl = *t; int r = rec("cond_timedwait", c); intrude(); return r; }
int __wrap_pthread_rwlock_timedrdlock(pthread_rwlock_t *c, const struct timespec *t) { dl = *t; return rec("rwlock_timedrdlock", c); }
int __wrap_pthread_rwlock_timedwrlock(pthread_rwlock_t *c, const struct timespec *t) { dl = *t; return rec("rwlock_timedwrlock", c); }
int __wrap_gettimeofday(struct timeval *tv, void *) { tv->tv_sec = (long)now_; tv->tv_usec = (long)floor((now_ - (long)now_) * 1e6 + 0.5); if (tv->tv_usec >= 1000000) { tv->tv_sec++; tv->tv_usec = 0; } return 0; } }
static std::string evs() { std::string s; for (size_t i = 0; i < ev.size(); i++) s += ev[i] + " "; return s.empty() ? "(none)" : s; }
static void start(int r) { ev.clear(); obj.clear(); res_ = r; armed = true; memset(&dl, -1, sizeof dl); }
static void expect(const std::string &op) { armed = false; vh::check(op.empty() ? ev.empty() : ev.size() == 1 && ev[0] == op, "system operations " + evs() + " instead of " + (op.empty() ? "none" : op)); }
static void deadline(double sec) { vh::check(dl.tv_nsec >= 0 && dl.tv_nsec < 1000000000 && dl.tv_sec >= 0, "deadline not normalised: " + vh::str(dl.tv_sec) + "s " + vh::str(dl.tv_nsec) + "ns"); long double want = (long double)now_ + sec, got = (long double)dl.tv_sec + dl.tv_nsec * 1e-9L; if (want < 0) want = 0; vh::check(fabsl(want - got) < 4e-6L + fabsl(want) * 1e-15L, "deadline " + vh::str((double)got) + " instead of now plus the delay"); }
static int codes[] = {0, 0, EBUSY, ETIMEDOUT, EINVAL, EDEADLK, EAGAIN, EINTR};
static double delays[] = {0, 1e-10, 1e-9, 2e-9, 0.5, 0.75, 0.749999999, 1, 3600.125, 0.999999, 86400 * 365.0, 1e9};
template <class L> static void scopedrw(rw_mutex &m, const char *op, bool timed, double sec, int r) {
  start(r); bool held; { L k(m, timed ? sec : -1); held = k.locked(); vh::check((k ? true : false) == held, "boolean test"); vh::check(ev.size() == 1 && ev[0] == op, "locks with " + evs()); if (vh::below(2)) { L j(k); vh::check(!k.locked() && j.locked() == held, "copy transfers"); } } armed = false;
  vh::check(held == (r == 0), "scoped lock reports held wrongly"); vh::check(ev.size() == (held ? 2u : 1u) && (!held || ev[1] == "rwlock_unlock"), "scoped lock: " + evs()); }
struct LK : lockable { int *l, *u; bool ok; LK(int *a, int *b, bool o) : l(a), u(b), ok(o) {} bool lock() { ++*l; return ok; } bool unlock() { ++*u; return true; } };
int main(int c, char **v) { vh::init(c, v);
  do {
    now_ = vh::below(2) ? 1.7e9 + vh::below(1000000) * 1e-6 : 1e9 + vh::below(4) * 0.25; int r = codes[vh::below(8)]; double sec = vh::below(2) ? delays[vh::below(12)] : vh::below(10000000) * 1e-6;
    { mutex m; self_ = 101; vh::begin_case("mutex lock/unlock with result " + vh::str(r)); start(r); vh::check(m.lock() == (r == 0), "lock result"); expect("mutex_lock"); int r2 = codes[vh::below(8)]; start(r2); vh::check(m.unlock() == (r2 == 0), "unlock result"); expect("mutex_unlock"); }
    { r_mutex m; int owner = 0, depth = 0; std::string d = "recursive mutex:"; for (int i = 0; i < 12; i++) { self_ = 101 + vh::below(2); bool lk = vh::below(5) < 3; int rr = vh::below(4) ? 0 : codes[vh::below(8)]; if (lk && owner && owner != self_) continue; d += (lk ? " lock" : " unlock") + std::string(" by ") + vh::str(self_) + "(" + vh::str(rr) + ")"; vh::begin_case(d); start(rr);
        if (lk) { bool g = m.lock(); if (owner == self_) { expect(""); vh::check(g, "nested lock"); depth++; } else { expect("mutex_lock"); vh::check(g == (rr == 0), "lock result"); if (rr == 0) { owner = self_; depth = 1; } } }
        else { bool g = m.unlock(); if (owner != self_) { expect(""); vh::check(!g, "unlock by a thread that does not hold it"); } else if (--depth) { expect(""); vh::check(g, "nested unlock"); } else { expect("mutex_unlock"); vh::check(g == (rr == 0), "unlock result"); owner = 0; } } } }
    { condition cd; mutex m; r_mutex rm; self_ = 101; bool useR = vh::below(2); int depth = useR ? vh::range(1, 3) : 1; intruder = useR ? vh::below(3) : 0; during = &rm; std::string nm = std::string(useR ? "recursive depth " + vh::str(depth) : "plain") + " intruders " + vh::str(intruder) + " delay " + vh::str(sec) + " result " + vh::str(r); armed = false; mutex_base &b = useR ? (mutex_base &)rm : (mutex_base &)m;
      vh::begin_case("wait unheld " + nm); start(r); cd.wait(b); expect(""); start(r); vh::check(!cd.wait(b, sec), "timed wait unheld"); expect(""); for (int i = 0; i < depth; i++) b.lock();
      vh::begin_case("wait " + nm); start(0); cd.wait(b); expect("cond_wait"); vh::begin_case("timed wait " + nm); start(r); vh::check(cd.wait(b, sec) == (r == 0), "timed wait result"); expect("cond_timedwait"); deadline(sec);
      if (useR) { for (int i = 1; i < depth; i++) { start(0); vh::check(rm.unlock(), "nested unlock after wait"); expect(""); } start(0); vh::check(rm.unlock(), "last unlock after wait"); expect("mutex_unlock"); } else { start(0); cd.wait(b); expect("cond_wait"); start(0); vh::check(m.unlock(), "unlock after wait"); expect("mutex_unlock"); }
      start(0); cd.notify(); expect("cond_signal"); start(0); cd.notify_all(); expect("cond_broadcast"); intruder = 0; during = 0; }
    { int ir = vh::below(6) ? 0 : ENOMEM; vh::begin_case("rw_mutex init " + vh::str(ir) + " delay " + vh::str(sec) + " result " + vh::str(r)); start(ir); { rw_mutex m; expect("rwlock_init"); bool ok = ir == 0;
      start(r); bool g = m.read_lock(); expect(ok ? "rwlock_rdlock" : ""); vh::check(g == (ok && r == 0), "read_lock"); start(r); g = m.write_lock(); expect(ok ? "rwlock_wrlock" : ""); vh::check(g == (ok && r == 0), "write_lock"); start(r); g = m.unlock(); expect(ok ? "rwlock_unlock" : ""); vh::check(g == (ok && r == 0), "unlock");
      bool tr = sec < 1e-9; start(r); g = m.read_lock(sec); expect(!ok ? "" : tr ? "rwlock_tryrdlock" : "rwlock_timedrdlock"); vh::check(g == (ok && r == 0), "timed read_lock reports " + vh::str(g)); if (ok && !tr) deadline(sec);
      start(r); g = m.write_lock(sec); expect(!ok ? "" : tr ? "rwlock_trywrlock" : "rwlock_timedwrlock"); vh::check(g == (ok && r == 0), "timed write_lock reports " + vh::str(g)); if (ok && !tr) deadline(sec);
      if (ok) { scopedrw<scoped_rlock>(m, "rwlock_rdlock", false, 0, r); scopedrw<scoped_wlock>(m, "rwlock_wrlock", false, 0, r); scopedrw<scoped_rlock>(m, tr ? "rwlock_tryrdlock" : "rwlock_timedrdlock", true, sec, r); scopedrw<scoped_wlock>(m, tr ? "rwlock_trywrlock" : "rwlock_timedwrlock", true, sec, r);
        for (int k = 0; k < 4; k++) { start(r); bool h; { scoped_lock l(k == 0 ? rlock(m) : k == 1 ? wlock(m) : k == 2 ? rlock(m, sec) : wlock(m, sec)); h = l.locked(); } armed = false; const char *o[] = {"rwlock_rdlock", "rwlock_wrlock", tr ? "rwlock_tryrdlock" : "rwlock_timedrdlock", tr ? "rwlock_trywrlock" : "rwlock_timedwrlock"}; vh::check(h == (r == 0) && ev.size() == (h ? 2u : 1u) && ev[0] == o[k] && (!h || ev[1] == "rwlock_unlock"), "rlock/wlock: " + evs()); } }
      start(0); } armed = false; vh::check(ir ? ev.empty() : ev.size() == 1 && ev[0] == "rwlock_destroy", "destruction: " + evs()); }
    for (int ok = 0; ok < 2; ok++) for (int k = 0; k < 4; k++) { int l = 0, u = 0, body = 0; vh::begin_case("scoped_lock form " + vh::str(k) + (ok ? " obtained" : " refused")); LK x(&l, &u, ok);
      try { if (k == 0) { scoped_lock s(x); vh::check(s.locked() == ok && (s ? true : false) == ok && u == 0, "held"); } else if (k == 1) { synchronized(x) { body++; vh::check(u == 0, "released early"); } vh::check(body == ok, "block runs iff held"); } else if (k == 2) { scoped_lock s(std::unique_ptr<lockable>(new LK(&l, &u, ok))); vh::check(s.locked() == ok && u == 0, "held"); } else { scoped_lock s(x); throw 1; } } catch (int) {}
      vh::check(l == 1 && u == ok, "locked " + vh::str(l) + " times, released " + vh::str(u) + " times"); }
  } while (vh::time_left());
  return vh::done(); }
