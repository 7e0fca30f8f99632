// Deterministic scheduler for the concurrency stand-ins: the real code runs as coroutines; the pthread operations (linker --wrap) are the scheduling
// points, chosen at random; spurious wake-ups and time-outs are choices too.  The clock is virtual.
#ifndef SCHED_H
#define SCHED_H
#include "vh.h"
#include <ucontext.h>
#include <pthread.h>
#include <errno.h>
#include <functional>
#include "concurrent/thread.h"
namespace sc {
enum St { READY, MUTEX, COND, DONE };
struct Co { ucontext_t c; std::vector<char> *stack; std::function<void()> f; St st; void *on; void *m; bool timed; double deadline; int reason; Co() : stack(0) {} };
static std::vector<Co *> cos; static int cur = -1; static ucontext_t mainc; static std::map<void *, int> owner; static double clk = 1000; static int spurious = 0; static bool inside = false; static int seq = 0;
static std::vector<std::vector<char> *> pool; static std::string trace;
static void yield() { if (!inside) return; swapcontext(&cos[cur]->c, &mainc); }
static void entry() { cos[cur]->f(); cos[cur]->st = DONE; swapcontext(&cos[cur]->c, &mainc); }
static void spawn(std::function<void()> f) { Co *c = new Co(); c->f = f; c->st = READY; if (pool.empty()) c->stack = new std::vector<char>(128 << 10); else { c->stack = pool.back(); pool.pop_back(); }
  getcontext(&c->c); c->c.uc_stack.ss_sp = &(*c->stack)[0]; c->c.uc_stack.ss_size = c->stack->size(); c->c.uc_link = 0; makecontext(&c->c, entry, 0); cos.push_back(c); }
// runs until nothing can proceed; returns true if every thread finished
static bool run(int maxsteps = 5000) {
  inside = true; bool all = false; int last = -1;
  for (int step = 0;; step++) {
    if (step > maxsteps) { inside = false; vh::fail("the threads do not come to rest (livelock) in schedule " + trace); }
    std::vector<int> cand, late; all = true;
    for (size_t i = 0; i < cos.size(); i++) { Co *c = cos[i]; if (c->st != DONE) all = false;
      if (c->st == READY || (c->st == MUTEX && owner.count(c->on) == 0)) cand.push_back(i);
      else if (c->st == COND && c->timed) late.push_back(i);
      else if (c->st == COND && spurious > 0 && vh::below(8) == 0) late.push_back(i); }
    if (all) break;
    std::vector<int> lt; for (size_t k = 0; k < late.size(); k++) if (cos[late[k]]->timed) lt.push_back(late[k]);
    int pick = -1; bool wake = false;
    if (cand.empty() && lt.empty()) break;
    if (!cand.empty() && (late.empty() || vh::below(6))) { bool stay = false; for (size_t k = 0; k < cand.size(); k++) if (cand[k] == last) stay = true; pick = stay && vh::below(2) ? last : cand[vh::below(cand.size())]; }
    else { const std::vector<int> &l = late.empty() ? lt : late; if (l.empty()) { pick = cand[0]; } else { pick = l[vh::below(l.size())]; wake = true; } }
    Co *c = cos[pick];
    if (wake) { if (c->timed && (spurious <= 0 || vh::below(3))) { c->reason = ETIMEDOUT; if (clk < c->deadline) clk = c->deadline; clk += 1e-3; } else { c->reason = 0; spurious--; } c->st = MUTEX; c->on = c->m; trace += "!"; if (owner.count(c->on)) continue; }
    if (trace.size() < 2000) trace += char('0' + pick);
    cur = pick; last = pick; if (c->st == MUTEX) { owner[c->on] = pick; } c->st = READY;
    swapcontext(&mainc, &c->c);
  }
  inside = false; return all;
}
static void reset() { for (size_t i = 0; i < cos.size(); i++) { pool.push_back(cos[i]->stack); if (cos[i]->st == DONE) delete cos[i]; } cos.clear(); owner.clear(); spurious = vh::below(3); clk = 1000; trace.clear(); cur = -1; seq = 0; }
static std::string who() { return vh::str(cur); }
}
namespace pfi { namespace concurrent { thread::tid_t thread::id() { return sc::inside ? 100 + sc::cur : 99; } } }
extern "C" {
int __wrap_pthread_mutex_init(pthread_mutex_t *, const pthread_mutexattr_t *) { return 0; }
int __wrap_pthread_mutex_destroy(pthread_mutex_t *) { return 0; }
int __wrap_pthread_cond_init(pthread_cond_t *, const pthread_condattr_t *) { return 0; }
int __wrap_pthread_cond_destroy(pthread_cond_t *) { return 0; }
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { using namespace sc; if (!inside) { owner[m] = -1; return 0; } yield(); if (owner.count(m)) { cos[cur]->st = MUTEX; cos[cur]->on = m; yield(); } else owner[m] = cur; return 0; }
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) { using namespace sc; if (inside) yield(); if (owner.count(m)) return EBUSY; owner[m] = inside ? cur : -1; return 0; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { using namespace sc; if (!inside) { owner.erase(m); return 0; } if (!owner.count(m) || owner[m] != cur) { inside = false; vh::fail("thread " + vh::str(cur) + " releases a mutex it does not hold; schedule " + trace); } owner.erase(m); yield(); return 0; }
static int sched_wait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) { using namespace sc; if (!owner.count(m) || owner[m] != cur) { inside = false; vh::fail("thread " + vh::str(cur) + " waits on a condition without holding the mutex; schedule " + trace); }
  Co *o = cos[cur]; yield(); owner.erase(m); o->st = COND; o->on = c; o->m = m; o->timed = t != 0; o->deadline = t ? t->tv_sec + t->tv_nsec * 1e-9 : 0; o->reason = 0; yield(); return o->reason; }
int __wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { return sched_wait(c, m, 0); }
int __wrap_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) { return sched_wait(c, m, t); }
static int sched_wake(pthread_cond_t *c, bool all) { using namespace sc; if (!inside) return 0; yield(); std::vector<Co *> w; for (size_t i = 0; i < cos.size(); i++) if (cos[i]->st == COND && cos[i]->on == c) w.push_back(cos[i]);
  if (!all && w.size() > 1) { Co *x = w[vh::below(w.size())]; w.assign(1, x); } for (size_t i = 0; i < w.size(); i++) { w[i]->st = MUTEX; w[i]->on = w[i]->m; } return 0; }
int __wrap_pthread_cond_signal(pthread_cond_t *c) { return sched_wake(c, false); }
int __wrap_pthread_cond_broadcast(pthread_cond_t *c) { return sched_wake(c, true); }
int __wrap_gettimeofday(struct timeval *tv, void *) { tv->tv_sec = (long)sc::clk; tv->tv_usec = (long)((sc::clk - (long)sc::clk) * 1e6); return 0; }
}
// histories: every operation with its results; the oracle is a sequential specification
struct Op { int th, kind, a; double sec; int r, v; int inv, res; bool done; Op(int k = 0, int x = 0, double s = -1) : th(0), kind(k), a(x), sec(s), r(0), v(0), inv(0), res(0), done(false) {} };
struct SpecBase { enum { V = 1 }; static void split(std::vector<Op> &) {} };
// S: copyable state with  bool apply(const Op &)  (legal with these results? then performs it)  and  bool enabled(const Op &) const  (could a pending op proceed?)
template <class S> static bool lin(std::vector<Op> &h, const S &s, unsigned used, std::set<std::pair<unsigned, std::string> > &seen) {
  if (!seen.insert(std::make_pair(used, s.key())).second) return false;
  bool left = false; int minres = 1 << 30;
  for (size_t i = 0; i < h.size(); i++) if (!(used >> i & 1) && h[i].done) { left = true; minres = std::min(minres, h[i].res); }
  if (!left) { for (size_t i = 0; i < h.size(); i++) if (!h[i].done && s.enabled(h[i])) return false; return true; }
  for (size_t i = 0; i < h.size(); i++) if (!(used >> i & 1) && h[i].done && h[i].inv <= minres) for (int v = 0; v < S::V; v++) { S t = s; if (t.apply(h[i], v) && lin(h, t, used | 1u << i, seen)) return true; }
  return false;
}
template <class S> static std::string explain(const std::vector<Op> &h) { std::ostringstream os; for (size_t i = 0; i < h.size(); i++) { os << "[t" << h[i].th << " " << S::name(h[i]); if (h[i].done) os << " -> " << h[i].r << "," << h[i].v << " @" << h[i].inv << "-" << h[i].res; else os << " blocked"; os << "]"; } return os.str(); }
// one execution: scripts per thread; exec(op) performs it on the object
template <class S, class X> static void execute(const S &init, std::vector<std::vector<Op> > &scr, X exec) {
  std::vector<std::vector<Op> > *ps = &scr;
  for (size_t t = 0; t < scr.size(); t++) { int ti = t; sc::spawn([ps, ti, exec]() { for (size_t i = 0; i < (*ps)[ti].size(); i++) { Op &o = (*ps)[ti][i]; o.th = ti; o.inv = ++sc::seq; double t0 = sc::clk; exec(o); o.res = ++sc::seq; o.done = true; if (o.sec >= 0 && !o.r && sc::clk < t0 + o.sec - 1e-4) { sc::inside = false; vh::fail("a timed operation gave up before its time; schedule " + sc::trace); } } }); }
  sc::run(); std::vector<Op> h; for (size_t t = 0; t < scr.size(); t++) for (size_t i = 0; i < scr[t].size(); i++) if (scr[t][i].inv) h.push_back(scr[t][i]);
  S::split(h); std::set<std::pair<unsigned, std::string> > seen;
  if (!lin(h, init, 0, seen)) vh::fail("no sequential order explains the history (or an operation is blocked although it could proceed): " + explain<S>(h) + " schedule " + sc::trace);
}
#endif
