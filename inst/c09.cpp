#include <new>
#include "concurrent/mutex.h"
#include "concurrent/rwmutex.h"
#include "concurrent/condition.h"
#include "concurrent/lock.h"
using namespace pfi::concurrent;
void vp_mk_mutex(void *p) { new (p) mutex(); }
void vp_mk_rmutex(void *p) { new (p) r_mutex(); }
void vp_del_mutex(mutex *m) { m->~mutex(); }
void vp_del_rmutex(r_mutex *m) { m->~r_mutex(); }
bool vp_lock(mutex_base *m) { return m->lock(); }
bool vp_unlock(mutex_base *m) { return m->unlock(); }
void vp_mk_cond(void *p) { new (p) condition(); }
void vp_wait(condition *c, mutex_base *m) { c->wait(*m); }
bool vp_twait(condition *c, mutex_base *m, double s) { return c->wait(*m, s); }
void vp_notify(condition *c) { c->notify(); }
void vp_notify_all(condition *c) { c->notify_all(); }
void vp_mk_rw(void *p) { new (p) rw_mutex(); }
void vp_del_rw(rw_mutex *m) { m->~rw_mutex(); }
bool vp_rl(rw_mutex *m) { return m->read_lock(); }
bool vp_rlt(rw_mutex *m, double s) { return m->read_lock(s); }
bool vp_wl(rw_mutex *m) { return m->write_lock(); }
bool vp_wlt(rw_mutex *m, double s) { return m->write_lock(s); }
bool vp_ul(rw_mutex *m) { return m->unlock(); }
bool vp_synchronized(lockable *l) { synchronized(*l) { return true; } return false; }
// the scoped locks over abstract lockables: body() stands for the protected block and may throw
bool ext_lock(); bool ext_unlock(); void ext_body(bool held);
struct ext_lockable : lockable { bool lock() { return ext_lock(); } bool unlock() { return ext_unlock(); } };
void vp_scoped() { ext_lockable l; scoped_lock k(l); bool h = k.locked(); ext_body(h); if (k) ext_body(h); }
void vp_sync() { ext_lockable l; synchronized(l) { ext_body(true); } }
void vp_scoped_ptr() { scoped_lock k(std::unique_ptr<lockable>(new ext_lockable())); ext_body(k.locked()); }
void vp_srl(rw_mutex *m) { scoped_rlock k(*m); ext_body(k.locked()); if (k) ext_body(k.locked()); }
void vp_swl(rw_mutex *m) { scoped_wlock k(*m); ext_body(k.locked()); if (k) ext_body(k.locked()); }
void vp_srlt(rw_mutex *m, double s) { scoped_rlock k(*m, s); ext_body(k.locked()); }
void vp_swlt(rw_mutex *m, double s) { scoped_wlock k(*m, s); ext_body(k.locked()); }
void vp_srl_copy(rw_mutex *m) { scoped_rlock k(*m); bool h = k.locked(); scoped_rlock j(k); ext_body(j.locked()); if (k.locked() || j.locked() != h) ext_body(!j.locked()); }
void vp_rlock(rw_mutex *m) { scoped_lock k(rlock(*m)); ext_body(k.locked()); }
void vp_wlock(rw_mutex *m) { scoped_lock k(wlock(*m)); ext_body(k.locked()); }
void vp_rlockt(rw_mutex *m, double s) { scoped_lock k(rlock(*m, s)); ext_body(k.locked()); }
void vp_wlockt(rw_mutex *m, double s) { scoped_lock k(wlock(*m, s)); ext_body(k.locked()); }
