#include "sched.h"
#include <pthread.h>
#include <dlfcn.h>
#include <errno.h>
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <unistd.h>
#include <time.h>
#include <stdint.h>
#include <sys/syscall.h>
#include <linux/futex.h>

enum St { FREE, READY, B_MUTEX, B_COND, B_JOIN, B_FLAG, B_SETTLE, DONE };
struct Th {
    St st; void * on; int baton; bool timed; bool timedout; pthread_t pt; void * (*fn)(void*); void * arg; int prio; bool signalled;
    void * ret;
};
static const int MAXT = 64, MAXM = 4096;
static Th th[MAXT];
static int nth = 0;
static volatile int active = 0;
static int cur = -1;
static __thread int self = -1;
static __thread int inside = 0;
static SchedConf cf;
static void (*end_cb)(const char *) = 0;
static unsigned long rs;
static int steps = 0, step_limit = 400000;
static int pct_change[64]; static int pct_n = 0, pct_low = 0;
static Decision dec[100000]; static int ndec = 0;
struct Mx { void * a; int owner; int count; };
static Mx mx[MAXM]; static int nmx = 0;

static unsigned long rnd() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs; }
static double frnd() { return (rnd() >> 11) * (1.0 / 9007199254740992.0); }

static void fwait(int * f) {
    while(!__atomic_load_n(f, __ATOMIC_SEQ_CST)) syscall(SYS_futex, f, FUTEX_WAIT, 0, NULL, NULL, 0);
    __atomic_store_n(f, 0, __ATOMIC_SEQ_CST);
}
static void fpost(int * f) {
    __atomic_store_n(f, 1, __ATOMIC_SEQ_CST);
    syscall(SYS_futex, f, FUTEX_WAKE, 1, NULL, NULL, 0);
}
static Mx * getmx(void * a) {
    for(int i = 0; i < nmx; i++) if(mx[i].a == a) return &mx[i];
    if(nmx >= MAXM) { fprintf(stderr, "too many mutexes\n"); _exit(9); }
    mx[nmx].a = a; mx[nmx].owner = -1; mx[nmx].count = 0;
    return &mx[nmx++];
}
static void finish(const char * why) { active = 0; inside = 1; if(end_cb) end_cb(why); _exit(0); }

static int runnable(int * r) {
    int n = 0;
    for(int i = 0; i < nth; i++) {
        if(th[i].st == READY) r[n++] = i;
        else if(th[i].st == B_MUTEX && getmx(th[i].on)->owner < 0) r[n++] = i;
        else if(th[i].st == B_FLAG && *(volatile int*)th[i].on) r[n++] = i;
    }
    return n;
}
// choose the next thread; the current one (me) may or may not be able to go on
static int choose(int me, bool can, double p) {
    int r[MAXT]; int n = runnable(r);
    // spurious wake-ups are part of what condition variables may do
    if(cf.pspur > 0 && frnd() < cf.pspur) {
        for(int i = 0; i < nth; i++) if(th[i].st == B_COND) { th[i].st = READY; th[i].signalled = true; r[n++] = i; break; }
    }
    if(n == 0) {
        for(int i = 0; i < nth; i++) if(th[i].st == B_SETTLE) { th[i].st = READY; return i; }
        for(int i = 0; i < nth; i++) if(th[i].st == B_COND && th[i].timed) { th[i].timedout = true; th[i].st = READY; return i; }
        for(int i = 0; i < nth; i++) if(th[i].st != DONE && th[i].st != FREE) finish("deadlock");
        return -1;
    }
    if(n == 1) return r[0];
    if(cf.mode == 1) {
        if(pct_n > 0) for(int i = 0; i < pct_n; i++) if(pct_change[i] == steps && me >= 0) th[me].prio = --pct_low;
        int b = r[0]; for(int i = 1; i < n; i++) if(th[r[i]].prio > th[b].prio) b = r[i];
        return b;
    }
    if(cf.mode == 2) {
        // index 0: go on with the current thread if possible, otherwise the lowest-numbered one
        int o[MAXT], k = 0;
        if(can) o[k++] = me;
        for(int i = 0; i < n; i++) if(!(can && r[i] == me)) o[k++] = r[i];
        int t = ndec < cf.nchoices ? cf.choices[ndec] : 0;
        if(t >= k) t = 0;
        if(ndec < 100000) { dec[ndec].n = k; dec[ndec].taken = t; dec[ndec].preempt = can; ndec++; }
        return o[t];
    }
    if(can && frnd() >= p) return me;
    return r[rnd() % n];
}
static void go(int next) {
    int me = self;
    if(next == me) { cur = me; return; }
    cur = next;
    fpost(&th[next].baton);
    if(me >= 0 && th[me].st != DONE) fwait(&th[me].baton);
}
static void point(double p) {
    if(++steps > step_limit) finish("steps");
    go(choose(self, true, p));
}
// the current thread cannot go on until its state becomes ready again
static void block() {
    if(++steps > step_limit) finish("steps");
    int n = choose(self, false, 1);
    go(n);
}
#define MANAGED (active && self >= 0 && !inside)

template <class F> static F real(const char * n) { return (F)dlsym(RTLD_NEXT, n); }
typedef int (*mfn)(pthread_mutex_t*);
typedef int (*cwfn)(pthread_cond_t*, pthread_mutex_t*);
typedef int (*ctfn)(pthread_cond_t*, pthread_mutex_t*, const struct timespec*);
typedef int (*cfn)(pthread_cond_t*);

void sched_start(const SchedConf & c, void (*on_end)(const char*)) {
    cf = c; end_cb = on_end; rs = c.seed * 0x9E3779B97F4A7C15UL + 88172645463325252UL; for(int i = 0; i < 8; i++) rnd();
    self = 0; nth = 1; cur = 0; memset(th, 0, sizeof th);
    th[0].st = READY; th[0].prio = 1000 + rnd() % 1000;
    if(c.mode == 1) { pct_n = c.depth < 64 ? c.depth : 63; for(int i = 0; i < pct_n; i++) pct_change[i] = rnd() % (c.horizon ? c.horizon : 600); }
    if(c.limit) step_limit = c.limit;
    active = 1;
}
void sched_stop() { active = 0; }
int sched_self() { return self; }
int sched_steps() { return steps; }
int sched_decisions(const Decision ** d) { *d = dec; return ndec; }
void sched_yield_now() { if(MANAGED) { inside = 1; point(0.5); inside = 0; } }
void sched_settle() { if(MANAGED) { inside = 1; th[self].st = B_SETTLE; block(); inside = 0; } }
void sched_block_until(volatile int * f) {
    if(!MANAGED) return;
    inside = 1;
    while(!*f) { th[self].st = B_FLAG; th[self].on = (void*)f; block(); th[self].st = READY; }
    inside = 0;
}
void sched_set(volatile int * f) { *f = 1; sched_yield_now(); }

extern "C" {
static void * wrap(void * p) {
    Th * t = (Th*)p; self = (int)(t - th);
    fwait(&t->baton);
    t->ret = t->fn(t->arg);
    inside = 1;
    t->st = DONE;
    for(int i = 0; i < nth; i++) if(th[i].st == B_JOIN && th[i].on == (void*)t) th[i].st = READY;
    if(active) {
        int n = choose(self, false, 1);
        if(n >= 0) { cur = n; fpost(&th[n].baton); }
    }
    self = -1;
    return t->ret;
}
int pthread_create(pthread_t * pt, const pthread_attr_t * at, void * (*fn)(void*), void * arg) {
    static int (*r)(pthread_t*, const pthread_attr_t*, void*(*)(void*), void*) = 0;
    if(!r) r = real<int(*)(pthread_t*, const pthread_attr_t*, void*(*)(void*), void*)>("pthread_create");
    if(!MANAGED) return r(pt, at, fn, arg);
    inside = 1;
    Th * t = &th[nth];
    memset(t, 0, sizeof *t);
    t->fn = fn; t->arg = arg; t->prio = 1000 + rnd() % 1000;
    int rc = r(&t->pt, at, wrap, t);
    *pt = t->pt;
    if(rc == 0) { t->st = READY; nth++; point(cf.psync); }
    inside = 0;
    return rc;
}
int pthread_join(pthread_t pt, void ** ret) {
    static int (*r)(pthread_t, void**) = 0; if(!r) r = real<int(*)(pthread_t, void**)>("pthread_join");
    if(MANAGED) {
        inside = 1;
        for(int i = 0; i < nth; i++) if(th[i].st != FREE && pthread_equal(th[i].pt, pt) && i > 0) {
            while(th[i].st != DONE) { th[self].st = B_JOIN; th[self].on = &th[i]; block(); th[self].st = READY; }
        }
        inside = 0;
    }
    return r(pt, ret);
}
int pthread_mutex_lock(pthread_mutex_t * m) {
    static mfn r = 0; if(!MANAGED) { if(!r) r = real<mfn>("pthread_mutex_lock"); return active ? (inside ? 0 : r(m)) : r(m); }
    inside = 1;
    point(cf.psync);
    Mx * x = getmx(m);
    if(x->owner == self) { x->count++; inside = 0; return 0; }
    while(x->owner >= 0) { th[self].st = B_MUTEX; th[self].on = m; block(); th[self].st = READY; x = getmx(m); }
    x->owner = self; x->count = 1;
    inside = 0;
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t * m) {
    static mfn r = 0; if(!MANAGED) { if(!r) r = real<mfn>("pthread_mutex_trylock"); return r(m); }
    inside = 1; point(cf.psync);
    Mx * x = getmx(m); int rc = EBUSY;
    if(x->owner < 0) { x->owner = self; x->count = 1; rc = 0; }
    inside = 0; return rc;
}
int pthread_mutex_unlock(pthread_mutex_t * m) {
    static mfn r = 0; if(!MANAGED) { if(!r) r = real<mfn>("pthread_mutex_unlock"); return active ? (inside ? 0 : r(m)) : r(m); }
    inside = 1;
    Mx * x = getmx(m);
    if(x->owner == self && --x->count == 0) { x->owner = -1; }
    point(cf.psync);
    inside = 0;
    return 0;
}
int pthread_mutex_destroy(pthread_mutex_t * m) {
    static mfn r = 0; if(!r) r = real<mfn>("pthread_mutex_destroy");
    if(active) { for(int i = 0; i < nmx; i++) if(mx[i].a == m) { mx[i] = mx[--nmx]; break; } return 0; }
    return r(m);
}
static int cwait(void * c, pthread_mutex_t * m, bool timed) {
    inside = 1;
    Mx * x = getmx(m);
    if(x->owner == self) { x->owner = -1; x->count = 0; }
    th[self].st = B_COND; th[self].on = c; th[self].timed = timed; th[self].timedout = false; th[self].signalled = false;
    block();
    bool to = th[self].timedout;
    th[self].st = READY; th[self].timed = false;
    x = getmx(m);
    while(x->owner >= 0) { th[self].st = B_MUTEX; th[self].on = m; block(); th[self].st = READY; x = getmx(m); }
    x->owner = self; x->count = 1;
    inside = 0;
    return to ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t * c, pthread_mutex_t * m) {
    static cwfn r = 0; if(!MANAGED) { if(!r) r = real<cwfn>("pthread_cond_wait"); return r(c, m); }
    return cwait(c, m, false);
}
int pthread_cond_timedwait(pthread_cond_t * c, pthread_mutex_t * m, const struct timespec * ts) {
    static ctfn r = 0; if(!MANAGED) { if(!r) r = real<ctfn>("pthread_cond_timedwait"); return r(c, m, ts); }
    return cwait(c, m, true);
}
int pthread_cond_clockwait(pthread_cond_t * c, pthread_mutex_t * m, clockid_t, const struct timespec * ts) {
    if(!MANAGED) return pthread_cond_timedwait(c, m, ts);
    return cwait(c, m, true);
}
int pthread_cond_signal(pthread_cond_t * c) {
    static cfn r = 0; if(!MANAGED) { if(!r) r = real<cfn>("pthread_cond_signal"); return active ? 0 : r(c); }
    inside = 1;
    int w[MAXT], n = 0;
    for(int i = 0; i < nth; i++) if(th[i].st == B_COND && th[i].on == (void*)c) w[n++] = i;
    if(n) { int i = w[cf.mode == 2 ? 0 : rnd() % n]; th[i].st = READY; th[i].signalled = true; }
    point(cf.psync);
    inside = 0;
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t * c) {
    static cfn r = 0; if(!MANAGED) { if(!r) r = real<cfn>("pthread_cond_broadcast"); return active ? 0 : r(c); }
    inside = 1;
    for(int i = 0; i < nth; i++) if(th[i].st == B_COND && th[i].on == (void*)c) { th[i].st = READY; th[i].signalled = true; }
    point(cf.psync);
    inside = 0;
    return 0;
}
int pthread_cond_destroy(pthread_cond_t * c) { static cfn r = 0; if(active) return 0; if(!r) r = real<cfn>("pthread_cond_destroy"); return r(c); }
unsigned int sleep(unsigned int s) { if(MANAGED) { sched_yield_now(); return 0; } struct timespec t = { (time_t)s, 0 }; syscall(SYS_nanosleep, &t, 0); return 0; }
int usleep(useconds_t s) { if(MANAGED) { sched_yield_now(); return 0; } struct timespec t = { (time_t)(s / 1000000), (long)(s % 1000000) * 1000 }; return syscall(SYS_nanosleep, &t, 0); }
int sched_yield() noexcept { if(MANAGED) sched_yield_now(); return 0; }

// ---- memory accesses in instrumented files are scheduling points
static inline void mem() {
    if(!(MANAGED && cf.pmem > 0) || cf.mode == 2) return;
    inside = 1;
    if(cf.mode == 0 && frnd() >= cf.pmem) { if(++steps > step_limit) finish("steps"); inside = 0; return; }
    if(cf.mode == 1) {
        bool hit = false;
        for(int i = 0; i < pct_n; i++) if(pct_change[i] == steps + 1) hit = true;
        if(!hit) { if(++steps > step_limit) finish("steps"); inside = 0; return; }
    }
    point(cf.mode == 0 ? 1 : cf.pmem);
    inside = 0;
}
#define RW(n) void __tsan_read##n(void*) { mem(); } void __tsan_write##n(void*) { mem(); } \
    void __tsan_unaligned_read##n(void*) { mem(); } void __tsan_unaligned_write##n(void*) { mem(); } \
    void __tsan_volatile_read##n(void*) { mem(); } void __tsan_volatile_write##n(void*) { mem(); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void*, unsigned long) { mem(); }
void __tsan_write_range(void*, unsigned long) { mem(); }
void __tsan_vptr_update(void**, void*) {}
void __tsan_vptr_read(void**) {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_init() {}
#define AT(n, T) \
 T __tsan_atomic##n##_load(const volatile T * a, int) { mem(); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
 void __tsan_atomic##n##_store(volatile T * a, T v, int) { mem(); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
 T __tsan_atomic##n##_exchange(volatile T * a, T v, int) { mem(); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
 T __tsan_atomic##n##_fetch_add(volatile T * a, T v, int) { mem(); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
 T __tsan_atomic##n##_fetch_sub(volatile T * a, T v, int) { mem(); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
 T __tsan_atomic##n##_fetch_or(volatile T * a, T v, int) { mem(); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
 T __tsan_atomic##n##_fetch_and(volatile T * a, T v, int) { mem(); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
 T __tsan_atomic##n##_fetch_xor(volatile T * a, T v, int) { mem(); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
 int __tsan_atomic##n##_compare_exchange_strong(volatile T * a, T * e, T v, int, int) { mem(); return __atomic_compare_exchange_n(a, e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
 int __tsan_atomic##n##_compare_exchange_weak(volatile T * a, T * e, T v, int, int) { mem(); return __atomic_compare_exchange_n(a, e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
void * __tsan_memcpy(void * d, const void * s, unsigned long n) { mem(); return memcpy(d, s, n); }
void * __tsan_memset(void * d, int c, unsigned long n) { mem(); return memset(d, c, n); }
void * __tsan_memmove(void * d, const void * s, unsigned long n) { mem(); return memmove(d, s, n); }
}
