#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "vsched.hpp"
#include <atomic>
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <chrono>
#include <map>
#include <new>
#include <dlfcn.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace {

constexpr int MAXT = 24;
constexpr size_t MAXCH = 1 << 16;
constexpr size_t EVBUF = 1 << 20;
constexpr size_t MSGBUF = 8192;
constexpr int MAXOPT = 32;

struct choice { uint8_t n; uint8_t pick; uint8_t cost[MAXOPT]; };

struct shared_t {
    // decisions
    uint32_t nprefix;           // number of decisions to replay
    uint32_t nch;               // decisions taken in this execution
    choice ch[MAXCH];
    // result
    int status;
    int race;
    uint64_t steps;
    uint32_t evlen;
    uint32_t msglen;
    char ev[EVBUF];
    char msg[MSGBUF];
    // exploration state shared between the parent and its workers
    uint64_t execs, total_steps, distinct;
    int exhausted, stop, in_exec;
    uint64_t seen[1 << 20];
};
shared_t* S = nullptr;

// ---------------------------------------------------------------- raw futex
long raw_syscall(long n, long a, long b, long c, long d, long e, long f)
{
    long ret;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                     : "rcx", "r11", "memory");
    return ret;
}
void fwait(int* p) { raw_syscall(SYS_futex, (long)p, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0); }
void fwake(int* p) { raw_syscall(SYS_futex, (long)p, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0); }

// ---------------------------------------------------------------- vector clocks
struct vclock { uint32_t c[MAXT]; };
inline void vjoin(vclock& a, const vclock& b) { for (int i = 0; i < MAXT; ++i) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }

// ---------------------------------------------------------------- threads
enum bstate { RUN, B_MUTEX, B_COND, B_RWR, B_RWW, B_JOIN, B_FUTEX, B_FIN };
struct vthread {
    bool used = false;
    bstate st = RUN;
    const void* on = nullptr;   // object blocked on
    const void* mtx = nullptr;  // mutex to reacquire
    bool timed = false;
    bool woken = false, timedout = false;
    bool yielded = false;
    uint64_t lastrun = 0;
    uint32_t bitset = ~0u;
    int join_target = -1;
    int gate = 0;
    pthread_t real {};
    void* (*fn)(void*) = nullptr;
    void* arg = nullptr;
    vclock vc {};
    vclock facq {}, frel {};
    uint32_t prio = 0;
    bool detached = false;
};
vthread T[MAXT];
int nthreads = 0;
int cur = -1;
bool active = false;
thread_local int me = -1;
vs::options opt;
int budget_used = 0;
int spurious_used = 0;
uint64_t rng_state = 1;
uint64_t pct_change[4];

uint64_t rnd()
{
    rng_state ^= rng_state << 13; rng_state ^= rng_state >> 7; rng_state ^= rng_state << 17;
    return rng_state * 0x2545F4914F6CDD1DULL;
}

// object tables -- allocated with a tiny bump allocator-backed open hash so they never call malloc
struct sync_obj {
    const void* addr;
    int owner;       // mutex owner / writer
    int count;       // recursion / readers
    bool recursive;
    uint32_t gen;
    vclock vc;
};
constexpr size_t NOBJ = 1 << 14;
uint32_t cur_gen = 1;
sync_obj* objs = nullptr;

sync_obj* obj(const void* a)
{
    size_t h = ((uintptr_t)a * 0x9E3779B97F4A7C15ULL) >> 50;
    for (size_t i = 0; i < NOBJ; ++i) {
        sync_obj* o = &objs[(h + i) & (NOBJ - 1)];
        if (o->gen == cur_gen && o->addr == a) return o;
        if (o->gen != cur_gen) { memset(o, 0, sizeof *o); o->gen = cur_gen; o->addr = a; o->owner = -1; return o; }
    }
    fprintf(stderr, "vsched: object table full\n");
    _exit(99);
}

// ---------------------------------------------------------------- shadow memory
struct cell { uint8_t mask; uint8_t tid; uint8_t write; uint8_t used; uint32_t clk; };
constexpr int NCELL = 6;
struct granule { uintptr_t key; uint32_t gen; cell c[NCELL]; uint8_t next; };
size_t NGRAN = 1 << 18;
granule* grans = nullptr;
size_t ngran_used = 0;
bool shadow_full = false;

granule* gran(uintptr_t k)
{
    size_t h = (k * 0x9E3779B97F4A7C15ULL) >> (64 - 18);
    for (size_t i = 0; i < 256; ++i) {
        granule* g = &grans[(h + i) & (NGRAN - 1)];
        if (g->gen == cur_gen && g->key == k) return g;
        if (g->gen != cur_gen) { memset(g, 0, sizeof *g); g->key = k; g->gen = cur_gen; ++ngran_used; return g; }
    }
    shadow_full = true;
    return nullptr;
}

void report(const char* m)
{
    size_t n = strlen(m);
    if (S->msglen + n + 1 < MSGBUF) { memcpy(S->msg + S->msglen, m, n); S->msglen += n; S->msg[S->msglen] = 0; }
}

void do_access(uintptr_t a, unsigned size, bool write)
{
    if (!active || me < 0) return;
    vthread& t = T[me];
    while (size) {
        uintptr_t k = a >> 3;
        unsigned off = a & 7;
        unsigned n = 8 - off; if (n > size) n = size;
        uint8_t mask = (uint8_t)(((1u << n) - 1) << off);
        if (granule* g = gran(k)) {
            cell* slot = nullptr;
            for (auto& c : g->c) {
                if (!c.used) { if (!slot) slot = &c; continue; }
                if ((c.mask & mask) && (c.write || write) && c.tid != me && c.clk > t.vc.c[c.tid]) {
                    if (!S->race) {
                        S->race = 1;
                        char b[256];
                        snprintf(b, sizeof b, "data race: %s by thread %d vs %s by thread %d\n",
                                 write ? "write" : "read", me, c.write ? "write" : "read", c.tid);
                        if (getenv("VS_ABORT")) abort();
                        report(b);
                    }
                }
                if (c.tid == me && c.mask == mask && c.write == (uint8_t)write) slot = &c;
                else if (c.tid == me && (c.mask & ~mask) == 0 && write && c.write) slot = &c;
            }
            if (!slot) { slot = &g->c[g->next]; g->next = (g->next + 1) % NCELL; }
            *slot = cell { mask, (uint8_t)me, (uint8_t)write, 1, t.vc.c[me] };
        }
        a += n; size -= n;
    }
}

void clear_range(uintptr_t a, size_t n)
{
    if (!active) return;
    if (n > (1u << 20)) n = 1u << 20;
    for (uintptr_t k = a >> 3; k <= (a + n - 1) >> 3; ++k) {
        size_t h = (k * 0x9E3779B97F4A7C15ULL) >> (64 - 18);
        for (size_t i = 0; i < 256; ++i) {
            granule* g = &grans[(h + i) & (NGRAN - 1)];
            if (g->gen != cur_gen) break;
            if (g->key == k) { memset(g->c, 0, sizeof g->c); break; }
        }
    }
}

// ---------------------------------------------------------------- scheduling core
[[noreturn]] void finish(vs::status s)
{
    S->status = (int)s;
    raw_syscall(SYS_exit_group, 0, 0, 0, 0, 0, 0);
    __builtin_unreachable();
}

bool mutex_free(const void* m) { return obj(m)->owner < 0; }

bool enabled(int i)
{
    vthread& t = T[i];
    switch (t.st) {
    case RUN: return true;
    case B_MUTEX: { auto* o = obj(t.on); return o->owner < 0 || (o->recursive && o->owner == i); }
    case B_COND: return (t.woken || t.timedout) && mutex_free(t.mtx);
    case B_FUTEX: return t.woken || t.timedout;
    case B_RWR: { auto* o = obj(t.on); return o->owner < 0; }
    case B_RWW: { auto* o = obj(t.on); return o->owner < 0 && o->count == 0; }
    case B_JOIN: return T[t.join_target].st == B_FIN;
    case B_FIN: return false;
    }
    return false;
}

// take a decision among n options with given costs
int decide(int n, const uint8_t* cost)
{
    if (n <= 1) return 0;
    if (n > MAXOPT) n = MAXOPT;
    uint32_t i = S->nch;
    if (i >= MAXCH) finish(vs::status::limit);
    choice& c = S->ch[i];
    int pick = 0;
    if (i < S->nprefix) {
        pick = c.pick;
        if (c.n != n && pick >= n) pick = 0;
    } else if (opt.random) {
        if (opt.pct) pick = -1; // decided by caller
        else pick = (int)(rnd() % n);
        c.pick = (uint8_t)(pick < 0 ? 0 : pick);
    } else {
        c.pick = 0;
    }
    c.n = (uint8_t)n;
    memcpy(c.cost, cost, n);
    S->nch = i + 1;
    return pick;
}

void switch_to(int next)
{
    int self = me;
    if (next == self) return;
    cur = next;
    __atomic_store_n(&T[next].gate, 1, __ATOMIC_SEQ_CST);
    fwake(&T[next].gate);
    if (self >= 0 && T[self].st != B_FIN) {
        while (!__atomic_load_n(&T[self].gate, __ATOMIC_SEQ_CST)) fwait(&T[self].gate);
        __atomic_store_n(&T[self].gate, 0, __ATOMIC_SEQ_CST);
    }
}

// choose and switch to the next thread. The calling thread may be enabled (preemption point) or not.
void schedule()
{
    S->steps++;
    if (S->steps > opt.step_limit) finish(vs::status::limit);
    int self = me;
    int cand[MAXOPT]; uint8_t cost[MAXOPT]; uint8_t kind[MAXOPT]; int n = 0;
    bool selfen = self >= 0 && enabled(self);
    bool stay = selfen && !T[self].yielded;          // the caller could simply go on
    if (stay) { cand[n] = self; cost[n] = 0; kind[n++] = 0; }
    int first = n;
    for (int i = 0; i < nthreads; ++i) {
        if (i == self || !enabled(i) || n >= MAXOPT) continue;
        cand[n] = i; cost[n] = stay ? 1 : 0; kind[n++] = 0;
    }
    // least recently run first: fair among spinning (yielding) threads
    for (int i = first + 1; i < n; ++i)
        for (int j = i; j > first && T[cand[j]].lastrun < T[cand[j - 1]].lastrun; --j) { int x = cand[j]; cand[j] = cand[j - 1]; cand[j - 1] = x; }
    // fairness: a thread that could run for a long time and was never chosen goes now
    if (n > 0) {
        int old = n > first ? first : 0;
        if (cand[old] != self && S->steps > T[cand[old]].lastrun + 300) { cand[0] = cand[old]; cost[0] = 0; kind[0] = 0; n = 1; }
    }
    if (n == 0 && selfen) { cand[n] = self; cost[n] = 0; kind[n++] = 0; }
    bool timeouts_free = n == 0;
    for (int i = 0; i < nthreads; ++i) {
        if (T[i].st != B_COND && T[i].st != B_FUTEX) continue;
        if (T[i].woken || T[i].timedout) continue;
        if (T[i].timed && n < MAXOPT) { cand[n] = i; cost[n] = timeouts_free ? 0 : 1; kind[n++] = 2; }
        else if (!timeouts_free && spurious_used < opt.spurious && T[i].st == B_COND && mutex_free(T[i].mtx) && n < MAXOPT) { cand[n] = i; cost[n] = 1; kind[n++] = 1; }
    }
    if (n == 0) finish(vs::status::stuck);
    int pick = 0;
    if (n > 1) {
        pick = decide(n, cost);
        if (pick < 0) {
            // PCT: highest priority candidate; change points lower the running thread
            for (int k = 0; k < 3; ++k) if (S->steps == pct_change[k] && self >= 0) T[self].prio = k + 1;
            pick = 0;
            for (int k = 1; k < n; ++k) if (kind[k] == 0 && T[cand[k]].prio > T[cand[pick]].prio) pick = k;
            if (rnd() % 32 == 0) pick = (int)(rnd() % n);
            S->ch[S->nch - 1].pick = (uint8_t)pick;
        }
    }
    int nx = cand[pick];
    if (kind[pick] == 1) { ++spurious_used; T[nx].woken = true; }
    if (kind[pick] == 2) T[nx].timedout = true;
    if (kind[pick] != 0 && !enabled(nx)) {
        // fired a timeout of a thread that cannot run yet (its mutex is taken): decide again
        schedule();
        return;
    }
    T[nx].lastrun = S->steps;
    switch_to(nx);
}

void point()
{
    if (!active || me < 0) return;
    schedule();
}

void acquire_clock(const void* o) { vjoin(T[me].vc, obj(o)->vc); }
void release_clock(const void* o) { vjoin(obj(o)->vc, T[me].vc); T[me].vc.c[me]++; }

void block(bstate st, const void* on)
{
    T[me].st = st; T[me].on = on;
    schedule();
    // now enabled and chosen
    T[me].st = RUN; T[me].on = nullptr;
}

bool want_point(void* ra)
{
    // synchronisation inside other shared objects (libcrypto, libc) takes no scheduling decision
    static uintptr_t lo = 0, hi = 0, slo = 0, shi = 0;
    if (!lo) {
        Dl_info di;
        (void) di;
        FILE* f = fopen("/proc/self/maps", "r");
        char line[1024], exe[512] = "";
        ssize_t k = readlink("/proc/self/exe", exe, sizeof exe - 1);
        if (k > 0) exe[k] = 0;
        while (f && fgets(line, sizeof line, f)) {
            unsigned long a, b;
            if (sscanf(line, "%lx-%lx", &a, &b) != 2) continue;
            if (exe[0] && strstr(line, exe)) { if (!lo || a < lo) lo = a; if (b > hi) hi = b; }
            if (strstr(line, "libstdc++")) { if (!slo || a < slo) slo = a; if (b > shi) shi = b; }
        }
        if (f) fclose(f);
        if (!lo) { lo = 1; hi = ~0UL; }
    }
    uintptr_t p = (uintptr_t)ra;
    return (p >= lo && p < hi) || (p >= slo && p < shi);
}

void mutex_acquire(const void* m, bool sched)
{
    if (sched) point();
    sync_obj* o = obj(m);
    if (o->owner == me && o->recursive) { o->count++; return; }
    if (o->owner >= 0) block(B_MUTEX, m);
    o = obj(m);
    o->owner = me; o->count = 1;
    acquire_clock(m);
}
void mutex_release(const void* m, bool sched)
{
    sync_obj* o = obj(m);
    if (o->recursive && o->count > 1) { o->count--; return; }
    if (o->owner != me) {
        if (!S->race) { S->race = 1; report("mutex unlocked by a thread that does not hold it\n"); }
        return;
    }
    release_clock(m);
    o->owner = -1; o->count = 0;
    if (sched) point();
}

int cond_wait_impl(const void* c, const void* m, bool timed)
{
    point();
    vthread& t = T[me];
    t.woken = t.timedout = false; t.timed = timed; t.mtx = m;
    sync_obj* o = obj(m);
    release_clock(m);
    o->owner = -1; o->count = 0;
    block(B_COND, c);
    bool to = t.timedout && !t.woken;
    t.woken = t.timedout = t.timed = false; t.mtx = nullptr;
    o = obj(m);
    o->owner = me; o->count = 1;
    acquire_clock(m);
    acquire_clock(c);
    return to ? ETIMEDOUT : 0;
}

void cond_wake(const void* c, bool all)
{
    point();
    release_clock(c);
    if (all) {
        for (int i = 0; i < nthreads; ++i) if (T[i].st == B_COND && T[i].on == c) T[i].woken = true;
    } else {
        int cand[MAXOPT]; uint8_t cost[MAXOPT]; int n = 0;
        for (int i = 0; i < nthreads; ++i)
            if (T[i].st == B_COND && T[i].on == c && !T[i].woken && n < MAXOPT) { cand[n] = i; cost[n++] = 0; }
        if (!n) return;
        int k = n == 1 ? 0 : decide(n, cost);
        if (k < 0) { k = (int)(rnd() % n); S->ch[S->nch - 1].pick = (uint8_t)k; }
        T[cand[k]].woken = true;
    }
}

int release_parked = 0;
void* trampoline(void* p)
{
    int id = (int)(intptr_t)p;
    me = id;
    while (!__atomic_load_n(&T[id].gate, __ATOMIC_SEQ_CST)) fwait(&T[id].gate);
    __atomic_store_n(&T[id].gate, 0, __ATOMIC_SEQ_CST);
    void* r = T[id].fn(T[id].arg);
    T[id].vc.c[id]++;
    T[id].st = B_FIN;
    // pass the token on; the thread is parked for good so that its stack is not reused
    schedule();
    me = -1;
    (void) r;
    while (!__atomic_load_n(&release_parked, __ATOMIC_SEQ_CST)) fwait(&release_parked);
    return nullptr;
}

bool ctl() { return active && me >= 0; }

char errlog[64];

void on_signal(int sig)
{
    char b[64];
    snprintf(b, sizeof b, "signal %d\n", sig);
    report(b);
    finish(sig == SIGABRT ? vs::status::aborted : sig == SIGALRM ? vs::status::hang : vs::status::crashed);
}

} // namespace

// ================================================================= interposed pthread API
#define RA __builtin_return_address(0)
extern "C" {

int pthread_mutex_lock(pthread_mutex_t* m)
{
    if (!ctl()) return 0;
    if (m->__data.__kind & 3) obj(m)->recursive = true;
    mutex_acquire(m, want_point(RA));
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m)
{
    if (!ctl()) return 0;
    if (want_point(RA)) point();
    sync_obj* o = obj(m);
    if (m->__data.__kind & 3) o->recursive = true;
    if (o->owner == me && o->recursive) { o->count++; return 0; }
    if (o->owner >= 0) return EBUSY;
    o->owner = me; o->count = 1;
    acquire_clock(m);
    return 0;
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec*) { return pthread_mutex_lock(m); }
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t, const struct timespec*) { return pthread_mutex_lock(m); }
int pthread_mutex_unlock(pthread_mutex_t* m)
{
    if (!ctl()) return 0;
    mutex_release(m, want_point(RA));
    return 0;
}
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a)
{
    memset(m, 0, sizeof *m);
    int ty = 0;
    if (a) pthread_mutexattr_gettype(a, &ty);
    m->__data.__kind = ty;
    if (objs) { sync_obj* o = obj(m); o->owner = -1; o->count = 0; o->recursive = ty == PTHREAD_MUTEX_RECURSIVE; }
    return 0;
}
int pthread_mutex_destroy(pthread_mutex_t*) { return 0; }

int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) { memset(c, 0, sizeof *c); return 0; }
int pthread_cond_destroy(pthread_cond_t*) { return 0; }
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
    if (!ctl()) return 0;
    return cond_wait_impl(c, m, false);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec*)
{
    if (!ctl()) return ETIMEDOUT;
    return cond_wait_impl(c, m, true);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec*)
{
    if (!ctl()) return ETIMEDOUT;
    return cond_wait_impl(c, m, true);
}
int pthread_cond_signal(pthread_cond_t* c) { if (ctl()) cond_wake(c, false); return 0; }
int pthread_cond_broadcast(pthread_cond_t* c) { if (ctl()) cond_wake(c, true); return 0; }

int pthread_rwlock_init(pthread_rwlock_t* l, const pthread_rwlockattr_t*) { memset(l, 0, sizeof *l); return 0; }
int pthread_rwlock_destroy(pthread_rwlock_t*) { return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t* l)
{
    if (!ctl()) return 0;
    if (want_point(RA)) point();
    if (obj(l)->owner >= 0) block(B_RWR, l);
    obj(l)->count++;
    acquire_clock(l);
    return 0;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l)
{
    if (!ctl()) return 0;
    if (want_point(RA)) point();
    if (obj(l)->owner >= 0) return EBUSY;
    obj(l)->count++;
    acquire_clock(l);
    return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* l)
{
    if (!ctl()) return 0;
    if (want_point(RA)) point();
    if (obj(l)->owner >= 0 || obj(l)->count) block(B_RWW, l);
    obj(l)->owner = me;
    acquire_clock(l);
    return 0;
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* l)
{
    if (!ctl()) return 0;
    if (want_point(RA)) point();
    if (obj(l)->owner >= 0 || obj(l)->count) return EBUSY;
    obj(l)->owner = me;
    acquire_clock(l);
    return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t* l)
{
    if (!ctl()) return 0;
    sync_obj* o = obj(l);
    release_clock(l);
    if (o->owner == me) o->owner = -1; else if (o->count > 0) o->count--;
    if (want_point(RA)) point();
    return 0;
}

typedef int (*create_t)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*fn)(void*), void* arg)
{
    static create_t real = (create_t)dlsym(RTLD_NEXT, "pthread_create");
    if (!ctl()) return real(t, a, fn, arg);
    point();
    if (nthreads >= MAXT) { report("too many threads\n"); finish(vs::status::limit); }
    int id = nthreads;
    vthread& v = T[id];
    v = vthread {};
    v.used = true; v.fn = fn; v.arg = arg; v.st = RUN;
    T[me].vc.c[me]++;
    v.vc = T[me].vc;
    v.vc.c[id] = 1;
    v.prio = 100 + (uint32_t)(rnd() % 1000);
    int rc = real(&v.real, nullptr, trampoline, (void*)(intptr_t)id);
    if (rc) return rc;
    nthreads++;
    *t = v.real;
    point();
    return 0;
}
typedef int (*join_t)(pthread_t, void**);
int pthread_join(pthread_t t, void** r)
{
    static join_t real = (join_t)dlsym(RTLD_NEXT, "pthread_join");
    if (!ctl()) return real(t, r);
    point();
    if (r) *r = nullptr;
    for (int i = 0; i < nthreads; ++i)
        if (T[i].used && !T[i].detached && pthread_equal(T[i].real, t)) {
            T[me].join_target = i;
            if (T[i].st != B_FIN) block(B_JOIN, &T[i]);
            vjoin(T[me].vc, T[i].vc);
            T[i].used = false;
            return 0;
        }
    return ESRCH;
}
int pthread_detach(pthread_t t)
{
    for (int i = 0; i < nthreads; ++i) if (T[i].used && pthread_equal(T[i].real, t)) T[i].detached = true;
    return 0;
}
static void yield_()
{
    if (!ctl()) return;
    T[me].yielded = true;
    T[me].prio = 0;           // whoever sleeps lets the others go on (PCT)
    schedule();
    T[me].yielded = false;
}
int sched_yield(void) { yield_(); return 0; }
int nanosleep(const struct timespec*, struct timespec*) { yield_(); return 0; }
int clock_nanosleep(clockid_t, int, const struct timespec*, struct timespec*) { yield_(); return 0; }
int usleep(useconds_t) { yield_(); return 0; }
unsigned sleep(unsigned) { yield_(); return 0; }

long syscall(long n, ...)
{
    va_list ap; va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    if (n == SYS_futex && ctl()) {
        int op = (int)b & 127;
        if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
            point();
            if (__atomic_load_n((int*)a, __ATOMIC_SEQ_CST) != (int)c) { errno = EAGAIN; return -1; }
            vthread& t = T[me];
            t.woken = t.timedout = false; t.timed = d != 0; t.mtx = nullptr;
            block(B_FUTEX, (void*)a);
            bool to = t.timedout && !t.woken;
            t.woken = t.timedout = t.timed = false;
            if (to) { errno = ETIMEDOUT; return -1; }
            return 0;
        }
        if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
            point();
            int k = 0, maxn = (int)c;
            for (int i = 0; i < nthreads && k < maxn; ++i)
                if (T[i].st == B_FUTEX && T[i].on == (void*)a && !T[i].woken) { T[i].woken = true; ++k; }
            return k;
        }
    }
    long r = raw_syscall(n, a, b, c, d, e, f);
    if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
    return r;
}

// function-local statics
int __cxa_guard_acquire(long long* g)
{
    char* b = (char*)g;
    for (;;) {
        if (__atomic_load_n(b, __ATOMIC_ACQUIRE)) { if (ctl()) acquire_clock(g); return 0; }
        if (!b[1]) { b[1] = 1; return 1; }
        yield_();
    }
}
void __cxa_guard_release(long long* g)
{
    char* b = (char*)g;
    b[1] = 0;
    if (ctl()) release_clock(g);
    __atomic_store_n(b, 1, __ATOMIC_RELEASE);
}
void __cxa_guard_abort(long long* g) { ((char*)g)[1] = 0; }

// ================================================================= tsan instrumentation
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n) \
    void __tsan_read##n(void* a) { do_access((uintptr_t)a, n, false); } \
    void __tsan_write##n(void* a) { do_access((uintptr_t)a, n, true); } \
    void __tsan_unaligned_read##n(void* a) { do_access((uintptr_t)a, n, false); } \
    void __tsan_unaligned_write##n(void* a) { do_access((uintptr_t)a, n, true); } \
    void __tsan_volatile_read##n(void* a) { do_access((uintptr_t)a, n, false); } \
    void __tsan_volatile_write##n(void* a) { do_access((uintptr_t)a, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, size_t n) { do_access((uintptr_t)a, n, false); }
void __tsan_write_range(void* a, size_t n) { do_access((uintptr_t)a, n, true); }
void __tsan_vptr_update(void** a, void* v) { if (*a != v) do_access((uintptr_t)a, 8, true); }
void __tsan_vptr_read(void** a) { do_access((uintptr_t)a, 8, false); }

static void at_load(void* a, int mo)
{
    if (!ctl()) return;
    if (mo != __ATOMIC_RELAXED) acquire_clock(a); else vjoin(T[me].facq, obj(a)->vc);
}
static void at_store(void* a, int mo)
{
    if (!ctl()) return;
    sync_obj* o = obj(a);
    if (mo == __ATOMIC_RELEASE || mo == __ATOMIC_SEQ_CST || mo == __ATOMIC_ACQ_REL) { o->vc = T[me].vc; T[me].vc.c[me]++; }
    else o->vc = T[me].frel;
}
static void at_rmw(void* a, int mo)
{
    if (!ctl()) return;
    if (mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST) acquire_clock(a);
    else vjoin(T[me].facq, obj(a)->vc);
    if (mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST) release_clock(a);
    else vjoin(obj(a)->vc, T[me].frel);
}
#define ATOM(bits, TY) \
    TY __tsan_atomic##bits##_load(const volatile TY* a, int mo) { point(); TY v = __atomic_load_n(a, __ATOMIC_SEQ_CST); at_load((void*)a, mo); return v; } \
    void __tsan_atomic##bits##_store(volatile TY* a, TY v, int mo) { point(); at_store((void*)a, mo); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
    TY __tsan_atomic##bits##_exchange(volatile TY* a, TY v, int mo) { point(); at_rmw((void*)a, mo); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
    TY __tsan_atomic##bits##_fetch_add(volatile TY* a, TY v, int mo) { point(); at_rmw((void*)a, mo); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
    TY __tsan_atomic##bits##_fetch_sub(volatile TY* a, TY v, int mo) { point(); at_rmw((void*)a, mo); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
    TY __tsan_atomic##bits##_fetch_and(volatile TY* a, TY v, int mo) { point(); at_rmw((void*)a, mo); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
    TY __tsan_atomic##bits##_fetch_or(volatile TY* a, TY v, int mo) { point(); at_rmw((void*)a, mo); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
    TY __tsan_atomic##bits##_fetch_xor(volatile TY* a, TY v, int mo) { point(); at_rmw((void*)a, mo); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
    TY __tsan_atomic##bits##_fetch_nand(volatile TY* a, TY v, int mo) { point(); at_rmw((void*)a, mo); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile TY* a, TY* c, TY v, int mo, int fmo) { \
        point(); bool ok = __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
        if (ok) at_rmw((void*)a, mo); else at_load((void*)a, fmo); return ok; } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile TY* a, TY* c, TY v, int mo, int fmo) { \
        return __tsan_atomic##bits##_compare_exchange_strong(a, c, v, mo, fmo); } \
    TY __tsan_atomic##bits##_compare_exchange_val(volatile TY* a, TY c, TY v, int mo, int fmo) { \
        __tsan_atomic##bits##_compare_exchange_strong(a, &c, v, mo, fmo); return c; }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
void __tsan_atomic_thread_fence(int mo)
{
    if (!ctl()) return;
    if (mo != __ATOMIC_RELEASE && mo != __ATOMIC_RELAXED) vjoin(T[me].vc, T[me].facq);
    if (mo != __ATOMIC_ACQUIRE && mo != __ATOMIC_CONSUME && mo != __ATOMIC_RELAXED) { T[me].frel = T[me].vc; T[me].vc.c[me]++; }
}
void __tsan_atomic_signal_fence(int) {}
} // extern "C"

// allocation: fresh memory has no access history; freeing counts as a write
extern "C" {
void* __libc_malloc(size_t); void __libc_free(void*); void* __libc_calloc(size_t, size_t); void* __libc_realloc(void*, size_t); void* __libc_memalign(size_t, size_t);
static void* fresh(void* p, size_t n) { if (p && n && ctl()) clear_range((uintptr_t)p, n); return p; }
void* malloc(size_t n) noexcept { return fresh(__libc_malloc(n), n); }
void free(void* p) noexcept { __libc_free(p); }
void* calloc(size_t a, size_t b) noexcept { return fresh(__libc_calloc(a, b), a * b); }
void* realloc(void* p, size_t n) noexcept { void* q = __libc_realloc(p, n); return q == p ? q : fresh(q, n); }
void* memalign(size_t a, size_t n) noexcept { return fresh(__libc_memalign(a, n), n); }
void* aligned_alloc(size_t a, size_t n) noexcept { return fresh(__libc_memalign(a, n), n); }
int posix_memalign(void** p, size_t a, size_t n) noexcept { *p = fresh(__libc_memalign(a, n), n); return *p ? 0 : ENOMEM; }
}
static void* alloc(size_t n, size_t al)
{
    void* p = al > 16 ? aligned_alloc(al, (n + al - 1) / al * al) : malloc(n ? n : 1);
    if (!p) abort();
    if (ctl()) clear_range((uintptr_t)p, n ? n : 1);
    return p;
}
static void dealloc(void* p, size_t n)
{
    if (p && ctl() && n) { if (n > 4096) n = 4096; do_access((uintptr_t)p, (unsigned)n, true); }
    free(p);
}
void* operator new(size_t n) { return alloc(n, 0); }
void* operator new[](size_t n) { return alloc(n, 0); }
void* operator new(size_t n, std::align_val_t a) { return alloc(n, (size_t)a); }
void* operator new[](size_t n, std::align_val_t a) { return alloc(n, (size_t)a); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return alloc(n, 0); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return alloc(n, 0); }
void operator delete(void* p) noexcept { dealloc(p, 1); }
void operator delete[](void* p) noexcept { dealloc(p, 1); }
void operator delete(void* p, size_t n) noexcept { dealloc(p, n); }
void operator delete[](void* p, size_t n) noexcept { dealloc(p, n); }
void operator delete(void* p, std::align_val_t) noexcept { dealloc(p, 1); }
void operator delete[](void* p, std::align_val_t) noexcept { dealloc(p, 1); }
void operator delete(void* p, size_t n, std::align_val_t) noexcept { dealloc(p, n); }
void operator delete[](void* p, size_t n, std::align_val_t) noexcept { dealloc(p, n); }

// ================================================================= exploration driver
namespace vs {

const char* to_string(status s)
{
    static const char* n[] = { "running", "done", "stuck", "aborted", "limit", "hang", "crashed", "exception", "left" };
    return n[(int)s];
}

void event(const std::string& s)
{
    if (!S) return;
    if (S->evlen + s.size() + 2 >= EVBUF) return;
    memcpy(S->ev + S->evlen, s.data(), s.size());
    S->evlen += s.size();
    S->ev[S->evlen++] = '\n';
    S->ev[S->evlen] = 0;
}
void point() { ::point(); }
int self() { return me; }

static void init_once()
{
    if (S) return;
    S = (shared_t*)mmap(nullptr, sizeof(shared_t), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    objs = (sync_obj*)mmap(nullptr, sizeof(sync_obj) * NOBJ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    grans = (granule*)mmap(nullptr, sizeof(granule) * NGRAN, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    want_point((void*)1);
    // one thread runs at a time: hand-over is much cheaper on a single cpu
    cpu_set_t all, one;
    if (sched_getaffinity(0, sizeof all, &all) == 0 && CPU_COUNT(&all) > 1) {
        int n = CPU_COUNT(&all), k = getpid() % n;
        if (const char* e = getenv("VS_CPU")) k = atoi(e) % n;
        CPU_ZERO(&one);
        for (int i = 0; i < CPU_SETSIZE; ++i) if (CPU_ISSET(i, &all) && k-- == 0) { CPU_SET(i, &one); break; }
        sched_setaffinity(0, sizeof one, &one);
    }
    dlsym(RTLD_NEXT, "pthread_create");
}


static void reset_result() { S->nch = 0; S->status = 0; S->race = 0; S->steps = 0; S->evlen = 0; S->msglen = 0; S->ev[0] = 0; S->msg[0] = 0; }

// run body once in this process; returns only when every thread has finished
static void exec_here(const std::function<void()>& body, const options& o, uint64_t rng)
{
    itimerval tv {}; tv.it_value.tv_sec = (long)o.exec_timeout; tv.it_value.tv_usec = (long)((o.exec_timeout - (long)o.exec_timeout) * 1e6);
    setitimer(ITIMER_REAL, &tv, nullptr);
    opt = o;
    spurious_used = 0;
    ++cur_gen; ngran_used = 0; shadow_full = false;
    rng_state = rng * 0x9E3779B97F4A7C15ULL + 88172645463325252ULL;
    for (int i = 0; i < 8; ++i) rnd();
    for (int k = 0; k < 3; ++k) pct_change[k] = 1 + rnd() % 120;
    nthreads = 1; cur = 0; me = 0;
    release_parked = 0;
    T[0] = vthread {}; T[0].used = true; T[0].vc.c[0] = 1; T[0].prio = 100 + (uint32_t)(rnd() % 1000); T[0].real = pthread_self();
    active = true;
    try { body(); }
    catch (std::exception& e) { report("exception: "); report(e.what()); report("\n"); finish(status::exception); }
    catch (...) { report("exception\n"); finish(status::exception); }
    active = false;
    for (int i = 1; i < nthreads; ++i) if (T[i].st != B_FIN) finish(status::left);
    __atomic_store_n(&release_parked, 1, __ATOMIC_SEQ_CST);
    raw_syscall(SYS_futex, (long)&release_parked, FUTEX_WAKE_PRIVATE, 1 << 20, 0, 0, 0);
    static join_t real = (join_t)dlsym(RTLD_NEXT, "pthread_join");
    for (int i = 1; i < nthreads; ++i) real(T[i].real, nullptr);
    S->status = (int)status::done;
}

static outcome collect()
{
    outcome r;
    r.st = (status)S->status;
    r.events.assign(S->ev, S->evlen);
    r.message.assign(S->msg, S->msglen);
    r.race = S->race;
    r.steps = S->steps;
    r.choices.resize(S->nch);
    for (uint32_t i = 0; i < S->nch; ++i) r.choices[i] = S->ch[i].pick;
    return r;
}

static bool is_new(const outcome& o)
{
    uint64_t h = 1469598103934665603ULL;
    auto mix = [&](unsigned char c) { h = (h ^ c) * 1099511628211ULL; };
    mix((unsigned char)o.st); mix(o.race);
    for (unsigned char c : o.events) mix(c);
    if (!h) h = 1;
    for (size_t i = 0; i < (1 << 20); ++i) {
        uint64_t& e = S->seen[(h + i) & ((1 << 20) - 1)];
        if (e == h) return false;
        if (!e) { e = h; S->distinct++; return true; }
    }
    return true;
}

static void advance(const options& o)
{
    uint32_t n = S->nch;
    std::vector<int> used(n + 1, 0);
    for (uint32_t i = 0; i < n; ++i) used[i + 1] = used[i] + S->ch[i].cost[S->ch[i].pick];
    for (int64_t i = (int64_t)n - 1; i >= 0; --i) {
        choice& c = S->ch[i];
        for (int p = c.pick + 1; p < c.n; ++p)
            if (used[i] + c.cost[p] <= o.bound) { c.pick = (uint8_t)p; S->nprefix = (uint32_t)i + 1; return; }
    }
    S->exhausted = 1;
}

static void child_setup(int* pfd)
{
    close(pfd[0]);
    dup2(pfd[1], 2);
    close(pfd[1]);
    for (int s : { SIGABRT, SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGALRM }) signal(s, on_signal);
}

// run `child` in a forked process, collecting its stderr
static std::string in_child(const std::function<void()>& child)
{
    int pfd[2];
    if (pipe(pfd)) abort();
    fflush(stdout); fflush(stderr);
    pid_t pid = fork();
    if (pid == 0) { child_setup(pfd); child(); fflush(stdout); raw_syscall(SYS_exit_group, 0, 0, 0, 0, 0, 0); }
    close(pfd[1]);
    std::string err;
    char buf[4096]; ssize_t k;
    while ((k = read(pfd[0], buf, sizeof buf)) > 0) if (err.size() < 4096) err.append(buf, k);
    close(pfd[0]);
    int ws = 0;
    waitpid(pid, &ws, 0);
    if (WIFSIGNALED(ws)) S->status = (int)(WTERMSIG(ws) == SIGABRT ? status::aborted : status::crashed);
    return err;
}

outcome replay(const std::function<void()>& body, const options& o, const std::vector<uint8_t>& choices)
{
    init_once();
    options oo = o; oo.random = false;
    S->nprefix = (uint32_t)choices.size();
    for (size_t i = 0; i < choices.size() && i < MAXCH; ++i) { S->ch[i].pick = choices[i]; S->ch[i].n = 255; }
    reset_result();
    std::string err = in_child([&] { exec_here(body, oo, 1); });
    outcome r = collect();
    r.message += err;
    return r;
}

stats explore(const std::function<void()>& body, const options& o, const std::function<bool(const outcome&)>& cb)
{
    init_once();
    auto t0 = std::chrono::steady_clock::now();
    auto elapsed = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); };
    S->nprefix = 0; S->execs = S->total_steps = S->distinct = 0; S->exhausted = S->stop = 0;
    memset(S->seen, 0, sizeof S->seen);
    auto more = [&] { return !S->exhausted && !S->stop && S->execs < o.max_execs && elapsed() < o.max_seconds; };
    while (more()) {
        S->in_exec = 0;
        std::string err = in_child([&] {
            for (int k = 0; k < o.per_child && more(); ++k) {
                options oo = o;
                if (o.random) { S->nprefix = 0; oo.pct = (S->execs & 1); }
                reset_result();
                S->in_exec = 1;
                exec_here(body, oo, o.seed * 1000003ULL + S->execs + 1);
                outcome out = collect();
                S->execs++; S->total_steps += out.steps;
                if (is_new(out)) { if (!cb(out)) S->stop = 1; fflush(stdout); }
                if (!o.random) advance(o);
                S->in_exec = 0;
            }
            itimerval tv {}; setitimer(ITIMER_REAL, &tv, nullptr);
        });
        if (S->in_exec) {
            // the worker died inside an execution: that execution's outcome is in shared memory
            outcome out = collect();
            if (out.st == status::running) out.st = status::crashed;
            out.message += err;
            S->execs++; S->total_steps += out.steps;
            if (is_new(out)) { if (!cb(out)) S->stop = 1; fflush(stdout); }
            if (!o.random) advance(o);
        }
    }
    stats st;
    st.execs = S->execs; st.steps = S->total_steps; st.exhausted = S->exhausted; st.distinct = S->distinct;
    return st;
}

} // namespace vs
