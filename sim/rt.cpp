// Deterministic simulation runtime.
//
// The code under test is compiled with -fsanitize=thread and linked against this file instead of the
// ThreadSanitizer runtime: every memory access and atomic operation arrives here first. Together with
// the interposed pthread, clock and allocation functions that puts every source of nondeterminism of a
// multi-threaded in-process system under the control of one seeded scheduler. Nothing in here is
// instrumented, nothing in here allocates through operator new.
#include "rt.h"

#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
#include <unwind.h>
#include <string.h>
#include <iostream>
#include <new>
#include <thread>

#define NOINLINE __attribute__((noinline))
#define LIKELY(x) __builtin_expect(!!(x), 1)
#define UNLIKELY(x) __builtin_expect(!!(x), 0)

extern "C" char __data_start, _end;
extern "C" void* memset(void*, int, size_t) noexcept;

namespace
{

constexpr uintptr_t HEAP_BASE = 0x100000000000ull;
constexpr uintptr_t HEAP_SIZE = 0x000200000000ull;  // 8 GB of addresses, never reused within a run
constexpr uintptr_t STK_BASE = 0x200000000000ull;
constexpr uintptr_t STK_SIZE = 8ull << 20;
constexpr uintptr_t STKS_SIZE = STK_SIZE * SIM_MAXT;

enum Kind { K_PLAIN = 0, K_SHARED, K_ATOMIC, K_SYNC, K_ENV };
enum State { T_FREE = 0, T_RUN, T_BLOCKED, T_DONE };
enum Wait { W_NONE = 0, W_MUTEX, W_RW, W_JOIN, W_COND, W_GUARD, W_FLAG, W_FUTEX, W_SLEEP };

struct VC { uint32_t c[SIM_MAXT]; };

struct Held { const void* obj; int kind; };

struct DtorRec { void (*fn)(void*); void* arg; };

struct Thr
{
    int id;
    int go;
    int state;
    int active;
    int in_rt;
    uintptr_t lo, hi;
    VC vc;
    VC acqf;   // what relaxed loads saw (for acquire fences)
    VC relf;   // released by a release fence
    int64_t prio;
    const void* wobj;
    int wkind;
    int64_t deadline;  // simulated ns, -1 none
    int timedout;
    int woken;
    int64_t an, aat, afired;
    int apersist;
    int64_t clock;
    pthread_t real;
    void* (*start)(void*);
    void (*start2)(void*);
    void* arg;
    void* ret;
    int detached;
    int nheld;
    Held held[64];
    int ndt;
    DtorRec dt[64];
    uint64_t since_switch;
    uint64_t altstack;
};

struct Sync
{
    const void* addr;
    int owner;       // thread id or -1
    int rec;         // recursion depth
    int nreaders;
    uint8_t readers[SIM_MAXT];
    int wwait;       // waiting writers
    int gstate;      // guard / once state
    VC vc;           // released by writers
    VC rvc;          // released by readers
    uint32_t next;
};

struct Cell { uint64_t v; };

struct Region
{
    uintptr_t base, size;
    uint64_t* cells;   // 4 per granule
    uint32_t* pcs;     // 4 per granule
    uint32_t* sync;    // 1 per granule
};

constexpr size_t REUSE_MAX = 2048;

struct Global
{
    SimConfig cfg;
    SimResult* res;
    Thr thr[SIM_MAXT];
    int nthr_hi;
    int nrun;
    uint64_t pt;
    uint64_t next_pt;
    uint64_t rng;
    uint64_t seq;
    uint64_t hash;
    uint64_t quantum;
    int64_t minprio;
    uint64_t chg[16];
    int nchg, ci;
    uint32_t ri;
    int victim;
    uintptr_t brk;
    int64_t live, liveblocks, activeblocks, activebytes;
    Sync* syncs;
    uint32_t nsync;
    uint32_t* shash;
    uint8_t* hstate;
    uintptr_t freed[REUSE_MAX / 16 + 1];   // reusable blocks by size, most recently freed first
    Region reg[3];
    int hw;
    void (*body)(void*);
    void* arg;
    int inviolation;
    uint64_t simtime;
    int64_t tn, tat;       // thread starts of the code under test; the one to fail
    int tpersist;
    int64_t rt_offset;     // the wall clock (not the monotonic one) has been set by this much
};

Global S;
__thread Thr* me __attribute__((tls_model("initial-exec")));

constexpr uint32_t NSYNC = 1u << 20;
constexpr uint32_t NSHASH = 1u << 16;

template <typename F>
F real(const char* name)
{
    return (F)dlsym(RTLD_NEXT, name);
}

inline uint64_t rnd()
{
    S.rng += 0x9E3779B97F4A7C15ull;
    uint64_t z = S.rng;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}

inline void mix(uint64_t v)
{
    S.hash = (S.hash ^ v) * 0x100000001b3ull;
    S.hash ^= S.hash >> 29;
}

// direct system calls: syscall() itself is part of the simulated world (futexes)
long raw_syscall(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0)
{
    long r;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return r;
}

void futex_wait(int* a, int v) { raw_syscall(SYS_futex, (long)a, FUTEX_WAIT_PRIVATE, v); }
void futex_wake(int* a) { raw_syscall(SYS_futex, (long)a, FUTEX_WAKE_PRIVATE, 1); }

struct RtGuard
{
    Thr* t;
    RtGuard(Thr* x) : t(x) { if (t) ++t->in_rt; }
    ~RtGuard() { if (t) --t->in_rt; }
};

[[noreturn]] void die(const char* cls, const char* fmt, va_list ap)
{
    SimResult* r = S.res;
    if (!S.inviolation) {
        S.inviolation = 1;
        snprintf(r->cls, sizeof r->cls, "%s", cls);
        vsnprintf(r->msg, sizeof r->msg, fmt, ap);
        r->hash = S.hash;
        r->pts = S.pt;
        __atomic_store_n(&r->done, 2, __ATOMIC_SEQ_CST);
    }
    raw_syscall(SYS_exit_group, 3);
    __builtin_unreachable();
}

[[noreturn]] void viol(const char* cls, const char* fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    if (me) ++me->in_rt;
    die(cls, fmt, ap);
}

void addpc(uintptr_t pc)
{
    if (S.res && S.res->npcs < 8) S.res->pcs[S.res->npcs++] = pc;
}

// ---------------------------------------------------------------- scheduling

inline bool runnable(int i) { return S.thr[i].state == T_RUN; }

NOINLINE void switch_to(Thr* t, int n, int forced)
{
    SimResult* r = S.res;
    if (r->nrec < SIM_MAXREC) r->rec[r->nrec++] = SimSwitch{S.pt, n, forced};
    else r->rec_overflow = 1;
    r->switches++;
    if (!forced) r->preempts++;
    mix((S.pt << 4) ^ (uint64_t)n);
    Thr* o = &S.thr[n];
    t->since_switch = 0;
    o->since_switch = 0;
    S.quantum = S.pt + 40000;
    __atomic_store_n(&o->go, 1, __ATOMIC_SEQ_CST);
    futex_wake(&o->go);
    if (t->state == T_DONE) return;  // the real thread exits; its slot is reused only after joining it
    while (__atomic_load_n(&t->go, __ATOMIC_SEQ_CST) == 0) futex_wait(&t->go, 0);
    __atomic_store_n(&t->go, 0, __ATOMIC_SEQ_CST);
}

// Who runs next when the current thread cannot (or must not) go on. -1: nobody.
int pick(int self, bool excludeSelf)
{
    int c[SIM_MAXT], n = 0;
    for (int i = 0; i < S.nthr_hi; ++i)
        if (runnable(i) && !(excludeSelf && i == self)) c[n++] = i;
    if (!n) return -1;
    if (S.cfg.strategy == STRAT_REPLAY) {
        while (S.ri < S.cfg.nreplay && S.cfg.replay[S.ri].pt < S.pt) ++S.ri;
        if (S.ri < S.cfg.nreplay && S.cfg.replay[S.ri].pt == S.pt) {
            int to = S.cfg.replay[S.ri++].to;
            for (int i = 0; i < n; ++i)
                if (c[i] == to) return to;
        }
        for (int i = 0; i < n; ++i)
            if (c[i] > self) return c[i];
        return c[0];
    }
    if (S.cfg.strategy == STRAT_PCT) {
        int b = c[0];
        for (int i = 1; i < n; ++i)
            if (S.thr[c[i]].prio > S.thr[b].prio) b = c[i];
        return b;
    }
    if (S.cfg.strategy == STRAT_STARVE && n > 1) {
        int m = 0;
        for (int i = 0; i < n; ++i)
            if (c[i] != S.victim) c[m++] = c[i];
        n = m;
    }
    if (S.cfg.strategy == STRAT_SERIAL) {
        for (int i = 0; i < n; ++i)
            if (c[i] > self) return c[i];
        return c[0];
    }
    return c[rnd() % (uint64_t)n];
}

inline void geom()
{
    // gap ~ uniform in [1, 2*gap]: cheap and deterministic
    S.next_pt = S.pt + 1 + rnd() % (2ull * S.cfg.gap);
}

NOINLINE void decide(Thr* t, int kind)
{
    bool want = false;
    int to = -1;
    switch (S.cfg.strategy) {
    case STRAT_REPLAY:
        while (S.ri < S.cfg.nreplay && S.cfg.replay[S.ri].pt < S.pt) ++S.ri;
        if (S.ri < S.cfg.nreplay && S.cfg.replay[S.ri].pt == S.pt) {
            to = S.cfg.replay[S.ri++].to;
            if (to == t->id || to < 0 || to >= S.nthr_hi || !runnable(to)) return;
            switch_to(t, to, 0);
        }
        else if (S.pt > S.quantum) {
            S.quantum = S.pt + 40000;
            to = pick(t->id, true);
            if (to >= 0) switch_to(t, to, 0);
        }
        return;
    case STRAT_RANDOM:
        if (S.pt >= S.next_pt) { geom(); want = true; }
        break;
    case STRAT_SHARED:
        if (kind >= K_SHARED && rnd() % S.cfg.gap == 0) want = true;
        break;
    case STRAT_SYNC:
        if (kind >= K_ATOMIC && rnd() % S.cfg.gap == 0) want = true;
        break;
    case STRAT_PCT:
        if (S.ci < S.nchg && S.pt >= S.chg[S.ci]) {
            ++S.ci;
            t->prio = --S.minprio;
            want = true;
        }
        if (kind >= K_ATOMIC) want = true;
        if (want) {
            to = pick(t->id, false);
            want = to != t->id;
        }
        break;
    case STRAT_STARVE:
        if (t->id == S.victim) want = kind >= K_SHARED ? rnd() % 2 == 0 : rnd() % 16 == 0;
        else if (S.pt >= S.next_pt) { geom(); want = true; }
        break;
    default: break;
    }
    if (!want && S.pt > S.quantum) {
        if (S.cfg.strategy == STRAT_PCT) t->prio = --S.minprio;
        S.quantum = S.pt + 40000;
        want = true;
        to = -1;
        if (S.cfg.strategy == STRAT_STARVE) {
            int c[SIM_MAXT], n = 0;
            for (int i = 0; i < S.nthr_hi; ++i)
                if (runnable(i) && i != t->id) c[n++] = i;
            if (n) to = c[rnd() % n];
        }
    }
    if (!want) return;
    if (to < 0) to = pick(t->id, true);
    if (to < 0 || to == t->id) return;
    switch_to(t, to, 0);
}

inline void point(Thr* t, int kind)
{
    if (UNLIKELY(++S.pt > S.cfg.step_limit)) viol("hang", "no completion within %llu steps (simulated thread %d)", (unsigned long long)S.cfg.step_limit, t->id);
    if (S.nrun > 1) decide(t, kind);
}

void set_state(Thr* t, int st)
{
    if (t->state == T_RUN) --S.nrun;
    t->state = st;
    if (st == T_RUN) ++S.nrun;
}

NOINLINE void deadlock()
{
    char buf[900];
    int n = 0;
    static const char* wn[] = {"?", "mutex", "rwlock", "join", "condition", "static initialisation", "flag", "futex", "sleep"};
    for (int i = 0; i < S.nthr_hi && n < 800; ++i)
        if (S.thr[i].state == T_BLOCKED) {
            n += snprintf(buf + n, sizeof buf - n, " thread %d waits for %s", i, wn[S.thr[i].wkind]);
            if (S.thr[i].nheld) n += snprintf(buf + n, sizeof buf - n, " holding %d lock(s);", S.thr[i].nheld);
            else n += snprintf(buf + n, sizeof buf - n, ";");
        }
    viol("deadlock", "no thread can run:%s", buf);
}

// Block the current thread until somebody makes it runnable again.
NOINLINE void block(Thr* t, int wkind, const void* obj, int64_t deadline = -1)
{
    ++S.pt;
    t->wkind = wkind;
    t->wobj = obj;
    t->deadline = deadline;
    t->timedout = 0;
    set_state(t, T_BLOCKED);
    for (;;) {
        if (S.nrun == 0) {
            // advance simulated time to the next deadline
            Thr* b = nullptr;
            for (int i = 0; i < S.nthr_hi; ++i) {
                Thr* x = &S.thr[i];
                if (x->state == T_BLOCKED && x->deadline >= 0 && (!b || x->deadline < b->deadline)) b = x;
            }
            if (!b) deadlock();
            if (b->clock < b->deadline) b->clock = b->deadline;
            if ((uint64_t)b->clock > S.simtime) S.simtime = b->clock;
            b->timedout = 1;
            set_state(b, T_RUN);
        }
        int n = pick(t->id, false);
        if (n == t->id) break;
        switch_to(t, n, 1);
        if (t->state == T_RUN) break;
    }
    t->wkind = W_NONE;
    t->wobj = nullptr;
    t->deadline = -1;
}

void wake_all(int wkind, const void* obj)
{
    for (int i = 0; i < S.nthr_hi; ++i) {
        Thr* x = &S.thr[i];
        if (x->state == T_BLOCKED && x->wkind == wkind && x->wobj == obj) {
            x->timedout = 0;
            set_state(x, T_RUN);
        }
    }
}

// ---------------------------------------------------------------- vector clocks

inline void vjoin(VC& a, const VC& b)
{
    for (int i = 0; i < SIM_MAXT; ++i)
        if (b.c[i] > a.c[i]) a.c[i] = b.c[i];
}
inline void vclear(VC& a) { for (int i = 0; i < SIM_MAXT; ++i) a.c[i] = 0; }
inline void tick(Thr* t) { t->vc.c[t->id]++; }

Region* region_of(uintptr_t a)
{
    if (a - HEAP_BASE < HEAP_SIZE) return &S.reg[0];
    if (a - S.reg[1].base < S.reg[1].size) return &S.reg[1];
    if (a - STK_BASE < STKS_SIZE) return &S.reg[2];
    return nullptr;
}

Sync* new_sync(const void* a)
{
    if (S.nsync >= NSYNC) viol("hang", "simulator: too many synchronisation objects");
    Sync* s = &S.syncs[S.nsync];
    s->addr = a;
    s->owner = -1;
    return s;
}

Sync* get_sync(const void* p)
{
    uintptr_t a = (uintptr_t)p;
    if (Region* r = region_of(a)) {
        uint32_t& ix = r->sync[(a - r->base) >> 3];
        if (!ix) { ix = S.nsync; new_sync(p); S.nsync++; }
        // several objects in one granule: chain
        uint32_t i = ix;
        for (;;) {
            Sync* s = &S.syncs[i];
            if (s->addr == p) return s;
            if (!s->next) {
                s->next = S.nsync;
                Sync* n = new_sync(p);
                S.nsync++;
                return n;
            }
            i = s->next;
        }
    }
    uint64_t h = (a * 0x9E3779B97F4A7C15ull) >> 48;
    uint32_t i = S.shash[h % NSHASH];
    while (i) {
        if (S.syncs[i].addr == p) return &S.syncs[i];
        i = S.syncs[i].next;
    }
    Sync* n = new_sync(p);
    n->next = S.shash[h % NSHASH];
    S.shash[h % NSHASH] = S.nsync++;
    return n;
}

// ---------------------------------------------------------------- memory checks

constexpr uint8_t ST_FREED = 0xFD, ST_RED = 0xFA;

NOINLINE void bad_memory(uintptr_t a, unsigned n, int w, uintptr_t pc, uint8_t st)
{
    addpc(pc);
    viol(st == ST_FREED ? "use-after-free" : "out-of-bounds", "%s of %u bytes at heap+0x%llx (%s) by thread %d", w ? "write" : "read", n,
        (unsigned long long)(a - HEAP_BASE), st == ST_FREED ? "freed memory" : st == ST_RED ? "outside any block" : "beyond a block", me ? me->id : -1);
}

inline void memcheck(uintptr_t a, unsigned n, int w, uintptr_t pc)
{
    uintptr_t o = a - HEAP_BASE;
    uint8_t s = S.hstate[o >> 3];
    unsigned off = o & 7;
    if (LIKELY(s == 8 && off + n <= 8)) return;
    uintptr_t e = o + n;
    while (o < e) {
        s = S.hstate[o >> 3];
        uintptr_t ge = (o & ~7ull) + 8;
        uintptr_t ce = e < ge ? e : ge;
        if (s == 0 || s > 8) bad_memory(a, n, w, pc, s == 0 ? ST_RED : s);
        if (((ce - 1) & 7) >= s) bad_memory(a, n, w, pc, s);
        o = ce;
    }
}

enum { F_W = 1, F_A = 2 };

NOINLINE void report_race(Thr* t, uintptr_t a, unsigned n, int fl, uintptr_t pc, uint64_t cell, uint32_t opc)
{
    addpc(pc);
    addpc(opc);
    const char* where = a - HEAP_BASE < HEAP_SIZE ? "heap" : a - STK_BASE < STKS_SIZE ? "stack" : "static data";
    viol("data-race", "%s%s of %u bytes of %s by thread %d is not ordered with an earlier %s%s by thread %d", fl & F_A ? "atomic " : "", fl & F_W ? "write" : "read", n,
        where, t->id, cell & (F_A << 16) ? "atomic " : "", cell & (F_W << 16) ? "write" : "read", (int)((cell >> 24) & 0xff));
}

// cell layout: epoch:32 | tid:8 | flags:8 | mask:8 | (tid stored +0, valid because epoch>0)
inline uint64_t mkcell(uint32_t ep, int tid, int fl, uint8_t mask)
{
    return ((uint64_t)ep << 32) | ((uint64_t)tid << 24) | ((uint64_t)fl << 16) | ((uint64_t)mask << 8);
}
inline uint32_t c_ep(uint64_t c) { return (uint32_t)(c >> 32); }
inline int c_tid(uint64_t c) { return (int)((c >> 24) & 0xff); }
inline int c_fl(uint64_t c) { return (int)((c >> 16) & 0xff); }
inline uint8_t c_mask(uint64_t c) { return (uint8_t)((c >> 8) & 0xff); }

inline bool shared_granule(Region* r, uintptr_t a, int tid)
{
    uint64_t* c = r->cells + ((a - r->base) >> 3) * 4;
    for (int i = 0; i < 4; ++i)
        if (c[i] && c_tid(c[i]) != tid) return true;
    return false;
}

inline void granule(Thr* t, Region* r, uintptr_t a, unsigned n, int fl, uintptr_t pc)
{
    uintptr_t g = (a - r->base) >> 3;
    uint64_t* c = r->cells + g * 4;
    uint32_t* cp = r->pcs + g * 4;
    uint8_t mask = (uint8_t)(((1u << n) - 1) << (a & 7));
    int slot = -1, hb = -1;
    for (int i = 0; i < 4; ++i) {
        uint64_t x = c[i];
        if (!x) { if (slot < 0) slot = i; continue; }
        int xt = c_tid(x);
        if (xt == t->id) {
            if (c_mask(x) == mask && (c_fl(x) & F_W) <= (fl & F_W) && (c_fl(x) & F_A) >= (fl & F_A)) slot = i;
            continue;
        }
        bool before = c_ep(x) <= t->vc.c[xt];
        if (!(c_mask(x) & mask)) { if (before && hb < 0) hb = i; continue; }
        if (!((c_fl(x) | fl) & F_W)) continue;
        if (c_fl(x) & fl & F_A) continue;
        if (before) { hb = i; continue; }
        report_race(t, a, n, fl, pc, x, cp[i]);
    }
    if (slot < 0) slot = hb;
    if (slot < 0) {
        // evict: an own cell if there is one, else rotate
        for (int i = 0; i < 4; ++i)
            if (c_tid(c[i]) == t->id) slot = i;
        if (slot < 0) slot = (int)(S.pt & 3);
    }
    c[slot] = mkcell(t->vc.c[t->id], t->id, fl, mask);
    cp[slot] = (uint32_t)pc;
}

inline bool excluded(uintptr_t a)
{
    // iostream objects copied into the executable: the standard allows concurrent use
    uintptr_t o[3] = {(uintptr_t)&std::cout, (uintptr_t)&std::cerr, (uintptr_t)&std::clog};
    for (int i = 0; i < 3; ++i)
        if (a - o[i] < sizeof std::cout) return true;
    return a - (uintptr_t)&std::cin < sizeof std::cin;
}

inline void access(uintptr_t a, unsigned n, int fl, uintptr_t pc)
{
    Thr* t = me;
    if (!t || t->in_rt) return;
    if (LIKELY(a - t->lo < t->hi - t->lo)) return;  // own stack
    bool heap = a - HEAP_BASE < HEAP_SIZE;
    if (!t->active) {
        if (heap) memcheck(a, n, fl & F_W, pc);
        return;
    }
    Region* r = heap ? &S.reg[0] : region_of(a);
    if (!r) return;
    if (!heap && r == &S.reg[1] && excluded(a)) return;
    RtGuard g(t);
    if (heap) memcheck(a, n, fl & F_W, pc);
    point(t, shared_granule(r, a, t->id) ? K_SHARED : K_PLAIN);
    if (heap) memcheck(a, n, fl & F_W, pc);
    uintptr_t e = a + n;
    while (a < e) {
        uintptr_t ge = (a & ~7ull) + 8;
        uintptr_t ce = e < ge ? e : ge;
        granule(t, r, a, (unsigned)(ce - a), fl, pc);
        a = ce;
    }
}

void range(uintptr_t a, size_t n, int fl, uintptr_t pc)
{
    Thr* t = me;
    if (!n || !t || t->in_rt) return;
    if (a - t->lo < t->hi - t->lo) return;
    bool heap = a - HEAP_BASE < HEAP_SIZE;
    if (!heap && !t->active) return;
    Region* r = region_of(a);
    if (!r) return;
    if (r == &S.reg[1] && excluded(a)) return;
    RtGuard g(t);
    if (heap) {
        if (a + n - HEAP_BASE > HEAP_SIZE) bad_memory(a, (unsigned)n, fl & F_W, pc, ST_RED);
        memcheck(a, (unsigned)n, fl & F_W, pc);
    }
    if (!t->active) return;
    point(t, shared_granule(r, a, t->id) ? K_SHARED : K_PLAIN);
    if (heap) memcheck(a, (unsigned)n, fl & F_W, pc);
    uintptr_t e = a + n;
    if (e - r->base > r->size) e = r->base + r->size;
    while (a < e) {
        uintptr_t ge = (a & ~7ull) + 8;
        uintptr_t ce = e < ge ? e : ge;
        granule(t, r, a, (unsigned)(ce - a), fl, pc);
        a = ce;
    }
}

// ---------------------------------------------------------------- atomics

inline bool acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
inline bool rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }

enum { A_LOAD, A_STORE, A_RMW };

// Called before the operation: scheduling point and happens-before bookkeeping (the operation itself
// follows with no scheduling point in between).
NOINLINE void atomic_op(uintptr_t a, unsigned n, int what, int mo, uintptr_t pc)
{
    Thr* t = me;
    if (!t || t->in_rt) return;
    RtGuard g(t);
    bool heap = a - HEAP_BASE < HEAP_SIZE;
    if (heap) memcheck(a, n, what != A_LOAD, pc);
    if (t->active && !(a - t->lo < t->hi - t->lo)) {
        point(t, K_ATOMIC);
        if (heap) memcheck(a, n, what != A_LOAD, pc);
        Region* r = region_of(a);
        if (r && !(r == &S.reg[1] && excluded(a))) granule(t, r, a, n > 8 ? 8 : n, (what == A_LOAD ? 0 : F_W) | F_A, pc);
    }
    Sync* s = get_sync((void*)a);
    if (what != A_STORE) {
        if (acq(mo)) vjoin(t->vc, s->vc);
        else vjoin(t->acqf, s->vc);
    }
    if (what != A_LOAD) {
        mix(((uint64_t)t->id << 8) ^ 0xa7);
        if (rel(mo)) {
            if (what == A_STORE) s->vc = t->vc;
            else vjoin(s->vc, t->vc);
            tick(t);
        } else {
            if (what == A_STORE) s->vc = t->relf;
            else vjoin(s->vc, t->relf);
        }
    }
}

// ---------------------------------------------------------------- heap

struct Hdr { uint64_t magic; uint64_t size; };
constexpr uint64_t MAGIC = 0x51b1f11a110c8edull;

// nlohmann's json allocates inside its noexcept destructor, so that running out of memory there ends
// the process whatever the code under test does: such allocations never fail here.
_Unwind_Reason_Code frame_cb(_Unwind_Context* c, void* out)
{
    uintptr_t ip = _Unwind_GetIP(c);
    Dl_info i;
    if (!ip) return _URC_END_OF_STACK;
    if (dladdr((void*)(ip - 1), &i) && i.dli_sname && strstr(i.dli_sname, "basic_json") && strstr(i.dli_sname, "nlohmann")) {
        size_t l = strlen(i.dli_sname);
        if (strstr(i.dli_sname, "7destroy") || (l > 4 && (!strcmp(i.dli_sname + l - 4, "D2Ev") || !strcmp(i.dli_sname + l - 4, "D1Ev")))) {
            *(bool*)out = true;
            return _URC_END_OF_STACK;
        }
    }
    return _URC_NO_REASON;
}
NOINLINE bool in_foreign_destructor()
{
    bool r = false;
    _Unwind_Backtrace(frame_cb, &r);
    return r;
}

// Some runs hand freed memory out again, latest first, as real allocators do: only then do stale
// addresses come to mean something else. (The other runs never do: every stale access is seen there.)
void* reuse_block(Thr* t, size_t n)
{
    size_t k = (n + 15) / 16;
    uintptr_t p = S.freed[k];
    if (!p) return nullptr;
    Hdr* h = (Hdr*)(p - sizeof(Hdr));
    S.freed[k] = h->magic;
    h->magic = MAGIC ^ 1;
    h->size = n;
    Region* r = &S.reg[0];
    uintptr_t g = (p - HEAP_BASE) >> 3;
    memset(S.hstate + g, 0, k * 2);
    memset(S.hstate + g, 8, n >> 3);
    if (n & 7) S.hstate[g + (n >> 3)] = (uint8_t)(n & 7);
    memset(r->cells + g * 4, 0, k * 2 * 4 * sizeof(uint64_t));
    for (size_t i = 0; i < (n + 7) / 8; ++i) {
        r->cells[(g + i) * 4] = mkcell(t->vc.c[t->id], t->id, F_W, 0xff);
        r->pcs[(g + i) * 4] = 0;
        for (uint32_t j = r->sync[g + i]; j; j = S.syncs[j].next) {
            Sync& y = S.syncs[j];
            const void* a = y.addr;
            uint32_t nx = y.next;
            memset(&y, 0, sizeof y);
            y.addr = a;
            y.next = nx;
            y.owner = -1;
        }
    }
    sim_count("heap.blocks_reused", 1);
    return (void*)p;
}

NOINLINE void* sim_alloc(Thr* t, size_t n, size_t align)
{
    RtGuard g(t);
    if (t->active) {
        point(t, K_PLAIN);
        S.res->allocs++;
        t->an++;
        bool due = t->aat > 0 && (t->an == t->aat || (t->apersist && t->an > t->aat));
        if (due && in_foreign_destructor()) {
            due = false;
            if (!t->apersist) t->aat++;
            sim_count("alloc.failure_postponed", 1);
        }
        if (due) {
            t->afired++;
            sim_count("fault.alloc_failure", 1);
            mix(0xdead ^ (uint64_t)t->id);
            return nullptr;
        }
        if ((n > S.cfg.mem_cap || S.live + (int64_t)n > (int64_t)S.cfg.mem_cap) && !in_foreign_destructor()) {
            t->afired++;
            sim_count("fault.memory_cap", 1);
            return nullptr;
        }
    }
    if (align < 16) align = 16;
    if (S.cfg.reuse && t->active && n > 0 && n <= REUSE_MAX && align == 16)
        if (void* b = reuse_block(t, n)) {
            S.live += (int64_t)n;
            S.liveblocks++;
            S.activeblocks++;
            S.activebytes += (int64_t)n;
            return b;
        }
    uintptr_t p = S.brk + sizeof(Hdr);
    p = (p + align - 1) & ~(align - 1);
    uintptr_t e = (p + n + 7) & ~7ull;
    if (e + 32 > HEAP_BASE + HEAP_SIZE) {
        if (!t->active) viol("hang", "simulator: heap addresses exhausted");
        return nullptr;
    }
    S.brk = e + 16;
    Hdr* h = (Hdr*)(p - sizeof(Hdr));
    h->magic = MAGIC ^ (t->active ? 1 : 0);
    h->size = n;
    uint8_t* st = S.hstate + ((p - HEAP_BASE) >> 3);
    size_t full = n >> 3;
    memset(st, 8, full);
    if (n & 7) st[full] = (uint8_t)(n & 7);
    if (t->active) memset((void*)p, 0xCB, n < 4096 ? n : 4096);   // fresh memory is not zero in real processes either
    S.live += (int64_t)n;
    S.liveblocks++;
    if (t->active) { S.activeblocks++; S.activebytes += (int64_t)n; }
    return (void*)p;
}

NOINLINE void sim_dealloc(Thr* t, void* p, uintptr_t pc)
{
    RtGuard g(t);
    uintptr_t a = (uintptr_t)p;
    if (t && t->active) point(t, K_PLAIN);
    uint8_t s = S.hstate[(a - HEAP_BASE) >> 3];
    Hdr* h = (Hdr*)(a - sizeof(Hdr));
    bool hdrok = (a & 15) == 0 && (h->magic & ~1ull) == (MAGIC & ~1ull);
    if (s == ST_FREED || (hdrok && h->size == 0 && (h->magic >> 63))) { addpc(pc); viol("double-free", "block at heap+0x%llx freed twice", (unsigned long long)(a - HEAP_BASE)); }
    if (!hdrok || (s == 0 && h->size > 0) || s == ST_RED) { addpc(pc); viol("bad-free", "freeing heap+0x%llx, which is not the start of a live block", (unsigned long long)(a - HEAP_BASE)); }
    size_t n = h->size;
    if (t && t->active) {
        // freeing counts as writing the whole block (first 4 KB are checked)
        Region* r = &S.reg[0];
        size_t m = n < 4096 ? n : 4096;
        for (uintptr_t x = a; x < a + m; x += 8) {
            uint64_t* c = r->cells + ((x - r->base) >> 3) * 4;
            uint32_t* cp = r->pcs + ((x - r->base) >> 3) * 4;
            for (int i = 0; i < 4; ++i)
                if (c[i] && c_tid(c[i]) != t->id && c_ep(c[i]) > t->vc.c[c_tid(c[i])]) {
                    addpc(pc);
                    addpc(cp[i]);
                    viol("data-race", "memory freed by thread %d while its use by thread %d is not ordered before", t->id, c_tid(c[i]));
                }
        }
    }
    uint8_t* st = S.hstate + ((a - HEAP_BASE) >> 3);
    memset(st, ST_FREED, (n + 7) >> 3);
    memset(p, 0xDD, n < 4096 ? n : 4096);
    S.live -= (int64_t)n;
    S.liveblocks--;
    bool was_active = (h->magic ^ MAGIC) & 1;
    if (was_active) { S.activeblocks--; S.activebytes -= (int64_t)n; }
    if (n == 0) { h->magic |= 1ull << 63; }
    else if (S.cfg.reuse && was_active && n <= REUSE_MAX) {
        size_t k = (n + 15) / 16;
        h->magic = S.freed[k];
        S.freed[k] = a;
    }
}

inline void* do_new(size_t n, size_t align, bool nothrow)
{
    Thr* t = me;
    void* p;
    if (!t || t->in_rt) {
        p = align > 16 ? aligned_alloc(align, (n + align - 1) & ~(align - 1)) : malloc(n ? n : 1);
    } else
        p = sim_alloc(t, n, align);
    if (!p && !nothrow) throw std::bad_alloc();
    return p;
}

inline void do_delete(void* p, uintptr_t pc)
{
    if (!p) return;
    if ((uintptr_t)p - HEAP_BASE < HEAP_SIZE) sim_dealloc(me, p, pc);
    else free(p);
}

// ---------------------------------------------------------------- threads

void run_dtors(Thr* t)
{
    while (t->ndt) {
        DtorRec r = t->dt[--t->ndt];
        r.fn(r.arg);
    }
}

void finish(Thr* t)
{
    ++t->in_rt;
    tick(t);
    set_state(t, T_DONE);
    wake_all(W_JOIN, t);
    mix(0xF00 ^ (uint64_t)t->id);
    ++S.pt;
    if (S.nrun == 0) {
        // let block() logic pick timed waiters
        Thr* b = nullptr;
        for (int i = 0; i < S.nthr_hi; ++i) {
            Thr* x = &S.thr[i];
            if (x->state == T_BLOCKED && x->deadline >= 0 && (!b || x->deadline < b->deadline)) b = x;
        }
        if (!b) deadlock();
        if (b->clock < b->deadline) b->clock = b->deadline;
        b->timedout = 1;
        set_state(b, T_RUN);
    }
    int n = pick(t->id, false);
    me = nullptr;
    switch_to(t, n, 1);
}

void setup_altstack(Thr* t)
{
    stack_t ss;
    ss.ss_sp = (void*)t->altstack;
    ss.ss_size = 65536;
    ss.ss_flags = 0;
    sigaltstack(&ss, nullptr);
}

void* trampoline(void* p)
{
    Thr* t = (Thr*)p;
    me = t;
    setup_altstack(t);
    ++t->in_rt;
    while (__atomic_load_n(&t->go, __ATOMIC_SEQ_CST) == 0) futex_wait(&t->go, 0);
    __atomic_store_n(&t->go, 0, __ATOMIC_SEQ_CST);
    --t->in_rt;
    if (t->start2) t->start2(t->arg);
    else t->ret = t->start(t->arg);
    run_dtors(t);
    finish(t);
    return nullptr;
}

void reap(Thr* t)
{
    static auto rj = real<int (*)(pthread_t, void**)>("pthread_join");
    rj(t->real, nullptr);
    t->state = T_FREE;
}

Thr* create(void* (*start)(void*), void (*start2)(void*), void* arg, int active)
{
    int id = -1;
    for (int i = 0; i < SIM_MAXT; ++i)
        if (S.thr[i].state == T_FREE) { id = i; break; }
    for (int i = 0; i < SIM_MAXT && id < 0; ++i)
        if (S.thr[i].state == T_DONE && S.thr[i].detached) { reap(&S.thr[i]); id = i; }
    if (id < 0) viol("hang", "simulator: too many threads");
    Thr* t = &S.thr[id];
    uint32_t own = t->vc.c[id];
    Thr* p = me;
    vclear(t->vc);
    vclear(t->acqf);
    vclear(t->relf);
    if (p) { t->vc = p->vc; tick(p); t->clock = p->clock; }
    if (t->vc.c[id] < own) t->vc.c[id] = own;
    t->vc.c[id]++;
    t->id = id;
    t->go = 0;
    t->in_rt = 0;
    t->active = active;
    t->lo = STK_BASE + STK_SIZE * id + 4096 * 4;
    t->hi = STK_BASE + STK_SIZE * (id + 1);
    t->start = start;
    t->start2 = start2;
    t->arg = arg;
    t->ret = nullptr;
    t->detached = 0;
    t->nheld = 0;
    t->ndt = 0;
    t->an = t->aat = t->afired = 0;
    t->since_switch = 0;
    t->prio = (int64_t)(rnd() >> 40) + 1000;
    if (id >= S.nthr_hi) S.nthr_hi = id + 1;
    static auto rc = real<int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)>("pthread_create");
    // a fresh stack mapping: an earlier user of this slot may still be parked on the old one
    mprotect((void*)(STK_BASE + STK_SIZE * id), 4096 * 4, PROT_NONE);
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstack(&at, (void*)t->lo, t->hi - t->lo);
    set_state(t, T_RUN);
    if (rc(&t->real, &at, trampoline, t) != 0) viol("hang", "simulator: cannot create thread");
    pthread_attr_destroy(&at);
    return t;
}


void crash_handler(int sig, siginfo_t* si, void* uc)
{
    uintptr_t a = (uintptr_t)si->si_addr;
    uintptr_t pc = (uintptr_t)((ucontext_t*)uc)->uc_mcontext.gregs[REG_RIP];
    addpc(pc);
    Thr* t = me;
    if (sig == SIGSEGV && t && a < t->lo + 65536 && a >= t->lo - 4096 * 8)
        viol("stack-overflow", "stack exhausted in thread %d", t->id);
    viol("crash", "signal %d (%s) at address 0x%llx in thread %d", sig, sig == SIGSEGV ? "SIGSEGV" : sig == SIGABRT ? "SIGABRT" : sig == SIGFPE ? "SIGFPE" : sig == SIGBUS ? "SIGBUS" : "?",
        (unsigned long long)a, t ? t->id : -1);
}

void* map_at(uintptr_t at, size_t n, const char* what)
{
    void* p = mmap((void*)at, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | (at ? MAP_FIXED_NOREPLACE : 0), -1, 0);
    if (p == MAP_FAILED || (at && p != (void*)at)) {
        fprintf(stderr, "simulator: cannot map %s\n", what);
        _exit(97);
    }
    return p;
}

void root(void*)
{
    S.body(S.arg);
    Thr* t = me;
    ++t->in_rt;
    SimResult* r = S.res;
    for (int i = 1; i < S.nthr_hi; ++i)
        if (S.thr[i].state == T_RUN || S.thr[i].state == T_BLOCKED) sim_count("threads_left", 1);
    r->hash = S.hash;
    r->pts = S.pt;
    r->simtime_ns = S.simtime;
    __atomic_store_n(&r->done, 1, __ATOMIC_SEQ_CST);
    raw_syscall(SYS_exit_group, 0);
}

// ---------------------------------------------------------------- locks

void hold(Thr* t, const void* o, int kind)
{
    if (t->nheld < 64) t->held[t->nheld] = Held{o, kind};
    t->nheld++;
}
void unhold(Thr* t, const void* o)
{
    for (int i = t->nheld - 1; i >= 0; --i)
        if (i < 64 && t->held[i].obj == o) {
            for (int j = i; j + 1 < t->nheld && j + 1 < 64; ++j) t->held[j] = t->held[j + 1];
            t->nheld--;
            return;
        }
}

void ev(Thr* t, int what, Sync* s)
{
    mix(((uint64_t)what << 40) ^ ((uint64_t)t->id << 32) ^ (uint64_t)(s - S.syncs));
    S.seq++;
}

int mutex_lock(Thr* t, pthread_mutex_t* m, bool tryOnly, int64_t deadline = -1)
{
    RtGuard g(t);
    if (t->active) point(t, K_SYNC);
    if ((uintptr_t)m - HEAP_BASE < HEAP_SIZE) memcheck((uintptr_t)m, sizeof *m, 1, (uintptr_t)__builtin_return_address(0));
    Sync* s = get_sync(m);
    int kind = m->__data.__kind & 3;
    if (s->owner == t->id) {
        if (kind == PTHREAD_MUTEX_RECURSIVE) { s->rec++; return 0; }
        if (kind == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
        if (tryOnly) return EBUSY;
    }
    while (s->owner != -1) {
        if (tryOnly) return EBUSY;
        block(t, W_MUTEX, s, deadline);
        if (t->timedout) return ETIMEDOUT;
    }
    s->owner = t->id;
    s->rec = 1;
    vjoin(t->vc, s->vc);
    hold(t, s, 1);
    ev(t, 1, s);
    return 0;
}

int mutex_unlock(Thr* t, pthread_mutex_t* m)
{
    RtGuard g(t);
    Sync* s = get_sync(m);
    if (s->owner != t->id) viol("lock-misuse", "thread %d unlocks a mutex it does not hold", t->id);
    if (--s->rec > 0) return 0;
    vjoin(s->vc, t->vc);
    tick(t);
    s->owner = -1;
    unhold(t, s);
    ev(t, 2, s);
    wake_all(W_MUTEX, s);
    if (t->active) point(t, K_SYNC);
    return 0;
}

int rw_rdlock(Thr* t, pthread_rwlock_t* m, bool tryOnly, int64_t deadline = -1)
{
    RtGuard g(t);
    if (t->active) point(t, K_SYNC);
    if ((uintptr_t)m - HEAP_BASE < HEAP_SIZE) memcheck((uintptr_t)m, sizeof *m, 1, (uintptr_t)__builtin_return_address(0));
    Sync* s = get_sync(m);
    if (s->owner == t->id) return tryOnly ? EBUSY : EDEADLK;
    for (;;) {
        bool blocked = s->owner != -1 || (S.cfg.rw_writer_pref && s->wwait > 0);
        if (!blocked) break;
        if (tryOnly) return EBUSY;
        block(t, W_RW, s, deadline);
        if (t->timedout) return ETIMEDOUT;
    }
    if (s->readers[t->id]) sim_count("rwlock.recursive_read", 1);
    s->readers[t->id]++;
    s->nreaders++;
    vjoin(t->vc, s->vc);
    hold(t, s, 2);
    ev(t, 3, s);
    return 0;
}

int rw_wrlock(Thr* t, pthread_rwlock_t* m, bool tryOnly, int64_t deadline = -1)
{
    RtGuard g(t);
    if (t->active) point(t, K_SYNC);
    if ((uintptr_t)m - HEAP_BASE < HEAP_SIZE) memcheck((uintptr_t)m, sizeof *m, 1, (uintptr_t)__builtin_return_address(0));
    Sync* s = get_sync(m);
    if (s->owner == t->id) return tryOnly ? EBUSY : EDEADLK;
    s->wwait++;
    while (s->owner != -1 || s->nreaders > 0) {
        if (tryOnly) { s->wwait--; return EBUSY; }
        block(t, W_RW, s, deadline);
        if (t->timedout) {
            s->wwait--;
            wake_all(W_RW, s);
            return ETIMEDOUT;
        }
    }
    s->wwait--;
    s->owner = t->id;
    vjoin(t->vc, s->vc);
    vjoin(t->vc, s->rvc);
    hold(t, s, 3);
    ev(t, 4, s);
    return 0;
}

int rw_unlock(Thr* t, pthread_rwlock_t* m)
{
    RtGuard g(t);
    Sync* s = get_sync(m);
    if (s->owner == t->id) {
        vjoin(s->vc, t->vc);
        tick(t);
        s->owner = -1;
    } else if (s->readers[t->id] > 0) {
        s->readers[t->id]--;
        s->nreaders--;
        vjoin(s->rvc, t->vc);
        tick(t);
    } else
        viol("lock-misuse", "thread %d unlocks a reader/writer lock it does not hold", t->id);
    unhold(t, s);
    ev(t, 5, s);
    wake_all(W_RW, s);
    if (t->active) point(t, K_SYNC);
    return 0;
}

int64_t abs_deadline(const struct timespec* ts) { return ts ? ts->tv_sec * 1000000000ll + ts->tv_nsec : -1; }
constexpr int64_t CLOCK0 = 1000000000000ll;

}  // namespace

// ==================================================================== exported: API

extern "C" {

void sim_run(const SimConfig* cfg, void (*body)(void*), void* arg)
{
    S.cfg = *cfg;
    S.res = cfg->res;
    S.rng = cfg->seed;
    S.hash = 0xcbf29ce484222325ull;
    S.hw = cfg->hw_threads;
    S.minprio = 900;
    S.quantum = 40000;
    if (S.cfg.gap < 1) S.cfg.gap = 1;
    map_at(HEAP_BASE, HEAP_SIZE, "heap");
    map_at(STK_BASE, STKS_SIZE, "stacks");
    S.hstate = (uint8_t*)map_at(0, HEAP_SIZE >> 3, "heap state");
    S.reg[0] = Region{HEAP_BASE, HEAP_SIZE, (uint64_t*)map_at(0, HEAP_SIZE * 4, "shadow"), (uint32_t*)map_at(0, HEAP_SIZE * 2, "shadow"), (uint32_t*)map_at(0, HEAP_SIZE / 2, "shadow")};
    uintptr_t db = (uintptr_t)&__data_start & ~7ull, de = ((uintptr_t)&_end + 7) & ~7ull;
    S.reg[1] = Region{db, de - db, (uint64_t*)map_at(0, (de - db) * 4, "shadow"), (uint32_t*)map_at(0, (de - db) * 2, "shadow"), (uint32_t*)map_at(0, (de - db), "shadow")};
    S.reg[2] = Region{STK_BASE, STKS_SIZE, (uint64_t*)map_at(0, STKS_SIZE * 4, "shadow"), (uint32_t*)map_at(0, STKS_SIZE * 2, "shadow"), (uint32_t*)map_at(0, STKS_SIZE / 2, "shadow")};
    S.syncs = (Sync*)map_at(0, sizeof(Sync) * (size_t)NSYNC, "sync objects");
    S.shash = (uint32_t*)map_at(0, sizeof(uint32_t) * NSHASH, "sync table");
    S.nsync = 1;
    uintptr_t alt = (uintptr_t)map_at(0, 65536ull * SIM_MAXT, "signal stacks");
    for (int i = 0; i < SIM_MAXT; ++i) S.thr[i].altstack = alt + 65536ull * i;
    S.brk = HEAP_BASE + 4096;
    S.victim = (int)(rnd() % 4) + 1;
    S.next_pt = 0;
    if (S.cfg.strategy == STRAT_RANDOM || S.cfg.strategy == STRAT_STARVE) geom();
    if (S.cfg.strategy == STRAT_PCT) {
        S.nchg = S.cfg.pct_depth > 16 ? 16 : S.cfg.pct_depth;
        uint64_t len = S.cfg.pct_len ? S.cfg.pct_len : 10000;
        for (int i = 0; i < S.nchg; ++i) S.chg[i] = rnd() % len;
        for (int i = 0; i < S.nchg; ++i)
            for (int j = i + 1; j < S.nchg; ++j)
                if (S.chg[j] < S.chg[i]) { uint64_t x = S.chg[i]; S.chg[i] = S.chg[j]; S.chg[j] = x; }
    }
    S.body = body;
    S.arg = arg;
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = crash_handler;
    sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGTRAP}) sigaction(s, &sa, nullptr);
    Thr* t = create(nullptr, root, nullptr, 0);
    __atomic_store_n(&t->go, 1, __ATOMIC_SEQ_CST);
    futex_wake(&t->go);
    for (;;) pause();
}

int sim_in_sim(void) { return me != nullptr; }
int sim_self(void) { return me ? me->id : -1; }

int sim_spawn(void (*fn)(void*), void* arg)
{
    Thr* t = me;
    RtGuard g(t);
    Thr* n = create(nullptr, fn, arg, 0);
    mix(0x5A ^ (uint64_t)n->id);
    return n->id;
}

void sim_join(int id)
{
    Thr* t = me;
    RtGuard g(t);
    Thr* o = &S.thr[id];
    while (o->state != T_DONE) block(t, W_JOIN, o);
    vjoin(t->vc, o->vc);
    reap(o);
}

int sim_active(int on)
{
    Thr* t = me;
    if (!t) return 0;
    int old = t->active;
    if (on && !old) {
        t->active = 1;
        RtGuard g(t);
        point(t, K_ENV);
    } else
        t->active = on;
    if (!on && old) { RtGuard g(t); ++S.seq; }
    return old;
}

uint64_t sim_seq(void) { return ++S.seq; }

void sim_yield(int kind)
{
    Thr* t = me;
    if (!t) return;
    RtGuard g(t);
    (void)kind;
    mix(0x11 ^ ((uint64_t)t->id << 9));
    point(t, K_ENV);
}

void sim_advance(uint64_t ns)
{
    Thr* t = me;
    if (!t) return;
    t->clock += (int64_t)ns;
    S.simtime += ns;
}
void sim_clock_jump(int64_t ns)
{
    S.rt_offset += ns;
    sim_count("fault.wall_clock_jump", 1);
}
uint64_t sim_time(void) { return me ? (uint64_t)me->clock : 0; }

void sim_arm_alloc(int64_t nth, int persistent)
{
    Thr* t = me;
    t->an = 0;
    t->aat = nth;
    t->apersist = persistent;
    t->afired = 0;
}
void sim_arm_threads(int64_t nth, int persistent)
{
    S.tn = 0;
    S.tat = nth;
    S.tpersist = persistent;
}
int sim_alloc_fired(void) { return (int)me->afired; }
int64_t sim_alloc_count(void) { return me->an; }

void sim_release(const void* key)
{
    Thr* t = me;
    RtGuard g(t);
    Sync* s = get_sync(key);
    vjoin(s->rvc, t->vc);
    tick(t);
}
void sim_acquire(const void* key)
{
    Thr* t = me;
    RtGuard g(t);
    Sync* s = get_sync(key);
    vjoin(t->vc, s->rvc);
}

int sim_wait_flag(const volatile int* flag, int value)
{
    Thr* t = me;
    RtGuard g(t);
    while (*flag < value) {
        // poll by yielding: the flag is set by harness code of another simulated thread
        ++S.pt;
        if (S.pt > S.cfg.step_limit) viol("hang", "harness flag never set");
        t->wkind = W_FLAG;
        t->wobj = (const void*)flag;
        t->deadline = -1;
        set_state(t, T_BLOCKED);
        if (S.nrun == 0) deadlock();
        int n = pick(t->id, false);
        switch_to(t, n, 1);
        if (t->state != T_RUN) set_state(t, T_RUN);
    }
    t->wkind = W_NONE;
    return *flag;
}
void sim_notify(const volatile int* flag)
{
    Thr* t = me;
    RtGuard g(t);
    wake_all(W_FLAG, (const void*)flag);
}

void sim_violation(const char* cls, const char* fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    if (me) ++me->in_rt;
    die(cls, fmt, ap);
}

void sim_event(uint64_t v)
{
    if (!me) return;
    mix(v * 0x9E3779B97F4A7C15ull);
}

void sim_log(const char* fmt, ...)
{
    SimResult* r = S.res;
    if (!r || r->loglen + 300 > SIM_LOGMAX) return;
    Thr* t = me;
    RtGuard g(t);
    va_list ap;
    va_start(ap, fmt);
    int n = snprintf(r->log + r->loglen, SIM_LOGMAX - r->loglen, "[%llu t%d] ", (unsigned long long)S.seq, t ? t->id : -1);
    r->loglen += (uint32_t)n;
    size_t room = SIM_LOGMAX - r->loglen;
    if (room > 4096) room = 4096;
    n = vsnprintf(r->log + r->loglen, room, fmt, ap);
    va_end(ap);
    if (n < 0) n = 0;
    if ((size_t)n >= room) n = (int)room - 1;
    r->loglen += (uint32_t)n;
    if (r->loglen + 2 < SIM_LOGMAX) { r->log[r->loglen++] = '\n'; r->log[r->loglen] = 0; }
}

void sim_count(const char* name, uint64_t n)
{
    SimResult* r = S.res;
    if (!r) return;
    for (uint32_t i = 0; i < r->ncnt; ++i) {
        const char *a = r->cnt[i].name, *b = name;
        int k = 0;
        while (k < 31 && *a && *a == *b) { ++a; ++b; ++k; }
        if (*a == 0 && (*b == 0 || k == 31)) { r->cnt[i].n += n; return; }
    }
    if (r->ncnt >= SIM_MAXCNT) return;
    SimCounter& c = r->cnt[r->ncnt++];
    int k = 0;
    for (; k < 31 && name[k]; ++k) c.name[k] = name[k];
    c.name[k] = 0;
    c.n = n;
}

int sim_locks_held(void) { return me->nheld; }
int sim_locks_held_total(void)
{
    int n = 0;
    for (int i = 0; i < S.nthr_hi; ++i)
        if (S.thr[i].state != T_FREE) n += S.thr[i].nheld;
    return n;
}
int sim_heap_live(const void* p)
{
    uintptr_t a = (uintptr_t)p;
    if (a - HEAP_BASE >= HEAP_SIZE) return -1;
    uint8_t s = S.hstate[(a - HEAP_BASE) >> 3];
    return s >= 1 && s <= 8;
}
int64_t sim_live_blocks(void) { return S.activeblocks; }
int64_t sim_live_bytes(void) { return S.activebytes; }
void sim_hw_threads(int n) { S.hw = n; }
void sim_set_memcap(uint64_t b) { S.cfg.mem_cap = b; }

// ==================================================================== exported: tsan callbacks

#define PC ((uintptr_t)__builtin_return_address(0))
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define RW(N) \
    void __tsan_read##N(void* a) { access((uintptr_t)a, N, 0, PC); } \
    void __tsan_write##N(void* a) { access((uintptr_t)a, N, F_W, PC); } \
    void __tsan_unaligned_read##N(void* a) { access((uintptr_t)a, N, 0, PC); } \
    void __tsan_unaligned_write##N(void* a) { access((uintptr_t)a, N, F_W, PC); } \
    void __tsan_volatile_read##N(void* a) { access((uintptr_t)a, N, 0, PC); } \
    void __tsan_volatile_write##N(void* a) { access((uintptr_t)a, N, F_W, PC); } \
    void __tsan_unaligned_volatile_read##N(void* a) { access((uintptr_t)a, N, 0, PC); } \
    void __tsan_unaligned_volatile_write##N(void* a) { access((uintptr_t)a, N, F_W, PC); } \
    void __tsan_read_write##N(void* a) { access((uintptr_t)a, N, F_W, PC); } \
    void __tsan_unaligned_read_write##N(void* a) { access((uintptr_t)a, N, F_W, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void** a, void* v)
{
    // rewriting the same vptr (destructors of final classes) is not a conflicting write
    if (me && *a == v) access((uintptr_t)a, 8, 0, PC);
    else access((uintptr_t)a, 8, F_W, PC);
}
void __tsan_vptr_read(void** a) { access((uintptr_t)a, 8, 0, PC); }
void __tsan_read_range(void* a, size_t n) { range((uintptr_t)a, n, 0, PC); }
void __tsan_write_range(void* a, size_t n) { range((uintptr_t)a, n, F_W, PC); }

#define ATOMIC(B, T) \
    T __tsan_atomic##B##_load(const volatile T* a, int mo) { atomic_op((uintptr_t)a, B / 8, A_LOAD, mo, PC); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
    void __tsan_atomic##B##_store(volatile T* a, T v, int mo) { atomic_op((uintptr_t)a, B / 8, A_STORE, mo, PC); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##B##_exchange(volatile T* a, T v, int mo) { atomic_op((uintptr_t)a, B / 8, A_RMW, mo, PC); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##B##_fetch_add(volatile T* a, T v, int mo) { atomic_op((uintptr_t)a, B / 8, A_RMW, mo, PC); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##B##_fetch_sub(volatile T* a, T v, int mo) { atomic_op((uintptr_t)a, B / 8, A_RMW, mo, PC); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##B##_fetch_and(volatile T* a, T v, int mo) { atomic_op((uintptr_t)a, B / 8, A_RMW, mo, PC); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##B##_fetch_or(volatile T* a, T v, int mo) { atomic_op((uintptr_t)a, B / 8, A_RMW, mo, PC); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##B##_fetch_xor(volatile T* a, T v, int mo) { atomic_op((uintptr_t)a, B / 8, A_RMW, mo, PC); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##B##_fetch_nand(volatile T* a, T v, int mo) { atomic_op((uintptr_t)a, B / 8, A_RMW, mo, PC); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##B##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int fmo) \
    { \
        atomic_op((uintptr_t)a, B / 8, *a == *c ? A_RMW : A_LOAD, *a == *c ? mo : fmo, PC); \
        return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
    } \
    int __tsan_atomic##B##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int fmo) \
    { \
        atomic_op((uintptr_t)a, B / 8, *a == *c ? A_RMW : A_LOAD, *a == *c ? mo : fmo, PC); \
        return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
    } \
    T __tsan_atomic##B##_compare_exchange_val(volatile T* a, T c, T v, int mo, int fmo) \
    { \
        atomic_op((uintptr_t)a, B / 8, *a == c ? A_RMW : A_LOAD, *a == c ? mo : fmo, PC); \
        __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
        return c; \
    }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int mo)
{
    Thr* t = me;
    if (!t || t->in_rt) return;
    RtGuard g(t);
    if (t->active) point(t, K_ATOMIC);
    if (acq(mo)) vjoin(t->vc, t->acqf);
    if (rel(mo)) { t->relf = t->vc; tick(t); }
}
void __tsan_atomic_signal_fence(int) {}

// ==================================================================== exported: memory functions

void* memcpy(void* __restrict d, const void* __restrict s, size_t n) noexcept
{
    if (UNLIKELY(me && !me->in_rt)) { range((uintptr_t)s, n, 0, PC); range((uintptr_t)d, n, F_W, PC); }
    void* r = d;
    __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n)::"memory");
    return r;
}
void* memmove(void* d, const void* s, size_t n) noexcept
{
    if (UNLIKELY(me && !me->in_rt)) { range((uintptr_t)s, n, 0, PC); range((uintptr_t)d, n, F_W, PC); }
    void* r = d;
    if ((uintptr_t)d - (uintptr_t)s >= n) {
        __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n)::"memory");
    } else {
        char* dd = (char*)d + n - 1;
        const char* ss = (const char*)s + n - 1;
        __asm__ volatile("std\n rep movsb\n cld" : "+D"(dd), "+S"(ss), "+c"(n)::"memory");
    }
    return r;
}
void* memset(void* d, int c, size_t n) noexcept
{
    if (UNLIKELY(me && !me->in_rt)) range((uintptr_t)d, n, F_W, PC);
    void* r = d;
    __asm__ volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(c) : "memory");
    return r;
}
int memcmp(const void* a, const void* b, size_t n) noexcept
{
    if (UNLIKELY(me && !me->in_rt)) { range((uintptr_t)a, n, 0, PC); range((uintptr_t)b, n, 0, PC); }
    const unsigned char *x = (const unsigned char*)a, *y = (const unsigned char*)b;
    for (; n; --n, ++x, ++y)
        if (*x != *y) return *x < *y ? -1 : 1;
    return 0;
}
int bcmp(const void* a, const void* b, size_t n) noexcept
{
    if (UNLIKELY(me && !me->in_rt)) { range((uintptr_t)a, n, 0, PC); range((uintptr_t)b, n, 0, PC); }
    const unsigned char *x = (const unsigned char*)a, *y = (const unsigned char*)b;
    for (; n; --n, ++x, ++y)
        if (*x != *y) return 1;
    return 0;
}
size_t strlen(const char* s) noexcept
{
    const char* p = s;
    while (*p) ++p;
    if (UNLIKELY(me && !me->in_rt)) range((uintptr_t)s, (size_t)(p - s) + 1, 0, PC);
    return (size_t)(p - s);
}
void* __tsan_memcpy(void* d, const void* s, size_t n)
{
    if (me && !me->in_rt) { range((uintptr_t)s, n, 0, PC); range((uintptr_t)d, n, F_W, PC); }
    RtGuard g(me);
    return memcpy(d, s, n);
}
void* __tsan_memmove(void* d, const void* s, size_t n)
{
    if (me && !me->in_rt) { range((uintptr_t)s, n, 0, PC); range((uintptr_t)d, n, F_W, PC); }
    RtGuard g(me);
    return memmove(d, s, n);
}
void* __tsan_memset(void* d, int c, size_t n)
{
    if (me && !me->in_rt) range((uintptr_t)d, n, F_W, PC);
    RtGuard g(me);
    return memset(d, c, n);
}

// ==================================================================== exported: pthread

int pthread_mutex_lock(pthread_mutex_t* m) noexcept
{
    Thr* t = me;
    if (t && !t->in_rt) return mutex_lock(t, m, false);
    static auto f = real<int (*)(pthread_mutex_t*)>("pthread_mutex_lock");
    return f(m);
}
int pthread_mutex_trylock(pthread_mutex_t* m) noexcept
{
    Thr* t = me;
    if (t && !t->in_rt) return mutex_lock(t, m, true);
    static auto f = real<int (*)(pthread_mutex_t*)>("pthread_mutex_trylock");
    return f(m);
}
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept
{
    Thr* t = me;
    if (t && !t->in_rt) return mutex_unlock(t, m);
    static auto f = real<int (*)(pthread_mutex_t*)>("pthread_mutex_unlock");
    return f(m);
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* ts) noexcept
{
    Thr* t = me;
    if (t && !t->in_rt) return mutex_lock(t, m, false, abs_deadline(ts) - CLOCK0);
    static auto f = real<int (*)(pthread_mutex_t*, const struct timespec*)>("pthread_mutex_timedlock");
    return f(m, ts);
}
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const struct timespec* ts) noexcept
{
    Thr* t = me;
    if (t && !t->in_rt) return mutex_lock(t, m, false, abs_deadline(ts) - CLOCK0);
    static auto f = real<int (*)(pthread_mutex_t*, clockid_t, const struct timespec*)>("pthread_mutex_clocklock");
    return f(m, c, ts);
}
#define RWF(name, call) \
    int name(pthread_rwlock_t* m) noexcept \
    { \
        Thr* t = me; \
        if (t && !t->in_rt) return call; \
        static auto f = real<int (*)(pthread_rwlock_t*)>(#name); \
        return f(m); \
    }
RWF(pthread_rwlock_rdlock, rw_rdlock(t, m, false))
RWF(pthread_rwlock_tryrdlock, rw_rdlock(t, m, true))
RWF(pthread_rwlock_wrlock, rw_wrlock(t, m, false))
RWF(pthread_rwlock_trywrlock, rw_wrlock(t, m, true))
RWF(pthread_rwlock_unlock, rw_unlock(t, m))
int pthread_rwlock_timedrdlock(pthread_rwlock_t* m, const struct timespec* ts) noexcept { return rw_rdlock(me, m, false, abs_deadline(ts) - CLOCK0); }
int pthread_rwlock_timedwrlock(pthread_rwlock_t* m, const struct timespec* ts) noexcept { return rw_wrlock(me, m, false, abs_deadline(ts) - CLOCK0); }
int pthread_rwlock_clockrdlock(pthread_rwlock_t* m, clockid_t, const struct timespec* ts) noexcept { return rw_rdlock(me, m, false, abs_deadline(ts) - CLOCK0); }
int pthread_rwlock_clockwrlock(pthread_rwlock_t* m, clockid_t, const struct timespec* ts) noexcept { return rw_wrlock(me, m, false, abs_deadline(ts) - CLOCK0); }

static int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, int64_t deadline)
{
    Thr* t = me;
    mutex_unlock(t, m);
    {
        RtGuard g(t);
        block(t, W_COND, c, deadline);
    }
    int to = t->timedout;
    mutex_lock(t, m, false);
    return to ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
    if (me && !me->in_rt) return cond_wait(c, m, -1);
    static auto f = real<int (*)(pthread_cond_t*, pthread_mutex_t*)>("pthread_cond_wait");
    return f(c, m);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts)
{
    if (me && !me->in_rt) return cond_wait(c, m, abs_deadline(ts) - CLOCK0);
    static auto f = real<int (*)(pthread_cond_t*, pthread_mutex_t*, const struct timespec*)>("pthread_cond_timedwait");
    return f(c, m, ts);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* ts)
{
    if (me && !me->in_rt) return cond_wait(c, m, abs_deadline(ts) - CLOCK0);
    static auto f = real<int (*)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*)>("pthread_cond_clockwait");
    return f(c, m, k, ts);
}
int pthread_cond_signal(pthread_cond_t* c) noexcept
{
    Thr* t = me;
    if (t && !t->in_rt) {
        RtGuard g(t);
        int w[SIM_MAXT], n = 0;
        for (int i = 0; i < S.nthr_hi; ++i)
            if (S.thr[i].state == T_BLOCKED && S.thr[i].wkind == W_COND && S.thr[i].wobj == c) w[n++] = i;
        if (n) { Thr* x = &S.thr[w[S.pt % n]]; x->timedout = 0; set_state(x, T_RUN); }
        if (t->active) point(t, K_SYNC);
        return 0;
    }
    static auto f = real<int (*)(pthread_cond_t*)>("pthread_cond_signal");
    return f(c);
}
int pthread_cond_broadcast(pthread_cond_t* c) noexcept
{
    Thr* t = me;
    if (t && !t->in_rt) {
        RtGuard g(t);
        wake_all(W_COND, c);
        if (t->active) point(t, K_SYNC);
        return 0;
    }
    static auto f = real<int (*)(pthread_cond_t*)>("pthread_cond_broadcast");
    return f(c);
}

int pthread_create(pthread_t* out, const pthread_attr_t* at, void* (*fn)(void*), void* arg) noexcept
{
    Thr* t = me;
    if (t && !t->in_rt) {
        RtGuard g(t);
        if (t->active) {
            point(t, K_SYNC);
            S.tn++;
            if (S.tat > 0 && (S.tn == S.tat || (S.tpersist && S.tn > S.tat))) {
                sim_count("fault.thread_start", 1);
                mix(0x5D ^ (uint64_t)t->id);
                return EAGAIN;
            }
        }
        Thr* n = create(fn, nullptr, arg, t->active);
        *out = n->real;
        sim_count("threads_started_by_code", 1);
        mix(0x5B ^ (uint64_t)n->id);
        if (t->active) point(t, K_SYNC);
        return 0;
    }
    static auto f = real<int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)>("pthread_create");
    return f(out, at, fn, arg);
}
int pthread_join(pthread_t th, void** ret)
{
    Thr* t = me;
    if (t && !t->in_rt) {
        RtGuard g(t);
        for (int i = 0; i < S.nthr_hi; ++i)
            if (S.thr[i].state != T_FREE && S.thr[i].real == th && !S.thr[i].detached && i != t->id) {
                Thr* o = &S.thr[i];
                if (t->active) point(t, K_SYNC);
                while (o->state != T_DONE) block(t, W_JOIN, o);
                vjoin(t->vc, o->vc);
                if (ret) *ret = o->ret;
                reap(o);
                return 0;
            }
        return ESRCH;
    }
    static auto f = real<int (*)(pthread_t, void**)>("pthread_join");
    return f(th, ret);
}
int pthread_detach(pthread_t th) noexcept
{
    Thr* t = me;
    if (t && !t->in_rt) {
        for (int i = 0; i < S.nthr_hi; ++i)
            if (S.thr[i].state != T_FREE && S.thr[i].real == th) S.thr[i].detached = 1;
        return 0;
    }
    static auto f = real<int (*)(pthread_t)>("pthread_detach");
    return f(th);
}

static int once_like(Thr* t, Sync* s)
{
    // returns 1 if the caller must run the initialisation
    for (;;) {
        if (s->gstate == 2) { vjoin(t->vc, s->vc); return 0; }
        if (s->gstate == 0) { s->gstate = 1; s->owner = t->id; vjoin(t->vc, s->vc); return 1; }
        if (s->owner == t->id) viol("deadlock", "recursive initialisation of a static object");
        block(t, W_GUARD, s);
    }
}
int pthread_once(pthread_once_t* o, void (*fn)(void)) noexcept(false)
{
    Thr* t = me;
    if (t && !t->in_rt) {
        Sync* s;
        {
            RtGuard g(t);
            if (t->active) point(t, K_SYNC);
            s = get_sync(o);
            if (*(int*)o == 2) return 0;  // completed before the simulation started
            if (!once_like(t, s)) return 0;
        }
        try { fn(); }
        catch (...) {
            RtGuard g(t);
            s->gstate = 0;
            s->owner = -1;
            vjoin(s->vc, t->vc);
            tick(t);
            wake_all(W_GUARD, s);
            throw;
        }
        RtGuard g(t);
        s->gstate = 2;
        s->owner = -1;
        vjoin(s->vc, t->vc);
        tick(t);
        wake_all(W_GUARD, s);
        return 0;
    }
    static auto f = real<int (*)(pthread_once_t*, void (*)(void))>("pthread_once");
    return f(o, fn);
}

int __cxa_guard_acquire(long long* gp)
{
    Thr* t = me;
    if (__atomic_load_n((uint8_t*)gp, __ATOMIC_ACQUIRE)) {
        if (t && !t->in_rt) { RtGuard g(t); vjoin(t->vc, get_sync(gp)->vc); }
        return 0;
    }
    if (!t || t->in_rt) return 1;
    RtGuard g(t);
    if (t->active) point(t, K_SYNC);
    Sync* s = get_sync(gp);
    if (!once_like(t, s)) return 0;
    return 1;
}
void __cxa_guard_release(long long* gp)
{
    __atomic_store_n((uint8_t*)gp, 1, __ATOMIC_RELEASE);
    Thr* t = me;
    if (!t || t->in_rt) return;
    RtGuard g(t);
    Sync* s = get_sync(gp);
    s->gstate = 2;
    s->owner = -1;
    s->vc = t->vc;
    tick(t);
    wake_all(W_GUARD, s);
    if (t->active) point(t, K_SYNC);
}
void __cxa_guard_abort(long long* gp)
{
    Thr* t = me;
    if (!t || t->in_rt) return;
    RtGuard g(t);
    Sync* s = get_sync(gp);
    s->gstate = 0;
    s->owner = -1;
    vjoin(s->vc, t->vc);   // the next attempt is ordered after this one
    tick(t);
    wake_all(W_GUARD, s);
}
int __cxa_thread_atexit(void (*fn)(void*), void* arg, void* dso)
{
    Thr* t = me;
    if (t) {
        if (t->ndt < 64) t->dt[t->ndt++] = DtorRec{fn, arg};
        return 0;
    }
    static auto f = real<int (*)(void (*)(void*), void*, void*)>("__cxa_thread_atexit");
    return f(fn, arg, dso);
}

// ==================================================================== exported: clock, yield, asserts

int clock_gettime(clockid_t c, struct timespec* ts) noexcept
{
    Thr* t = me;
    if (t && !t->in_rt) {
        sim_count("clock_reads", 1);
        int64_t v = CLOCK0 + t->clock + (c == CLOCK_REALTIME ? S.rt_offset : 0);
        ts->tv_sec = v / 1000000000ll;
        ts->tv_nsec = v % 1000000000ll;
        return 0;
    }
    return (int)raw_syscall(SYS_clock_gettime, c, (long)ts);
}
int nanosleep(const struct timespec* rq, struct timespec*)
{
    Thr* t = me;
    if (t && !t->in_rt) {
        RtGuard g(t);
        block(t, W_SLEEP, nullptr, t->clock + rq->tv_sec * 1000000000ll + rq->tv_nsec);
        return 0;
    }
    return (int)raw_syscall(SYS_nanosleep, (long)rq);
}
int clock_nanosleep(clockid_t, int flags, const struct timespec* rq, struct timespec*)
{
    Thr* t = me;
    int64_t v = rq->tv_sec * 1000000000ll + rq->tv_nsec;
    if (t && !t->in_rt) {
        RtGuard g(t);
        block(t, W_SLEEP, nullptr, flags & TIMER_ABSTIME ? v - CLOCK0 : t->clock + v);
        return 0;
    }
    return (int)raw_syscall(SYS_nanosleep, (long)rq);
}
int sched_yield(void) noexcept
{
    Thr* t = me;
    if (t && !t->in_rt) {
        RtGuard g(t);
        ++S.pt;
        if (S.pt > S.cfg.step_limit) viol("hang", "no completion within the step limit (yielding)");
        if (S.nrun > 1) {
            if (S.cfg.strategy == STRAT_PCT) t->prio = --S.minprio;
            int n = pick(t->id, true);
            if (n >= 0) switch_to(t, n, 1);
        }
        return 0;
    }
    return (int)raw_syscall(SYS_sched_yield);
}
// Futexes are what std::atomic::wait, std::latch, std::future and std::counting_semaphore sleep on.
long syscall(long n, ...) noexcept
{
    va_list ap;
    va_start(ap, n);
    long a[6];
    for (auto& x : a) x = va_arg(ap, long);
    va_end(ap);
    Thr* t = me;
    int op = (int)a[1] & ~(FUTEX_PRIVATE_FLAG | FUTEX_CLOCK_REALTIME);
    if (n == SYS_futex && t && !t->in_rt && (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET)) {
        RtGuard g(t);
        if (t->active) point(t, K_SYNC);
        if (__atomic_load_n((int*)a[0], __ATOMIC_SEQ_CST) != (int)a[2]) { errno = EAGAIN; return -1; }
        int64_t deadline = -1;
        if (auto ts = (const struct timespec*)a[3]) {
            int64_t v = ts->tv_sec * 1000000000ll + ts->tv_nsec;
            deadline = op == FUTEX_WAIT ? t->clock + v : v - CLOCK0 - ((int)a[1] & FUTEX_CLOCK_REALTIME ? S.rt_offset : 0);
            if (deadline < t->clock) deadline = t->clock;
        }
        mix(0x5C ^ (uint64_t)t->id);
        block(t, W_FUTEX, (void*)a[0], deadline);
        if (t->timedout) { errno = ETIMEDOUT; return -1; }
        return 0;
    }
    if (n == SYS_futex && t && !t->in_rt && (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET)) {
        RtGuard g(t);
        int w[SIM_MAXT], cnt = 0, woken = 0;
        for (int i = 0; i < S.nthr_hi; ++i)
            if (S.thr[i].state == T_BLOCKED && S.thr[i].wkind == W_FUTEX && S.thr[i].wobj == (void*)a[0]) w[cnt++] = i;
        for (; cnt && woken < (int)a[2]; ++woken) {
            int k = (int)(S.pt % (uint64_t)cnt);
            S.thr[w[k]].timedout = 0;
            set_state(&S.thr[w[k]], T_RUN);
            w[k] = w[--cnt];
        }
        if (t->active) point(t, K_SYNC);
        return woken;
    }
    long r = raw_syscall(n, a[0], a[1], a[2], a[3], a[4], a[5]);
    if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
    return r;
}
void __assert_fail(const char* expr, const char* file, unsigned line, const char* fn) noexcept
{
    (void)fn;
    addpc(PC);
    if (S.res) viol("assertion", "%s (%s:%u)", expr, file, line);
    fprintf(stderr, "assertion failed: %s (%s:%u)\n", expr, file, line);
    abort();
}
}  // extern "C"

namespace std
{
// libstdc++'s _GLIBCXX_ASSERTIONS failures
void __glibcxx_assert_fail(const char* file, int line, const char* fn, const char* cond) noexcept
{
    (void)fn;
    addpc((uintptr_t)__builtin_return_address(0));
    if (S.res) viol("assertion", "libstdc++ assertion %s (%s:%d)", cond ? cond : "unreachable", file ? file : "?", line);
    abort();
}
unsigned thread::hardware_concurrency() noexcept { return me ? (unsigned)S.hw : 1; }
}

// ==================================================================== exported: operator new/delete

#define RA ((uintptr_t)__builtin_return_address(0))
void* operator new(size_t n) { return do_new(n, 16, false); }
void* operator new[](size_t n) { return do_new(n, 16, false); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return do_new(n, 16, true); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return do_new(n, 16, true); }
void* operator new(size_t n, std::align_val_t a) { return do_new(n, (size_t)a, false); }
void* operator new[](size_t n, std::align_val_t a) { return do_new(n, (size_t)a, false); }
void* operator new(size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return do_new(n, (size_t)a, true); }
void* operator new[](size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return do_new(n, (size_t)a, true); }
void operator delete(void* p) noexcept { do_delete(p, RA); }
void operator delete[](void* p) noexcept { do_delete(p, RA); }
void operator delete(void* p, size_t) noexcept { do_delete(p, RA); }
void operator delete[](void* p, size_t) noexcept { do_delete(p, RA); }
void operator delete(void* p, const std::nothrow_t&) noexcept { do_delete(p, RA); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { do_delete(p, RA); }
void operator delete(void* p, std::align_val_t) noexcept { do_delete(p, RA); }
void operator delete[](void* p, std::align_val_t) noexcept { do_delete(p, RA); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { do_delete(p, RA); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { do_delete(p, RA); }
