// Deterministic simulation runtime: C interface shared by runtime, driver and scenarios.
#pragma once
#include <stddef.h>
#include <stdint.h>

#define SIM_MAXT 14
#define SIM_MAXREC (1u << 18)
#define SIM_MAXCNT 96
#define SIM_LOGMAX (1u << 16)

extern "C" {

enum SimStrategyKind { STRAT_REPLAY = 0, STRAT_RANDOM, STRAT_SHARED, STRAT_PCT, STRAT_SYNC, STRAT_STARVE, STRAT_SERIAL };

struct SimSwitch { uint64_t pt; int32_t to; int32_t forced; };
struct SimCounter { char name[32]; uint64_t n; };

// Shared between a run (child process) and its supervisor.
struct SimResult {
    volatile int done;             // 1 = finished normally, 2 = violation reported
    char cls[64];                  // violation class
    char msg[3072];                // violation text
    uint64_t hash;                 // hash over all events of the run
    uint64_t pts;                  // scheduling points passed
    uint64_t switches, preempts;   // context switches (all / preemptive)
    uint64_t simtime_ns;
    uint64_t allocs;
    uint64_t pcs[8];
    int npcs;
    uint32_t ncnt;
    SimCounter cnt[SIM_MAXCNT];
    uint32_t nrec;
    uint32_t rec_overflow;
    SimSwitch rec[SIM_MAXREC];
    uint32_t loglen;
    char log[SIM_LOGMAX];
};

struct SimConfig {
    int strategy;
    uint64_t seed;
    uint32_t gap;          // mean points between switches (RANDOM), 1/gap at shared accesses (SHARED) / sync operations (SYNC)
    int pct_depth;
    uint64_t pct_len;      // estimated number of points, for placing priority changes
    int rw_writer_pref;
    uint64_t step_limit;
    uint64_t mem_cap;
    int hw_threads;
    int reuse;             // freed memory is handed out again
    const SimSwitch* replay; uint32_t nreplay;
    SimResult* res;
};

// driver side
void sim_run(const SimConfig* cfg, void (*body)(void*), void* arg) __attribute__((noreturn)); // in a child process

// scenario side (called on simulated threads)
int  sim_spawn(void (*fn)(void*), void* arg);  // returns thread id; happens-before edge
void sim_join(int tid);
int  sim_self(void);
int  sim_active(int on);                  // returns previous; active = code under test is running
uint64_t sim_seq(void);                   // global event sequence number (monotonic)
void sim_yield(int kind);                 // explicit scheduling point
void sim_advance(uint64_t ns);            // advance this thread's simulated clock
uint64_t sim_time(void);
void sim_clock_jump(int64_t ns);          // somebody sets the wall clock
void sim_arm_alloc(int64_t nth, int persistent); // the nth allocation of the code under test by this thread fails; 0 disarms
void sim_arm_threads(int64_t nth, int persistent); // the nth thread started by the code under test fails to start (and all later ones); 0 disarms
int  sim_alloc_fired(void);               // failures delivered since armed
int64_t sim_alloc_count(void);            // allocations by this thread in active mode since armed
void sim_release(const void* key);
void sim_acquire(const void* key);
int  sim_wait_flag(const volatile int* flag, int value); // block (scheduler-visible) until *flag >= value
void sim_notify(const volatile int* flag);
void sim_violation(const char* cls, const char* fmt, ...) __attribute__((noreturn, format(printf, 2, 3)));
void sim_event(uint64_t v);               // mix into the event hash
void sim_log(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void sim_count(const char* name, uint64_t n);
int  sim_locks_held(void);                // simulated locks held by the calling thread
int  sim_locks_held_total(void);
int  sim_heap_live(const void* p);        // 1 if p lies in a live heap block, 0 if freed/unallocated, -1 if not heap
int64_t sim_live_blocks(void);            // live blocks allocated in active mode
int64_t sim_live_bytes(void);
void sim_hw_threads(int n);
void sim_set_memcap(uint64_t bytes);
int  sim_in_sim(void);
}
