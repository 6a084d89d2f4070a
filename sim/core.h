// Simulator core: one process = one simulated execution. The library under test is compiled with
// memory-access, function and edge callbacks; those callbacks (core.cpp) are the scheduling points.
// Everything nondeterministic the library could touch - thread interleaving, heap (placement, reuse,
// contents, exhaustion), clocks, randomness, mutexes - is decided here from the scenario text.
#pragma once
#include <stdint.h>
#include <stddef.h>

namespace sim {

enum { MAXT = 5 };                       // thread 0 sets up and verifies; 1..4 are simulated callers

enum GarbageMode { GARB_ZERO, GARB_ONES, GARB_RANDOM, GARB_STALE };
enum ReusePolicy { REUSE_LIFO, REUSE_FIFO, REUSE_NONE, REUSE_RANDOM };

struct AllocFault { int nth, len; unsigned minsize; int fired; };    // fail allocations nth..nth+len-1 of at least minsize bytes

struct OpCtl {                           // per running operation (nested operations have their own)
	int opid = 0;
	uint64_t step = 0, step0 = 0;        // scheduling points passed
	uint64_t budget = 0;
	int allocs = 0, gcalls = 0, rands = 0, srands = 0;
	AllocFault af{0, 0, 0, 0};
	int rkind = 0; uint64_t rstate = 1; uint64_t rparam = 0;   // random stream of this operation
	int faults = 0;
	uint64_t waited = 0;                 // steps spent spinning while others were held up
	OpCtl* outer = nullptr;
};

enum SwKind { SW_SWITCH, SW_STALL };
struct SwPoint { int opid; uint64_t step; int kind; int next; bool used; };

extern const void* classic_locale;
struct Config {
	int nthreads = 1;
	int order[MAXT] = {1, 2, 3, 4, 0};
	bool seq = false;                    // run operations one at a time in operation-id order
	int garbage = GARB_ZERO; uint64_t garbage_seed = 1;
	int reuse = REUSE_LIFO; unsigned shift = 0; uint64_t reuse_seed = 1;
	int clock_mode = 0; uint64_t clock_seed = 1;
	bool hooks = true;                   // false: fast mode, no scheduling points inside operations
	bool probe = false;                  // log interesting steps
	bool races = false;
	bool fenv_watch = false;
	bool scribble = false;
	uint64_t envvars = 0;      // what environment variables the library asks for contain
	uint64_t quantum_seed = 0; uint64_t quantum = 0;   // random preemption (logged as explicit switches)
};
extern Config cfg;

// ---- log ------------------------------------------------------------------------------------
void log_init(char* buf, size_t cap, size_t* len);
void logf(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void log_raw(const char* s, size_t n);
[[noreturn]] void run_abort(const char* fmt, ...) __attribute__((format(printf, 1, 2)));

// ---- memory ----------------------------------------------------------------------------------
void arena_init();
void arena_configure();                  // apply cfg to later allocations
bool in_arena(const void* p);
struct BlockInfo { uintptr_t addr; size_t size; bool live; int tag; int optag; };
bool arena_block(const void* p, BlockInfo* out);
void arena_set_watch(const void* p, bool on);
void arena_set_tag(int tag);             // tag for allocations made from now on
void arena_clear_watch();
void arena_watch_tag(int tag);           // watch every live block allocated under this tag
int arena_tag();
uint64_t arena_live_bytes();
extern void (*mid_check)();              // called when bytes of a watched block have changed in mid-call
extern int watch_on;

// ---- running library code ----------------------------------------------------------------------
struct OpScope { OpCtl ctl; };
void op_begin(OpCtl* c);                 // must be paired; not yet "in" the library
void op_end(OpCtl* c);
void enter();                            // from here on callbacks, arena and interposers are active
void leave();
bool inside();
struct Pause { bool was; Pause(); ~Pause(); };   // temporarily outside (user callback)
struct Quiet { bool was; Quiet(); ~Quiet(); };   // harness evaluating library getters: arena stays active off, no steps
OpCtl* cur_op();
int cur_thread();
void scribble_stack();
void op_boundary(int next_opid);         // scheduling point between operations (-1: this thread has no more)
void gamma_stall();                      // park the current thread until every other one has finished
extern int stall_blocked;                // others could not finish while a caller was stalled in its gamma function
void libc_state(int which, bool write);   // the library is about to touch state of the C library that belongs to the process
uint64_t total_steps();
uint64_t sim_time_ns();

void add_switch(const SwPoint& p);
void add_access_fault(int opid, AllocFault f);
void run_threads(void (*fn)(int tid));
void note_interleaving(uint64_t v);

// ---- ambient state -------------------------------------------------------------------------------
extern int amb_events;                   // number of logged ambient events
void amb_event(const char* what, const char* detail);
unsigned fenv_control();
extern unsigned fenv_expected;

uint64_t splitmix(uint64_t* s);

struct Stats { uint64_t switches, allocs, alloc_faults, accesses, atomics, locks, blocks, clock_reads, rand_draws, stalls, races, fairness; };
extern Stats st;
extern uint64_t edges_seen;
void finish_log();
void core_reset();                       // after main() starts: the library's statics exist, nothing is running
void die_signal(int sig);
void set_edge_map(unsigned char* m);
uint32_t edge_count();
[[noreturn]] void die_now(const char* line);
int current_opid();

// ambient.cpp
void ambient_init();                     // fds 1 and 2 become memory files
void ambient_randomise(uint64_t seed);   // a legal but unusual process environment
unsigned long long ambient_snapshot(char* detail, size_t n);   // hash of process-wide settings
void ambient_check_streams();            // logs an event if anything was written to fd 1 or 2
}
