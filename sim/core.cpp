#include "core.h"
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <algorithm>
#include <errno.h>
#include <unistd.h>
#include <time.h>
#include <fenv.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <linux/futex.h>
#include <xmmintrin.h>
#include <link.h>

extern "C" {
void* __real_malloc(size_t);
void __real_free(void*);
void* __real_calloc(size_t, size_t);
void* __real_realloc(void*, size_t);
extern char __data_start, _end, __start_simclient, __stop_simclient, __start_simclientb, __stop_simclientb;
}

namespace sim {
Config cfg;
Stats st;
int amb_events, watch_on, stall_blocked;
unsigned fenv_expected;
uint64_t edges_seen;
void (*mid_check)();

// g_in: allocator and interposers act for the library; g_hook: accesses and edges are scheduling points.
static int g_in = 1, g_hook = 0;          // allocations before main() (the library's statics) live in the arena too
static uint64_t g_total, g_timejump, g_ilv = 1469598103934665603ull;
static bool g_mt;

uint64_t splitmix(uint64_t* s)
{
	uint64_t z = (*s += 0x9E3779B97F4A7C15ull);
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
	z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
	return z ^ (z >> 31);
}

// ================================================================================ log
static char* L_buf; static size_t L_cap; static volatile size_t* L_len;
void log_init(char* b, size_t c, size_t* l) { L_buf = b; L_cap = c; L_len = l; *l = 0; }
static bool L_full;
static bool log_roomy() { return L_buf && *L_len < L_cap / 2; }      // switches beyond that are taken but not written down
void log_raw(const char* s, size_t n)
{
	if (!L_buf || L_full) return;
	if (*L_len + n >= L_cap - 64) { if (!L_full) { L_full = true; static const char m[] = "\nLOGFULL\n"; memcpy(L_buf + *L_len, m, sizeof m - 1); *L_len += sizeof m - 1; L_cap = 0; } return; }
	memcpy(L_buf + *L_len, s, n); *L_len += n;
}
void logf(const char* fmt, ...)
{
	int in = g_in, hk = g_hook; g_in = g_hook = 0;
	char tmp[1500]; va_list ap; va_start(ap, fmt); int n = vsnprintf(tmp, sizeof tmp, fmt, ap); va_end(ap);
	if (n > (int)sizeof tmp - 1) n = sizeof tmp - 1;
	log_raw(tmp, n); log_raw("\n", 1);
	g_in = in; g_hook = hk;
}
static void final_stats();
[[noreturn]] static void die(int code) { final_stats(); syscall(SYS_exit_group, code); __builtin_unreachable(); }
void run_abort(const char* fmt, ...)
{
	g_in = g_hook = 0;
	char tmp[1500]; va_list ap; va_start(ap, fmt); int n = vsnprintf(tmp, sizeof tmp, fmt, ap); va_end(ap);
	if (n > (int)sizeof tmp - 1) n = sizeof tmp - 1;
	log_raw(tmp, n); log_raw("\n", 1);
	die(0);
}

// ================================================================================ threads
enum State { READY, BLOCKED, TIMED, PAUSED, GSTALL, DONE };
typedef uint32_t VC[MAXT];
struct Thr {
	pthread_t pt; int fut; int state; uintptr_t wait_on; bool timed_out; int next_opid;
	VC vc, relf, acqp; OpCtl* op; uint64_t next_event; uint64_t since; int yields; int hook, in; void (*fn)(int);
	uintptr_t pw_addr; unsigned pw_size; unsigned char pw_old[64];
};
static Thr T[MAXT];
static int g_cur = 0;
static OpCtl g_idle;
int cur_thread() { return g_cur; }
OpCtl* cur_op() { return T[g_cur].op; }
uint64_t total_steps() { return g_total; }
void note_interleaving(uint64_t v) { g_ilv = (g_ilv ^ v) * 1099511628211ull; }

static void fwait(int* f) { while (!__atomic_load_n(f, __ATOMIC_ACQUIRE)) syscall(SYS_futex, f, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0); __atomic_store_n(f, 0, __ATOMIC_RELAXED); }
static void fwake(int* f) { __atomic_store_n(f, 1, __ATOMIC_RELEASE); syscall(SYS_futex, f, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0); }

enum { MAXSW = 512 };
static SwPoint SW[MAXSW]; static int nSW;
void add_switch(const SwPoint& p) { if (nSW < MAXSW) SW[nSW++] = p; }
struct AF { int opid; AllocFault f; };
static AF AFS[64]; static int nAF;
void add_access_fault(int opid, AllocFault f) { if (nAF < 64) { AFS[nAF].opid = opid; AFS[nAF].f = f; ++nAF; } }

static const uint64_t FAIR = 60000;
static uint64_t g_progress;      // number of steps when a call last began or ended
static void recalc()
{
	Thr& t = T[g_cur]; OpCtl* o = t.op;
	uint64_t ne = o->budget + o->waited;
	for (int i = 0; i < nSW; ++i) if (!SW[i].used && SW[i].opid == o->opid && SW[i].step > o->step && SW[i].step < ne) ne = SW[i].step;
	if (g_mt)
	{
		uint64_t f = o->step + (t.since < FAIR ? FAIR - t.since : 1); if (f < ne) ne = f;
		if (cfg.quantum)
		{
			uint64_t q = o->step + 1 + splitmix(&cfg.quantum_seed) % (2 * cfg.quantum); if (q < ne) ne = q;
		}
	}
	t.next_event = ne;
}

static void switch_to(int n)
{
	Thr& me = T[g_cur];
	if (n == g_cur) return;
	me.hook = g_hook; me.in = g_in;
	int self = g_cur;
	note_interleaving(((uint64_t)self << 56) ^ ((uint64_t)n << 48) ^ ((uint64_t)me.op->opid << 32) ^ me.op->step);
	++st.switches;
	g_cur = n; g_hook = T[n].hook; g_in = T[n].in; T[n].since = 0; me.since = 0;
	fwake(&T[n].fut);
	if (me.state == DONE) return;
	fwait(&me.fut);
}

static int pick(bool include_self)
{
	if (cfg.seq)
	{
		int best = -1;
		for (int t = 1; t <= cfg.nthreads; ++t) if (T[t].state == READY && (include_self || t != g_cur) && (best < 0 || T[t].next_opid < T[best].next_opid)) best = t;
		if (best > 0) return best;
	}
	else for (int i = 0; i < MAXT; ++i)
	{
		int t = cfg.order[i];
		if (t >= 1 && t <= cfg.nthreads && T[t].state == READY && (include_self || t != g_cur)) return t;
	}
	return -1;
}
static void describe_blocked()
{
	char b[300]; int n = 0;
	for (int t = 1; t <= cfg.nthreads; ++t) n += snprintf(b + n, sizeof b - n, " t%d=%s/op%d", t, T[t].state == BLOCKED ? "blocked" : T[t].state == DONE ? "done" : T[t].state == GSTALL ? "stalled" : "other", T[t].op->opid);
	run_abort("DEADLOCK%s", b);
}
// the current thread cannot go on: choose somebody; returns when the current thread has been resumed
static void pass_on()
{
	for (;;)
	{
		int n = pick(false);
		if (n > 0) { switch_to(n); return; }
		if (T[g_cur].state == READY) return;
		bool any = false;
		for (int t = 1; t <= cfg.nthreads && !any; ++t) if (T[t].state == PAUSED) { T[t].state = READY; any = true; }
		if (any) { if (T[g_cur].state == READY) return; continue; }
		for (int t = 1; t <= cfg.nthreads && !any; ++t) if (T[t].state == TIMED) { T[t].state = READY; T[t].timed_out = true; g_timejump += 1000000000ull; any = true; }
		if (any) { if (T[g_cur].state == READY) return; continue; }
		for (int t = 1; t <= cfg.nthreads && !any; ++t) if (T[t].state == GSTALL)
		{
			for (int u = 1; u <= cfg.nthreads; ++u) if (T[u].state == BLOCKED) { stall_blocked = 1; logf("STALLBLOCK stalled=t%d waiting=t%d op%d", t, u, T[u].op->opid); }
			T[t].state = READY; any = true;
		}
		if (any) { if (T[g_cur].state == READY) return; continue; }
		bool all = true;
		for (int t = 1; t <= cfg.nthreads; ++t) if (T[t].state != DONE) all = false;
		if (all) { switch_to(0); return; }
		describe_blocked();
	}
}

static void pending_write_check();
static __attribute__((noinline)) void slow_step()
{
	Thr& t = T[g_cur]; OpCtl* o = t.op;
	int in = g_in, hk = g_hook; g_in = g_hook = 0;
	if (o->step >= o->budget + o->waited) run_abort("STEP_LIMIT op=%d steps=%llu", o->opid, (unsigned long long)o->step);
	bool did = false;
	for (int i = 0; i < nSW; ++i) if (!SW[i].used && SW[i].opid == o->opid && SW[i].step == o->step)
	{
		SW[i].used = true;
		if (!g_mt) continue;
		if (SW[i].kind == SW_STALL)
		{
			++st.stalls; ++o->faults; logf("FIRED stall op=%d step=%llu", o->opid, (unsigned long long)o->step);
			t.state = PAUSED; g_in = in; g_hook = hk; pass_on(); in = g_in; hk = g_hook; g_in = g_hook = 0; did = true; break;
		}
		int n = SW[i].next;
		if (n >= 1 && n <= cfg.nthreads && T[n].state == READY && n != g_cur) { if (log_roomy()) logf("SWITCHED op=%d step=%llu to=%d", o->opid, (unsigned long long)o->step, n); g_in = in; g_hook = hk; switch_to(n); in = g_in; hk = g_hook; g_in = g_hook = 0; did = true; break; }
	}
	if (g_mt && g_total - g_progress > 4 * FAIR)      // callers that wait for one another in turns: whoever is held up goes on
	{
		g_progress = g_total; int n = 0; for (int u = 1; u <= cfg.nthreads; ++u) { if (T[u].state == PAUSED) T[u].state = READY; if (u != g_cur && T[u].state == READY) ++n; }
		if (n && T[g_cur].op->waited < 40 * FAIR) { ++st.fairness; for (int u = 1; u <= cfg.nthreads; ++u) if (T[u].op != &g_idle) T[u].op->waited += std::min(4 * FAIR, T[u].op->step - T[u].op->waited); }
	}
	if (g_mt && !did)
	{
		t.since += 1;
		if (cfg.quantum)
		{
			int n = 1 + splitmix(&cfg.quantum_seed) % cfg.nthreads;
			if (n != g_cur && T[n].state == READY) { if (log_roomy()) logf("SWITCHED op=%d step=%llu to=%d", o->opid, (unsigned long long)o->step, n); g_in = in; g_hook = hk; switch_to(n); in = g_in; hk = g_hook; g_in = g_hook = 0; did = true; }
		}
	}
	g_in = in; g_hook = hk;
	recalc();
}
// with calls one after the other (seq) only a thread in the middle of a call may go on while another call runs
static bool may_go_now(int n) { return !cfg.seq || T[n].op != &g_idle; }
// fairness: a thread that has run long while others are ready (a spin loop waiting for them) is preempted
static __attribute__((noinline)) void fair_switch()
{
	int in = g_in, hk = g_hook; 
	for (int k = 1; k <= cfg.nthreads; ++k)
	{
		int n = (g_cur - 1 + k) % cfg.nthreads + 1;
		if (n != g_cur && T[n].state == PAUSED) T[n].state = READY;
		if (n != g_cur && T[n].state == READY && may_go_now(n)) { ++st.fairness; OpCtl* o = T[g_cur].op; if (o != &g_idle && o->waited < 40 * FAIR) o->waited += std::min(FAIR, o->step - o->waited); g_in = in; g_hook = hk; switch_to(n); break; }
	}
	T[g_cur].since = 0;
	recalc();
}

static inline void step()
{
	Thr& t = T[g_cur];
	++g_total;
	if (__builtin_expect(t.pw_size != 0, 0)) pending_write_check();
	uint64_t s = ++t.op->step;
	if (__builtin_expect(g_mt, 0) && ++t.since > FAIR) fair_switch();
	if (__builtin_expect(s >= t.next_event, 0)) slow_step();
}

bool inside() { return g_in != 0; }
void enter() { g_in = 1; g_hook = cfg.hooks ? 1 : 0; }
void leave() { if (T[g_cur].pw_size) pending_write_check(); g_in = 0; g_hook = 0; }
Pause::Pause() : was(g_in) { if (T[g_cur].pw_size) pending_write_check(); g_in = g_hook = 0; }
Pause::~Pause() { if (was) enter(); }
Quiet::Quiet() : was(g_in) { g_in = g_hook = 0; }
Quiet::~Quiet() { if (was) enter(); }

void op_begin(OpCtl* c)
{
	Thr& t = T[g_cur];
	c->outer = t.op == &g_idle ? nullptr : t.op;
	if (!c->budget) c->budget = 4000000;
	t.op = c; t.yields = 0; g_progress = g_total;
	for (int i = 0; i < nAF; ++i) if (AFS[i].opid == c->opid) c->af = AFS[i].f;
	int in = g_in, hk = g_hook; g_in = g_hook = 0;
	for (int i = 0; i < nSW; ++i) if (!SW[i].used && SW[i].opid == c->opid && SW[i].step == 0 && g_mt)
	{
		SW[i].used = true;
		if (SW[i].kind == SW_STALL) { ++st.stalls; logf("FIRED stall op=%d step=0", c->opid); t.state = PAUSED; pass_on(); }
		else { int n = SW[i].next; if (n >= 1 && n <= cfg.nthreads && n != g_cur && T[n].state == READY) { if (log_roomy()) logf("SWITCHED op=%d step=0 to=%d", c->opid, n); switch_to(n); } }
	}
	g_in = in; g_hook = hk;
	recalc();
}
void op_end(OpCtl* c)
{
	Thr& t = T[g_cur];
	t.op = c->outer ? c->outer : &g_idle; t.yields = 0; g_progress = g_total;
	recalc();
}
void op_boundary(int next_opid)
{
	T[g_cur].next_opid = next_opid < 0 ? 0x7fffffff : next_opid;
	if (cfg.seq && g_mt) { int n = pick(true); if (n > 0 && n != g_cur) switch_to(n); }
}
void gamma_stall()
{
	if (!g_mt) return;
	++st.stalls;
	T[g_cur].state = GSTALL; pass_on();
}

struct StackMem { char* base; size_t size; };
static const size_t STK = 1 << 20;
static char* const STK_BASE = (char*)0x200000000000ull;
// Destructors of the library's thread_local objects run as part of the simulated thread.
struct TlsDtor { void (*fn)(void*); void* obj; };
static TlsDtor g_tls[MAXT][256]; static int g_ntls[MAXT];
static void run_tls_dtors(int id)
{
	while (g_ntls[id] > 0) { TlsDtor d = g_tls[id][--g_ntls[id]]; enter(); d.fn(d.obj); leave(); }
}
static void* thr_main(void* a)
{
	int id = (int)(intptr_t)a;
	fwait(&T[id].fut);
	stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = STK_BASE + (size_t)(8 + id) * 2 * STK; ss.ss_size = 65536; sigaltstack(&ss, 0);
	T[id].fn(id);
	run_tls_dtors(id);
	g_in = g_hook = 0;
	T[id].state = DONE;
	pass_on();
	return 0;
}
extern "C" int __real_pthread_create(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
void run_threads(void (*fn)(int))
{
	g_in = g_hook = 0;
	for (int t = 1; t <= cfg.nthreads; ++t)
	{
		T[t].state = READY; T[t].fn = fn; T[t].op = &g_idle; T[t].fut = 0; T[t].hook = T[t].in = 0; T[t].next_opid = 0;
		for (int u = 0; u < MAXT; ++u) T[t].vc[u] = T[0].vc[u];
		T[t].vc[t] = 1;
		pthread_attr_t at; pthread_attr_init(&at);
		pthread_attr_setstack(&at, STK_BASE + (size_t)t * 2 * STK, STK);
		if (__real_pthread_create(&T[t].pt, &at, thr_main, (void*)(intptr_t)t)) run_abort("HARNESS pthread_create failed");
		pthread_attr_destroy(&at);
	}
	g_mt = cfg.nthreads > 1;
	T[0].state = BLOCKED; T[0].op = &g_idle;
	int first = pick(false); if (first < 0) first = 1;
	switch_to(first);
	for (int t = 1; t <= cfg.nthreads; ++t) pthread_join(T[t].pt, 0);
	g_mt = false; g_cur = 0; T[0].state = READY; g_in = g_hook = 0;
}

void __attribute__((noinline)) scribble_stack()
{
	volatile unsigned char b[24000];
	uint64_t s = cfg.garbage_seed * 77 + 5;
	if (cfg.garbage == GARB_ZERO) memset((void*)b, 0, sizeof b);
	else if (cfg.garbage == GARB_ONES) memset((void*)b, 0xff, sizeof b);
	else { uint64_t* p = (uint64_t*)b; for (size_t i = 0; i < sizeof b / 8; ++i) p[i] = splitmix(&s); }
	asm volatile("" ::: "memory");
}

// ================================================================================ arena
struct Block { uintptr_t addr; uint32_t size, cap; int32_t next, prev; int32_t tag, optag; uint8_t live, watch; };
static char* const A_BASE = (char*)0x100000000000ull;
static const size_t A_SIZE = 512ull << 20;
static uint32_t* const A_MAP = (uint32_t*)0x110000000000ull;           // per 16 bytes: block number or 0
static Block* const A_BLK = (Block*)0x120000000000ull;
static const size_t A_MAXBLK = 8 << 20;
static const size_t SH_BYTES = 64ull << 20;                             // first part of the arena has race shadow
static bool a_ready; static size_t a_top; static uint32_t a_nblk; static uint64_t a_live;
static const int NCLS = 520;
static int32_t a_head[NCLS], a_tail[NCLS]; static uint32_t a_cnt[NCLS];
static int a_tag; static uint64_t a_garb, a_rseed;

static void* map_at(void* at, size_t n)
{
	void* p = mmap(at, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
	if (p != at) { const char m[] = "sim: cannot map arena\n"; syscall(SYS_write, 2, m, sizeof m - 1); syscall(SYS_exit_group, 9); }
	return p;
}
struct Cell { uint32_t clk[4][4]; uint8_t mask[4][4]; uint16_t op[4][4]; };       // [kind][thread-1]; kinds: plain read, plain write, atomic read, atomic write
static Cell* const S_ARENA = (Cell*)0x130000000000ull;
static Cell* const S_DATA = (Cell*)0x140000000000ull;
void arena_init()
{
	if (a_ready) return;
	a_ready = true;
	map_at(A_BASE, A_SIZE); map_at(A_MAP, A_SIZE / 16 * 4); map_at(A_BLK, A_MAXBLK * sizeof(Block));
	map_at(S_ARENA, SH_BYTES / 8 * sizeof(Cell)); map_at(S_DATA, ((&_end - &__data_start) / 8 + 16) * sizeof(Cell));
	map_at(STK_BASE, STK * 2 * 16);
	for (int i = 0; i < NCLS; ++i) a_head[i] = a_tail[i] = -1;
	a_top = 64; a_nblk = 1; a_garb = 1;
}
void arena_configure() { a_garb = cfg.garbage_seed; a_rseed = cfg.reuse_seed; a_top += (size_t)cfg.shift * 16; }
bool in_arena(const void* p) { return (size_t)((const char*)p - A_BASE) < A_SIZE; }
uint64_t arena_live_bytes() { return a_live; }
void arena_set_tag(int t) { a_tag = t; }
static int cls_of(size_t cap) { size_t c = cap / 16; if (c < 512) return (int)c; int l = 63 - __builtin_clzll(c); return 512 + (l > 16 ? 7 : (l - 9 < 0 ? 0 : l - 9 > 7 ? 7 : l - 9)); }

static void fill(void* p, size_t n)
{
	switch (cfg.garbage)
	{
	case GARB_ZERO: memset(p, 0, n); break;
	case GARB_ONES: memset(p, 0xff, n); break;
	case GARB_RANDOM: { unsigned char* c = (unsigned char*)p; size_t i = 0; for (; i + 8 <= n; i += 8) { uint64_t v = splitmix(&a_garb); memcpy(c + i, &v, 8); } uint64_t v = splitmix(&a_garb); for (; i < n; ++i) { c[i] = (unsigned char)v; v >>= 8; } break; }
	case GARB_STALE: break;
	}
}
static void unlink_blk(int c, int32_t b)
{
	Block& k = A_BLK[b];
	if (k.prev >= 0) A_BLK[k.prev].next = k.next; else a_head[c] = k.next;
	if (k.next >= 0) A_BLK[k.next].prev = k.prev; else a_tail[c] = k.prev;
	--a_cnt[c];
}
static void shadow_clear(uintptr_t a, size_t n);

static void* arena_alloc(size_t n, size_t align = 16)
{
	if (!a_ready) arena_init();
	size_t cap = (n + 15) & ~(size_t)15; if (!cap) cap = 16;
	size_t need = cap + (align > 16 ? align : 0);
	int c = cls_of(need);
	int32_t b = -1;
	if (cfg.reuse != REUSE_NONE || a_top > A_SIZE / 2)
	{
		if (c < 512)
		{
			if (a_head[c] >= 0)
			{
				if (cfg.reuse == REUSE_FIFO) b = a_tail[c];
				else if (cfg.reuse == REUSE_RANDOM) { uint32_t k = splitmix(&a_rseed) % a_cnt[c]; b = a_head[c]; for (uint32_t i = 0; i < k && i < 64; ++i) if (A_BLK[b].next >= 0) b = A_BLK[b].next; if (splitmix(&a_rseed) % 4 == 0 && a_top < A_SIZE / 2) b = -1; }
				else b = a_head[c];
			}
		}
		else for (int32_t k = a_head[c], i = 0; k >= 0 && i < 200; k = A_BLK[k].next, ++i) if (A_BLK[k].cap == need) { b = k; break; }
		if (b >= 0) unlink_blk(c, b);
	}
	if (b < 0)
	{
		if (a_top + need + 32 > A_SIZE || a_nblk + 1 >= A_MAXBLK) { g_in = g_hook = 0; run_abort("ARENA_FULL"); }
		a_top += 16;                                   // red zone
		b = (int32_t)a_nblk++;
		A_BLK[b].addr = (uintptr_t)A_BASE + a_top; A_BLK[b].cap = (uint32_t)need;
		for (size_t i = 0; i < need / 16; ++i) A_MAP[a_top / 16 + i] = b;
		a_top += need;
	}
	Block& k = A_BLK[b];
	uintptr_t u = (k.addr + (align - 1)) & ~(uintptr_t)(align - 1);
	k.size = (uint32_t)(n + (u - k.addr)); k.live = 1; k.watch = 0; k.tag = a_tag; k.optag = T[g_cur].op ? T[g_cur].op->opid : 0; k.next = k.prev = -1;
	a_live += k.size;
	if (g_mt) shadow_clear(k.addr, need);
	fill((void*)k.addr, k.size);
	return (void*)u;
}
static void access(uintptr_t a, size_t n, int kind);
static void arena_free(void* p)
{
	uint32_t b = A_MAP[((char*)p - A_BASE) / 16];
	if (!b || !A_BLK[b].live || (A_BLK[b].addr != (uintptr_t)p && A_BLK[b].size > 4096 + 64) || (uintptr_t)p < A_BLK[b].addr)
		run_abort("MEM kind=%s op=%d", !b ? "invalid-free" : !A_BLK[b].live ? "double-free" : "invalid-free", T[g_cur].op ? T[g_cur].op->opid : 0);
	Block& k = A_BLK[b];
	if (g_hook && cfg.races && g_mt) access(k.addr, k.size > 256 ? 256 : k.size, 1);
	k.live = 0; a_live -= k.size;
	if (cfg.garbage != GARB_STALE) memset((void*)k.addr, 0xdd, k.size);
	int c = cls_of(k.cap);
	k.prev = -1; k.next = a_head[c]; if (a_head[c] >= 0) A_BLK[a_head[c]].prev = b; else a_tail[c] = b; a_head[c] = b; ++a_cnt[c];
}
bool arena_block(const void* p, BlockInfo* o)
{
	if (!in_arena(p)) return false;
	uint32_t b = A_MAP[((const char*)p - A_BASE) / 16]; if (!b) return false;
	Block& k = A_BLK[b]; o->addr = k.addr; o->size = k.size; o->live = k.live; o->tag = k.tag; o->optag = k.optag; return true;
}
static uint32_t watched[4096]; static int nwatched;
void arena_set_watch(const void* p, bool on)
{
	if (!in_arena(p)) return;
	uint32_t b = A_MAP[((const char*)p - A_BASE) / 16]; if (!b) return;
	if (on && !A_BLK[b].watch && nwatched < 4096) { watched[nwatched++] = b; A_BLK[b].watch = 1; }
}
void arena_watch_tag(int tag)
{
	for (uint32_t b = 1; b < a_nblk; ++b) if (A_BLK[b].live && A_BLK[b].tag == tag && !A_BLK[b].watch && nwatched < 4096) { watched[nwatched++] = b; A_BLK[b].watch = 1; }
}
int arena_tag() { return a_tag; }
void arena_clear_watch() { for (int i = 0; i < nwatched; ++i) A_BLK[watched[i]].watch = 0; nwatched = 0; }

// one allocation by the library: a scheduling point and a fault point
static void* sut_alloc(size_t n, size_t align = 16)
{
	OpCtl* o = T[g_cur].op;
	if (o)
	{
		if (g_hook) step();
		++st.allocs;
		++o->allocs;
		AllocFault& f = o->af;
		if (f.len && n >= f.minsize)
		{
			int idx = o->allocs;
			if (idx >= f.nth && idx < f.nth + f.len)
			{
				++f.fired; ++o->faults; ++st.alloc_faults;
				if (log_roomy()) logf("FIRED alloc op=%d index=%d size=%zu", o->opid, idx, n);
				errno = ENOMEM; return nullptr;
			}
		}
	}
	if (n > (64u << 20)) { errno = ENOMEM; return nullptr; }
	return arena_alloc(n, align);
}

// ================================================================================ memory accesses
static inline Cell* cell(uintptr_t a)
{
	size_t o = a - (uintptr_t)A_BASE;
	if (o < SH_BYTES) return &S_ARENA[o / 8];
	o = a - ((uintptr_t)&__data_start & ~7ull);
	if (o < (size_t)(&_end - &__data_start)) return &S_DATA[o / 8];
	return nullptr;
}
static void shadow_clear(uintptr_t a, size_t n)
{
	size_t o = a - (uintptr_t)A_BASE;
	if (!cfg.races || o >= SH_BYTES) return;
	if (n > SH_BYTES - o) n = SH_BYTES - o;
	memset(&S_ARENA[o / 8], 0, ((n + 7) / 8) * sizeof(Cell));
}
struct SigRace { uintptr_t a; int o1, o2; };
static SigRace races_seen[16]; static int nraces;
static const char* kname[] = {"read", "write", "atomic-read", "atomic-write"};
static __attribute__((noinline)) void report_race(uintptr_t a, int k1, int op1, int t1, int k2)
{
	int op2 = T[g_cur].op->opid;
	for (int i = 0; i < nraces; ++i) if ((races_seen[i].o1 == op1 && races_seen[i].o2 == op2) || (races_seen[i].o1 == op2 && races_seen[i].o2 == op1)) return;
	if (nraces >= 16) return;
	races_seen[nraces].a = a; races_seen[nraces].o1 = op1; races_seen[nraces].o2 = op2; ++nraces;
	++st.races;
	BlockInfo bi; 
	if (arena_block((void*)a, &bi)) logf("RACE op=%d t%d %s / op=%d t%d %s of heap block tag=%d offset=%zu", op1, t1, kname[k1], op2, g_cur, kname[k2], bi.tag, (size_t)(a - bi.addr));
	else logf("RACE op=%d t%d %s / op=%d t%d %s of global memory 0x%zx", op1, t1, kname[k1], op2, g_cur, kname[k2], (size_t)a);
}
// probing: remember steps at which shared state is touched
struct Int { uint64_t step; };
enum { IK_WRITE, IK_SYNC, IK_READ, IK_TLS, IK_DATA, NIK };
static size_t g_tls_size;      // static thread-local storage below the thread pointer
static int find_tls(struct dl_phdr_info* i, size_t, void*) { for (int k = 0; k < i->dlpi_phnum; ++k) if (i->dlpi_phdr[k].p_type == PT_TLS) g_tls_size = (i->dlpi_phdr[k].p_memsz + 63) & ~63ull; return 1; }      // the program itself comes first
static void note_interesting(int kind);
const void* classic_locale;      // its reference count is not worth a look

static void access(uintptr_t a, size_t n, int kind)
{
	++st.accesses;
	bool arena = (size_t)(a - (uintptr_t)A_BASE) < A_SIZE;
	bool data = !arena && a >= (uintptr_t)&__data_start && a < (uintptr_t)&_end;
	if (data && ((a >= (uintptr_t)&__start_simclient && a < (uintptr_t)&__stop_simclient) || (a >= (uintptr_t)&__start_simclientb && a < (uintptr_t)&__stop_simclientb))) return;
	if (!arena && !data) { if (cfg.probe && (kind & 1) && a < (uintptr_t)__builtin_thread_pointer() && a >= (uintptr_t)__builtin_thread_pointer() - g_tls_size) note_interesting(IK_TLS); return; }
	if (arena)
	{
		uint32_t b = A_MAP[(a - (uintptr_t)A_BASE) / 16];
		if (!b || !A_BLK[b].live || a + n > A_BLK[b].addr + A_BLK[b].size || a < A_BLK[b].addr)
			run_abort("MEM kind=%s access=%s size=%zu op=%d", !b ? "out-of-bounds" : !A_BLK[b].live ? "use-after-free" : "out-of-bounds", kname[kind], n, T[g_cur].op->opid);
		if ((kind & 1) && A_BLK[b].watch && watch_on)
		{
			Thr& t = T[g_cur];
			t.pw_addr = a; t.pw_size = n > 64 ? 64 : (unsigned)n; memcpy(t.pw_old, (void*)a, t.pw_size);
			if (n > 64) t.pw_old[0] ^= 0;     // long writes: only their first bytes are compared
		}
		if (cfg.probe && A_BLK[b].optag != T[g_cur].op->opid) note_interesting(kind >= 2 ? IK_SYNC : kind == 1 ? IK_WRITE : IK_READ);
	}
	else if (cfg.probe && a - (uintptr_t)classic_locale >= 16) { note_interesting(kind >= 2 ? IK_SYNC : kind == 1 ? IK_WRITE : IK_READ); if (kind == 1) note_interesting(IK_DATA); }
	if (!cfg.races || !g_mt || g_cur == 0) return;
	static const uint8_t conflict[4] = {0b1010, 0b1111, 0b0010, 0b0011};   // kinds that conflict with kind
	Thr& t = T[g_cur]; int me = g_cur - 1; uint32_t clk = t.vc[g_cur];
	uintptr_t end = a + n;
	if (n > 4096) end = a + 4096;
	for (uintptr_t g = a & ~7ull; g < end; g += 8)
	{
		Cell* c = cell(g); if (!c) continue;
		uint8_t m = 0xff;
		if (g < a) m &= (uint8_t)(0xff << (a - g));
		if (g + 8 > end) m &= (uint8_t)(0xff >> (g + 8 - end));
		for (int k = 0; k < 4; ++k) if (conflict[kind] >> k & 1)
			for (int u = 0; u < cfg.nthreads; ++u) if (u != me && (c->mask[k][u] & m) && c->clk[k][u] > t.vc[u + 1]) report_race(g, k, c->op[k][u], u + 1, kind);
		if (c->clk[kind][me] == clk) c->mask[kind][me] |= m; else { c->clk[kind][me] = clk; c->mask[kind][me] = m; }
		c->op[kind][me] = (uint16_t)t.op->opid;
	}
}
static void pending_write_check()
{
	Thr& t = T[g_cur];
	bool changed = memcmp((void*)t.pw_addr, t.pw_old, t.pw_size) != 0;
	t.pw_size = 0;
	if (changed && mid_check && watch_on) { int in = g_in, hk = g_hook; g_in = g_hook = 0; mid_check(); g_in = in; g_hook = hk; }
}
struct IntLog { int opid; int n[NIK]; uint64_t s[NIK][48]; };
static IntLog IL[64]; static int nIL;
static void note_interesting(int kind)
{
	OpCtl* o = T[g_cur].op;
	IntLog* l = nullptr;
	for (int i = nIL - 1; i >= 0; --i) if (IL[i].opid == o->opid) { l = &IL[i]; break; }
	if (!l) { if (nIL == 64) return; l = &IL[nIL++]; l->opid = o->opid; for (int k = 0; k < NIK; ++k) l->n[k] = 0; }
	int i = l->n[kind]++;
	if (i < 48) l->s[kind][i] = o->step;
	else { uint64_t h = o->step * 0x9E3779B97F4A7C15ull; h ^= h >> 29; int j = (int)(h % (unsigned)(i + 1)); if (j < 48) l->s[kind][j] = o->step; }
}

// ================================================================================ synchronisation
struct Sync { uintptr_t a; VC vc; };
static Sync SY[2048];
static Sync* sync_of(uintptr_t a, bool make)
{
	size_t h = (a >> 2) * 0x9E3779B97F4A7C15ull >> 53;
	for (int i = 0; i < 2048; ++i) { Sync& s = SY[(h + i) & 2047]; if (s.a == a) return &s; if (!s.a) { if (!make) return nullptr; s.a = a; return &s; } }
	return nullptr;
}
static void vjoin(VC& d, const VC& s) { for (int i = 0; i < MAXT; ++i) if (s[i] > d[i]) d[i] = s[i]; }
static void acquire(uintptr_t a) { Sync* s = sync_of(a, false); if (s) vjoin(T[g_cur].vc, s->vc); }
static void release(uintptr_t a, bool join) { Thr& t = T[g_cur]; Sync* s = sync_of(a, true); if (!s) return; if (join) vjoin(s->vc, t.vc); else memcpy(s->vc, t.vc, sizeof(VC)); ++t.vc[g_cur]; }
static void atomic_pre(uintptr_t a, unsigned n, bool w, bool acq)
{
	step(); ++st.atomics;
	access(a, n, w ? 3 : 2);
	if (acq) acquire(a); else { Sync* s = sync_of(a, false); if (s) vjoin(T[g_cur].acqp, s->vc); }
}
static void atomic_post(uintptr_t a, bool rel, bool rmw)
{
	Thr& t = T[g_cur];
	if (rel) release(a, rmw);
	else { Sync* s = sync_of(a, false); if (!s) { bool any = false; for (int i = 0; i < MAXT; ++i) if (t.relf[i]) any = true; if (!any) return; s = sync_of(a, true); if (!s) return; } if (rmw) vjoin(s->vc, t.relf); else memcpy(s->vc, t.relf, sizeof(VC)); }
}

struct Mx { uintptr_t a; int owner; int count; int readers; uint8_t rd[MAXT]; };
static Mx MX[256]; static int nMX;
static Mx* mx_of(const void* p)
{
	for (int i = 0; i < nMX; ++i) if (MX[i].a == (uintptr_t)p) return &MX[i];
	for (int i = 0; i < nMX; ++i) if (MX[i].owner < 0 && !MX[i].readers) { MX[i].a = (uintptr_t)p; MX[i].count = 0; return &MX[i]; }
	if (nMX == 256) run_abort("HARNESS too many mutexes");
	Mx& m = MX[nMX++]; m.a = (uintptr_t)p; m.owner = -1; m.count = 0; m.readers = 0; return &m;
}
static void wake(uintptr_t a, int max) { for (int t = 1; t <= cfg.nthreads && max > 0; ++t) if ((T[t].state == BLOCKED || T[t].state == TIMED) && T[t].wait_on == a) { T[t].state = READY; --max; } }
static void block_on(uintptr_t a, bool timed = false)
{
	Thr& t = T[g_cur]; ++st.blocks;
	if (!g_mt && !timed) run_abort("DEADLOCK t%d waits for itself in op%d", g_cur, t.op->opid);
	t.wait_on = a; t.timed_out = false; t.state = timed ? TIMED : BLOCKED;
	if (!g_mt) { t.state = READY; t.timed_out = true; return; }
	pass_on();
}
struct HookOff { int in, hk; explicit HookOff(bool note = true) : in(g_in), hk(g_hook) { if (hk) step(); in = g_in; hk = g_hook; if (cfg.probe && hk && note) note_interesting(IK_SYNC); g_hook = 0; } ~HookOff() { g_hook = hk; } };

static int mx_lock(void* p, bool recursive, bool errcheck, int mode /*0 lock 1 try 2 timed*/)
{
	HookOff off; ++st.locks;
	Mx* m = mx_of(p);
	if (m->owner == g_cur)
	{
		if (recursive) { ++m->count; return 0; }
		if (errcheck) return EDEADLK;
	}
	while (m->owner >= 0 || m->readers)
	{
		if (mode == 1) return EBUSY;
		block_on((uintptr_t)p, mode == 2);
		m = mx_of(p);
		if (mode == 2 && T[g_cur].timed_out && (m->owner >= 0 || m->readers)) return ETIMEDOUT;
	}
	m->owner = g_cur; m->count = 1; acquire((uintptr_t)p);
	return 0;
}
static int mx_unlock(void* p)
{
	HookOff off;
	Mx* m = mx_of(p);
	if (m->owner == g_cur && --m->count > 0) return 0;
	release((uintptr_t)p, true);
	m->owner = -1; wake((uintptr_t)p, 99);
	return 0;
}

// ================================================================================ clock, randomness
uint64_t sim_time_ns() { return g_total + g_timejump; }
static uint64_t read_clock()
{
	++st.clock_reads;
	if (cfg.clock_mode == 0) return 1500000000ull * 1000000000ull + sim_time_ns();
	if (cfg.clock_mode == 1) { g_timejump += 1 + splitmix(&cfg.clock_seed) % 5000000000ull; return 1500000000ull * 1000000000ull + sim_time_ns(); }
	return (splitmix(&cfg.clock_seed) % 4000000000ull) * 1000000000ull + splitmix(&cfg.clock_seed) % 1000000000ull;   // jumps both ways
}
static int draw()
{
	OpCtl* o = T[g_cur].op; ++o->rands; ++st.rand_draws;
	switch (o->rkind)
	{
	case 0: return (int)(splitmix(&o->rstate) >> 33);
	case 1: return (int)(o->rparam & 0x7fffffff);
	case 2: return (o->rstate++ & 1) ? 0x7fffffff : 0;
	case 3: return (int)((o->rstate++ % (o->rparam ? o->rparam : 1)) * 13);
	case 4: { uint64_t i = o->rstate++; return (int)(o->rparam >> (i % 32) & 1 ? 0x7fffffff - 24 : 24); }
	}
	return 0;
}

// ================================================================================ ambient
void amb_event(const char* what, const char* detail)
{
	++amb_events;
	if (amb_events < 40) logf("AMB op=%d %s %s", T[g_cur].op ? T[g_cur].op->opid : 0, what, detail ? detail : "");
}
unsigned fenv_control() { unsigned short cw; __asm__ volatile("fnstcw %0" : "=m"(cw)); return (_mm_getcsr() & 0xffc0u) | ((unsigned)(cw & 0x0f3f) << 16); }

// ================================================================================ end
static void final_stats()
{
	g_in = g_hook = 0;
	for (int i = 0; i < nIL; ++i)
	{
		for (int k = 0; k < NIK; ++k) if (IL[i].n[k])
		{
			char b[1400]; int n = snprintf(b, sizeof b, "INT op=%d kind=%d n=%d :", IL[i].opid, k, IL[i].n[k]);
			for (int j = 0; j < IL[i].n[k] && j < 48; ++j) n += snprintf(b + n, sizeof b - n, " %llu", (unsigned long long)IL[i].s[k][j]);
			logf("%s", b);
		}
	}
	logf("STATS steps=%llu simns=%llu switches=%llu allocs=%llu allocfaults=%llu accesses=%llu atomics=%llu locks=%llu blocks=%llu clock=%llu rand=%llu stalls=%llu races=%llu fair=%llu ilv=%016llx",
		(unsigned long long)g_total, (unsigned long long)sim_time_ns(), (unsigned long long)st.switches, (unsigned long long)st.allocs, (unsigned long long)st.alloc_faults, (unsigned long long)st.accesses, (unsigned long long)st.atomics, (unsigned long long)st.locks,
		(unsigned long long)st.blocks, (unsigned long long)st.clock_reads, (unsigned long long)st.rand_draws, (unsigned long long)st.stalls, (unsigned long long)st.races, (unsigned long long)st.fairness, (unsigned long long)g_ilv);
}
void finish_log() { final_stats(); }
void core_reset() { if (!g_tls_size) dl_iterate_phdr(find_tls, nullptr); for (int i = 0; i < MAXT; ++i) { T[i].op = &g_idle; T[i].vc[i] = 1; T[i].next_event = ~0ull; } g_idle.budget = ~0ull; g_in = g_hook = 0; }
void die_signal(int sig)
{
	g_in = g_hook = 0;
	if (sig == SIGXCPU) run_abort("TIMEOUT op=%d", T[g_cur].op ? T[g_cur].op->opid : 0);
	run_abort("CRASH signal=%d op=%d", sig, T[g_cur].op ? T[g_cur].op->opid : 0);
}
void die_now(const char* line) { run_abort("%s op=%d", line, T[g_cur].op ? T[g_cur].op->opid : 0); }
int current_opid() { return T[g_cur].op ? T[g_cur].op->opid : 0; }

// ================================================================================ instrumentation callbacks
static unsigned char* edge_map; static uint32_t n_edges;
void set_edge_map(unsigned char* m) { edge_map = m; }
uint32_t edge_count() { return n_edges; }
} // namespace sim
using namespace sim;

extern "C" {
void __sanitizer_cov_trace_pc_guard_init(uint32_t* a, uint32_t* b) { if (a == b || *a) return; for (uint32_t* p = a; p < b; ++p) *p = ++n_edges; }
static inline void fenv_check() { if (__builtin_expect(cfg.fenv_watch, 0) && fenv_control() != fenv_expected) { amb_event("fenv", "floating-point control settings differ in mid-call"); cfg.fenv_watch = false; } }
void __sanitizer_cov_trace_pc_guard(uint32_t* g) { if (!g_hook) return; if (edge_map) edge_map[*g] = 1; step(); fenv_check(); }

void __tsan_init() {}
void __tsan_func_entry(void*) { if (!g_hook) return; step(); fenv_check(); }
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define RW(n) \
 void __tsan_read##n(void* a) { if (!g_hook) return; step(); access((uintptr_t)a, n, 0); } \
 void __tsan_write##n(void* a) { if (!g_hook) return; step(); access((uintptr_t)a, n, 1); } \
 void __tsan_unaligned_read##n(void* a) { if (!g_hook) return; step(); access((uintptr_t)a, n, 0); } \
 void __tsan_unaligned_write##n(void* a) { if (!g_hook) return; step(); access((uintptr_t)a, n, 1); } \
 void __tsan_read_write##n(void* a) { if (!g_hook) return; step(); access((uintptr_t)a, n, 1); } \
 void __tsan_unaligned_read_write##n(void* a) { if (!g_hook) return; step(); access((uintptr_t)a, n, 1); } \
 void __tsan_volatile_read##n(void* a) { if (!g_hook) return; step(); access((uintptr_t)a, n, 0); } \
 void __tsan_volatile_write##n(void* a) { if (!g_hook) return; step(); access((uintptr_t)a, n, 1); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void** a, void* v) { if (!g_hook) return; step(); if (*a != v) access((uintptr_t)a, 8, 1); else access((uintptr_t)a, 8, 0); }
void __tsan_vptr_read(void** a) { if (!g_hook) return; step(); access((uintptr_t)a, 8, 0); }
void __tsan_read_range(void* a, size_t n) { if (!g_hook || !n) return; step(); access((uintptr_t)a, n, 0); }
void __tsan_write_range(void* a, size_t n) { if (!g_hook || !n) return; step(); access((uintptr_t)a, n, 1); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { if (g_hook && n) { step(); access((uintptr_t)s, n, 0); access((uintptr_t)d, n, 1); } return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { if (g_hook && n) { step(); access((uintptr_t)s, n, 0); access((uintptr_t)d, n, 1); } return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { if (g_hook && n) { step(); access((uintptr_t)d, n, 1); } return memset(d, c, n); }

static inline bool isacq(int mo) { return mo != 0 && mo != 3; }
static inline bool isrel(int mo) { return mo >= 3; }
#define ATOM(N, T_) \
 T_ __tsan_atomic##N##_load(const volatile T_* a, int mo) { if (g_hook) atomic_pre((uintptr_t)a, N / 8, false, isacq(mo)); return __atomic_load_n(a, 5); } \
 void __tsan_atomic##N##_store(volatile T_* a, T_ v, int mo) { if (g_hook) { atomic_pre((uintptr_t)a, N / 8, true, false); atomic_post((uintptr_t)a, isrel(mo), false); } __atomic_store_n(a, v, 5); } \
 T_ __tsan_atomic##N##_exchange(volatile T_* a, T_ v, int mo) { if (g_hook) { atomic_pre((uintptr_t)a, N / 8, true, isacq(mo)); atomic_post((uintptr_t)a, isrel(mo), true); } return __atomic_exchange_n(a, v, 5); } \
 T_ __tsan_atomic##N##_fetch_add(volatile T_* a, T_ v, int mo) { if (g_hook) { atomic_pre((uintptr_t)a, N / 8, true, isacq(mo)); atomic_post((uintptr_t)a, isrel(mo), true); } return __atomic_fetch_add(a, v, 5); } \
 T_ __tsan_atomic##N##_fetch_sub(volatile T_* a, T_ v, int mo) { if (g_hook) { atomic_pre((uintptr_t)a, N / 8, true, isacq(mo)); atomic_post((uintptr_t)a, isrel(mo), true); } return __atomic_fetch_sub(a, v, 5); } \
 T_ __tsan_atomic##N##_fetch_and(volatile T_* a, T_ v, int mo) { if (g_hook) { atomic_pre((uintptr_t)a, N / 8, true, isacq(mo)); atomic_post((uintptr_t)a, isrel(mo), true); } return __atomic_fetch_and(a, v, 5); } \
 T_ __tsan_atomic##N##_fetch_or(volatile T_* a, T_ v, int mo) { if (g_hook) { atomic_pre((uintptr_t)a, N / 8, true, isacq(mo)); atomic_post((uintptr_t)a, isrel(mo), true); } return __atomic_fetch_or(a, v, 5); } \
 T_ __tsan_atomic##N##_fetch_xor(volatile T_* a, T_ v, int mo) { if (g_hook) { atomic_pre((uintptr_t)a, N / 8, true, isacq(mo)); atomic_post((uintptr_t)a, isrel(mo), true); } return __atomic_fetch_xor(a, v, 5); } \
 T_ __tsan_atomic##N##_fetch_nand(volatile T_* a, T_ v, int mo) { if (g_hook) { atomic_pre((uintptr_t)a, N / 8, true, isacq(mo)); atomic_post((uintptr_t)a, isrel(mo), true); } return __atomic_fetch_nand(a, v, 5); } \
 int __tsan_atomic##N##_compare_exchange_strong(volatile T_* a, T_* c, T_ v, int mo, int fmo) { \
	if (g_hook) atomic_pre((uintptr_t)a, N / 8, true, isacq(mo) || isacq(fmo)); \
	int ok = __atomic_compare_exchange_n(a, c, v, 0, 5, 5); \
	if (g_hook && ok) atomic_post((uintptr_t)a, isrel(mo), true); return ok; } \
 int __tsan_atomic##N##_compare_exchange_weak(volatile T_* a, T_* c, T_ v, int mo, int fmo) { return __tsan_atomic##N##_compare_exchange_strong(a, c, v, mo, fmo); } \
 T_ __tsan_atomic##N##_compare_exchange_val(volatile T_* a, T_ c, T_ v, int mo, int fmo) { __tsan_atomic##N##_compare_exchange_strong(a, &c, v, mo, fmo); return c; }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
void __tsan_atomic_thread_fence(int mo)
{
	if (!g_hook) return;
	step(); ++st.atomics; Thr& t = T[g_cur];
	if (isacq(mo)) vjoin(t.vc, t.acqp);
	if (isrel(mo)) { memcpy(t.relf, t.vc, sizeof(VC)); ++t.vc[g_cur]; }
}
void __tsan_atomic_signal_fence(int) {}

// ================================================================================ wrapped library entry points
void* __wrap_malloc(size_t n) { return g_in ? sut_alloc(n) : __real_malloc(n); }
void __wrap_free(void* p) { if (!p) return; if (in_arena(p)) { if (g_hook) step(); arena_free(p); } else __real_free(p); }
void* __wrap_calloc(size_t a, size_t b)
{
	if (!g_in) return __real_calloc(a, b);
	size_t n; if (__builtin_mul_overflow(a, b, &n)) return nullptr;
	void* p = sut_alloc(n); if (p) memset(p, 0, n); return p;
}
void* __wrap_realloc(void* p, size_t n)
{
	if (p && !in_arena(p)) return __real_realloc(p, n);
	if (!p) return __wrap_malloc(n);
	void* q = sut_alloc(n); if (!q) return nullptr;
	BlockInfo bi; size_t old = arena_block(p, &bi) ? bi.size : 0;
	memcpy(q, p, old < n ? old : n); arena_free(p); return q;
}
void* __real_aligned_alloc(size_t, size_t);
void* __wrap_aligned_alloc(size_t al, size_t n) { return g_in ? sut_alloc(n, al) : __real_aligned_alloc(al, n); }
int __real_posix_memalign(void**, size_t, size_t);
int __wrap_posix_memalign(void** o, size_t al, size_t n) { if (!g_in) return __real_posix_memalign(o, al, n); void* p = sut_alloc(n, al); if (!p) return ENOMEM; *o = p; return 0; }
size_t __real_malloc_usable_size(void*);
size_t __wrap_malloc_usable_size(void* p) { BlockInfo b; if (in_arena(p) && arena_block(p, &b)) return b.size; return __real_malloc_usable_size(p); }

#define SIMTHR (g_in && g_cur > 0)
int __real_pthread_mutex_lock(pthread_mutex_t*); int __real_pthread_mutex_trylock(pthread_mutex_t*); int __real_pthread_mutex_unlock(pthread_mutex_t*);
static bool mrec(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }
static bool merr(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_ERRORCHECK_NP; }
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { return SIMTHR ? mx_lock(m, mrec(m), merr(m), 0) : __real_pthread_mutex_lock(m); }
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) { return SIMTHR ? mx_lock(m, mrec(m), merr(m), 1) : __real_pthread_mutex_trylock(m); }
int __wrap_pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec*) { return SIMTHR ? mx_lock(m, mrec(m), merr(m), 2) : __real_pthread_mutex_lock(m); }
int __wrap_pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t, const struct timespec*) { return SIMTHR ? mx_lock(m, mrec(m), merr(m), 2) : __real_pthread_mutex_lock(m); }
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { return SIMTHR ? mx_unlock(m) : __real_pthread_mutex_unlock(m); }
int __wrap_pthread_spin_lock(pthread_spinlock_t* m) { return SIMTHR ? mx_lock((void*)m, false, false, 0) : 0; }
int __wrap_pthread_spin_trylock(pthread_spinlock_t* m) { return SIMTHR ? mx_lock((void*)m, false, false, 1) : 0; }
int __wrap_pthread_spin_unlock(pthread_spinlock_t* m) { return SIMTHR ? mx_unlock((void*)m) : 0; }

int __real_pthread_rwlock_rdlock(pthread_rwlock_t*); int __real_pthread_rwlock_wrlock(pthread_rwlock_t*); int __real_pthread_rwlock_unlock(pthread_rwlock_t*);
static int rw_rd(pthread_rwlock_t* p, int mode)
{
	HookOff off; ++st.locks;
	Mx* m = mx_of(p);
	while (m->owner >= 0) { if (m->owner == g_cur) return EDEADLK; if (mode == 1) return EBUSY; block_on((uintptr_t)p, mode == 2); m = mx_of(p); if (mode == 2 && T[g_cur].timed_out && m->owner >= 0) return ETIMEDOUT; }
	++m->readers; ++m->rd[g_cur]; acquire((uintptr_t)p); return 0;
}
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* m) { return SIMTHR ? rw_rd(m, 0) : __real_pthread_rwlock_rdlock(m); }
int __wrap_pthread_rwlock_tryrdlock(pthread_rwlock_t* m) { return SIMTHR ? rw_rd(m, 1) : __real_pthread_rwlock_rdlock(m); }
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* m) { return SIMTHR ? mx_lock(m, false, false, 0) : __real_pthread_rwlock_wrlock(m); }
int __wrap_pthread_rwlock_trywrlock(pthread_rwlock_t* m) { return SIMTHR ? mx_lock(m, false, false, 1) : __real_pthread_rwlock_wrlock(m); }
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t* m)
{
	if (!SIMTHR) return __real_pthread_rwlock_unlock(m);
	HookOff off; Mx* x = mx_of(m);
	if (x->owner == g_cur) { x->owner = -1; x->count = 0; }
	else if (x->rd[g_cur]) { --x->rd[g_cur]; --x->readers; }
	release((uintptr_t)m, true); wake((uintptr_t)m, 99); return 0;
}
int __real_pthread_cond_wait(pthread_cond_t*, pthread_mutex_t*); int __real_pthread_cond_signal(pthread_cond_t*); int __real_pthread_cond_broadcast(pthread_cond_t*);
int __wrap_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
	if (!SIMTHR) return __real_pthread_cond_wait(c, m);
	mx_unlock(m); { HookOff off; block_on((uintptr_t)c); acquire((uintptr_t)c); } return mx_lock(m, mrec(m), merr(m), 0);
}
static int cond_timed(pthread_cond_t* c, pthread_mutex_t* m) { mx_unlock(m); bool to; { HookOff off; block_on((uintptr_t)c, true); to = T[g_cur].timed_out; acquire((uintptr_t)c); } mx_lock(m, mrec(m), merr(m), 0); return to ? ETIMEDOUT : 0; }
int __wrap_pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec*) { return SIMTHR ? cond_timed(c, m) : ETIMEDOUT; }
int __wrap_pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec*) { return SIMTHR ? cond_timed(c, m) : ETIMEDOUT; }
int __wrap_pthread_cond_signal(pthread_cond_t* c) { if (!SIMTHR) return __real_pthread_cond_signal(c); HookOff off; release((uintptr_t)c, true); wake((uintptr_t)c, 1); return 0; }
int __wrap_pthread_cond_broadcast(pthread_cond_t* c) { if (!SIMTHR) return __real_pthread_cond_broadcast(c); HookOff off; release((uintptr_t)c, true); wake((uintptr_t)c, 99); return 0; }

int __real_sched_yield();
// A caller that gives way again and again is waiting for somebody: everybody gets his turn, whoever is held up goes on after a while
static void sim_yield()
{
	HookOff off; if (!g_mt) return;
	Thr& t = T[g_cur]; ++t.yields;
	if (t.yields % 16 == 0) for (int u = 1; u <= cfg.nthreads; ++u) if (T[u].state == PAUSED) T[u].state = READY;
	if (t.yields % 2000 == 0) for (int u = 1; u <= cfg.nthreads; ++u) if (T[u].state == GSTALL) { stall_blocked = 1; logf("STALLBLOCK stalled=t%d waiting=t%d op%d", u, g_cur, t.op->opid); T[u].state = READY; }
	for (int k = 1; k < cfg.nthreads; ++k) { int n = (g_cur - 1 + k) % cfg.nthreads + 1; if (T[n].state == READY && may_go_now(n)) { switch_to(n); return; } }
	for (int u = 1; u <= cfg.nthreads; ++u) if (T[u].state == TIMED) { T[u].state = READY; T[u].timed_out = true; g_timejump += 1000000000ull; switch_to(u); return; }
}
int __wrap_sched_yield() { if (!SIMTHR) return __real_sched_yield(); sim_yield(); return 0; }
int __real_nanosleep(const struct timespec*, struct timespec*);
int __wrap_nanosleep(const struct timespec* a, struct timespec* b) { if (!SIMTHR) return __real_nanosleep(a, b); g_timejump += (uint64_t)a->tv_sec * 1000000000ull + a->tv_nsec; sim_yield(); return 0; }
int __wrap_clock_nanosleep(clockid_t, int, const struct timespec* a, struct timespec*) { g_timejump += 1000000; (void)a; if (SIMTHR) sim_yield(); return 0; }
int __wrap_usleep(unsigned u) { g_timejump += u * 1000ull; if (SIMTHR) sim_yield(); return 0; }
unsigned __wrap_sleep(unsigned s) { g_timejump += s * 1000000000ull; if (SIMTHR) sim_yield(); return 0; }

int __real___cxa_guard_acquire(uint64_t*); void __real___cxa_guard_release(uint64_t*); void __real___cxa_guard_abort(uint64_t*);
int __wrap___cxa_guard_acquire(uint64_t* g)
{
	if (!SIMTHR) return __real___cxa_guard_acquire(g);
	HookOff off; unsigned char* b = (unsigned char*)g;
	for (;;)
	{
		if (b[0]) { acquire((uintptr_t)g); return 0; }
		if (!b[1]) { b[1] = 1; b[2] = (unsigned char)g_cur; return 1; }
		if (b[2] == g_cur) run_abort("DEADLOCK t%d re-enters the initialisation of a local static in op%d", g_cur, T[g_cur].op->opid);
		block_on((uintptr_t)g);
	}
}
void __wrap___cxa_guard_release(uint64_t* g)
{
	if (!SIMTHR) { __real___cxa_guard_release(g); return; }
	HookOff off; unsigned char* b = (unsigned char*)g; release((uintptr_t)g, true); b[0] = 1; b[1] = b[2] = 0; wake((uintptr_t)g, 99);
}
void __wrap___cxa_guard_abort(uint64_t* g)
{
	if (!SIMTHR) { __real___cxa_guard_abort(g); return; }
	HookOff off; unsigned char* b = (unsigned char*)g; release((uintptr_t)g, true); b[1] = b[2] = 0; wake((uintptr_t)g, 99);
}
int __real_pthread_once(pthread_once_t*, void (*)());
int __wrap_pthread_once(pthread_once_t* o, void (*fn)())
{
	if (!SIMTHR) return __real_pthread_once(o, fn);
	int* s = (int*)o;
	{
		HookOff off(*s != 2);
		while (*s == 1) block_on((uintptr_t)o);
		if (*s == 2) { acquire((uintptr_t)o); return 0; }
		*s = 1;
	}
	try { fn(); }
	catch (...) { { HookOff off; *s = 0; release((uintptr_t)o, true); wake((uintptr_t)o, 99); } throw; }
	HookOff off; *s = 2; release((uintptr_t)o, true); wake((uintptr_t)o, 99);
	return 0;
}
int __wrap_pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*fn)(void*), void* arg)
{
	if (!g_in) return __real_pthread_create(t, a, fn, arg);
	amb_event("thread-created", "");
	run_abort("THREAD_CREATED op=%d", T[g_cur].op->opid);      // never ours; P10 reports it
}

int __real___cxa_thread_atexit(void (*)(void*), void*, void*);
int __wrap___cxa_thread_atexit(void (*fn)(void*), void* obj, void* dso)
{
	if (g_cur == 0 && !g_in) return __real___cxa_thread_atexit(fn, obj, dso);
	if (g_ntls[g_cur] < 256) { TlsDtor& d = g_tls[g_cur][g_ntls[g_cur]++]; d.fn = fn; d.obj = obj; }
	return 0;
}
}
void sim::libc_state(int which, bool write) { static long state[16]; if (g_in && g_hook) { step(); access((uintptr_t)&state[which & 15], 8, write); } }
extern "C" {
// clocks
time_t __real_time(time_t*); int __real_clock_gettime(clockid_t, struct timespec*); int __real_gettimeofday(struct timeval*, void*); clock_t __real_clock();
time_t __wrap_time(time_t* t) { if (!g_in) return __real_time(t); time_t v = read_clock() / 1000000000ull; if (t) *t = v; return v; }
int __wrap_clock_gettime(clockid_t c, struct timespec* ts) { if (!g_in) return __real_clock_gettime(c, ts); uint64_t v = read_clock(); ts->tv_sec = v / 1000000000ull; ts->tv_nsec = v % 1000000000ull; return 0; }
int __wrap_gettimeofday(struct timeval* tv, void* z) { if (!g_in) return __real_gettimeofday(tv, z); uint64_t v = read_clock(); tv->tv_sec = v / 1000000000ull; tv->tv_usec = v % 1000000000ull / 1000; return 0; }
clock_t __wrap_clock() { if (!g_in) return __real_clock(); return (clock_t)(read_clock() / 1000); }
// randomness
int __real_rand(); long __real_random(); void __real_srand(unsigned); void __real_srandom(unsigned);
int __wrap_rand() { if (!g_in) return __real_rand(); if (g_hook) step(); return draw(); }
long __wrap_random() { if (!g_in) return __real_random(); if (g_hook) step(); return draw(); }
static void reseed(unsigned s) { OpCtl* o = T[g_cur].op; ++o->srands; o->rkind = 0; o->rstate = s; amb_event("srand", ""); }
void __wrap_srand(unsigned s) { if (!g_in) __real_srand(s); else reseed(s); }
void __wrap_srandom(unsigned s) { if (!g_in) __real_srandom(s); else reseed(s); }
double __real_drand48(); long __real_lrand48(); long __real_mrand48(); void __real_srand48(long);
static uint64_t ent = 99;
double __wrap_drand48() { if (!g_in) return __real_drand48(); libc_state(0, true); return draw() / 2147483648.0; }
long __wrap_lrand48() { if (!g_in) return __real_lrand48(); libc_state(0, true); return draw(); }
long __wrap_mrand48() { if (!g_in) return __real_mrand48(); libc_state(0, true); return draw(); }
void __wrap_srand48(long s) { if (!g_in) __real_srand48(s); else { libc_state(0, true); reseed((unsigned)s); } }
// C library functions that keep state of the process without protecting it
#define UNSAFE(st, ret, name, par, arg) ret __real_##name par; ret __wrap_##name par { if (g_in) libc_state(st, true); return __real_##name arg; }
UNSAFE(1, char*, strtok, (char* a, const char* b), (a, b))
UNSAFE(2, struct tm*, localtime, (const time_t* t), (t))
UNSAFE(2, struct tm*, gmtime, (const time_t* t), (t))
UNSAFE(2, char*, ctime, (const time_t* t), (t))
UNSAFE(2, char*, asctime, (const struct tm* t), (t))
UNSAFE(3, char*, ecvt, (double v, int n, int* d, int* s), (v, n, d, s))
UNSAFE(3, char*, fcvt, (double v, int n, int* d, int* s), (v, n, d, s))
UNSAFE(4, int, mblen, (const char* s, size_t n), (s, n))
UNSAFE(4, int, mbtowc, (wchar_t* w, const char* s, size_t n), (w, s, n))
UNSAFE(4, int, wctomb, (char* s, wchar_t w), (s, w))
UNSAFE(5, char*, l64a, (long v), (v))
ssize_t __wrap_getrandom(void* b, size_t n, unsigned) { uint64_t s = ent + cfg.clock_seed; for (size_t i = 0; i < n; ++i) ((unsigned char*)b)[i] = (unsigned char)splitmix(&s); ent = s; return n; }
int __wrap_getentropy(void* b, size_t n) { __wrap_getrandom(b, n, 0); return 0; }
unsigned __real__ZNSt13random_device9_M_getvalEv(void*);
unsigned __wrap__ZNSt13random_device9_M_getvalEv(void*) { ent += cfg.clock_seed; return (unsigned)splitmix(&ent); }
}
