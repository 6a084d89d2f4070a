// The simulator process. "serve": reads scenarios from stdin and runs each in a forked child of this
// pristine process. "one": runs the single scenario on stdin in this very process.
#include "core.h"
#include <errno.h>
#include <locale>
#include <sched.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <string>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/single_threaded.h>
#include <sys/wait.h>
#include <unistd.h>
bool client_run(const char*, size_t);
static const size_t CAP = 8 << 20;
struct Shared { size_t len; };
static char* shm; static unsigned char* edges; static uint32_t nedges;
static void on_signal(int s) { sim::die_signal(s); }
static void run(const char* text, size_t len, int cpu_s)
{
	sim::log_init(shm + 64, CAP - 64, &((Shared*)shm)->len);
	static char alt[65536]; stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, 0);
	struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_signal; sa.sa_flags = SA_ONSTACK;
	for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGXCPU}) sigaction(s, &sa, 0);
	struct rlimit rl{(rlim_t)cpu_s, (rlim_t)cpu_s + 5}; setrlimit(RLIMIT_CPU, &rl);
	rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
	sim::ambient_init();
	sim::core_reset();
	if (!client_run(text, len)) sim::run_abort("HARNESS malformed scenario");
	sim::finish_log();
}
static bool rd(void* p, size_t n) { char* c = (char*)p; while (n) { ssize_t k = read(0, c, n); if (k <= 0) return false; c += k; n -= k; } return true; }
static bool wr(const void* p, size_t n) { const char* c = (const char*)p; while (n) { ssize_t k = write(1, c, n); if (k <= 0) return false; c += k; n -= k; } return true; }
int main(int ac, char** av)
{
	if (!getenv("SIM_NOASLR")) { int p = personality(0xffffffff); if (p >= 0 && !(p & ADDR_NO_RANDOMIZE) && personality(p | ADDR_NO_RANDOMIZE) >= 0) { setenv("SIM_NOASLR", "1", 1); execv("/proc/self/exe", av); } }
	sim::arena_init();
	__libc_single_threaded = 0; { std::locale l; }
	sim::classic_locale = *(void* const*)&std::locale::classic();
	// libstdc++ fills these lookup tables on first use, with the same values from every thread
	{ const std::ctype<char>& f = std::use_facet<std::ctype<char>>(std::locale::classic()); f.widen('a'); for (int c = 1; c < 256; ++c) f.narrow((char)c, 0); char a[256], b[256]; for (int c = 0; c < 256; ++c) a[c] = (char)c; f.narrow(a, a + 256, 0, b); f.widen(a, a + 256, b); }
	sim::core_reset();
	shm = (char*)mmap(0, CAP, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	nedges = sim::edge_count();
	edges = (unsigned char*)mmap(0, nedges + 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	sim::set_edge_map(edges);
	int cpu = 20; if (const char* e = getenv("SIM_CPU")) cpu = atoi(e);
	if (ac > 1 && !strcmp(av[1], "one"))
	{
		std::string t; char b[65536]; ssize_t n; while ((n = read(0, b, sizeof b)) > 0) t.append(b, n);
		int out = dup(1);
		pid_t p = fork();
		if (p == 0) { run(t.data(), t.size(), cpu * 3); _exit(0); }
		int st = 0; waitpid(p, &st, 0);
		size_t len = ((Shared*)shm)->len; const char* c = shm + 64; while (len) { ssize_t k = write(out, c, len); if (k <= 0) break; c += k; len -= k; }
		if (WIFSIGNALED(st)) { char q[40]; int m = snprintf(q, sizeof q, "KILLED %d\n", WTERMSIG(st)); if (write(out, q, m)) {} }
		return 0;
	}
	for (;;)
	{
		char op[8]; uint64_t n;
		if (!rd(op, 8)) return 0;
		if (!memcmp(op, "EDGES   ", 8)) { uint64_t m = nedges; if (!wr(&m, 8) || !wr(edges + 1, nedges)) return 0; continue; }
		if (!rd(&n, 8)) return 0;
		std::string t(n, 0); if (!rd(&t[0], n)) return 0;
		((Shared*)shm)->len = 0;
		pid_t p = fork();
		if (p == 0) { close(0); run(t.data(), t.size(), cpu); _exit(0); }
		int st = 0; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
		uint64_t len = ((Shared*)shm)->len; char q[40]; int m = 0; if (WIFSIGNALED(st)) m = snprintf(q, sizeof q, "KILLED %d\n", WTERMSIG(st));
		uint64_t tot = len + m; if (!wr(&tot, 8) || !wr(shm + 64, len) || !wr(q, m)) return 0;
	}
}
