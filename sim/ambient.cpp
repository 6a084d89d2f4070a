// Process-wide settings: entry points through which the library could change them are interposed
// (an attempt made from library code is an event), and a snapshot is compared around operations.
#include "core.h"
#include <errno.h>
#include <fcntl.h>
#include <fenv.h>
#include <locale.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <exception>
#include <locale>
#include <new>
#include <xmmintrin.h>

extern char** environ;
using namespace sim;
namespace sim {
static long out_seen[2];
void ambient_init()
{
	for (int i = 0; i < 2; ++i)
	{
		int f = (int)syscall(SYS_memfd_create, "sim", 0);
		if (f < 0) continue;
		dup2(f, i + 1); close(f); out_seen[i] = 0;
	}
	setvbuf(stdout, 0, _IONBF, 0);
}
void ambient_check_streams()
{
	for (int i = 0; i < 2; ++i)
	{
		struct stat s; if (fstat(i + 1, &s)) { amb_event("stream-closed", i ? "stderr" : "stdout"); continue; }
		if (s.st_size != out_seen[i]) { out_seen[i] = s.st_size; amb_event("stream-write", i ? "stderr" : "stdout"); }
	}
}
static void handler_usr(int) {}
static void new_handler_user() { throw std::bad_alloc(); }
void ambient_randomise(uint64_t seed)
{
	uint64_t s = seed;
	static const int modes[4] = {FE_TONEAREST, FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO};
	fesetround(modes[splitmix(&s) % 4]);
	if (splitmix(&s) % 2) setlocale(LC_ALL, "C.UTF-8");
	if (splitmix(&s) % 2) setlocale(LC_NUMERIC, "C");
	if (splitmix(&s) % 2) signal(SIGUSR1, handler_usr);
	if (splitmix(&s) % 2) signal(SIGPIPE, SIG_IGN);
	if (splitmix(&s) % 2) std::set_new_handler(new_handler_user);
	char b[40]; snprintf(b, sizeof b, "%llx", (unsigned long long)splitmix(&s));
	setenv("SIM_AMBIENT", b, 1);
	if (splitmix(&s) % 3 == 0) _mm_setcsr(_mm_getcsr() | 0x8000);          // flush to zero, as graphics hosts do
	fenv_expected = fenv_control();
}
static unsigned long long mixs(unsigned long long h, const char* p) { while (*p) h = (h ^ (unsigned char)*p++) * 1099511628211ull; return h * 31 + 7; }
unsigned long long ambient_snapshot(char* d, size_t n)
{
	unsigned long long e = 5, sg = 7;
	for (char** p = environ; p && *p; ++p) e = mixs(e, *p);
	for (int i = 1; i < 32; ++i) { struct sigaction sa; memset(&sa, 0, sizeof sa); if (syscall(SYS_rt_sigaction, i, 0, 0, 8)) {} if (sigaction(i, 0, &sa) == 0) sg = (sg ^ (unsigned long long)sa.sa_handler ^ ((unsigned long long)sa.sa_flags << 48)) * 1099511628211ull; }
	sigset_t m; sigemptyset(&m); pthread_sigmask(SIG_BLOCK, 0, &m); unsigned long mm = 0; memcpy(&mm, &m, 8);
	mode_t um = (mode_t)syscall(SYS_umask, 022); syscall(SYS_umask, um);
	char cwd[200] = ""; if (!getcwd(cwd, sizeof cwd)) cwd[0] = 0;
	snprintf(d, n, "fenv=%x locale=%s cxxlocale=%s env=%llx signals=%llx mask=%lx new=%p term=%p umask=%o cwd=%s", fenv_control(), setlocale(LC_ALL, 0), std::locale().name().c_str(), e, sg, mm,
		(void*)std::get_new_handler(), (void*)std::get_terminate(), um, cwd);
	return mixs(1469598103934665603ull, d);
}
static bool lib() { return inside(); }
struct Out { Pause p; };
}

extern "C" {
char* __real_setlocale(int, const char*);
char* __wrap_setlocale(int c, const char* l)
{
	if (!lib()) return __real_setlocale(c, l);
	libc_state(8, l != nullptr); if (!l) return __real_setlocale(c, l);
	Out o; char before[300]; strncpy(before, __real_setlocale(LC_ALL, 0), sizeof before - 1); before[sizeof before - 1] = 0;
	char* r = __real_setlocale(c, l);
	if (strcmp(before, __real_setlocale(LC_ALL, 0))) amb_event("setlocale", l);
	return r;
}
locale_t __real_uselocale(locale_t);
locale_t __wrap_uselocale(locale_t l) { if (lib() && l) { Out o; locale_t b = __real_uselocale(0); if (b != l) amb_event("uselocale", ""); return __real_uselocale(l); } return __real_uselocale(l); }
std::locale __real__ZNSt6locale6globalERKS_(const std::locale&);
std::locale __wrap__ZNSt6locale6globalERKS_(const std::locale& l)
{
	if (lib()) { Out o; if (l != std::locale()) amb_event("locale::global", ""); return __real__ZNSt6locale6globalERKS_(l); }
	return __real__ZNSt6locale6globalERKS_(l);
}
int __real_setenv(const char*, const char*, int);
int __wrap_setenv(const char* n, const char* v, int o) { if (lib()) { libc_state(9, true); Out q; const char* b = getenv(n); if (!b || (o && strcmp(b, v))) amb_event("setenv", n); return __real_setenv(n, v, o); } return __real_setenv(n, v, o); }
int __real_unsetenv(const char*);
int __wrap_unsetenv(const char* n) { if (lib()) { libc_state(9, true); Out q; if (getenv(n)) amb_event("unsetenv", n); return __real_unsetenv(n); } return __real_unsetenv(n); }
int __real_putenv(char*);
char* __real_getenv(const char*);
// a variable nobody expects to matter is set in some executions
static const char* some_variable(const char* n)
{
	for (const char* own : {"LC_", "LANG", "TZ", "LOCPATH", "NLSPATH", "GLIBC", "MALLOC", "TMPDIR", "GCONV", "OUTPUT_CHARSET", "LD_", "POSIX", "PATH", "HOME"}) if (!strncmp(n, own, strlen(own))) return nullptr;
	uint64_t h = cfg.envvars * 1099511628211ull; for (; *n; ++n) h = (h ^ (unsigned char)*n) * 1099511628211ull;
	static const char* const V[] = {"1", "0", "", "on", "16", "debug"}; return V[(h >> 33) % 6];
}
char* __wrap_getenv(const char* n) { if (lib()) libc_state(9, false); char* v = __real_getenv(n); if (!v && cfg.envvars && lib()) v = (char*)some_variable(n); return v; }
char* __wrap_secure_getenv(const char* n) { return __wrap_getenv(n); }
int __wrap_putenv(char* s) { if (lib()) { libc_state(9, true); Out q; amb_event("putenv", s); return __real_putenv(s); } return __real_putenv(s); }
int __real_clearenv();
int __wrap_clearenv() { if (lib()) { Out q; amb_event("clearenv", ""); } return __real_clearenv(); }
int __real_sigaction(int, const struct sigaction*, struct sigaction*);
int __wrap_sigaction(int n, const struct sigaction* a, struct sigaction* old)
{
	if (lib() && a) { Out q; struct sigaction b; if (__real_sigaction(n, 0, &b) == 0 && b.sa_handler != a->sa_handler) { char t[20]; snprintf(t, sizeof t, "%d", n); amb_event("sigaction", t); } return __real_sigaction(n, a, old); }
	return __real_sigaction(n, a, old);
}
void (*__real_signal(int, void (*)(int)))(int);
void (*__wrap_signal(int n, void (*h)(int)))(int)
{
	if (lib()) { Out q; struct sigaction b; if (__real_sigaction(n, 0, &b) == 0 && b.sa_handler != h) { char t[20]; snprintf(t, sizeof t, "%d", n); amb_event("signal", t); } return __real_signal(n, h); }
	return __real_signal(n, h);
}
int __real_pthread_sigmask(int, const sigset_t*, sigset_t*);
int __wrap_pthread_sigmask(int how, const sigset_t* s, sigset_t* o) { if (lib() && s) { Out q; amb_event("sigmask", ""); return __real_pthread_sigmask(how, s, o); } return __real_pthread_sigmask(how, s, o); }
int __real_sigprocmask(int, const sigset_t*, sigset_t*);
int __wrap_sigprocmask(int how, const sigset_t* s, sigset_t* o) { if (lib() && s) { Out q; amb_event("sigprocmask", ""); return __real_sigprocmask(how, s, o); } return __real_sigprocmask(how, s, o); }
std::new_handler __real__ZSt15set_new_handlerPFvvE(std::new_handler);
std::new_handler __wrap__ZSt15set_new_handlerPFvvE(std::new_handler h) { if (lib()) { Out q; if (std::get_new_handler() != h) amb_event("set_new_handler", ""); } return __real__ZSt15set_new_handlerPFvvE(h); }
std::terminate_handler __real__ZSt13set_terminatePFvvE(std::terminate_handler);
std::terminate_handler __wrap__ZSt13set_terminatePFvvE(std::terminate_handler h) { if (lib()) { Out q; if (std::get_terminate() != h) amb_event("set_terminate", ""); } return __real__ZSt13set_terminatePFvvE(h); }

#define REC(what, arg) if (lib()) { Out q; amb_event(what, arg); errno = EACCES;
int __real_open(const char*, int, ...);
int __wrap_open(const char* p, int fl, ...) { va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap); REC("open", p) return -1; } return __real_open(p, fl, m); }
int __real_open64(const char*, int, ...);
int __wrap_open64(const char* p, int fl, ...) { va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap); REC("open", p) return -1; } return __real_open64(p, fl, m); }
int __real_openat(int, const char*, int, ...);
int __wrap_openat(int d, const char* p, int fl, ...) { va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap); REC("openat", p) return -1; } return __real_openat(d, p, fl, m); }
FILE* __real_fopen(const char*, const char*);
FILE* __wrap_fopen(const char* p, const char* m) { REC("fopen", p) return nullptr; } return __real_fopen(p, m); }
FILE* __real_fopen64(const char*, const char*);
FILE* __wrap_fopen64(const char* p, const char* m) { REC("fopen", p) return nullptr; } return __real_fopen64(p, m); }
FILE* __real_freopen(const char*, const char*, FILE*);
FILE* __wrap_freopen(const char* p, const char* m, FILE* f) { REC("freopen", p ? p : "") return nullptr; } return __real_freopen(p, m, f); }
int __real_creat(const char*, mode_t);
int __wrap_creat(const char* p, mode_t m) { REC("creat", p) return -1; } return __real_creat(p, m); }
int __real_remove(const char*);
int __wrap_remove(const char* p) { REC("remove", p) return -1; } return __real_remove(p); }
int __real_unlink(const char*);
int __wrap_unlink(const char* p) { REC("unlink", p) return -1; } return __real_unlink(p); }
int __real_rename(const char*, const char*);
int __wrap_rename(const char* a, const char* b) { REC("rename", a) return -1; } return __real_rename(a, b); }
int __real_mkdir(const char*, mode_t);
int __wrap_mkdir(const char* p, mode_t m) { REC("mkdir", p) return -1; } return __real_mkdir(p, m); }
int __real_chdir(const char*);
int __wrap_chdir(const char* p) { REC("chdir", p) return -1; } return __real_chdir(p); }
int __real_system(const char*);
int __wrap_system(const char* c) { REC("system", c) return -1; } return __real_system(c); }
pid_t __real_fork();
pid_t __wrap_fork() { REC("fork", "") return -1; } return __real_fork(); }
FILE* __real_tmpfile();
FILE* __wrap_tmpfile() { REC("tmpfile", "") return nullptr; } return __real_tmpfile(); }
int __real_mkstemp(char*);
int __wrap_mkstemp(char* t) { REC("mkstemp", t) return -1; } return __real_mkstemp(t); }
FILE* __real_popen(const char*, const char*);
FILE* __wrap_popen(const char* c, const char* m) { REC("popen", c) return nullptr; } return __real_popen(c, m); }
int __real_pipe(int*);
int __wrap_pipe(int* p) { REC("pipe", "") return -1; } return __real_pipe(p); }
int __real_socket(int, int, int);
int __wrap_socket(int a, int b, int c) { REC("socket", "") return -1; } return __real_socket(a, b, c); }
int __real_execv(const char*, char* const*);
int __wrap_execv(const char* p, char* const* a) { REC("exec", p) return -1; } return __real_execv(p, a); }
int __real_execve(const char*, char* const*, char* const*);
int __wrap_execve(const char* p, char* const* a, char* const* e) { REC("exec", p) return -1; } return __real_execve(p, a, e); }
void __wrap_abort() { die_now("ABORTED"); }
void __real_exit(int) __attribute__((noreturn));
void __wrap_exit(int c) { if (lib()) die_now("EXITED"); __real_exit(c); }
void __wrap__exit(int c) { if (lib()) die_now("EXITED"); syscall(SYS_exit_group, c); __builtin_unreachable(); }
}
