// Shared pieces of the driver: deterministic randomness, worker processes, scenarios, logs.
#pragma once
#include <algorithm>
#include <atomic>
#include <chrono>
#include <functional>
#include <map>
#include <mutex>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <errno.h>
#include <fcntl.h>
#include <math.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/wait.h>
#include <unistd.h>
typedef std::string S;
typedef std::vector<S> Toks;
typedef uint64_t u64;

static u64 fnv(const char* p, size_t n, u64 h = 1469598103934665603ull) { for (size_t i = 0; i < n; ++i) h = (h ^ (unsigned char)p[i]) * 1099511628211ull; return h; }
static u64 fnv(const S& s) { return fnv(s.data(), s.size()); }
static S num(long long v) { return std::to_string(v); }
static unsigned bits(float f) { unsigned u; memcpy(&u, &f, 4); return u; }
static S hx(float f) { if (f != f) return "nan"; char b[12]; snprintf(b, sizeof b, "%08x", bits(f)); return b; }
static float unhx(const S& s) { if (s == "nan") return NAN; unsigned u = (unsigned)strtoul(s.c_str(), 0, 16); float f; memcpy(&f, &u, 4); return f; }
static Toks split(const S& l) { Toks t; size_t i = 0; while (i < l.size()) { while (i < l.size() && l[i] == ' ') ++i; size_t j = i; while (j < l.size() && l[j] != ' ') ++j; if (j > i) t.push_back(l.substr(i, j - i)); i = j; } return t; }
static std::vector<S> lines_of(const S& t) { std::vector<S> v; size_t i = 0; while (i < t.size()) { size_t j = t.find('\n', i); if (j == S::npos) j = t.size(); v.push_back(t.substr(i, j - i)); i = j + 1; } return v; }
static bool starts(const S& s, const char* p) { return s.compare(0, strlen(p), p) == 0; }
static double now_s() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

struct Rng
{
	u64 s;
	explicit Rng(u64 x) : s(x) {}
	u64 next() { u64 z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
	int n(int k) { return k <= 0 ? 0 : (int)(next() % (u64)k); }
	int in(int a, int b) { return a + n(b - a + 1); }
	bool p(int percent) { return n(100) < percent; }
	double u() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
	float f(float a, float b) { return a + (float)(u() * (b - a)); }
	template <class T> const T& pick(const std::vector<T>& v) { return v[n((int)v.size())]; }
};

// one simulator process
struct Worker
{
	pid_t pid = 0; int in = -1, out = -1; S exe; u64 runs = 0;
	std::unordered_map<S, S> refs;
	explicit Worker(const S& e) : exe(e) {}
	~Worker() { stop(); }
	void start()
	{
		int a[2], b[2]; static std::mutex m; std::lock_guard<std::mutex> g(m);
		if (pipe2(a, O_CLOEXEC) || pipe2(b, O_CLOEXEC)) { perror("pipe"); _exit(3); }
		pid = fork();
		if (pid == 0) { dup2(a[0], 0); dup2(b[1], 1); execl(exe.c_str(), exe.c_str(), "serve", (char*)0); _exit(127); }
		close(a[0]); close(b[1]); in = a[1]; out = b[0];
	}
	void stop() { if (pid > 0) { close(in); close(out); kill(pid, SIGKILL); waitpid(pid, 0, 0); pid = 0; refs.clear(); } }
	bool wr(const void* p, size_t n) { const char* c = (const char*)p; while (n) { ssize_t k = write(in, c, n); if (k <= 0) { if (k < 0 && errno == EINTR) continue; return false; } c += k; n -= k; } return true; }
	bool rd(void* p, size_t n) { char* c = (char*)p; while (n) { ssize_t k = read(out, c, n); if (k <= 0) { if (k < 0 && errno == EINTR) continue; return false; } c += k; n -= k; } return true; }
	S run(const S& text)
	{
		++runs;
		for (int attempt = 0; attempt < 3; ++attempt)
		{
			if (!pid) start();
			u64 n = text.size(), t = 0; S s;
			if (wr("RUN     ", 8) && wr(&n, 8) && wr(text.data(), n) && rd(&t, 8)) { s.resize(t); if (rd(&s[0], t)) return s; }
			stop();
		}
		return "HARNESS simulator process does not answer\n";
	}
	S edges() { if (!pid) return ""; u64 n = 0; S s; if (wr("EDGES   ", 8) && rd(&n, 8)) { s.resize(n); if (!rd(&s[0], n)) s.clear(); } return s; }
};

struct Ope { int id = 0, t = 0, allocs = 0, gcalls = 0, rands = 0, srands = 0, faults = 0; u64 steps = 0; S out; };
struct Log
{
	std::vector<Ope> ops; std::map<int, int> idx;
	std::map<int, S> mini;                    // replayable only
	std::vector<Toks> ev;                     // every other line, split
	std::vector<S> raw;
	S fatal; int fatal_op = 0; S fatal_line; bool end = false, full = false; S harness; bool nooj = false;
	std::map<S, u64> stats; S ilv;
	std::map<int, std::map<int, std::vector<u64>>> ints;
	std::map<int, std::vector<S>> fired;      // per operation, in order
	const Ope* op(int id) const { auto i = idx.find(id); return i == idx.end() ? nullptr : &ops[i->second]; }
};
static S field(const Toks& t, const char* k) { size_t n = strlen(k); for (auto& x : t) if (x.compare(0, n, k) == 0 && x.size() > n && x[n] == '=') return x.substr(n + 1); return ""; }
static Log parse_log(const S& s)
{
	Log L; std::vector<S> v = lines_of(s);
	for (size_t i = 0; i < v.size(); ++i)
	{
		const S& l = v[i];
		if (starts(l, "OPE "))
		{
			Ope o; char* e; const char* p = l.c_str() + 4; o.id = (int)strtol(p, &e, 10); o.t = (int)strtol(e + 2, &e, 10);
			auto get = [&](const char* k) -> u64 { const char* q = strstr(p, k); return q ? strtoull(q + strlen(k), 0, 10) : 0; };
			o.steps = get("steps="); o.allocs = (int)get(" allocs="); o.gcalls = (int)get("gcalls="); o.rands = (int)get(" rands="); o.srands = (int)get("srands="); o.faults = (int)get("faults=");
			size_t c = l.find(" : "); if (c != S::npos) o.out = l.substr(c + 3);
			L.idx[o.id] = (int)L.ops.size(); L.ops.push_back(o); continue;
		}
		if (starts(l, "MINI "))
		{
			Toks t = split(l); S m; size_t j = i + 1; while (j < v.size() && v[j] != "ENDMINI") m += v[j++] + "\n";
			if (t.size() > 2 && t[2] == "ok" && j < v.size()) L.mini[atoi(t[1].c_str())] = m;
			i = j; continue;
		}
		Toks t = split(l); if (t.empty()) continue;
		const S& k = t[0];
		if (k == "INT") { auto& x = L.ints[atoi(field(t, "op").c_str())][atoi(field(t, "kind").c_str())]; for (size_t j = 5; j < t.size(); ++j) x.push_back(strtoull(t[j].c_str(), 0, 10)); continue; }
		if (k == "STATS") { for (size_t j = 1; j < t.size(); ++j) { size_t e = t[j].find('='); if (starts(t[j], "ilv=")) L.ilv = t[j].substr(4); else if (e != S::npos) L.stats[t[j].substr(0, e)] = strtoull(t[j].c_str() + e + 1, 0, 10); } continue; }
		if (k == "END") { L.end = true; continue; }
		if (k == "LOGFULL") { L.full = true; continue; }
		if (k == "HARNESS") { L.harness = l; continue; }
		if (k == "FIRED") L.fired[atoi(field(t, "op").c_str())].push_back(l);
		if (k == "MEM" || k == "CRASH" || k == "TIMEOUT" || k == "STEP_LIMIT" || k == "DEADLOCK" || k == "ABORTED" || k == "EXITED" || k == "THREAD_CREATED" || k == "KILLED" || k == "ARENA_FULL")
		{
			if (L.fatal.empty()) { L.fatal = k; L.fatal_line = l; L.fatal_op = atoi(field(t, "op").c_str()); if (k == "MEM") L.fatal += ":" + field(t, "kind"); if (k == "DEADLOCK") { size_t q = l.find("/op"); if (q == S::npos) q = l.find("in op") + 2; if (q != S::npos) L.fatal_op = atoi(l.c_str() + q + 3); } }
		}
		L.ev.push_back(t); L.raw.push_back(l);
	}
	if (L.fatal.empty() && !L.end && !L.full && L.harness.empty()) { L.fatal = "NOEND"; L.fatal_line = "execution ended without a reason"; }
	return L;
}
