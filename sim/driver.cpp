#include <memory>
// Searches simulated executions for violations of one property, minimises and replays what it finds.
//   simdrive check <property>        VERIF_SEED, VERIF_TIER, SIM_SECONDS, SIM_WORKERS, SIM_CASES
//   simdrive replay <file>           exit 1 when the recorded violation happens again
//   simdrive dump <property> <case>  the scenarios and logs of one case
//   simdrive scan                    the kinds of calls that touch state outliving them
//   simdrive hash <property> <n>     hashes of every execution of the first n cases (determinism check)
#include "gens.h"
#include <sys/stat.h>

static S env_s(const char* k, const S& d) { const char* e = getenv(k); return e && *e ? S(e) : d; }
static long env_n(const char* k, long d) { const char* e = getenv(k); return e && *e ? atol(e) : d; }
static S self_dir() { char b[4096]; ssize_t n = readlink("/proc/self/exe", b, sizeof b - 1); b[n > 0 ? n : 0] = 0; S s = b; return s.substr(0, s.rfind('/')); }
static S exe() { return self_dir() + "/simrun"; }
static S root() { return env_s("VERIF_ROOT", self_dir() + "/.."); }
static u64 case_seed(u64 seed, const S& prop, u64 idx) { Rng r(seed * 0x9E3779B97F4A7C15ull ^ fnv(prop)); r.next(); r.s ^= idx * 0xD1342543DE82EF95ull; return r.next(); }
static S slurp(const S& p) { S s; FILE* f = fopen(p.c_str(), "rb"); if (!f) return s; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n); fclose(f); return s; }
static bool spit(const S& p, const S& s) { S t = p + ".tmp"; FILE* f = fopen(t.c_str(), "wb"); if (!f) return false; bool ok = fwrite(s.data(), 1, s.size(), f) == s.size(); ok = !fclose(f) && ok; return ok && !rename(t.c_str(), p.c_str()); }
static S js(const S& s) { S o = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; } else o += c; } return o + "\""; }
static bool has_key(const std::vector<Viol>& v, const S& k) { for (auto& x : v) if (x.key == k) return true; return false; }

struct Known { S prop, key, what; };
static std::vector<Known> known_findings()
{
	std::vector<Known> v; for (auto& l : lines_of(slurp(root() + "/known_findings.txt"))) { if (!starts(l, "finding: ")) continue; Toks t = split(l); Known k; k.prop = field(t, "property"); k.key = field(t, "key"); size_t p = l.find("key="); p = l.find(' ', p); k.what = p == S::npos ? "" : l.substr(p + 1); v.push_back(k); } return v;
}
static S nospace(S s) { for (auto& c : s) if (c == ' ') c = '_'; return s; }

struct Found { u64 idx; u64 seed; S text; Viol v; };

// ---------------------------------------------------------------------------------------- minimisation
struct Mini
{
	S key; double deadline; std::vector<std::unique_ptr<Worker>> ws; u64 tried = 0;
	bool fails(Worker& w, const S& t) { Eval e(w, nullptr); return has_key(e.judge(t), key); }
	bool fails(const S& t) { ++tried; return fails(*ws[0], t); }
	static S join(const std::vector<S>& v) { S s; for (auto& l : v) s += l + "\n"; return s; }
	// first candidate (in order) that still fails, tried in parallel
	int first(const std::vector<S>& c)
	{
		for (size_t i = 0; i < c.size(); i += ws.size())
		{
			std::vector<char> ok(ws.size(), 0); std::vector<std::thread> th; size_t m = std::min(ws.size(), c.size() - i);
			for (size_t k = 0; k < m; ++k) th.emplace_back([&, k] { ok[k] = fails(*ws[k], c[i + k]); }); for (auto& x : th) x.join(); tried += m;
			for (size_t k = 0; k < m; ++k) if (ok[k]) return (int)(i + k);
			if (now_s() > deadline) return -1;
		}
		return -1;
	}
	S run(S text)
	{
		std::vector<S> L = lines_of(text);
		// preemptions every so many steps become explicit ones
		if (text.find("quantum=") != S::npos)
		{
			Eval e(*ws[0], nullptr); Log g; e.judge(text, &g); std::vector<S> M; for (auto l : L) { Toks t = split(l); if (!t.empty() && t[0] == "opt") { S q; for (auto& x : t) if (!starts(x, "quantum=") && !starts(x, "qseed=")) q += (q.empty() ? "" : " ") + x; l = q; } else if (!t.empty() && t[0] == "sw") continue; M.push_back(l); }
			for (auto& t : g.ev) if (t[0] == "SWITCHED") M.push_back("sw " + field(t, "op") + " " + field(t, "step") + " " + field(t, "to"));
			if (M.size() < L.size() + 500 && fails(join(M))) L = M;
		}
		auto kept = [&](const S& l) { return starts(l, "#") || starts(l, "opt "); };
		for (int pass = 0; pass < 3 && now_s() < deadline; ++pass)
		{
			size_t before = L.size();
			for (const char* kind : {"sw ", "stall ", "fault ", "op ", "nop ", "obj ", "order"})
			{
				size_t n = 0; for (auto& l : L) if (starts(l, kind)) ++n; if (!n) continue;
				for (size_t chunk = n; chunk >= 1 && now_s() < deadline; chunk = chunk == 1 ? 0 : (chunk + 1) / 2)
				{
					for (bool again = true; again && now_s() < deadline;)
					{
						again = false; std::vector<size_t> at; for (size_t i = 0; i < L.size(); ++i) if (starts(L[i], kind)) at.push_back(i); if (at.empty()) break;
						std::vector<S> cand; std::vector<std::vector<S>> cl;
						for (size_t b = 0; b < at.size(); b += chunk)
						{
							size_t e = std::min(at.size(), b + chunk), lo = at.size() - e, hi = at.size() - b;      // from the end: later lines depend on earlier ones
							std::set<size_t> drop(at.begin() + lo, at.begin() + hi); std::vector<S> M; for (size_t i = 0; i < L.size(); ++i) if (!drop.count(i)) M.push_back(L[i]); cand.push_back(join(M)); cl.push_back(M);
						}
						int f = first(cand); if (f >= 0) { L = cl[f]; again = true; }
					}
				}
			}
			for (size_t i = 0; i < L.size() && now_s() < deadline; ++i)
			{
				if (starts(L[i], "opt "))
				{
					Toks t = split(L[i]); for (size_t k = 1; k < t.size();) { if (starts(t[k], "nthreads=") || starts(t[k], "mini=")) { ++k; continue; } Toks u = t; u.erase(u.begin() + k); S q; for (auto& x : u) q += (q.empty() ? "" : " ") + x; std::vector<S> M = L; M[i] = q; if (fails(join(M))) { L = M; t = u; } else ++k; if (now_s() > deadline) break; }
				}
				size_t q = L[i].find("rep="); if (q != S::npos && starts(L[i], "op ")) { int n = atoi(L[i].c_str() + q + 4), lo = 1, hi = n; while (lo < hi && now_s() < deadline) { int m = (lo + hi) / 2; std::vector<S> M = L; M[i] = L[i].substr(0, q + 4) + num(m); if (fails(join(M))) { hi = m; L = M; } else lo = m + 1; } }
			}
			if (L.size() == before) break;
		}
		return join(L);
	}
};

static int replay(const S& path, bool verbose)
{
	S t = slurp(path); if (t.empty()) { fprintf(stderr, "no such replay file: %s\n", path.c_str()); return 3; }
	S key; for (auto& l : lines_of(t)) if (starts(l, "# key=")) key = l.substr(6);
	Worker w(exe()); Eval e(w, nullptr); std::vector<Viol> v = e.judge(t); S raw = w.run(t);
	printf("execution hash %016llx\n", (unsigned long long)fnv(raw));
	for (auto& x : v) printf("%s\n    %s\n", x.key.c_str(), x.msg.c_str());
	if (verbose) printf("---- event log\n%s", raw.c_str());
	bool ok = key.empty() ? !v.empty() : has_key(v, key);
	printf(ok ? "violation reproduced\n" : "violation NOT reproduced\n"); return ok ? 1 : 0;
}
static int sub_replay(const S& file, S& hash)
{
	S cmd = self_dir() + "/simdrive replay '" + file + "'"; FILE* p = popen(cmd.c_str(), "r"); if (!p) return -1; S o; char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, p)) > 0) o.append(b, n); int st = pclose(p);
	for (auto& l : lines_of(o)) if (starts(l, "execution hash ")) hash = l.substr(15); return WIFEXITED(st) ? WEXITSTATUS(st) : -1;
}

static void scan_all(int nw, std::vector<Hot>& hot)
{
	std::vector<std::vector<Hot>> part(16); std::atomic<size_t> next{0}; std::vector<std::thread> th;
	for (int i = 0; i < nw; ++i) th.emplace_back([&] { Worker w(exe()); for (size_t q; (q = next++) < part.size();) Gen::scan(w, q, part.size(), part[q]); });
	for (auto& x : th) x.join(); for (auto& p : part) hot.insert(hot.end(), p.begin(), p.end());
}
static S hot_name(const Hot& h) { return h.e.name + "/" + num(h.e.k) + (h.to < 0 ? S() : " to " + num(h.to)) + (h.from < 0 ? S() : " from " + num(h.from)); }
static bool uses_scan(const S& p) { return p.size() == 3 && p != "P07"; }
static int check(const S& prop)
{
	double t0 = now_s(); u64 seed = (u64)strtoull(env_s("VERIF_SEED", "1").c_str(), 0, 10); S tier = env_s("VERIF_TIER", "quick"); if (tier != "thorough") tier = "quick"; bool deep = tier == "thorough";
	double budget = (double)env_n("SIM_SECONDS", deep ? 760 : 60); int nw = (int)env_n("SIM_WORKERS", 8); u64 max_cases = (u64)env_n("SIM_CASES", 1000000000), min_cases = max_cases < 1000000000 ? max_cases : 400;
	printf("property=%s seed=%llu tier=%s\n", prop.c_str(), (unsigned long long)seed, tier.c_str()); fflush(stdout);
	std::vector<Known> known; for (auto& k : known_findings()) if (k.prop == prop) known.push_back(k);
	std::atomic<u64> next{0}; std::atomic<u64> stop_at{~0ull}; std::mutex m; std::vector<Found> found; std::vector<S> harness; std::map<S, u64> known_hits; Counters total; S edges; std::vector<S> samples; u64 cases = 0, rechecks = 0, mismatches = 0; S mismatch_text;
	std::vector<Hot> hot; if (uses_scan(prop)) scan_all(nw, hot);
	std::vector<std::thread> th;
	for (int i = 0; i < nw; ++i) th.emplace_back([&] {
		Worker w(exe()); Counters c; Eval e(w, &c); u64 done = 0, rc = 0, mm = 0, seen = 0; S mmt;
		for (;;)
		{
			u64 idx = next++; if (idx >= max_cases || idx > stop_at) break;
			double t = now_s() - t0; if ((t > budget && idx >= min_cases) || t > budget * 4 + 60) break;
			bool over = false; u64 k = 0;
			Emit emit = [&](const S& text) {
				if (idx > stop_at) return false;
				std::vector<Viol> v = e.judge(text);
				if (++seen % 97 == 1 || (text.size() < 3000 && seen % 31 == 0)) { ++rc; if (fnv(w.run(text)) != fnv(w.run(text))) { ++mm; mmt = text; } }
				if (k++ == 0 && idx < 40 && idx % 8 == 0 && text.size() < 4000) { std::lock_guard<std::mutex> g(m); if (samples.size() < 4) samples.push_back("case " + num((long long)idx) + "\n" + text); }
				for (auto& x : v)
				{
					if (x.key == "HARNESS") { std::lock_guard<std::mutex> g(m); if (harness.size() < 5) harness.push_back(x.msg + " in case " + num((long long)idx)); continue; }
					bool kn = false; for (auto& q : known) if (q.key == nospace(x.key)) { kn = true; std::lock_guard<std::mutex> g(m); ++known_hits[q.key]; }
					if (kn) continue;
					std::lock_guard<std::mutex> g(m); found.push_back({idx, case_seed(seed, prop, idx), text, x}); over = true; u64 s = stop_at; while (idx < s && !stop_at.compare_exchange_weak(s, idx)) {} break;
				}
				return !over;
			};
			Gen g(w, &c, emit, deep); g.hot = &hot; g.run(prop, case_seed(seed, prop, idx), idx); ++done; if (over) break;
		}
		S ed = w.edges(); std::lock_guard<std::mutex> g(m); total.merge(c); cases += done; rechecks += rc; mismatches += mm; if (mm) mismatch_text = mmt; if (edges.size() < ed.size()) edges.resize(ed.size(), 0); for (size_t q = 0; q < ed.size(); ++q) edges[q] |= ed[q];
	});
	for (auto& x : th) x.join();
	double searched = now_s() - t0; int rc = 0; S vline, note; u64 nviol = 0;
	if (!found.empty())
	{
		std::sort(found.begin(), found.end(), [](const Found& a, const Found& b) { return a.idx < b.idx; });
		rc = 3; std::set<S> keys; mkdir((root() + "/replays").c_str(), 0777);
		for (auto& f : found)
		{
			if (rc == 1 || keys.size() >= 3) break; if (!keys.insert(f.v.key).second) continue;
			Mini mi; mi.key = f.v.key; bool stat = starts(f.v.key, "STAT"); mi.deadline = now_s() + (stat ? 0 : 30); for (int i = 0; i < nw; ++i) mi.ws.emplace_back(new Worker(exe()));
			S small = stat ? f.text : mi.run(f.text); S msg = f.v.msg; size_t n0 = lines_of(f.text).size(), n1 = lines_of(small).size();
			for (int which = 0; which < 2 && rc != 1; ++which)
			{
				S t = which ? f.text : small; Worker w(exe()); Eval e(w, nullptr); std::vector<Viol> v = e.judge(t); if (!has_key(v, f.v.key)) { note += "violation did not repeat in a fresh process: " + f.v.key + "; "; continue; } for (auto& x : v) if (x.key == f.v.key) { msg = x.msg; break; }
				S one = w.run(t), two = w.run(t); if (one != two) { note += "execution is not repeatable: " + f.v.key + "; "; continue; }
				S file = root() + "/replays/" + prop + "-" + num((long long)seed) + "-" + num((long long)f.idx) + ".scn"; S body = "# property=" + prop + "\n# key=" + f.v.key + "\n# VERIF_SEED=" + num((long long)seed) + " case=" + num((long long)f.idx) + " case seed=" + std::to_string(f.seed) + " tier=" + tier + "\n# " + msg + "\n# minimised from " + num((long long)n0) + " to " + num((long long)(which ? n0 : n1)) + " lines; replay with: build/simdrive replay <this file>\n" + t;
				S body1; for (auto& l : lines_of(body)) body1 += l + "\n";
				if (!spit(file, body1)) { note += "cannot write " + file + "; "; continue; }
				S h1, h2; int r1 = sub_replay(file, h1), r2 = sub_replay(file, h2); if (r1 != 1 || r2 != 1 || h1 != h2 || h1.empty()) { note += "replay file does not reproduce: " + f.v.key + "; "; continue; }
				char rp[4096]; vline = "VIOLATION property=" + prop + " replay=" + (realpath(file.c_str(), rp) ? S(rp) : file); printf("key=%s\n%s\nseed=%llu case=%llu, %zu lines minimised to %zu after %llu executions\n%s\n", f.v.key.c_str(), msg.c_str(), (unsigned long long)seed, (unsigned long long)f.idx, n0, which ? n0 : n1, (unsigned long long)mi.tried, vline.c_str()); rc = 1; ++nviol;
			}
		}
		if (rc == 3) fprintf(stderr, "%s\n", note.c_str());
	}
	if (!harness.empty()) { for (auto& h : harness) fprintf(stderr, "harness: %s\n", h.c_str()); if (rc == 0) rc = 3; }
	if (mismatches) { fprintf(stderr, "warning: %llu of %llu executions repeated differently\n", (unsigned long long)mismatches, (unsigned long long)rechecks); spit(root() + "/build/mismatch.scn", mismatch_text); }
	if (!rc || rc == 1) for (auto& k : known) printf("KNOWN-FINDING: property=%s %s\n", prop.c_str(), k.what.c_str());
	double wall = now_s() - t0; size_t hit = 0; for (char x : edges) hit += x != 0;
	S hots; { std::set<S> u; for (auto& h : hot) u.insert(hot_name(h)); for (auto& x : u) hots += (hots.empty() ? "" : ", ") + js(x); }
	std::ostringstream o; Counters& c = total; double hrs = searched / 3600;
	auto mapj = [&](const std::map<S, u64>& q) { S s = "{"; for (auto& k : q) s += (s.size() > 1 ? ", " : "") + js(k.first) + ": " + num((long long)k.second); return s + "}"; };
	std::map<S, u64> stepmax, notes; for (auto& k : c.note) if (starts(k.first, "max_steps")) stepmax[k.first.substr(19)] = k.second; else notes[k.first] = k.second;
	o << "{\n \"property\": " << js(prop) << ",\n \"tier\": " << js(tier) << ",\n \"seed\": " << seed << ",\n \"level\": \"exploration\",\n \"coverage\": {\n";
	o << "  \"evaluations\": " << c.runs << ",\n  \"distinct_nontrivial\": " << c.execs.size() << ",\n";
	o << "  \"rule\": \"one case per seed: random objects and calls on 1..4 simulated callers; each scenario of a case adds faults (failing allocations, throwing or re-entering or stalled gamma functions) and preemptions at chosen steps. Counted as non-trivial: a fault fired, a preemption happened, or at least three calls ran; distinct by hash of the complete event log.\",\n";
	o << "  \"samples\": ["; for (size_t i = 0; i < samples.size(); ++i) o << (i ? ", " : "") << js(samples[i]); o << "],\n";
	o << "  \"calls_touching_lasting_state\": [" << hots << "],\n  \"cases\": " << cases << ",\n  \"reference_executions\": " << c.refs << ",\n  \"reference_cache_hits\": " << c.refhits << ",\n  \"outcomes_compared\": " << c.compared << ",\n";
	o << "  \"runs_per_hour\": " << (u64)(c.runs / hrs) << ",\n  \"seeds_per_hour\": " << (u64)(cases / hrs) << ",\n  \"simulated_seconds\": " << c.simns / 1e9 << ",\n  \"simulated_steps\": " << c.steps << ",\n  \"library_calls\": " << c.ops << ",\n  \"repeated_calls\": " << c.repcalls << ",\n  \"calls_by_kind\": " << mapj(c.opkinds) << ",\n";
	o << "  \"faults_fired\": " << mapj(c.fired) << ",\n  \"task_switches\": " << c.switches << ",\n  \"stalls\": " << c.stalls << ",\n  \"lock_operations\": " << c.locks << ",\n  \"atomic_operations\": " << c.atomics << ",\n  \"allocations\": " << c.allocs << ",\n  \"simulated_clock_reads\": " << c.clockreads << ",\n  \"random_draws\": " << c.randdraws << ",\n  \"environment_variations\": " << mapj(c.envk) << ",\n";
	o << "  \"distinct_interleavings\": " << c.ilv.size() << ",\n  \"distinct_interleavings_measure\": \"hash of the sequence of (caller, call, step) at which control passed between callers\",\n  \"edges_total\": " << edges.size() << ",\n  \"edges_reached\": " << hit << ",\n";
	o << "  \"determinism_rechecks\": " << rechecks << ",\n  \"determinism_mismatches\": " << mismatches << ",\n  \"skipped_judgements\": " << c.skipped << ",\n  \"notes\": " << mapj(notes) << (stepmax.empty() ? S() : ",\n  \"most_steps_per_unit\": " + mapj(stepmax)) << ",\n";
	o << "  \"known_finding_hits\": " << mapj(known_hits) << ",\n  \"real_components\": [\"every source file of /repo/ColorMagic (compiled from the working tree)\", \"libstdc++ containers, smart pointers and exceptions\", \"libm\"],\n  \"simulated_components\": [\"threads and scheduling\", \"mutexes, condition variables, once flags, static-initialisation guards\", \"heap (malloc, operator new)\", \"clocks and sleeps\", \"C random generator\", \"user gamma functions\"],\n  \"workers\": " << nw << "\n },\n";
	o << " \"assumptions\": [\"sequentially consistent memory between preemption points; data races are detected separately by happens-before\", \"the instrumented build (clang 18, -O1, x86-64) is representative of the shipped build\", \"a sample of schedules, faults and inputs, not all of them\"],\n \"wall_s\": " << wall << ",\n \"violations\": " << nviol << "\n}\n";
	mkdir((root() + "/evidence").c_str(), 0777); if (!spit(root() + "/evidence/" + prop + ".json", o.str())) { fprintf(stderr, "cannot write evidence\n"); if (!rc) rc = 3; }
	printf("%s: %llu executions of %llu cases, %llu distinct, %.1f s, %s\n", prop.c_str(), (unsigned long long)c.runs, (unsigned long long)cases, (unsigned long long)c.execs.size(), wall, rc == 0 ? "held on everything explored" : rc == 1 ? "violated" : "error of the check");
	return rc;
}

int main(int ac, char** av)
{
	signal(SIGPIPE, SIG_IGN); opdef("conv"); value_ops(); mut_ops(); value_kinds(); mut_kinds();      // tables, before any thread
	S cmd = ac > 1 ? av[1] : "";
	if (cmd == "check" && ac > 2) return check(av[2]);
	if (cmd == "replay" && ac > 2) return replay(av[2], ac > 3);
	u64 seed = (u64)strtoull(env_s("VERIF_SEED", "1").c_str(), 0, 10); bool deep = env_s("VERIF_TIER", "quick") == "thorough";
	std::vector<Hot> hot; S hp = ac > 2 ? av[2] : ""; if (cmd == "scan" || ((cmd == "dump" || cmd == "hash") && uses_scan(hp))) scan_all((int)env_n("SIM_WORKERS", 8), hot);
	if (cmd == "scan") {  for (auto& h : hot) printf("%s\n", hot_name(h).c_str()); return 0; }
	if (cmd == "dump" && ac > 3)
	{
		Worker w(exe()); Eval e(w, nullptr); int n = 0; Gen g(w, nullptr, [&](const S& t) { printf("==== scenario %d\n%s", n++, t.c_str()); if (ac > 4) printf("---- log\n%s", w.run(t).c_str()); for (auto& v : e.judge(t)) printf("!!! %s\n    %s\n", v.key.c_str(), v.msg.c_str()); return true; }, deep); g.hot = &hot; u64 idx = strtoull(av[3], 0, 10); g.run(av[2], case_seed(seed, av[2], idx), idx); return 0;
	}
	if (cmd == "hash" && ac > 3)
	{
		u64 n = strtoull(av[3], 0, 10); int nw = (int)env_n("SIM_WORKERS", 8); std::atomic<u64> next{0}; std::vector<S> out(n); std::vector<std::thread> th;
		for (int i = 0; i < nw; ++i) th.emplace_back([&] { Worker w(exe()); for (;;) { u64 idx = next++; if (idx >= n) break; S s; Gen g(w, nullptr, [&](const S& t) { char b[64]; snprintf(b, sizeof b, " %08llx:%016llx", (unsigned long long)fnv(t) & 0xffffffff, (unsigned long long)fnv(w.run(t))); s += b; return true; }, deep); g.hot = &hot; g.run(av[2], case_seed(seed, av[2], idx), idx); out[idx] = num((long long)idx) + s; } });
		for (auto& x : th) x.join(); for (auto& l : out) puts(l.c_str()); return 0;
	}
	fprintf(stderr, "usage: simdrive check|replay|dump|hash ...\n"); return 3;
}
