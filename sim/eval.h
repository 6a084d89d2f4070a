// Judges one scenario: runs it, runs the reference executions it needs, returns the violations.
#pragma once
#include "world.h"

struct OpLine { int tid = 0, id = 0; S name; Toks a; bool nop = false; int rep = 1; };
struct Scn { S prop; std::map<S, S> dir, opt; std::map<int, OpLine> ops; std::map<int, std::vector<Toks>> faults; std::vector<S> objs; bool has_fault = false; };
static Scn parse_scn(const S& text)
{
	Scn s;
	for (S l : lines_of(text))
	{
		if (starts(l, "#!")) { for (auto& t : split(l)) { size_t e = t.find('='); if (e != S::npos) s.dir[t.substr(0, e)] = t.substr(e + 1); } continue; }
		if (l.empty() || l[0] == '#') continue;
		S tail; size_t c = l.find(';'); if (c != S::npos) { tail = l.substr(c + 1); l = l.substr(0, c); }
		Toks t = split(l); if (t.empty()) continue;
		if (t[0] == "opt") { for (auto& x : t) { size_t e = x.find('='); if (e != S::npos) s.opt[x.substr(0, e)] = x.substr(e + 1); } }
		else if (t[0] == "obj") s.objs.push_back(l);
		else if ((t[0] == "op" || t[0] == "nop") && t.size() > 3) { OpLine o; o.tid = atoi(t[1].c_str()); o.id = atoi(t[2].c_str()); o.name = t[3]; o.a.assign(t.begin() + 4, t.end()); o.nop = t[0] == "nop"; size_t q = tail.find("rep="); if (q != S::npos) o.rep = atoi(tail.c_str() + q + 4); s.ops[o.id] = o; }
		else if (t[0] == "fault" && t.size() > 2) { s.faults[atoi(t[1].c_str())].push_back(t); s.has_fault = true; }
	}
	s.prop = s.dir["prop"];
	return s;
}
struct Viol { S key, msg; };
struct Ref { S out, fatal; u64 steps = 0; bool ok = false; };

struct Counters
{
	u64 runs = 0, refs = 0, refhits = 0, ops = 0, steps = 0, simns = 0, switches = 0, stalls = 0, allocs = 0, nontrivial = 0, compared = 0, fair = 0, locks = 0, atomics = 0, clockreads = 0, randdraws = 0, repcalls = 0, skipped = 0;
	std::map<S, u64> fired; std::map<S, u64> opkinds; std::unordered_set<u64> ilv, execs; std::map<S, u64> envk; std::map<S, u64> note;
	void merge(const Counters& c)
	{
		runs += c.runs; refs += c.refs; refhits += c.refhits; ops += c.ops; steps += c.steps; simns += c.simns; switches += c.switches; stalls += c.stalls; allocs += c.allocs; nontrivial += c.nontrivial; compared += c.compared; fair += c.fair; locks += c.locks; atomics += c.atomics; clockreads += c.clockreads; randdraws += c.randdraws; repcalls += c.repcalls; skipped += c.skipped;
		for (auto& k : c.fired) fired[k.first] += k.second; for (auto& k : c.opkinds) opkinds[k.first] += k.second; for (auto& k : c.envk) envk[k.first] += k.second; for (auto& k : c.note) note[k.first] += k.second;
		ilv.insert(c.ilv.begin(), c.ilv.end()); execs.insert(c.execs.begin(), c.execs.end());
	}
};

struct Eval
{
	Worker& w; Counters* cnt; Eval(Worker& x, Counters* c) : w(x), cnt(c) {}
	Ref ref(const S& mini)
	{
		auto it = w.refs.find(mini); S raw;
		if (it != w.refs.end()) { raw = it->second; if (cnt) ++cnt->refhits; }
		else
		{
			if (cnt) ++cnt->refs;
			Log L = parse_log(w.run("opt nthreads=1 garbage=0 budget=8000000\n" + mini));
			const Ope* o = L.op(99999);
			if (!L.fatal.empty()) raw = "F" + L.fatal; else if (o && L.end) raw = "V" + num((long long)o->steps) + " " + o->out; else raw = "?";
			if (w.refs.size() > 20000) w.refs.clear();
			w.refs[mini] = raw;
		}
		Ref r; if (raw[0] == 'F') { r.ok = true; r.fatal = raw.substr(1); } else if (raw[0] == 'V') { r.ok = true; size_t sp = raw.find(' '); r.steps = strtoull(raw.c_str() + 1, 0, 10); r.out = raw.substr(sp + 1); }
		return r;
	}
	static S bare(const S& out) { if (out.empty() || out[0] != 'X') return out; size_t p = out.find(" -> "); return p == S::npos ? out : out.substr(0, p); }
	static S user_exc(int k)
	{
		static const char* t[] = {"X user UserErr 4242 user", "X user UserStd 4343 [user gamma error]", "X user int 17", "X user UserErr* same", "X val std::bad_alloc", "X user char* text", "X ptr std::out_of_range [user out of range]", "X val std::invalid_argument [user invalid argument]"};
		return k >= 0 && k < 8 ? t[k] : "";
	}
	static S cut(const S& s, size_t n = 420) { return s.size() > n ? s.substr(0, n) + "..." : s; }
	void count(const Scn& s, const Log& L, const S& raw)
	{
		if (!cnt) return;
		++cnt->runs; cnt->ops += L.ops.size();
		auto g = [&](const char* k) -> u64 { auto i = L.stats.find(k); return i == L.stats.end() ? 0 : i->second; };
		cnt->steps += g("steps"); cnt->simns += g("simns"); cnt->switches += g("switches"); cnt->stalls += g("stalls"); cnt->allocs += g("allocs"); cnt->fair += g("fair"); cnt->locks += g("locks"); cnt->atomics += g("atomics"); cnt->clockreads += g("clock"); cnt->randdraws += g("rand");
		bool nt = false;
		for (auto& f : L.fired) for (auto& l : f.second) { Toks t = split(l); ++cnt->fired[t[1]]; nt = true; }
		for (auto& o : L.ops) { auto i = s.ops.find(o.id); if (i != s.ops.end()) { ++cnt->opkinds[i->second.name]; if (i->second.rep > 1) cnt->repcalls += i->second.rep; } }
		for (const char* k : {"garbage", "reuse", "clock", "scribble", "ambient", "envvars"}) { auto i = s.opt.find(k); if (i != s.opt.end() && i->second != "0") ++cnt->envk[S(k) + (S(k) == "ambient" || S(k) == "envvars" ? S() : "=" + i->second)]; }
		u64 mtsw = 0; for (auto& e : L.ev) if (e[0] == "SWITCHED") ++mtsw;
		if (mtsw) { cnt->fired["preemption"] += mtsw; nt = true; }
		if (L.ops.size() >= 3) nt = true;
		if (!L.ilv.empty() && mtsw) cnt->ilv.insert(strtoull(L.ilv.c_str(), 0, 16));
		if (nt && cnt->execs.insert(fnv(raw)).second) ++cnt->nontrivial;
	}
	void fatal_check(const Scn& s, const Log& L, std::vector<Viol>& v, const std::set<S>& kinds)
	{
		if (L.fatal.empty() || L.fatal == "ARENA_FULL") return;
		S k = L.fatal.substr(0, L.fatal.find(':')); if (!kinds.count(k)) return;
		auto m = L.mini.find(L.fatal_op); auto o = s.ops.find(L.fatal_op);
		if (L.fatal_op)
		{
			if (m == L.mini.end()) { if (cnt) ++cnt->skipped; return; }
			Ref r = ref(m->second); if (!r.ok || r.fatal.substr(0, r.fatal.find(':')) == k) return;
		}
		v.push_back({"FATAL:" + L.fatal + ":" + (o == s.ops.end() ? S("none") : o->second.name), L.fatal_line + (o == s.ops.end() ? S() : " (" + o->second.name + "), which alone completes normally")});
	}
	static bool hard_fault(const Log& L, int id) { auto i = L.fired.find(id); if (i == L.fired.end()) return false; for (auto& l : i->second) if (starts(l, "FIRED alloc") || starts(l, "FIRED throw")) return true; return false; }
	// the scenario reduced to some of its operations, all performed by one thread, in a plain environment
	template<class F> static S reduced(const S& text, F keep)
	{
		std::vector<S> v = lines_of(text); std::set<int> need; S out;
		for (size_t i = v.size(); i-- > 0;)
		{
			Toks t = split(v[i]); if (t.size() < 4 || (t[0] != "op" && t[0] != "nop")) continue;
			int id = atoi(t[2].c_str()); if (t[0] == "op" && !keep(atoi(t[1].c_str()), id, t[3]) && !need.count(id)) { v[i].clear(); continue; }
			for (size_t j = 4; j < t.size() && t[j][0] != ';'; ++j) { size_t d = t[j].find('.'); if (d != S::npos && d > 0) need.insert(atoi(t[j].c_str())); }
			if (t[0] == "op" && t[1] != "0") { t[1] = "1"; S l; for (auto& x : t) l += (l.empty() ? "" : " ") + x; v[i] = l; }
		}
		for (auto& l : v) if (!l.empty() && !starts(l, "sw ") && !starts(l, "stall ") && !starts(l, "order ")) out += l + "\n";
		return out + "opt nthreads=1 races=0 quantum=0 garbage=0 reuse=0 shift=0 clock=0 scribble=0 stale=0 envvars=0 budget=8000000\n";
	}
	// outcomes of operations in a reduced run, by operation; false when that run does not end normally
	bool alone(const S& text, const Log& whole, std::map<int, S>& out)
	{
		auto it = w.refs.find(text); S raw;
		if (it != w.refs.end()) { raw = it->second; if (cnt) ++cnt->refhits; }
		else
		{
			if (cnt) ++cnt->refs;
			raw = w.run(text); if (w.refs.size() > 20000) w.refs.clear(); w.refs[text] = raw;
		}
		Log L = parse_log(raw); if (!L.fatal.empty() || !L.end) return false;
		// calls that did not apply (an object in use cannot be destroyed) have to be the same ones
		std::set<int> a, b; for (auto& x : L.ev) if (x[0] == "NOP") a.insert(atoi(x[1].c_str()));
		for (auto& x : whole.ev) if (x[0] == "NOP") b.insert(atoi(x[1].c_str()));
		if (!b.empty()) { Scn s = parse_scn(text); for (auto i = b.begin(); i != b.end();) if (s.ops.count(*i)) ++i; else i = b.erase(i); }
		if (a != b) return false;
		// and the same faults have to strike: how many allocations a call makes may depend on what came before it
		for (auto& o : L.ops) if (hard_fault(L, o.id) != hard_fault(whole, o.id)) return false;
		for (auto& o : L.ops) out[o.id] = o.out;
		return true;
	}
	// threads: every thread's operations give what they give when the thread runs alone after the same preparation
	void compare_threads(const Scn& s, const S& text, const Log& L, std::vector<Viol>& v)
	{
		std::set<int> tids; for (auto& o : s.ops) if (o.second.tid > 0) tids.insert(o.second.tid);
		for (int t : tids)
		{
			std::map<int, S> ref; bool ok = alone(reduced(text, [&](int tid, int, const S&) { return tid == 0 || tid == t; }), L, ref);
			auto fo = s.ops.find(L.fatal_op);
			if (!ok) { if (cnt) ++cnt->skipped; continue; }
			if (!L.fatal.empty() && L.fatal != "ARENA_FULL" && (fo == s.ops.end() || fo->second.tid == t)) v.push_back({"FATAL:" + L.fatal + ":" + (fo == s.ops.end() ? S("none") : fo->second.name), L.fatal_line + ", although every thread alone completes normally"});
			for (auto& o : L.ops)
			{
				auto so = s.ops.find(o.id); if (so == s.ops.end() || so->second.tid != t || !ref.count(o.id) || hard_fault(L, o.id)) continue;
				if (cnt) ++cnt->compared;
				if (ref[o.id] != o.out) v.push_back({"OUTCOME:" + so->second.name, "operation " + num(o.id) + " (" + so->second.name + ") gave [" + cut(o.out) + "], with its thread running alone it gives [" + cut(ref[o.id]) + "]"});
			}
		}
	}
	// history: an operation gives what it gives when the calls before it that change nothing are left out
	void compare_history(const Scn& s, const S& text, const Log& L, std::vector<Viol>& v)
	{
		int n = 0;
		for (size_t i = L.ops.size(); i-- > 0 && n < 3;)
		{
			auto& o = L.ops[i]; auto so = s.ops.find(o.id); if (so == s.ops.end() || so->second.nop || hard_fault(L, o.id) || (opdef(so->second.name)->flags & F_MUT)) continue;
			++n; std::map<int, S> ref;
			if (!alone(reduced(text, [&](int, int id, const S& name) { const OpDef* d = opdef(name); return id == o.id || (d && (d->flags & (F_MUT | F_LIFE))); }), L, ref) || !ref.count(o.id)) { if (cnt) ++cnt->skipped; continue; }
			if (cnt) ++cnt->compared;
			if (ref[o.id] != o.out) v.push_back({"OUTCOME:" + so->second.name, "operation " + num(o.id) + " (" + so->second.name + ") gave [" + cut(o.out) + "], without the earlier calls that change nothing it gives [" + cut(ref[o.id]) + "]"});
		}
	}
	enum { MUTS = 1, VALUES = 2 };
	void compare(const Scn& s, const Log& L, std::vector<Viol>& v, int which = 3)
	{
		for (auto& o : L.ops)
		{
			if (hard_fault(L, o.id)) continue;
			auto m = L.mini.find(o.id); auto so = s.ops.find(o.id); if (m == L.mini.end() || so == s.ops.end()) continue;
			bool mut = opdef(so->second.name)->flags & F_MUT; if (!(which & (mut ? MUTS : VALUES))) continue;
			Ref r = ref(m->second); if (!r.ok) { if (cnt) ++cnt->skipped; continue; }
			if (cnt) ++cnt->compared;
			S want = r.fatal.empty() ? r.out : "FATAL " + r.fatal;
			if (want != o.out) v.push_back({"OUTCOME:" + so->second.name, "operation " + num(o.id) + " (" + so->second.name + ") gave [" + cut(o.out) + "], alone in a fresh process it gives [" + cut(want) + "]"});
		}
	}
	void lines(const Scn& s, const Log& L, std::vector<Viol>& v, const std::set<S>& kinds, bool values_only = false)
	{
		for (size_t i = 0; i < L.ev.size(); ++i)
		{
			if (!kinds.count(L.ev[i][0])) continue;
			int id = atoi(field(L.ev[i], "op").c_str()); auto o = s.ops.find(id); S name = o == s.ops.end() ? S("none") : o->second.name;
			if (values_only && (o == s.ops.end() || (opdef(name) && opdef(name)->flags & F_MUT))) continue;
			v.push_back({L.ev[i][0] + ":" + name, cut(L.raw[i], 700)});
		}
	}
	std::vector<Viol> judge(const S& text, Log* out = nullptr)
	{
		std::vector<Viol> v; Scn s = parse_scn(text); const S& p = s.prop;
		S raw = w.run(text); Log L = parse_log(raw); count(s, L, raw);
		if (out) *out = L;
		if (L.full) return v;      // not all of it could be written down
		if (!L.harness.empty()) { v.push_back({"HARNESS", L.harness}); return v; }
		static const std::set<S> memf = {"MEM", "CRASH", "ABORTED", "EXITED", "KILLED", "NOEND"}, allf = {"MEM", "CRASH", "ABORTED", "EXITED", "KILLED", "NOEND", "STEP_LIMIT", "DEADLOCK"};
		if (p == "P01")
		{
			for (size_t i = 0; i < L.ev.size(); ++i) if (L.ev[i][0] == "RACE")
			{
				std::vector<S> n; for (auto& t : L.ev[i]) if (starts(t, "op=")) { auto o = s.ops.find(atoi(t.c_str() + 3)); n.push_back(o == s.ops.end() ? "none" : o->second.name); } std::sort(n.begin(), n.end());
				S k = "RACE"; for (auto& x : n) k += ":" + x; v.push_back({k, L.raw[i]});
			}
			auto nv = s.opt.find("noval"); if (nv != s.opt.end() && nv->second != "0") { compare_threads(s, text, L, v); return v; }
			compare(s, L, v); fatal_check(s, L, v, allf);
		}
		else if (p == "P02" && s.opt.count("noval") && s.opt["noval"] != "0") { compare_history(s, text, L, v); lines(s, L, v, {"REPDIFF"}); }
		else if (p == "P02") { compare(s, L, v); lines(s, L, v, {"REPDIFF"}); fatal_check(s, L, v, allf); }
		else if (p == "P03") lines(s, L, v, {"CHG", "MID"}, true);
		else if (p == "P04")
		{
			for (auto& o : L.ops)
			{
				auto f = L.fired.find(o.id); auto so = s.ops.find(o.id); if (f == L.fired.end() || so == s.ops.end()) continue;
				if (bare(o.out) == "X val std::bad_alloc") continue;
				auto m = L.mini.find(o.id); if (m == L.mini.end()) continue;
				Ref r = ref(m->second); if (!r.ok || !r.fatal.empty()) continue;
				if (cnt) ++cnt->compared;
				if (r.out != o.out) v.push_back({"OOM:" + so->second.name, "operation " + num(o.id) + " (" + so->second.name + ") with a failing allocation gave [" + cut(o.out) + "], neither std::bad_alloc nor its normal outcome [" + cut(r.out) + "]"});
			}
			compare(s, L, v); lines(s, L, v, {"VER", "CHG", "HALFWAY"}); fatal_check(s, L, v, allf);
		}
		else if (p == "P05")
		{
			for (auto& o : L.ops)
			{
				auto so = s.ops.find(o.id); if (so == s.ops.end() || !hard_fault(L, o.id) || !(opdef(so->second.name)->flags & F_MUT)) continue;
				S b = bare(o.out); bool ok = b == "X val std::bad_alloc"; auto& fl = s.faults[o.id]; for (auto& f : fl) if (f[2] == "throw" && f.size() > 4 && b == user_exc(atoi(f[4].c_str()))) ok = true;
				if (ok) continue;
				auto m = L.mini.find(o.id); if (m == L.mini.end()) continue; Ref r = ref(m->second); if (!r.ok || !r.fatal.empty()) continue;
				if (r.out != o.out) v.push_back({"FAULTED:" + so->second.name, "operation " + num(o.id) + " (" + so->second.name + ") hit by a fault gave [" + cut(o.out) + "], neither the fault nor its normal outcome [" + cut(r.out) + "]"});
			}
			compare(s, L, v, MUTS); lines(s, L, v, {"HALFWAY", "MODEL", "INCOHERENT", "VER"}); fatal_check(s, L, v, memf);
		}
		else if (p == "P06")
		{
			for (auto& o : L.ops)
			{
				auto so = s.ops.find(o.id); auto f = L.fired.find(o.id); if (so == s.ops.end() || f == L.fired.end()) continue;
				int kind = -1; bool alloc = false; for (auto& l : f->second) { if (kind < 0 && starts(l, "FIRED throw")) kind = atoi(field(split(l), "arg").c_str()); if (starts(l, "FIRED alloc")) alloc = true; }
				if (kind < 0 || alloc) continue;
				if (cnt) ++cnt->compared;
				if (bare(o.out) != user_exc(kind)) v.push_back({"USEREXC:" + so->second.name, "operation " + num(o.id) + " (" + so->second.name + "): its gamma function threw [" + user_exc(kind) + "] but the caller saw [" + cut(o.out) + "]"});
			}
			compare(s, L, v); lines(s, L, v, {"VER", "CHG", "HALFWAY", "STALLBLOCK"}); fatal_check(s, L, v, allf);
		}
		else if (p == "P07") dissolve(s, L, v);
		else if (p == "P08")
		{
			for (auto& o : L.ops)      // an argument may come back only where that is documented
			{
				auto so = s.ops.find(o.id); static const std::set<S> may = {"conv", "to", "adapt", "adj", "comb"}; if (so == s.ops.end() || may.count(so->second.name) || starts(so->second.name, "cp")) continue;
				for (auto& t : split(o.out)) if (starts(t, "=@")) { Toks k = so->second.a; bool arg = std::find(k.begin(), k.end(), t.substr(2)) != k.end(); if (arg) v.push_back({"ALIAS:" + so->second.name, "operation " + num(o.id) + " (" + so->second.name + ") returned its own argument " + t.substr(2)}); }
			}
			compare(s, L, v, VALUES); lines(s, L, v, {"VER", "SHARED"}); fatal_check(s, L, v, {"MEM", "CRASH", "KILLED"});
		}
		else if (p == "P09")
		{
			for (auto& o : L.ops)
			{
				auto so = s.ops.find(o.id); if (so == s.ops.end()) continue;
				u64 b = bound(so->second); if (cnt) { u64& mx = cnt->note["max_steps_per_unit:" + so->second.name]; u64 u = o.steps / units(so->second); if (u > mx) mx = u; }
				if (o.steps > b) v.push_back({"STEPS:" + so->second.name, "operation " + num(o.id) + " (" + so->second.name + ") took " + num((long long)o.steps) + " steps, bound " + num((long long)b)});
			}
			// the work of the same call must not go on growing with the calls before it
			auto growing = [&](int op, u64 a, u64 b, u64 c, u64 calls)
			{
				auto so = s.ops.find(op); if (so == s.ops.end()) return; if (cnt) { ++cnt->compared; ++cnt->note["calls measured again after long histories"]; }
				if (c > b + 500 && b > a + 120) v.push_back({"GROWING:" + so->second.name, "operation " + num(op) + " (" + so->second.name + ") took " + num((long long)a) + ", " + num((long long)b) + ", " + num((long long)c) + " steps after a quarter, half and all of " + num((long long)calls) + " calls: its work grows with the history"});
			};
			for (auto& t : L.ev) if (t[0] == "GROW") { u64 a = 0, b = 0, c = 0; sscanf(field(t, "steps").c_str(), "%llu,%llu,%llu", &a, &b, &c); growing(atoi(field(t, "op").c_str()), a, b, c, strtoull(field(t, "calls").c_str(), 0, 10)); }
			if (s.dir.count("grow"))
			{
				std::vector<u64> st; bool ok = true; int last = 0; S g = s.dir["grow"]; for (char& c : g) if (c == ',') c = ' ';
				for (auto& t : split(g)) { last = atoi(t.c_str()); const Ope* o = L.op(last); if (!o || hard_fault(L, last)) ok = false; else st.push_back(o->steps); }
				if (ok && st.size() == 6) growing(last, std::min(st[0], st[1]), std::min(st[2], st[3]), std::min(st[4], st[5]), s.ops.size());
			}
			// the work per colour must not grow with the number of colours
			if (s.dir.count("scale"))
			{
				std::vector<u64> st; S g = s.dir["scale"]; for (char& c : g) if (c == ',') c = ' '; Toks ids = split(g);
				for (auto& t : ids) { const Ope* o = L.op(atoi(t.c_str())); if (o && !starts(o->out, "X")) st.push_back(o->steps); }
				if (st.size() == 3 && cnt) { ++cnt->compared; ++cnt->note["calls measured with one, four and eight times as many colours"]; }
				auto so = s.ops.find(ids.empty() ? 0 : atoi(ids[0].c_str()));
				if (st.size() == 3 && so != s.ops.end() && st[2] > 20 * st[0] + 50000 && st[2] > 2.9 * st[1]) v.push_back({"SCALING:" + so->second.name, "operation " + so->second.name + " took " + num((long long)st[0]) + ", " + num((long long)st[1]) + ", " + num((long long)st[2]) + " steps for one, four and eight times as many colours: its work grows faster than their number"});
			}
			if (L.fatal == "STEP_LIMIT" || L.fatal == "DEADLOCK" || L.fatal == "TIMEOUT") { auto o = s.ops.find(L.fatal_op); v.push_back({L.fatal + ":" + (o == s.ops.end() ? S("none") : o->second.name), L.fatal_line}); }
		}
		else if (p == "P10") { lines(s, L, v, {"AMB"}); if (L.fatal == "THREAD_CREATED") v.push_back({"THREAD", L.fatal_line}); }
		// A violation that needs no fault is not one of running out of memory or of a gamma function.
		if ((p == "P04" || p == "P06") && !v.empty() && s.has_fault && s.dir["nostrip"] != "1")
		{
			S t2; for (auto& l : lines_of(text)) if (!starts(l, "fault ")) t2 += l + "\n";
			t2 += "#! nostrip=1\n";
			Counters* c = cnt; cnt = nullptr; std::set<S> also; for (auto& x : judge(t2)) also.insert(x.key); cnt = c;
			std::vector<Viol> keep; for (auto& x : v) if (!also.count(x.key)) keep.push_back(x); v = keep;
		}
		return v;
	}
	// ---- P09
	static u64 units(const OpLine& o)
	{
		if (o.name == "comb") { int k = atoi(o.a[0].c_str()); long n = k == 4 ? atol(o.a[3].c_str()) : k == 6 ? atol(o.a[4].c_str()) : 5; return n < 5 ? 5 : n; }
		if (o.name == "avg") return (o.a.size() - 2) * std::max(1, atoi(o.a[1].c_str()) >> 1) + 2;
		if (o.name == "matu" || o.name == "mat2" || o.name == "mac") return 100;      // the determinant of five by five elements is expanded along a row
		return 1;
	}
	static u64 bound(const OpLine& o) { return 60000 + 20000 * units(o); }
	// ---- P07
	struct Col { int type = -1; float alpha = 0; std::vector<float> c; bool ok = false; };
	// "V1 C{name type max min a<alpha> comps... D..." or "V1 =@id"
	Col col_of(const Scn& s, const S& out)
	{
		Col r;
		if (starts(out, "V1 =@")) { S id = out.substr(5); for (auto& l : s.objs) { Toks t = split(l); if (t[2] == id && t[1] == "C") { r.type = atoi(t[3].c_str()); r.alpha = unhx(t[4]); for (size_t i = 6; i < t.size(); ++i) r.c.push_back(unhx(t[i])); r.ok = true; } } return r; }
		if (!starts(out, "V1 C{")) return r;
		Toks t = split(out.substr(5)); if (t.size() < 6) return r;
		r.type = atoi(t[1].c_str()); r.alpha = unhx(t[4].substr(1));
		for (size_t i = 5; i < t.size() && t[i][0] != 'D'; ++i) r.c.push_back(unhx(t[i]));
		r.ok = true; return r;
	}
	static S obj_line(const Scn& s, const S& id) { for (auto& l : s.objs) { Toks t = split(l); if (t.size() > 2 && t[2] == id) return l; } return ""; }
	void dissolve(const Scn& s, const Log& L, std::vector<Viol>& v)
	{
		for (auto& o : L.ops)
		{
			auto so = s.ops.find(o.id); if (so == s.ops.end()) continue; bool dis = so->second.name == "blend" && so->second.a[0] == "1";
			if (!dis && o.rands) v.push_back({"DRAWS:" + so->second.name, "operation " + num(o.id) + " (" + so->second.name + ") draws " + num(o.rands) + " values from the process-wide random generator"});
			if (o.srands) v.push_back({"RESEED:" + so->second.name, "operation " + num(o.id) + " (" + so->second.name + ") reseeds the process-wide random generator"});
		}
		for (size_t i = 0; i < L.ev.size(); ++i)      // a dissolve with the same draws again and again
		{
			int id = atoi(field(L.ev[i], "op").c_str()); auto so = s.ops.find(id); if (so == s.ops.end()) continue; bool dis = so->second.name == "blend" && so->second.a[0] == "1";
			if (L.ev[i][0] == "REPDIFF" && dis) v.push_back({"REPDIFF:blend", cut(L.raw[i], 700)});
			if (L.ev[i][0] == "AMB" && L.ev[i].size() > 2 && L.ev[i][2] == "srand") v.push_back({"RESEED:" + so->second.name, cut(L.raw[i], 300)});
		}
		compare_dissolve(s, L, v);
		S mode = const_cast<Scn&>(s).dir["mode"];
		if (mode == "model") model(s, L, v);
		if (mode == "stats") stats(s, L, v);
		static const std::set<S> f = {"MEM", "CRASH", "ABORTED", "EXITED", "KILLED", "NOEND"};
		auto o = s.ops.find(L.fatal_op); if (o != s.ops.end() && o->second.name == "blend" && o->second.a[0] == "1") fatal_check(s, L, v, f);
	}
	void compare_dissolve(const Scn& s, const Log& L, std::vector<Viol>& v)
	{
		for (auto& o : L.ops)
		{
			auto m = L.mini.find(o.id); auto so = s.ops.find(o.id); if (m == L.mini.end() || so == s.ops.end() || so->second.name != "blend" || so->second.a[0] != "1" || hard_fault(L, o.id)) continue;
			Ref r = ref(m->second); if (!r.ok || !r.fatal.empty()) continue; if (cnt) ++cnt->compared;
			if (r.out != o.out) v.push_back({"REPRO", "dissolve " + num(o.id) + " gave [" + cut(o.out) + "]; with the same random sequence alone it gives [" + cut(r.out) + "]"});
		}
	}
	// deep forms of the inputs: "to 1" operations on the same colours in this scenario
	std::map<S, Col> deeps(const Scn& s, const Log& L)
	{
		std::map<S, Col> m; for (auto& o : L.ops) { auto so = s.ops.find(o.id); if (so != s.ops.end() && so->second.name == "to" && so->second.a[0] == "1") { Col c = col_of(s, o.out); if (c.ok && c.c.size() == 3) m[so->second.a[1]] = c; } } return m;
	}
	void model(const Scn& s, const Log& L, std::vector<Viol>& v)
	{
		auto dp = deeps(s, L);
		for (auto& o : L.ops)
		{
			auto so = s.ops.find(o.id); if (so == s.ops.end() || so->second.name != "blend" || so->second.a[0] != "1" || so->second.a.size() < 5) continue;
			auto a = dp.find(so->second.a[1]), b = dp.find(so->second.a[2]); if (a == dp.end() || b == dp.end()) continue;
			Col R = col_of(s, o.out); if (!R.ok) continue;
			float sa = a->second.alpha, da = b->second.alpha; float us = so->second.a[3] == "1", ud = so->second.a[4] == "1";
			float A = sa * (1 - da), B = da * (1 - sa), K = sa * da, ra = A * us + B * ud + K;
			if (!(ra > 0.02f)) continue;
			if (cnt) ++cnt->compared;
			// true-colour types keep alpha in 255ths
			if (!(fabsf(R.alpha - ra) <= (R.type == 0 || R.type == 2 ? 0.0041f : 1e-4f))) { v.push_back({"ALPHA", "dissolve " + num(o.id) + " has alpha " + num((long long)(R.alpha * 1e6)) + "e-6, expected " + num((long long)(ra * 1e6)) + "e-6"}); continue; }
			S d = split(obj_line(s, so->second.a[1])).size() > 5 ? split(obj_line(s, so->second.a[1]))[5] : S("0");
			std::vector<std::vector<float>> cand; bool wide = true;
			for (int k = 0; k < 8; ++k)
			{
				std::vector<float> c; for (int i = 0; i < 3; ++i) { float x = k >> i & 1 ? a->second.c[i] : b->second.c[i]; float q = A * us * a->second.c[i] + B * ud * b->second.c[i] + K * x; q = q < 0 ? 0 : q > 1 ? 1 : q; c.push_back(q / ra); }
				float mx = std::max(c[0], std::max(c[1], c[2])), mn = std::min(c[0], std::min(c[1], c[2])); if (mx - mn < 0.04f || mn < 0.004f || mx > 0.996f) wide = false;
				cand.push_back(c);
			}
			bool ok = false; S exp;
			if (R.type == 1) for (auto& c : cand) { bool m = R.c.size() == 3; for (int i = 0; i < 3 && m; ++i) if (!(fabsf(R.c[i] - c[i]) <= 2e-4f)) m = false; if (m) ok = true; }
			else
			{
				if (!wide) { if (cnt) ++cnt->note["model skipped, hue unstable"]; continue; }
				// second execution: what the eight possible results are in the source's colour space
				S t = "opt nthreads=1\n"; std::map<S, S> have; S tail;
				for (auto& l : s.objs) { Toks k = split(l); if (k[1] == "W" || k[1] == "P" || k[1] == "G" || k[1] == "D") t += l + "\n"; }
				for (int k = 0; k < 8; ++k) { t += "obj C k" + num(k) + " 1 " + hx(ra) + " " + d; for (float x : cand[k]) t += " " + hx(x); t += "\n"; tail += "op 1 " + num(k + 1) + " to " + num(R.type) + " k" + num(k) + "\n"; }
				Log Q = parse_log(w.run(t + tail)); if (cnt) ++cnt->refs;
				int got = 0;
				for (int k = 0; k < 8; ++k) if (const Ope* q = Q.op(k + 1))
				{
					Col e = col_of(s, q->out); if (!e.ok || e.c.size() != R.c.size()) continue; ++got; bool m = true;
					for (size_t i = 0; i < e.c.size(); ++i)
					{
						bool hue = (R.type >= 5 && R.type <= 8 && i == 0) || (R.type >= 13 && i == 2); float df = fabsf(R.c[i] - e.c[i]); if (hue) { df = fmodf(df, 360.f); if (df > 180) df = 360 - df; }
						float tol = R.type == 0 || R.type == 2 ? 1.01f : hue ? 1.5f : R.type >= 11 ? 0.25f : 3e-3f; if (!(df <= tol)) m = false;
					}
					if (m) ok = true;
				}
				if (got < 8) continue;
			}
			if (!ok) v.push_back({"CHANNELS", "dissolve " + num(o.id) + " result [" + cut(o.out) + "] is none of the eight source/destination channel combinations"});
		}
	}
	void stats(const Scn& s, const Log& L, std::vector<Viol>& v)
	{
		auto dp = deeps(s, L);
		struct Acc { u64 n = 0, maj = 0; }; std::map<S, Acc> g; Acc all; u64 pair[3] = {0, 0, 0}, allmaj = 0, tot = 0, bad = 0, serial = 0, serialn = 0; int last = -1;
		for (auto& o : L.ops)
		{
			auto so = s.ops.find(o.id); if (so == s.ops.end() || so->second.name != "blend" || so->second.a[0] != "1") continue;
			auto a = dp.find(so->second.a[1]), b = dp.find(so->second.a[2]); if (a == dp.end() || b == dp.end()) continue;
			Col R = col_of(s, o.out); if (!R.ok || R.c.size() != 3 || (R.type != 0 && R.type != 1)) continue;
			float sa = a->second.alpha, da = b->second.alpha, sc = R.type == 0 ? 255.f : 1.f; float A = sa * (1 - da), B = da * (1 - sa), K = sa * da; if (so->second.a.size() > 4) { if (so->second.a[3] != "1") A = 0; if (so->second.a[4] != "1") B = 0; } float ra = A + B + K; if (!(ra > 0.02f)) continue;
			if (sa != da && fabsf(sa - da) < 2e-6f) continue;      // which is larger could be rounding on the way to the deep form
			bool srcmaj = sa > da; int m[3]; bool ok = true;
			for (int i = 0; i < 3; ++i)
			{
				float x = (A * a->second.c[i] + B * b->second.c[i] + K * a->second.c[i]) / ra, y = (A * a->second.c[i] + B * b->second.c[i] + K * b->second.c[i]) / ra, r = R.c[i] / sc; float tol = R.type == 0 ? 0.006f : 1e-3f;
				if (fabsf(x - y) < 3 * tol) { ok = false; break; }
				if (fabsf(r - x) <= tol) m[i] = srcmaj; else if (fabsf(r - y) <= tol) m[i] = !srcmaj; else { ok = false; ++bad; break; }
			}
			if (!ok) continue;
			Toks ta = split(obj_line(s, so->second.a[1])), tb = split(obj_line(s, so->second.a[2]));
			auto scale = [](const S& t) { return t == "0" || t == "2" ? "true" : "deep"; };
			S key = S("source ") + scale(ta[3]) + " destination " + scale(tb[3]) + (sa == da ? " equal opacity" : fabsf(sa - da) < 0.035f ? srcmaj ? " source slightly more opaque" : " destination slightly more opaque" : srcmaj ? " source more opaque" : " destination more opaque");
			Acc& q = g[key]; for (int i = 0; i < 3; ++i) { ++q.n; q.maj += m[i]; ++all.n; all.maj += m[i]; if (last >= 0) { ++serialn; serial += m[i] && last; } last = m[i]; }
			++tot; pair[0] += m[0] && m[1]; pair[1] += m[1] && m[2]; pair[2] += m[0] && m[2]; allmaj += m[0] && m[1] && m[2];
		}
		if (tot < 1000) { if (cnt) ++cnt->note["stats scenario too small"]; if (bad > tot) v.push_back({"STAT:unclassified", num((long long)bad) + " dissolve results have channels that are neither colour's"}); return; }
		if (cnt) { cnt->compared += tot; cnt->note["dissolve channels classified"] += all.n; }
		auto off = [&](const S& k, u64 hit, u64 n, double want, double tol) { double f = (double)hit / n; double sd = sqrt(want * (1 - want) / n); if (tol < 5 * sd) tol = 5 * sd; if (fabs(f - want) > tol) { char b[200]; snprintf(b, sizeof b, "%s: frequency %.4f over %llu, expected %.4f +- %.4f", k.c_str(), f, (unsigned long long)n, want, tol); v.push_back({"STAT:" + k, b}); } };
		off("share of the more opaque colour", all.maj, all.n, 0.75, 0.02);
		for (auto& k : g) if (k.second.n >= 600) off(k.first, k.second.maj, k.second.n, 0.75, 0.03);
		double p = (double)all.maj / all.n;
		for (int i = 0; i < 3; ++i) off("two channels together " + num(i), pair[i], tot, p * p, 0.02);
		off("three channels together", allmaj, tot, p * p * p, 0.02);
		off("successive channels", serial, serialn, p * p, 0.02);
	}
};
