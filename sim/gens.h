// One case = one seed: builds a world, probes it where that helps, and hands out scenarios.
#pragma once
#include "eval.h"
typedef std::function<bool(const S&)> Emit;      // returns false when the search is over

// a kind of call with the colour types it was made with
struct Hot { Entry e; int to = -1, from = -1; bool mut = false; };
struct Gen
{
	Worker& w; Counters* cnt; Emit emit; bool deep;
	const std::vector<Hot>* hot = nullptr;      // calls seen to touch state that outlives them
	Gen(Worker& x, Counters* c, Emit e, bool d) : w(x), cnt(c), emit(e), deep(d) {}
	// the kind a case is about: from the sweep, or one of those calls
	const Hot* pick_hot(Rng& r, int which) { if (!hot) return nullptr; std::vector<const Hot*> v; for (auto& h : *hot) if (which == 2 || h.mut == (which == 1)) v.push_back(&h); return v.empty() ? nullptr : v[r.n((int)v.size())]; }
	Entry about(World& W, const Entry& e, int which = 0) { const Hot* h = hot && !hot->empty() && W.r.p(50) ? pick_hot(W.r, which) : nullptr; if (!h) return e; W.want_to = h->to; W.want_from = h->from; return h->e; }
	Entry amut(Rng& r) { const Hot* h = hot && !hot->empty() && r.p(40) ? pick_hot(r, 1) : nullptr; return h ? h->e : r.pick(mut_ops()); }
	// runs every kind of call a few times and lists those that write or synchronise on anything but their own objects
	static void scan(Worker& w, size_t part, size_t parts, std::vector<Hot>& out)
	{
		std::vector<Entry> all = value_kinds(); all.insert(all.end(), mut_kinds().begin(), mut_kinds().end());
		for (int k = 0; k < 40; ++k) all.push_back({"wppre", k}); for (int k = 0; k < 20; ++k) all.push_back({"defpre", k}); for (int k = 0; k < 8; ++k) all.push_back({"gampre", k});
		for (size_t i = part; i < all.size() * 2; i += parts)
		{
			const Entry& e = all[i % all.size()]; World W(0x5CA9 + i); W.user_gamma = 20; W.combmax = 12; W.avgmax = 8; W.populate(3, 2); W.opt("probe", 1); W.opt("budget", 3000000); W.opt("noval", 1); std::vector<int> ids;
			if (i >= all.size()) for (int q = 0; q < 3; ++q) W.gen(0, W.r.pick(mut_ops()));
			for (int q = 0; q < 3; ++q) { int id = W.gen(1, e); ids.push_back(id); W.twin(1, id); }
			Log L = parse_log(w.run(W.text())); std::set<S> done;
			for (auto& o : L.ints)
			{
				const Ope* r = L.op(o.first); if (!r || starts(r->out, "X ") || (!o.second.count(1) && !o.second.count(3) && !o.second.count(opdef(e.name)->flags & F_MUT ? 4 : 0))) continue;
				for (auto& l : W.ops)
				{
					Toks k = split(l); if (k.size() < 5 || atoi(k[2].c_str()) != o.first || k[3] != e.name) continue;
					Hot h; h.e = e; h.mut = opdef(e.name)->flags & F_MUT; S sg = opdef(e.name)->sig; for (size_t q = 0; q + 4 < k.size(); ++q) { char c = q < sg.size() ? sg[q] : '*'; if (c == 'T' && h.to < 0) h.to = atoi(k[q + 4].c_str()); if (h.from < 0) if (Obj* x = W.get(k[q + 4])) if (x->kind == 'C') h.from = x->type; if (c == 'k') h.e.k = atoi(k[q + 4].c_str()); }
					if (done.insert(h.e.name + " " + num(h.e.k) + " " + num(h.to) + " " + num(h.from)).second) out.push_back(h);
				}
			}
		}
	}
	Log probe(const S& t) { return parse_log(w.run(t)); }
	static S head(const char* p, const char* extra = "") { return S("#! prop=") + p + extra + "\n"; }
	static void env(World& W)
	{
		Rng& r = W.r;
		W.opt("garbage", r.n(4)); W.opt("gseed", r.n(1 << 20)); W.opt("reuse", r.p(50) ? 0 : r.n(4)); W.opt("rseed", r.n(1 << 20)); if (r.p(30)) W.opt("shift", r.n(64)); W.opt("clock", r.n(3)); W.opt("cseed", r.n(1 << 20)); if (r.p(50)) W.opt("scribble", 1); if (r.p(50)) W.opt("stale", r.in(1, 1 << 20)); Rng q = r; if (q.p(25)) W.opt("envvars", q.in(1, 1 << 20));
	}
	static std::vector<Entry> focus(Rng& r, const std::vector<Entry>& from, int lo, int hi) { std::vector<Entry> v; int n = r.in(lo, hi); for (int i = 0; i < n; ++i) v.push_back(r.pick(from)); return v; }
	// ------------------------------------------------------------------------------- P01
	void p01(u64 seed, u64 idx)
	{
		World W(seed); Rng& r = W.r; W.mt = true; env(W); W.user_gamma = 30;
		int nt = r.p(60) ? 2 : r.in(2, 4); W.opt("nthreads", nt); W.opt("mini", 1); W.opt("races", 1);
		W.populate(r.in(2, 5), r.in(1, 2));
		std::vector<Entry> f = focus(r, value_ops(), 1, 3); f[0] = about(W, value_kinds()[idx % value_kinds().size()]);
		if (r.p(60) && f.size() > 1) f.resize(1);
		std::vector<int> made;
		int per = r.in(1, 3);
		// what one thread prepares before it shares it with the others; half of the time nothing is looked at in between
		if (r.p(50)) { W.opt("noval", 1); if (r.p(60)) per = 1; }
		if (r.p(40)) for (int i = r.in(1, 3); i > 0; --i) W.gen(0, r.p(75) ? amut(r) : r.pick(value_ops()));
		for (int t = 1; t <= nt; ++t) for (int i = 0; i < per; ++i)
		{
			if (!made.empty() && r.p(35)) { int src = r.pick(made); bool shared = true; for (auto& l : W.ops) { Toks k = split(l); if (atoi(k[2].c_str()) == src) for (size_t q = 4; q < k.size(); ++q) if (Obj* o = W.get(k[q])) if (o->owner && o->owner != t) shared = false; } if (shared) { W.twin(t, src); continue; } }
			if (r.p(12)) { W.gen(t, amut(r)); continue; }
			made.push_back(W.gen(t, r.pick(f)));
		}
		if (r.p(15)) { static const char* mk[] = {"adjip", "gcC", "setwp", "asgD", "asgG", "asgM", "setc"}; S m = mk[r.n(7)]; for (int t = 1; t <= nt; ++t) W.gen(t, {m, -1}); }
		const bool again = r.p(4);
		if (again) for (auto& l : W.ops) { Toks k = split(l); if (atoi(k[1].c_str()) > 0 && l.find("rep=") == S::npos && r.p(60)) { int n = r.in(3, 30); l += (l.find(';') == S::npos ? " ;rep=" : " rep=") + num(n); } }
		S h = head("P01"), base = W.text();
		Log L = probe(h + base + "opt probe=1 nthreads=" + num(nt) + "\n");
		struct Pt { int op; u64 st; int kind; }; std::vector<Pt> pts, all;
		for (auto& o : L.ints) if (W.opthr[o.first] > 0) for (auto& k : o.second) for (u64 st : k.second) { if (k.first < 2) pts.push_back({o.first, st, k.first}); }
		for (auto& o : L.ops) if (o.steps > 1 && W.opthr[o.id] > 0) all.push_back({o.id, o.steps, 2});
		if (all.empty()) return;
		if (cnt) cnt->note["cases with shared-state steps"] += !pts.empty();
		auto plan = [&](int n) { std::vector<S> v; S ord = "order"; std::vector<int> p; for (int t = 1; t <= nt; ++t) p.push_back(t); for (int i = nt - 1; i > 0; --i) std::swap(p[i], p[r.n(i + 1)]); for (int t : p) ord += " " + num(t); v.push_back(ord);
			for (int i = 0; i < n; ++i)
			{
				int op; u64 st; if (!pts.empty() && r.p(80)) { auto& q = pts[r.n((int)pts.size())]; op = q.op; st = q.st + r.n(4); if (r.p(20) && st > 2) st -= r.n(3); }
				else { auto& q = all[r.n((int)all.size())]; op = q.op; st = 1 + r.next() % q.st; }
				int to = 1 + r.n(nt); if (to == W.opthr[op]) to = to % nt + 1; v.push_back("sw " + num(op) + " " + num((long long)st) + " " + num(to));
			} return v; };
		int nplans = (pts.empty() ? 3 : 14) * (deep ? 2 : 1);
		for (int i = 0; i < nplans; ++i)
		{
			std::map<S, S> o2; std::vector<S> more;
			if (i % 3 == 0) { static const int q[] = {5, 20, 80, 300, 1200}; o2["quantum"] = num(q[again ? 2 + r.n(3) : r.n(5)]); o2["qseed"] = num(r.n(1 << 30)); more = plan(0); }
			else more = plan(r.in(1, 1 + nt));
			if (!emit(h + W.text(more, o2))) return;
		}
	}
	// ------------------------------------------------------------------------------- P02
	void mutate_args(World& W, int t, const std::vector<S>& ids)
	{
		Rng& r = W.r;
		for (auto& id : ids)
		{
			Obj* o = W.get(id); if (!o) continue; S d = o->d; int ty = o->type; char k = o->kind;
			if (k == 'C')
			{
				int m = r.n(14);
				if (m >= 9) { reach(W, t, d); continue; }
				if (m == 0) W.emit(t, "setc", id + " " + num(ncomp(ty < 0 ? 0 : ty) - 1) + " " + hx(comp_value(r, ty < 0 ? 1 : ty, 1)));
				else if (m == 1) W.emit(t, "seta", id + " " + hx(ty == 0 || ty == 2 ? r.f(0, 255) : r.f(0, 1)));
				else if (m == 2) { S dd = W.pick('D', t); W.emit(t, "setdef", id + " " + dd); W.get(id)->d = dd; }
				else if (m == 3 && ty >= 0) { S c2 = W.pickC(t, ty); W.emit(t, "asgC", id + " " + c2); }
				else if (m == 4) W.emit(t, "gcC", num(r.n(2)) + " " + id);
				else if (m == 5) W.emit(t, "adjip", num(r.n(4)) + " " + id + " " + hx(r.f(-0.5f, 0.8f)));
				else if (m == 6 && !d.empty() && d != "0" && W.get(d)) W.emit(t, "setwp", d + " " + W.pick('W', t));
				else if (m == 7 && ty >= 0 && !o->line.empty() && o->alive) recreate(W, t, id);
				else if (!d.empty() && d != "0" && W.get(d)) { if (r.p(50)) W.emit(t, "setgam", d + " " + W.pick('G', t)); else W.emit(t, "asgD", d + " " + W.pick('D', t)); }
			}
			else if (k == 'D') { int m = r.n(3); if (m == 0) W.emit(t, "setwp", id + " " + W.pick('W', t)); else if (m == 1) W.emit(t, "setgam", id + " " + W.pick('G', t)); else W.emit(t, "asgD", id + " " + W.pick('D', t)); }
			else if (k == 'G') { int m = r.n(3); S q = m == 0 ? num(r.n(2)) + " " + id + " " + W.P(r.p(50), r.f(0.1f, 2.f)) : ""; if (m == 0) W.emit(t, "addG", q); else if (m == 1) W.emit(t, "asgG", id + " " + W.pick('G', t)); else W.emit(t, "setG", num(r.n(2)) + " " + id + " " + W.pick('G', t)); }
			else if (k == 'P') W.emit(t, "setPf", id + " " + num(r.n(6)) + " " + hx(r.f(0.4f, 1.4f)));
			else if (k == 'W') W.emit(t, "asgW", id + " " + W.pick('W', t));
			else if (k == 'M') { if (r.p(50)) W.emit(t, "setM", id + " 0 0 " + hx(r.f(-2, 2))); else if (r.p(50)) W.emit(t, "asgM", id + " " + W.pickM(t, o->rows, o->cols)); else recreate(W, t, id); }
		}
	}
	// change or replace what a definition refers to, and bring the definition up to date
	void reach(World& W, int t, const S& d)
	{
		Rng& r = W.r; Obj* o = d.empty() || d == "0" ? nullptr : W.get(d); if (!o || o->line.empty()) return; Toks x = split(o->line); if (x.size() < 11) return; S w = x[9], g = x[10];
		int m = r.n(7);
		if (m < 2) { W.emit(t, "asgW", w + " " + W.pick('W', t)); W.emit(t, "setwp", d + " " + w); }
		else if (m == 2) { W.emit(t, "setwp", d + " " + W.W()); W.emit(t, "del", w); W.emit(t, "mk", "W " + w + " " + W.wp_body()); W.emit(t, "setwp", d + " " + w); }
		else if (m == 3) { S h = W.G(); W.emit(t, "setgam", d + " " + h); W.emit(t, "del", g); Obj* q = W.get(h); S b = q->line.substr(q->line.find(' ', 6) + 1); W.emit(t, "mk", "G " + g + " " + b); W.emit(t, "setgam", d + " " + g); }
		else if (m == 4 && W.get(g) && !W.get(g)->line.empty()) { Toks y = split(W.get(g)->line); std::vector<S> ps; for (size_t i = 3; i < y.size(); ++i) if (W.get(y[i])) ps.push_back(y[i]); if (!ps.empty()) W.emit(t, "setPf", r.pick(ps) + " " + num(r.n(6)) + " " + hx(r.f(0.4f, 1.4f))); }
		else if (m == 5) W.emit(t, "asgG", g + " " + W.G());
		else if (r.p(50)) W.emit(t, "addG", num(r.n(2)) + " " + g + " " + W.P(r.p(50), r.f(0.1f, 2.f))); else W.emit(t, "setG", num(r.n(2)) + " " + g + " " + W.G());
	}
	// destroy and build a different object under the same name (and, with the usual allocator, at the same address)
	void recreate(World& W, int t, const S& id)
	{
		Obj* o = W.get(id); if (!o || o->line.empty()) return; Rng& r = W.r;
		if (o->kind == 'C')
		{
			S d = o->d; bool tree = r.p(35) && !d.empty() && d != "0" && W.get(d) && !W.get(d)->line.empty(); Toks dl;
			int ty = r.p(75) ? o->type : r.n(15);
			W.emit(t, "del", id);
			if (tree) { dl = split(W.get(d)->line); for (auto& q : W.objs) if (q.kind == 'C' && q.d == d && q.id != id && !q.line.empty() && q.alive) { W.emit(t, "del", q.id); q.alive = false; } W.emit(t, "del", d); if (r.p(40) && dl.size() > 9) { W.emit(t, "del", dl[9]); W.emit(t, "mk", "W " + dl[9] + " " + W.wp_body()); } W.emit(t, "mk", "D " + d + " " + W.prim_body() + " " + dl[9] + " " + (r.p(70) ? dl[10] : W.pick('G', t))); }
			S body = W.color_body(ty, d); if (r.p(40)) { Toks x = split(o->line); Toks y = split(body); if (x.size() == y.size() + 3 && x[3] == y[0]) { int keep = r.n((int)y.size()); for (size_t i = 0; i < y.size(); ++i) if ((int)i != keep) y[i] = x[i + 3]; y[2] = d; body = ""; for (size_t i = 0; i < y.size(); ++i) body += (i ? " " : "") + y[i]; } }
			W.emit(t, "mk", "C " + id + " " + body); o->type = atoi(body.c_str());
		}
		else if (o->kind == 'M') { W.emit(t, "del", id); W.emit(t, "mk", "M " + id + " " + W.mat_body(o->rows, o->cols)); }
	}
	std::vector<S> args_of(World& W, int opid) { std::vector<S> v; for (auto& l : W.ops) { Toks k = split(l); if (k.size() > 3 && atoi(k[2].c_str()) == opid) for (size_t q = 4; q < k.size() && k[q][0] != ';'; ++q) if (W.get(k[q])) v.push_back(k[q]); } return v; }
	void fault_some(World& W, const std::vector<int>& ids) { for (int id : ids) if (W.r.p(50)) W.extra.push_back("fault " + num(id) + " alloc " + num(1 + W.r.n(25)) + " " + num(W.r.p(80) ? 1 : 50) + " 0"); else W.extra.push_back("fault " + num(id) + " throw " + num(1 + W.r.n(4)) + " " + num(W.r.n(8))); }
	static float nudge(Rng& r, float v)
	{
		static const float rel[] = {1e-6f, 1e-4f, 5e-3f, 0.03f, 0.2f}; int m = r.n(10);
		if (v == 0) return m < 3 ? -v : m < 6 ? 1e-6f : 1e-3f; if (m < 3) return nextafterf(v, r.p(50) ? 1e30f : -1e30f); if (m == 3) return -v; if (m == 4) return v + 1; return v * (1 + (r.p(50) ? 1 : -1) * rel[r.n(5)]);
	}
	// an object that differs from the given one in one aspect
	S twist(World& W, int t, const S& id)
	{
		Obj* o = W.get(id); if (!o || o->line.empty()) return ""; Rng& r = W.r; Toks x = split(o->line); char k = o->kind;
		auto put = [&](const char* p) { S b; for (size_t i = 3; i < x.size(); ++i) b += (i > 3 ? " " : "") + x[i]; S n = W.nm(p); return &W.add(k, n, b); };
		auto fl = [&](S& q) { q = hx(nudge(r, unhx(q))); };
		if (k == 'C') return clone_variant(W, id);
		if (k == 'W') { if (x.size() < 5) return ""; if (x[3] == "k") x[4] = num((atoi(x[4].c_str()) + 1 + r.n(39)) % 40); else fl(x[4 + r.n((int)x.size() - 4)]); return put("w")->id; }
		if (k == 'P') { if (x.size() < 7) return ""; if (x[3] == "u") { int m = r.n(4); if (m < 2) fl(x[5]); else if (m == 2) x[4] = num((atoi(x[4].c_str()) + 1 + r.n(5)) % 6); else { float f = unhx(x[6]); if (f < 1e20f) fl(x[6]); else fl(x[5]); } } else x[4] = num((atoi(x[4].c_str()) + 1 + r.n(7)) % 8); if (x[3] == "g") x[6] = "0"; return put("p")->id; }
		if (k == 'G') { std::vector<size_t> at; for (size_t i = 3; i < x.size(); ++i) if (W.get(x[i])) at.push_back(i); if (at.empty()) return ""; size_t q = r.pick(at); S n = twist(W, t, x[q]); if (n.empty()) return ""; x[q] = n; return put("g")->id; }
		if (k == 'D') { if (x.size() < 11) return ""; int m = r.n(10); if (m < 5) fl(x[3 + r.n(6)]); else if (m < 6) std::swap(x[3 + r.n(6)], x[3 + r.n(6)]); else if (m < 8) { S w = r.p(50) ? twist(W, t, x[9]) : W.pick('W', t); if (w.empty()) return ""; x[9] = w; } else { S g = r.p(50) ? twist(W, t, x[10]) : W.pick('G', t); if (g.empty()) return ""; x[10] = g; } return put("d")->id; }
		if (k == 'M')
		{
			int R = o->rows, C = o->cols; int m = r.n(4); if (m == 0 && R != C) { std::swap(x[3], x[4]); std::swap(R, C); } else if (m == 1 && x.size() > 6) std::swap(x[5 + r.n((int)x.size() - 5)], x[5 + r.n((int)x.size() - 5)]); else if (x.size() > 5) fl(x[5 + r.n((int)x.size() - 5)]);
			Obj* q = put("m"); q->rows = R; q->cols = C; return q->id;
		}
		return "";
	}
	// the same call with one argument changed
	int vary(World& W, int t, int id)
	{
		Rng& r = W.r; Toks k; for (auto* v : {&W.ops, &W.proto}) for (auto& l : *v) { Toks q = split(l); if (q.size() > 3 && atoi(q[2].c_str()) == id) { k = q; break; } } if (k.empty()) return -1;
		S name = k[3], tail; Toks a; for (size_t q = 4; q < k.size(); ++q) { if (k[q][0] == ';') { tail = k[q].substr(1); for (++q; q < k.size(); ++q) tail += " " + k[q]; break; } a.push_back(k[q]); }
		const OpDef* od = opdef(name); S sg = od->sig; std::vector<int> at; for (size_t i = 0; i < a.size(); ++i) { char c = i < sg.size() ? sg[i] : '*'; if (i >= sg.size() && sg.back() != '*') break; if (c == 's') continue; if (c == 'T' && (name == "calct" || name == "avg" || name == "ctorB")) continue; if (c == 'k' && (od->nvar < 2 || name == "predef" || name == "calct" || name == "mat2")) continue; if (c == 'D' && a[i] == "0") continue; at.push_back((int)i); }
		if (at.empty()) return -1;
		int i = r.pick(at); char c = i < (int)sg.size() ? sg[i] : '*';
		if (c == '*') { if (W.get(a[i])) c = W.get(a[i])->kind; else if (a[i].size() == 8) c = 'f'; else return -1; }
		if (c == 'f') a[i] = hx(nudge(r, unhx(a[i]))); else if (c == 'b') a[i] = a[i] == "0" ? "1" : "0"; else if (c == 'k') { a[i] = num((atoi(a[i].c_str()) + 1 + r.n(od->nvar - 1)) % od->nvar); if (name == "blend" && a[i] == "1") tail = W.rs(); } else if (c == 'T') a[i] = num((atoi(a[i].c_str()) + 1 + r.n(14)) % 15);
		else if (c == 'i') { if (name == "predef") return -1; a[i] = num(atoi(a[i].c_str()) + r.in(-1, 1)); if (name == "hexi") a[i] = num((long long)(int)(atoll(k[4].c_str()) ^ (1ll << r.n(32)))); }
		else { S n = r.p(70) ? twist(W, t, a[i]) : S(); Obj* o = W.get(a[i]); if (n.empty() && o && o->kind != 'M') n = o->kind == 'C' ? W.pickC(t, o->type, o->d) : W.pick(o->kind, t); if (n.empty()) return -1; a[i] = n; }
		S s; for (auto& q : a) s += (s.empty() ? "" : " ") + q; return W.emit(t, name, s, tail);
	}
	S clone_variant(World& W, const S& c)      // a colour that differs from c in one aspect
	{
		Obj* o = W.get(c); if (!o || o->line.empty() || o->type < 0) return ""; Rng& r = W.r;
		Toks x = split(o->line); if (x.size() < 7 || atoi(x[3].c_str()) != o->type) return ""; int m = r.n(9); int ty = o->type, n = (int)x.size() - 6; S d = o->d;
		if (m == 0) x[4] = hx(r.p(40) ? nudge(r, unhx(x[4])) : r.f(0, 1)); else if (m < 3 && d != "0") { S dd = r.p(50) ? twist(W, 1, d) : W.defd(); if (dd.empty()) dd = W.defd(); x[5] = dd; d = dd; } else if (m == 3) x[6 + r.n(n)] = hx(comp_value(r, ty, 1));
		else if (m == 4 && n > 1) std::swap(x[6 + r.n(n)], x[6 + r.n(n)]);
		else if (m == 5) { ty = (ty + 1 + r.n(14)) % 15; if (ncomp(ty) != n) ty = o->type; x[3] = num(ty); }
		else { S& q = x[6 + r.n(n)]; q = hx(nudge(r, unhx(q))); }
		S b; for (size_t i = 3; i < x.size(); ++i) b += (i > 3 ? " " : "") + x[i]; S id = W.nm("c");
		Obj& q = W.add('C', id, b); q.type = ty; q.d = d; return id;
	}
	void p02(u64 seed, u64 idx)
	{
		World W(seed); Rng& r = W.r; env(W); W.opt("mini", 1); W.opt("wuse", 1); W.user_gamma = 30; S h = head("P02");
		int mode = (int)(idx % 8); size_t nk = value_kinds().size();
		const Entry e = about(W, value_kinds()[(idx / 8) % nk]); if (mode == 7 && (idx / 8 / nk + idx / 8) % 4) mode = 6;
		int nt = 1;
		if (r.p(20)) { nt = r.in(2, 3); W.opt("nthreads", nt); W.opt("seq", 1); }
		auto T = [&]() { return nt == 1 ? 1 : r.in(1, nt); };
		if (mode != 7 && r.p(25)) W.opt("noval", 1);
		W.populate(r.in(2, 4), r.in(1, 2));
		if (mode == 7)      // many repetitions
		{
			auto times = [&](const Ope* o, int n) { double cost = 1 + o->allocs + o->steps / 100.0; return std::max(300, (int)std::min((double)n, 24e6 / cost)); };      // cost of one call, in allocations
			if (r.p(35))      // calls the library refuses, then calls it does not
			{
				W.extreme = 25; W.wrong = 30; std::vector<int> ids; for (int i = 0; i < 10; ++i) ids.push_back(W.gen(1, e)); W.extreme = W.wrong = 0;
				for (int i = 0; i < 3; ++i) W.gen(1, i == 1 ? r.pick(value_ops()) : e); Log P = probe(h + W.text()); std::vector<int> bad; for (int id : ids) { const Ope* o = P.op(id); if (!o) return; if (o->out[0] == 'X') bad.push_back(id); else if (r.p(30)) W.twin(1, id); }
				for (size_t i = 0; i < bad.size() && i < 5; ++i) { repeat(W, bad[i], times(P.op(bad[i]), r.p(80) ? 300 : 1100)); } if (bad.empty()) return; W.opt("hooks", 0); emit(h + W.text()); return;
			}
			int id = W.gen(1, e); Log P = probe(h + W.text()); const Ope* o = P.op(id); if (!o) return;
			static const int N[] = {300, 300, 300, 300, 300, 300, 1100, 5000}; int n = N[r.n(8)]; u64 q = idx / 8 + seed % 64; if ((1 + o->allocs + o->steps / 100.0 < 60 && q % 6 == 0) || q % 27 == 3 || (deep && q % 2)) n = 70000;
			n = times(o, n);
			S own; for (auto& l : W.ops) if (atoi(split(l)[2].c_str()) == id) own = l;
			int last = W.twin(1, id); (void)last; for (auto& l : W.ops) if (l == own) l += (l.find(';') == S::npos ? " ;rep=" : " rep=") + num(n);
			for (int i = 0; i < 3; ++i) W.gen(1, r.p(40) ? e : r.pick(value_ops()));
			if (n > 1000) W.opt("hooks", 0);
			emit(h + W.text()); return;
		}
		if (mode == 6 && r.p(60))      // more different arguments than any table holds, then the first ones again
		{
			static const int K[] = {3, 5, 9, 10, 17, 18, 33, 35, 65, 67, 130, 260}; int n = K[r.n(deep ? 12 : r.p(12) ? 11 : 8)]; if (e.name == "comb" || e.name == "defpre" || e.name == "wppre") n = std::min(n, 35);
			std::vector<int> ids; ids.push_back(W.gen(1, e)); while ((int)ids.size() < n) { int q = r.p(75) ? vary(W, 1, r.p(60) ? ids[0] : r.pick(ids)) : W.gen(1, e); if (q < 0) q = W.gen(1, e); ids.push_back(q); if (r.p(10)) W.C(r.n(15), W.D()); }
			if (r.p(50)) for (int q : ids) W.twin(1, q); else for (int i = std::min(n, 40); i > 0; --i) W.twin(1, r.p(30) ? ids[0] : r.pick(ids));
			emit(h + W.text()); return;
		}
		if (mode >= 5)      // long random histories
		{
			int n = r.in(8, deep ? 40 : 24); std::vector<Entry> f = focus(r, value_ops(), 2, 5); f.push_back(e); std::vector<int> fl;
			for (int i = 0; i < n; ++i) { int m = r.n(10); if (m < 5) W.gen(T(), r.pick(f)); else if (m < 7) W.gen(T(), r.pick(value_ops())); else if (m < 9) W.gen(T(), amut(r)); else { int q = W.gen(T(), r.pick(f)); fl.push_back(q); W.twin(T(), q); } }
			fault_some(W, fl); emit(h + W.text()); return;
		}
		// one kind of call, repeated around changes of its arguments
		int id = W.gen(T(), e); std::vector<S> A = args_of(W, id); std::vector<int> fl;
		int rounds = r.in(1, 4);
		for (int i = 0; i < rounds; ++i)
		{
			int m = r.n(8);
			if (m >= 6) { for (int q = r.in(1, 3); q > 0; --q) vary(W, T(), id); }
			else if (m < 3) mutate_args(W, T(), A);
			else if (m == 3) { for (auto& a : A) if (Obj* o = W.get(a)) { if ((o->kind == 'C' || o->kind == 'M')) recreate(W, T(), a); break; } }
			else if (m == 4)
			{
				for (auto& a : A) { S c = W.get(a) && W.get(a)->kind == 'C' ? clone_variant(W, a) : S(); if (c.empty()) continue; for (auto& l : W.ops) { Toks k = split(l); if (k.size() > 3 && atoi(k[2].c_str()) == id) { S s; bool done = false; size_t q = 4; S tail; for (; q < k.size(); ++q) { if (k[q][0] == ';') tail = k[q].substr(1); else { s += (s.empty() ? "" : " ") + (!done && k[q] == a ? (done = true, c) : k[q]); } } W.emit(T(), e.name, s, tail); break; } } }
			}
			else { int q = W.gen(T(), e); if (r.p(40)) fl.push_back(q); }
			if (r.p(25)) { int q = W.twin(T(), id); fl.push_back(q); }
			if (r.p(30)) W.gen(T(), r.pick(value_ops()));
			W.twin(T(), id);
			if (r.p(25)) W.twin(T(), id);
		}
		fault_some(W, fl);
		emit(h + W.text());
	}
	// ------------------------------------------------------------------------------- one operation hit at every point
	// attempts: the same call again and again, each with another fault
	void chain(const char* prop, World& W, int id, const Log& P, int kinds, const char* extra = "", bool attempts_first = false)
	{
		Rng& r = W.r; const Ope* o = P.op(id); if (!o) return; std::vector<S> fl; S own_line;
		if (attempts_first) for (size_t i = 0; i < W.ops.size(); ++i) if (atoi(split(W.ops[i])[2].c_str()) == id) { own_line = W.ops[i]; W.ops.erase(W.ops.begin() + i); W.proto.push_back(own_line); break; }
		World V = W; int used = 0, nalloc = o->allocs, ngam = o->gcalls;
		auto order = [&](int n, int cap) { std::vector<int> v; for (int i = 1; i <= n; ++i) v.push_back(i); if ((int)v.size() > cap) { for (int i = (int)v.size() - 1; i > 0; --i) std::swap(v[i], v[r.n(i + 1)]); v.resize(cap); std::sort(v.begin(), v.end()); } return v; };
		auto flush = [&](bool last) { if (!used) return true; if (own_line.empty()) V.twin(1, id); else V.ops.push_back(own_line); for (int q = 0; q < 2; ++q) V.gen(1, r.pick(value_ops())); std::vector<S> f = fl; bool go = emit(head(prop, extra) + V.text(f)); fl.clear(); V = W; V.r = r; used = 0; return go; };
		if (kinds & 1)
		{
			for (int i : order(nalloc, deep ? 60 : 30)) { int t = V.twin(1, id); fl.push_back("fault " + num(t) + " alloc " + num(i) + " 1 0"); if (++used % 5 == 0) V.twin(1, id); if (used >= 30 && !flush(false)) return; }
			for (int q = 0; q < 4 && nalloc; ++q) { int t = V.twin(1, id); static const int sz[] = {0, 0, 33, 100}; fl.push_back("fault " + num(t) + " alloc " + num(1 + r.n(nalloc)) + " " + num(q < 2 ? 2 + r.n(6) : 100000) + " " + num(sz[r.n(4)])); ++used; }
			if (!flush(false)) return;
		}
		if (kinds & 2)
		{
			for (int i : order(ngam, deep ? 40 : 16)) { int t = V.twin(1, id); fl.push_back("fault " + num(t) + " throw " + num(i) + " " + num(r.n(8))); if (r.p(40)) for (int q = 1, k = r.in(1, 4); q <= k; ++q) fl.push_back("fault " + num(t) + " throw " + num(i + q) + " " + num(r.n(8))); if (++used % 4 == 0) V.twin(1, id); }
			if (!flush(false)) return;
		}
		if (kinds & 4 && ngam)
		{
			for (int i : order(ngam, deep ? 12 : 5))
			{
				int n = V.gen(1, r.p(50) ? r.pick(value_ops()) : r.pick(value_kinds()), true);
				if (r.p(30)) { for (auto& l : V.ops) { Toks k = split(l); if (atoi(k[2].c_str()) == id) { S s; S tail; for (size_t q = 4; q < k.size(); ++q) { if (k[q][0] == ';') tail = k[q].substr(1); else s += (s.empty() ? "" : " ") + k[q]; } if (!(opdef(k[3])->flags & (F_MUT | F_LIFE))) n = V.emit(1, k[3], s, tail, true); break; } } }
				int t = V.twin(1, id); fl.push_back("fault " + num(t) + " nest " + num(i) + " " + num(n));
				if (r.p(35)) fl.push_back("fault " + num(n) + " throw 1 " + num(r.n(8)));
				if (r.p(20)) fl.push_back("fault " + num(n) + " alloc " + num(1 + r.n(12)) + " 1 0");
				++used;
			}
			if (!flush(true)) return;
		}
	}
	void repeat(World& W, int id, int n) { for (auto& l : W.ops) if (atoi(split(l)[2].c_str()) == id) l += (l.find(';') == S::npos ? " ;rep=" : " rep=") + num(n); }
	// a call made thousands of times
	bool often(const char* prop, World& W, const Entry& e, double allowance, bool hooks, const char* extra = "")
	{
		Rng& r = W.r; int id = W.gen(1, e); Log P = probe(head(prop) + W.text()); const Ope* o = P.op(id); if (!o) return true; double cost = 1 + o->allocs + o->steps / 100.0;
		static const int N[] = {300, 600, 1100, 2100, 5000, 20000}; int n = std::max(60, (int)std::min((double)N[r.n(deep ? 6 : 5)], allowance / cost)); repeat(W, id, n); if (!hooks && n > 500) W.opt("hooks", 0);
		for (int i = 0; i < 3; ++i) W.gen(1, i ? r.pick(value_ops()) : e); W.twin(1, id); for (auto& l : W.ops) { size_t q = l.rfind("rep="); if (q != S::npos && atoi(split(l)[2].c_str()) != id) l = l.substr(0, l[q - 1] == ';' ? q - 2 : q - 1); }
		return emit(head(prop, extra) + W.text());
	}
	// many failures of one call in a row, then the same call and others with nothing failing
	bool attrition(const char* prop, World& W, int id, const Log& P, int kinds, int nt = 1)
	{
		Rng& r = W.r; const Ope* o = P.op(id); if (!o) return true; int ng = kinds & 2 ? o->gcalls : 0, na = kinds & 1 ? o->allocs : 0; if (!ng && !na) return true;
		static const int N[] = {9, 18, 35, 70, 140, 300}; int n = N[r.n(deep ? 6 : 5)]; std::vector<S> f; bool same = r.p(50); int at = 0;
		for (int i = 0; i < n; ++i)
		{
			int t = W.twin(nt == 1 ? 1 : r.in(1, nt), id); bool g = ng && (!na || r.p(50)); if (!at || !same) at = 1 + r.n(g ? ng : na);
			if (g) f.push_back("fault " + num(t) + " throw " + num(std::min(at, ng)) + " " + num(r.n(8))); else f.push_back("fault " + num(t) + " alloc " + num(std::min(at, na)) + " " + num(r.p(70) ? 1 : 1000000) + " 0");
			if (r.p(3)) W.gen(1, r.pick(value_ops()));
		}
		W.twin(1, id); for (int q = 0; q < 3; ++q) W.gen(nt == 1 ? 1 : r.in(1, nt), r.pick(value_ops())); W.twin(nt, id);
		return emit(head(prop) + W.text(f));
	}
	const Entry& any_kind(u64 idx) { size_t a = value_kinds().size(), b = mut_kinds().size(); return idx % 5 < 4 ? value_kinds()[(idx - idx / 5) % a] : mut_kinds()[(idx / 5) % b]; }
	void p04(u64 seed, u64 idx)
	{
		World W(seed); Rng& r = W.r; env(W); W.opt("mini", 1); W.opt("ver", 1); W.user_gamma = 20; W.combmax = r.p(92) ? 4 : 40;
		W.populate(r.in(2, 4), r.in(1, 2)); if (r.p(40)) W.gen(1, r.pick(value_ops()));
		int id = W.gen(1, about(W, any_kind(idx), 2)); Log P = probe(head("P04") + W.text()); if (r.p(12)) { attrition("P04", W, id, P, 1); return; } chain("P04", W, id, P, 1);
	}
	void p03(u64 seed, u64 idx)
	{
		World W(seed); Rng& r = W.r; env(W); W.opt("watch", 1); W.opt("mid", 1); W.user_gamma = 45; W.combmax = r.p(92) ? 4 : 40; if (r.p(8)) W.extreme = 20;
		W.populate(r.in(2, 4), r.in(1, 2)); for (int i = r.n(3); i > 0; --i) W.gen(1, r.pick(r.p(50) ? mut_ops() : value_ops()));
		if (r.p(3)) { often("P03", W, about(W, value_kinds()[idx % value_kinds().size()]), 3e5, true); return; }
		int id = W.gen(1, about(W, value_kinds()[idx % value_kinds().size()])); for (int i = r.n(4); i > 0; --i) W.gen(1, r.pick(value_ops()));
		S t = head("P03") + W.text(); Log P = probe(t); if (!emit(t)) return; 
		int k = (int)(idx / value_kinds().size()) % 3; chain("P03", W, id, P, k == 0 ? 1 : k == 1 ? 2 : 7);
	}
	void p05(u64 seed, u64 idx)
	{
		World W(seed); Rng& r = W.r; env(W); W.opt("mini", 1); W.opt("ver", 1); W.user_gamma = 60; S h = head("P05");
		W.populate(r.in(2, 4), 2);
		if (idx % 3 == 0)
		{
			int pre = r.n(3); for (int i = 0; i < pre; ++i) W.gen(1, amut(r));
			int id = W.gen(1, about(W, mut_kinds()[(idx / 3) % mut_kinds().size()], 1)); Log P = probe(h + W.text());
			chain("P05", W, id, P, 3, "", true); return;
		}
		int n = r.in(6, deep ? 30 : 18); static const char* cps[] = {"cpC", "cpD", "cpG", "cpM", "cpW", "cpP"}; std::vector<int> ids;
		for (int i = 0; i < n; ++i) { int m = r.n(10); if (m < 7) ids.push_back(W.gen(1, amut(r))); else if (m < 9) W.gen(1, {cps[r.n(6)], -1}); else W.gen(1, r.pick(value_ops())); }
		Log P = probe(h + W.text()); if (!emit(h + W.text())) return;
		for (int v = 0; v < (deep ? 8 : 4); ++v)
		{
			std::vector<S> f;
			for (int id : ids) { const Ope* o = P.op(id); if (!o || !r.p(45)) continue; if (o->gcalls && r.p(50)) f.push_back("fault " + num(id) + " throw " + num(1 + r.n(o->gcalls)) + " " + num(r.n(8))); else if (o->allocs) f.push_back("fault " + num(id) + " alloc " + num(1 + r.n(o->allocs)) + " " + num(r.p(80) ? 1 : 3) + " 0"); }
			if (f.empty()) continue; if (!emit(h + W.text(f))) return;
		}
	}
	void p06(u64 seed, u64 idx)
	{
		World W(seed); Rng& r = W.r; env(W); W.opt("mini", 1); W.opt("ver", 1); W.user_gamma = 100; W.combmax = r.p(92) ? 3 : 40; S h = head("P06");
		static std::vector<Entry> ent; static std::once_flag once; std::call_once(once, [] { for (auto& e : value_kinds()) { static const std::set<S> no = {"adlum", "defpre", "gampre", "wppre", "hexs", "hexi", "cpC", "cpD", "cpG", "cpM", "cpW", "cpP", "ctorC", "ctorB", "ctorD", "ctorW", "eqC", "eqM", "eqW", "eqG", "getC", "getCv", "getD", "getG", "getM", "mat2", "mats", "matu", "matv", "matat", "matq", "matid", "matctor", "wpst", "plusC"}; if (!no.count(e.name)) for (int q = 0; q < (e.name == "conv" ? 12 : e.name == "to" ? 4 : e.name == "gcorr" ? 2 : e.name == "blend" && e.k == 27 ? 6 : 1); ++q) ent.push_back(e); } for (auto& e : mut_kinds()) if (e.name == "gcC" || e.name == "adjip" || e.name == "addG" || e.name == "asgG") ent.push_back(e); });
		const Entry e = about(W, ent[idx % ent.size()], 2);
		for (int i = 0; i < 2; ++i) { S g = W.G(2 + r.n(3)); S d = W.D("", g); for (int q = 0; q < 2; ++q) W.C(q ? r.n(15) : r.n(9), d); }
		if (idx / ent.size() % 3 != 2)
		{
			int id = W.gen(1, e); Log P = probe(h + W.text()); const Ope* o = P.op(id); if (!o || !o->gcalls) { if (cnt) ++cnt->note["calls without gamma evaluation"]; return; }
			if (r.p(12)) { attrition("P06", W, id, P, 2); return; }
			if (r.p(15))      // functions that call the library whose functions call the library ...
			{
				std::vector<S> f; int depth = r.in(2, 7), up = id, ng = o->gcalls;
				for (int q = 0; q < depth; ++q)
				{
					World V = W; int in = V.gen(1, r.p(60) ? e : r.pick(ent)); Log Q = probe(h + V.text()); const Ope* g = Q.op(in); if (!g || !g->gcalls) continue; if (opdef(V.opname[in])->flags & F_MUT) continue;
					int gc = g->gcalls; V.ops.back() = "n" + V.ops.back(); W = V; f.push_back("fault " + num(up) + " nest " + num(1 + r.n(ng)) + " " + num(in)); up = in; ng = gc;
				}
				if (r.p(30)) f.push_back("fault " + num(up) + " throw " + num(1 + r.n(ng)) + " " + num(r.n(8)));
				W.twin(1, id); if (f.size()) emit(h + W.text(f)); return;
			}
			chain("P06", W, id, P, 2 | 4); return;
		}
		// several callers, some held up inside their gamma function
		W.mt = true; int nt = r.in(2, 4); W.opt("nthreads", nt); std::vector<int> ids;
		for (int t = 1; t <= nt; ++t) for (int i = 0; i < 2; ++i) ids.push_back(r.p(60) && !ids.empty() && !(opdef(e.name)->flags & F_MUT) ? W.twin(t, ids[0]) : W.gen(t, e));
		Log P = probe(h + W.text());
		for (int v = 0; v < 4; ++v)
		{
			std::vector<S> f; int left = nt - 1;
			for (int id : ids) { const Ope* o = P.op(id); if (o && o->gcalls && left > 0 && r.p(50)) { f.push_back("fault " + num(id) + " " + (r.p(75) ? "gstall " + num(1 + r.n(o->gcalls)) : "throw " + num(1 + r.n(o->gcalls)) + " " + num(r.n(8)))); --left; } }
			if (f.empty()) continue; std::map<S, S> o2; if (r.p(40)) { o2["quantum"] = num(50 + r.n(500)); o2["qseed"] = num(r.n(1 << 30)); }
			if (!emit(h + W.text(f, o2))) return;
		}
	}
	// ------------------------------------------------------------------------------- P07
	void p07(u64 seed, u64 idx)
	{
		World W(seed); Rng& r = W.r; S h;
		if (idx % 64 == 0)
		{
			W.opt("hooks", 0); W.opt("garbage", r.n(3)); h = head("P07", " mode=stats"); S d = W.D("", W.G(0)); std::vector<S> cs; int np = 30;
			float al[] = {1.f, 0.9f, 0.8f, 0.6f, 0.5f, 0.4f};
			if (idx / 64 % 2) { float dl = expf(r.f(-8.f, -3.5f)); for (int i = 0; i < 3; ++i) al[i] = al[i + 3] + (r.p(50) ? dl : -dl); }      // opacities that hardly differ
			bool part = r.p(60);
			for (int i = 0; i < np; ++i)
			{
				int ty = i % 2; if (i % 5 == 4) { static const int o[] = {6, 7, 2, 4, 9}; ty = o[r.n(5)]; } S b = num(ty) + " " + hx(al[r.n(6)]) + " " + d;
				bool lo = r.p(50);
				if (ty < 2) for (int q = 0; q < 3; ++q) { float v = ((lo ? 1 + r.n(3) : 5 + r.n(3)) + 0.0f) / 8.f; b += " " + hx(ty == 0 ? floorf(v * 255) : v); } else for (int q = 0; q < ncomp(ty); ++q) b += " " + hx(ty == 2 ? r.f(20, 235) : q == 0 && ty >= 5 && ty < 9 ? r.f(0, 359) : r.f(0.15f, 0.8f));
				S id = W.nm("c"); Obj& o = W.add('C', id, b); o.type = ty; cs.push_back(id); W.emit(1, "to", "1 " + id);
			}
			int n = deep ? 9000 : 4500; 
			for (int i = 0; i < n; ++i) { S a = r.pick(cs); while (W.get(a)->type > 1) a = r.pick(cs); S b = r.pick(cs); W.emit(1, "blend", "1 " + a + " " + b + (part && r.p(30) ? S(" ") + num(r.n(2)) + " " + num(r.n(2)) : S(" 1 1")), "rs=0:" + num((long long)(r.next() >> 20)) + ":0"); }
			emit(h + W.text()); return;
		}
		if (idx % 3 == 1)      // no other operation touches the generator; with failures and histories
		{
			env(W); W.opt("mini", 1); h = head("P07", " mode=draws"); W.populate(3, 2); W.gen(1, any_kind(idx / 3)); for (int i = 0; i < 5; ++i) { if (r.p(40)) W.gen(1, {"blend", 1}); W.gen(1, any_kind((u64)r.n(100000))); } if (r.p(40)) fault_some(W, {1, 3}); emit(h + W.text()); return;
		}
		env(W); W.opt("mini", 1); h = head("P07", " mode=model"); S d = W.D(); if (r.p(10)) d = "0";
		std::vector<S> cs; int n = r.in(2, 4);
		for (int i = 0; i < n; ++i) { int ty = r.p(50) ? r.n(2) : d == "0" ? r.n(9) : r.n(15); S id = W.C(ty, d); cs.push_back(id); W.emit(1, "to", "1 " + id); }
		for (int i = 0; i < 10; ++i) { S a = r.pick(cs), b = r.pick(cs); W.emit(1, "blend", "1 " + a + " " + b + " " + num(r.p(70)) + " " + num(r.p(70)), W.rs()); if (r.p(15)) W.gen(1, {"conv", -1}); }
		if (r.p(4)) { static const int N[] = {300, 1100, 3000, 8000, 30000, 70000}; int n = N[r.n(deep ? 6 : 5)]; for (auto& l : W.ops) { Toks k = split(l); if (k[3] == "blend" && r.p(30)) { l += (l.find(';') == S::npos ? " ;rep=" : " rep=") + num(n); break; } } W.opt("hooks", 0); }
		emit(h + W.text());
	}
	// ------------------------------------------------------------------------------- P08
	void p08(u64 seed, u64 idx)
	{
		World W(seed); Rng& r = W.r; env(W); W.opt("mini", 1); W.opt("ver", 1); W.user_gamma = 20; S h = head("P08"); W.populate(r.in(2, 5), 2);
		const Entry e = about(W, value_kinds()[(idx / 4) % value_kinds().size()]);
		auto spoil = [&](int opid)      // change or destroy a result
		{
			std::vector<S> v; for (auto& o : W.objs) if (o.alive && o.line.empty() && o.id.compare(0, num(opid).size() + 1, num(opid) + ".") == 0) v.push_back(o.id); if (v.empty()) return;
			S id = r.pick(v); Obj* o = W.get(id);
			if (r.p(45)) { W.emit(1, "del", id); o->alive = false; return; }
			S d = o->d; mutate_args(W, 1, {id});
		};
		auto spoil_arg = [&](int opid) { for (auto& a : args_of(W, opid)) { Obj* o = W.get(a); if (o && o->kind == 'C' && !o->line.empty() && o->alive && r.p(60)) { W.emit(1, "del", a); o->alive = false; } else if (o && (o->kind == 'C' || o->kind == 'M')) mutate_args(W, 1, {a}); } };
		if (r.p(5)) { W.opt("keepall", 1); often("P08", W, e, 2e5, false); return; }
		if (idx % 4 == 0)      // many retained results of one kind
		{
			static const int N[] = {12, 40, 90, 280}; int n = N[r.n(r.p(15) ? 4 : 3)]; if (n > 100) W.opts.erase("ver"); if (e.name == "comb" || e.name == "defpre") n = std::min(n, 24);
			std::vector<int> ids; for (int i = 0; i < n; ++i) ids.push_back(i && r.p(70) ? W.twin(1, ids[0]) : W.gen(1, e));
			spoil(ids[0]); W.twin(1, ids[0]); emit(h + W.text()); return;
		}
		std::vector<int> ids; int n = r.in(3, deep ? 16 : 9); std::vector<int> fl;
		for (int i = 0; i < n; ++i)
		{
			int m = r.n(12);
			if (i == 0 || m < 4) ids.push_back(W.gen(1, i == 0 || r.p(60) ? e : r.pick(value_ops())));
			else if (m < 7) spoil(r.pick(ids));
			else if (m < 8) spoil_arg(r.pick(ids));
			else if (m < 9) { int q = W.gen(1, e); fl.push_back(q); }
			else { int src = r.pick(ids); int t = W.twin(1, src); if (t > 0) { W.result(t, 0, 'C', -1, "0", 1); ids.push_back(t); W.objs.back().kind = W.objs.back().kind; for (auto& o : W.objs) if (o.id == num(src) + ".0") { W.objs.back().kind = o.kind; W.objs.back().type = o.type; W.objs.back().d = o.d; W.objs.back().rows = o.rows; W.objs.back().cols = o.cols; break; } } }
		}
		fault_some(W, fl); W.twin(1, ids[0]); W.gen(1, e); emit(h + W.text());
	}
	// ------------------------------------------------------------------------------- P09
	// the same call after ever longer histories
	void growth(World& W, const Entry& e)
	{
		Rng& r = W.r; W.opt("noval", 1); W.user_gamma = 30; W.avgmax = 4; W.combmax = 5; W.populate(3, 2); S h = head("P09");
		bool mut = opdef(e.name)->flags & F_MUT; int id = W.gen(1, e); Log P = probe(h + W.text()); const Ope* o = P.op(id); if (!o) return;
		double cost = 1 + o->allocs + o->steps / 100.0; 
		if (mut || r.p(60))      // equal calls
		{
			int n = (int)std::min(deep ? 40000. : 6000., (deep ? 4e6 : 6e5) / cost); if (n < 800) n = 800;
			W.opt("grow", mut ? 1 : r.in(1, 2)); for (auto& l : W.ops) if (atoi(split(l)[2].c_str()) == id) l += (l.find(';') == S::npos ? " ;rep=" : " rep=") + num(n);
			emit(h + W.text()); return;
		}
		// calls with ever other arguments, in between the same one
		int n = (int)std::min(deep ? 3000. : 800., (deep ? 1e6 : 2e5) / cost); if (n < 300) n = 300; std::vector<int> m; int prev = id;
		for (int i = 1; i <= n; ++i)
		{
			int q = r.p(85) ? vary(W, 1, r.p(50) ? id : prev) : -1; if (q < 0) q = W.gen(1, e); prev = q;
			if (i == n / 4 || i == n / 2 || i == n) for (int k = 0; k < 2; ++k) m.push_back(W.twin(1, id));
			if (W.objs.size() > 600 && r.p(90)) { std::vector<S> c; for (auto& x : W.objs) if (x.alive && x.line.empty()) { c.push_back(x.id); if (c.size() > 4) break; } for (auto& x : c) { W.emit(1, "del", x); W.get(x)->alive = false; } }
		}
		S g; for (int q : m) g += (g.empty() ? "" : ",") + num(q);
		emit(head("P09", (" grow=" + g).c_str()) + W.text());
	}
	// one, four and eight times as many colours
	void scaling(World& W, u64 idx)
	{
		Rng& r = W.r; W.opt("noval", 1); W.opt("budget", 60000000); W.populate(4, 2); S g; static const int N[] = {50, 100, 200, 300, 1000}; int n = N[r.n(5)]; bool comb = r.p(35); std::vector<S> few; S c0, head0; int ty = (int)(idx / 64 % 15), alpha = 0; S d0;
		if (comb) { c0 = W.pickC(1); if (n > 300) n = 300; head0 = r.p(50) ? hx(r.f(0.0005f, 0.01f)) : hx(0.f); head0 += " " + num(r.n(3)); } else { for (int i = r.in(1, 4); i > 0; --i) { S c = W.pickC(1, ty, few.empty() ? S() : d0); if (few.empty()) d0 = W.get(c)->d; few.push_back(c); } alpha = r.n(2); }
		for (int k : {1, 4, 8})
		{
			S a; if (comb) a = "6 " + c0 + " " + head0 + " " + num(n * k); else { a = num(ty) + " " + num((n * k / few.size()) * 2 + alpha); for (auto& c : few) a += " " + c; }
			g += (g.empty() ? "" : ",") + num(W.emit(1, comb ? "comb" : "avg", a));
		}
		emit(head("P09", (" scale=" + g).c_str()) + W.text());
	}
	void p09(u64 seed, u64 idx)
	{
		if (idx % 64 == 21) { World G(seed); env(G); scaling(G, idx); return; }
		if (idx % 16 == 13 && S(any_kind(idx / 16).name) != "addG") { World G(seed); env(G); G.opt("budget", 12000000); growth(G, any_kind(idx / 16)); return; }
		World W(seed); Rng& r = W.r; env(W); W.opt("budget", 12000000); S h = head("P09"); int mode = (int)(idx % 4);
		const Entry e = about(W, any_kind(idx / 4), 2);
		if (mode < 2)
		{
			W.extreme = mode == 0 ? 45 : 15; W.combmax = r.p(85) ? 12 : 400; W.user_gamma = 30; W.populate(r.in(2, 4), r.in(1, 2));
			int n = r.in(4, 8); for (int i = 0; i < n; ++i) W.gen(1, i % 2 == 0 ? e : any_kind((u64)r.n(100000)));
			if (r.p(75) && !emit(h + W.text())) return;
			if (r.p(50)) { Log P = probe(h + W.text()); std::vector<S> f; for (auto& o : P.ops) if (o.allocs && r.p(70)) f.push_back("fault " + num(o.id) + " alloc " + num(1 + r.n(o.allocs)) + " " + num(r.p(40) ? 1 : 1000000) + " 0"); emit(h + W.text(f)); }
			return;
		}
		if (mode == 2)      // failures, then more calls
		{
			W.user_gamma = 60; W.populate(3, 2); int id = W.gen(1, e); int nt = 1; if (r.p(50)) { nt = 2; W.opt("nthreads", 2); W.opt("seq", 1); }
			Log P = probe(h + W.text()); const Ope* o = P.op(id); if (!o) return; std::vector<S> f; if (r.p(25)) { attrition("P09", W, id, P, 3, nt); return; }
			for (int i = 0; i < 8; ++i) { int t = W.twin(r.in(1, nt), id); if (o->gcalls && r.p(50)) f.push_back("fault " + num(t) + " throw " + num(1 + r.n(o->gcalls)) + " " + num(r.n(8))); else if (o->allocs) f.push_back("fault " + num(t) + " alloc " + num(1 + r.n(o->allocs)) + " " + num(r.p(60) ? 1 : 1000000) + " 0"); if (i % 2) W.gen(r.in(1, nt), r.p(50) ? e : r.pick(value_ops())); }
			emit(h + W.text(f)); return;
		}
		W.mt = true; int nt = r.in(2, 4); W.opt("nthreads", nt); W.populate(3, 1); W.user_gamma = 30; int per = r.in(1, 3);
		std::vector<Entry> f = focus(r, value_ops(), 1, 2); f.push_back(e); f.push_back(e);
		if (r.p(60)) { f.clear(); f.push_back(e); std::vector<Entry> sib; for (auto& k : value_kinds()) if (k.name == e.name) sib.push_back(k); if (sib.size() && r.p(60)) f.push_back(r.pick(sib)); else f.push_back(about(W, r.pick(value_kinds()), 0)); }      // what two calls have in common
		for (int t = 1; t <= nt; ++t) for (int i = 0; i < per; ++i) W.gen(t, i == 0 && t <= (int)f.size() ? f[t - 1] : r.pick(f));
		Log P = probe(h + W.text() + "opt probe=1\n"); std::vector<std::pair<int, u64>> pts, all;
		for (auto& o : P.ints) for (auto& k : o.second) if (k.first == 1) for (u64 st : k.second) pts.push_back({o.first, st});
		for (auto& o : P.ops) if (o.steps > 2) all.push_back({o.id, o.steps}); if (all.empty()) return;
		int plans = pts.empty() ? 2 : 16;
		for (int v = 0; v < plans; ++v)
		{
			std::vector<S> x; int n = r.in(1, nt); 
			for (int i = 0; i < n; ++i) { int op; u64 st; if (!pts.empty() && r.p(85)) { auto& q = pts[r.n((int)pts.size())]; op = q.first; st = q.second + 1 + r.n(4); } else { auto& q = all[r.n((int)all.size())]; op = q.first; st = 1 + r.next() % q.second; } x.push_back((r.p(50) ? "stall " : "sw ") + num(op) + " " + num((long long)st) + (x.empty() ? "" : "")); if (x.back()[1] == 'w') x.back() += " " + num(1 + W.opthr[op] % nt); }
			std::map<S, S> o2; if (r.p(30)) { o2["quantum"] = num(10 + r.n(400)); o2["qseed"] = num(r.n(1 << 30)); }
			if (!emit(h + W.text(x, o2))) return;
		}
	}
	void p10(u64 seed, u64 idx)
	{
		World W(seed); Rng& r = W.r; env(W); W.opt("amb", 1); W.opt("fenv", 1); if (r.p(75)) W.opt("ambient", 1 + r.n(1 << 20)); W.user_gamma = 45; W.combmax = r.p(80) ? 4 : r.p(80) ? 60 : 360; if (r.p(20)) W.extreme = 25;
		W.populate(r.in(2, 4), r.in(1, 2)); for (int i = r.n(4); i > 0; --i) W.gen(1, any_kind((u64)r.n(100000)));
		if (r.p(3)) { const Entry e = about(W, any_kind(idx), 2); if (e.name != "addG") { often("P10", W, e, 1e6, false); return; } }
		int id = W.gen(1, about(W, any_kind(idx), 2)); for (int i = r.n(3); i > 0; --i) W.gen(1, r.pick(value_ops()));
		S t = head("P10") + W.text(); Log P = probe(t); if (!emit(t)) return;
		int k = (int)(idx / 40) % 4; if (k == 0) chain("P10", W, id, P, 1); else if (k == 1) chain("P10", W, id, P, 2); else if (k == 2) chain("P10", W, id, P, 4);
	}
	void run(const S& p, u64 seed, u64 idx)
	{
		if (p == "P01") p01(seed, idx); else if (p == "P02") p02(seed, idx); else if (p == "P03") p03(seed, idx); else if (p == "P04") p04(seed, idx); else if (p == "P05") p05(seed, idx);
		else if (p == "P06") p06(seed, idx); else if (p == "P07") p07(seed, idx); else if (p == "P08") p08(seed, idx); else if (p == "P09") p09(seed, idx); else if (p == "P10") p10(seed, idx);
	}
};
