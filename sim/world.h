// Scenario generation: objects, operations with plausible (or extreme) arguments.
#pragma once
#include "util.h"
#include <deque>
#include "opdefs.h"

static const OpDef* opdef(const S& n) { static std::map<S, const OpDef*> m; if (m.empty()) for (int i = 0; i < NOPDEFS; ++i) m[OPDEFS[i].name] = &OPDEFS[i]; auto i = m.find(n); return i == m.end() ? nullptr : i->second; }

struct Obj { S id; char kind; int type = -1; S d; int owner = 0; S line; int rows = 0, cols = 0; bool alive = true; bool fresh = false; };
struct Entry { S name; int k; };

static float xf(Rng& r)
{
	static const float v[] = {0.f, -0.f, 1.f, -1.f, 0.5f, 2.f, 1e-38f, 1e-45f, 254.99f, 255.f, 256.f, 359.99997f, 360.f, 361.f, 720.5f, -720.5f, -1e4f, 1e6f, -1e6f, 1.6e7f, 1e10f, -1e10f, 1e20f, 1e30f, -1e30f, 3.4e38f, -3.4e38f, INFINITY, -INFINITY, NAN};
	return v[r.n(sizeof v / sizeof *v)];
}
static int ncomp(int t) { return t == 2 || t == 3 ? 1 : t == 4 ? 4 : 3; }
static float comp_value(Rng& r, int t, int i)
{
	float lo = 0, hi = 1;
	switch (t)
	{
	case 0: case 2: hi = 255; break;
	case 5: case 6: case 7: case 8: if (i == 0) hi = 360; break;
	case 9: case 10: hi = 1.f; break;
	case 11: case 12: if (i == 0) hi = 100; else { lo = -80; hi = 80; } break;
	case 13: case 14: hi = i == 2 ? 360 : 100; break;
	}
	int m = r.n(12);
	if (m >= 10)      // values that land exactly half way between two true-colour levels, or one step beside a boundary
	{
		if (hi == 1.f) { int k = r.p(30) ? 254 : r.p(20) ? 0 : r.n(255); float v = ((float)k + 0.5f) / 255.f; return r.p(70) ? v : nextafterf(v, r.p(50) ? 2.f : -1.f); }
		if (t == 0 || t == 2) return (float)r.n(255) + 0.5f;
		static const float e[] = {60, 120, 180, 240, 300, 275, 30}; if (hi == 360) return r.p(60) ? e[r.n(7)] : nextafterf(e[r.n(7)], r.p(50) ? 1000.f : 0.f);
		return r.p(50) ? nextafterf(lo, hi) : nextafterf(hi, lo);
	}
	if (m == 0) return lo; if (m == 1) return hi; if (m == 2) return lo + (hi - lo) * 0.5f;
	if (m < 6) { float v = lo + (hi - lo) * (float)r.n(17) / 16.f; return hi > 2 ? floorf(v) : v; }
	return r.f(lo, hi);
}

struct World
{
	Rng r; std::map<S, S> opts; std::deque<Obj> objs; std::vector<S> ops, extra, proto; int nid = 1, nobj = 0; int extreme = 0, wrong = 0; bool mt = false; int user_gamma = 50; int combmax = 6, avgmax = 36, hexmax = 40;
	std::map<int, S> opname; std::map<int, int> opthr;
	int want_to = -1, want_from = -1;      // types to prefer in the calls of this world
	int anytype() { return want_to >= 0 && r.p(60) ? want_to : r.n(15); }
	explicit World(u64 seed) : r(seed) {}
	S opt_line() const { S s = "opt"; for (auto& k : opts) s += " " + k.first + "=" + k.second; return s; }
	S text(const std::vector<S>& more = {}, const std::map<S, S>& o2 = {}) const
	{
		S s = opt_line(); for (auto& k : o2) s += " " + k.first + "=" + k.second; s += "\n";
		for (auto& o : objs) if (!o.line.empty()) s += o.line + "\n";
		for (auto& o : ops) s += o + "\n";
		for (auto& o : extra) s += o + "\n";
		for (auto& o : more) s += o + "\n";
		return s;
	}
	void opt(const char* k, long long v) { opts[k] = num(v); }
	float fx(float a, float b) { if (extreme && r.p(extreme)) return xf(r); return r.f(a, b); }
	S fh(float a, float b) { return hx(fx(a, b)); }

	// ---- objects
	Obj& add(char kind, const S& id, const S& body, int owner = 0) { Obj o; o.id = id; o.kind = kind; o.line = S("obj ") + kind + " " + id + " " + body; o.owner = owner; objs.push_back(o); return objs.back(); }
	S nm(const char* p) { return p + num(nobj++); }
	S wp_body()
	{
		int m = r.n(8);
		if (m < 5) return "k " + num(r.n(40));
		if (m == 5) return "c " + hx(r.f(0.25f, 0.45f)) + " " + hx(r.f(0.25f, 0.45f));
		if (m == 6) { float q = r.p(60) ? 1.f : r.p(50) ? 100.f : r.f(0.2f, 3.f); return "t " + hx(q * r.f(0.8f, 1.1f)) + " " + hx(q) + " " + hx(q * r.f(0.3f, 1.3f)); }
		float x = r.f(0.28f, 0.36f), y = r.f(0.28f, 0.36f); return "tc " + hx(x / y) + " " + hx(1.f) + " " + hx((1 - x - y) / y) + " " + hx(x) + " " + hx(y);
	}
	S W() { S id = nm("w"); add('W', id, wp_body()); return id; }
	S part_body(bool inv, float border)
	{
		if (r.p(user_gamma))
		{
			int fn = r.n(6); float p = fn == 3 ? (inv ? r.f(0.3f, 0.7f) : r.f(1.4f, 2.8f)) : fn == 4 ? r.f(0.1f, 0.9f) : r.f(0.5f, 1.2f);
			return "u " + num(fn) + " " + hx(p) + " " + hx(border) + " " + num(r.n(2));
		}
		return "g " + num(r.n(8)) + " " + num(inv) + " 0";
	}
	S P(bool inv, float border) { S id = nm("p"); add('P', id, part_body(inv, border)); return id; }
	S G(int style = -1)
	{
		if (style < 0) style = r.n(8);
		S a, b;
		switch (style)
		{
		case 0: { int k = 4; S p[4]; for (int i = 0; i < 4; ++i) { p[i] = nm("p"); add('P', p[i], "g " + num(k) + " " + num(i / 2) + " " + num(i % 2)); } a = "2 " + p[0] + " " + p[1]; b = "2 " + p[2] + " " + p[3]; break; }
		case 1: { int k = r.n(4); S p[2]; for (int i = 0; i < 2; ++i) { p[i] = nm("p"); add('P', p[i], "g " + num(k) + " " + num(i) + " 0"); } a = "1 " + p[0]; b = "1 " + p[1]; break; }
		case 2: { int k = user_gamma; user_gamma = 100; a = "1 " + P(false, INFINITY); b = "1 " + P(true, INFINITY); user_gamma = k; break; }
		case 3: { a = "2 " + P(false, 0.04f) + " " + P(false, INFINITY); b = "2 " + P(true, 0.003f) + " " + P(true, INFINITY); break; }
		case 4: { a = "3 " + P(false, r.f(0, 0.3f)) + " " + P(false, r.f(0.3f, 0.7f)) + " " + P(false, INFINITY); b = "1 " + P(true, INFINITY); break; }
		case 6: case 7:      // several parts, in places none or two for a value
			for (int k = 0; k < 2; ++k)
			{
				int np = style == 7 && r.p(15) ? 0 : r.in(1, 5); S& t = k ? b : a; t = num(np); float at = 0; 
				for (int i = 0; i < np; ++i) { at = r.p(15) ? at : at + r.f(0.02f, 0.4f); t += " " + P(k == 1, i + 1 == np && r.p(30) ? INFINITY : i + 1 == np && r.p(30) ? 1.f : at); }
			}
			break;
		default: a = "1 " + P(false, 1e30f); b = "1 " + P(true, 1e30f);
		}
		S id = nm("g"); add('G', id, a + " " + b); return id;
	}
	S prim_body()
	{
		static const float pr[6][6] = {{.64f, .33f, .3f, .6f, .15f, .06f}, {.64f, .33f, .21f, .71f, .15f, .06f}, {.735f, .265f, .115f, .826f, .157f, .018f}, {.7347f, .2653f, .1596f, .8404f, .0366f, .0001f}, {.68f, .32f, .265f, .69f, .15f, .06f}, {.625f, .34f, .28f, .595f, .155f, .07f}};
		int k = r.n(6); S s; for (int i = 0; i < 6; ++i) { float v = pr[k][i]; if (r.p(30)) v += r.f(-0.02f, 0.02f); s += (i ? " " : "") + hx(v); } return s;
	}
	S D(S w = "", S g = "") { if (w.empty()) w = W(); if (g.empty()) g = G(); S id = nm("d"); add('D', id, prim_body() + " " + w + " " + g); return id; }
	S alpha_hex() { int m = r.n(8); float a = m < 3 ? 1.f : m == 3 ? 0.f : m == 4 ? 0.5f : r.f(0.05f, 0.98f); return hx(a); }
	S color_body(int t, const S& d)
	{
		S s = num(t) + " " + alpha_hex() + " " + d; bool grey = r.p(8) && ncomp(t) == 3 && t < 2; float g = comp_value(r, t, 1);
		for (int i = 0; i < ncomp(t); ++i) s += " " + hx(extreme && r.p(extreme) ? xf(r) : grey ? g : comp_value(r, t, i));
		return s;
	}
	S C(int t, const S& d, int owner = 0) { S id = nm("c"); Obj& o = add('C', id, color_body(t, d), owner); o.type = t; o.d = d; return id; }
	S mat_body(int rr, int cc) { S s = num(rr) + " " + num(cc); for (int i = 0; i < rr * cc; ++i) s += " " + hx(extreme && r.p(extreme) ? xf(r) : r.p(30) ? (float)r.in(-3, 3) : r.f(-2, 2)); return s; }
	S M(int rr, int cc) { S id = nm("m"); Obj& o = add('M', id, mat_body(rr, cc)); o.rows = rr; o.cols = cc; return id; }
	Obj* get(const S& id) { for (auto& o : objs) if (o.id == id) return &o; return nullptr; }
	// a small population of everything
	void populate(int ncolors = 5, int ndefs = 2)
	{
		S w = W(); if (r.p(70)) W();
		std::vector<S> ds; for (int i = 0; i < ndefs; ++i) ds.push_back(i && r.p(40) ? D(w) : D());
		for (int i = 0; i < ncolors; ++i) C(r.n(15), r.p(75) ? ds[0] : r.pick(ds));
	}
	std::vector<Obj*> all(char kind, int t, int type = -1, bool needD = false)
	{
		std::vector<Obj*> v; for (auto& o : objs) if (o.kind == kind && o.alive && (o.owner == 0 || o.owner == t || !mt) && (type < 0 || o.type == type) && !(needD && kind == 'C' && o.d == "0")) v.push_back(&o); return v;
	}
	S defd() { auto v = all('D', -1); if (!v.empty()) return v[r.n((int)v.size())]->id; return D(); }
	S pickC(int t, int type = -1, const S& d = "")
	{
		if (type < 0 && want_from >= 0 && r.p(50)) type = want_from;
		std::vector<Obj*> v; for (Obj* o : all('C', t, type, true)) if (d.empty() || o->d == d) v.push_back(o);
		if (v.empty() || (v.size() < 2 && r.p(40))) return C(type < 0 ? r.n(15) : type, d.empty() ? defd() : d);
		// prefer the named objects over results a little
		return v[r.n((int)v.size())]->id;
	}
	S pick(char kind, int t)
	{
		if (kind == 'C') return pickC(t);
		auto v = all(kind, t); if (!v.empty() && !(kind == 'W' && v.size() == 1 && r.p(50))) return v[r.n((int)v.size())]->id;
		switch (kind) { case 'W': return W(); case 'D': return D(); case 'G': return G(); case 'P': return P(r.p(50), r.f(0.1f, 2.f)); default: { int n = r.in(1, 4); return M(n, r.p(60) ? n : r.in(1, 4)); } }
	}
	S pickM(int t, int rr = 0, int cc = 0) { std::vector<Obj*> v; for (Obj* o : all('M', t)) if ((!rr || o->rows == rr) && (!cc || o->cols == cc) && o->rows) v.push_back(o); if (v.empty() || r.p(25)) { int n = r.in(1, 4); return M(rr ? rr : n, cc ? cc : r.p(60) ? n : r.in(1, 4)); } return v[r.n((int)v.size())]->id; }
	// an object this thread may change
	S own(int t, char kind, int type = -1)
	{
		if (!mt)
		{
			if (kind == 'C') return pickC(t, type);
			if (kind == 'P') { S id = nm("p"); add('P', id, "u " + num(r.n(6)) + " " + hx(r.f(0.3f, 1.5f)) + " " + hx(r.f(0.1f, 2.f)) + " 0"); return id; }
			if (kind == 'W') { for (Obj* o : all('W', t)) if (o->fresh) return o->id; S id = W(); get(id)->fresh = true; return id; }
			if (kind == 'M') return pickM(t);
			return pick(kind, t);
		}
		for (auto& o : objs) if (o.kind == kind && o.owner == t && o.alive && (type < 0 || o.type == type) && r.p(70)) return o.id;
		S id = nm(kind == 'C' ? "oc" : kind == 'D' ? "od" : kind == 'W' ? "ow" : kind == 'G' ? "og" : kind == 'P' ? "op" : "om"), body; int rr = 0, cc = 0; S d;
		switch (kind)
		{
		case 'C': if (type < 0) type = r.n(15); d = defd(); body = color_body(type, d); break;
		case 'D': body = prim_body() + " " + pick('W', t) + " " + pick('G', t); break;
		case 'W': body = wp_body(); break;
		case 'P': body = "u " + num(r.n(6)) + " " + hx(r.f(0.3f, 1.5f)) + " " + hx(r.f(0.1f, 2.f)) + " 0"; break;
		case 'G': body = "1 " + pick('P', t) + " 1 " + pick('P', t); break;
		case 'M': rr = r.in(1, 4); cc = r.p(60) ? rr : r.in(1, 4); body = mat_body(rr, cc); break;
		}
		int id2 = nid++; opname[id2] = "mk"; opthr[id2] = t;
		ops.push_back("op " + num(t) + " " + num(id2) + " mk " + kind + " " + id + " " + body);
		Obj o; o.id = id; o.kind = kind; o.type = type; o.d = d; o.owner = t; o.rows = rr; o.cols = cc; objs.push_back(o);
		return id;
	}
	// ---- operations
	int emit(int t, const S& name, const S& args, const S& tail = "", bool nop = false)
	{
		int id = nid++; opname[id] = name; opthr[id] = t;
		ops.push_back((nop ? "nop " : "op ") + num(t) + " " + num(id) + " " + name + (args.empty() ? "" : " " + args) + (tail.empty() ? "" : " ;" + tail));
		return id;
	}
	void result(int opid, int j, char kind, int type, const S& d, int t, int rr = 0, int cc = 0) { Obj o; o.id = num(opid) + "." + num(j); o.kind = kind; o.type = type; o.d = d; o.owner = t; o.rows = rr; o.cols = cc; objs.push_back(o); }
	S rs() { int k = r.n(10); if (k < 6) return "rs=0:" + num(r.n(1 << 30)) + ":0"; if (k == 6) return "rs=1:1:" + num(r.p(50) ? 0x7fffffff - r.n(200) : r.n(101)); if (k == 7) return "rs=2:" + num(r.n(2)) + ":0"; if (k == 8) return "rs=3:" + num(r.n(50)) + ":" + num(r.in(1, 9)); return "rs=4:" + num(r.n(32)) + ":" + num((long long)(r.next() & 0xffffffff)); }
	int badhex = -1;      // how often, in %, a hex code of this case has an illegal character
	S hex_string()
	{
		static const char* good = "0123456789abcdefABCDEF"; S s; int m = r.n(12); int n = m < 4 ? 6 : m < 8 ? 8 : m == 8 ? 3 : m == 9 ? r.n(12) : m == 10 && r.p(25) ? r.in(9, hexmax) : 6;
		for (int i = 0; i < n; ++i) s += good[r.n(22)];
		if (badhex < 0) badhex = r.p(25) ? 75 : 8; if (r.p(60)) s = "#" + s; if (r.p(badhex) && !s.empty()) s[r.n((int)s.size())] = "#gz -+x"[r.n(7)]; if (r.p(3)) s = "";
		S h = "x"; for (unsigned char c : s) { char b[4]; snprintf(b, sizeof b, "%02x", c); h += b; } return h;
	}
	S dOr0(int t) { return r.p(75) ? pick('D', t) : S("0"); }
	// appends one operation; result objects are recorded; returns its id
	int gen(int t, const Entry& e, bool nop = false)
	{
		const S& n = e.name; const OpDef* od = opdef(n); int k = e.k < 0 ? r.n(od->nvar) : e.k; S K = num(k) + " "; S a, tail; int ty = -1; S d; char rk = 0; int rr = 0, cc = 0, nres = 1;
		auto dof = [&](const S& c) { Obj* o = get(c); return o ? o->d : S(); };
		auto tof = [&](const S& c) { Obj* o = get(c); return o ? o->type : -1; };
		auto wt = [&](float lo, float hi) { return fh(lo, hi); };
		auto nice = [&]() { return extreme && r.p(extreme) ? hx(xf(r)) : hx(r.p(40) ? (float)r.in(0, 4) * 0.25f : r.f(-0.2f, 1.5f)); };
		if (n == "conv") { S c = pickC(t); ty = anytype(); d = dof(c); rk = 'C'; a = c + " " + num(ty); }
		else if (n == "to") { S c = pickC(t); ty = k = anytype(); d = dof(c); rk = 'C'; a = num(ty) + " " + c; }
		else if (n == "adapt") { S c = pickC(t); d = "?"; ty = tof(c); rk = 'C'; a = K + c + " " + pick('W', t) + " " + hx(r.p(50) ? 1.f : fx(0.7f, 1.f)) + " " + fh(4, 400) + " " + fh(4, 400); }
		else if (n == "adlum") a = fh(0, 400) + " " + fh(0, 1);
		else if (n == "adj") { S c = pickC(t); d = dof(c); ty = tof(c); rk = 'C'; a = K + c + " " + (r.p(15) ? hx(0.f) : fh(-1, 1.5f)); }
		else if (n == "comb")
		{
			S c = pickC(t); d = dof(c); rk = 'C'; ty = tof(c); int i = 0, j = 0; float f = 0;
			if (k == 4) { i = r.p(90) ? r.in(2, combmax) : r.in(-2, 1); if (r.p(wrong ? wrong : 2)) i = r.p(50) ? 361 : r.in(361, 5000); nres = i > 1 && i < 361 ? i : 0; }
			else if (k == 5 || k == 7) { f = r.p(90) ? r.f(1, 119) : r.p(50) ? 0.f : 130.f; if (extreme && r.p(extreme)) f = xf(r); nres = 3; }
			else if (k == 6) { i = r.p(95) ? r.n(3) : 7; f = r.p(92) ? r.f(0, 0.4f) : -0.1f; if (extreme && r.p(extreme)) f = xf(r); j = r.p(95) ? r.in(1, combmax) : 0; nres = j; }
			else nres = k == 0 ? 1 : k + 2;
			if (nres > 6) nres = 6;
			a = K + c + " " + hx(f) + " " + num(i) + " " + num(j);
		}
		else if (n == "calc") { S c = pickC(t); d = dof(c); ty = tof(c); S c2 = r.p(92) ? pickC(t, -1, d) : pickC(t); rk = 'C'; a = K + c + " " + c2 + " " + nice() + " " + nice() + " " + num(r.n(2)); }
		else if (n == "calct") { ty = anytype(); S c = pickC(t, ty), c2 = pickC(t, ty, r.p(90) ? dof(c) : S()); d = dof(c); rk = 'C'; a = K + num(ty) + " " + c + " " + c2 + " " + nice() + " " + nice() + " " + num(r.n(2)); }
		else if (n == "avg")
		{
			ty = anytype(); int m = r.p(90) ? r.in(1, 4) : r.p(60) ? 0 : avgmax > 4 ? r.in(5, avgmax) : 0; S c0; a = num(ty) + " " + num(r.n(2)); std::set<S> seen;
			for (int i = 0; i < m; ++i) { S c = pickC(t, ty, i && r.p(92) ? dof(c0) : S()); if (!i) c0 = c; a += " " + c; } rk = 'C'; d = dof(c0);
		}
		else if (n == "dist") { S c = pickC(t), c2 = r.p(92) ? pickC(t, -1, dof(c)) : pickC(t); a = K + c + " " + c2; float dv[5] = {1, 1, 1, 0.045f, 0.015f}; for (int i = 0; i < 5; ++i) a += " " + (r.p(60) ? hx(dv[i]) : fh(0.01f, 2.f)); a += " " + num(r.n(15)); }
		else if (n == "blend") { S c = pickC(t), c2 = r.p(95) ? pickC(t, -1, dof(c)) : pickC(t); ty = tof(c); d = dof(c); rk = 'C'; a = K + c + " " + c2 + " " + num(r.p(70)) + " " + num(r.p(70)); if (k == 1) tail = rs(); }
		else if (n == "pd") { S c = pickC(t), c2 = r.p(95) ? pickC(t, -1, dof(c)) : pickC(t); ty = tof(c); d = dof(c); rk = 'C'; a = K + c + " " + c2; }
		else if (n == "hexs") { d = dOr0(t); rk = 'C'; ty = 0; a = hex_string() + " " + d; }
		else if (n == "hexi") { d = dOr0(t); rk = 'C'; ty = 0; a = num((long long)(int)(unsigned)r.next()) + " " + d; }
		else if (n == "predef") { static const int map[10] = {0, 1, 2, 3, 4, 6, 7, 9, 10, 12}; static const unsigned hc[6] = {0xFFF0F8FF, 0xFF000000, 0xFFDC143C, 0xFF4B0082, 0xFF7FFF00, 0xFFFFFFFF}; d = pick('D', t); rk = 'C'; ty = map[k]; a = K + num((long long)(int)hc[r.n(6)]) + " " + d; }
		else if (n == "defpre") { rk = 'D'; a = K + num(r.n(2)); }
		else if (n == "gampre") { rk = 'G'; a = K + num(r.n(2)); }
		else if (n == "wppre") { rk = 'W'; a = K + num(r.n(2)); }
		else if (n == "gcorr") { S g = pick('G', t); S x = r.p(20) ? hx((float)r.n(2)) : fh(-0.1f, 1.2f); if (Obj* o = get(g)) if (!o->line.empty() && r.p(35)) { Toks q = split(o->line); S b = r.pick(q); if (Obj* p = get(b)) { Toks z = split(p->line); if (p->kind == 'P' && z.size() > 5 && z[3] == "u") { float f = 0; f = unhx(z[5].size() == 8 ? z[5] : z[4]); if (z.size() > 6 && z[6].size() == 8) f = unhx(z[6]); x = hx(r.p(50) ? f : nextafterf(f, r.p(50) ? 9.f : -9.f)); } } } a = K + g + " " + x; }
		else if (n == "cpC") { S c = pickC(t); d = dof(c); ty = tof(c); rk = 'C'; a = c; }
		else if (n == "cpD" || n == "cpG" || n == "cpW" || n == "cpP") { rk = n[2]; a = pick(rk, t); }
		else if (n == "cpM") { S m = pickM(t); rk = 'M'; rr = get(m)->rows; cc = get(m)->cols; a = m; }
		else if (n == "ctorC") { ty = anytype(); d = dOr0(t); rk = 'C'; a = num(ty); for (int i = 0; i < 4; ++i) a += " " + (extreme && r.p(extreme) ? hx(xf(r)) : hx(i < ncomp(ty) ? comp_value(r, ty, i) : 0.f)); a += " " + fh(0, 1) + " " + d; }
		else if (n == "ctorB") { S c = pickC(t); ty = tof(c) < 0 || r.p(15) ? r.n(15) : tof(c); d = dof(c); rk = 'C'; a = num(ty) + " " + c; }
		else if (n == "ctorD") { rk = 'D'; a = prim_body() + " " + pick('W', t) + " " + pick('G', t); }
		else if (n == "ctorW") { rk = 'W'; a = K; for (int i = 0; i < 5; ++i) a += (i ? " " : "") + fh(0.2f, 0.6f); }
		else if (n == "eqC") a = pickC(t) + " " + pickC(t);
		else if (n == "plusC") { S c = pickC(t); a = c + " " + pickC(t, tof(c) < 0 ? -1 : tof(c), dof(c)); }
		else if (n == "eqM") { S m = pickM(t); a = m + " " + pickM(t, get(m)->rows, get(m)->cols); }
		else if (n == "eqW") a = pick('W', t) + " " + pick('W', t);
		else if (n == "eqG") a = pick('G', t) + " " + pick('G', t);
		else if (n == "getC") { S c = pickC(t); int m = tof(c) < 0 ? 1 : ncomp(tof(c)); a = c + " " + num(r.p(90) ? r.n(m) : r.in(-1, 5)); }
		else if (n == "getCv") a = pickC(t);
		else if (n == "getD") a = K + pick('D', t);
		else if (n == "getG") a = K + pick('G', t);
		else if (n == "getM") a = pickM(t);
		else if (n == "mat2") { S m = pickM(t); Obj* o = get(m); int R = o->rows, Cn = o->cols; S m2 = r.p(85) ? (k == 2 ? pickM(t, Cn) : pickM(t, R, Cn)) : pickM(t); Obj* q = get(m2); rk = 'M'; if (k == 2 ? Cn == q->rows : R == q->rows && Cn == q->cols) { rr = R; cc = k == 2 ? q->cols : Cn; } a = K + m + " " + m2; }
		else if (n == "mats") { S m = pickM(t); rk = 'M'; rr = get(m)->rows; cc = get(m)->cols; a = K + m + " " + fh(-2, 2); }
		else if (n == "matu") { int z = r.in(1, 4); S m = r.p(85) ? pickM(t, z, z) : pickM(t); if (k != 3) rk = 'M'; Obj* o = get(m); if (k == 0) { rr = o->cols; cc = o->rows; } else if (o->rows == o->cols) rr = cc = o->rows; a = K + m; }
		else if (n == "matv") { S m = pickM(t); int c = get(m)->cols; if (r.p(15)) c += r.in(-1, 1); a = m; for (int i = 0; i < c; ++i) a += " " + fh(-2, 2); }
		else if (n == "matat") a = pickM(t) + " " + num(r.p(80) ? r.n(2) : r.in(-2, 5)) + " " + num(r.p(80) ? r.n(2) : r.in(-2, 5));
		else if (n == "matq") a = K + pickM(t) + " " + num(r.p(85) ? r.n(2) : r.in(-1, 5)) + " " + num(r.p(85) ? r.n(2) : r.in(-1, 5));
		else if (n == "matid") { rr = cc = r.in(1, 4); rk = 'M'; a = num(rr); }
		else if (n == "matctor") { rr = r.in(1, 4); cc = r.in(1, 4); rk = 'M'; a = K + num(rr) + " " + num(cc) + " " + fh(-1, 1); if (k == 0) rr = cc = 0; if (k == 3) cc = rr; }
		else if (n == "wpst") a = K + fh(0.1f, 1) + " " + fh(0.1f, 1) + " " + fh(0.1f, 1);
		// mutators
		else if (n == "setc") { S c = own(t, 'C'); int y = tof(c); int i = r.p(95) ? r.n(y < 0 ? 1 : ncomp(y)) : r.in(-1, 5); a = c + " " + num(i) + " " + (extreme && r.p(extreme) ? hx(xf(r)) : hx(y < 0 ? r.f(0, 1) : comp_value(r, y, std::max(0, std::min(i, 2))))); }
		else if (n == "setcr") { S c = own(t, 'C'); int y = tof(c); a = c + " " + num(r.n(y < 0 ? 1 : ncomp(y))) + " " + fh(-1, 2) + " " + fh(0.5f, 100) + " " + fh(-10, 0.4f); }
		else if (n == "seta") a = own(t, 'C') + " " + (r.p(30) ? hx((float)r.n(2)) : fh(0, 1));
		else if (n == "setdef") { S c = own(t, 'C'), dd = pick('D', t); a = c + " " + dd; if (Obj* o = get(c)) o->d = dd; }
		else if (n == "asgC") { S c = own(t, 'C'); int y = tof(c); if (y < 0) { y = r.n(15); c = own(t, 'C', y); } S c2 = pickC(t, y); a = c + " " + c2; if (Obj* o = get(c)) if (o->d != dof(c2)) o->d = o->d; }
		else if (n == "gcC" || n == "amul") a = K + own(t, 'C');
		else if (n == "adjip") a = K + own(t, 'C') + " " + (r.p(15) ? hx(0.f) : fh(-1, 1.5f));
		else if (n == "setch") { S c = own(t, 'C'); int y = std::max(0, tof(c)), i = r.n(ncomp(y)); a = c + " " + num(i) + " " + (extreme && r.p(extreme) ? hx(xf(r)) : hx(r.p(85) ? comp_value(r, y, i) : r.f(-500, 900))); }
		else if (n == "setwp") a = own(t, 'D') + " " + pick('W', t);
		else if (n == "setgam") a = own(t, 'D') + " " + pick('G', t);
		else if (n == "asgD") a = own(t, 'D') + " " + pick('D', t);
		else if (n == "asgW") a = own(t, 'W') + " " + pick('W', t);
		else if (n == "asgG") a = own(t, 'G') + " " + pick('G', t);
		else if (n == "addG") a = K + own(t, 'G') + " " + pick('P', t);
		else if (n == "setG") a = K + own(t, 'G') + " " + pick('G', t);
		else if (n == "asgP") a = own(t, 'P') + " " + pick('P', t);
		else if (n == "setPf") a = own(t, 'P') + " " + num(r.n(6)) + " " + hx(r.f(0.3f, 1.4f));
		else if (n == "asgM") { S m = own(t, 'M'), m2 = pickM(t); a = m + " " + m2; Obj* o = get(m); o->rows = get(m2)->rows; o->cols = get(m2)->cols; }
		else if (n == "mac") { S m = own(t, 'M'); Obj* o = get(m); int R = o->rows, Cn = o->cols; S m2 = !R || r.p(10) ? pickM(t) : k == 2 ? pickM(t, Cn) : pickM(t, R, Cn); a = K + m + " " + m2; o = get(m); if (k == 2 && Cn == get(m2)->rows) o->cols = get(m2)->cols; }
		else if (n == "resz") { S m = own(t, 'M'); Obj* o = get(m); o->rows = r.in(1, 5); o->cols = r.in(1, 5); a = m + " " + num(o->rows) + " " + num(o->cols) + " " + fh(-1, 1); }
		else if (n == "fillM") a = own(t, 'M') + " " + fh(-1, 1);
		else if (n == "insM") { S m = own(t, 'M'); Obj* o = get(m); int c = o->rows * o->cols; if (r.p(15)) c += r.in(-1, 2); a = m; for (int i = 0; i < c; ++i) a += " " + fh(-2, 2); }
		else if (n == "refM") { S m = own(t, 'M'); Obj* o = get(m); a = K + m + " " + num(r.p(90) ? r.n(std::max(1, o->rows)) : r.in(-2, 6)) + " " + num(r.p(90) ? r.n(std::max(1, o->cols)) : r.in(-2, 6)) + " " + fh(-2, 2); }
		else if (n == "setM") { S m = own(t, 'M'); Obj* o = get(m); a = m + " " + num(r.p(85) ? r.n(std::max(1, o->rows)) : r.in(-2, 6)) + " " + num(r.p(85) ? r.n(std::max(1, o->cols)) : r.in(-2, 6)) + " " + fh(-2, 2); }
		int id = emit(t, n, a, tail, nop);
		if (d == "?") { d = num(id) + ".0d"; if (!nop) result(id, 0, 'D', -1, "", t), objs.back().id = d; }
		if (rk && !nop) for (int j = 0; j < nres; ++j) result(id, j, rk, ty, d, t, rr, cc);
		return id;
	}
	// the same call once more
	int twin(int t, int id)
	{
		for (auto* v : {&ops, &proto}) for (auto& l : *v) { Toks k = split(l); if (k.size() > 3 && atoi(k[2].c_str()) == id) { int n = nid++; opname[n] = k[3]; opthr[n] = t; S s = "op " + num(t) + " " + num(n); for (size_t i = 3; i < k.size(); ++i) s += " " + k[i]; ops.push_back(s); return n; } }
		return -1;
	}
};

// every operation kind, with the weights used when picking one at random
static const std::vector<Entry>& value_ops()
{
	static std::vector<Entry> v;
	if (v.empty())
	{
		auto add = [&](const char* n, int lo, int hi, int times) { for (int q = 0; q < times; ++q) for (int k = lo; k < hi; ++k) v.push_back({n, k}); };
		add("conv", -1, 0, 14); add("to", -1, 0, 4); add("adapt", 0, 11, 1); add("adlum", -1, 0, 1); add("adj", 0, 4, 2); add("comb", 0, 8, 1); add("calc", 0, 3, 2); add("calct", 0, 3, 2); add("avg", -1, 0, 4); add("dist", 0, 7, 1);
		add("blend", 0, 28, 1); add("pd", 0, 12, 1); add("hexs", -1, 0, 3); add("hexi", -1, 0, 2); add("predef", 0, 10, 1); add("defpre", -1, 0, 3); add("gampre", -1, 0, 2); add("wppre", -1, 0, 2); add("gcorr", 0, 2, 1);
		add("cpC", -1, 0, 2); add("cpD", -1, 0, 1); add("cpG", -1, 0, 1); add("cpM", -1, 0, 1); add("cpW", -1, 0, 1); add("cpP", -1, 0, 1); add("ctorC", -1, 0, 2); add("ctorB", -1, 0, 1); add("ctorD", -1, 0, 2); add("ctorW", 0, 3, 1);
		add("eqC", -1, 0, 1); add("plusC", -1, 0, 1); add("eqM", -1, 0, 1); add("eqW", -1, 0, 1); add("eqG", -1, 0, 1); add("getC", -1, 0, 1); add("getCv", -1, 0, 1); add("getD", 0, 5, 1); add("getG", 0, 2, 1); add("getM", -1, 0, 1);
		add("mat2", 0, 3, 1); add("mats", 0, 4, 1); add("matu", 0, 4, 2); add("matv", -1, 0, 2); add("matat", -1, 0, 1); add("matq", 0, 4, 1); add("matid", -1, 0, 1); add("matctor", 0, 4, 1); add("wpst", 0, 2, 1);
	}
	return v;
}
static const std::vector<Entry>& mut_ops()
{
	static std::vector<Entry> v;
	if (v.empty())
	{
		auto add = [&](const char* n, int lo, int hi, int times) { for (int q = 0; q < times; ++q) for (int k = lo; k < hi; ++k) v.push_back({n, k}); };
		add("setc", -1, 0, 2); add("setcr", -1, 0, 1); add("seta", -1, 0, 2); add("setdef", -1, 0, 2); add("asgC", -1, 0, 3); add("gcC", 0, 2, 2); add("amul", 0, 2, 1); add("adjip", 0, 4, 2); add("setch", -1, 0, 2);
		add("setwp", -1, 0, 4); add("setgam", -1, 0, 2); add("asgD", -1, 0, 4); add("asgW", -1, 0, 1); add("asgG", -1, 0, 3); add("addG", 0, 2, 2); add("setG", 0, 2, 2); add("asgP", -1, 0, 1); add("setPf", -1, 0, 2);
		add("asgM", -1, 0, 4); add("mac", 0, 3, 2); add("resz", -1, 0, 4); add("fillM", -1, 0, 1); add("insM", -1, 0, 2); add("setM", -1, 0, 1); add("refM", 0, 3, 1);
	}
	return v;
}
// every kind, for systematic sweeps; kinds that stand for many different pieces of code (types, presets) come up more often
static std::vector<Entry> kinds_of(const std::vector<Entry>& from, u64 seed)
{
	static const std::map<S, int> times = {{"conv", 45}, {"to", 5}, {"calct", 5}, {"calc", 2}, {"avg", 10}, {"hexs", 3}, {"adj", 2}, {"comb", 3}, {"adapt", 2}, {"dist", 2}, {"wppre", 4}, {"defpre", 4}, {"gampre", 3}, {"ctorC", 2}, {"setch", 3}, {"setc", 2}, {"asgC", 3}, {"gcC", 2}, {"adjip", 2}, {"asgM", 2}, {"resz", 2}};
	std::vector<Entry> v; std::set<S> s; for (auto& e : from) if (s.insert(e.name + num(e.k)).second) { auto it = times.find(e.name); for (int q = it == times.end() ? 1 : it->second; q > 0; --q) v.push_back(e); }
	Rng r(seed); for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[r.n((int)i)]); return v;
}
static const std::vector<Entry>& value_kinds() { static std::vector<Entry> v = kinds_of(value_ops(), 1); return v; }
static const std::vector<Entry>& mut_kinds() { static std::vector<Entry> v = kinds_of(mut_ops(), 2); return v; }
