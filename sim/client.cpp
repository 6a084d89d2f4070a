// Simulated callers: builds objects from a scenario, performs public-API operations on them and records
// their outcomes. Uses nothing but the library's public interface.
#include "core.h"
#include "opdefs.h"
#include "manipulation/color_converter.h"
#include "manipulation/chromatic_adaptation.h"
#include "manipulation/color_adjustments.h"
#include "manipulation/color_combinations.h"
#include "manipulation/color_calculation.h"
#include "manipulation/color_distance.h"
#include "manipulation/color_blend.h"
#include "manipulation/porter_duff.h"
#include "utils/colors.h"
#include "utils/matrix.h"
#include "spaces/gamma.h"
#include <cxxabi.h>
#include <cerrno>
#include <cfenv>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <typeinfo>
#include <vector>
#include <string.h>
#include <stdio.h>
#include <stdlib.h>

// The callers' own variables lie in sections of their own: the simulator does not take them for the library's.
#pragma clang section bss = "simclientb" data = "simclient"

using namespace color_space;
using namespace color_manipulation;
typedef std::string S;
typedef matrix<float> Mat;
typedef rgb_color_space_definition Def;
typedef color_space::gamma Gam;
typedef std::vector<S> Toks;

#define TYPES(X) X(0, rgb_truecolor) X(1, rgb_deepcolor) X(2, grey_truecolor) X(3, grey_deepcolor) X(4, cmyk) X(5, hsi) X(6, hsv) X(7, hsl) X(8, hcy) X(9, xyz) X(10, xyy) X(11, cieluv) X(12, lab) X(13, lch_ab) X(14, lch_uv)
#define TYPES3(X) X(0, rgb_truecolor) X(1, rgb_deepcolor) X(5, hsi) X(6, hsv) X(7, hsl) X(8, hcy) X(9, xyz) X(10, xyy) X(11, cieluv) X(12, lab) X(13, lch_ab) X(14, lch_uv)

// ------------------------------------------------------------------------------------------------ small helpers
static unsigned bits(float f) { unsigned u; memcpy(&u, &f, 4); return u; }
static float fl(unsigned u) { float f; memcpy(&f, &u, 4); return f; }
static S hx(float f) { if (f != f) return "nan"; char b[12]; snprintf(b, sizeof b, "%08x", bits(f)); return b; }
static float unhx(const S& s) { if (s == "nan") return fl(0x7fc00000); return fl((unsigned)strtoul(s.c_str(), 0, 16)); }
static S num(long long v) { char b[24]; snprintf(b, sizeof b, "%lld", v); return b; }
static Toks split(const S& l) { Toks t; std::istringstream is(l); S w; while (is >> w) t.push_back(w); return t; }
static const float INF = std::numeric_limits<float>::infinity();

// ------------------------------------------------------------------------------------------------ entries
struct Ent { S id; char kind; void* p; S val; int owner; bool live, skipval; std::vector<int> tags; S pspec; int ctype; };
static std::map<S, Ent*> byid; static std::map<void*, Ent*> byptr; static std::vector<Ent*> ents;
static Ent* known(const void* p) { auto i = byptr.find((void*)p); return i == byptr.end() ? nullptr : i->second; }
static Ent* find(const S& id) { auto i = byid.find(id); return i == byid.end() || !i->second->live ? nullptr : i->second; }
static S idof(const void* p) { if (!p) return "0"; Ent* e = known(p); return e ? e->id : S("?"); }

struct O { std::map<S, S> kv; long long n(const char* k, long long d) const { auto i = kv.find(k); return i == kv.end() ? d : strtoll(i->second.c_str(), 0, 0); } } opt;

// ------------------------------------------------------------------------------------------------ gamma functions supplied by the user
static float gamma_call(int gid, int fn, float p, float x);
struct GFsmall { int gid, fn; float p; float operator()(float x) const { return gamma_call(gid, fn, p, x); } };
struct GFbig { int gid, fn; float p; float pad[8]; float operator()(float x) const { return gamma_call(gid, fn, p, x); } };
static int next_gid = 1;
static std::function<float(float)> make_fn(int fn, float p, bool big)
{
	if (big) { GFbig g; memset(&g, 0, sizeof g); g.gid = next_gid++; g.fn = fn; g.p = p; return g; }
	GFsmall g{next_gid++, fn, p}; return g;
}

// ------------------------------------------------------------------------------------------------ values
static S valW(white_point* w) { S s = "W"; for (float f : {w->get_tristimulus_x(), w->get_tristimulus_y(), w->get_tristimulus_z(), w->get_chromaticity_x(), w->get_chromaticity_y(), w->get_chromaticity_z()}) s += " " + hx(f); return s; }
static S valM(Mat* m)
{
	S s = "M " + num(m->rows()) + " " + num(m->columns()); auto v = m->values();
	bool ragged = (int)v.size() != m->rows(); for (auto& r : v) if ((int)r.size() != m->columns()) ragged = true;
	if (ragged) s += " RAGGED";
	for (auto& r : v) { s += " |"; for (float f : r) s += " " + hx(f); } return s;
}
static S valP(gamma_part* p)
{
	S s = "P " + hx(p->get_upper_border()); auto f = p->get_gamma_function();
	if (!f) return s + " null";
	for (float x : {0.01f, 0.3f, 0.75f}) s += " " + hx(f(x));
	return s;
}
static S valG(Gam* g) { S s = "G"; for (auto p : g->get_gamma_curve_parts()) s += " " + idof(p); s += " /"; for (auto p : g->get_inverse_gamma_curve_parts()) s += " " + idof(p); return s; }
static S valD(Def* d)
{
	S s = "D"; for (float f : {d->get_red_x(), d->get_red_y(), d->get_red_z(), d->get_green_x(), d->get_green_y(), d->get_green_z(), d->get_blue_x(), d->get_blue_y(), d->get_blue_z()}) s += " " + hx(f);
	s += " W=" + idof(d->get_white_point()) + " G=" + idof(d->get_gamma_curve());
	Mat a = d->get_transform_matrix(), b = d->get_inverse_transform_matrix(); return s + " " + valM(&a) + " " + valM(&b);
}
static S comps(const color_base* c) { S s; for (float f : c->get_component_vector()) s += " " + hx(f); return s; }
static S valC(color_base* c)
{
	return "C " + num(c->get_color_type()) + " " + hx(c->get_component_max()) + " " + hx(c->get_component_min()) + " a" + hx(c->color_base::alpha()) + " D=" + idof(c->get_rgb_color_space()) + comps(c);
}
static S value(Ent* e)
{
	switch (e->kind)
	{
	case 'C': return valC((color_base*)e->p);
	case 'D': return valD((Def*)e->p);
	case 'W': return valW((white_point*)e->p);
	case 'G': return valG((Gam*)e->p);
	case 'P': return valP((gamma_part*)e->p);
	case 'M': return valM((Mat*)e->p);
	}
	return "";
}
static S qvalue(Ent* e) { sim::Quiet q; return value(e); }

// ------------------------------------------------------------------------------------------------ building objects
// A caller keeps one object of each kind of presets, or makes one whenever it needs it.
static gamma_presets g_gp[64]; static rgb_color_space_definition_presets g_dp[64]; static white_point_presets g_wp[64];
static Gam* preset_gamma(int k, gamma_presets&& p = gamma_presets())
{
	switch (k % 8) { case 0: return p.gamma1_8(); case 1: return p.gamma2_2(); case 2: return p.gamma2_6(); case 3: return p.gamma2_8(); case 4: return p.sRGB(); case 5: return p.gammaAdobe(); case 6: return p.gammaRomm(); default: return p.gammaUHDTV(); }
}
static Def* preset_def(int k, rgb_color_space_definition_presets&& p = rgb_color_space_definition_presets())
{
	switch (k % 20)
	{
	case 0: return p.sRGB(); case 1: return p.adobeRGB(); case 2: return p.pal_secam(); case 3: return p.americaNTSC(); case 4: return p.oldNTSC(); case 5: return p.appleRGB(); case 6: return p.dci_p3(); case 7: return p.uhdtv();
	case 8: return p.adobeWideGammutRGB(); case 9: return p.rommRGB(); case 10: return p.bestRGB(); case 11: return p.betaRGB(); case 12: return p.bruceRGB(); case 13: return p.colorMatchRGB(); case 14: return p.donRGB4(); case 15: return p.ektaSpacePS5();
	case 16: return p.ProPhotoRGB(); case 17: return p.SMPTE_C_RGB(); case 18: return p.cieRGB(); default: return p.cieXYZ();
	}
}
static white_point* preset_wp(int k, white_point_presets&& p = white_point_presets())
{
#define W2(i, n) case 2 * i: return p.n##_2Degree(); case 2 * i + 1: return p.n##_10Degree();
	switch (k % 40)
	{
	W2(0, D50) W2(1, D55) W2(2, D65) W2(3, D75) W2(4, A) W2(5, B) W2(6, C) W2(7, E) W2(8, F1) W2(9, F2) W2(10, F3) W2(11, F4) W2(12, F5) W2(13, F6) W2(14, F7) W2(15, F8) W2(16, F9) W2(17, F10) W2(18, F11) W2(19, F12)
	}
	return p.D65_2Degree();
}
static color_base* new_color(int t, const float* c, float alpha, Def* d)
{
	switch (t)
	{
#define X(i, T) case i: return new T(c[0], c[1], c[2], alpha, d);
	TYPES3(X)
#undef X
	case 2: return new grey_truecolor(c[0], alpha, d);
	case 3: return new grey_deepcolor(c[0], alpha, d);
	case 4: return new cmyk(c[0], c[1], c[2], c[3], alpha, d);
	}
	return nullptr;
}
// exactly these components and this stored alpha, by public setters
static color_base* raw_color(int t, const std::vector<float>& v, float alpha, Def* d)
{
	float z[4] = {0, 0, 0, 0};
	bool truet = t == 0 || t == 2;
	color_base* c = new_color(t, z, truet ? 0.f : alpha, d);
	bool anynan = false; for (float f : v) if (f != f) anynan = true;
	if (anynan)
	{
		color_base* k = c; k->color_base::alpha(0.f);
		for (size_t i = 0; i < v.size(); ++i) k->set_component(v[i] != v[i] ? INF : 0.f, (int)i, INF, -INF);
		k->alpha_multiply();
	}
	for (size_t i = 0; i < v.size(); ++i) if (v[i] == v[i]) c->set_component(v[i], (int)i, INF, -INF);
	if (truet) c->color_base::alpha(alpha);
	else if (anynan && alpha >= 0.f && alpha <= 1.f) c->color_base::alpha(alpha);
	return c;
}
static Ent* reg(const S& id, char kind, void* p, int owner)
{
	Ent* e = new Ent; e->id = id; e->kind = kind; e->p = p; e->owner = owner; e->live = true; e->skipval = false; e->ctype = -1; e->tags.push_back(sim::arena_tag());
	byid[id] = e; byptr[p] = e; ents.push_back(e);
	return e;
}
static int next_tag = 10;
static gamma_part* part_from(const Toks& t, size_t i)      // t[i]: u|g|d|n
{
	if (t[i] == "u") return new gamma_part(make_fn(atoi(t[i + 1].c_str()), unhx(t[i + 2]), t[i + 4] == "1"), unhx(t[i + 3]));
	if (t[i] == "n") return new gamma_part(nullptr, unhx(t[i + 1]));
	Gam* g = t[i] == "g" ? preset_gamma(atoi(t[i + 1].c_str())) : preset_def(atoi(t[i + 1].c_str()))->get_gamma_curve();
	auto v = t[i + 2] == "0" ? g->get_gamma_curve_parts() : g->get_inverse_gamma_curve_parts();
	int j = atoi(t[i + 3].c_str()); return j >= 0 && j < (int)v.size() ? v[j] : nullptr;
}
static bool build(const Toks& t, int owner, S* why)       // obj <kind> <id> ...
{
	char k = t[1][0]; const S& id = t[2];
	if (find(id)) { *why = "exists"; return false; }
	void* p = nullptr; S ps; int ctype = -1;
	std::vector<void*> deps;
	auto dep = [&](const S& d, char kind) -> void* { if (d == "0") return nullptr; Ent* e = find(d); if (!e || e->kind != kind) { *why = "missing " + d; return (void*)-1; } return e->p; };
	sim::arena_set_tag(++next_tag);
	if (k == 'W')
	{
		auto f = [&](int i) { return unhx(t[4 + i]); };
		sim::enter(); 
		if (t[3] == "k") p = preset_wp(atoi(t[4].c_str()));
		else if (t[3] == "tc") p = new white_point(f(0), f(1), f(2), f(3), f(4));
		else if (t[3] == "c") p = new white_point(f(0), f(1));
		else if (t[3] == "t") p = new white_point(f(0), f(1), f(2));
		else p = new white_point();
		sim::leave();
	}
	else if (k == 'P')
	{
		for (size_t i = 3; i < t.size(); ++i) ps += (i > 3 ? " " : "") + t[i];
		sim::enter(); p = part_from(t, 3); sim::leave();
	}
	else if (k == 'G')
	{
		std::vector<gamma_part*> v[2]; size_t i = 3;
		for (int s = 0; s < 2; ++s) { int n = atoi(t[i++].c_str()); for (int j = 0; j < n; ++j) { void* q = dep(t[i++], 'P'); if (q == (void*)-1) return false; v[s].push_back((gamma_part*)q); } }
		sim::enter(); p = new Gam(v[0], v[1]); sim::leave();
	}
	else if (k == 'D')
	{
		void* w = dep(t[9], 'W'); void* g = dep(t[10], 'G'); if (w == (void*)-1 || g == (void*)-1) return false;
		float f[6]; for (int i = 0; i < 6; ++i) f[i] = unhx(t[3 + i]);
		sim::enter(); p = w ? new Def(f[0], f[1], f[2], f[3], f[4], f[5], (white_point*)w, (Gam*)g) : new Def(); sim::leave();
	}
	else if (k == 'C')
	{
		int ty = atoi(t[3].c_str()); float al = unhx(t[4]); void* d = dep(t[5], 'D'); if (d == (void*)-1) return false;
		std::vector<float> v; for (size_t i = 6; i < t.size(); ++i) v.push_back(unhx(t[i]));
		if (ty < 0 || ty > 14 || v.size() != (ty == 2 || ty == 3 ? 1u : ty == 4 ? 4u : 3u)) { *why = "components"; return false; }
		sim::enter(); p = raw_color(ty, v, al, (Def*)d); sim::leave(); ctype = ty;
	}
	else if (k == 'M')
	{
		int r = atoi(t[3].c_str()), c = atoi(t[4].c_str()); std::vector<float> v; for (size_t i = 5; i < t.size(); ++i) v.push_back(unhx(t[i]));
		sim::enter(); p = new Mat(r, c, v); sim::leave();
	}
	if (!p) { *why = "cannot build"; return false; }
	if (Ent* old = known(p)) old->live = false;
	Ent* e = reg(id, k, p, owner); e->pspec = ps; e->ctype = ctype; if (!opt.n("noval", 0)) e->val = value(e);
	return true;
}
// the lines that recreate an object with its present value; false when that is not possible
static bool spec(Ent* e, std::vector<S>& out, std::set<S>& done, bool& ok)
{
	if (done.count(e->id)) return true;
	done.insert(e->id);
	auto need = [&](const void* p) -> S { if (!p) return "0"; Ent* x = known(p); if (!x || !x->live) { ok = false; return "0"; } spec(x, out, done, ok); return x->id; };
	S l = S("obj ") + e->kind + " " + e->id;
	switch (e->kind)
	{
	case 'C':
	{
		color_base* c = (color_base*)e->p;
		S d = need(c->get_rgb_color_space()); if (c->get_color_type() > 14) ok = false;
		float a = c->color_base::alpha(); auto v = c->get_component_vector(); bool nn = false; for (float f : v) if (f != f) nn = true;
		if (a != a || (nn && !(a >= 0 && a <= 1))) ok = false;
		out.push_back(l + " " + num(c->get_color_type()) + " " + hx(a) + " " + d + comps(c)); break;
	}
	case 'D':
	{
		Def* d = (Def*)e->p; S w = need(d->get_white_point()), g = need(d->get_gamma_curve());
		S s = l; for (float f : {d->get_red_x(), d->get_red_y(), d->get_green_x(), d->get_green_y(), d->get_blue_x(), d->get_blue_y()}) s += " " + hx(f);
		out.push_back(s + " " + w + " " + g);
		if (d->get_white_point() && ok)
		{
			static std::map<S, bool> same; S key = e->val + valW(d->get_white_point()); auto it = same.find(key);
			if (it == same.end()) { Def f(d->get_red_x(), d->get_red_y(), d->get_green_x(), d->get_green_y(), d->get_blue_x(), d->get_blue_y(), d->get_white_point(), d->get_gamma_curve()); it = same.emplace(key, valD(&f) == valD(d)).first; }
			if (!it->second) ok = false;
		}
		break;
	}
	case 'W':
	{
		white_point* w = (white_point*)e->p; S v = valW(w); float a = w->get_tristimulus_x(), b = w->get_tristimulus_y(), c = w->get_tristimulus_z(), x = w->get_chromaticity_x(), y = w->get_chromaticity_y();
		white_point w1(a, b, c, x, y), w2(a, b, c), w3;
		if (valW(&w1) == v) out.push_back(l + " tc " + hx(a) + " " + hx(b) + " " + hx(c) + " " + hx(x) + " " + hx(y));
		else if (valW(&w2) == v) out.push_back(l + " t " + hx(a) + " " + hx(b) + " " + hx(c));
		else { out.push_back(l + " z"); if (valW(&w3) != v) ok = false; }
		break;
	}
	case 'P': if (e->pspec.empty()) ok = false; out.push_back(l + " " + e->pspec); break;
	case 'G':
	{
		Gam* g = (Gam*)e->p; S s = l; auto a = g->get_gamma_curve_parts(), b = g->get_inverse_gamma_curve_parts();
		s += " " + num(a.size()); for (auto p : a) s += " " + need(p);
		s += " " + num(b.size()); for (auto p : b) s += " " + need(p);
		out.push_back(s); break;
	}
	case 'M':
	{
		Mat* m = (Mat*)e->p; S s = l + " " + num(m->rows()) + " " + num(m->columns()); for (auto& r : m->values()) for (float f : r) s += " " + hx(f);
		out.push_back(s); break;
	}
	}
	return true;
}
static void closure(Ent* e, std::vector<Ent*>& v)
{
	for (Ent* x : v) if (x == e) return;
	v.push_back(e);
	auto go = [&](const void* p) { if (p) if (Ent* x = known(p)) closure(x, v); };
	if (e->kind == 'C') go(((color_base*)e->p)->get_rgb_color_space());
	else if (e->kind == 'D') { go(((Def*)e->p)->get_white_point()); go(((Def*)e->p)->get_gamma_curve()); }
	else if (e->kind == 'G') { for (auto p : ((Gam*)e->p)->get_gamma_curve_parts()) go(p); for (auto p : ((Gam*)e->p)->get_inverse_gamma_curve_parts()) go(p); }
}
// belongs to another caller, which may be in the middle of changing it, and cannot refer to objects of this one
static bool elsewhere(Ent* e, int tid) { return e->owner && e->owner != tid && sim::cfg.nthreads > 1 && !sim::cfg.seq; }
static bool referenced(Ent* x)
{
	for (Ent* e : ents) if (e->live && e != x && !elsewhere(e, x->owner))
	{
		if (e->kind == 'C' && ((color_base*)e->p)->get_rgb_color_space() == x->p) return true;
		if (e->kind == 'D' && (((Def*)e->p)->get_white_point() == x->p || ((Def*)e->p)->get_gamma_curve() == x->p)) return true;
		if (e->kind == 'G' && x->kind == 'P') { for (auto p : ((Gam*)e->p)->get_gamma_curve_parts()) if (p == x->p) return true; for (auto p : ((Gam*)e->p)->get_inverse_gamma_curve_parts()) if (p == x->p) return true; }
	}
	return false;
}
static void destroy_object(Ent* e)
{
	sim::enter();
	switch (e->kind)
	{
	case 'C': delete (color_base*)e->p; break; case 'D': delete (Def*)e->p; break; case 'W': delete (white_point*)e->p; break;
	case 'G': delete (Gam*)e->p; break; case 'P': delete (gamma_part*)e->p; break; case 'M': delete (Mat*)e->p; break;
	}
	sim::leave();
}
static void destroy(Ent* e) { e->live = false; byptr.erase(e->p); byid.erase(e->id); destroy_object(e); }

// ------------------------------------------------------------------------------------------------ operations
struct Fault { int kind; /*1 throw 2 nest 3 stall*/ int n; int arg; bool fired; };
struct Op { int tid, id; const OpDef* d; Toks a; S tail; S line; bool nested; int rep; int rkind; uint64_t rseed, rparam; std::vector<Fault> faults; bool has_rs; };
static std::map<int, Op> ops; static std::vector<int> per[sim::MAXT];

struct UserErr { int token; char text[12]; };
struct UserStd : std::runtime_error { int token; UserStd(int t) : std::runtime_error("user gamma error"), token(t) {} };
static UserErr static_err{77, "static"};

// what an operation produced
struct Res
{
	std::vector<color_base*> vc;      // colours
	std::vector<std::pair<char, void*>> ob;      // everything else that was created
	S text;                           // values that are not objects
	bool is_c = false;
};
struct Frame { Op* op; std::vector<Ent*> clo; std::vector<S> before; Frame* outer; bool mut; bool midlogged; };
static Frame* frames[sim::MAXT];

static void log_vals_changed(const char* tag, Frame* f, Ent* skip)
{
	for (size_t i = 0; i < f->clo.size(); ++i)
	{
		Ent* e = f->clo[i]; if (e == skip || !e->live) continue;
		S v = value(e);
		if (v != f->before[i]) { sim::logf("%s op=%d ent=%s before=[%s] now=[%s]", tag, f->op->id, e->id.c_str(), f->before[i].c_str(), v.c_str()); }
	}
}
static void mid_check()
{
	Frame* f = frames[sim::cur_thread()];
	if (!f || f->mut || f->midlogged) return;
	int w = sim::watch_on; sim::watch_on = 0;
	for (size_t i = 0; i < f->clo.size() && !f->midlogged; ++i)
	{
		S v = value(f->clo[i]);
		if (v != f->before[i]) { f->midlogged = true; sim::logf("MID op=%d ent=%s before=[%s] now=[%s]", f->op->id, f->clo[i]->id.c_str(), f->before[i].c_str(), v.c_str()); }
	}
	sim::watch_on = w;
}
static void exec_op(Op& o);

static float gamma_value(int fn, float p, float x)
{
	switch (fn)
	{
	case 0: return x * p;
	case 1: return x < 0 ? 0.f : sqrtf(x) * p;
	case 2: return x * x * p;
	case 3: return x > 0 ? powf(x, p) : 0.f;
	case 4: return p;                                    // constant
	case 5: return x < 0.5f ? x * 0.5f : x * 1.5f - 0.5f;
	}
	return x;
}
// every call of a function the user supplied (gamma functions, blend functions): the place where it may misbehave
static void user_call()
{
	int kind = 0, arg = 0;
	{
		sim::Pause pause;
		sim::OpCtl* c = sim::cur_op(); int n = ++c->gcalls;
		Frame* fr = frames[sim::cur_thread()];
		if (fr && fr->op->id == c->opid)
		{
			Op& o = *fr->op;
			for (Fault& f : o.faults) if (!f.fired && f.n == n)
			{
				f.fired = true; ++c->faults; kind = f.kind; arg = f.arg;
				sim::logf("FIRED %s op=%d call=%d arg=%d", kind == 1 ? "throw" : kind == 2 ? "nest" : "gstall", o.id, n, arg);
				break;
			}
			if (kind && opt.n("mid", 0) && !fr->mut) log_vals_changed("MID", fr, nullptr);
			if (kind == 2) { auto i = ops.find(arg); if (i != ops.end()) { int w = sim::watch_on; int tg = sim::arena_tag(); sim::watch_on = 0; exec_op(i->second); sim::watch_on = w; sim::arena_set_tag(tg); frames[sim::cur_thread()] = fr; } }
			if (kind == 3) { int tg = sim::arena_tag(); sim::gamma_stall(); sim::arena_set_tag(tg); }
		}
	}
	if (kind == 1) switch (arg)
	{
	case 0: throw UserErr{4242, "user"};
	case 1: throw UserStd(4343);
	case 2: throw 17;
	case 3: throw &static_err;
	case 4: throw std::bad_alloc();
	case 5: throw "text";
	case 6: throw static_cast<std::exception*>(new std::out_of_range("user out of range"));
	case 7: throw std::invalid_argument("user invalid argument");
	}
}
static float gamma_call(int gid, int fn, float p, float x)
{
	if (sim::inside()) user_call();
	return gamma_value(fn, p, x);
}
struct UserBlend      // too big for the small-object storage of std::function, so copying one allocates
{
	float w[8]; explicit UserBlend(float a) { for (int i = 0; i < 8; ++i) w[i] = a; }
	float operator()(float x, float y) const { if (sim::inside()) user_call(); return x * w[1] + y * (1 - w[6]); }
};

static S exc_text(const char* kind, const std::exception& e)
{
	int st = 0; char* n = abi::__cxa_demangle(typeid(e).name(), 0, 0, &st); S s = S("X ") + kind + " " + (n ? n : typeid(e).name()) + " [" + e.what() + "]"; free(n); for (char& c : s) if (c == '\n') c = '~'; return s;
}

template <class T> struct tag_of;
static color_base* typed_to(int t, color_base* c)
{
	typedef color_converter K;
	switch (t)
	{
	case 0: return K::to_rgb_true(c); case 1: return K::to_rgb_deep(c); case 2: return K::to_grey_true(c); case 3: return K::to_grey_deep(c); case 4: return K::to_cmyk(c); case 5: return K::to_hsi(c); case 6: return K::to_hsv(c);
	case 7: return K::to_hsl(c); case 8: return K::to_hcy(c); case 9: return K::to_xyz(c); case 10: return K::to_xyy(c); case 11: return K::to_cieluv(c); case 12: return K::to_lab(c); case 13: return K::to_lch_ab(c); case 14: return K::to_lch_uv(c);
	}
	return nullptr;
}
static color_base* adapt(int k, color_base* c, white_point* w, float f, float la, float lr)
{
	typedef chromatic_adaptation A;
	switch (k)
	{
	case 0: return A::von_kries_adaptation(c, w); case 1: return A::bradford_adaptation(c, w); case 2: return A::bradford_adaptation_simplified(c, w); case 3: return A::xyz_scale_adaptation(c, w); case 4: return A::sharp_adaptation(c, w);
	case 5: return A::cmccat97_adaptation_simplified(c, w); case 6: return A::cmccat97_adaptation(c, w, f, la); case 7: return A::cmccat2000_adaptation_simplified(c, w); case 8: return A::cmccat2000_adaptation(c, w, f, la, lr);
	case 9: return A::cat02_adaptation_simplified(c, w); case 10: return A::cat02_adaptation(c, w, f, la);
	}
	return nullptr;
}
static color_base* blend(int k, color_base* s, color_base* d, bool a, bool b)
{
	typedef color_blend B;
	switch (k)
	{
	case 0: return B::normal(s, d, a, b); case 1: return B::dissolve(s, d, a, b); case 2: return B::multiply(s, d, a, b); case 3: return B::screen(s, d, a, b); case 4: return B::overlay(s, d, a, b); case 5: return B::darken(s, d, a, b); case 6: return B::lighten(s, d, a, b);
	case 7: return B::color_dodge(s, d, a, b); case 8: return B::linear_dodge(s, d, a, b); case 9: return B::color_burn(s, d, a, b); case 10: return B::linear_burn(s, d, a, b); case 11: return B::hard_light(s, d, a, b); case 12: return B::soft_light(s, d, a, b);
	case 13: return B::vivid_light(s, d, a, b); case 14: return B::linear_light(s, d, a, b); case 15: return B::pin_light(s, d, a, b); case 16: return B::hard_mix(s, d, a, b); case 17: return B::difference(s, d, a, b); case 18: return B::subtract(s, d, a, b);
	case 19: return B::divide(s, d, a, b); case 20: return B::plus_lighter(s, d, a, b); case 21: return B::plus_darker(s, d, a, b); case 22: return B::exclusion(s, d, a, b); case 23: return B::hue(s, d, a, b); case 24: return B::saturation(s, d, a, b);
	case 25: return B::color(s, d, a, b); case 26: return B::luminosity(s, d, a, b); case 27: return B::custom_componentwise_blend(s, d, a, b, UserBlend(0.25f));
	}
	return nullptr;
}
static color_base* pduff(int k, color_base* s, color_base* d)
{
	typedef porter_duff P;
	switch (k)
	{
	case 0: return P::src(s, d); case 1: return P::dest(s, d); case 2: return P::atop(s, d); case 3: return P::dest_atop(s, d); case 4: return P::over(s, d); case 5: return P::dest_over(s, d); case 6: return P::in(s, d); case 7: return P::dest_in(s, d);
	case 8: return P::out(s, d); case 9: return P::dest_out(s, d); case 10: return P::x_or(s, d); case 11: return P::clear(s, d);
	}
	return nullptr;
}
template <class T> static color_base* calc_typed(int k, color_base* a, color_base* b, float w1, float w2, bool al)
{
	T* x = dynamic_cast<T*>(a); T* y = dynamic_cast<T*>(b);
	if (k == 0) return color_calculation::add(x, y, w1, w2, al);
	if (k == 1) return color_calculation::mix(x, y, w1, al);
	return color_calculation::subtract(x, y, w1, al);
}
static const int PREDEF[10] = {0x00FFFFFF, 0x7fffffff, 0, 0, 0, 0, 0, 0, 0, 0};
struct Args { Ent* e[32]; int n; };

static color_base* C_(Ent* e) { return (color_base*)e->p; }

// Runs one operation. Everything it needs has been parsed; only library work happens between enter() and leave().
static void perform(Op& o, Ent** A, const Toks& a, Res& r)
{
	const char* n = o.d->name; const char* sg = o.d->sig;
	int base = sg[0] == 'k' ? 1 : 0; int k = base ? atoi(a[0].c_str()) % o.d->nvar : 0;
	auto F = [&](int i) { return unhx(a[i]); };
	auto I = [&](int i) { return atoi(a[i].c_str()); };
	auto B = [&](int i) { return a[i] == "1"; };
	auto addc = [&](color_base* c) { r.is_c = true; r.vc.push_back(c); };
#define IS(x) (!strcmp(n, x))
#define LIB(stmt) { sim::enter(); stmt; sim::leave(); }
	color_base* c = nullptr; 
	if (IS("conv")) { color_type t = (color_type)I(1); color_base* x = C_(A[0]); LIB(c = color_converter::convertTo(x, t)) addc(c); }
	else if (IS("to")) { int t = I(0); color_base* x = C_(A[1]); LIB(c = typed_to(t, x)) addc(c); }
	else if (IS("adapt")) { color_base* x = C_(A[1]); white_point* w = (white_point*)A[2]->p; float f = F(3), la = F(4), lr = F(5); LIB(c = adapt(k, x, w, f, la, lr)) addc(c); }
	else if (IS("adlum")) { float x = F(0), y = F(1), v; LIB(v = chromatic_adaptation::calculate_adapting_luminance(x, y)) r.text = hx(v); }
	else if (IS("adj"))
	{
		color_base* x = C_(A[1]); float p = F(2); typedef color_adjustments J;
		LIB(switch (k) { case 0: c = J::saturate_in_rgb_space(x, p); break; case 1: c = J::saturate_in_hsl_space(x, p); break; case 2: c = J::luminate_in_rgb_space(x, p); break; default: c = J::luminate_in_hsl_space(x, p); })
		addc(c);
	}
	else if (IS("comb"))
	{
		color_base* x = C_(A[1]); float f = F(2); int i = I(3), j = I(4); typedef color_combinations K; std::vector<color_base*> v;
		sim::enter();
		switch (k)
		{
		case 0: c = K::create_complimentary(x); break; case 1: v = K::create_triplet(x); break; case 2: v = K::create_quartet(x); break; case 3: v = K::create_quintet(x); break;
		case 4: v = K::create_combination(x, i); break; case 5: v = K::create_analogous(x, f); break; case 6: v = K::create_monochromatic(x, i, f, j); break; case 7: v = K::create_complimentary_split(x, f); break;
		}
		sim::leave();
		r.is_c = true; if (k == 0) addc(c); else { r.vc.assign(v.begin(), v.end()); }
	}
	else if (IS("calc"))
	{
		color_base *x = C_(A[1]), *y = C_(A[2]); float f = F(3), g = F(4); bool b = B(5); typedef color_calculation K;
		LIB(c = k == 0 ? K::add(x, y, f, g, b) : k == 1 ? K::mix(x, y, f, b) : K::subtract(x, y, f, b)) addc(c);
	}
	else if (IS("calct"))
	{
		int t = I(1); color_base *x = C_(A[2]), *y = C_(A[3]); float f = F(4), g = F(5); bool b = B(6);
		sim::enter(); switch (t) {
#define X(i, T) case i: c = calc_typed<T>(k, x, y, f, g, b); break;
		TYPES(X)
#undef X
		} sim::leave(); addc(c);
	}
	else if (IS("avg"))
	{
		int t = I(0), bb = I(1), rep = bb >> 1 > 1 ? bb >> 1 : 1; bool b = bb & 1; typedef color_calculation K;      // every colour is given rep times
#define AV(i, T, fn) case i: { std::vector<T*> v; for (int w = 0; w < rep; ++w) for (int q = 2; A[q]; ++q) v.push_back((T*)dynamic_cast<T*>(C_(A[q]))); LIB(c = K::fn(v, b)) break; }
		switch (t)
		{
		AV(0, rgb_truecolor, average_rgb_true) AV(1, rgb_deepcolor, average_rgb_deep) AV(2, grey_truecolor, average_grey_true) AV(3, grey_deepcolor, average_grey_deep) AV(4, cmyk, average_cmyk) AV(5, hsi, average_hsi) AV(6, hsv, average_hsv) AV(7, hsl, average_hsl)
		AV(8, hcy, average_hcy) AV(9, xyz, average_xyz) AV(10, xyy, average_xyy) AV(11, cieluv, average_cieluv) AV(12, lab, average_lab) AV(13, lch_ab, average_lch_ab) AV(14, lch_uv, average_lch_uv)
		}
		addc(c);
	}
	else if (IS("dist"))
	{
		color_base *x = C_(A[1]), *y = C_(A[2]); float p[5]; for (int i = 0; i < 5; ++i) p[i] = F(3 + i); color_type t = (color_type)I(8); float v = 0; typedef color_distance K;
		LIB(switch (k) { case 0: v = K::euclidean_distance_squared(x, y, t); break; case 1: v = K::euclidean_distance(x, y, t); break; case 2: v = K::euclidean_distance_weighted(x, y); break; case 3: v = K::cielab_delta_e_cie76(x, y); break;
			case 4: v = K::cielab_delta_e_cie94(x, y, p[0], p[1], p[2], p[3], p[4]); break; case 5: v = K::cielab_delta_e_cie00(x, y, p[0], p[1], p[2], p[3], p[4]); break; default: v = K::cmc_delta_e_lc84(x, y, p[0], p[1]); })
		r.text = hx(v);
	}
	else if (IS("blend")) { color_base *x = C_(A[1]), *y = C_(A[2]); bool u = B(3), v = B(4); LIB(c = blend(k, x, y, u, v)) addc(c); }
	else if (IS("pd")) { color_base *x = C_(A[1]), *y = C_(A[2]); LIB(c = pduff(k, x, y)) addc(c); }
	else if (IS("hexs"))
	{
		S s; for (size_t i = 1; i + 1 < a[0].size(); i += 2) s += (char)strtol(a[0].substr(i, 2).c_str(), 0, 16); Def* d = A[1] ? (Def*)A[1]->p : nullptr;
		LIB(c = new rgb_truecolor(s, d)) addc(c);
	}
	else if (IS("hexi")) { int v = (int)strtoll(a[0].c_str(), 0, 0); Def* d = A[1] ? (Def*)A[1]->p : nullptr; LIB(c = new rgb_truecolor(v, d)) addc(c); }
	else if (IS("predef"))
	{
		Def* d = A[2] ? (Def*)A[2]->p : nullptr; HexcodeColors h = (HexcodeColors)strtoll(a[1].c_str(), 0, 0);
		sim::enter(); { predefined_color p(h, d); switch (k) { case 0: c = p.get_rgb_true(); break; case 1: c = p.get_rgb_deep(); break; case 2: c = p.get_grey_true(); break; case 3: c = p.get_grey_deep(); break; case 4: c = p.get_cmyk(); break; case 5: c = p.get_hsv(); break;
			case 6: c = p.get_hsl(); break; case 7: c = p.get_xyz(); break; case 8: c = p.get_xyy(); break; default: c = p.get_lab(); } } sim::leave(); addc(c);
	}
	else if (IS("defpre")) { Def* d; bool kept = B(1); LIB(d = kept ? preset_def(k, std::move(g_dp[sim::cur_thread() & 63])) : preset_def(k)) r.ob.emplace_back('D', d); }
	else if (IS("gampre")) { Gam* g; bool kept = B(1); LIB(g = kept ? preset_gamma(k, std::move(g_gp[sim::cur_thread() & 63])) : preset_gamma(k)) r.ob.emplace_back('G', g); }
	else if (IS("wppre")) { white_point* w; bool kept = B(1); LIB(w = kept ? preset_wp(k, std::move(g_wp[sim::cur_thread() & 63])) : preset_wp(k)) r.ob.emplace_back('W', w); }
	else if (IS("gcorr")) { Gam* g = (Gam*)A[1]->p; float x = F(2), v; LIB(v = k ? g->inverse_gamma_correction(x) : g->gamma_correction(x)) r.text = hx(v); }
	else if (IS("cpC"))
	{
		color_base* x = C_(A[0]);
		sim::enter();
		if (false) {}
#define X(i, T) else if (T* y = dynamic_cast<T*>(x)) c = new T(*y);
		TYPES(X)
#undef X
		sim::leave(); if (c) addc(c); else r.text = "untyped";
	}
	else if (IS("cpD")) { Def* d = (Def*)A[0]->p; Def* q; LIB(q = new Def(*d)) r.ob.emplace_back('D', q); }
	else if (IS("cpG")) { Gam* d = (Gam*)A[0]->p; Gam* q; LIB(q = new Gam(*d)) r.ob.emplace_back('G', q); }
	else if (IS("cpM")) { Mat* d = (Mat*)A[0]->p; Mat* q; LIB(q = new Mat(*d)) r.ob.emplace_back('M', q); }
	else if (IS("cpW")) { white_point* d = (white_point*)A[0]->p; white_point* q; LIB(q = new white_point(*d)) r.ob.emplace_back('W', q); }
	else if (IS("cpP")) { gamma_part* d = (gamma_part*)A[0]->p; gamma_part* q; LIB(q = new gamma_part(*d)) r.ob.emplace_back('P', q); }
	else if (IS("ctorB"))
	{
		const color_base* x = C_(A[1]); int t = I(0);
		sim::enter();
		switch (t)
		{
#define X(i, T) case i: c = new T(*x); break;
		TYPES(X)
#undef X
		}
		sim::leave(); addc(c);
	}
	else if (IS("ctorC")) { int t = I(0); float v[4] = {F(1), F(2), F(3), F(4)}; float al = F(5); Def* d = A[6] ? (Def*)A[6]->p : nullptr; LIB(c = new_color(t, v, al, d)) addc(c); }
	else if (IS("ctorD")) { float f[6]; for (int i = 0; i < 6; ++i) f[i] = F(i); white_point* w = (white_point*)A[6]->p; Gam* g = (Gam*)A[7]->p; Def* q; LIB(q = new Def(f[0], f[1], f[2], f[3], f[4], f[5], w, g)) r.ob.emplace_back('D', q); }
	else if (IS("ctorW")) { float f[5]; for (int i = 0; i < 5; ++i) f[i] = F(1 + i); white_point* q; LIB(q = k == 0 ? new white_point(f[0], f[1], f[2], f[3], f[4]) : k == 1 ? new white_point(f[0], f[1]) : new white_point(f[0], f[1], f[2])) r.ob.emplace_back('W', q); }
	else if (IS("eqC")) { color_base *x = C_(A[0]), *y = C_(A[1]); bool v, w; LIB(v = *x == *y; w = *x != *y) r.text = num(v) + num(w); }
	else if (IS("plusC"))
	{
		color_base *x = C_(A[0]), *y = C_(A[1]); S t;
		sim::enter(); { color_base s = *x + *y; sim::Quiet q; t = "sum " + num(s.get_color_type()) + " " + hx(s.get_component_max()) + " " + hx(s.get_component_min()) + " " + hx(s.color_base::alpha()) + " " + idof(s.get_rgb_color_space()) + comps(&s); } sim::leave(); r.text = t;
	}
	else if (IS("eqM")) { Mat *x = (Mat*)A[0]->p, *y = (Mat*)A[1]->p; bool v; LIB(v = *x == *y) r.text = num(v); }
	else if (IS("eqW")) { white_point *x = (white_point*)A[0]->p, *y = (white_point*)A[1]->p; bool v, w; LIB(v = *x == *y; w = *x != *y) r.text = num(v) + num(w); }
	else if (IS("eqG")) { const Gam *x = (Gam*)A[0]->p, *y = (Gam*)A[1]->p; bool v, w; LIB(v = *x == *y; w = *x != *y) r.text = num(v) + num(w); }
	else if (IS("getC")) { color_base* x = C_(A[0]); int i = I(1); float v; LIB(v = x->get_component(i)) r.text = hx(v); }
	else if (IS("getCv")) { color_base* x = C_(A[0]); std::vector<float> v; float al; LIB(v = x->get_component_vector(); al = x->alpha()) r.text = "a" + hx(al); for (float f : v) r.text += " " + hx(f); }
	else if (IS("getD"))
	{
		Def* d = (Def*)A[1]->p; Mat m;
		if (k < 2) { LIB(m = k ? d->get_inverse_transform_matrix() : d->get_transform_matrix()) r.text = valM(&m); }
		else { std::array<float, 3> v; LIB(v = k == 2 ? d->get_red_chromaticity_coordinate() : k == 3 ? d->get_green_chromaticity_coordinate() : d->get_blue_chromaticity_coordinate()) r.text = hx(v[0]) + hx(v[1]) + hx(v[2]); }
	}
	else if (IS("getG")) { Gam* g = (Gam*)A[1]->p; std::vector<gamma_part*> v; LIB(v = k ? g->get_inverse_gamma_curve_parts() : g->get_gamma_curve_parts()) for (auto p : v) r.text += idof(p) + " "; }
	else if (IS("getM")) { Mat* m = (Mat*)A[0]->p; std::vector<std::vector<float>> v; LIB(v = m->values()) for (auto& q : v) { r.text += "| "; for (float f : q) r.text += hx(f) + " "; } }
	else if (IS("mat2"))
	{
		Mat *x = (Mat*)A[1]->p, *y = (Mat*)A[2]->p; Mat* q;
		LIB(q = k == 0 ? new Mat(*x + *y) : k == 1 ? new Mat(*x - *y) : new Mat(*x * *y)) r.ob.emplace_back('M', q);
	}
	else if (IS("mats")) { Mat* x = (Mat*)A[1]->p; float f = F(2); Mat* q; LIB(q = k == 0 ? new Mat(*x + f) : k == 1 ? new Mat(*x - f) : k == 2 ? new Mat(*x * f) : new Mat(*x / f)) r.ob.emplace_back('M', q); }
	else if (IS("matu"))
	{
		Mat* x = (Mat*)A[1]->p; 
		if (k == 3) { float v; LIB(v = x->determinante()) r.text = hx(v); }
		else { Mat* q; LIB(q = k == 0 ? new Mat(x->transpose()) : k == 1 ? new Mat(x->adjoint()) : new Mat(x->invert())) r.ob.emplace_back('M', q); }
	}
	else if (IS("matv")) { Mat* x = (Mat*)A[0]->p; std::vector<float> v, w; for (size_t i = 1; i < a.size(); ++i) v.push_back(F((int)i)); LIB(w = *x * v) for (float f : w) r.text += hx(f) + " "; }
	else if (IS("matat")) { const Mat* x = (Mat*)A[0]->p; int i = I(1), j = I(2); float v; LIB(v = (*x)(i, j)) r.text = hx(v); }
	else if (IS("matq")) { Mat* x = (Mat*)A[1]->p; int i = I(2), j = I(3); bool v; LIB(v = k == 0 ? x->is_row_null(i) : k == 1 ? x->is_column_null(i) : k == 2 ? x->are_rows_equal(i, j) : x->are_columns_equal(i, j)) r.text = num(v); }
	else if (IS("matid")) { int i = I(0); Mat* q; LIB(q = new Mat(Mat::create_idendity(i))) r.ob.emplace_back('M', q); }
	else if (IS("matctor")) { int i = I(1), j = I(2); float f = F(3); Mat* q; LIB(q = k == 0 ? new Mat() : k == 1 ? new Mat(i, j) : k == 2 ? new Mat(i, j, f) : new Mat(i)) r.ob.emplace_back('M', q); }
	else if (IS("wpst")) { std::array<float, 3> v{{F(1), F(2), F(3)}}, w; LIB(w = k ? white_point::chromaticity_coordinate_to_tristimulus(v) : white_point::tristimulus_to_chromaticity_coordinate(v)) r.text = hx(w[0]) + hx(w[1]) + hx(w[2]); }
	// ---- mutators
	else if (IS("setc")) { color_base* x = C_(A[0]); int i = I(1); float f = F(2); LIB(x->set_component(f, i)) }
	else if (IS("setcr")) { color_base* x = C_(A[0]); int i = I(1); float f = F(2), mx = F(3), mn = F(4); LIB(x->set_component(f, i, mx, mn)) }
	else if (IS("seta")) { color_base* x = C_(A[0]); float f = F(1); LIB(x->alpha(f)) }
	else if (IS("setdef")) { color_base* x = C_(A[0]); Def* d = (Def*)A[1]->p; LIB(x->set_rgb_color_space(d)) }
	else if (IS("asgC"))
	{
		color_base *x = C_(A[0]), *y = C_(A[1]);
		sim::enter();
		if (false) {}
#define X(i, T) else if (T* p = dynamic_cast<T*>(x)) { if (T* q = dynamic_cast<T*>(y)) *p = *q; }
		TYPES(X)
#undef X
		sim::leave();
	}
	else if (IS("gcC")) { color_base* x = C_(A[1]); LIB(k ? x->do_inverse_gamma_correction() : x->do_gamma_correction()) }
	else if (IS("amul")) { color_base* x = C_(A[1]); LIB(k ? x->alpha_divide() : x->alpha_multiply()) }
	else if (IS("adjip"))
	{
		color_base& x = *C_(A[1]); float p = F(2); typedef color_adjustments J;
		LIB(switch (k) { case 0: J::saturate_in_rgb_space(x, p); break; case 1: J::saturate_in_hsl_space(x, p); break; case 2: J::luminate_in_rgb_space(x, p); break; default: J::luminate_in_hsl_space(x, p); })
	}
	else if (IS("setch"))
	{
		color_base* x = C_(A[0]); int i = I(1) & 3; float f = F(2);
#define SET3(T, s0, s1, s2) if (T* p = dynamic_cast<T*>(x)) { LIB(if (i == 0) p->s0(f); else if (i == 1) p->s1(f); else p->s2(f)) }
		SET3(rgb_truecolor, red, green, blue) SET3(rgb_deepcolor, red, green, blue) SET3(hsi, hue, saturation, intensity) SET3(hsv, hue, saturation, value) SET3(hsl, hue, saturation, lightness) SET3(hcy, hue, chroma, luma)
		SET3(xyz, x, y, z) SET3(xyy, x, y, Y) SET3(cieluv, L, u, v) SET3(lab, luminance, a, b) SET3(lch_ab, luminance, chroma, hue) SET3(lch_uv, luminance, chroma, hue)
		if (cmyk* p = dynamic_cast<cmyk*>(x)) { LIB(if (i == 0) p->cyan(f); else if (i == 1) p->magenta(f); else if (i == 2) p->yellow(f); else p->black(f)) }
		if (grey_truecolor* p = dynamic_cast<grey_truecolor*>(x)) { LIB(p->grey(f)) }
		if (grey_deepcolor* p = dynamic_cast<grey_deepcolor*>(x)) { LIB(p->grey(f)) }
	}
	else if (IS("setwp")) { Def* d = (Def*)A[0]->p; white_point* w = (white_point*)A[1]->p; LIB(d->set_white_point(w)) }
	else if (IS("setgam")) { Def* d = (Def*)A[0]->p; Gam* g = (Gam*)A[1]->p; LIB(d->set_gamma_curve(g)) }
	else if (IS("asgD")) { Def *x = (Def*)A[0]->p, *y = (Def*)A[1]->p; LIB(*x = *y) }
	else if (IS("asgW")) { white_point *x = (white_point*)A[0]->p, *y = (white_point*)A[1]->p; LIB(*x = *y) }
	else if (IS("asgG")) { Gam *x = (Gam*)A[0]->p, *y = (Gam*)A[1]->p; LIB(*x = *y) }
	else if (IS("addG")) { Gam* x = (Gam*)A[1]->p; gamma_part* p = (gamma_part*)A[2]->p; LIB(if (k) x->add_inverse_gamma_curve_part(p); else x->add_gamma_curve_part(p)) }
	else if (IS("setG")) { Gam *x = (Gam*)A[1]->p, *y = (Gam*)A[2]->p; auto v = k ? y->get_inverse_gamma_curve_parts() : y->get_gamma_curve_parts(); LIB(if (k) x->set_inverse_gamma_curve_parts(v); else x->set_gamma_curve_parts(v)) }
	else if (IS("asgP")) { gamma_part *x = (gamma_part*)A[0]->p, *y = (gamma_part*)A[1]->p; LIB(*x = *y) }
	else if (IS("setPf")) { gamma_part* x = (gamma_part*)A[0]->p; int fn = I(1); float p = F(2); std::function<float(float)> f = make_fn(fn, p, false); LIB(x->set_gamma_function(f)) }
	else if (IS("asgM")) { Mat *x = (Mat*)A[0]->p, *y = (Mat*)A[1]->p; LIB(*x = *y) }
	else if (IS("mac")) { Mat *x = (Mat*)A[1]->p, *y = (Mat*)A[2]->p; LIB(if (k == 0) *x += *y; else if (k == 1) *x -= *y; else *x *= *y) }
	else if (IS("resz")) { Mat* x = (Mat*)A[0]->p; int i = I(1), j = I(2); float f = F(3); LIB(x->resize(i, j, f)) }
	else if (IS("fillM")) { Mat* x = (Mat*)A[0]->p; float f = F(1); LIB(x->fill(f)) }
	else if (IS("insM")) { Mat* x = (Mat*)A[0]->p; std::vector<float> v; for (size_t i = 1; i < a.size(); ++i) v.push_back(F((int)i)); LIB(x->insert(v)) }
	else if (IS("setM")) { Mat* x = (Mat*)A[0]->p; int i = I(1), j = I(2); float f = F(3); LIB((*x)(i, j) = f) }
	else if (IS("refM"))      // an element held by reference while the matrix is copied
	{
		Mat* x = (Mat*)A[1]->p; int i = I(2), j = I(3); float f = F(4); auto was = ((const Mat*)x)->values(); Mat* y = nullptr;
		LIB(float& e = (*x)(i, j); if (k == 1) { y = new Mat(); *y = *x; } else y = new Mat(*x); if (k == 2) y->fill(f); else e = f)
		auto now = ((const Mat*)(k == 2 ? x : y))->values(); bool same = now.size() == was.size(); for (size_t q = 0; same && q < now.size(); ++q) same = now[q].size() == was[q].size() && (now[q].empty() || !memcmp(now[q].data(), was[q].data(), now[q].size() * sizeof(float)));
		if (!same) sim::logf("MODEL op=%d ent=%s writing one of a matrix and its copy changed the other (element held by reference)", o.id, A[1]->id.c_str());
		if (k == 2) LIB((*x)(i, j) = f)
		r.ob.push_back({'M', y});
	}
#undef LIB
}

// ---- describing results
static __thread int rep_no = 0;      // with kept results: which repetition is running
static S result_prefix(const Op& o) { return rep_no ? num(o.id) + ".r" + num(rep_no) + "." : num(o.id) + "."; }
static S describe(Op& o, char kind, void* p, const S& id, Frame& f, int own, bool top);
static S ptr_text(Op& o, char kind, void* p, const S& id, Frame& f, int own) { return p ? describe(o, kind, p, id, f, own, false) : S("0"); }
static S describe(Op& o, char kind, void* p, const S& id, Frame& f, int own, bool top)
{
	Ent* k = known(p);
	if (k && k->live && opt.n("noval", 0) && k->id.compare(0, result_prefix(o).size(), result_prefix(o)) != 0) { if (top) byid[id] = k; return (top ? "=@" : "@") + k->id; }      // looking at an object that was there before would wake what lies dormant in it
	if (k && k->live)
	{
		for (Ent* e : f.clo) if (e == k) { if (top) byid[id] = k; return "=@" + k->id; }
		if (k->id.compare(0, result_prefix(o).size(), result_prefix(o)) != 0) sim::logf("SHARED op=%d %s %s is %s", o.id, top ? "result" : "part of result", id.c_str(), k->id.c_str());
		else if (top) sim::logf("SHARED op=%d result %s is also %s", o.id, id.c_str(), k->id.c_str());
		if (top) byid[id] = k;
	}
	else { k = reg(id, kind, p, own); }
	S t;
	switch (kind)
	{
	case 'C':
	{
		color_base* c = (color_base*)p; k->ctype = c->get_color_type();
		int st = 0; char* nm = abi::__cxa_demangle(typeid(*c).name(), 0, 0, &st);
		t = S("C{") + (nm ? nm + 13 : "?") + " " + num(c->get_color_type()) + " " + hx(c->get_component_max()) + " " + hx(c->get_component_min()) + " a" + hx(c->color_base::alpha()) + comps(c) + " D" + ptr_text(o, 'D', c->get_rgb_color_space(), id + "d", f, own) + "}"; free(nm); break;
	}
	case 'D':
	{
		Def* d = (Def*)p; Mat a = d->get_transform_matrix(), b = d->get_inverse_transform_matrix();
		t = "D{"; for (float x : {d->get_red_x(), d->get_red_y(), d->get_red_z(), d->get_green_x(), d->get_green_y(), d->get_green_z(), d->get_blue_x(), d->get_blue_y(), d->get_blue_z()}) t += hx(x) + " ";
		t += "W" + ptr_text(o, 'W', d->get_white_point(), id + "w", f, own) + " G" + ptr_text(o, 'G', d->get_gamma_curve(), id + "g", f, own) + " " + valM(&a) + " " + valM(&b) + "}"; break;
	}
	case 'G':
	{
		Gam* g = (Gam*)p; t = "G{"; auto v = g->get_gamma_curve_parts(), w = g->get_inverse_gamma_curve_parts();
		for (size_t i = 0; i < v.size(); ++i) t += ptr_text(o, 'P', v[i], id + "f" + num(i), f, own) + " ";
		t += "/ "; for (size_t i = 0; i < w.size(); ++i) t += ptr_text(o, 'P', w[i], id + "i" + num(i), f, own) + " ";
		t += "}";
		S pre = !strcmp(o.d->name, "gampre") ? "g " + o.a[0] : !strcmp(o.d->name, "defpre") ? "d " + o.a[0] : S();
		if (!pre.empty()) { for (size_t i = 0; i < v.size(); ++i) if (Ent* q = known(v[i])) if (q->pspec.empty()) q->pspec = pre + " 0 " + num(i); for (size_t i = 0; i < w.size(); ++i) if (Ent* q = known(w[i])) if (q->pspec.empty()) q->pspec = pre + " 1 " + num(i); }
		break;
	}
	case 'P': t = "P{" + valP((gamma_part*)p) + "}"; break;
	case 'W': t = "W{" + valW((white_point*)p) + "}"; break;
	case 'M': t = "M{" + valM((Mat*)p) + "}"; break;
	}
	if (!opt.n("noval", 0)) k->val = value(k);
	return t;
}
static void coherence(Op& o, Ent* e)
{
	if (e->kind == 'D')
	{
		Def* d = (Def*)e->p; if (!d->get_white_point()) return;
		Def f(d->get_red_x(), d->get_red_y(), d->get_green_x(), d->get_green_y(), d->get_blue_x(), d->get_blue_y(), d->get_white_point(), d->get_gamma_curve());
		for (int k = 0; k < 2; ++k)
		{
			Mat a = k ? d->get_inverse_transform_matrix() : d->get_transform_matrix(), b = k ? f.get_inverse_transform_matrix() : f.get_transform_matrix();
			bool bad = a.rows() != b.rows() || a.columns() != b.columns(); float scale = 0;
			if (!bad) { for (auto& r : b.values()) for (float x : r) if (fabsf(x) > scale) scale = fabsf(x); auto u = a.values(), v = b.values(); for (size_t i = 0; i < u.size() && !bad; ++i) for (size_t j = 0; j < u[i].size(); ++j) { float x = u[i][j], y = v[i][j]; if ((x != x) != (y != y) || (x == x && fabsf(x - y) > 1e-4f * scale && x != y)) { bad = true; break; } } }
			if (bad) { sim::logf("INCOHERENT op=%d ent=%s %s matrix [%s] but a fresh definition has [%s]", o.id, e->id.c_str(), k ? "inverse" : "forward", valM(&a).c_str(), valM(&b).c_str()); return; }
		}
	}
	else if (e->kind == 'G')
	{
		Gam* g = (Gam*)e->p;
		for (int k = 0; k < 2; ++k) { auto v = k ? g->get_inverse_gamma_curve_parts() : g->get_gamma_curve_parts(); for (size_t i = 1; i < v.size(); ++i) if (v[i - 1] && v[i] && v[i]->get_upper_border() < v[i - 1]->get_upper_border()) { sim::logf("INCOHERENT op=%d ent=%s gamma parts not in border order", o.id, e->id.c_str()); return; } }
	}
	else if (e->kind == 'M' && valM((Mat*)e->p).find("RAGGED") != S::npos) sim::logf("INCOHERENT op=%d ent=%s matrix shape does not match its contents [%s]", o.id, e->id.c_str(), valM((Mat*)e->p).c_str());
}
static float clampf(float v, float mx, float mn) { return fmaxf(fminf(v, mx), mn); }
// what the target must look like after a successful mutation, from the documentation; empty when not modelled
static S model(Op& o, Ent** A, const Toks& a, Ent* tgt)
{
	const char* n = o.d->name; auto F = [&](int i) { return unhx(a[i]); }; auto I = [&](int i) { return atoi(a[i].c_str()); };
	if (tgt->kind == 'M')
	{
		Mat* m = (Mat*)tgt->p; auto v = m->values(); int R = m->rows(), Cc = m->columns(); Mat* y = nullptr;
		std::vector<std::vector<float>> w = v;
		if (IS("resz")) { R = I(1); Cc = I(2); w.assign(R, std::vector<float>(Cc, F(3))); for (int i = 0; i < R && i < m->rows(); ++i) for (int j = 0; j < Cc && j < m->columns(); ++j) w[i][j] = v[i][j]; }
		else if (IS("fillM")) { for (auto& q : w) for (float& f : q) f = F(1); }
		else if (IS("insM")) { if ((int)a.size() - 1 == R * Cc) for (int i = 0; i < R; ++i) for (int j = 0; j < Cc; ++j) w[i][j] = F(1 + i * Cc + j); }
		else if (IS("setM")) { if (I(1) < 0 || I(1) >= R || I(2) < 0 || I(2) >= Cc) return ""; w[I(1)][I(2)] = F(3); }
		else if (IS("refM")) { if (I(2) < 0 || I(2) >= R || I(3) < 0 || I(3) >= Cc) return ""; w[I(2)][I(3)] = F(4); }
		else if (IS("asgM")) { y = (Mat*)A[1]->p; R = y->rows(); Cc = y->columns(); w = y->values(); }
		else if (IS("mac")) { y = (Mat*)A[2]->p; int k = I(0) % 3; if (k == 2) return ""; auto z = y->values(); for (int i = 0; i < R; ++i) for (int j = 0; j < Cc; ++j) { if (i >= (int)z.size() || j >= (int)z[i].size()) return ""; w[i][j] = k ? v[i][j] - z[i][j] : v[i][j] + z[i][j]; } }
		else return "";
		S s = "M " + num(R) + " " + num(Cc); for (auto& r : w) { s += " |"; for (float f : r) s += " " + hx(f); } return s;
	}
	if (tgt->kind == 'C')
	{
		color_base* c = (color_base*)tgt->p; auto v = c->get_component_vector(); float mx = c->get_component_max(), mn = c->get_component_min(), al = c->color_base::alpha(); const void* d = c->get_rgb_color_space(); int ty = c->get_color_type();
		if (IS("setc")) { if (I(1) < 0 || I(1) >= (int)v.size()) return ""; v[I(1)] = clampf(F(2), mx, mn); }
		else if (IS("setcr")) { if (I(1) < 0 || I(1) >= (int)v.size()) return ""; v[I(1)] = clampf(F(2), F(3), F(4)); }
		else if (IS("seta")) al = clampf(tgt->ctype == 0 || tgt->ctype == 2 ? F(1) / 255.f : F(1), 1.f, 0.f);
		else if (IS("setdef")) d = A[1]->p;
		else if (IS("asgC")) { color_base* y = (color_base*)A[1]->p; v = y->get_component_vector(); mx = y->get_component_max(); mn = y->get_component_min(); }
		else if (IS("gcC")) { if (!c->get_rgb_color_space() || !c->get_rgb_color_space()->get_gamma_curve()) return ""; Gam* g = c->get_rgb_color_space()->get_gamma_curve(); for (float& f : v) f = clampf(I(0) % 2 ? g->inverse_gamma_correction(f) : g->gamma_correction(f), mx, mn); }
		else if (IS("amul")) { if (I(0) % 2) { if (al != 0.f) for (float& f : v) f /= al; } else for (float& f : v) f *= al; }
		else return "";
		S s = "C " + num(ty) + " " + hx(mx) + " " + hx(mn) + " a" + hx(al) + " D=" + idof(d); for (float f : v) s += " " + hx(f); return s;
	}
	if (IS("asgW")) return value(A[1]);
	if (IS("asgD")) return value(A[1]);
	if (IS("asgG")) return value(A[1]);
	return "";
}

static S rs_text(Op& o) { return o.has_rs ? " ;rs=" + num(o.rkind) + ":" + num((long long)o.rseed) + ":" + num((long long)o.rparam) : S(); }
// what earlier calls of the program left in this thread: errno and the floating-point status flags
static void stale_state(unsigned long long s)
{
	static const int e[] = {0, ERANGE, EDOM, EINVAL, ENOMEM, EINTR, ENOENT, EAGAIN}; static const int fe[] = {FE_INVALID, FE_DIVBYZERO, FE_OVERFLOW, FE_UNDERFLOW, FE_INEXACT};
	auto next = [&] { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return (unsigned)(s >> 20); }; s |= 1; next(); next();
	feclearexcept(FE_ALL_EXCEPT); int f = 0; if (next() % 4) for (int x : fe) if (next() % 2) f |= x; feraiseexcept(f);
	errno = e[next() % 8];
}
static int fixed_op_tag = 100000;
static void exec_op(Op& o)
{
	if (o.d->flags & F_LIFE)
	{
		S why;
		if (!strcmp(o.d->name, "mk")) { Toks t; t.push_back("obj"); for (auto& x : o.a) t.push_back(x); if (!build(t, o.tid, &why)) sim::logf("NOP %d %s", o.id, why.c_str()); else sim::logf("MK %d %s", o.id, t[2].c_str()); }
		else { Ent* e = o.a.empty() ? nullptr : find(o.a[0]); if (!e || (e->owner != o.tid && !opt.n("seq", 0) && o.tid != 0)) sim::logf("NOP %d absent", o.id); else if (referenced(e)) sim::logf("NOP %d referenced", o.id); else { destroy(e); sim::logf("DEL %d %s", o.id, o.a[0].c_str()); } }
		return;
	}
	// arguments
	const char* sg = o.d->sig; Ent* A[40]; memset(A, 0, sizeof A); int tgt = -1; Frame f; f.op = &o; f.mut = o.d->flags & F_MUT; f.midlogged = false;
	size_t i = 0; S bad;
	for (; sg[i] && sg[i] != '*'; ++i)
	{
		if (i >= o.a.size()) { bad = "arguments"; break; }
		if (strchr("CDWGPM", sg[i]))
		{
			if (sg[i] == 'D' && o.a[i] == "0") continue;
			Ent* e = find(o.a[i]); if (!e || e->kind != sg[i]) { bad = "missing " + o.a[i]; break; }
			A[i] = e; if (f.mut && tgt < 0) tgt = (int)i;
		}
	}
	if (bad.empty() && !strcmp(o.d->name, "avg")) for (; i < o.a.size() && i < 38; ++i) { Ent* e = find(o.a[i]); if (!e || e->kind != 'C' || e->ctype != atoi(o.a[0].c_str())) { bad = "missing"; break; } A[i] = e; }
	if (bad.empty() && !strcmp(o.d->name, "calct")) for (int q = 2; q < 4; ++q) if (A[q]->ctype != atoi(o.a[1].c_str())) bad = "type";
	if (bad.empty() && f.mut)
	{
		Ent* e = A[tgt];
		if (e->owner != o.tid && !opt.n("seq", 0) && opt.n("nthreads", 1) > 1) bad = "shared";
		if (e->kind == 'W' && !opt.n("wuse", 0)) { for (Ent* x : ents) if (x->live && !elsewhere(x, e->owner) && x->kind == 'D' && ((Def*)x->p)->get_white_point() == e->p) bad = "used"; }
		if (!strcmp(o.d->name, "asgP") && referenced(e)) bad = "used";
		if (!strcmp(o.d->name, "asgC") && A[0]->ctype != A[1]->ctype) bad = "type";
		if (!strcmp(o.d->name, "gcC") && (!((color_base*)e->p)->get_rgb_color_space() || !((color_base*)e->p)->get_rgb_color_space()->get_gamma_curve())) bad = "no curve";
		if (!strcmp(o.d->name, "resz") && (atoi(o.a[1].c_str()) < 0 || atoi(o.a[2].c_str()) < 0)) bad = "size";
	}
	if (!bad.empty()) { sim::logf("NOP %d %s", o.id, bad.c_str()); return; }
	const bool noval = opt.n("noval", 0);      // objects are not looked at around calls: looking can change what lies dormant in them
	if (!noval) { for (Ent* e : A) if (e) closure(e, f.clo); for (Ent* e : f.clo) f.before.push_back(value(e)); }
	Ent* target = tgt >= 0 ? A[tgt] : nullptr;
	if (opt.n("mini", 0) && !noval)
	{
		std::vector<S> lines; std::set<S> done; bool ok = true;
		for (Ent* e : A) if (e) spec(e, lines, done, ok);
		S m; for (auto& l : lines) m += l + "\n";
		m += S("op 1 99999 ") + o.d->name; for (auto& x : o.a) { Ent* e = find(x); m += " " + (e && strchr("CDWGPM*", sg[std::min((size_t)(&x - &o.a[0]), strlen(sg) - 1)]) ? e->id : x); }
		m += rs_text(o) + "\n";
		S head = "MINI " + num(o.id) + (ok ? " ok\n" : " no\n"); S all = head + m + "ENDMINI\n"; sim::log_raw(all.data(), all.size());
	}
	S want = f.mut && !noval ? model(o, A, o.a, target) : S();
	if (sim::cfg.nthreads == 1 || sim::cfg.seq) if (opt.n("verb", 0)) sim::logf("OPB %d", o.id);
	S first;
	unsigned long long amb = 0; char ab[900];
	if (opt.n("amb", 0)) amb = sim::ambient_snapshot(ab, sizeof ab);
	const long long grow = o.rep > 1 ? opt.n("grow", 0) : 0;      // 1: steps of many repetitions; 2: and their results stay
	std::vector<unsigned long long> took;
	const bool keepall = o.rep > 1 && opt.n("keepall", 0);
	for (int rep = 0; rep < o.rep; ++rep)
	{
		Res r; S text; sim::OpCtl ctl; ctl.opid = o.id; ctl.budget = (uint64_t)opt.n("budget", 0); ctl.rkind = o.rkind; ctl.rstate = o.rseed; ctl.rparam = o.rparam;
		bool nested = sim::cur_op()->opid != 0;
		if (keepall) rep_no = rep;
		if (sim::cfg.scribble && !nested) sim::scribble_stack();
		Frame* outer = frames[sim::cur_thread()]; frames[sim::cur_thread()] = &f;
		int tag = ++next_tag; sim::arena_set_tag(tag);
		int wasw = sim::watch_on;
		if (opt.n("watch", 0) && !f.mut) { sim::arena_clear_watch(); for (Ent* e : f.clo) for (int t : e->tags) sim::arena_watch_tag(t); sim::watch_on = 1; }
		if (long long st = opt.n("stale", 0)) stale_state((unsigned long long)st * 1000003 + o.id * 17 + rep);
		sim::op_begin(&ctl);
		bool threw = true;
		try { perform(o, A, o.a, r); threw = false; }
		catch (std::bad_alloc&) { sim::leave(); text = "X val std::bad_alloc"; }
		catch (UserStd& e) { sim::leave(); text = "X user UserStd " + num(e.token) + " [" + e.what() + "]"; }
		catch (std::exception& e) { sim::leave(); text = exc_text("val", e); }
		catch (std::exception* e) { sim::leave(); text = e ? exc_text("ptr", *e) : S("X ptr null"); }
		catch (UserErr& e) { sim::leave(); text = "X user UserErr " + num(e.token) + " " + S(e.text, 4); }
		catch (UserErr* e) { sim::leave(); text = S("X user UserErr* ") + (e == &static_err ? "same" : "other"); }
		catch (int& v) { sim::leave(); text = "X user int " + num(v); }
		catch (const char* s) { sim::leave(); text = S("X user char* ") + s; }
		catch (...) { sim::leave(); text = "X other"; }
		sim::op_end(&ctl);
		if (grow) { took.push_back(ctl.step); if (grow == 2 && rep) { sim::arena_set_tag(tag); frames[sim::cur_thread()] = outer; sim::watch_on = wasw; continue; } }
		sim::arena_set_tag(tag);
		frames[sim::cur_thread()] = outer;
		sim::watch_on = wasw;
		bool keep = rep == 0;
		if (!threw)
		{
			text = "V " + r.text;
			if (r.is_c)
			{
				text = "V" + num(r.vc.size());
				for (size_t j = 0; j < r.vc.size(); ++j)
				{
					S id = result_prefix(o) + num(j);
					text += " " + (r.vc[j] ? describe(o, 'C', r.vc[j], id, f, o.tid, true) : S("NULL"));
				}
			}
			for (size_t j = 0; j < r.ob.size(); ++j) text += " " + describe(o, r.ob[j].first, r.ob[j].second, result_prefix(o) + num(j), f, o.tid, true);
			if (!strcmp(o.d->name, "cpP")) if (Ent* q = find(num(o.id) + ".0")) q->pspec = A[0]->pspec;
		}
		if (f.mut)
		{
			target->tags.push_back(tag);
			S now = noval ? S() : value(target);
			if (!noval) text += " -> " + now;
			if (!threw && !want.empty() && now != want) sim::logf("MODEL op=%d ent=%s expected=[%s] got=[%s]", o.id, target->id.c_str(), want.c_str(), now.c_str());
			if (threw && now != target->val) sim::logf("HALFWAY op=%d ent=%s before=[%s] now=[%s] after %s", o.id, target->id.c_str(), target->val.c_str(), now.c_str(), text.c_str());
			target->val = now;
			if (!threw && !strcmp(o.d->name, "setPf")) target->pspec = "u " + o.a[1] + " " + o.a[2] + " " + hx(((gamma_part*)target->p)->get_upper_border()) + " 0";
			if (!threw && !strcmp(o.d->name, "asgP")) target->pspec = A[1]->pspec;
		}
		log_vals_changed("CHG", &f, target);
		if (f.mut && !noval) coherence(o, target);
		if (!noval) for (size_t j = 0; j < r.ob.size(); ++j) if (Ent* q = known(r.ob[j].second)) coherence(o, q);
		sim::ambient_check_streams();
		if (amb) { char b2[900]; unsigned long long h = sim::ambient_snapshot(b2, sizeof b2); if (h != amb) { sim::amb_event("changed", (S("before ") + ab + " after " + b2 + " op " + num(o.id)).c_str()); amb = h; } }
		if (rep == 0)
		{
			first = text;
			S line = "OPE " + num(o.id) + " t" + num(o.tid) + " steps=" + num(ctl.step - ctl.waited) + " allocs=" + num(ctl.allocs) + " gcalls=" + num(ctl.gcalls) + " rands=" + num(ctl.rands) + " srands=" + num(ctl.srands) + " faults=" + num(ctl.faults) + " : " + text + "\n";
			sim::log_raw(line.data(), line.size());
		}
		else if (text != first) { sim::logf("REPDIFF op=%d rep=%d first=[%.600s] now=[%.600s]", o.id, rep, first.c_str(), text.c_str()); break; }
		// give back what repetitions created, so that their addresses are used again
		if (o.rep > 1 && !keepall)
		{
			std::vector<Ent*> mine; S pre = num(o.id) + ".";
			for (Ent* e : ents) if (e->live && e->id.compare(0, pre.size(), pre) == 0) mine.push_back(e);
			(void)keep;
			if (sim::cfg.nthreads > 1)      // others may run in the middle of it: everything of ours is in order before the library is entered
			{
				for (Ent* e : mine) { e->live = false; byptr.erase(e->p); byid.erase(e->id); ents.erase(std::find(ents.begin(), ents.end(), e)); }
				sim::OpCtl c2; c2.opid = o.id; sim::op_begin(&c2); for (Ent* e : mine) destroy_object(e); sim::op_end(&c2); for (Ent* e : mine) delete e;
			}
			else
			{
				for (Ent* e : mine) { destroy(e); }
				while (!ents.empty() && !ents.back()->live) { delete ents.back(); ents.pop_back(); }
			}
			// names that were aliases of arguments
			for (size_t j = 0; j < r.vc.size(); ++j) byid.erase(pre + num(j));
		}
	}
	if (keepall) rep_no = 0;
	if (grow && took.size() >= 64) { auto at = [&](size_t q) { unsigned long long m = ~0ull; for (size_t i = q - 16; i < q; ++i) m = std::min(m, took[i]); return m; }; size_t n = took.size(); sim::logf("GROW op=%d calls=%zu steps=%llu,%llu,%llu", o.id, n, at(n / 4), at(n / 2), at(n)); }
	if (opt.n("ver", 0) && !noval)
		for (Ent* e : ents) if (e->live && !(sim::cfg.nthreads > 1 && !sim::cfg.seq && e->owner != o.tid))
		{
			S v = value(e);
			if (v != e->val) { sim::logf("VER op=%d ent=%s before=[%s] now=[%s]", o.id, e->id.c_str(), e->val.c_str(), v.c_str()); e->val = v; }
		}
}

// ------------------------------------------------------------------------------------------------ scenario
static void thread_body(int tid)
{
	for (int id : per[tid]) { sim::op_boundary(id); exec_op(ops[id]); }
	sim::op_boundary(-1);
}
static std::vector<S> build_lines;
// returns false when the scenario is malformed
bool client_run(const char* text, size_t len)
{
	std::istringstream is(S(text, len)); S l; S why; std::vector<Toks> objs;
	while (std::getline(is, l))
	{
		if (l.empty() || l[0] == '#') continue;
		S tail; size_t sc = l.find(';'); if (sc != S::npos) { tail = l.substr(sc + 1); l = l.substr(0, sc); }
		Toks t = split(l); if (t.empty()) continue;
		if (t[0] == "opt") { for (size_t i = 1; i < t.size(); ++i) { size_t e = t[i].find('='); if (e != S::npos) opt.kv[t[i].substr(0, e)] = t[i].substr(e + 1); } }
		else if (t[0] == "obj") objs.push_back(t);
		else if (t[0] == "op" || t[0] == "nop")
		{
			Op o; o.tid = atoi(t[1].c_str()); o.id = atoi(t[2].c_str()); o.d = nullptr; o.nested = t[0] == "nop"; o.rep = 1; o.rkind = 0; o.rseed = 1; o.rparam = 0; o.has_rs = false;
			if (t.size() < 4 || o.tid < 0 || o.tid >= sim::MAXT) return false;
			for (int i = 0; i < NOPDEFS; ++i) if (t[3] == OPDEFS[i].name) o.d = &OPDEFS[i];
			if (!o.d) { if (t[3] == "NOP") continue; return false; }
			o.a.assign(t.begin() + 4, t.end());
			for (auto& x : split(tail))
			{
				if (x.compare(0, 3, "rs=") == 0) { o.has_rs = true; unsigned long long a = 0, b = 0, c = 0; sscanf(x.c_str() + 3, "%llu:%llu:%llu", &a, &b, &c); o.rkind = (int)a; o.rseed = b; o.rparam = c; }
				if (x.compare(0, 4, "rep=") == 0) o.rep = atoi(x.c_str() + 4);
			}
			ops[o.id] = o; if (!o.nested) per[o.tid].push_back(o.id);
		}
		else if (t[0] == "fault" && t.size() >= 4)
		{
			int id = atoi(t[1].c_str());
			if (t[2] == "alloc" && t.size() >= 6) { sim::AllocFault f{atoi(t[3].c_str()), atoi(t[4].c_str()), (unsigned)atoi(t[5].c_str()), 0}; sim::add_access_fault(id, f); }
			else { auto i = ops.find(id); if (i == ops.end()) continue; Fault f; f.fired = false; f.kind = t[2] == "throw" ? 1 : t[2] == "nest" ? 2 : 3; f.n = atoi(t[3].c_str()); f.arg = t.size() > 4 ? atoi(t[4].c_str()) : 0; i->second.faults.push_back(f); }
		}
		else if ((t[0] == "sw" || t[0] == "stall") && t.size() >= 3)
		{
			sim::SwPoint p; p.opid = atoi(t[1].c_str()); p.step = strtoull(t[2].c_str(), 0, 10); p.kind = t[0] == "sw" ? sim::SW_SWITCH : sim::SW_STALL; p.next = t.size() > 3 ? atoi(t[3].c_str()) : 0; p.used = false; sim::add_switch(p);
		}
		else if (t[0] == "order") { for (size_t i = 1; i < t.size() && i <= 4; ++i) sim::cfg.order[i - 1] = atoi(t[i].c_str()); }
	}
	sim::Config& c = sim::cfg;
	c.nthreads = (int)opt.n("nthreads", 1); if (c.nthreads < 1) c.nthreads = 1; if (c.nthreads > 4) c.nthreads = 4;
	c.seq = opt.n("seq", 0); c.garbage = (int)opt.n("garbage", 0); c.garbage_seed = opt.n("gseed", 1); c.reuse = (int)opt.n("reuse", 0); c.shift = (unsigned)opt.n("shift", 0); c.reuse_seed = opt.n("rseed", 1);
	c.clock_mode = (int)opt.n("clock", 0); c.clock_seed = opt.n("cseed", 1); c.hooks = opt.n("hooks", 1); c.probe = opt.n("probe", 0); c.races = opt.n("races", 0); c.scribble = opt.n("scribble", 0); c.envvars = opt.n("envvars", 0);
	c.quantum = opt.n("quantum", 0); c.quantum_seed = opt.n("qseed", 1);
	sim::arena_configure();
	for (auto& t : objs) if (t.size() < 4 || !build(t, 0, &why)) { sim::logf("NOOBJ %s %s", t.size() > 2 ? t[2].c_str() : "", why.c_str()); }
	if (opt.n("ambient", 0)) sim::ambient_randomise((uint64_t)opt.n("ambient", 0));
	sim::fenv_expected = sim::fenv_control(); c.fenv_watch = opt.n("fenv", 0);
	sim::mid_check = mid_check;
	for (int id : per[0]) exec_op(ops[id]);
	sim::run_threads(thread_body);
	if (!opt.n("noval", 0)) for (Ent* e : ents) if (e->live) { S v = value(e); if (v != e->val) sim::logf("VER op=0 ent=%s before=[%s] now=[%s]", e->id.c_str(), e->val.c_str(), v.c_str()); }
	sim::ambient_check_streams();
	sim::logf("END");
	return true;
}
