// Query layer: constraint slicing, cached results, Z3 back end.
#pragma once
#include "expr.h"
#include "bitblast.h"
#include <map>
#include <string>
#include <time.h>

static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

static Z3_context zc;
static Z3_solver zs, zq; // full QF_BV strategy; plain bit-blasting, tried first
static std::vector<unsigned> g_symw;       // width of each symbol
static std::vector<Z3_ast> g_symz;
static unsigned g_query_ms = 20000;
static uint64_t st_queries, st_z3, st_sat, st_unsat, st_unknown, st_cache, st_modelhit;
static uint64_t st_sat_calls, st_sat_sat, st_sat_unsat, st_sat_hard, st_sat_limit, st_cross, st_disagree; static double st_sattime; static bool g_nosat;
static double st_z3time, st_z3max; static bool g_timeup; static double g_deadline;

static Z3_ast tb(E e); // as Bool
static Z3_ast tv(E e) { // as bit-vector
	if(e->z) return e->z;
	Z3_ast r;
	if(e->op == CONST) r = Z3_mk_unsigned_int64(zc, e->k, Z3_mk_bv_sort(zc, e->w));
	else if(e->op == SYM) {
		if(g_symz.size() <= e->k) g_symz.resize(e->k + 1, nullptr);
		if(!g_symz[e->k]) { char n[32]; snprintf(n, sizeof n, "s%u", (unsigned)e->k); g_symz[e->k] = Z3_mk_const(zc, Z3_mk_string_symbol(zc, n), Z3_mk_bv_sort(zc, e->w)); Z3_inc_ref(zc, g_symz[e->k]); }
		r = g_symz[e->k];
	} else if(e->w == 1 && e->op != EXTRACT) {
		Z3_sort s = Z3_mk_bv_sort(zc, 1);
		r = Z3_mk_ite(zc, tb(e), Z3_mk_unsigned_int64(zc, 1, s), Z3_mk_unsigned_int64(zc, 0, s));
	} else switch(e->op) {
	case ADD: r = Z3_mk_bvadd(zc, tv(e->a), tv(e->b)); break;
	case SUB: r = Z3_mk_bvsub(zc, tv(e->a), tv(e->b)); break;
	case MUL: r = Z3_mk_bvmul(zc, tv(e->a), tv(e->b)); break;
	case UDIV: r = Z3_mk_bvudiv(zc, tv(e->a), tv(e->b)); break;
	case SDIV: r = Z3_mk_bvsdiv(zc, tv(e->a), tv(e->b)); break;
	case UREM: r = Z3_mk_bvurem(zc, tv(e->a), tv(e->b)); break;
	case SREM: r = Z3_mk_bvsrem(zc, tv(e->a), tv(e->b)); break;
	case AND: r = Z3_mk_bvand(zc, tv(e->a), tv(e->b)); break;
	case OR: r = Z3_mk_bvor(zc, tv(e->a), tv(e->b)); break;
	case XOR: r = e->b->isc(mask(e->w)) ? Z3_mk_bvnot(zc, tv(e->a)) : Z3_mk_bvxor(zc, tv(e->a), tv(e->b)); break;
	case SHL: r = Z3_mk_bvshl(zc, tv(e->a), tv(e->b)); break;
	case LSHR: r = Z3_mk_bvlshr(zc, tv(e->a), tv(e->b)); break;
	case ASHR: r = Z3_mk_bvashr(zc, tv(e->a), tv(e->b)); break;
	case ITE: r = Z3_mk_ite(zc, tb(e->a), tv(e->b), tv(e->c)); break;
	case CONCAT: r = Z3_mk_concat(zc, tv(e->a), tv(e->b)); break;
	case EXTRACT: r = Z3_mk_extract(zc, (unsigned)e->k + e->w - 1, (unsigned)e->k, tv(e->a)); break;
	case ZEXT: r = Z3_mk_zero_ext(zc, e->w - e->a->w, tv(e->a)); break;
	case SEXT: r = Z3_mk_sign_ext(zc, e->w - e->a->w, tv(e->a)); break;
	default: abort();
	}
	Z3_inc_ref(zc, r);
	return e->z = r;
}
static Z3_ast tb(E e) {
	if(e->zb) return e->zb;
	Z3_ast r;
	switch(e->op) {
	case CONST: r = e->k ? Z3_mk_true(zc) : Z3_mk_false(zc); break;
	case EQ: r = e->a->w == 1 ? Z3_mk_iff(zc, tb(e->a), tb(e->b)) : Z3_mk_eq(zc, tv(e->a), tv(e->b)); break;
	case ULT: r = Z3_mk_bvult(zc, tv(e->a), tv(e->b)); break;
	case SLT: r = Z3_mk_bvslt(zc, tv(e->a), tv(e->b)); break;
	case AND: { Z3_ast x[2] = { tb(e->a), tb(e->b) }; r = Z3_mk_and(zc, 2, x); break; }
	case OR: { Z3_ast x[2] = { tb(e->a), tb(e->b) }; r = Z3_mk_or(zc, 2, x); break; }
	case XOR: if(e->b->isc(1)) r = Z3_mk_not(zc, tb(e->a)); else r = Z3_mk_xor(zc, tb(e->a), tb(e->b)); break;
	case ITE: r = Z3_mk_ite(zc, tb(e->a), tb(e->b), tb(e->c)); break;
	default: { Z3_sort s = Z3_mk_bv_sort(zc, 1); r = Z3_mk_eq(zc, tv(e), Z3_mk_unsigned_int64(zc, 1, s)); }
	}
	Z3_inc_ref(zc, r);
	return e->zb = r;
}

static void solver_init() {
	Z3_config c = Z3_mk_config();
	zc = Z3_mk_context(c);
	zs = Z3_mk_solver_for_logic(zc, Z3_mk_string_symbol(zc, "QF_BV"));
	Z3_solver_inc_ref(zc, zs);
	Z3_params p = Z3_mk_params(zc); Z3_params_inc_ref(zc, p);
	Z3_params_set_uint(zc, p, Z3_mk_string_symbol(zc, "timeout"), g_query_ms);
	Z3_solver_set_params(zc, zs, p);
	Z3_tactic t = 0;
	for(const char *n : {"simplify", "bit-blast", "sat"}) { Z3_tactic u = Z3_mk_tactic(zc, n); Z3_tactic_inc_ref(zc, u); t = t ? Z3_tactic_and_then(zc, t, u) : u; Z3_tactic_inc_ref(zc, t); }
	zq = Z3_mk_solver_from_tactic(zc, t); Z3_solver_inc_ref(zc, zq);
	Z3_params_set_uint(zc, p, Z3_mk_string_symbol(zc, "timeout"), g_query_ms < 1500 ? g_query_ms : 1500);
	Z3_solver_set_params(zc, zq, p);
}

enum Res { UNSAT = 0, SAT = 1, UNKNOWN = 2 };
struct CacheEnt { Res r; std::vector<std::pair<uint32_t,uint64_t>> m; };
struct VHash { size_t operator()(const std::vector<uint32_t> &v) const { uint64_t h = v.size(); for(auto x : v) { h = (h ^ x) * 0x9E3779B97F4A7C15ull; h ^= h >> 29; } return h; } };
static std::unordered_map<std::vector<uint32_t>, CacheEnt, VHash> g_cache;
static std::vector<Model> g_recent; static size_t g_recent_i;
static void remember(const Model &x) { if(g_recent.size() < 12) g_recent.push_back(x); else { g_recent[g_recent_i] = x; g_recent_i = (g_recent_i + 1) % g_recent.size(); } }

// SAT sweeping for assertions that compare large terms: parts that agree on random inputs are proved equal bottom-up and merged
static uint64_t st_sweep, st_sweep_ok, st_sweep_q; static double st_sweeptime;
static uint64_t xrnd() { static uint64_t s = 0x1234567887654321ull; s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s; }
static Model rndmodel() { Model x(g_symw.size(), 0); unsigned k = xrnd() % 4; for(size_t i = 0; i < x.size(); i++) x[i] = (k == 0 ? xrnd() & xrnd() & xrnd() : k == 1 ? xrnd() % 4 : xrnd()) & mask(g_symw[i]); return x; }
static E sweep(E c) {
	double t0 = now(); st_sweep++;
	std::vector<E> order, st{c}; std::unordered_set<E> seen;
	while(!st.empty()) { E e = st.back(); if(seen.count(e)) { st.pop_back(); continue; } bool ok = true; for(E x : {e->c, e->b, e->a}) if(x && !seen.count(x)) { st.push_back(x); ok = false; } if(ok) { seen.insert(e); order.push_back(e); st.pop_back(); } }
	std::vector<uint64_t> sig(order.size(), 0); 
	for(int r = 0; r < 12; r++) { Model m = rndmodel(); g_epoch++; for(size_t i = 0; i < order.size(); i++) { sig[i] = (sig[i] ^ ev(order[i], m)) * 0x9E3779B97F4A7C15ull; sig[i] ^= sig[i] >> 29; } }
	std::unordered_map<E, E> rep; std::unordered_map<uint64_t, std::vector<E>> cls; ps_reset();
	auto get = [&](E x) -> E { return x ? rep[x] : nullptr; };
	for(size_t i = 0; i < order.size(); i++) {
		E e = order[i], n = e; if(e->a) n = rebuild(e, get(e->a), get(e->b), get(e->c));
		if(n->isc() || now() - t0 > 60 || now() > g_deadline) { rep[e] = n; continue; }
		auto &v = cls[sig[i] * 64 + n->w]; bool hit = false; for(E r : v) if(r == n) hit = true;
		if(!hit) {
			unsigned tries = 0; for(E r : v) { if(r->w != n->w || tries++ >= 3) continue;
				E d = eq(n, r); if(d->isc()) { if(d->k) { n = r; hit = true; break; } continue; }
				try { if(ps_vars > 400000) ps_reset(); int l = bb(d)[0]; picosat_assume(ps, -l); picosat_set_propagation_limit(ps, 300000); st_sweep_q++; if(picosat_sat(ps, -1) == PICOSAT_UNSATISFIABLE) { n = r; hit = true; break; } } catch(Hard &) { ps_reset(); } }
			if(!hit) v.push_back(n);
		}
		rep[e] = n;
	}
	st_sweeptime += now() - t0; E r = rep[c]; if(r->isc()) st_sweep_ok++; return r;
}
// Conditions on a single symbol of at most 8 bits: the set of values that satisfy each of them
struct Dom { uint64_t b[4]; };
static std::unordered_map<uint32_t, Dom> g_dom; static uint64_t st_dom;
static const Dom &domain(E e, uint32_t s, Model &x) {
	auto it = g_dom.find(e->id); if(it != g_dom.end()) return it->second;
	Dom d = {{0,0,0,0}}; unsigned n = 1u << g_symw[s];
	for(unsigned v = 0; v < n; v++) { x[s] = v; g_epoch++; if(ev(e, x)) d.b[v >> 6] |= 1ull << (v & 63); }
	return g_dom[e->id] = d;
}
// Is pc /\ c satisfiable?  On SAT, m (a model of pc) is updated to a model of pc /\ c.
static int ps_max = getenv("VP_PSMAX") ? atoi(getenv("VP_PSMAX")) : 5000;
static Res solve(const std::vector<E> &pc, E c, Model &m, bool ischeck = false) {
	if(c->isc()) return c->k ? SAT : UNSAT;
	st_queries++;
	// slice
	std::vector<E> sl; sl.push_back(c);
	std::vector<char> in(g_symw.size(), 0);
	for(auto s : *c->syms) in[s] = 1;
	std::vector<char> used(pc.size(), 0);
	for(bool ch = true; ch; ) {
		ch = false;
		for(size_t i = 0; i < pc.size(); i++) if(!used[i]) {
			bool hit = false; for(auto s : *pc[i]->syms) if(in[s]) { hit = true; break; }
			if(hit) { used[i] = 1; ch = true; sl.push_back(pc[i]); for(auto s : *pc[i]->syms) in[s] = 1; }
		}
	}
	std::vector<uint32_t> key; for(auto e : sl) key.push_back(e->id);
	std::sort(key.begin(), key.end()); key.erase(std::unique(key.begin(), key.end()), key.end());
	auto it = g_cache.find(key);
	auto apply = [&](const std::vector<std::pair<uint32_t,uint64_t>> &v) { for(auto &p : v) { if(m.size() <= p.first) m.resize(p.first + 1, 0); m[p.first] = p.second; } };
	if(it != g_cache.end()) { st_cache++; if(it->second.r == SAT) apply(it->second.m); return it->second.r; }
	auto collect = [&](const Model &x) { std::vector<std::pair<uint32_t,uint64_t>> v; for(uint32_t s = 0; s < in.size(); s++) if(in[s]) v.push_back({s, s < x.size() ? x[s] & mask(g_symw[s]) : 0}); return v; };
	bool domunsat = false;
	{ uint32_t s0 = 0, cnt = 0; for(uint32_t s = 0; s < in.size() && cnt < 2; s++) if(in[s]) { s0 = s; cnt++; }
	if(cnt == 1 && g_symw[s0] <= 8 && !g_nosat) {
		static Model x; if(x.size() < g_symw.size()) x.resize(g_symw.size(), 0);
		Dom d = {{~0ull,~0ull,~0ull,~0ull}}; for(auto e : sl) { const Dom &q = domain(e, s0, x); for(int i = 0; i < 4; i++) d.b[i] &= q.b[i]; }
		st_dom++; int val = -1; for(int i = 0; i < 4 && val < 0; i++) if(d.b[i]) val = i * 64 + __builtin_ctzll(d.b[i]);
		if(val >= 0) { std::vector<std::pair<uint32_t,uint64_t>> v{{s0, (uint64_t)val}}; apply(v); g_cache[key] = {SAT, v}; return SAT; }
		domunsat = true;
	} }
	if(!domunsat) for(auto &x : g_recent) {
		g_epoch++; bool ok = true;
		for(auto e : sl) if(!ev(e, x)) { ok = false; break; }
		if(ok) { st_modelhit++; auto v = collect(x); g_cache[key] = {SAT, v}; apply(v); return SAT; }
	}
	if(ischeck && !domunsat) for(int r = 0; r < 3; r++) { // cheap models first
		Model x = rndmodel(); g_epoch++; bool ok = true; for(auto e : sl) if(!ev(e, x)) { ok = false; break; }
		if(ok) { st_modelhit++; auto v = collect(x); g_cache[key] = {SAT, v}; apply(v); return SAT; }
	}
	if(getenv("VP_Q")) { unsigned cnt = 0; for(char x : in) cnt += x; fprintf(stderr, "Q syms %u cons %zu check %d\n", cnt, sl.size(), ischeck); static int nn; if(nn++ % 500 == 0) for(auto e : sl) { fprintf(stderr, "  "); dump(stderr, e, 6); fprintf(stderr, "\n"); } }
	double t0 = now();
	if(t0 > g_deadline) { g_timeup = true; return UNKNOWN; }
	// 1. bit-blasting + PicoSAT under assumptions
	Res fast = UNKNOWN;
	if(domunsat) { fast = UNSAT; st_sat_unsat++; }
	else if(!g_nosat) try {
		if(!ps || ps_vars > ps_max) ps_reset();
		std::vector<int> as; for(auto e : sl) as.push_back(bb(e)[0]);
		st_sat_calls++;
		for(int l : as) picosat_assume(ps, l);
		picosat_set_propagation_limit(ps, 2000000);
		int pr = picosat_sat(ps, -1);
		if(pr == PICOSAT_SATISFIABLE) {
			Model x(g_symw.size(), 0);
			for(uint32_t s = 0; s < in.size(); s++) if(in[s]) { const Bits &b = bb(mk(SYM, g_symw[s], s)); uint64_t v = 0; for(unsigned i = 0; i < b.size(); i++) if(picosat_deref(ps, b[i]) == 1) v |= 1ull << i; x[s] = v; }
			g_epoch++; fast = SAT; for(auto e : sl) if(!ev(e, x)) { fprintf(stderr, "PicoSAT model does not satisfy its query\n"); fast = UNKNOWN; st_disagree++; break; }
			if(fast == SAT) { st_sat_sat++; auto v = collect(x); apply(v); remember(x); g_cache[key] = {SAT, v}; st_sattime += now() - t0; return SAT; }
		} else if(pr == PICOSAT_UNSATISFIABLE) { fast = UNSAT; st_sat_unsat++; }
		else { st_sat_limit++; ps_reset(); }
	} catch(Hard &) { st_sat_hard++; ps_reset(); }
	if(fast == UNKNOWN && ischeck) { E d = sweep(c); if(d->isc(0)) { st_sat_unsat++; st_sattime += now() - t0; g_cache[key] = {UNSAT, {}}; return UNSAT; } }
	double t1 = now(); st_sattime += t1 - t0; t0 = t1;
	// 2. UNSAT verdicts on assertions, and a sample of those on branches, are confirmed by Z3
	static unsigned crossunk = 0;
	if(fast == UNSAT && ((crossunk >= 4 && st_sat_unsat % 16) || !(ischeck ? (st_sat_unsat < 200 || st_sat_unsat % 64 == 0) : (st_sat_unsat < 50 || st_sat_unsat % 256 == 0)))) { g_cache[key] = {UNSAT, {}}; return UNSAT; }
	st_z3++;
	Z3_lbool r = Z3_L_UNDEF; Z3_solver zu = nullptr;
	for(Z3_solver z : {zq, zs}) {
		Z3_solver_reset(zc, z); zu = z;
		for(auto e : sl) Z3_solver_assert(zc, z, tb(e));
		r = Z3_solver_check(zc, z);
		if(r != Z3_L_UNDEF || fast == UNSAT) break;
	}
	Res res; std::vector<std::pair<uint32_t,uint64_t>> v;
	if(r == Z3_L_TRUE) {
		res = SAT; st_sat++;
		Z3_model zm = Z3_solver_get_model(zc, zu); Z3_model_inc_ref(zc, zm);
		Model x(g_symw.size(), 0);
		for(uint32_t s = 0; s < in.size(); s++) if(in[s]) {
			Z3_ast o; uint64_t val = 0;
			tv(mk(SYM, g_symw[s], s));
			if(Z3_model_eval(zc, zm, g_symz[s], true, &o)) { Z3_inc_ref(zc, o); Z3_get_numeral_uint64(zc, o, &val); Z3_dec_ref(zc, o); }
			x[s] = val;
		}
		Z3_model_dec_ref(zc, zm);
		g_epoch++;
		for(auto e : sl) if(!ev(e, x)) { fprintf(stderr, "model does not satisfy its query\n"); res = UNKNOWN; st_unknown++; break; }
		if(res == SAT) {
			v = collect(x); apply(v);
			remember(x);
		}
	} else if(r == Z3_L_FALSE) { res = UNSAT; st_unsat++; }
	else { res = UNKNOWN; st_unknown++; }
	if(fast == UNSAT) { if(res != UNKNOWN) st_cross++; if(res == SAT) { fprintf(stderr, "solvers disagree\n"); st_disagree++; } if(res == UNKNOWN) { res = UNSAT; crossunk++; } }
	double dt = now() - t0; st_z3time += dt; if(dt > st_z3max) st_z3max = dt;
	static bool dbg = getenv("VP_DUMP"); if(dbg && (res == UNKNOWN || now() - t0 > 2)) { fprintf(stderr, "SLOW sweep %llu/%llu %.1fs q %llu; %.1fs res %d\n", (unsigned long long)st_sweep_ok, (unsigned long long)st_sweep, st_sweeptime, (unsigned long long)st_sweep_q, now() - t0, res); for(auto e : sl) { fprintf(stderr, "  "); dump(stderr, e, 5); fprintf(stderr, "\n"); }
		std::unordered_set<uint64_t> seen; int left = 6; std::vector<E> st{c}; while(!st.empty()) { E e = st.back(); st.pop_back(); if(e->op == EQ && !e->b->isc()) difference(stderr, e->a, e->b, seen, left); else for(E x : {e->a, e->b}) if(x) st.push_back(x); } }
	if(res != UNKNOWN) g_cache[key] = {res, v};
	return res;
}
