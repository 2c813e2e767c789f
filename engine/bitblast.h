// Bit-blasting front end for PicoSAT (incremental, assumption based): the fast decision procedure for small queries.
// Everything it cannot encode cheaply, or does not decide within its propagation limit, goes to Z3.
#pragma once
#include "expr.h"
extern "C" {
#include <picosat/picosat.h>
}
#include <unordered_map>
#include <algorithm>
#include <iterator>
static PicoSAT *ps; static int ps_vars; static unsigned ps_gen = 0;
typedef std::vector<int> Bits;
static std::unordered_map<E, Bits> bb_cache;
static std::unordered_map<uint64_t, int> bb_gates;
static const int T = 1; // literal that is always true
static void bb_reset_forms();
static void ps_reset() { if(ps) picosat_reset(ps); ps = picosat_init(); ps_vars = 1; picosat_add(ps, 1); picosat_add(ps, 0); bb_cache.clear(); bb_gates.clear(); bb_reset_forms(); ps_gen++; }
static int fresh() { return ++ps_vars; }
static void cl(std::initializer_list<int> c) { for(int x : c) picosat_add(ps, x); picosat_add(ps, 0); }
static int g_and(int a, int b) {
	if(a == -T || b == -T || a == -b) return -T; if(a == T) return b; if(b == T || a == b) return a;
	if(a > b) std::swap(a, b);
	uint64_t k = ((uint64_t)(uint32_t)a << 32 | (uint32_t)b) * 2; auto it = bb_gates.find(k); if(it != bb_gates.end()) return it->second;
	int o = fresh(); cl({-o, a}); cl({-o, b}); cl({o, -a, -b}); bb_gates[k] = o; return o;
}
static int g_or(int a, int b) { return -g_and(-a, -b); }
// Exclusive-or gates are kept in a normal form over GF(2): every literal is known as the sum of a set of base literals,
// and equal sums get the same literal. Checksums and other linear code are decided by this rather than by search.
struct FHash { size_t operator()(const std::vector<int> &v) const { uint64_t h = v.size(); for(auto x : v) { h = (h ^ (uint32_t)x) * 0x9E3779B97F4A7C15ull; h ^= h >> 29; } return h; } };
static std::unordered_map<std::vector<int>, int, FHash> bb_forms; // sum of base literals -> literal
static std::unordered_map<int, std::vector<int>> bb_sum;          // literal -> its sum, if it is one
static const size_t FORM_MAX = 160;
static void bb_reset_forms() { bb_forms.clear(); bb_sum.clear(); }
static int g_xor(int a, int b) {
	if(a == T) return -b; if(a == -T) return b; if(b == T) return -a; if(b == -T) return a; if(a == b) return -T; if(a == -b) return T;
	bool neg = false; if(a < 0) { a = -a; neg = !neg; } if(b < 0) { b = -b; neg = !neg; } if(a > b) std::swap(a, b);
	uint64_t k = ((uint64_t)(uint32_t)a << 32 | (uint32_t)b) * 2 + 1; auto it = bb_gates.find(k); int o;
	if(it != bb_gates.end()) return neg ? -it->second : it->second;
	auto fa = bb_sum.find(a), fb = bb_sum.find(b); std::vector<int> x{a}, y{b}, f;
	if(fa != bb_sum.end()) x = fa->second; if(fb != bb_sum.end()) y = fb->second;
	std::set_symmetric_difference(x.begin(), x.end(), y.begin(), y.end(), std::back_inserter(f));
	if(f.empty()) o = -T; else if(f.size() == 1) o = f[0];
	else {
		auto g = f.size() <= FORM_MAX ? bb_forms.find(f) : bb_forms.end();
		if(g != bb_forms.end()) o = g->second;
		else { o = fresh(); cl({-o, a, b}); cl({-o, -a, -b}); cl({o, -a, b}); cl({o, a, -b}); if(f.size() <= FORM_MAX) { bb_forms[f] = o; bb_sum[o] = f; } }
	}
	bb_gates[k] = o;
	return neg ? -o : o;
}
static int g_mux(int c, int a, int b) {
	if(c == T) return a; if(c == -T) return b; if(a == b) return a; if(a == T) return g_or(c, b); if(a == -T) return g_and(-c, b); if(b == T) return g_or(-c, a); if(b == -T) return g_and(c, a); if(a == -b) return g_xor(c, b);
	int o = fresh(); cl({-c, -a, o}); cl({-c, a, -o}); cl({c, -b, o}); cl({c, b, -o}); cl({-a, -b, o}); cl({a, b, -o}); return o;
}
static int g_maj(int a, int b, int c) {
	if(a == T) return g_or(b, c); if(a == -T) return g_and(b, c); if(b == T) return g_or(a, c); if(b == -T) return g_and(a, c); if(c == T) return g_or(a, b); if(c == -T) return g_and(a, b);
	if(a == b) return a; if(a == c) return a; if(b == c) return b; if(a == -b) return c; if(a == -c) return b; if(b == -c) return a;
	int o = fresh(); cl({-a, -b, o}); cl({-a, -c, o}); cl({-b, -c, o}); cl({a, b, -o}); cl({a, c, -o}); cl({b, c, -o}); return o;
}
static Bits b_const(unsigned w, uint64_t v) { Bits r(w); for(unsigned i = 0; i < w; i++) r[i] = (i < 64 && (v >> i & 1)) ? T : -T; return r; }
static Bits b_add(const Bits &a, const Bits &b, int cin, int *cout = nullptr) { Bits r(a.size()); int c = cin; for(size_t i = 0; i < a.size(); i++) { r[i] = g_xor(g_xor(a[i], b[i]), c); if(i + 1 < a.size() || cout) c = g_maj(a[i], b[i], c); } if(cout) *cout = c; return r; }
static Bits b_not(Bits a) { for(auto &x : a) x = -x; return a; }
static Bits b_mux(int c, const Bits &a, const Bits &b) { Bits r(a.size()); for(size_t i = 0; i < a.size(); i++) r[i] = g_mux(c, a[i], b[i]); return r; }
static Bits b_neg(const Bits &a) { return b_add(b_not(a), b_const(a.size(), 0), T); }
static int b_ult(const Bits &a, const Bits &b) { int lt = -T; for(size_t i = 0; i < a.size(); i++) lt = g_maj(-a[i], b[i], lt); return lt; }
static int b_eq(const Bits &a, const Bits &b) { int r = T; for(size_t i = 0; i < a.size(); i++) { r = g_and(r, -g_xor(a[i], b[i])); } return r; }
static Bits b_mulc(const Bits &a, uint64_t k) { // modulo 2^w, non-adjacent form
	unsigned w = a.size(); Bits r = b_const(w, 0); unsigned sh = 0; bool first = true;
	while(k && sh < w) {
		if(k & 1) {
			int d = (k & 3) == 3 ? -1 : 1; Bits s(w, -T); for(unsigned i = sh; i < w; i++) s[i] = a[i - sh];
			if(d > 0) { r = first ? s : b_add(r, s, -T); k -= 1; } else { r = b_add(r, b_not(s), T); k += 1; if(!k) { break; } }
			first = false;
		}
		k >>= 1; sh++;
	}
	return r;
}
static Bits b_mul(const Bits &a, const Bits &b) { unsigned w = a.size(); Bits r = b_const(w, 0); for(unsigned i = 0; i < w; i++) { if(b[i] == -T) continue; Bits s(w, -T); for(unsigned j = i; j < w; j++) s[j] = g_and(a[j - i], b[i]); r = b_add(r, s, -T); } return r; }
// n = q*d + r, r < d, for constant d > 0: q and r are defined by clauses (total, unique)
static void b_udivc(const Bits &n, uint64_t d, Bits &q, Bits &r) {
	unsigned w = n.size(), db = 64 - __builtin_clzll(d), W = w + db;
	q.assign(w, -T); r.assign(w, -T);
	for(unsigned i = 0; i + (db - 1) < w; i++) q[i] = fresh(); // q < 2^(w-db+1)
	for(unsigned i = 0; i < db && i < w; i++) r[i] = fresh();
	Bits Q = q, R = r, N = n; Q.resize(W, -T); R.resize(W, -T); N.resize(W, -T);
	Bits s = b_add(b_mulc(Q, d), R, -T);
	for(unsigned i = 0; i < W; i++) { int e = -g_xor(s[i], N[i]); if(e == T) continue; cl({e}); }
	int lt = b_ult(R, b_const(W, d)); if(lt != T) cl({lt});
}
struct Hard {};
static const Bits &bb(E e) {
	auto it = bb_cache.find(e); if(it != bb_cache.end()) return it->second;
	unsigned w = e->w; Bits r;
	switch(e->op) {
	case CONST: r = b_const(w, e->k); break;
	case SYM: r.resize(w); for(auto &x : r) x = fresh(); break;
	case ADD: r = b_add(bb(e->a), bb(e->b), -T); break;
	case SUB: { Bits a = bb(e->a); r = b_add(a, b_not(bb(e->b)), T); break; }
	case MUL: { if(e->b->isc()) r = b_mulc(bb(e->a), e->b->k); else if(e->a->isc()) r = b_mulc(bb(e->b), e->a->k); else { uint64_t x = ub(e->a), y = ub(e->b); if(w > 16 && x > 0xfff && y > 0xfff) throw Hard(); Bits a = bb(e->a), b = bb(e->b); r = y <= x ? b_mul(a, b) : b_mul(b, a); } break; }
	case UDIV: case UREM: { if(!e->b->isc() || !e->b->k) throw Hard(); if(w + 64 - __builtin_clzll(e->b->k) > 100) throw Hard(); Bits n = bb(e->a), q, m; b_udivc(n, e->b->k, q, m);
		// cache both
		E qe = mk(UDIV, w, 0, e->a, e->b), re = mk(UREM, w, 0, e->a, e->b); bb_cache[qe] = q; bb_cache[re] = m; return bb_cache[e]; }
	case SDIV: case SREM: { if(!e->b->isc() || !e->b->k) throw Hard(); int64_t d = sx(e->b->k, w); uint64_t ad = d < 0 ? 0 - (uint64_t)d : d; ad &= mask(w); if(!ad || w + 64 - __builtin_clzll(ad) > 100) throw Hard(); Bits n = bb(e->a), q, m; int sg = n[w-1]; Bits an = b_mux(sg, b_neg(n), n); b_udivc(an, ad, q, m);
		int qs = d < 0 ? -sg : sg; Bits Q = b_mux(qs, b_neg(q), q), R = b_mux(sg, b_neg(m), m);
		E qe = mk(SDIV, w, 0, e->a, e->b), re = mk(SREM, w, 0, e->a, e->b); bb_cache[qe] = Q; bb_cache[re] = R; return bb_cache[e]; }
	case AND: case OR: case XOR: { Bits a = bb(e->a), b = bb(e->b); r.resize(w); for(unsigned i = 0; i < w; i++) r[i] = e->op == AND ? g_and(a[i], b[i]) : e->op == OR ? g_or(a[i], b[i]) : g_xor(a[i], b[i]); break; }
	case SHL: case LSHR: case ASHR: {
		r = bb(e->a); Bits s = bb(e->b); int fill = e->op == ASHR ? r[w-1] : -T; unsigned lg = 0; while((1u << lg) < w) lg++;
		for(unsigned k = 0; k < lg && k < s.size(); k++) { Bits t(w); for(unsigned i = 0; i < w; i++) { unsigned d = 1u << k; t[i] = e->op == SHL ? (i >= d ? r[i-d] : -T) : (i + d < w ? r[i+d] : fill); } r = b_mux(s[k], t, r); }
		int big = -T; for(unsigned k = lg; k < s.size(); k++) big = g_or(big, s[k]);
		if((1u << lg) != w) { Bits lo(s.begin(), s.begin() + std::min<size_t>(lg, s.size())); big = g_or(big, -b_ult(lo, b_const(lo.size(), w))); }
		r = b_mux(big, Bits(w, fill), r); break; }
	case EQ: { Bits a = bb(e->a); r = {b_eq(a, bb(e->b))}; break; }
	case ULT: { Bits a = bb(e->a); r = {b_ult(a, bb(e->b))}; break; }
	case SLT: { Bits a = bb(e->a), b = bb(e->b); a.back() = -a.back(); b.back() = -b.back(); r = {b_ult(a, b)}; break; }
	case ITE: { int c = bb(e->a)[0]; Bits a = bb(e->b); r = b_mux(c, a, bb(e->c)); break; }
	case CONCAT: { r = bb(e->b); const Bits &h = bb(e->a); r.insert(r.end(), h.begin(), h.end()); break; }
	case EXTRACT: { const Bits &a = bb(e->a); r.assign(a.begin() + e->k, a.begin() + e->k + w); break; }
	case ZEXT: r = bb(e->a); r.resize(w, -T); break;
	case SEXT: r = bb(e->a); r.resize(w, r.back()); break;
	default: throw Hard();
	}
	return bb_cache[e] = r;
}
