// Hash-consed bit-vector expressions (width 1..64) with local simplification.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <vector>
#include <unordered_set>
#include <unordered_map>
#include <algorithm>
#include <unistd.h>
#include <z3.h>

enum Op : uint8_t { CONST, SYM, ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, SHL, LSHR, ASHR,
	EQ, ULT, SLT, ITE, CONCAT, EXTRACT, ZEXT, SEXT };

typedef std::vector<uint32_t> SymSet;

struct Expr {
	Op op; uint8_t w; uint32_t id;
	uint64_t k;                 // CONST: value, SYM: symbol number, EXTRACT: low bit
	const Expr *a, *b, *c;
	const SymSet *syms;
	mutable Z3_ast z, zb;       // cached translations (bit-vector, boolean)
	mutable uint64_t mv; mutable uint32_t me;
	uint64_t ubv; uint8_t tzv;   // known upper bound (unsigned), known trailing zero bits
	bool isc() const { return op == CONST; }
	bool isc(uint64_t v) const { return op == CONST && k == v; }
};
typedef const Expr *E;

static inline uint64_t mask(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline int64_t sx(uint64_t v, unsigned w) { if(w >= 64) return (int64_t)v; return (int64_t)(v << (64 - w)) >> (64 - w); }

struct EHash { size_t operator()(const Expr *e) const {
	uint64_t h = e->op * 0x9E3779B97F4A7C15ull + e->w;
	h = (h ^ e->k) * 0xff51afd7ed558ccdull; h ^= h >> 31;
	h = (h ^ (uint64_t)e->a) * 0xc4ceb9fe1a85ec53ull; h ^= h >> 29;
	h = (h ^ (uint64_t)e->b) * 0x9E3779B97F4A7C15ull; h ^= h >> 32;
	h = (h ^ (uint64_t)e->c) * 0xff51afd7ed558ccdull; h ^= h >> 30;
	return h; } };
struct EEq { bool operator()(const Expr *x, const Expr *y) const {
	return x->op == y->op && x->w == y->w && x->k == y->k && x->a == y->a && x->b == y->b && x->c == y->c; } };

static std::unordered_set<Expr*, EHash, EEq> g_exprs;
static uint32_t g_next_id = 1;
static const SymSet g_empty;

static const SymSet *sym_union(const SymSet *x, const SymSet *y) {
	if(x == y || y->empty()) return x;
	if(x->empty()) return y;
	if(std::includes(x->begin(), x->end(), y->begin(), y->end())) return x;
	if(std::includes(y->begin(), y->end(), x->begin(), x->end())) return y;
	auto *r = new SymSet();
	std::set_union(x->begin(), x->end(), y->begin(), y->end(), std::back_inserter(*r));
	return r;
}

static inline uint64_t mask(unsigned w);
static inline uint64_t ub(E e) { return e->ubv; }
static inline unsigned tz(E e) { return e->tzv; }
// known upper bound (unsigned)
static uint64_t ub1(E e) {
	uint64_t m = mask(e->w);
	if(e->op == CONST) return e->k;
	switch(e->op) {
	case ZEXT: return ub(e->a);
	case AND: return std::min(ub(e->a), ub(e->b));
	case UREM: if(e->b->isc() && e->b->k) return std::min(e->b->k - 1, ub(e->a)); return ub(e->a);
	case UDIV: if(e->b->isc() && e->b->k) return ub(e->a) / e->b->k; return m;
	case ADD: { uint64_t x = ub(e->a), y = ub(e->b); if(x + y >= x && x + y <= m) return x + y; return m; }
	case MUL: { uint64_t x = ub(e->a), y = ub(e->b); if(!x || !y) return 0; if(x <= m / y) return x * y; return m; }
	case ITE: return std::max(ub(e->b), ub(e->c));
	case CONCAT: return (ub(e->a) << e->b->w) | ub(e->b);
	case OR: case XOR: { uint64_t x = ub(e->a) | ub(e->b); x |= x>>1; x |= x>>2; x |= x>>4; x |= x>>8; x |= x>>16; x |= x>>32; return x & m; }
	default: return m;
	}
}
static unsigned tz1(E e) {
	if(e->op == CONST) return e->k ? __builtin_ctzll(e->k) : e->w;
	switch(e->op) {
	case ZEXT: case SEXT: { unsigned t = tz(e->a); return t == e->a->w ? e->w : t; }
	case ADD: case OR: case XOR: case SUB: return std::min(tz(e->a), tz(e->b));
	case AND: return std::max(tz(e->a), tz(e->b));
	case MUL: return std::min<unsigned>(e->w, tz(e->a) + tz(e->b));
	case ITE: return std::min(tz(e->b), tz(e->c));
	case CONCAT: { unsigned t = tz(e->b); return t < e->b->w ? t : e->b->w + tz(e->a); }
	default: return 0;
	}
}

static E mk(Op op, unsigned w, uint64_t k, E a = nullptr, E b = nullptr, E c = nullptr) {
	Expr t; memset(&t, 0, sizeof t);
	t.op = op; t.w = w; t.k = k; t.a = a; t.b = b; t.c = c;
	auto it = g_exprs.find(&t);
	if(it != g_exprs.end()) return *it;
	Expr *n = new Expr(t);
	n->id = g_next_id++;
	const SymSet *s = &g_empty;
	if(op == SYM) { auto *q = new SymSet(); q->push_back((uint32_t)k); s = q; }
	else { if(a) s = a->syms; if(b) s = sym_union(s, b->syms); if(c) s = sym_union(s, c->syms); }
	n->syms = s;
	n->ubv = ub1(n); n->tzv = tz1(n);
	g_exprs.insert(n);
	return n;
}

static E C(unsigned w, uint64_t v) { return mk(CONST, w, v & mask(w)); }
static E e_true() { static E t = C(1, 1); return t; }
static E e_false() { static E t = C(1, 0); return t; }

static E zext(E a, unsigned w); static E sext(E a, unsigned w); static E extract(E a, unsigned lo, unsigned w);
static E concat(E h, E l); static E ite(E c, E a, E b); static E eq(E a, E b); static E e_and(E a, E b); static E e_or(E a, E b);
static E e_xor(E a, E b); static E ult(E a, E b); static E slt(E a, E b); static E add(E a, E b); static E sub(E a, E b);
static E mul(E a, E b); static E e_not(E a) { return e_xor(a, C(a->w, ~0ull)); }

static uint64_t foldbin(Op op, unsigned w, uint64_t x, uint64_t y) {
	switch(op) {
	case ADD: return x + y; case SUB: return x - y; case MUL: return x * y;
	case UDIV: return y ? x / y : mask(w);
	case UREM: return y ? x % y : x;
	case SDIV: { int64_t p = sx(x,w), q = sx(y,w); if(!q) return p < 0 ? 1 : ~0ull; if(q == -1) return (uint64_t)0 - (uint64_t)p; return p / q; }
	case SREM: { int64_t p = sx(x,w), q = sx(y,w); if(!q) return p; if(q == -1) return 0; return p % q; }
	case AND: return x & y; case OR: return x | y; case XOR: return x ^ y;
	case SHL: return y >= w ? 0 : x << y;
	case LSHR: return y >= w ? 0 : x >> y;
	case ASHR: return y >= w ? (uint64_t)(sx(x,w) < 0 ? -1 : 0) : (uint64_t)(sx(x,w) >> y);
	case EQ: return x == y; case ULT: return x < y; case SLT: return sx(x,w) < sx(y,w);
	default: abort();
	}
}


// ---- linear forms: e == sum(coef * value(atom)) + k  (mod 2^w); value of a SEXT atom is signed, of any other unsigned
typedef __int128 I128;
struct Lin { std::vector<std::pair<E,uint64_t>> t; uint64_t k = 0; bool ok = true; };
static std::unordered_map<E, Lin*> g_lin;
static unsigned LINMAX = 40; // longer sums are opaque
static void linacc(Lin &r, const Lin &x, uint64_t f, unsigned w) {
	r.k = (r.k + x.k * f) & mask(w); std::vector<std::pair<E,uint64_t>> o; size_t i = 0, j = 0;
	while(i < r.t.size() || j < x.t.size()) {
		if(j == x.t.size() || (i < r.t.size() && r.t[i].first->id < x.t[j].first->id)) o.push_back(r.t[i++]);
		else if(i == r.t.size() || x.t[j].first->id < r.t[i].first->id) { uint64_t c = (x.t[j].second * f) & mask(w); if(c) o.push_back({x.t[j].first, c}); j++; }
		else { uint64_t c = (r.t[i].second + x.t[j].second * f) & mask(w); if(c) o.push_back({r.t[i].first, c}); i++; j++; }
	}
	r.t.swap(o); if(!x.ok || r.t.size() > LINMAX) r.ok = false;
}
static bool linop(E e) { return e->op == ADD || e->op == SUB || (e->op == MUL && e->b->isc()); }
static void atomrange(E a, I128 &lo, I128 &hi) { if(a->op == SEXT) { hi = (I128)(1ull << (a->a->w - 1)) - 1; lo = -hi - 1; } else { lo = 0; hi = ub(a); } }
static void linrange(const Lin &l, unsigned w, I128 &lo, I128 &hi) { // integer range of the form with signed coefficients
	lo = hi = sx(l.k, w);
	for(auto &p : l.t) { I128 al, ah, c = sx(p.second, w); atomrange(p.first, al, ah); if(ah > ((I128)1 << 62) || al < -((I128)1 << 62)) { if(c > 1 || c < -1) { lo = -((I128)1 << 120); hi = (I128)1 << 120; return; } } if(c >= 0) { lo += c * al; hi += c * ah; } else { lo += c * ah; hi += c * al; } }
}
static bool linrangeu(const Lin &l, unsigned w, I128 &lo, I128 &hi) { // the same with unsigned coefficients
	I128 h = l.k; for(auto &p : l.t) { if(p.first->op == SEXT) return false; h += (I128)p.second * ub(p.first); if(h > (I128)mask(w)) return false; } lo = l.k; hi = h; return true; }
static E widen(E a, unsigned W) { return a->op == SEXT ? sext(a->a, W) : zext(a, W); }
static Lin lin(E e, int d = 48);
static bool bigsum(E e) { auto it = g_lin.find(e); return it != g_lin.end() && it->second->t.size() > 40; } // nothing but its identity is of use
static Lin lin_(E e, int d) {
	unsigned w = e->w; Lin r;
	auto atom = [&]() { Lin q; q.t.push_back({e, 1}); return q; };
	if(e->isc()) { r.k = e->k; return r; }
	if(!d) return atom();
	switch(e->op) {
	case ADD: r = lin(e->a, d-1); linacc(r, lin(e->b, d-1), 1, w); break;
	case SUB: r = lin(e->a, d-1); linacc(r, lin(e->b, d-1), ~0ull, w); break;
	case MUL: if(!e->b->isc()) return atom(); linacc(r, lin(e->a, d-1), e->b->k, w); break;
	case XOR: if(!e->b->isc(mask(w))) return atom(); r.k = mask(w); linacc(r, lin(e->a, d-1), ~0ull, w); break;
	case CONCAT:
		if(e->b->isc()) { // exact: what overflows the upper part overflows the whole
			unsigned lw = e->b->w; Lin q = lin(e->a, d-1); if(!q.ok) return atom();
			for(auto &p : q.t) { E x = p.first->op == EXTRACT && p.first->k == 0 && p.first->a->w == w ? p.first->a : widen(p.first, w); linacc(r, lin(x, d-1), (p.second << lw) & mask(w), w); }
			r.k = (r.k + (q.k << lw) + e->b->k) & mask(w); break; }
		if(e->a->isc() && ((e->a->k << e->b->w) & mask(w))) { linacc(r, lin(zext(e->b, w), d-1), 1, w); r.k = (r.k + (e->a->k << e->b->w)) & mask(w); break; }
		return atom();
	case ZEXT: case SEXT: {
		if(!linop(e->a) && e->a->op != CONCAT) return atom();
		Lin q = lin(e->a, d-1); if(!q.ok || q.t.empty()) return atom();
		if(q.t.size() == 1 && q.t[0].first == e->a) return atom();
		I128 lo, hi; linrange(q, e->a->w, lo, hi); I128 top = (I128)1 << (e->a->w - 1);
		if(e->op == ZEXT && (lo < 0 || hi >= 2 * top) && linrangeu(q, e->a->w, lo, hi)) {
			for(auto &p : q.t) { Lin a; a.t.push_back({widen(p.first, w), 1}); linacc(r, a, p.second, w); }
			r.k = (r.k + q.k) & mask(w); break; }
		if(e->op == ZEXT) { // the form may use a coefficient set that is non-negative
			if(lo < 0 || hi >= 2 * top) return atom();
		} else if(lo < -top || hi >= top) return atom();
		for(auto &p : q.t) { Lin a; E x = widen(p.first, w); a.t.push_back({x, 1}); linacc(r, a, (uint64_t)sx(p.second, e->a->w), w); }
		r.k = (r.k + (uint64_t)sx(q.k, e->a->w)) & mask(w);
		break; }
	case EXTRACT: {
		if(e->k || bigsum(e->a) || !(linop(e->a) || (e->a->op == CONCAT && e->a->b->isc(0)))) return atom();
		Lin q = lin(e->a, d-1); if(!q.ok) return atom();
		for(auto &p : q.t) { E x = extract(p.first, 0, w); linacc(r, lin(x, d-1), p.second, w); }
		r.k = (r.k + q.k) & mask(w); break; }
	default: return atom();
	}
	return r.ok ? r : atom();
}
static Lin lin(E e, int d) {
	if(d < 40) return lin_(e, d); // memoise near the top only
	auto it = g_lin.find(e); if(it != g_lin.end()) return *it->second;
	Lin r = lin_(e, d); g_lin[e] = new Lin(r); return r;
}
static E unlin(const Lin &l, unsigned w) { E r = C(w, 0); for(auto &p : l.t) { E x = mul(p.first, C(w, p.second)); r = r->isc(0) ? x : mk(ADD, w, 0, r, x); } return add(r, C(w, l.k)); }
// sign of a linear form with small range: returns a boolean term for "e (signed) < 0", or null
static E allzero(const Lin &l) { E r = e_true(); for(auto &p : l.t) r = e_and(r, eq(p.first, C(p.first->w, 0))); return r; }
static E linneg(E e) {
	if(!linop(e) || bigsum(e)) return nullptr;
	Lin l = lin(e); if(!l.ok) return nullptr; I128 lo, hi, top = (I128)1 << (e->w - 1); linrange(l, e->w, lo, hi);
	if(lo < -top || hi >= top) return nullptr;
	if(lo >= 0) return e_false(); if(hi < 0) return e_true();
	if(hi == 0 && l.k == 0) { for(auto &p : l.t) if(p.first->op == SEXT) return nullptr; return e_not(allzero(l)); }
	return nullptr;
}
// split by a divisor: l == c*q + r with 0 <= r < c and no overflow
static bool linsplit(E a, uint64_t c, Lin &q, Lin &r) {
	if(!linop(a) && a->op != ZEXT && a->op != CONCAT && a->op != EXTRACT) return false;
	unsigned w = a->w; if(bigsum(a)) return false; Lin l = lin(a); if(!l.ok) return false;
	for(auto &p : l.t) if(p.first->op == SEXT) return false;
	// coefficients as unsigned integers
	I128 hi = l.k, rh; for(auto &p : l.t) { I128 u = ub(p.first); hi += (I128)p.second * u; if(hi > (I128)mask(w)) return false; }
	q = Lin(); r = Lin(); q.k = l.k / c; r.k = l.k % c; rh = r.k;
	for(auto &p : l.t) { uint64_t m = p.second / c, n = p.second % c; if(m) q.t.push_back({p.first, m}); if(n) { r.t.push_back({p.first, n}); rh += (I128)n * ub(p.first); } }
	return rh < (I128)c && (!q.t.empty() || q.k || l.t.empty());
}

static E zext(E a, unsigned w) {
	if(a->w == w) return a;
	if(a->isc()) return C(w, a->k);
	if(a->op == ZEXT) return mk(ZEXT, w, 0, a->a);
	return mk(ZEXT, w, 0, a);
}
static E sext(E a, unsigned w) {
	if(a->w == w) return a;
	if(a->isc()) return C(w, (uint64_t)sx(a->k, a->w));
	if(a->op == ZEXT) return zext(a, w);
	if(a->op == SEXT) return mk(SEXT, w, 0, a->a);
	if(ub(a) < (1ull << (a->w - 1))) return zext(a, w);
	if(linop(a)) { E n = linneg(a); if(n && n->isc(0)) return zext(a, w); }
	return mk(SEXT, w, 0, a);
}
static E extract(E a, unsigned lo, unsigned w) {
	if(lo == 0 && w == a->w) return a;
	if(a->isc()) return C(w, a->k >> lo);
	switch(a->op) {
	case EXTRACT: return extract(a->a, lo + a->k, w);
	case CONCAT: {
		unsigned lw = a->b->w;
		if(lo >= lw) return extract(a->a, lo - lw, w);
		if(lo + w <= lw) return extract(a->b, lo, w);
		return concat(extract(a->a, 0, lo + w - lw), extract(a->b, lo, lw - lo)); }
	case ZEXT: {
		unsigned iw = a->a->w;
		if(lo >= iw) return C(w, 0);
		if(lo + w <= iw) return extract(a->a, lo, w);
		return zext(extract(a->a, lo, iw - lo), w); }
	case SEXT: {
		unsigned iw = a->a->w;
		if(lo + w <= iw) return extract(a->a, lo, w);
		if(lo < iw) return sext(extract(a->a, lo, iw - lo), w);
		return sext(extract(a->a, iw - 1, 1), w); }
	case ITE:
		if(a->b->isc() || a->c->isc()) return ite(a->a, extract(a->b, lo, w), extract(a->c, lo, w));
		break;
	case AND: case OR: case XOR:
		if(a->b->isc() || a->a->op == CONCAT || a->b->op == CONCAT || a->a->op == ZEXT || a->b->op == ZEXT) {
			E x = extract(a->a, lo, w), y = extract(a->b, lo, w);
			return a->op == AND ? e_and(x, y) : a->op == OR ? e_or(x, y) : e_xor(x, y);
		}
		break;
	case ADD: case SUB: case MUL:
		if(w == 1 && lo == a->w - 1u) if(E n = linneg(a)) return n;
		if(!lo && !bigsum(a)) { Lin l = lin(a); if(l.t.size() > 1) { I128 mn, mx; linrange(l, a->w, mn, mx); if((mn >= 0 && mx < ((I128)1 << w)) || (mn >= -((I128)1 << (w - 1)) && mx < ((I128)1 << (w - 1)))) { Lin n; n.k = l.k; for(auto &p : l.t) { Lin x = lin(extract(p.first, 0, w)); linacc(n, x, p.second, w); } if(n.ok) return unlin(n, w); } } }
		if(lo && lo < 62 && !bigsum(a)) { Lin l = lin(a); I128 mn, mx; linrange(l, a->w, mn, mx); if(mn >= 0 && mx < ((I128)1 << lo)) return C(w, 0); }
		if(lo == 0 && (a->a->isc() || a->a->op == ZEXT || a->a->op == SEXT || a->b->isc()) && (a->b->isc() || a->b->op == ZEXT || a->b->op == SEXT)) {
			E x = extract(a->a, 0, w), y = extract(a->b, 0, w);
			return a->op == ADD ? add(x, y) : a->op == SUB ? sub(x, y) : mul(x, y);
		}
		break;
	default: break;
	}
	return mk(EXTRACT, w, lo, a);
}
static E concat(E h, E l) {
	unsigned w = h->w + l->w;
	if(w > 64) { fprintf(stderr, "concat too wide\n"); abort(); }
	if(h->isc() && l->isc()) return C(w, (h->k << l->w) | l->k);
	if(h->isc(0)) return zext(l, w);
	if(h->op == CONCAT) return concat(h->a, concat(h->b, l));
	if(h->op == ZEXT) return zext(concat(h->a, l), w);
	auto adj = [](E x, E y) -> E { // x above y, contiguous parts of one expression
		E bx = x->op == EXTRACT ? x->a : x, by = y->op == EXTRACT ? y->a : y;
		uint64_t lx = x->op == EXTRACT ? x->k : 0, ly = y->op == EXTRACT ? y->k : 0;
		if(bx == by && lx == ly + y->w) return extract(bx, ly, x->w + y->w);
		return nullptr; };
	if(E m = adj(h, l)) return m;
	if(h->op == EXTRACT && h->k >= l->w && linop(h->a) && extract(h->a, h->k - l->w, l->w) == l) return extract(h->a, h->k - l->w, w);
	if(l->op == CONCAT) {
		if(E m = adj(h, l->a)) return concat(m, l->b);
		if(h->op == EXTRACT && h->k >= l->a->w && linop(h->a) && extract(h->a, h->k - l->a->w, l->a->w) == l->a) return concat(extract(h->a, h->k - l->a->w, h->w + l->a->w), l->b);
		if(h->isc() && l->a->isc()) return concat(C(h->w + l->a->w, (h->k << l->a->w) | l->a->k), l->b);
	}
	return mk(CONCAT, w, 0, h, l);
}

// combine two values whose set bits are disjoint segment-wise: a|b == a+b == a^b == concat of the non-zero parts
static void segs(E e, std::vector<E> &out, int d = 16) { // high to low
	if(e->op == CONCAT && d) { segs(e->a, out, d-1); segs(e->b, out, d-1); return; }
	if(e->op == ZEXT && d) { out.push_back(C(e->w - e->a->w, 0)); segs(e->a, out, d-1); return; }
	out.push_back(e);
}
static E try_disjoint(E a, E b) {
	auto cand = [](E e) { return e->op == CONCAT || e->op == ZEXT; };
	if(!(cand(a) && (cand(b) || b->isc())) && !(a->isc() && cand(b))) return nullptr;
	std::vector<E> A, B, R; segs(a, A); segs(b, B);
	size_t i = 0, j = 0; E x = nullptr, y = nullptr;
	for(;;) {
		if(!x) { if(i == A.size()) break; x = A[i++]; }
		if(!y) { if(j == B.size()) break; y = B[j++]; }
		unsigned n = std::min(x->w, y->w);
		E px = x->w == n ? x : extract(x, x->w - n, n), py = y->w == n ? y : extract(y, y->w - n, n);
		if(px->isc(0)) R.push_back(py); else if(py->isc(0)) R.push_back(px); else return nullptr;
		x = x->w == n ? nullptr : extract(x, 0, x->w - n);
		y = y->w == n ? nullptr : extract(y, 0, y->w - n);
	}
	E r = R.back();
	for(int q = (int)R.size() - 2; q >= 0; q--) r = concat(R[q], r);
	return r;
}

// sums: terms with the same linear form are represented by one of them
struct LinKey { unsigned w; uint64_t k; std::vector<std::pair<E,uint64_t>> t; bool operator==(const LinKey &o) const { return w == o.w && k == o.k && t == o.t; } };
struct LinHash { size_t operator()(const LinKey &k) const { uint64_t h = k.k + k.w; for(auto &p : k.t) { h = (h ^ (uint64_t)p.first) * 0x9E3779B97F4A7C15ull + p.second; h ^= h >> 29; } return h; } };
static std::unordered_map<LinKey, E, LinHash> g_sum; static std::unordered_set<E> g_summed;
static E sumrep(E e) {
	if(!linop(e) || g_summed.count(e)) return e;
	Lin l = lin(e); if(!l.ok) return e;
	if(l.t.empty()) return C(e->w, l.k);
	if(l.t.size() == 1 && !l.k && l.t[0].second == 1) return l.t[0].first;
	if(l.t.size() < 2) return e;
	LinKey key{e->w, l.k, l.t}; auto r = g_sum.emplace(std::move(key), e); if(!r.second) return r.first->second;
	g_summed.insert(e); return e;
}
static E add(E a, E b) {
	unsigned w = a->w;
	if(a->isc() && b->isc()) return C(w, a->k + b->k);
	if(a->isc()) std::swap(a, b);
	if(b->isc(0)) return a;
	if(w == 1) return e_xor(a, b);
	if(b->isc(1) && w > 1 && a->op == XOR && a->b->isc(mask(w))) return sub(C(w, 0), a->a);
	if(b->isc() && a->op == ADD && a->b->isc()) return add(a->a, C(w, a->b->k + b->k));
	if(b->isc() && a->op == ITE && a->b->isc() && a->c->isc()) return ite(a->a, add(a->b, b), add(a->c, b));
	if(b->isc() && a->op == CONCAT && a->b->isc() && a->a->w > 1) { unsigned lw = a->b->w; uint64_t lo = a->b->k + (b->k & mask(lw)); return concat(add(a->a, C(a->a->w, (b->k >> lw) + (lo >> lw))), C(lw, lo)); }
	if(!b->isc()) {
		if(a->op == ADD && a->b->isc()) return add(add(a->a, b), a->b);
		if(b->op == ADD && b->b->isc()) return add(add(a, b->a), b->b);
		if(a->op == SUB && a->b == b) return a->a;
		if(b->op == SUB && b->b == a) return b->a;
	}
	if(E r = try_disjoint(a, b)) return r;
	if(!b->isc() && a->id > b->id) std::swap(a, b);
	return sumrep(mk(ADD, w, 0, a, b));
}
static E sub(E a, E b) {
	unsigned w = a->w;
	if(a == b) return C(w, 0);
	if(b->isc()) return add(a, C(w, 0 - b->k));
	if(a->isc(0) && b->op == SUB) return sub(b->b, b->a);
	if(a->isc() && b->isc()) return C(w, a->k - b->k);
	if(a->op == ADD) { if(a->a == b) return a->b; if(a->b == b) return a->a; if(a->b->isc()) return add(sub(a->a, b), a->b); }
	if(b->op == ADD && b->b->isc()) return add(sub(a, b->a), C(w, 0 - b->b->k));
	if(b->op == ADD) { if(b->a == a) return sub(C(w, 0), b->b); if(b->b == a) return sub(C(w, 0), b->a); }
	return sumrep(mk(SUB, w, 0, a, b));
}
static E shl(E a, E b); static E lshr(E a, E b);
static E mul(E a, E b) {
	unsigned w = a->w;
	if(a->isc() && b->isc()) return C(w, a->k * b->k);
	if(a->isc()) std::swap(a, b);
	if(b->isc(0)) return b;
	if(b->isc(1)) return a;
	if(b->isc() && !(b->k & (b->k - 1))) return shl(a, C(w, __builtin_ctzll(b->k)));
	if(b->isc() && a->op == MUL && a->b->isc()) return mul(a->a, C(w, a->b->k * b->k));
	if(b->isc() && a->op == ADD && a->b->isc()) return add(mul(a->a, b), C(w, a->b->k * b->k));
	if(b->isc() && a->op == ZEXT && a->a->w <= 32 && b->k <= 0xffffffffu) {
		// narrow when no overflow is possible
		uint64_t m = ub(a) * b->k; if(ub(a) && m / ub(a) == b->k) { unsigned n = 64 - __builtin_clzll(m | 1); if(n < a->a->w) n = a->a->w; if(n < w) return zext(mk(MUL, n, 0, zext(a->a, n), C(n, b->k)), w); }
	}
	if(!b->isc() && a->id > b->id) std::swap(a, b);
	return mk(MUL, w, 0, a, b);
}
static E udivrem(Op op, E a, E b) {
	unsigned w = a->w;
	if(a->isc() && b->isc() && b->k) return C(w, foldbin(op, w, a->k, b->k));
	if(b->isc() && b->k) {
		if(b->k == 1) return op == UDIV ? a : C(w, 0);
		if(!(b->k & (b->k - 1))) { unsigned n = __builtin_ctzll(b->k); return op == UDIV ? lshr(a, C(w, n)) : zext(extract(a, 0, n), w); }
		uint64_t u = ub(a);
		if(u < b->k) return op == UDIV ? C(w, 0) : a;
		{ Lin q, r; if(linsplit(a, b->k, q, r)) return unlin(op == UDIV ? q : r, w); }
		unsigned n = 64 - __builtin_clzll(u);
		if(n < w) return zext(mk(op, n, 0, extract(a, 0, n), C(n, b->k)), w);
	}
	return mk(op, w, 0, a, b);
}
static E sdivrem(Op op, E a, E b) {
	unsigned w = a->w;
	if(a->isc() && b->isc() && b->k) return C(w, foldbin(op, w, a->k, b->k));
	if(b->isc() && sx(b->k, w) > 0) { E ng = linneg(a); if(ng && ng->isc(0)) return udivrem(op == SDIV ? UDIV : UREM, a, b); }
	if(b->isc() && sx(b->k, w) > 0 && ub(a) < (1ull << (w - 1))) return udivrem(op == SDIV ? UDIV : UREM, a, b);
	return mk(op, w, 0, a, b);
}
// bitwise functions of up to 4 operands (constants folded): terms with the same truth table in every bit over the same operands are represented by one of them
struct Cone { unsigned n; E l[4]; uint64_t t[16]; // t[v]: the result bits for operand bits v
	bool operator==(const Cone &o) const { return n == o.n && !memcmp(l, o.l, n * sizeof *l) && !memcmp(t, o.t, (8u << n)); } };
struct ConeHash { size_t operator()(const Cone &k) const { uint64_t h = k.n; for(unsigned i = 0; i < k.n; i++) h = (h ^ (uint64_t)k.l[i]) * 0x9E3779B97F4A7C15ull, h ^= h >> 29; for(unsigned i = 0; i < 1u << k.n; i++) h = (h ^ k.t[i]) * 0xff51afd7ed558ccdull, h ^= h >> 31; return h; } };
static std::unordered_map<E, Cone*> g_cone; static std::unordered_map<Cone, E, ConeHash> g_tt;
static void cone1(E e, Cone &c) { if(e->isc()) { c.n = 0; c.t[0] = e->k; } else { c.n = 1; c.l[0] = e; c.t[0] = 0; c.t[1] = mask(e->w); } }
static E bitop(Op op, E a, E b) {
	unsigned w = a->w; if(w == 1) return mk(op, w, 0, a, b);
	Expr t; memset(&t, 0, sizeof t); t.op = op; t.w = w; t.a = a; t.b = b; { auto it = g_exprs.find(&t); if(it != g_exprs.end() && g_cone.count(*it)) return *it; }
	auto ia = g_cone.find(a), ib = g_cone.find(b); Cone ta, tb, r; cone1(a, ta); cone1(b, tb); r.n = 0;
	for(int k = 0; k < 4; k++) {
		const Cone &x = k & 1 || ia == g_cone.end() ? ta : *ia->second, &y = k & 2 || ib == g_cone.end() ? tb : *ib->second; E u[8]; unsigned n = 0, i = 0, j = 0, px[4], py[4];
		while(i < x.n || j < y.n) { if(j == y.n || (i < x.n && x.l[i]->id < y.l[j]->id)) { px[i] = n; u[n++] = x.l[i++]; } else if(i == x.n || y.l[j]->id < x.l[i]->id) { py[j] = n; u[n++] = y.l[j++]; } else { px[i] = py[j] = n; u[n++] = x.l[i++]; j++; } }
		if(n > 4) continue;
		uint64_t tt[16];
		for(unsigned v = 0; v < 1u << n; v++) { unsigned vx = 0, vy = 0; for(i = 0; i < x.n; i++) vx |= (v >> px[i] & 1) << i; for(i = 0; i < y.n; i++) vy |= (v >> py[i] & 1) << i;
			tt[v] = op == AND ? x.t[vx] & y.t[vy] : op == OR ? x.t[vx] | y.t[vy] : x.t[vx] ^ y.t[vy]; }
		unsigned m = 0, dep[4]; for(i = 0; i < n; i++) { bool d = false; for(unsigned v = 0; v < 1u << n; v++) if(!(v >> i & 1) && tt[v] != tt[v | 1u << i]) d = true; if(d) { dep[m] = i; r.l[m++] = u[i]; } }
		for(unsigned v = 0; v < 1u << m; v++) { unsigned z = 0; for(i = 0; i < m; i++) z |= (v >> i & 1) << dep[i]; r.t[v] = tt[z]; }
		r.n = m; break;
	}
	if(r.n == 0) return C(w, r.t[0]);
	if(r.n == 1 && r.t[0] == 0 && r.t[1] == mask(w)) return r.l[0];
	auto it = g_tt.find(r); if(it != g_tt.end()) return it->second;
	E e = mk(op, w, 0, a, b); g_tt[r] = e; g_cone[e] = new Cone(r); return e;
}
static E e_and(E a, E b) {
	unsigned w = a->w;
	if(a == b) return a;
	if(a->isc() && b->isc()) return C(w, a->k & b->k);
	if(a->isc()) std::swap(a, b);
	if(b->isc(0)) return b;
	if(b->isc(mask(w))) return a;
	if(b->isc()) {
		if(a->op == ZEXT) return zext(e_and(a->a, C(a->a->w, b->k)), w);
		if(a->op == AND && a->b->isc()) return e_and(a->a, C(w, a->b->k & b->k));
		if(a->op == CONCAT) return concat(e_and(a->a, C(a->a->w, b->k >> a->b->w)), e_and(a->b, C(a->b->w, b->k)));
		if(a->op == ITE && a->b->isc() && a->c->isc()) return ite(a->a, e_and(a->b, b), e_and(a->c, b));
		// contiguous mask
		uint64_t m = b->k; unsigned lo = __builtin_ctzll(m); uint64_t q = m >> lo;
		if(!(q & (q + 1)) && w > 1) { unsigned n = __builtin_popcountll(q); E x = zext(extract(a, lo, n), w - lo); return lo ? concat(x, C(lo, 0)) : x; }
	}
	if(w == 1) { if((a->op == XOR && a->b->isc() && a->a == b) || (b->op == XOR && b->b->isc() && b->a == a)) return e_false();
		if(a->op == AND && (a->a == b || a->b == b)) return a;
		if(b->op == AND && (b->a == a || b->b == a)) return b; }
	if(!b->isc() && a->id > b->id) std::swap(a, b);
	if(a->op == ZEXT && b->op == ZEXT) { unsigned m = std::max(a->a->w, b->a->w); if(m < w) return zext(e_and(zext(a->a, m), zext(b->a, m)), w); }
	return bitop(AND, a, b);
}
static E e_or(E a, E b) {
	unsigned w = a->w;
	if(a == b) return a;
	if(a->isc() && b->isc()) return C(w, a->k | b->k);
	if(a->isc()) std::swap(a, b);
	if(b->isc(0)) return a;
	if(b->isc(mask(w))) return b;
	if(w == 1) { if((a->op == XOR && a->b->isc() && a->a == b) || (b->op == XOR && b->b->isc() && b->a == a)) return e_true();
		if(a->op == OR && (a->a == b || a->b == b)) return a;
		if(b->op == OR && (b->a == a || b->b == a)) return b; }
	if(E r = try_disjoint(a, b)) return r;
	if(!b->isc() && a->id > b->id) std::swap(a, b);
	if(a->op == ZEXT && b->op == ZEXT) { unsigned m = std::max(a->a->w, b->a->w); if(m < w) return zext(e_or(zext(a->a, m), zext(b->a, m)), w); }
	return bitop(OR, a, b);
}
static E e_xor(E a, E b) {
	unsigned w = a->w;
	if(a == b) return C(w, 0);
	if(a->isc() && b->isc()) return C(w, a->k ^ b->k);
	if(a->isc()) std::swap(a, b);
	if(b->isc(0)) return a;
	if(b->isc() && a->op == XOR && a->b->isc()) return e_xor(a->a, C(w, a->b->k ^ b->k));
	if(b->isc() && a->op == ITE && a->b->isc() && a->c->isc()) return ite(a->a, e_xor(a->b, b), e_xor(a->c, b));
	if(!b->isc()) {
		if(a->op == XOR) { if(a->a == b) return a->b; if(a->b == b) return a->a; }
		if(b->op == XOR) { if(b->a == a) return b->b; if(b->b == a) return b->a; }
		if(a->op == XOR && a->b->isc()) return e_xor(e_xor(a->a, b), a->b);
		if(b->op == XOR && b->b->isc()) return e_xor(e_xor(a, b->a), b->b);
	}
	if(E r = try_disjoint(a, b)) return r;
	if(!b->isc() && a->id > b->id) std::swap(a, b);
	if(a->op == ZEXT && b->op == ZEXT) { unsigned m = std::max(a->a->w, b->a->w); if(m < w) return zext(e_xor(zext(a->a, m), zext(b->a, m)), w); }
	return bitop(XOR, a, b);
}
static E shl(E a, E b) {
	unsigned w = a->w;
	if(b->isc()) { uint64_t n = b->k; if(n == 0) return a; if(n >= w) return C(w, 0); return concat(extract(a, 0, w - n), C(n, 0)); }
	return mk(SHL, w, 0, a, b);
}
static E lshr(E a, E b) {
	unsigned w = a->w;
	if(b->isc()) { uint64_t n = b->k; if(n == 0) return a; if(n >= w) return C(w, 0); return zext(extract(a, n, w - n), w); }
	return mk(LSHR, w, 0, a, b);
}
static E ashr(E a, E b) {
	unsigned w = a->w;
	if(b->isc()) { uint64_t n = b->k; if(n == 0) return a; if(n >= w) n = w - 1; return sext(extract(a, n, w - n), w); }
	return mk(ASHR, w, 0, a, b);
}
static E eq(E a, E b) {
	unsigned w = a->w;
	if(a == b) return e_true();
	if(a->isc() && b->isc()) return C(1, a->k == b->k);
	if(a->isc()) std::swap(a, b);
	if(w == 1) return e_not(e_xor(a, b));
	if(b->isc()) {
		uint64_t k = b->k;
		if(linop(a) && !bigsum(a)) { Lin l = lin(a); if(l.ok && l.t.size() > 1) for(int u = 0; u < 2; u++) {
			I128 lo, hi, M = (I128)1 << w; if(u) { if(!linrangeu(l, w, lo, hi)) break; } else linrange(l, w, lo, hi);
			if(hi - lo >= M) continue;
			I128 v = lo + (((I128)k - lo) % M + M) % M;
			if(v > hi) return e_false();
			bool pos = true, neg = !u, sg = false; for(auto &p : l.t) { if(p.first->op == SEXT) sg = true; if(!u && sx(p.second, w) < 0) pos = false; else neg = false; }
			if(!sg && ((pos && v == lo) || (neg && v == hi))) return allzero(l);
		} }
		switch(a->op) {
		case ZEXT: if(k > mask(a->a->w)) return e_false(); return eq(a->a, C(a->a->w, k));
		case SEXT: if(((uint64_t)sx(k & mask(a->a->w), a->a->w) & mask(w)) != k) return e_false(); return eq(a->a, C(a->a->w, k));
		case ADD: if(a->b->isc()) return eq(a->a, C(w, k - a->b->k)); break;
		case XOR: if(a->b->isc()) return eq(a->a, C(w, k ^ a->b->k)); break;
		case SUB: if(k == 0) return eq(a->a, a->b); if(a->a->isc()) return eq(a->b, C(w, a->a->k - k)); break;
		case AND: if(a->b->isc() && (k & ~a->b->k)) return e_false(); break;
		case OR: if(k == 0) return e_and(eq(a->a, C(w,0)), eq(a->b, C(w,0))); if(a->b->isc() && (a->b->k & ~k)) return e_false(); break;
		case CONCAT: { unsigned lw = a->b->w; E l = eq(a->b, C(lw, k)); if(l->isc(0)) return l; return e_and(eq(a->a, C(a->a->w, k >> lw)), l); }
		case ITE:
			if(a->b->isc() || a->c->isc()) {
				E x = eq(a->b, b), y = eq(a->c, b);
				return ite(a->a, x, y);
			}
			break;
		default: break;
		}
		if(k > ub(a)) return e_false();
	} else {
		if(a->op == ZEXT && b->op == ZEXT) { if(a->a->w == b->a->w) return eq(a->a, b->a); unsigned m = std::max(a->a->w, b->a->w); if(m < w) return eq(zext(a->a, m), zext(b->a, m)); }
		if(a->op == SEXT && b->op == SEXT && a->a->w == b->a->w) return eq(a->a, b->a);
		if(a->op == ADD && b->op == ADD) { if(a->a == b->a) return eq(a->b, b->b); if(a->b == b->b) return eq(a->a, b->a); if(a->a == b->b) return eq(a->b, b->a); if(a->b == b->a) return eq(a->a, b->b); }
		if(a->op == ADD && (a->a == b)) return eq(a->b, C(w, 0));
		if(b->op == ADD && (b->a == a)) return eq(b->b, C(w, 0));
	}
	if(!b->isc() && a->w > 1 && (linop(a) || linop(b)) && (a->syms == b->syms || *a->syms == *b->syms)) { Lin l = lin(a); linacc(l, lin(b), ~0ull, w); if(l.ok && l.t.empty()) return C(1, l.k == 0); }
	if(!b->isc() && a->id > b->id) std::swap(a, b);
	return mk(EQ, 1, 0, a, b);
}
static E ult(E a, E b) {
	unsigned w = a->w;
	if(a == b) return e_false();
	if(a->isc() && b->isc()) return C(1, a->k < b->k);
	if(b->isc()) {
		if(b->k == 0) return e_false();
		if(b->k == 1) return eq(a, C(w, 0));
		if(ub(a) < b->k) return e_true();
		if(a->op == ZEXT) return ult(a->a, C(a->a->w, b->k)); // b->k <= ub(a)
		if(linop(a)) { Lin q, r; if(linsplit(a, b->k, q, r)) return q.k ? e_false() : allzero(q); }
		if(a->op == ITE && a->b->isc() && a->c->isc()) return ite(a->a, ult(a->b, b), ult(a->c, b));
	}
	if(a->isc()) {
		if(a->k >= ub(b)) return e_false();
		if(a->k == 0) return e_not(eq(b, C(w, 0)));
		if(linop(b)) { Lin q, r; if(linsplit(b, a->k + 1, q, r)) return q.k ? e_true() : e_not(allzero(q)); }
		if(b->op == ZEXT) return ult(C(b->a->w, a->k), b->a);
		if(b->op == ITE && b->b->isc() && b->c->isc()) return ite(b->a, ult(a, b->b), ult(a, b->c));
	}
	if(a->op == ZEXT && b->op == ZEXT) { unsigned m = std::max(a->a->w, b->a->w); if(m < w) return ult(zext(a->a, m), zext(b->a, m)); }
	if(w == 1) return e_and(e_not(a), b);
	return mk(ULT, 1, 0, a, b);
}
static E slt(E a, E b) {
	unsigned w = a->w;
	if(a == b) return e_false();
	if(a->isc() && b->isc()) return C(1, sx(a->k, w) < sx(b->k, w));
	uint64_t top = 1ull << (w - 1);
	if(b->isc(0)) if(E n = linneg(a)) return n;
	if(linop(a) || linop(b)) { E na = a->isc() ? C(1, sx(a->k, w) < 0) : linneg(a), nb = b->isc() ? C(1, sx(b->k, w) < 0) : linneg(b); if(na && nb && na->isc(0) && nb->isc(0)) return ult(a, b); if(na && nb && na->isc(0) && nb->isc(1)) return e_false(); if(na && nb && na->isc(1) && nb->isc(0)) return e_true(); }
	if(ub(a) < top && ub(b) < top) return ult(a, b);
	if(a->isc() && sx(a->k, w) < 0 && ub(b) < top) return e_true();
	if(b->isc() && sx(b->k, w) <= 0 && ub(a) < top) return e_false();
	if(a->op == SEXT && b->op == SEXT && a->a->w == b->a->w) return slt(a->a, b->a);
	if(a->op == SEXT && b->isc()) { unsigned n = a->a->w; int64_t k = sx(b->k, w), lo = sx(1ull << (n-1), n), hi = -(lo + 1);
		if(k > hi) return e_true(); if(k <= lo) return e_false(); return slt(a->a, C(n, (uint64_t)k)); }
	if(b->op == SEXT && a->isc()) { unsigned n = b->a->w; int64_t k = sx(a->k, w), lo = sx(1ull << (n-1), n), hi = -(lo + 1);
		if(k >= hi) return e_false(); if(k < lo) return e_true(); return slt(C(n, (uint64_t)k), b->a); }
	if(b->isc() && a->op == ITE && a->b->isc() && a->c->isc()) return ite(a->a, slt(a->b, b), slt(a->c, b));
	return mk(SLT, 1, 0, a, b);
}
static E ite(E c, E a, E b) {
	if(c->isc()) return c->k ? a : b;
	if(a == b) return a;
	if(c->op == XOR && c->b->isc()) return ite(c->a, b, a);
	if(a->w == 1) {
		if(a->isc(1) && b->isc(0)) return c;
		if(a->isc(0) && b->isc(1)) return e_not(c);
		if(a->isc(1)) return e_or(c, b);
		if(a->isc(0)) return e_and(e_not(c), b);
		if(b->isc(1)) return e_or(e_not(c), a);
		if(b->isc(0)) return e_and(c, a);
	}
	if(a->op == ITE && a->a == c) return ite(c, a->b, b);
	if(b->op == ITE && b->a == c) return ite(c, a, b->c);
	if(b->op == ITE && b->b == a) return ite(e_or(c, b->a), a, b->c);
	if(a->op == ZEXT && b->op == ZEXT && a->a->w == b->a->w) return zext(ite(c, a->a, b->a), a->w);
	if(a->op == ZEXT && b->isc() && b->k <= mask(a->a->w)) return zext(ite(c, a->a, C(a->a->w, b->k)), a->w);
	if(b->op == ZEXT && a->isc() && a->k <= mask(b->a->w)) return zext(ite(c, C(b->a->w, a->k), b->a), a->w);
	return mk(ITE, a->w, 0, c, a, b);
}
static E binop(Op op, E a, E b) {
	switch(op) {
	case ADD: return add(a, b); case SUB: return sub(a, b); case MUL: return mul(a, b);
	case UDIV: case UREM: return udivrem(op, a, b);
	case SDIV: case SREM: return sdivrem(op, a, b);
	case AND: return e_and(a, b); case OR: return e_or(a, b); case XOR: return e_xor(a, b);
	case SHL: return shl(a, b); case LSHR: return lshr(a, b); case ASHR: return ashr(a, b);
	case EQ: return eq(a, b); case ULT: return ult(a, b); case SLT: return slt(a, b);
	default: abort();
	}
}
static E rebuild(E e, E a, E b, E c) {
	switch(e->op) {
	case ITE: return ite(a, b, c);
	case CONCAT: return concat(a, b);
	case EXTRACT: return extract(a, e->k, e->w);
	case ZEXT: return zext(a, e->w);
	case SEXT: return sext(a, e->w);
	default: return binop(e->op, a, b);
	}
}

// evaluation under an assignment
typedef std::vector<uint64_t> Model;
static uint32_t g_epoch = 0;
static uint64_t ev(E e, const Model &m) {
	if(e->op == CONST) return e->k;
	if(e->op == SYM) return e->k < m.size() ? m[e->k] & mask(e->w) : 0;
	if(e->me == g_epoch) return e->mv;
	uint64_t r;
	switch(e->op) {
	case ITE: r = ev(e->a, m) ? ev(e->b, m) : ev(e->c, m); break;
	case CONCAT: r = (ev(e->a, m) << e->b->w) | ev(e->b, m); break;
	case EXTRACT: r = ev(e->a, m) >> e->k; break;
	case ZEXT: r = ev(e->a, m); break;
	case SEXT: r = (uint64_t)sx(ev(e->a, m), e->a->w); break;
	default: r = foldbin(e->op, e->a->w, ev(e->a, m), ev(e->b, m));
	}
	r &= mask(e->w);
	e->me = g_epoch; e->mv = r;
	return r;
}
static uint64_t eval(E e, const Model &m) { g_epoch++; return ev(e, m); }

static const char *opname[] = {"const","sym","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","eq","ult","slt","ite","concat","extract","zext","sext"};
static void dump(FILE *f, E e, int d = 12) {
	if(e->isc()) { fprintf(f, "%llu:%u", (unsigned long long)e->k, e->w); return; }
	if(e->op == SYM) { fprintf(f, "s%llu:%u", (unsigned long long)e->k, e->w); return; }
	if(!d) { fprintf(f, "#%u", e->id); return; }
	fprintf(f, "(%s:%u", opname[e->op], e->w); if(e->op == EXTRACT) fprintf(f, "@%llu", (unsigned long long)e->k);
	for(E x : {e->a, e->b, e->c}) if(x) { fprintf(f, " "); dump(f, x, d - 1); } fprintf(f, ")");
}
static void difference(FILE *f, E a, E b, std::unordered_set<uint64_t> &seen, int &left) { // smallest corresponding parts in which two terms differ
	if(a == b || left <= 0 || !seen.insert((uint64_t)a->id << 32 | b->id).second) return;
	if(a->op == b->op && a->w == b->w && a->k == b->k && a->op != CONST && a->op != SYM) {
		if((a->op == ADD || a->op == AND || a->op == OR || a->op == XOR) && (a->a == b->b || a->b == b->a)) { E x = a->a == b->b ? a->b : a->a, y = a->a == b->b ? b->a : b->b; difference(f, x, y, seen, left); return; }
		if(a->a) difference(f, a->a, b->a, seen, left); if(a->b) difference(f, a->b, b->b, seen, left); if(a->c) difference(f, a->c, b->c, seen, left); return; }
	left--; fprintf(f, "DIFF "); dump(f, a, 5); fprintf(f, "\n  -- "); dump(f, b, 5); fprintf(f, "\n");
}
// random differential test of the simplifier: every constructor against the plain meaning of the operator
static int (*g_bbtest)(E, uint64_t, const Model &);
static void selftest(unsigned n, uint64_t seed) {
	auto rnd = [&]() { seed = seed * 6364136223846793005ull + 1442695040888963407ull; uint64_t x = seed >> 17; return x ^ (x << 31) ^ (seed >> 40); };
	static const unsigned ws[] = {1, 8, 16, 32, 64};
	std::vector<E> pool; Model m(24); unsigned bad = 0;
	for(unsigned i = 0; i < 24; i++) { m[i] = rnd() & mask(ws[i % 5]); if(rnd() % 3 == 0) m[i] &= 15; pool.push_back(mk(SYM, ws[i % 5], i)); }
	std::vector<E> base = pool;
	static const uint64_t cs[] = {0, 1, 2, 3, 7, 8, 9, 10, 11, 48, 57, 100, 127, 128, 255, 256, 1000, 10000, 0x7fffffff, 0x80000000ull, 0xffffffffull, 1000000000ull, ~0ull, ~9ull, ~47ull, 1ull << 63};
	for(unsigned it = 0; it < n; it++) {
		if(pool.size() > 400) { pool = base; for(auto &x : m) x = rnd() >> (rnd() % 64); for(unsigned i = 0; i < 24; i++) m[i] &= mask(ws[i % 5]); }
		auto pick = [&](unsigned w) -> E { for(int t = 0; t < 30; t++) { if(rnd() % 4 == 0) return C(w, cs[rnd() % (sizeof cs / 8)]); E e = pool[rnd() % pool.size()]; if(e->w == w) return e; if(rnd() % 3 == 0) return e->w < w ? (rnd() & 1 ? zext(e, w) : sext(e, w)) : extract(e, 0, w); } return C(w, rnd()); };
		unsigned w = ws[rnd() % 5]; E a = pick(w), b = pick(w), r; uint64_t want; uint64_t va = eval(a, m), vb = eval(b, m);
		unsigned k = rnd() % 22;
		if(k < 16 && k != 14 && k != 15) { Op o = (Op)(ADD + k); if(o == SHL || o == LSHR || o == ASHR) b = C(w, rnd() % w), vb = b->k; if(o == UDIV || o == UREM || o == SDIV || o == SREM) { if(rnd() % 3) b = C(w, 10); vb = eval(b, m); if(!vb) continue; }
			r = binop(o, a, b); want = foldbin(o, w, va, vb); }
		else if(k == 14 || k == 15) { Op o = k == 14 ? ULT : SLT; r = binop(o, a, b); want = foldbin(o, w, va, vb); }
		else if(k == 16) { E c = pick(1); r = ite(c, a, b); want = eval(c, m) ? va : vb; }
		else if(k == 17) { unsigned lo = rnd() % w, n = 1 + rnd() % (w - lo); r = extract(a, lo, n); want = va >> lo; }
		else if(k == 18) { if(w > 32) continue; r = concat(a, b); want = va << w | vb; }
		else if(k == 19) { unsigned W = ws[rnd() % 5]; if(W < w) continue; r = zext(a, W); want = va; }
		else if(k == 20) { unsigned W = ws[rnd() % 5]; if(W < w) continue; r = sext(a, W); want = (uint64_t)sx(va, w); }
		else { r = eq(a, b); want = va == vb; }
		want &= mask(r->w);
		if(eval(r, m) != want) { dump(stdout, a, 4); puts(""); dump(stdout, b, 4); puts(""); dump(stdout, r, 4); puts(""); printf("selftest: op %u w %u a=%llx b=%llx got %llx want %llx\n", k, w, (unsigned long long)va, (unsigned long long)vb, (unsigned long long)eval(r, m), (unsigned long long)want); if(++bad > 10) break; }
		if(va > ub(a) ) { printf("selftest: ub\n"); bad++; }
		if(!r->isc() && g_bbtest && it % 40 == 0) { int q = g_bbtest(r, want, m); if(q) { printf("selftest: bit-blasting %s w %u\n", q == 1 ? "loses the model" : "allows a wrong value", r->w); dump(stdout, r, 6); puts(""); if(++bad > 10) break; } }
		if(!r->isc()) pool.push_back(r);
	}
	printf("selftest %s: %u simplifications, %u terms\n", bad ? "FAILED" : "ok", n, g_next_id); fflush(stdout); _exit(bad ? 1 : 0);
}
