// ulzsym: path-exhaustive symbolic executor for LLVM IR with Z3.
// usage: ulzsym module.bc [-e entry] [-T seconds] [-q query_ms] [-s max_steps_per_path] [-m samples]
// Explores every feasible path of the entry function; each symbolic input is a Z3 bit-vector.
#include "solver.h"
#include <llvm-c/Core.h>
#include <llvm-c/IRReader.h>
#include <llvm-c/Target.h>
#include <llvm-c/DebugInfo.h>
#include <memory>
#include <set>
#include <deque>
#include <unistd.h>

static LLVMTargetDataRef DL;
static LLVMContextRef LC;
static void die(const std::string &s) { fprintf(stderr, "ulzsym: %s\n", s.c_str()); exit(3); }

struct Val { E e = nullptr; std::shared_ptr<std::vector<Val>> agg; };
static Val V(E e) { Val v; v.e = e; return v; }

struct Opnd { int idx = -1; Val c; bool undef = false; unsigned w = 0; };
struct GepT { Opnd op; uint64_t scale; };
struct Func;
struct Inst {
	LLVMOpcode op; LLVMValueRef v; int dst = -1; unsigned w = 0; LLVMTypeRef ty = nullptr;
	std::vector<Opnd> ops; std::vector<int> succ; int pred = 0; int line = 0; const char *file = "";
	uint64_t off = 0; std::vector<GepT> gep; std::vector<unsigned> idxs; std::vector<uint64_t> byval;
	int bi = -1; Func *callee = nullptr; std::string cname; bool covered = false;
};
struct Phi { int dst; std::map<int, Opnd> in; };
struct Block { std::vector<Phi> phis; std::vector<Inst> insts; bool covered = false; };
struct Func { LLVMValueRef v; std::string name, file; int nloc = 0; std::vector<Block> blocks; std::vector<int> params; bool decl = true, prepared = false, vararg = false, used = false; uint64_t addr = 0; int merge = -1, mfail = 0; };

static std::map<std::string, Func*> g_funcs;
static std::map<LLVMValueRef, Func*> g_fbyv;
static std::map<uint64_t, Func*> g_fbyaddr;
static std::map<LLVMValueRef, uint64_t> g_gaddr;

struct Obj {
	uint64_t base = 0, size = 0; int refs = 0; bool heap = false, ro = false, freed = false, stack = false;
	std::vector<uint8_t> val, un; std::vector<E> sym; std::string name;
};
struct ObjRef {
	Obj *p = nullptr;
	ObjRef() {} ObjRef(Obj *o) : p(o) { if(p) p->refs++; }
	ObjRef(const ObjRef &r) : p(r.p) { if(p) p->refs++; }
	ObjRef(ObjRef &&r) noexcept : p(r.p) { r.p = nullptr; }
	ObjRef &operator=(ObjRef r) { std::swap(p, r.p); return *this; }
	~ObjRef() { if(p && !--p->refs) delete p; }
	Obj *w() { if(p->refs > 1) { Obj *n = new Obj(*p); n->refs = 1; p->refs--; p = n; } return p; }
};
struct Frame { Func *f = nullptr; int bb = 0, pc = 0; std::vector<Val> loc; std::vector<uint64_t> allocas; std::vector<Val> va; int ret = -1; };
struct State {
	std::vector<Frame> fr; std::vector<ObjRef> mem; uint64_t next = 0x40000000; std::vector<E> pc; Model model;
	std::vector<E> nd; unsigned nun = 0; std::map<E, uint64_t> known; uint64_t steps = 0; unsigned depth = 0;
	std::vector<E> obs;
};

// ---- results
struct Viol { std::string kind, msg, loc; std::vector<std::pair<unsigned,uint64_t>> nd; };
static std::vector<Viol> g_viol; static std::map<std::string,int> g_violkeys;
static std::map<std::string, uint64_t> g_incomplete; static int g_reports; static double g_firstviol;
static uint64_t st_paths, st_done, st_instr, st_forks, st_checks, st_checks_const, st_checks_solver, st_infeasible, st_memchecks;
static std::vector<std::vector<std::pair<unsigned,uint64_t>>> g_samples; static std::vector<std::vector<uint64_t>> g_sampleobs;
static unsigned g_maxsamples = 8; static uint64_t g_maxsteps = 3000000; static double g_tlimit = 60; static int g_stop_after = 6;
static std::deque<State*> g_work;
static std::map<std::pair<unsigned,unsigned>, uint32_t> g_ndsyms; static std::vector<uint32_t> g_unsyms;

static uint32_t newsym(unsigned w) { g_symw.push_back(w); return g_symw.size() - 1; }
static E ndsym(unsigned pos, unsigned w) { auto k = std::make_pair(pos, w); auto it = g_ndsyms.find(k); uint32_t s; if(it == g_ndsyms.end()) { s = newsym(w); g_ndsyms[k] = s; } else s = it->second; return mk(SYM, w, s); }
static E unsym(State &S) { unsigned i = S.nun++; while(g_unsyms.size() <= i) g_unsyms.push_back(newsym(8)); return mk(SYM, 8, g_unsyms[i]); }

static std::vector<std::pair<unsigned,uint64_t>> ndvals(State &S, const Model &m) { std::vector<std::pair<unsigned,uint64_t>> r; for(auto e : S.nd) r.push_back({e->w, eval(e, m)}); return r; }
static std::string curloc(State &S) {
	std::string r;
	for(int i = (int)S.fr.size() - 1; i >= 0 && i >= (int)S.fr.size() - 4; i--) {
		Frame &f = S.fr[i]; Block &b = f.f->blocks[f.bb]; int pc = i == (int)S.fr.size() - 1 ? f.pc : f.pc - 1; if(pc < 0) pc = 0; if(pc >= (int)b.insts.size()) pc = b.insts.size() - 1;
		Inst &in = b.insts[pc]; char buf[400]; const char *fn = strrchr(in.file, '/');
		snprintf(buf, sizeof buf, "%s%s:%s:%d", r.empty() ? "" : " < ", f.f->name.c_str(), fn ? fn + 1 : in.file, in.line); r += buf;
	}
	return r;
}
static void report(State &S, const std::string &kind, const std::string &msg, const Model &m) {
	std::string loc = curloc(S);
	std::string key = kind + "|" + msg + "|" + (kind == "check" ? "" : loc);
	g_reports++; if(!g_firstviol) g_firstviol = now();
	if(g_violkeys[key]++ >= 2) return;
	g_viol.push_back({kind, msg, loc, ndvals(S, m)});
}
static void incomplete(const std::string &why) { g_incomplete[why]++; }

// ---- memory
static int findobj(State &S, uint64_t a) { // index of object with base <= a, nearest
	int lo = 0, hi = (int)S.mem.size() - 1, r = -1;
	while(lo <= hi) { int m = (lo + hi) / 2; if(S.mem[m].p->base <= a) { r = m; lo = m + 1; } else hi = m - 1; }
	return r;
}
static uint64_t allocobj(State &S, uint64_t size, bool uninit, const std::string &name, bool heap = false, bool stack = false) {
	Obj *o = new Obj(); o->base = S.next; o->size = size; o->heap = heap; o->stack = stack; o->name = name;
	o->val.assign(size, 0); if(uninit) o->un.assign(size, 1);
	S.next += ((size + 0x1000000) + 4095) & ~4095ull;
	S.mem.push_back(ObjRef(o));
	return o->base;
}
static E rdbyte(State &S, int oi, uint64_t off) {
	Obj *o = S.mem[oi].p;
	if(!o->un.empty() && o->un[off]) { E s = unsym(S); o = S.mem[oi].w(); if(o->sym.empty()) o->sym.assign(o->size, nullptr); o->sym[off] = s; o->un[off] = 0; return s; }
	if(!o->sym.empty() && o->sym[off]) return o->sym[off];
	return C(8, o->val[off]);
}
static void wrbyte(Obj *o, uint64_t off, E b) {
	if(b->isc()) { o->val[off] = b->k; if(!o->sym.empty()) o->sym[off] = nullptr; }
	else { if(o->sym.empty()) o->sym.assign(o->size, nullptr); o->sym[off] = b; }
	if(!o->un.empty()) o->un[off] = 0;
}
static E rdn(State &S, int oi, uint64_t off, unsigned n) {
	Obj *o = S.mem[oi].p;
	bool conc = true;
	if(!o->un.empty()) for(unsigned i = 0; i < n; i++) if(o->un[off+i]) { conc = false; break; }
	if(conc && !o->sym.empty()) for(unsigned i = 0; i < n; i++) if(o->sym[off+i]) { conc = false; break; }
	if(conc) { uint64_t v = 0; for(unsigned i = 0; i < n; i++) v |= (uint64_t)o->val[off+i] << (8*i); return C(8*n, v); }
	E r = rdbyte(S, oi, off);
	for(unsigned i = 1; i < n; i++) r = concat(rdbyte(S, oi, off + i), r);
	return r;
}

struct Kill {};      // current path ends
static void end_path(State *S) { delete S; }

static void pushstate(State *s) { st_forks++; g_work.push_back(s); }

// condition must be decided for the current state; pushes the other side (to re-execute / other) when feasible.
// returns the direction taken by S.
template<class F> static bool branch(State &S, E c, F other) {
	if(c->isc()) return c->k;
	bool v = eval(c, S.model) != 0;
	E no = v ? e_not(c) : c;
	Model m = S.model;
	Res r = solve(S.pc, no, m);
	if(r == SAT) {
		State *n = new State(S); n->pc.push_back(no); n->model.swap(m); n->depth++;
		other(*n, !v); pushstate(n);
		S.pc.push_back(v ? c : e_not(c)); S.depth++;
	} else if(r == UNKNOWN) incomplete("solver-unknown-branch");
	return v;
}
static uint64_t concretize(State &S, E e) { // forks re-execute the current instruction
	if(e->isc()) return e->k;
	auto it = S.known.find(e); if(it != S.known.end()) return it->second;
	uint64_t v = eval(e, S.model);
	E c = eq(e, C(e->w, v));
	branch(S, c, [](State &, bool) {});
	S.known[e] = v;
	return v;
}
// a pointer resolved to object + offset expression
static int resolve(State &S, E addr, uint64_t n, E &off, bool write, const char *what) {
	st_memchecks++;
	uint64_t v = addr->isc() ? addr->k : eval(addr, S.model);
	int oi = findobj(S, v);
	char buf[256];
	bool ok = oi >= 0 && !S.mem[oi].p->freed && v - S.mem[oi].p->base <= S.mem[oi].p->size && n <= S.mem[oi].p->size - (v - S.mem[oi].p->base);
	if(n == 0) { if(!ok) { off = C(64, 0); return -1; } }
	if(!ok) {
		if(oi >= 0 && v - S.mem[oi].p->base < S.mem[oi].p->size + 0x100000) {
			Obj *o = S.mem[oi].p;
			snprintf(buf, sizeof buf, "%s of %llu bytes %s at offset %lld of %llu-byte object '%s'", what, (unsigned long long)n, o->freed ? "after free" : "out of bounds", (long long)(v - o->base), (unsigned long long)o->size, o->name.c_str());
		} else snprintf(buf, sizeof buf, "%s of %llu bytes through invalid pointer 0x%llx", what, (unsigned long long)n, (unsigned long long)v);
		report(S, "memory", buf, S.model); throw Kill();
	}
	if(write && S.mem[oi].p->ro) { snprintf(buf, sizeof buf, "write to constant object '%s'", S.mem[oi].p->name.c_str()); report(S, "memory", buf, S.model); throw Kill(); }
	Obj *o = S.mem[oi].p;
	off = sub(addr, C(64, o->base));
	if(!addr->isc()) {
		E inb = e_not(ult(C(64, o->size - n), off));
		branch(S, inb, [](State &, bool) {}); // v satisfies inb
	}
	return oi;
}
static E muxread(State &S, int oi, E off, unsigned n) {
	Obj *o = S.mem[oi].p;
	if(linop(off)) { Lin l = lin(off); I128 lo, hi; if(l.ok) { linrange(l, 64, lo, hi); if(lo >= 0 && hi < 65536) off = unlin(l, 64); } }
	unsigned t = tz(off); if(t > 3) t = 3; 
	while((1u << t) > n && t > 0) t--;
	uint64_t stride = 1ull << t, maxoff = std::min(o->size - n, ub(off)), cnt = maxoff / stride + 1;
	if(cnt > 4096) { uint64_t k = concretize(S, off); return rdn(S, oi, k, n); }
	unsigned bits = 0; while((1ull << bits) < cnt) bits++;
	if(!bits) return rdn(S, oi, 0, n);
	E idx = extract(off, t, bits);
	std::vector<E> lv(1ull << bits);
	for(uint64_t i = 0; i < lv.size(); i++) lv[i] = i < cnt ? rdn(S, oi, i * stride, n) : nullptr;
	for(unsigned b = 0; b < bits; b++) { // fold low bit first
		E bit = extract(idx, b, 1); std::vector<E> nx(lv.size() / 2);
		for(size_t i = 0; i < nx.size(); i++) { E x = lv[2*i], y = lv[2*i+1]; nx[i] = !x ? y : !y ? x : ite(bit, y, x); }
		lv.swap(nx);
	}
	return lv[0];
}
static E memread(State &S, E addr, unsigned n, const char *what = "read") {
	E off; int oi = resolve(S, addr, n, off, false, what);
	if(off->isc()) return rdn(S, oi, off->k, n);
	auto it = S.known.find(off); if(it != S.known.end()) return rdn(S, oi, it->second, n);
	return muxread(S, oi, off, n);
}
static void memwrite(State &S, E addr, E val, unsigned n, const char *what = "write") {
	E off; int oi = resolve(S, addr, n, off, true, what);
	if(!off->isc()) { auto it = S.known.find(off); if(it != S.known.end()) off = C(64, it->second); }
	if(!off->isc()) {
		Obj *o = S.mem[oi].p;
		unsigned t = tz(off); if(t > 3) t = 3; while((1u << t) > n && t > 0) t--;
		uint64_t stride = 1ull << t, maxoff = std::min(o->size - n, ub(off)), cnt = maxoff / stride + 1;
		if(cnt > 512) off = C(64, concretize(S, off));
		else {
			for(uint64_t c = 0; c < cnt; c++) for(unsigned k = 0; k < n; k++) rdbyte(S, oi, c * stride + k);
			o = S.mem[oi].w();
			std::map<uint64_t, E> upd;
			for(uint64_t c = 0; c < cnt; c++) { E g = eq(off, C(64, c * stride)); if(g->isc(0)) continue;
				for(unsigned k = 0; k < n; k++) { uint64_t p = c * stride + k; E old = upd.count(p) ? upd[p] : rdbyte(S, oi, p); upd[p] = ite(g, extract(val, 8*k, 8), old); } }
			for(auto &u : upd) wrbyte(o, u.first, u.second);
			return;
		}
	}
	Obj *o = S.mem[oi].w();
	for(unsigned k = 0; k < n; k++) wrbyte(o, off->k + k, extract(val, 8*k, 8));
}
static void memcopy(State &S, E d, E s, E len, bool overlap_ok) {
	uint64_t n = concretize(S, len); if(!n) return;
	if(n > (1ull << 40)) { report(S, "memory", "copy of a huge length", S.model); throw Kill(); }
	uint64_t da = concretize(S, d), sa = concretize(S, s);
	E o1, o2; int so = resolve(S, C(64, sa), n, o1, false, "copy source"), dO = resolve(S, C(64, da), n, o2, true, "copy destination");
	if(!overlap_ok && da != sa && da < sa + n && sa < da + n) { report(S, "memory", "memcpy with overlapping regions", S.model); throw Kill(); }
	std::vector<E> tmp;
	Obj *a = S.mem[so].p;
	if(a->sym.empty() && a->un.empty()) {
		std::vector<uint8_t> t(a->val.begin() + o1->k, a->val.begin() + o1->k + n);
		Obj *b = S.mem[dO].w();
		if(b->sym.empty() && b->un.empty()) { memcpy(&b->val[o2->k], t.data(), n); return; }
		for(uint64_t i = 0; i < n; i++) { b->val[o2->k + i] = t[i]; if(!b->sym.empty()) b->sym[o2->k+i] = nullptr; if(!b->un.empty()) b->un[o2->k+i] = 0; }
		return;
	}
	if(a->un.empty() || !memchr(&a->un[o1->k], 1, n)) { /* no uninitialised byte: copy values and expressions by ranges */
		std::vector<uint8_t> t(a->val.begin() + o1->k, a->val.begin() + o1->k + n); if(!a->sym.empty()) tmp.assign(a->sym.begin() + o1->k, a->sym.begin() + o1->k + n);
		bool any = false; for(E e : tmp) if(e) { any = true; break; }
		Obj *b = S.mem[dO].w(); memcpy(&b->val[o2->k], t.data(), n); if(!b->un.empty()) memset(&b->un[o2->k], 0, n);
		if(any) { if(b->sym.empty()) b->sym.assign(b->size, nullptr); std::copy(tmp.begin(), tmp.end(), b->sym.begin() + o2->k); } else if(!b->sym.empty()) std::fill(b->sym.begin() + o2->k, b->sym.begin() + o2->k + n, nullptr);
		return;
	}
	for(uint64_t i = 0; i < n; i++) tmp.push_back(rdbyte(S, so, o1->k + i));
	Obj *b = S.mem[dO].w();
	for(uint64_t i = 0; i < n; i++) wrbyte(b, o2->k + i, tmp[i]);
}

// ---- constants
static E constexpr_(LLVMValueRef v);
static unsigned width(LLVMTypeRef t) {
	switch(LLVMGetTypeKind(t)) {
	case LLVMIntegerTypeKind: return LLVMGetIntTypeWidth(t);
	case LLVMPointerTypeKind: return 64;
	default: return 0;
	}
}
static Val constval(LLVMValueRef v, bool &undef) {
	LLVMTypeRef t = LLVMTypeOf(v); unsigned w = width(t);
	if(LLVMIsUndef(v) || LLVMIsPoison(v)) { undef = true; if(w) return V(C(w, 0)); }
	if(w) return V(constexpr_(v));
	LLVMTypeKind k = LLVMGetTypeKind(t);
	if(k == LLVMStructTypeKind || k == LLVMArrayTypeKind) {
		Val r; r.agg = std::make_shared<std::vector<Val>>();
		unsigned n = k == LLVMStructTypeKind ? LLVMCountStructElementTypes(t) : LLVMGetArrayLength(t);
		for(unsigned i = 0; i < n; i++) {
			LLVMTypeRef et = k == LLVMStructTypeKind ? LLVMStructGetTypeAtIndex(t, i) : LLVMGetElementType(t);
			bool u = false;
			if(LLVMIsUndef(v) || LLVMIsNull(v)) r.agg->push_back(constval(LLVMConstNull(et), u));
			else r.agg->push_back(constval(LLVMGetAggregateElement(v, i), u));
		}
		return r;
	}
	return Val();
}
static E constexpr_(LLVMValueRef v) {
	unsigned w = width(LLVMTypeOf(v));
	if(LLVMIsAConstantInt(v)) { if(w > 64) die("wide constant"); return C(w, LLVMConstIntGetZExtValue(v)); }
	if(LLVMIsAConstantPointerNull(v)) return C(64, 0);
	if(LLVMIsUndef(v) || LLVMIsPoison(v)) return C(w, 0);
	if(LLVMIsAFunction(v)) return C(64, g_fbyv[v]->addr);
	if(LLVMIsAGlobalVariable(v)) return C(64, g_gaddr[v]);
	if(LLVMIsAGlobalAlias(v)) return constexpr_(LLVMAliasGetAliasee(v));
	if(LLVMIsAConstantExpr(v)) {
		LLVMOpcode op = LLVMGetConstOpcode(v);
		switch(op) {
		case LLVMGetElementPtr: {
			E a = constexpr_(LLVMGetOperand(v, 0)); LLVMTypeRef t = LLVMGetGEPSourceElementType(v); uint64_t off = 0;
			for(int i = 1; i < LLVMGetNumOperands(v); i++) {
				int64_t ix = LLVMConstIntGetSExtValue(LLVMGetOperand(v, i));
				if(i == 1) off += ix * LLVMABISizeOfType(DL, t);
				else if(LLVMGetTypeKind(t) == LLVMStructTypeKind) { off += LLVMOffsetOfElement(DL, t, ix); t = LLVMStructGetTypeAtIndex(t, ix); }
				else { t = LLVMGetElementType(t); off += ix * LLVMABISizeOfType(DL, t); }
			}
			return add(a, C(64, off)); }
		case LLVMPtrToInt: case LLVMIntToPtr: case LLVMBitCast: case LLVMTrunc: { E a = constexpr_(LLVMGetOperand(v, 0)); return a->w > w ? extract(a, 0, w) : zext(a, w); }
		case LLVMAdd: return add(constexpr_(LLVMGetOperand(v,0)), constexpr_(LLVMGetOperand(v,1)));
		case LLVMSub: return sub(constexpr_(LLVMGetOperand(v,0)), constexpr_(LLVMGetOperand(v,1)));
		case LLVMICmp: { E a = constexpr_(LLVMGetOperand(v,0)), b = constexpr_(LLVMGetOperand(v,1)); LLVMIntPredicate p = LLVMGetICmpPredicate(v); if(p == LLVMIntEQ) return eq(a, b); if(p == LLVMIntNE) return e_not(eq(a, b)); break; }
		default: break;
		}
	}
	char *s = LLVMPrintValueToString(v); die(std::string("unsupported constant ") + s); return nullptr;
}
static void initmem(Obj *o, uint64_t off, LLVMValueRef v) {
	LLVMTypeRef t = LLVMTypeOf(v);
	if(LLVMIsNull(v) || LLVMIsUndef(v) || LLVMIsPoison(v)) return;
	unsigned w = width(t);
	if(w) { E e = constexpr_(v); unsigned n = (w + 7) / 8; for(unsigned i = 0; i < n; i++) o->val[off+i] = e->k >> (8*i); return; }
	switch(LLVMGetTypeKind(t)) {
	case LLVMArrayTypeKind: {
		LLVMTypeRef et = LLVMGetElementType(t); uint64_t es = LLVMABISizeOfType(DL, et);
		for(unsigned i = 0; i < LLVMGetArrayLength(t); i++) initmem(o, off + i * es, LLVMGetAggregateElement(v, i)); break; }
	case LLVMStructTypeKind: for(unsigned i = 0; i < LLVMCountStructElementTypes(t); i++) initmem(o, off + LLVMOffsetOfElement(DL, t, i), LLVMGetAggregateElement(v, i)); break;
	case LLVMDoubleTypeKind: { LLVMBool li; double d = LLVMConstRealGetDouble(v, &li); memcpy(&o->val[off], &d, 8); break; }
	default: die("unsupported initializer");
	}
}

// ---- builtins
enum { B_NONE = -1, B_ND8, B_ND16, B_ND32, B_ND64, B_ASSUME, B_CHECK, B_CHOOSE, B_FORK, B_DONE, B_MALLOC, B_FREE, B_OBJSIZE, B_VALID, B_OBS, B_MEMCPY, B_MEMMOVE, B_MEMSET, B_NOP, B_VASTART, B_VACOPY,
	B_ABS, B_SMIN, B_SMAX, B_UMIN, B_UMAX, B_BSWAP, B_CTPOP, B_FSHL, B_FSHR, B_EXPECT, B_OBJECTSIZE, B_TRAP, B_CTLZ, B_CTTZ, B_OVF, B_SAT, B_STACKSAVE, B_ABORT, B_ISSYM, B_RO, B_FAIL, B_CHECKEQ };
static int builtin(const std::string &n) {
	static const std::map<std::string,int> M = {
		{"vp_u8",B_ND8},{"vp_u16",B_ND16},{"vp_u32",B_ND32},{"vp_u64",B_ND64},{"vp_assume",B_ASSUME},{"vp_check_",B_CHECK},{"vp_choose",B_CHOOSE},{"vp_split",B_FORK},
		{"vp_done",B_DONE},{"__vp_malloc",B_MALLOC},{"__vp_free",B_FREE},{"__vp_objsize",B_OBJSIZE},{"vp_valid",B_VALID},{"vp_obs",B_OBS},
		{"memcpy",B_MEMCPY},{"memmove",B_MEMMOVE},{"memset",B_MEMSET},{"abort",B_ABORT},{"vp_readonly",B_RO},{"vp_fail",B_FAIL}};
	auto it = M.find(n); if(it != M.end()) return it->second;
	if(n.compare(0, 5, "llvm.")) return B_NONE;
	auto pre = [&](const char *p) { return !n.compare(0, strlen(p), p); };
	if(pre("llvm.memcpy.")) return B_MEMCPY; if(pre("llvm.memmove.")) return B_MEMMOVE; if(pre("llvm.memset.")) return B_MEMSET;
	if(pre("llvm.dbg.") || pre("llvm.lifetime.") || pre("llvm.assume") || pre("llvm.va_end") || pre("llvm.stackrestore") || pre("llvm.experimental.noalias")) return B_NOP;
	if(pre("llvm.va_start")) return B_VASTART; if(pre("llvm.va_copy")) return B_VACOPY;
	if(pre("llvm.abs.")) return B_ABS; if(pre("llvm.smin.")) return B_SMIN; if(pre("llvm.smax.")) return B_SMAX; if(pre("llvm.umin.")) return B_UMIN; if(pre("llvm.umax.")) return B_UMAX;
	if(pre("llvm.bswap.")) return B_BSWAP; if(pre("llvm.ctpop.")) return B_CTPOP; if(pre("llvm.fshl.")) return B_FSHL; if(pre("llvm.fshr.")) return B_FSHR;
	if(pre("llvm.expect.")) return B_EXPECT; if(pre("llvm.objectsize.")) return B_OBJECTSIZE; if(pre("llvm.trap")) return B_TRAP; if(pre("llvm.ctlz.")) return B_CTLZ; if(pre("llvm.cttz.")) return B_CTTZ;
	if(pre("llvm.uadd.with") || pre("llvm.sadd.with") || pre("llvm.usub.with") || pre("llvm.ssub.with") || pre("llvm.umul.with") || pre("llvm.smul.with")) return B_OVF;
	if(pre("llvm.usub.sat") || pre("llvm.uadd.sat")) return B_SAT; if(pre("llvm.stacksave")) return B_STACKSAVE;
	return B_NONE;
}

// ---- function preparation
static void prepare(Func *f) {
	if(f->prepared) return; f->prepared = true;
	std::map<LLVMValueRef,int> num; std::map<LLVMBasicBlockRef,int> bbn;
	auto idx = [&](LLVMValueRef v) { num[v] = f->nloc; return f->nloc++; };
	for(unsigned i = 0; i < LLVMCountParams(f->v); i++) f->params.push_back(idx(LLVMGetParam(f->v, i)));
	int nb = 0;
	for(auto b = LLVMGetFirstBasicBlock(f->v); b; b = LLVMGetNextBasicBlock(b)) { bbn[b] = nb++; for(auto i = LLVMGetFirstInstruction(b); i; i = LLVMGetNextInstruction(i)) if(LLVMGetTypeKind(LLVMTypeOf(i)) != LLVMVoidTypeKind) idx(i); }
	f->blocks.resize(nb);
	auto opnd = [&](LLVMValueRef v) { Opnd o; o.w = width(LLVMTypeOf(v)); auto it = num.find(v); if(it != num.end()) o.idx = it->second; else if(LLVMIsConstant(v)) o.c = constval(v, o.undef); return o; };
	static unsigned byvalk = LLVMGetEnumAttributeKindForName("byval", 5);
	nb = 0;
	for(auto b = LLVMGetFirstBasicBlock(f->v); b; b = LLVMGetNextBasicBlock(b), nb++) {
		Block &B = f->blocks[nb];
		for(auto i = LLVMGetFirstInstruction(b); i; i = LLVMGetNextInstruction(i)) {
			LLVMOpcode op = LLVMGetInstructionOpcode(i);
			if(op == LLVMPHI) { Phi p; p.dst = num[i]; for(unsigned k = 0; k < LLVMCountIncoming(i); k++) p.in[bbn[LLVMGetIncomingBlock(i, k)]] = opnd(LLVMGetIncomingValue(i, k)); B.phis.push_back(p); continue; }
			Inst in; in.op = op; in.v = i; in.ty = LLVMTypeOf(i); in.w = width(in.ty); auto it = num.find(i); in.dst = it == num.end() ? -1 : it->second;
			in.line = LLVMGetDebugLocLine(i); unsigned l; const char *fn = LLVMGetDebugLocFilename(i, &l); if(fn && l) in.file = strndup(fn, l);
			int n = LLVMGetNumOperands(i);
			switch(op) {
			case LLVMBr: if(LLVMIsConditional(i)) in.ops.push_back(opnd(LLVMGetCondition(i))); for(unsigned k = 0; k < LLVMGetNumSuccessors(i); k++) in.succ.push_back(bbn[LLVMGetSuccessor(i, k)]); break;
			case LLVMSwitch: in.ops.push_back(opnd(LLVMGetOperand(i, 0))); for(unsigned k = 0; k < LLVMGetNumSuccessors(i); k++) in.succ.push_back(bbn[LLVMGetSuccessor(i, k)]); for(int k = 2; k < n; k += 2) in.ops.push_back(opnd(LLVMGetOperand(i, k))); break;
			case LLVMCall: {
				LLVMValueRef cv = LLVMGetCalledValue(i); unsigned na = LLVMGetNumArgOperands(i);
				for(unsigned k = 0; k < na; k++) { LLVMValueRef a = LLVMGetOperand(i, k); in.ops.push_back(opnd(a)); LLVMAttributeRef at = LLVMGetCallSiteEnumAttribute(i, k + 1, byvalk); in.byval.push_back(at ? LLVMABISizeOfType(DL, LLVMGetTypeAttributeValue(at)) : 0); }
				if(LLVMIsAFunction(cv)) { in.callee = g_fbyv[cv]; size_t sl; in.cname = LLVMGetValueName2(cv, &sl); in.bi = builtin(in.cname); }
				else { in.ops.push_back(opnd(cv)); in.cname = ""; }
				break; }
			case LLVMGetElementPtr: {
				in.ops.push_back(opnd(LLVMGetOperand(i, 0))); LLVMTypeRef t = LLVMGetGEPSourceElementType(i);
				for(int k = 1; k < n; k++) {
					LLVMValueRef ix = LLVMGetOperand(i, k); uint64_t sc;
					if(k == 1) sc = LLVMABISizeOfType(DL, t);
					else if(LLVMGetTypeKind(t) == LLVMStructTypeKind) { unsigned q = LLVMConstIntGetZExtValue(ix); in.off += LLVMOffsetOfElement(DL, t, q); t = LLVMStructGetTypeAtIndex(t, q); continue; }
					else { t = LLVMGetElementType(t); sc = LLVMABISizeOfType(DL, t); }
					if(LLVMIsAConstantInt(ix)) in.off += LLVMConstIntGetSExtValue(ix) * sc; else in.gep.push_back({opnd(ix), sc});
				}
				break; }
			case LLVMAlloca: in.ops.push_back(opnd(LLVMGetOperand(i, 0))); in.off = LLVMABISizeOfType(DL, LLVMGetAllocatedType(i)); break;
			case LLVMStore: in.ops.push_back(opnd(LLVMGetOperand(i, 0))); in.ops.push_back(opnd(LLVMGetOperand(i, 1))); in.ty = LLVMTypeOf(LLVMGetOperand(i, 0)); break;
			case LLVMICmp: in.pred = LLVMGetICmpPredicate(i); in.ops.push_back(opnd(LLVMGetOperand(i, 0))); in.ops.push_back(opnd(LLVMGetOperand(i, 1))); break;
			case LLVMExtractValue: case LLVMInsertValue: for(int k = 0; k < n; k++) in.ops.push_back(opnd(LLVMGetOperand(i, k))); for(unsigned k = 0; k < LLVMGetNumIndices(i); k++) in.idxs.push_back(LLVMGetIndices(i)[k]); break;
			default: for(int k = 0; k < n; k++) in.ops.push_back(opnd(LLVMGetOperand(i, k)));
			}
			B.insts.push_back(std::move(in));
		}
	}
}
static E undefsym(State &S, unsigned w) { E r = unsym(S); unsigned have = 8; while(have < w) { r = concat(unsym(S), r); have += 8; } return extract(r, 0, w); }
static Val getv(State &S, Frame &f, const Opnd &o) { if(o.idx >= 0) return f.loc[o.idx]; if(o.undef && o.w) return V(undefsym(S, o.w)); return o.c; }
static E get(State &S, Frame &f, const Opnd &o) { if(o.idx >= 0) { E e = f.loc[o.idx].e; if(!e) die("use of undefined value in " + f.f->name); return e; } if(o.undef) return undefsym(S, o.w); if(!o.c.e) die("bad constant operand"); return o.c.e; }

static Val loadty(State &S, E addr, LLVMTypeRef t) {
	unsigned w = width(t);
	if(w) { unsigned n = (w + 7) / 8; E e = memread(S, addr, n); return V(extract(e, 0, w)); }
	Val r; r.agg = std::make_shared<std::vector<Val>>();
	if(LLVMGetTypeKind(t) == LLVMStructTypeKind) for(unsigned i = 0; i < LLVMCountStructElementTypes(t); i++) r.agg->push_back(loadty(S, add(addr, C(64, LLVMOffsetOfElement(DL, t, i))), LLVMStructGetTypeAtIndex(t, i)));
	else if(LLVMGetTypeKind(t) == LLVMArrayTypeKind) { LLVMTypeRef et = LLVMGetElementType(t); uint64_t es = LLVMABISizeOfType(DL, et); for(unsigned i = 0; i < LLVMGetArrayLength(t); i++) r.agg->push_back(loadty(S, add(addr, C(64, i * es)), et)); }
	else { incomplete("unsupported load type"); throw Kill(); }
	return r;
}
static void storety(State &S, E addr, const Val &v, LLVMTypeRef t) {
	unsigned w = width(t);
	if(w) { unsigned n = (w + 7) / 8; memwrite(S, addr, zext(v.e, 8 * n), n); return; }
	if(LLVMGetTypeKind(t) == LLVMStructTypeKind) for(unsigned i = 0; i < LLVMCountStructElementTypes(t); i++) storety(S, add(addr, C(64, LLVMOffsetOfElement(DL, t, i))), (*v.agg)[i], LLVMStructGetTypeAtIndex(t, i));
	else if(LLVMGetTypeKind(t) == LLVMArrayTypeKind) { LLVMTypeRef et = LLVMGetElementType(t); uint64_t es = LLVMABISizeOfType(DL, et); for(unsigned i = 0; i < LLVMGetArrayLength(t); i++) storety(S, add(addr, C(64, i * es)), (*v.agg)[i], et); }
	else { incomplete("unsupported store type"); throw Kill(); }
}
static void jump(State &S, int target) {
	Frame &f = S.fr.back(); int from = f.bb; Block &B = f.f->blocks[target];
	if(!B.phis.empty()) {
		std::vector<Val> t; t.reserve(B.phis.size());
		for(auto &p : B.phis) t.push_back(getv(S, f, p.in[from]));
		for(size_t i = 0; i < t.size(); i++) f.loc[B.phis[i].dst] = t[i];
	}
	f.bb = target; f.pc = 0; B.covered = true;
}
static std::string readstr(State &S, E p) {
	std::string r; if(!p->isc()) return "?"; int oi = findobj(S, p->k); if(oi < 0) return "?";
	Obj *o = S.mem[oi].p; for(uint64_t i = p->k - o->base; i < o->size && o->val[i]; i++) r += (char)o->val[i]; return r;
}
static void push_frame(State &S, Func *f, std::vector<Val> args, int ret, const std::vector<uint64_t> &byval) {
	prepare(f);
	if(S.fr.size() > 200) { report(S, "memory", "call depth over 200 (runaway recursion)", S.model); throw Kill(); }
	f->used = true; f->blocks[0].covered = true;
	S.fr.emplace_back(); Frame &n = S.fr.back(); n.f = f; n.ret = ret; n.loc.resize(f->nloc);
	for(size_t i = 0; i < args.size(); i++) {
		if(i < byval.size() && byval[i]) { uint64_t a = allocobj(S, byval[i], true, "byval", false, true); n.allocas.push_back(a); memcopy(S, C(64, a), args[i].e, C(64, byval[i]), true); args[i] = V(C(64, a)); }
		if(i < f->params.size()) S.fr.back().loc[f->params[i]] = args[i]; else S.fr.back().va.push_back(args[i]);
	}
}
static void finish(State &S, bool done) {
	st_paths++;
	if(done) { st_done++; }
	static uint64_t seen = 0;
	if(done) { // reservoir of completed paths, deterministic
		seen++;
		static uint64_t rng = 88172645463325252ull; rng = rng * 6364136223846793005ull + 1442695040888963407ull;
		uint64_t k = g_samples.size() < g_maxsamples ? g_samples.size() : (rng >> 33) % seen;
		if(k < g_maxsamples) {
			std::vector<uint64_t> ov; for(auto e : S.obs) ov.push_back(eval(e, S.model));
			if(k == g_samples.size()) { g_samples.emplace_back(); g_sampleobs.emplace_back(); }
			g_samples[k] = ndvals(S, S.model); g_sampleobs[k] = ov;
		}
	}
}
static void do_check(State &S, E c, const std::string &msg) {
	st_checks++;
	if(c->isc()) { st_checks_const++; if(!c->k) { report(S, "check", msg, S.model); throw Kill(); } return; }
	st_checks_solver++; { static bool dbg = getenv("VP_DUMPCHK"); if(dbg) { fprintf(stderr, "CHECK %s: ", msg.c_str()); dump(stderr, c); fprintf(stderr, "\n"); } }
	Model m = S.model; Res r;
	if(!eval(c, S.model)) r = SAT; else r = solve(S.pc, e_not(c), m, true);
	if(r == SAT) {
		report(S, "check", msg, m);
		Model m2 = S.model; if(eval(c, S.model) || solve(S.pc, c, m2) == SAT) { if(!eval(c, S.model)) S.model = m2; S.pc.push_back(c); } else throw Kill();
	} else if(r == UNKNOWN) incomplete("solver-unknown-check: " + msg);
}

static bool call_builtin(State &S, Frame &f, Inst &in) { // returns true when handled; advances pc itself
	auto A = [&](int i) { return get(S, f, in.ops[i]); };
	auto ret = [&](E e) { if(in.dst >= 0) S.fr.back().loc[in.dst] = V(e); };
	switch(in.bi) {
	case B_ND8: case B_ND16: case B_ND32: case B_ND64: { unsigned w = 8u << (in.bi - B_ND8); E s = ndsym(S.nd.size(), w); S.nd.push_back(s); ret(s); break; }
	case B_ASSUME: { E c = A(0); if(c->w > 1) c = e_not(eq(c, C(c->w, 0)));
		if(c->isc()) { if(!c->k) { st_infeasible++; throw Kill(); } break; }
		Model m = S.model; if(!eval(c, S.model)) { Res r = solve(S.pc, c, m); if(r == UNSAT) { st_infeasible++; throw Kill(); } if(r == UNKNOWN) { incomplete("solver-unknown-assume"); throw Kill(); } S.model.swap(m); }
		S.pc.push_back(c); break; }
	case B_CHECK: { E c = A(0); if(c->w > 1) c = e_not(eq(c, C(c->w, 0))); do_check(S, c, readstr(S, A(1))); break; }
	case B_FAIL: do_check(S, e_false(), readstr(S, A(0))); break;
	case B_CHOOSE: { uint64_t n = concretize(S, A(0)); f.pc++;
		S.known.clear();
		for(uint64_t k = n; k-- > 1; ) { State *s = new State(S); s->nd.push_back(C(32, k)); if(in.dst >= 0) s->fr.back().loc[in.dst] = V(C(32, k)); pushstate(s); }
		S.nd.push_back(C(32, 0)); ret(C(32, 0)); return true; }
	case B_FORK: { uint64_t v = concretize(S, A(0)); ret(C(64, v)); break; }
	case B_DONE: finish(S, true); throw Kill();
	case B_OBS: S.obs.push_back(zext(A(0), 64)); break;
	case B_MALLOC: { uint64_t n = concretize(S, A(0)); if(n > (1u << 26)) { ret(C(64, 0)); break; } ret(C(64, allocobj(S, n, true, "heap", true))); break; }
	case B_FREE: { uint64_t p = concretize(S, A(0)); if(!p) break; int oi = findobj(S, p);
		if(oi < 0 || S.mem[oi].p->base != p || !S.mem[oi].p->heap) { report(S, "memory", "free of a pointer that is not an allocation", S.model); throw Kill(); }
		if(S.mem[oi].p->freed) { report(S, "memory", "double free", S.model); throw Kill(); }
		Obj *o = S.mem[oi].w(); o->freed = true; o->val.clear(); o->sym.clear(); o->un.clear(); o->val.shrink_to_fit(); break; }
	case B_OBJSIZE: { uint64_t p = concretize(S, A(0)); int oi = findobj(S, p);
		if(oi < 0 || S.mem[oi].p->base != p || !S.mem[oi].p->heap || S.mem[oi].p->freed) { report(S, "memory", "realloc of a pointer that is not a live allocation", S.model); throw Kill(); }
		ret(C(64, S.mem[oi].p->size)); break; }
	case B_RO: { uint64_t p = concretize(S, A(0)); int oi = findobj(S, p); if(oi >= 0) S.mem[oi].w()->ro = true; break; }
	case B_VALID: { uint64_t p = concretize(S, A(0)), n = concretize(S, A(1)); int oi = findobj(S, p); bool ok = oi >= 0 && !S.mem[oi].p->freed && p - S.mem[oi].p->base <= S.mem[oi].p->size && n <= S.mem[oi].p->size - (p - S.mem[oi].p->base); ret(C(32, ok)); break; }
	case B_MEMCPY: memcopy(S, A(0), A(1), A(2), false); ret(A(0)); break;
	case B_MEMMOVE: memcopy(S, A(0), A(1), A(2), true); ret(A(0)); break;
	case B_MEMSET: { uint64_t n = concretize(S, A(2)); E d = A(0); if(n) { uint64_t p = concretize(S, d); E off; if(n > (1ull << 40)) { report(S, "memory", "memset of a huge length", S.model); throw Kill(); } int oi = resolve(S, C(64, p), n, off, true, "memset"); E b = extract(A(1), 0, 8); Obj *o = S.mem[oi].w(); for(uint64_t i = 0; i < n; i++) wrbyte(o, off->k + i, b); } ret(d); break; }
	case B_NOP: break;
	case B_STACKSAVE: ret(C(64, 0)); break;
	case B_VASTART: {
		uint64_t sz = f.va.size() * 8; uint64_t a = allocobj(S, sz ? sz : 1, false, "varargs", false, true); Frame &g = S.fr.back(); g.allocas.push_back(a);
		for(size_t i = 0; i < g.va.size(); i++) memwrite(S, C(64, a + 8 * i), zext(g.va[i].e, 64), 8);
		E vl = A(0); memwrite(S, vl, C(32, 48), 4); memwrite(S, add(vl, C(64, 4)), C(32, 304), 4); memwrite(S, add(vl, C(64, 8)), C(64, a), 8); memwrite(S, add(vl, C(64, 16)), C(64, 0), 8); break; }
	case B_VACOPY: memcopy(S, A(0), A(1), C(64, 24), true); break;
	case B_ABS: { E x = A(0); ret(ite(slt(x, C(x->w, 0)), sub(C(x->w, 0), x), x)); break; }
	case B_SMIN: { E x = A(0), y = A(1); ret(ite(slt(x, y), x, y)); break; }
	case B_SMAX: { E x = A(0), y = A(1); ret(ite(slt(x, y), y, x)); break; }
	case B_UMIN: { E x = A(0), y = A(1); ret(ite(ult(x, y), x, y)); break; }
	case B_UMAX: { E x = A(0), y = A(1); ret(ite(ult(x, y), y, x)); break; }
	case B_BSWAP: { E x = A(0); E r = extract(x, x->w - 8, 8); for(int b = (int)x->w - 16; b >= 0; b -= 8) r = concat(extract(x, b, 8), r); ret(r); break; }
	case B_CTPOP: { E x = A(0); E r = C(x->w, 0); for(unsigned b = 0; b < x->w; b++) r = add(r, zext(extract(x, b, 1), x->w)); ret(r); break; }
	case B_CTLZ: { E x = A(0); E r = C(x->w, x->w); for(unsigned b = 0; b < x->w; b++) r = ite(extract(x, b, 1), C(x->w, x->w - 1 - b), r); ret(r); break; }
	case B_CTTZ: { E x = A(0); E r = C(x->w, x->w); for(int b = x->w - 1; b >= 0; b--) r = ite(extract(x, b, 1), C(x->w, b), r); ret(r); break; }
	case B_FSHL: case B_FSHR: { E x = A(0), y = A(1), s = A(2); unsigned w = x->w; uint64_t k = concretize(S, s) % w; if(in.bi == B_FSHR) k = (w - k) % w, ret(k == 0 ? y : e_or(shl(x, C(w, k)), lshr(y, C(w, w - k)))); else ret(k == 0 ? x : e_or(shl(x, C(w, k)), lshr(y, C(w, w - k)))); break; }
	case B_EXPECT: ret(A(0)); break;
	case B_OBJECTSIZE: ret(C(in.w, ~0ull)); break;
	case B_SAT: { E x = A(0), y = A(1); if(in.cname.find("usub") != std::string::npos) ret(ite(ult(x, y), C(x->w, 0), sub(x, y))); else { E s = add(x, y); ret(ite(ult(s, x), C(x->w, ~0ull), s)); } break; }
	case B_OVF: {
		E x = A(0), y = A(1); unsigned w = x->w; E r, o; const std::string &n = in.cname;
		if(n.find(".uadd") != std::string::npos) { r = add(x, y); o = ult(r, x); }
		else if(n.find(".usub") != std::string::npos) { r = sub(x, y); o = ult(x, y); }
		else if(n.find(".sadd") != std::string::npos) { r = add(x, y); o = e_and(eq(slt(x, C(w,0)), slt(y, C(w,0))), e_not(eq(slt(r, C(w,0)), slt(x, C(w,0))))); }
		else if(n.find(".ssub") != std::string::npos) { r = sub(x, y); o = e_and(e_not(eq(slt(x, C(w,0)), slt(y, C(w,0)))), e_not(eq(slt(r, C(w,0)), slt(x, C(w,0))))); }
		else if(w <= 32) { bool sg = n.find(".smul") != std::string::npos; E p = sg ? mul(sext(x, 2*w), sext(y, 2*w)) : mul(zext(x, 2*w), zext(y, 2*w)); r = extract(p, 0, w); o = e_not(eq(p, sg ? sext(r, 2*w) : zext(r, 2*w))); }
		else if(n.find(".umul") != std::string::npos) { r = mul(x, y); if(x->isc()) std::swap(x, y); if(y->isc()) o = y->k ? ult(C(w, ~0ull / y->k), x) : e_false(); else o = e_and(e_not(eq(x, C(w,0))), e_not(eq(udivrem(UDIV, r, ite(eq(x, C(w,0)), C(w,1), x)), y))); }
		else { incomplete("unsupported overflow intrinsic"); throw Kill(); }
		Val v; v.agg = std::make_shared<std::vector<Val>>(); v.agg->push_back(V(r)); v.agg->push_back(V(o)); f.loc[in.dst] = v; break; }
	case B_TRAP: case B_ABORT: report(S, "memory", "abort/trap reached", S.model); throw Kill();
	default: return false;
	}
	S.fr.back().pc++;
	return true;
}

// ---- function merging: a call of a side-effect-free function that returns an integer is explored on its own and its
// paths are joined into one if-then-else term, instead of multiplying the paths of the caller.
static std::set<std::string> g_mergenames; static uint64_t st_merges, st_mergedpaths, st_mergefail;
static bool pureish(Func *f, std::set<Func*> &seen, bool &br) {
	if(!seen.insert(f).second) return true;
	if(f->decl) { auto it = g_funcs.find("vp_" + f->name); if(it == g_funcs.end() || it->second->decl) return false; f = it->second; }
	prepare(f);
	for(auto &b : f->blocks) for(auto &i : b.insts) switch(i.op) {
		case LLVMStore: case LLVMAlloca: case LLVMUnreachable: return false;
		case LLVMCall:
			if(i.bi != B_NONE) { if(i.bi == B_NOP || (i.bi >= B_ABS && i.bi <= B_EXPECT) || (i.bi >= B_CTLZ && i.bi <= B_SAT)) break; return false; }
			if(!i.callee || !pureish(i.callee, seen, br)) return false; break;
		case LLVMBr: case LLVMSwitch: if(i.succ.size() > 1) br = true; break;
		default: break;
	}
	return true;
}
static bool mergeable(Func *f) {
	if(f->merge >= 0) return f->merge;
	f->merge = 0;
	if(g_mergenames.empty()) return false;
	LLVMTypeRef ft = LLVMGlobalGetValueType(f->v), rt = LLVMGetReturnType(ft);
	if(LLVMGetTypeKind(rt) != LLVMIntegerTypeKind || LLVMIsFunctionVarArg(ft)) return false;
	if(!g_mergenames.count(f->name)) { if(!g_mergenames.count("*")) return false; for(unsigned i = 0; i < LLVMCountParams(f->v); i++) if(LLVMGetTypeKind(LLVMTypeOf(LLVMGetParam(f->v, i))) != LLVMIntegerTypeKind) return false; }
	bool br = false; std::set<Func*> seen; if(!pureish(f, seen, br) || !br) return false;
	return f->merge = 1;
}
static void step(State &S);
typedef std::vector<std::pair<std::vector<E>, E>> MPaths;
static E mtree(const MPaths &P, const std::vector<int> &ix, size_t lvl) {
	bool same = true; for(int i : ix) if(P[i].second != P[ix[0]].second) same = false;
	if(same) return P[ix[0]].second;
	E c = P[ix[0]].first.size() > lvl ? P[ix[0]].first[lvl] : nullptr; if(!c) return nullptr;
	std::vector<int> a, b; bool compl_ = true; E nc = e_not(c);
	for(int i : ix) { if(P[i].first.size() <= lvl) return nullptr; if(P[i].first[lvl] == c) a.push_back(i); else { b.push_back(i); if(P[i].first[lvl] != nc) compl_ = false; } }
	E x = mtree(P, a, lvl + 1); if(!x) return nullptr; if(b.empty()) return x;
	E y = mtree(P, b, compl_ ? lvl + 1 : lvl); return y ? ite(c, x, y) : nullptr;
}
static bool try_merge(State &S, Func *c, const std::vector<Val> &args, int dst, const std::vector<uint64_t> &byval) {
	size_t depth = S.fr.size(), wb = g_work.size(), pb = S.pc.size();
	auto sv = g_viol; auto svk = g_violkeys; auto si = g_incomplete; int sr = g_reports; double sf = g_firstviol; uint64_t fk = st_forks;
	State *b = new State(S); b->fr.back().pc++; push_frame(*b, c, args, dst, byval); g_work.push_back(b);
	MPaths P; bool ok = true; uint64_t ms = S.steps;
	while(ok && g_work.size() > wb) {
		State *s = g_work.back(); g_work.pop_back();
		try {
			while(s->fr.size() > depth) { step(*s); if(s->steps > g_maxsteps || g_timeup) throw Kill(); }
			if(s->nun != S.nun || s->nd.size() != S.nd.size() || s->mem.size() != S.mem.size() || P.size() >= 400) ok = false;
			else { P.push_back({std::vector<E>(s->pc.begin() + pb, s->pc.end()), s->fr.back().loc[dst].e}); ms = std::max(ms, s->steps); }
		} catch(Kill &) { ok = false; }
		delete s;
	}
	while(g_work.size() > wb) { delete g_work.back(); g_work.pop_back(); }
	if(ok && (g_reports != sr || g_incomplete != si)) ok = false;
	E r = nullptr;
	if(ok) { std::vector<int> ix; for(size_t i = 0; i < P.size(); i++) ix.push_back(i); r = mtree(P, ix, 0); }
	if(!r) { g_viol = sv; g_violkeys = svk; g_incomplete = si; g_reports = sr; g_firstviol = sf; st_mergefail++; st_forks = fk; if(++c->mfail > 3) c->merge = 0; return false; }
	st_merges++; st_mergedpaths += P.size(); st_forks = fk; S.steps = ms;
	S.fr.back().pc++; if(dst >= 0) S.fr.back().loc[dst] = V(r);
	return true;
}

static void step(State &S) {
	Frame &f = S.fr.back(); Block &B = f.f->blocks[f.bb]; Inst &in = B.insts[f.pc];
	S.steps++; st_instr++;
	auto A = [&](int i) { return get(S, f, in.ops[i]); };
	auto setr = [&](E e) { f.loc[in.dst] = V(e); f.pc++; };
	switch(in.op) {
	case LLVMRet: {
		Val r; if(!in.ops.empty()) r = getv(S, f, in.ops[0]);
		int dst = f.ret;
		if(!f.allocas.empty()) {
			std::set<uint64_t> del(f.allocas.begin(), f.allocas.end());
			S.mem.erase(std::remove_if(S.mem.begin(), S.mem.end(), [&](ObjRef &o) { return o.p->stack && del.count(o.p->base); }), S.mem.end());
		}
		S.fr.pop_back();
		if(S.fr.empty()) { incomplete("entry returned without vp_done"); throw Kill(); }
		if(dst >= 0) S.fr.back().loc[dst] = r;
		break; }
	case LLVMBr:
		if(in.succ.size() == 1) { jump(S, in.succ[0]); break; }
		{
			E c = A(0); int t = in.succ[0], e = in.succ[1];
			bool v = branch(S, c, [&](State &n, bool d) { jump(n, d ? t : e); });
			jump(S, v ? t : e);
		}
		break;
	case LLVMSwitch: {
		E c = A(0);
		if(c->isc()) { int t = in.succ[0]; for(size_t k = 1; k < in.ops.size(); k++) if(in.ops[k].c.e->k == c->k) { t = in.succ[k]; break; } jump(S, t); break; }
		// group by target
		uint64_t v = eval(c, S.model);
		std::map<int, E> conds; E def = e_true(); int cur = in.succ[0];
		for(size_t k = 1; k < in.ops.size(); k++) { E q = eq(c, in.ops[k].c.e); def = e_and(def, e_not(q)); if(in.ops[k].c.e->k == v) cur = in.succ[k]; auto it = conds.find(in.succ[k]); if(it == conds.end()) conds[in.succ[k]] = q; else it->second = e_or(it->second, q); }
		{ auto it = conds.find(in.succ[0]); if(it == conds.end()) conds[in.succ[0]] = def; else it->second = e_or(it->second, def); }
		bool any = false;
		for(auto &p : conds) if(p.first != cur) {
			if(p.second->isc(0)) continue;
			Model m = S.model; Res r = solve(S.pc, p.second, m);
			if(r == SAT) { any = true; State *n = new State(S); n->pc.push_back(p.second); n->model.swap(m); n->depth++; jump(*n, p.first); pushstate(n); }
			else if(r == UNKNOWN) incomplete("solver-unknown-branch");
		}
		if(any) S.pc.push_back(conds[cur]);
		jump(S, cur);
		break; }
	case LLVMUnreachable: report(S, "memory", "unreachable code reached", S.model); throw Kill();
	case LLVMAlloca: { uint64_t n = concretize(S, zext(A(0), 64)); uint64_t a = allocobj(S, n * in.off, true, "local", false, true); f.allocas.push_back(a); setr(C(64, a)); break; }
	case LLVMLoad: { Val v = loadty(S, A(0), in.ty); f.loc[in.dst] = v; f.pc++; break; }
	case LLVMStore: { Val v = getv(S, f, in.ops[0]); storety(S, A(1), v, in.ty); f.pc++; break; }
	case LLVMGetElementPtr: { E a = add(A(0), C(64, in.off)); for(auto &g : in.gep) { E ix = get(S, f, g.op); ix = ix->w < 64 ? sext(ix, 64) : ix; a = add(a, mul(ix, C(64, g.scale))); } setr(a); break; }
	case LLVMICmp: {
		E a = A(0), b = A(1), r;
		switch(in.pred) {
		case LLVMIntEQ: r = eq(a, b); break; case LLVMIntNE: r = e_not(eq(a, b)); break;
		case LLVMIntUGT: r = ult(b, a); break; case LLVMIntUGE: r = e_not(ult(a, b)); break; case LLVMIntULT: r = ult(a, b); break; case LLVMIntULE: r = e_not(ult(b, a)); break;
		case LLVMIntSGT: r = slt(b, a); break; case LLVMIntSGE: r = e_not(slt(a, b)); break; case LLVMIntSLT: r = slt(a, b); break; default: r = e_not(slt(b, a)); break;
		}
		setr(r); break; }
	case LLVMAdd: setr(add(A(0), A(1))); break;
	case LLVMSub: setr(sub(A(0), A(1))); break;
	case LLVMMul: setr(mul(A(0), A(1))); break;
	case LLVMAnd: setr(e_and(A(0), A(1))); break;
	case LLVMOr: setr(e_or(A(0), A(1))); break;
	case LLVMXor: setr(e_xor(A(0), A(1))); break;
	case LLVMShl: case LLVMLShr: case LLVMAShr: { E a = A(0), b = A(1); if(a->w == 32 || a->w == 64) b = e_and(b, C(b->w, a->w - 1)); setr(binop(in.op == LLVMShl ? SHL : in.op == LLVMLShr ? LSHR : ASHR, a, b)); break; }
	case LLVMUDiv: case LLVMSDiv: case LLVMURem: case LLVMSRem: {
		E a = A(0), b = A(1); E nz = e_not(eq(b, C(b->w, 0)));
		if(!nz->isc(1)) { st_memchecks++; Model m = S.model; Res r = solve(S.pc, e_not(nz), m); if(r == SAT) { report(S, "memory", "division by zero", m); Model m2 = S.model; if(solve(S.pc, nz, m2) != SAT) throw Kill(); S.model = m2; S.pc.push_back(nz); } else if(r == UNKNOWN) incomplete("solver-unknown-div"); }
		if((in.op == LLVMSDiv || in.op == LLVMSRem) && b->isc() && b->k == mask(b->w)) { E ov = eq(a, C(a->w, 1ull << (a->w - 1))); if(!ov->isc(0)) { Model m = S.model; if(solve(S.pc, ov, m) == SAT) report(S, "memory", "signed division overflow", m); } }
		setr(binop(in.op == LLVMUDiv ? UDIV : in.op == LLVMSDiv ? SDIV : in.op == LLVMURem ? UREM : SREM, a, b)); break; }
	case LLVMTrunc: setr(extract(A(0), 0, in.w)); break;
	case LLVMZExt: setr(zext(A(0), in.w)); break;
	case LLVMSExt: setr(sext(A(0), in.w)); break;
	case LLVMPtrToInt: case LLVMIntToPtr: case LLVMBitCast: { E a = A(0); setr(a->w > in.w ? extract(a, 0, in.w) : zext(a, in.w)); break; }
	case LLVMFreeze: f.loc[in.dst] = getv(S, f, in.ops[0]); f.pc++; break;
	case LLVMSelect: {
		E c = A(0); Val x = getv(S, f, in.ops[1]), y = getv(S, f, in.ops[2]);
		if(x.e && y.e) { setr(ite(c, x.e, y.e)); break; }
		f.loc[in.dst] = concretize(S, c) ? x : y; f.pc++; break; }
	case LLVMExtractValue: { Val v = getv(S, f, in.ops[0]); for(auto i : in.idxs) { Val t = (*v.agg)[i]; v = t; } f.loc[in.dst] = v; f.pc++; break; }
	case LLVMInsertValue: {
		Val v = getv(S, f, in.ops[0]); Val nv = getv(S, f, in.ops[1]); Val r; r.agg = std::make_shared<std::vector<Val>>(*v.agg); Val *p = &r;
		for(size_t k = 0; k < in.idxs.size(); k++) { p = &(*p->agg)[in.idxs[k]]; if(k + 1 < in.idxs.size()) p->agg = std::make_shared<std::vector<Val>>(*p->agg); }
		*p = nv; f.loc[in.dst] = r; f.pc++; break; }
	case LLVMCall: {
		if(in.bi != B_NONE && call_builtin(S, f, in)) break;
		Func *c = in.callee; size_t na = in.ops.size();
		if(!c) { na--; uint64_t a = concretize(S, get(S, f, in.ops[na])); auto it = g_fbyaddr.find(a); if(it == g_fbyaddr.end()) { report(S, "memory", "call through invalid function pointer", S.model); throw Kill(); } c = it->second; }
		if(c->decl) { auto it = g_funcs.find("vp_" + c->name); if(it == g_funcs.end() || it->second->decl) {
			int bi = builtin(c->name); (void)bi;
			incomplete("unmodelled function " + c->name); throw Kill(); } c = it->second; }
		std::vector<Val> args; for(size_t i = 0; i < na; i++) args.push_back(getv(S, f, in.ops[i]));
		int dst = in.dst;
		if(dst >= 0 && mergeable(c)) { bool sy = g_mergenames.count(c->name); for(auto &a : args) if(a.e && !a.e->isc()) sy = true; if(sy && try_merge(S, c, args, dst, in.byval)) break; }
		S.fr.back().pc++;
		push_frame(S, c, std::move(args), dst, in.byval);
		break; }
	default: { char *s = LLVMPrintValueToString(in.v); incomplete(std::string("unsupported instruction ") + s); throw Kill(); }
	}
}

static int bbtest(E r, uint64_t want, const Model &m) {
	static const unsigned ws[] = {1, 8, 16, 32, 64};
	try {
		if(!ps || ps_vars > 20000) ps_reset();
		Bits b = bb(r); std::vector<int> as;
		for(uint32_t s : *r->syms) { Bits q = bb(mk(SYM, ws[s % 5], s)); for(unsigned i = 0; i < q.size(); i++) as.push_back(m[s] >> i & 1 ? q[i] : -q[i]); }
		for(int l : as) picosat_assume(ps, l); for(unsigned i = 0; i < b.size(); i++) picosat_assume(ps, want >> i & 1 ? b[i] : -b[i]);
		if(picosat_sat(ps, -1) != PICOSAT_SATISFIABLE) return 1;
		int d = fresh(); { std::vector<int> c; for(unsigned i = 0; i < b.size(); i++) c.push_back(want >> i & 1 ? -b[i] : b[i]); picosat_add(ps, -d); for(int x : c) picosat_add(ps, x); picosat_add(ps, 0); }
		for(int l : as) picosat_assume(ps, l); picosat_assume(ps, d);
		if(picosat_sat(ps, -1) != PICOSAT_UNSATISFIABLE) return 2;
	} catch(Hard &) { ps_reset(); }
	return 0;
}
static std::string js(const std::string &s) { std::string r = "\""; for(char c : s) { if(c == '"' || c == '\\') { r += '\\'; r += c; } else if((unsigned char)c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r + "\""; }
static std::string jnd(const std::vector<std::pair<unsigned,uint64_t>> &v) { std::string r = "["; for(size_t i = 0; i < v.size(); i++) { char b[48]; snprintf(b, sizeof b, "%s%llu", i ? "," : "", (unsigned long long)v[i].second); r += b; } return r + "]"; }

int main(int argc, char **argv) {
	const char *mod = nullptr; std::string entry = "harness";
	for(int i = 1; i < argc; i++) {
		std::string a = argv[i];
		if(a == "-selftest") g_bbtest = bbtest, selftest(atoi(argv[i+1]), atoi(argv[i+2])); else if(a == "-e") entry = argv[++i]; else if(a == "-T") g_tlimit = atof(argv[++i]); else if(a == "-q") g_query_ms = atoi(argv[++i]);
		else if(a == "-s") g_maxsteps = strtoull(argv[++i], 0, 10); else if(a == "-linmax") LINMAX = atoi(argv[++i]); else if(a == "-m") g_maxsamples = atoi(argv[++i]); else if(a == "-merge") { std::string l = argv[++i], t; for(char c : l + ",") if(c == ',') { if(t.size()) g_mergenames.insert(t); t.clear(); } else t += c; } else if(a == "-v") g_stop_after = atoi(argv[++i]); else mod = argv[i];
	}
	double t0 = now(); g_deadline = t0 + g_tlimit;
	LC = LLVMContextCreate(); LLVMMemoryBufferRef mb; char *err = nullptr; LLVMModuleRef M;
	if(LLVMCreateMemoryBufferWithContentsOfFile(mod, &mb, &err)) die(err);
	if(LLVMParseIRInContext(LC, mb, &M, &err)) die(err);
	DL = LLVMGetModuleDataLayout(M);
	solver_init(); g_nosat = getenv("VP_NOSAT");
	State *S = new State();
	uint64_t fa = 0x100000;
	for(auto f = LLVMGetFirstFunction(M); f; f = LLVMGetNextFunction(f)) {
		Func *F = new Func(); size_t l; F->v = f; F->name = LLVMGetValueName2(f, &l); F->decl = LLVMIsDeclaration(f); F->addr = fa; fa += 16; g_funcs[F->name] = F; g_fbyv[f] = F; g_fbyaddr[F->addr] = F;
		LLVMMetadataRef sp = LLVMGetSubprogram(f); if(sp) { LLVMMetadataRef fl = LLVMDIScopeGetFile(sp); unsigned n; if(fl) { const char *q = LLVMDIFileGetFilename(fl, &n); F->file = std::string(q, n); } }
	}
	uint64_t ga = 0x10000000; std::vector<std::pair<LLVMValueRef, Obj*>> gl;
	for(auto g = LLVMGetFirstGlobal(M); g; g = LLVMGetNextGlobal(g)) {
		LLVMTypeRef t = LLVMGlobalGetValueType(g); Obj *o = new Obj(); o->base = ga; o->size = LLVMABISizeOfType(DL, t); size_t l; o->name = LLVMGetValueName2(g, &l); o->ro = LLVMIsGlobalConstant(g); o->val.assign(o->size, 0);
		ga += ((o->size + 0x10000) + 4095) & ~4095ull; g_gaddr[g] = o->base; gl.push_back({g, o});
	}
	for(auto &p : gl) { LLVMValueRef i = LLVMGetInitializer(p.first); if(i) initmem(p.second, 0, i); S->mem.push_back(ObjRef(p.second)); }
	auto fe = g_funcs.find(entry); if(fe == g_funcs.end() || fe->second->decl) die("no entry " + entry);
	push_frame(*S, fe->second, {}, -1, {});
	g_work.push_back(S);
	bool timeout = false;
	while(!g_work.empty() && !timeout) {
		State *s = g_work.back(); g_work.pop_back();
		try {
			for(;;) {
				step(*s);
				if(s->steps > g_maxsteps) { report(*s, "hang", "path exceeds the step limit", s->model); incomplete("step limit"); throw Kill(); }
				if(g_timeup || ((st_instr & 1023) == 0 && now() > g_deadline)) { timeout = true; incomplete("time limit"); throw Kill(); }
			}
		} catch(Kill &) { }
		end_path(s);
		if((int)g_viol.size() >= g_stop_after || g_reports >= 24 || (g_firstviol && now() - g_firstviol > 8)) { incomplete("stopped after violations"); break; }
	}
	printf("{\"paths\":%llu,\"done\":%llu,\"assumed_away\":%llu,\"forks\":%llu,\"instructions\":%llu,\"checks\":%llu,\"checks_const\":%llu,\"checks_solver\":%llu,\"mem_checks\":%llu,", (unsigned long long)st_paths, (unsigned long long)st_done, (unsigned long long)st_infeasible, (unsigned long long)st_forks, (unsigned long long)st_instr, (unsigned long long)st_checks, (unsigned long long)st_checks_const, (unsigned long long)st_checks_solver, (unsigned long long)st_memchecks);
	printf("\"merged_calls\":%llu,\"merged_paths\":%llu,\"merge_failed\":%llu,", (unsigned long long)st_merges, (unsigned long long)st_mergedpaths, (unsigned long long)st_mergefail);
	printf("\"sweeps\":%llu,\"sweep_queries\":%llu,\"sat_calls\":%llu,\"sat_sat\":%llu,\"sat_unsat\":%llu,\"sat_hard\":%llu,\"sat_limit\":%llu,\"cross_checked\":%llu,\"disagree\":%llu,\"sat_time\":%.3f,", (unsigned long long)st_sweep, (unsigned long long)st_sweep_q, (unsigned long long)st_sat_calls, (unsigned long long)st_sat_sat, (unsigned long long)st_sat_unsat, (unsigned long long)st_sat_hard, (unsigned long long)st_sat_limit, (unsigned long long)st_cross, (unsigned long long)st_disagree, st_sattime);
	printf("\"queries\":%llu,\"z3_calls\":%llu,\"z3_sat\":%llu,\"z3_unsat\":%llu,\"z3_unknown\":%llu,\"cache_hits\":%llu,\"model_hits\":%llu,\"z3_time\":%.3f,\"z3_max\":%.3f,\"wall\":%.3f,\"pending\":%zu,", (unsigned long long)st_queries, (unsigned long long)st_z3, (unsigned long long)st_sat, (unsigned long long)st_unsat, (unsigned long long)st_unknown, (unsigned long long)st_cache, (unsigned long long)st_modelhit, st_z3time, st_z3max, now() - t0, g_work.size());
	printf("\"incomplete\":{"); bool c = false; for(auto &p : g_incomplete) { printf("%s%s:%llu", c ? "," : "", js(p.first).c_str(), (unsigned long long)p.second); c = true; } printf("},");
	printf("\"violations\":["); c = false; for(auto &v : g_viol) { printf("%s{\"kind\":%s,\"msg\":%s,\"loc\":%s,\"nd\":%s}", c ? "," : "", js(v.kind).c_str(), js(v.msg).c_str(), js(v.loc).c_str(), jnd(v.nd).c_str()); c = true; } printf("],");
	printf("\"functions\":["); c = false; for(auto &p : g_funcs) if(p.second->used) { int nb = p.second->blocks.size(), cv = 0; for(auto &b : p.second->blocks) cv += b.covered; printf("%s{\"name\":%s,\"file\":%s,\"blocks\":%d,\"covered\":%d}", c ? "," : "", js(p.first).c_str(), js(p.second->file).c_str(), nb, cv); c = true; } printf("],");
	printf("\"samples\":["); for(size_t i = 0; i < g_samples.size(); i++) { printf("%s{\"nd\":%s,\"obs\":[", i ? "," : "", jnd(g_samples[i]).c_str()); for(size_t j = 0; j < g_sampleobs[i].size(); j++) printf("%s%llu", j ? "," : "", (unsigned long long)g_sampleobs[i][j]); printf("]}"); } printf("]}\n");
	fflush(stdout); _exit(0);
}
