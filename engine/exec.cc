// sx: a bounded symbolic executor for LLVM IR (see /verif/DESIGN.md).
#include "expr.h"
#include "solver.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/InlineAsm.h>
#include <unistd.h>
#include <climits>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <chrono>
#include <cmath>
#include <cstring>
#include <fstream>
#include <map>
#include <set>
#include <unordered_map>
#include <algorithm>
#include <functional>
using namespace sx;
using llvm::isa; using llvm::cast; using llvm::dyn_cast;
typedef uint64_t u64;

struct Agg;
struct Val { u64 c = 0; E e = nullptr; };
static const E AGG = (E)1;      // Val.c is an Agg*
static const E UNINIT = (E)2;   // marker in Obj::s
struct Agg { std::vector<Val> v; };
static inline Val cv(u64 c) { Val v; v.c = c; return v; }
static inline Val ev(E e) { Val v; if (isC(e)) v.c = e->val; else v.e = e; return v; }
static inline E toE(const Val& v, unsigned w) { assert(v.e != AGG); return v.e ? v.e : mkConst(v.c, w); }

enum Kind : uint8_t { GLOBAL, STACK, HEAP_MALLOC, HEAP_NEW, HEAP_NEWA, EXC, MISC };
struct Obj { int rc = 1; u64 base, size; Kind kind; bool ro = false; std::vector<uint8_t> d; std::vector<E> s; };
struct MemEnt { u64 base; Obj* o; };

struct KInst { const llvm::Instruction* I; unsigned op; int dst = -1; unsigned w = 0; std::vector<int> ops; int64_t coff = 0; std::vector<std::pair<int, u64>> scaled; std::vector<unsigned> gw; int bb0 = -1, bb1 = -1, bb = -1; std::vector<int> inc; };
struct KFunc { llvm::Function* F; std::vector<KInst> insts; std::vector<int> bbStart; std::map<const llvm::BasicBlock*, int> bbIdx; unsigned numRegs = 0; std::vector<Val> consts; bool ready = false, entered = false; std::string name; u64 addr = 0; };
struct Frame { KFunc* f; int pc; int prevBB; std::vector<Val> regs; std::vector<u64> allocas; u64 va = 0; };
struct Obs { std::string label; Val v; unsigned w; };
struct ExcInfo { u64 ti, dtor, adjusted; int handlers; };
struct Loc { std::string s; };
struct State {
  std::vector<Frame> st; std::vector<MemEnt> mem; u64 bump; std::vector<E> pc; Model m;
  std::vector<u64> caught; u64 curExc = 0; int uncaught = 0; std::map<u64, ExcInfo> exc;
  u64 steps = 0; std::vector<Obs> obs; std::vector<uint32_t> inputs; std::map<std::string, int> nameCount; std::set<std::string> reached;
  std::vector<KFunc*> todo; u64 liveHeap = 0; u64 allocLimit = 1 << 20; bool stay = false; unsigned fresh = 0; unsigned forks = 0;
  State() {}
  State(const State& o) = default;
};
struct PathEnd { enum K { Done, Discard, Error, Incomplete } k; std::string kind, msg; };

static llvm::LLVMContext ctx; static std::unique_ptr<llvm::Module> M; static const llvm::DataLayout* DL;
static std::unordered_map<const llvm::Function*, KFunc*> funcs; static std::unordered_map<u64, KFunc*> funcByAddr;
static std::unordered_map<const llvm::GlobalValue*, u64> gaddr; static std::unordered_map<u64, const llvm::GlobalVariable*> globalByAddr;
static std::vector<State*> work;
static u64 maxSteps = 20000000, maxPaths = 1000000, maxErrors = 3; static double timeBudget = 800; static size_t maxSamples = 4; static u64 memLimitMB = 6000;
static std::string outFile, replayDir, entryName, repoPrefix; static std::vector<std::pair<std::string, u64>> fixes;
static u64 nPaths = 0, nDone = 0, nDiscard = 0, nIncomplete = 0, nInst = 0, nForks = 0, nAsserts = 0, nAssertQueries = 0, nMemChecks = 0;
static std::map<std::string, u64> incompleteWhy; static std::set<std::string> reachedAll, expectAll; static std::map<std::string, u64> assertCount;
struct Viol { std::string kind, msg, loc, replay; std::vector<std::string> stack; std::string inputs; };
static std::vector<Viol> viols; static std::map<std::string, int> violCount;
struct Sample { std::string inputs, obs; }; static std::vector<Sample> samples; static std::vector<std::pair<std::string,std::string>> sampleFiles;
static double t0; static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static bool trace = false, verbose = false;

[[noreturn]] static void endPath(PathEnd::K k, const std::string& kind = "", const std::string& msg = "") { throw PathEnd{k, kind, msg}; }
[[noreturn]] static void incomplete(const std::string& why) { throw PathEnd{PathEnd::Incomplete, "incomplete", why}; }

static std::string instLoc(const KInst& k) {
  if (auto& dl = k.I->getDebugLoc()) { auto* s = cast<llvm::DIScope>(dl.getScope()); return s->getFilename().str() + ":" + std::to_string(dl.getLine()); }
  return "?";
}
static std::string repoLoc(State& s) { // innermost location inside the repository
  for (size_t i = s.st.size(); i-- > 0;) { auto& f = s.st[i]; if (f.pc < 0 || f.pc >= (int)f.f->insts.size()) continue;
    const llvm::DILocation* dl = f.f->insts[f.pc].I->getDebugLoc().get();
    for (; dl; dl = dl->getInlinedAt()) { std::string fn = cast<llvm::DIScope>(dl->getScope())->getFilename().str(); std::string dir = cast<llvm::DIScope>(dl->getScope())->getDirectory().str();
      std::string full = fn.empty() || fn[0] != '/' ? dir + "/" + fn : fn;
      if (!repoPrefix.empty() && full.find(repoPrefix) == 0) return full.substr(repoPrefix.size()) + ":" + std::to_string(dl->getLine()); } }
  return "?";
}
// ---------------------------------------------------------------- memory
static void unref(Obj* o) { if (--o->rc == 0) delete o; }
static void cloneMemRefs(State& s) { for (auto& e : s.mem) e.o->rc++; }
static State* cloneState(State& s) { State* n = new State(s); cloneMemRefs(*n); nForks++; s.forks++; n->forks++; return n; }
static void freeState(State* s) { for (auto& e : s->mem) unref(e.o); delete s; }
static MemEnt* findEnt(State& s, u64 a) {
  auto it = std::upper_bound(s.mem.begin(), s.mem.end(), a, [](u64 x, const MemEnt& e) { return x < e.base; });
  if (it == s.mem.begin()) return nullptr; --it;
  if (a >= it->base + std::max<u64>(it->o->size, 1)) return nullptr;
  return &*it;
}
static Obj* writable(MemEnt* e) { if (e->o->rc > 1) { Obj* n = new Obj(*e->o); n->rc = 1; e->o->rc--; e->o = n; } return e->o; }
static u64 allocObj(State& s, u64 size, Kind k, bool uninit, u64 align = 16) {
  if (align < 16) align = 16;
  u64 b = (s.bump + align - 1) / align * align; s.bump = b + size + 32;
  Obj* o = new Obj; o->base = b; o->size = size; o->kind = k; o->d.assign(size, 0); if (uninit && size) o->s.assign(size, UNINIT);
  s.mem.push_back({b, o}); return b;
}
static void removeObj(State& s, u64 base) { auto it = std::lower_bound(s.mem.begin(), s.mem.end(), base, [](const MemEnt& e, u64 x) { return e.base < x; }); if (it != s.mem.end() && it->base == base) { unref(it->o); s.mem.erase(it); } }
static void report(State& s, const std::string& kind, const std::string& msg);
[[noreturn]] static void error(const std::string& kind, const std::string& msg) { throw PathEnd{PathEnd::Error, kind, msg}; }
static std::string hex(u64 v) { char b[32]; snprintf(b, sizeof b, "0x%llx", (unsigned long long)v); return b; }

static void addPC(State& s, E c) {
  if (isC(c)) { if (!c->val) endPath(PathEnd::Discard); return; }
  if (c->op == AND) { addPC(s, c->a); addPC(s, c->b); return; }
  for (E x : s.pc) if (x == c) return;
  s.pc.push_back(c);
}
static int known(State& s, E c) { if (isC(c)) return c->val ? 1 : 0; E n = mkNot(c); for (size_t i = s.pc.size(); i-- > 0;) { if (s.pc[i] == c) return 1; if (s.pc[i] == n) return 0; } return -1; }
// feasibility of c in s with a fresh model copy
static Res feasible(State& s, E c, Model& m) { Res r = solve(s.pc, c, m); if (r == UNKNOWN) incompleteWhy["solver gave no answer"]++, nIncomplete++; return r; }
// decide a symbolic condition, forking the other way if it is feasible (the clone restarts the current instruction)
static bool decide(State& s, E c) {
  int k = known(s, c); if (k >= 0) return k;
  bool v = eval(c, s.m) != 0; E taken = v ? c : mkNot(c), other = mkNot(taken);
  Model m = s.m; Res r = feasible(s, other, m);
  if (r == UNSAT) { addPC(s, taken); return v; }  // implied; remembered to make known() hit
  if (r == SAT) { State* n = cloneState(s); n->m = m; addPC(*n, other); work.push_back(n); }
  addPC(s, taken); return v;
}
// pick a value, forking the rest
static u64 concretize(State& s, Val& v, unsigned w, const char* why) {
  if (!v.e) return v.c; assert(v.e != AGG);
  u64 x = (u64)eval(v.e, s.m); E eq = mkEq(v.e, mkConst(x, w)); int k = known(s, eq);
  if (k != 1) { Model m = s.m; Res r = feasible(s, mkNot(eq), m); if (r == SAT) { State* n = cloneState(s); n->m = m; addPC(*n, mkNot(eq)); work.push_back(n); } addPC(s, eq); }
  v = cv(x); return x;
}
static E loadByte(State& s, MemEnt* me, u64 off) {
  Obj* o = me->o; if (o->s.empty() || !o->s[off]) return mkConst(o->d[off], 8);
  if (o->s[off] == UNINIT) { o = writable(me); E e = mkSym("uninit" + std::to_string(s.fresh++), 8, false); o->s[off] = e; return e; }
  return o->s[off];
}
static void storeByte(Obj* o, u64 off, E e) { if (isC(e)) { o->d[off] = e->val; if (!o->s.empty()) o->s[off] = nullptr; } else { if (o->s.empty()) o->s.assign(o->size, nullptr); o->s[off] = e; } }
static Val loadAt(State& s, MemEnt* me, u64 off, unsigned bytes, unsigned w) {
  Obj* o = me->o; bool conc = true;
  if (!o->s.empty()) for (unsigned i = 0; i < bytes; i++) if (o->s[off + i]) { conc = false; break; }
  if (conc && bytes <= 8) { u64 v = 0; memcpy(&v, &o->d[off], bytes); return cv(mask(v, w)); }
  E r = loadByte(s, me, off); for (unsigned i = 1; i < bytes; i++) r = mkConcat(loadByte(s, me, off + i), r);
  if (r->width != w) r = mkExtract(r, 0, w);
  return ev(r);
}
static void storeAt(State& s, MemEnt* me, u64 off, unsigned bytes, unsigned w, const Val& v) {
  Obj* o = writable(me);
  if (!v.e) { if (bytes <= 8) { u64 c = v.c; memcpy(&o->d[off], &c, bytes); } else { memcpy(&o->d[off], &v.c, 8); memset(&o->d[off + 8], 0, bytes - 8); }
    if (!o->s.empty()) std::fill(o->s.begin() + off, o->s.begin() + off + bytes, nullptr); return; }
  E e = v.e; if (e->width < bytes * 8) e = mkZExt(e, bytes * 8);
  for (unsigned i = 0; i < bytes; i++) storeByte(o, off + i, mkExtract(e, i * 8, 8));
}
static u64 maxVal(E e) { // upper bound
  switch (e->op) { case CONST: return e->val; case ZEXT: return maxVal(e->a);
  case CONCAT: { if (e->width > 64) return ~0ull; u64 h = maxVal(e->a); return (h << e->b->width) | maxVal(e->b); }
  case ITE: return std::max(maxVal(e->b), maxVal(e->c));
  case AND: return std::min(maxVal(e->a), maxVal(e->b));
  case UREM: if (isC(e->b) && e->b->val) return e->b->val - 1; break;
  default: break; }
  return mask(~0ull, e->width);
}
static unsigned tz(E e) { switch (e->op) { case CONST: return e->val ? __builtin_ctzll(e->val) : 64; case CONCAT: { unsigned t = tz(e->b); return t >= e->b->width ? e->b->width + tz(e->a) : t; } case ZEXT: return tz(e->a); case ITE: return std::min(tz(e->b), tz(e->c)); case ADD: return std::min(tz(e->a), tz(e->b)); default: return 0; } }
static MemEnt* boundsFail(State& s, u64 a, unsigned n, const char* what, MemEnt* me) {
  if (a < 4096) error("null-dereference", std::string(what) + " at " + hex(a));
  error("memory", std::string("out-of-bounds or dangling ") + what + " of " + std::to_string(n) + " bytes");
}
// resolves the object; for symbolic addresses offE is the symbolic offset (else null)
static MemEnt* resolve(State& s, Val& av, u64 n, const char* what, u64& off, E& offE) {
  nMemChecks++; offE = nullptr;
  if (!av.e) { MemEnt* me = findEnt(s, av.c); if (!me || n > me->o->size || av.c - me->base > me->o->size - n) boundsFail(s, av.c, n, what, me); off = av.c - me->base; return me; }
  u64 a = (u64)eval(av.e, s.m); MemEnt* me = findEnt(s, a);
  if (!me || n > me->o->size || a - me->base > me->o->size - n) boundsFail(s, a, n, what, me);
  if (me->o->size == n) { E eq = mkEq(av.e, mkConst(me->base, 64)); decide(s, eq); me = findEnt(s, a); off = 0; return me; }
  E d = mkBin(SUB, av.e, mkConst(me->base, 64)); E inb = mkNot(mkBin(ULT, mkConst(me->o->size - n, 64), d));
  decide(s, inb);
  me = findEnt(s, a); off = a - me->base; offE = d; if (isC(offE)) { off = offE->val; offE = nullptr; }
  return me;
}
static E buildTree(const std::vector<std::pair<u64, E>>& runs, size_t lo, size_t hi, E off) { // runs[i] covers offsets >= runs[i].first
  if (hi - lo == 1) return runs[lo].second; size_t mid = (lo + hi) / 2;
  return mkITE(mkBin(ULT, off, mkConst(runs[mid].first, off->width)), buildTree(runs, lo, mid, off), buildTree(runs, mid, hi, off));
}
static Val loadScalar(State& s, Val av, unsigned w) {
  unsigned bytes = (w + 7) / 8; u64 off; E offE; MemEnt* me = resolve(s, av, bytes, "read", off, offE);
  if (!offE) return loadAt(s, me, off, bytes, w);
  u64 base = me->base, sz = me->o->size; u64 st = 1ull << std::min(tz(offE), 12u); if (st > 4096) st = 4096; u64 mx = std::min(maxVal(offE), sz - bytes);
  if (mx / st > 1100) { off = concretize(s, av, 64, "load") - base; me = findEnt(s, base); return loadAt(s, me, off, bytes, w); }
  std::vector<std::pair<u64, E>> runs;
  for (u64 o = 0; o <= mx; o += st) { Val v = loadAt(s, findEnt(s, base), o, bytes, w); E e = toE(v, w); if (runs.empty() || runs.back().second != e) runs.push_back({o, e}); }
  return ev(buildTree(runs, 0, runs.size(), offE));
}
static void storeScalar(State& s, Val av, unsigned w, const Val& v) {
  unsigned bytes = (w + 7) / 8; u64 off; E offE; MemEnt* me = resolve(s, av, bytes, "write", off, offE);
  if (me->o->ro) error("memory", "write to constant data");
  if (offE) { u64 base = me->base, sz = me->o->size; u64 st = 1ull << std::min(tz(offE), 12u); u64 mx = std::min(maxVal(offE), sz - bytes);
    if (mx / st > 64) { off = concretize(s, av, 64, "store") - base; me = findEnt(s, base); }
    else { for (u64 o = 0; o <= mx; o += st) { Val old = loadAt(s, findEnt(s, base), o, bytes, w); E n = mkITE(mkEq(offE, mkConst(o, 64)), toE(v, w), toE(old, w)); storeAt(s, findEnt(s, base), o, bytes, w, ev(n)); } return; } }
  storeAt(s, me, off, bytes, w, v);
}
static unsigned tw(llvm::Type* t) { return DL->getTypeSizeInBits(t).getFixedValue(); }
static bool aggT(llvm::Type* t) { return t->isStructTy() || t->isArrayTy() || t->isVectorTy(); }
static unsigned nElem(llvm::Type* t) { if (auto* st = dyn_cast<llvm::StructType>(t)) return st->getNumElements(); if (auto* a = dyn_cast<llvm::ArrayType>(t)) return a->getNumElements(); return cast<llvm::FixedVectorType>(t)->getNumElements(); }
static llvm::Type* elemT(llvm::Type* t, unsigned i) { if (auto* st = dyn_cast<llvm::StructType>(t)) return st->getElementType(i); if (auto* a = dyn_cast<llvm::ArrayType>(t)) return a->getElementType(); return cast<llvm::FixedVectorType>(t)->getElementType(); }
static u64 elemOff(llvm::Type* t, unsigned i) { if (auto* st = dyn_cast<llvm::StructType>(t)) return DL->getStructLayout(st)->getElementOffset(i); return i * DL->getTypeAllocSize(elemT(t, i)).getFixedValue(); }
static Val addOff(const Val& a, u64 o) { return a.e ? ev(mkBin(ADD, a.e, mkConst(o, 64))) : cv(a.c + o); }
static Val mkAgg(std::vector<Val> v) { Agg* g = new Agg; g->v = std::move(v); Val r; r.c = (u64)g; r.e = AGG; return r; }
static Agg* agg(const Val& v) { assert(v.e == AGG); return (Agg*)v.c; }
static Val load(State& s, const Val& a, llvm::Type* t) {
  if (aggT(t)) { std::vector<Val> r; for (unsigned i = 0; i < nElem(t); i++) r.push_back(load(s, addOff(a, elemOff(t, i)), elemT(t, i))); return mkAgg(r); }
  return loadScalar(s, a, tw(t));
}
static void store(State& s, const Val& a, llvm::Type* t, const Val& v) {
  if (aggT(t)) { for (unsigned i = 0; i < nElem(t); i++) store(s, addOff(a, elemOff(t, i)), elemT(t, i), agg(v)->v[i]); return; }
  storeScalar(s, a, tw(t), v);
}
static std::string readCStr(State& s, u64 a) { std::string r; for (int i = 0; i < 4096; i++) { MemEnt* me = findEnt(s, a + i); if (!me || a + i >= me->base + me->o->size) break; u64 o = a + i - me->base; if (!me->o->s.empty() && me->o->s[o]) { r += '?'; continue; } char c = me->o->d[o]; if (!c) break; r += c; } return r; }
static void copyMem(State& s, Val d, Val src, u64 n, bool move) {
  if (!n) return;
  u64 so, doff; E oe; if (src.e) concretize(s, src, 64, "memcpy src"); if (d.e) concretize(s, d, 64, "memcpy dst");
  MemEnt* ms = resolve(s, src, n, "read", so, oe); Obj* os = ms->o; std::vector<uint8_t> db(os->d.begin() + so, os->d.begin() + so + n); std::vector<E> sb; 
  if (!os->s.empty()) for (u64 i = 0; i < n; i++) if (os->s[so + i]) { sb.assign(os->s.begin() + so, os->s.begin() + so + n); break; }
  MemEnt* md = resolve(s, d, n, "write", doff, oe); if (md->o->ro) error("memory", "write to constant data");
  if (!move && d.c != src.c && d.c < src.c + n && src.c < d.c + n) error("memory", "memcpy of overlapping regions");
  Obj* od = writable(md); std::copy(db.begin(), db.end(), od->d.begin() + doff);
  if (!sb.empty()) { if (od->s.empty()) od->s.assign(od->size, nullptr); std::copy(sb.begin(), sb.end(), od->s.begin() + doff); }
  else if (!od->s.empty()) std::fill(od->s.begin() + doff, od->s.begin() + doff + n, nullptr);
}
static void setMem(State& s, Val d, Val v, u64 n) {
  if (!n) return; if (d.e) concretize(s, d, 64, "memset"); u64 off; E oe; MemEnt* me = resolve(s, d, n, "write", off, oe); if (me->o->ro) error("memory", "write to constant data");
  Obj* o = writable(me); E b = v.e ? mkExtract(v.e, 0, 8) : nullptr;
  for (u64 i = 0; i < n; i++) if (b) storeByte(o, off + i, b); else { o->d[off + i] = v.c; if (!o->s.empty()) o->s[off + i] = nullptr; }
}
// ---------------------------------------------------------------- constants
static Val constVal(const llvm::Constant* C);
static u64 gepOff(const llvm::GEPOperator* g, bool& ok) { llvm::APInt o(64, 0); ok = g->accumulateConstantOffset(*DL, o); return o.getZExtValue(); }
static Val constVal(const llvm::Constant* C) {
  llvm::Type* t = C->getType();
  if (aggT(t)) { std::vector<Val> r; for (unsigned i = 0; i < nElem(t); i++) { auto* x = C->getAggregateElement(i); r.push_back(x ? constVal(x) : cv(0)); } return mkAgg(r); }
  if (auto* i = dyn_cast<llvm::ConstantInt>(C)) { if (i->getBitWidth() <= 64) return cv(i->getZExtValue()); u128 v = (u128)i->getValue().extractBitsAsZExtValue(64, 0); if (i->getBitWidth() <= 128) v |= (u128)i->getValue().extractBitsAsZExtValue(i->getBitWidth() - 64, 64) << 64; else incomplete("wide constant"); return ev(mkWide(v, i->getBitWidth())); }
  if (auto* f = dyn_cast<llvm::ConstantFP>(C)) { auto b = f->getValueAPF().bitcastToAPInt(); if (b.getBitWidth() <= 64) return cv(b.getZExtValue()); u128 v = (u128)b.extractBitsAsZExtValue(64, 0) | (u128)b.extractBitsAsZExtValue(b.getBitWidth() - 64, 64) << 64; return ev(mkWide(v, b.getBitWidth())); }
  if (isa<llvm::ConstantPointerNull>(C)) return cv(0);
  if (isa<llvm::UndefValue>(C)) { unsigned w = tw(t); return w <= 64 ? cv(0) : ev(mkWide(0, w)); }
  if (auto* g = dyn_cast<llvm::GlobalAlias>(C)) return constVal(g->getAliasee());
  if (auto* g = dyn_cast<llvm::GlobalValue>(C)) { auto it = gaddr.find(g); return cv(it == gaddr.end() ? 0 : it->second); }
  if (auto* ce = dyn_cast<llvm::ConstantExpr>(C)) {
    switch (ce->getOpcode()) {
    case llvm::Instruction::GetElementPtr: { bool ok; u64 o = gepOff(cast<llvm::GEPOperator>(ce), ok); if (!ok) incomplete("constant gep"); return cv(constVal(ce->getOperand(0)).c + o); }
    case llvm::Instruction::BitCast: case llvm::Instruction::AddrSpaceCast: return constVal(ce->getOperand(0));
    case llvm::Instruction::PtrToInt: case llvm::Instruction::IntToPtr: case llvm::Instruction::Trunc: return cv(mask(constVal(ce->getOperand(0)).c, tw(t)));
    case llvm::Instruction::Sub: return cv(mask(constVal(ce->getOperand(0)).c - constVal(ce->getOperand(1)).c, tw(t)));
    case llvm::Instruction::Add: return cv(mask(constVal(ce->getOperand(0)).c + constVal(ce->getOperand(1)).c, tw(t)));
    case llvm::Instruction::ICmp: { auto p = (llvm::CmpInst::Predicate)ce->getPredicate(); u64 a = constVal(ce->getOperand(0)).c, b = constVal(ce->getOperand(1)).c; if (p == llvm::CmpInst::ICMP_EQ) return cv(a == b); if (p == llvm::CmpInst::ICMP_NE) return cv(a != b); break; }
    default: break; }
  }
  if (auto* e = dyn_cast<llvm::DSOLocalEquivalent>(C)) return constVal(e->getGlobalValue());
  std::string str; llvm::raw_string_ostream os(str); C->print(os); incomplete("constant " + str);
}
static void initMem(std::vector<uint8_t>& d, u64 off, const llvm::Constant* C) {
  llvm::Type* t = C->getType();
  if (isa<llvm::ConstantAggregateZero>(C) || isa<llvm::UndefValue>(C)) return;
  if (auto* cd = dyn_cast<llvm::ConstantDataSequential>(C)) { auto r = cd->getRawDataValues(); memcpy(&d[off], r.data(), r.size()); return; }
  if (aggT(t)) { for (unsigned i = 0; i < nElem(t); i++) initMem(d, off + elemOff(t, i), C->getAggregateElement(i)); return; }
  Val v = constVal(C); unsigned n = (tw(t) + 7) / 8; if (v.e) { Model m; u128 x = eval(v.e, m); memcpy(&d[off], &x, std::min(n, 16u)); } else memcpy(&d[off], &v.c, std::min(n, 8u));
}
// ---------------------------------------------------------------- function preparation
static KFunc* kf(llvm::Function* F) {
  KFunc*& k = funcs[F]; if (!k) { k = new KFunc; k->F = F; k->name = F->getName().str(); } return k;
}
static void prepare(KFunc* k) {
  if (k->ready) return; k->ready = true; llvm::Function* F = k->F;
  std::unordered_map<const llvm::Value*, int> idx; int n = 0;
  for (auto& a : F->args()) idx[&a] = n++;
  for (auto& b : *F) for (auto& i : b) if (!i.getType()->isVoidTy()) idx[&i] = n++;
  k->numRegs = n; std::unordered_map<const llvm::Value*, int> cidx;
  auto operand = [&](const llvm::Value* v) -> int {
    auto it = idx.find(v); if (it != idx.end()) return it->second;
    if (auto* c = dyn_cast<llvm::Constant>(v)) { auto ci = cidx.find(v); if (ci != cidx.end()) return ci->second; k->consts.push_back(constVal(c)); return cidx[v] = -(int)k->consts.size(); }
    return INT_MIN; // metadata, basic block
  };
  int bi = 0; for (auto& b : *F) k->bbIdx[&b] = bi++;
  for (auto& b : *F) { k->bbStart.push_back(k->insts.size());
    for (auto& i : b) { if (isa<llvm::DbgInfoIntrinsic>(i)) continue;
      KInst ki; ki.I = &i; ki.op = i.getOpcode(); ki.bb = k->bbIdx[&b]; if (!i.getType()->isVoidTy()) { ki.dst = idx[&i]; if (!aggT(i.getType()) && i.getType()->isSized()) ki.w = tw(i.getType()); }
      if (auto* g = dyn_cast<llvm::GetElementPtrInst>(&i)) {
        ki.ops.push_back(operand(g->getPointerOperand()));
        for (auto gt = llvm::gep_type_begin(g), e = llvm::gep_type_end(g); gt != e; ++gt) {
          if (auto* st = gt.getStructTypeOrNull()) ki.coff += DL->getStructLayout(st)->getElementOffset(cast<llvm::ConstantInt>(gt.getOperand())->getZExtValue());
          else { u64 sz = gt.getSequentialElementStride(*DL).getFixedValue(); if (auto* c = dyn_cast<llvm::ConstantInt>(gt.getOperand())) ki.coff += c->getSExtValue() * (int64_t)sz; else { ki.scaled.push_back({operand(gt.getOperand()), sz}); ki.gw.push_back(tw(gt.getOperand()->getType())); } } }
      } else if (auto* p = dyn_cast<llvm::PHINode>(&i)) { for (unsigned j = 0; j < p->getNumIncomingValues(); j++) { ki.ops.push_back(operand(p->getIncomingValue(j))); ki.inc.push_back(k->bbIdx[p->getIncomingBlock(j)]); } }
      else if (auto* c = dyn_cast<llvm::CallBase>(&i)) { for (auto& a : c->args()) ki.ops.push_back(a->getType()->isMetadataTy() ? INT_MIN : operand(a)); ki.ops.push_back(c->isInlineAsm() ? INT_MIN : operand(c->getCalledOperand())); if (auto* inv = dyn_cast<llvm::InvokeInst>(c)) { ki.bb0 = k->bbIdx[inv->getNormalDest()]; ki.bb1 = k->bbIdx[inv->getUnwindDest()]; } }
      else { for (auto& o : i.operands()) ki.ops.push_back(operand(o)); }
      if (auto* br = dyn_cast<llvm::BranchInst>(&i)) { ki.bb0 = k->bbIdx[br->getSuccessor(0)]; if (br->isConditional()) ki.bb1 = k->bbIdx[br->getSuccessor(1)]; }
      k->insts.push_back(std::move(ki)); } }
}
static inline Val get(Frame& f, int o) { if (o >= 0) return f.regs[o]; assert(o != INT_MIN); return f.f->consts[-o - 1]; }

// ---------------------------------------------------------------- control transfer
static void gotoBB(State& s, int bb, int from) {
  Frame& f = s.st.back(); f.prevBB = from; int pc = f.f->bbStart[bb];
  // evaluate phis in parallel
  if (f.f->insts[pc].op == llvm::Instruction::PHI) {
    static std::vector<std::pair<int, Val>> vals; vals.clear(); while (f.f->insts[pc].op == llvm::Instruction::PHI) { auto& inc = f.f->insts[pc].inc; size_t j = 0; while (inc[j] != from) j++; vals.push_back({f.f->insts[pc].dst, get(f, f.f->insts[pc].ops[j])}); pc++; }
    for (auto& v : vals) f.regs[v.first] = v.second; }
  f.pc = pc;
}
static inline int curBB(Frame& f) { return f.f->insts[f.pc].bb; }
static void advance(State& s) { // after the call-like instruction of the top frame has its result
  Frame& f = s.st.back(); KInst& k = f.f->insts[f.pc]; if (k.op == llvm::Instruction::Invoke) gotoBB(s, k.bb0, curBB(f)); else f.pc++;
}
static void pushFrame(State& s, KFunc* k, std::vector<Val> args, const llvm::CallBase* cb) {
  if (s.st.size() > 4000) error("stack-overflow", "recursion deeper than 4000 frames");
  prepare(k); k->entered = true; Frame f; f.f = k; f.pc = 0; f.prevBB = -1; f.regs.resize(k->numRegs); unsigned np = k->F->arg_size();
  for (unsigned i = 0; i < np && i < args.size(); i++) {
    if (cb && cb->isByValArgument(i)) { llvm::Type* t = cb->getParamByValType(i); u64 sz = DL->getTypeAllocSize(t).getFixedValue(); u64 o = allocObj(s, sz, STACK, true); copyMem(s, cv(o), args[i], sz, true); f.allocas.push_back(o); args[i] = cv(o); }
    f.regs[i] = args[i]; }
  if (k->F->isVarArg()) { u64 tot = 0; std::vector<u64> offs; for (unsigned i = np; i < args.size(); i++) { u64 sz = 8; if (cb && cb->isByValArgument(i)) sz = (DL->getTypeAllocSize(cb->getParamByValType(i)).getFixedValue() + 7) / 8 * 8; offs.push_back(tot); tot += sz; }
    u64 o = allocObj(s, tot + 8, STACK, false); f.va = o; f.allocas.push_back(o);
    for (unsigned i = np; i < args.size(); i++) { u64 a = o + offs[i - np]; if (cb && cb->isByValArgument(i)) copyMem(s, cv(a), args[i], DL->getTypeAllocSize(cb->getParamByValType(i)).getFixedValue(), true); else { unsigned w = cb ? tw(cb->getArgOperand(i)->getType()) : 64; Val v = args[i]; if (w < 64 && v.e) v = ev(mkZExt(v.e, 64)); storeScalar(s, cv(a), 64, v); } } }
  s.st.push_back(std::move(f));
}
static void popFrame(State& s) { for (u64 a : s.st.back().allocas) removeObj(s, a); s.st.pop_back(); }
// ---------------------------------------------------------------- exceptions
static const llvm::GlobalVariable* tiOf(u64 a) { auto it = globalByAddr.find(a); return it == globalByAddr.end() ? nullptr : it->second; }
static const llvm::GlobalVariable* asGV(const llvm::Value* v) { return dyn_cast<llvm::GlobalVariable>(v->stripPointerCasts()); }
static bool derives(State* s, const llvm::GlobalVariable* from, const llvm::GlobalVariable* to, u64 obj, u64& adj) {
  if (from == to || (from && to && from->getName() == to->getName())) { adj = obj; return true; }
  if (!from || !from->hasInitializer()) return false;
  auto* cs = dyn_cast<llvm::ConstantStruct>(from->getInitializer()); if (!cs || cs->getNumOperands() < 3) return false;
  std::string vt; if (auto* g = dyn_cast<llvm::GlobalVariable>(cs->getOperand(0)->stripInBoundsOffsets())) vt = g->getName().str();
  if (vt.find("__si_class_type_info") != std::string::npos) return derives(s, asGV(cs->getOperand(2)), to, obj, adj);
  if (vt.find("__vmi_class_type_info") != std::string::npos) { unsigned n = cast<llvm::ConstantInt>(cs->getOperand(3))->getZExtValue();
    for (unsigned i = 0; i < n; i++) { int64_t of = cast<llvm::ConstantInt>(cs->getOperand(5 + 2 * i))->getSExtValue(); u64 sub; 
      if (of & 1) { if (!s || !obj) continue; u64 vp = load(*s, cv(obj), llvm::Type::getInt64Ty(ctx)).c; int64_t vo = (int64_t)load(*s, cv(vp + (of >> 8)), llvm::Type::getInt64Ty(ctx)).c; sub = obj + vo; } else sub = obj + (of >> 8);
      if (derives(s, asGV(cs->getOperand(4 + 2 * i)), to, sub, adj)) return true; } }
  return false;
}
// continue unwinding: pop frames until an invoke whose landing pad applies
static void unwindFrames(State& s) {
  u64 exc = s.curExc; const llvm::GlobalVariable* ti = tiOf(s.exc[exc].ti);
  while (!s.st.empty()) {
    Frame& f = s.st.back(); KInst& k = f.f->insts[f.pc];
    if (k.op == llvm::Instruction::Invoke) { auto* lp = cast<llvm::InvokeInst>(k.I)->getLandingPadInst(); bool take = lp->isCleanup();
      for (unsigned c = 0; c < lp->getNumClauses() && !take; c++) { if (lp->isCatch(c)) { auto* cl = lp->getClause(c)->stripPointerCasts(); u64 adj; take = isa<llvm::ConstantPointerNull>(cl) || derives(&s, ti, asGV(cl), exc, adj); }
        else { bool allowed = false; auto* arr = lp->getClause(c); for (unsigned j = 0; j < nElem(arr->getType()); j++) { u64 adj; if (derives(&s, ti, asGV(arr->getAggregateElement(j)), exc, adj)) allowed = true; } take = !allowed; } }
      if (take) { gotoBB(s, k.bb1, curBB(f)); return; } }
    else if (f.f->F->doesNotThrow()) {}
    popFrame(s);
  }
  error("uncaught-exception", "exception of type " + (ti ? llvm::demangle(ti->getName().str()) : "?") + " not caught");
}
static std::map<const llvm::GlobalVariable*, int> typeIds; static int typeId(const llvm::GlobalVariable* g) { auto it = typeIds.find(g); if (it != typeIds.end()) return it->second; int n = typeIds.size() + 1; return typeIds[g] = n; }
// ---------------------------------------------------------------- reporting
static std::string modelText(State& s) {
  std::string r; for (uint32_t i : s.inputs) { r += symbols[i].name + " " + std::to_string(symbols[i].width) + " " + hex(s.m.get(i)) + "\n"; } return r;
}
static std::string jesc(const std::string& s) { std::string r; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r; }
static void report(State& s, const std::string& kind, const std::string& msg) {
  std::string loc = repoLoc(s), key = kind == "assert" ? kind + "|" + msg : kind + "|" + msg + "|" + loc; if (violCount[key]++ >= (int)maxErrors || viols.size() >= 40) return;
  Viol v; v.kind = kind; v.msg = msg; v.loc = loc; v.inputs = modelText(s);
  for (size_t i = s.st.size(); i-- > 0 && v.stack.size() < 25;) { auto& f = s.st[i]; if (f.pc < (int)f.f->insts.size()) v.stack.push_back(llvm::demangle(f.f->name).substr(0, 160) + " @ " + instLoc(f.f->insts[f.pc])); }
  if (!replayDir.empty()) { v.replay = replayDir + "/" + entryName + "." + std::to_string(viols.size()) + ".replay"; std::ofstream f(v.replay); f << "# entry " << entryName << "\n# " << kind << ": " << msg << "\n# at " << loc << "\n" << v.inputs; }
  viols.push_back(v);
  if (verbose) { fprintf(stderr, "VIOL %s: %s at %s\n%s", kind.c_str(), msg.c_str(), loc.c_str(), v.inputs.c_str()); for (auto& x : v.stack) fprintf(stderr, "   %s\n", x.c_str()); }
}
static void finishPath(State& s) {
  nDone++; 
  if (sampleFiles.size() < maxSamples || (nDone & (nDone - 1)) == 0) { // first few, then at powers of two
    std::string in = modelText(s), ob; for (auto& o : s.obs) { u64 v = o.v.e ? (u64)eval(o.v.e, s.m) : o.v.c; ob += o.label + "=" + hex(mask(v, o.w)) + "\n"; }
    bool uninit = false; for (auto& o : s.obs) if (o.v.e) for (auto y : *o.v.e->syms) if (symbols[y].name.compare(0, 6, "uninit") == 0) uninit = true;
    if (!uninit && sampleFiles.size() < 40) sampleFiles.push_back({in, ob}); }
}
static Val binop(State& s, unsigned op, const Val& a, const Val& b, unsigned w);
#include "builtins.inc"
// ---------------------------------------------------------------- the interpreter loop
static E icmp(llvm::CmpInst::Predicate p, E a, E b) {
  switch (p) {
  case llvm::CmpInst::ICMP_EQ: return mkEq(a, b); case llvm::CmpInst::ICMP_NE: return mkNot(mkEq(a, b));
  case llvm::CmpInst::ICMP_ULT: return mkBin(ULT, a, b); case llvm::CmpInst::ICMP_UGT: return mkBin(ULT, b, a);
  case llvm::CmpInst::ICMP_ULE: return mkNot(mkBin(ULT, b, a)); case llvm::CmpInst::ICMP_UGE: return mkNot(mkBin(ULT, a, b));
  case llvm::CmpInst::ICMP_SLT: return mkBin(SLT, a, b); case llvm::CmpInst::ICMP_SGT: return mkBin(SLT, b, a);
  case llvm::CmpInst::ICMP_SLE: return mkNot(mkBin(SLT, b, a)); case llvm::CmpInst::ICMP_SGE: return mkNot(mkBin(SLT, a, b));
  default: abort(); }
}
static bool icmpC(llvm::CmpInst::Predicate p, u64 a, u64 b, unsigned w) {
  int64_t x = sx64(a, w), y = sx64(b, w);
  switch (p) { case llvm::CmpInst::ICMP_EQ: return a == b; case llvm::CmpInst::ICMP_NE: return a != b; case llvm::CmpInst::ICMP_ULT: return a < b; case llvm::CmpInst::ICMP_UGT: return a > b; case llvm::CmpInst::ICMP_ULE: return a <= b; case llvm::CmpInst::ICMP_UGE: return a >= b;
  case llvm::CmpInst::ICMP_SLT: return x < y; case llvm::CmpInst::ICMP_SGT: return x > y; case llvm::CmpInst::ICMP_SLE: return x <= y; case llvm::CmpInst::ICMP_SGE: return x >= y; default: abort(); }
}
static E fcmp(llvm::CmpInst::Predicate p, E a, E b) {
  auto F = [&](Op o, E x, E y) { return mkFP(o, x, y, 1); };
  switch (p) {
  case llvm::CmpInst::FCMP_FALSE: return mkConst(0, 1); case llvm::CmpInst::FCMP_TRUE: return mkConst(1, 1);
  case llvm::CmpInst::FCMP_OEQ: return F(FEQ, a, b); case llvm::CmpInst::FCMP_OGT: return F(FLT, b, a); case llvm::CmpInst::FCMP_OGE: return F(FLE, b, a);
  case llvm::CmpInst::FCMP_OLT: return F(FLT, a, b); case llvm::CmpInst::FCMP_OLE: return F(FLE, a, b); case llvm::CmpInst::FCMP_ONE: return mkBin(AND, mkNot(F(FUNO, a, b)), mkNot(F(FEQ, a, b)));
  case llvm::CmpInst::FCMP_ORD: return mkNot(F(FUNO, a, b)); case llvm::CmpInst::FCMP_UNO: return F(FUNO, a, b); case llvm::CmpInst::FCMP_UEQ: return mkBin(OR, F(FUNO, a, b), F(FEQ, a, b));
  case llvm::CmpInst::FCMP_UGT: return mkNot(F(FLE, a, b)); case llvm::CmpInst::FCMP_UGE: return mkNot(F(FLT, a, b)); case llvm::CmpInst::FCMP_ULT: return mkNot(F(FLE, b, a)); case llvm::CmpInst::FCMP_ULE: return mkNot(F(FLT, b, a)); case llvm::CmpInst::FCMP_UNE: return mkNot(F(FEQ, a, b));
  default: abort(); }
}
static Val binop(State& s, unsigned op, const Val& a, const Val& b, unsigned w) {
  using llvm::Instruction; Op o;
  switch (op) {
  case Instruction::Add: if (!a.e && !b.e) return cv(mask(a.c + b.c, w)); o = ADD; break;
  case Instruction::Sub: if (!a.e && !b.e) return cv(mask(a.c - b.c, w)); o = SUB; break;
  case Instruction::Mul: if (!a.e && !b.e) return cv(mask(a.c * b.c, w)); o = MUL; break;
  case Instruction::And: if (!a.e && !b.e) return cv(a.c & b.c); o = AND; break;
  case Instruction::Or: if (!a.e && !b.e) return cv(a.c | b.c); o = OR; break;
  case Instruction::Xor: if (!a.e && !b.e) return cv(a.c ^ b.c); o = XOR; break;
  case Instruction::Shl: o = SHL; break; case Instruction::LShr: o = LSHR; break; case Instruction::AShr: o = ASHR; break;
  case Instruction::UDiv: o = UDIV; break; case Instruction::SDiv: o = SDIV; break; case Instruction::URem: o = UREM; break; case Instruction::SRem: o = SREM; break;
  case Instruction::FAdd: return ev(mkFP(FADD, toE(a, w), toE(b, w), w)); case Instruction::FSub: return ev(mkFP(FSUB, toE(a, w), toE(b, w), w));
  case Instruction::FMul: return ev(mkFP(FMUL, toE(a, w), toE(b, w), w)); case Instruction::FDiv: return ev(mkFP(FDIV, toE(a, w), toE(b, w), w));
  case Instruction::FRem: { Val x = a, y = b; double p, q; u64 pa = concretize(s, x, w, "frem"), pb = concretize(s, y, w, "frem"); if (w != 64) incomplete("frem32"); memcpy(&p, &pa, 8); memcpy(&q, &pb, 8); double r = fmod(p, q); u64 rr; memcpy(&rr, &r, 8); return cv(rr); }
  default: incomplete("binop"); }
  if (o >= UDIV && o <= SREM) { if (decide(s, mkEq(toE(b, w), mkConst(0, w)))) error("division-by-zero", "integer division by zero"); }
  return ev(mkBin(o, toE(a, w), toE(b, w)));
}
static Val castv(unsigned op, const Val& v, unsigned sw, unsigned w) {
  using llvm::Instruction;
  switch (op) {
  case Instruction::Trunc: return v.e ? ev(mkExtract(v.e, 0, w)) : cv(mask(v.c, w));
  case Instruction::ZExt: return v.e ? ev(mkZExt(v.e, w)) : w <= 64 ? v : ev(mkWide(v.c, w));
  case Instruction::SExt: return v.e || w > 64 ? ev(mkSExt(toE(v, sw), w)) : cv(mask((u64)sx64(v.c, sw), w));
  case Instruction::PtrToInt: case Instruction::IntToPtr: if (w == sw) return v; if (w < sw) return v.e ? ev(mkExtract(v.e, 0, w)) : cv(mask(v.c, w)); return v.e ? ev(mkZExt(v.e, w)) : v;
  case Instruction::BitCast: case Instruction::AddrSpaceCast: return v;
  case Instruction::FPToSI: return ev(mkFP(FPTOSI, toE(v, sw), 0, w)); case Instruction::FPToUI: return ev(mkFP(FPTOUI, toE(v, sw), 0, w));
  case Instruction::SIToFP: return ev(mkFP(SITOFP, toE(v, sw), 0, w)); case Instruction::UIToFP: return ev(mkFP(UITOFP, toE(v, sw), 0, w));
  case Instruction::FPExt: if (w > 64) incomplete("x86_fp80"); return ev(mkFP(FPEXT, toE(v, sw), 0, w)); case Instruction::FPTrunc: if (sw > 64) incomplete("x86_fp80"); return ev(mkFP(FPTRUNC, toE(v, sw), 0, w));
  default: incomplete("cast"); }
}
static Val selectv(E c, const Val& a, const Val& b, llvm::Type* t) {
  if (aggT(t)) { std::vector<Val> r; for (unsigned i = 0; i < nElem(t); i++) r.push_back(selectv(c, agg(a)->v[i], agg(b)->v[i], elemT(t, i))); return mkAgg(r); }
  unsigned w = tw(t); return ev(mkITE(c, toE(a, w), toE(b, w)));
}
static void step(State& s) {
  using llvm::Instruction;
  Frame& f = s.st.back(); KInst& k = f.f->insts[f.pc]; const llvm::Instruction* I = k.I;
  nInst++; if (++s.steps > maxSteps) error("no-termination", "more than " + std::to_string(maxSteps) + " instructions on one path");
  if (trace) { std::string str; llvm::raw_string_ostream os(str); I->print(os); fprintf(stderr, "[%zu] %s: %s\n", s.st.size(), f.f->name.c_str(), str.c_str()); }
  switch (k.op) {
  case Instruction::Ret: {
    Val r; bool has = I->getNumOperands() > 0; if (has) r = get(f, k.ops[0]);
    popFrame(s); if (s.st.empty()) return;
    Frame& c = s.st.back(); KInst& ck = c.f->insts[c.pc]; if (ck.dst >= 0 && isa<llvm::CallBase>(ck.I)) { if (has) c.regs[ck.dst] = r; } 
    if (isa<llvm::CallBase>(ck.I)) advance(s); return; }
  case Instruction::Br: {
    if (k.bb1 < 0) { gotoBB(s, k.bb0, curBB(f)); return; }
    Val c = get(f, k.ops[0]); bool b = c.e ? decide(s, c.e) : c.c; gotoBB(s, b ? k.bb0 : k.bb1, curBB(f)); return; }
  case Instruction::Switch: {
    auto* sw = cast<llvm::SwitchInst>(I); Val c = get(f, k.ops[0]); unsigned w = tw(sw->getCondition()->getType()); const llvm::BasicBlock* d = sw->getDefaultDest();
    if (!c.e) { for (auto& cs : sw->cases()) if (cs.getCaseValue()->getZExtValue() == c.c) { d = cs.getCaseSuccessor(); break; } }
    else { // group cases by successor
      u64 v = (u64)eval(c.e, s.m); const llvm::BasicBlock* t = d; for (auto& cs : sw->cases()) if (cs.getCaseValue()->getZExtValue() == v) { t = cs.getCaseSuccessor(); break; }
      E cond = mkConst(0, 1); if (t != d) { for (auto& cs : sw->cases()) if (cs.getCaseSuccessor() == t) cond = mkBin(OR, cond, mkEq(c.e, mkConst(cs.getCaseValue()->getZExtValue(), w))); }
      else { cond = mkConst(1, 1); for (auto& cs : sw->cases()) if (cs.getCaseSuccessor() != d) cond = mkBin(AND, cond, mkNot(mkEq(c.e, mkConst(cs.getCaseValue()->getZExtValue(), w)))); }
      if (!decide(s, cond)) incomplete("switch"); d = t; }
    Frame& g = s.st.back(); gotoBB(s, g.f->bbIdx[d], curBB(g)); return; }
  case Instruction::Unreachable: error("unreachable", "reached code the compiler proved unreachable (undefined behaviour)");
  case Instruction::ICmp: {
    auto* c = cast<llvm::ICmpInst>(I); Val a = get(f, k.ops[0]), b = get(f, k.ops[1]); llvm::Type* t = I->getOperand(0)->getType(); if (aggT(t)) { std::vector<Val> r; unsigned ew = tw(elemT(t, 0)); for (unsigned i = 0; i < nElem(t); i++) r.push_back(ev(icmp(c->getPredicate(), toE(agg(a)->v[i], ew), toE(agg(b)->v[i], ew)))); f.regs[k.dst] = mkAgg(r); f.pc++; return; }
    unsigned w = tw(t);
    if (!a.e && !b.e) f.regs[k.dst] = cv(icmpC(c->getPredicate(), a.c, b.c, w)); else f.regs[k.dst] = ev(icmp(c->getPredicate(), toE(a, w), toE(b, w)));
    f.pc++; return; }
  case Instruction::FCmp: { unsigned w = tw(I->getOperand(0)->getType()); if (w > 64) incomplete("x86_fp80"); f.regs[k.dst] = ev(fcmp(cast<llvm::FCmpInst>(I)->getPredicate(), toE(get(f, k.ops[0]), w), toE(get(f, k.ops[1]), w))); f.pc++; return; }
  case Instruction::FNeg: { if (k.w > 64) incomplete("x86_fp80"); Val a = get(f, k.ops[0]); f.regs[k.dst] = ev(mkBin(XOR, toE(a, k.w), mkConst(1ull << (k.w - 1), k.w))); f.pc++; return; }
  case Instruction::Select: {
    Val c = get(f, k.ops[0]); Val a = get(f, k.ops[1]), b = get(f, k.ops[2]); if (c.e == AGG) { std::vector<Val> r; llvm::Type* t = I->getType(); for (unsigned i = 0; i < nElem(t); i++) r.push_back(selectv(toE(agg(c)->v[i], 1), agg(a)->v[i], agg(b)->v[i], elemT(t, i))); f.regs[k.dst] = mkAgg(r); f.pc++; return; }
    if (!c.e) f.regs[k.dst] = c.c ? a : b;
    else if (I->getType()->isPointerTy()) { bool v = decide(s, c.e); Frame& g = s.st.back(); g.regs[k.dst] = v ? a : b; g.pc++; return; }
    else f.regs[k.dst] = selectv(c.e, a, b, I->getType());
    f.pc++; return; }
  case Instruction::Alloca: {
    auto* al = cast<llvm::AllocaInst>(I); u64 n = DL->getTypeAllocSize(al->getAllocatedType()).getFixedValue(); if (al->isArrayAllocation()) { Val c = get(f, k.ops[0]); n *= concretize(s, c, tw(al->getArraySize()->getType()), "alloca"); }
    if (n > (1u << 24)) error("stack-overflow", "huge stack allocation");
    Frame& g = s.st.back(); u64 o = allocObj(s, n, STACK, true, al->getAlign().value()); g.allocas.push_back(o); g.regs[k.dst] = cv(o); g.pc++; return; }
  case Instruction::Load: { Val v = load(s, get(f, k.ops[0]), I->getType()); Frame& g = s.st.back(); g.regs[k.dst] = v; g.pc++; return; }
  case Instruction::Store: { store(s, get(f, k.ops[1]), I->getOperand(0)->getType(), get(f, k.ops[0])); s.st.back().pc++; return; }
  case Instruction::GetElementPtr: {
    Val p = get(f, k.ops[0]); if (p.e == AGG) incomplete("vector gep"); 
    if (!p.e) { bool conc = true; u64 r = p.c + k.coff; for (size_t i = 0; i < k.scaled.size(); i++) { Val x = get(f, k.scaled[i].first); if (x.e) { conc = false; break; } r += (u64)sx64(x.c, k.gw[i]) * k.scaled[i].second; } if (conc) { f.regs[k.dst] = cv(r); f.pc++; return; } }
    E r = mkConst(k.coff, 64); for (size_t i = 0; i < k.scaled.size(); i++) { E x = toE(get(f, k.scaled[i].first), k.gw[i]); if (x->width < 64) x = mkSExt(x, 64); else if (x->width > 64) x = mkExtract(x, 0, 64); r = mkBin(ADD, mkBin(MUL, x, mkConst(k.scaled[i].second, 64)), r); }
    // keep the concrete base outermost so that offsets stay recognisable
    if (r->op == ADD && isC(r->b)) { E base = toE(p, 64); E t = mkBin(ADD, base, r->b); r = mkBin(ADD, r->a, t); } else r = mkBin(ADD, r, toE(p, 64));
    f.regs[k.dst] = ev(r); f.pc++; return; }
  case Instruction::ExtractValue: { Val v = get(f, k.ops[0]); for (unsigned i : cast<llvm::ExtractValueInst>(I)->indices()) v = agg(v)->v[i]; f.regs[k.dst] = v; f.pc++; return; }
  case Instruction::InsertValue: {
    auto* iv = cast<llvm::InsertValueInst>(I); std::function<Val(const Val&, llvm::ArrayRef<unsigned>)> ins = [&](const Val& a, llvm::ArrayRef<unsigned> ix) -> Val { if (ix.empty()) return get(f, k.ops[1]); std::vector<Val> v = agg(a)->v; v[ix[0]] = ins(v[ix[0]], ix.slice(1)); return mkAgg(v); };
    f.regs[k.dst] = ins(get(f, k.ops[0]), iv->getIndices()); f.pc++; return; }
  case Instruction::ExtractElement: { Val v = get(f, k.ops[0]), i = get(f, k.ops[1]); if (i.e) incomplete("vector index"); f.regs[k.dst] = agg(v)->v[i.c]; f.pc++; return; }
  case Instruction::InsertElement: { Val v = get(f, k.ops[0]), i = get(f, k.ops[2]); if (i.e) incomplete("vector index"); std::vector<Val> r = agg(v)->v; r[i.c] = get(f, k.ops[1]); f.regs[k.dst] = mkAgg(r); f.pc++; return; }
  case Instruction::ShuffleVector: { auto* sv = cast<llvm::ShuffleVectorInst>(I); auto &a = agg(get(f, k.ops[0]))->v, &b = agg(get(f, k.ops[1]))->v; std::vector<Val> r; for (int x : sv->getShuffleMask()) r.push_back(x < 0 ? cv(0) : x < (int)a.size() ? a[x] : b[x - a.size()]); f.regs[k.dst] = mkAgg(r); f.pc++; return; }
  case Instruction::Freeze: f.regs[k.dst] = get(f, k.ops[0]); f.pc++; return;
  case Instruction::Fence: f.pc++; return;
  case Instruction::AtomicRMW: {
    auto* a = cast<llvm::AtomicRMWInst>(I); unsigned w = tw(I->getType()); Val p = get(f, k.ops[0]), v = get(f, k.ops[1]); Val old = loadScalar(s, p, w), n;
    switch (a->getOperation()) { case llvm::AtomicRMWInst::Add: n = binop(s, Instruction::Add, old, v, w); break; case llvm::AtomicRMWInst::Sub: n = binop(s, Instruction::Sub, old, v, w); break; case llvm::AtomicRMWInst::Xchg: n = v; break; case llvm::AtomicRMWInst::And: n = binop(s, Instruction::And, old, v, w); break; case llvm::AtomicRMWInst::Or: n = binop(s, Instruction::Or, old, v, w); break; default: incomplete("atomicrmw"); }
    storeScalar(s, p, w, n); Frame& g = s.st.back(); g.regs[k.dst] = old; g.pc++; return; }
  case Instruction::AtomicCmpXchg: {
    unsigned w = tw(I->getOperand(1)->getType()); Val p = get(f, k.ops[0]), e = get(f, k.ops[1]), n = get(f, k.ops[2]); Val old = loadScalar(s, p, w); bool eq = decide(s, mkEq(toE(old, w), toE(e, w))); if (eq) storeScalar(s, p, w, n);
    Frame& g = s.st.back(); g.regs[k.dst] = mkAgg({old, cv(eq)}); g.pc++; return; }
  case Instruction::LandingPad: {
    auto* lp = cast<llvm::LandingPadInst>(I); u64 exc = s.curExc; const llvm::GlobalVariable* ti = tiOf(s.exc[exc].ti); int sel = 0;
    for (unsigned c = 0; c < lp->getNumClauses(); c++) { if (lp->isCatch(c)) { auto* cl = lp->getClause(c)->stripPointerCasts(); u64 adj = exc; if (isa<llvm::ConstantPointerNull>(cl)) { sel = 1000000; s.exc[exc].adjusted = exc; break; } if (derives(&s, ti, asGV(cl), exc, adj)) { sel = typeId(asGV(cl)); s.exc[exc].adjusted = adj; break; } } else { auto* arr = lp->getClause(c); bool allowed = false; for (unsigned j = 0; j < nElem(arr->getType()); j++) { u64 adj; if (derives(&s, ti, asGV(arr->getAggregateElement(j)), exc, adj)) allowed = true; } if (!allowed) { sel = -1; break; } } }
    f.regs[k.dst] = mkAgg({cv(exc), cv(mask((u64)(int64_t)sel, 32))}); f.pc++; return; }
  case Instruction::Resume: { Val v = get(f, k.ops[0]); s.curExc = agg(v)->v[0].c; popFrame(s); unwindFrames(s); return; }
  case Instruction::Call: case Instruction::Invoke: doCall(s, k); return;
  case Instruction::PHI: incomplete("phi");
  default: break; }
  if (I->isBinaryOp()) {
    Val a = get(f, k.ops[0]), b = get(f, k.ops[1]); Val r;
    if (aggT(I->getType())) { std::vector<Val> v; unsigned ew = tw(elemT(I->getType(), 0)); for (unsigned i = 0; i < nElem(I->getType()); i++) v.push_back(binop(s, k.op, agg(a)->v[i], agg(b)->v[i], ew)); r = mkAgg(v); }
    else { if (k.w > 64 && I->getType()->isFloatingPointTy()) incomplete("x86_fp80"); r = binop(s, k.op, a, b, k.w); }
    Frame& g = s.st.back(); g.regs[k.dst] = r; g.pc++; return; }
  if (I->isCast()) {
    Val a = get(f, k.ops[0]); llvm::Type *st = I->getOperand(0)->getType(), *t = I->getType();
    if (aggT(t) != aggT(st)) { // bitcast between vector and scalar
      auto flat = [&](const Val& v, llvm::Type* ty) { if (!aggT(ty)) return toE(v, tw(ty)); E r = nullptr; unsigned ew = tw(elemT(ty, 0)); for (unsigned i = 0; i < nElem(ty); i++) { E x = toE(agg(v)->v[i], ew); r = r ? mkConcat(x, r) : x; } return r; };
      E e = flat(a, st); if (!aggT(t)) f.regs[k.dst] = ev(e); else { std::vector<Val> v; unsigned ew = tw(elemT(t, 0)); for (unsigned i = 0; i < nElem(t); i++) v.push_back(ev(mkExtract(e, i * ew, ew))); f.regs[k.dst] = mkAgg(v); } f.pc++; return; }
    if (aggT(t)) { if (nElem(t) != nElem(st)) incomplete("vector bitcast"); std::vector<Val> v; for (unsigned i = 0; i < nElem(t); i++) v.push_back(castv(k.op, agg(a)->v[i], tw(elemT(st, 0)), tw(elemT(t, 0)))); f.regs[k.dst] = mkAgg(v); f.pc++; return; }
    f.regs[k.dst] = castv(k.op, a, tw(st), k.w); f.pc++; return; }
  incomplete(std::string("instruction ") + I->getOpcodeName());
}
static u64 rssMB() { std::ifstream f("/proc/self/statm"); u64 a = 0, b = 0; f >> a >> b; return b * 4096 / (1 << 20); }
int main(int argc, char** argv) {
  std::string file; for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto nxt = [&] { return std::string(argv[++i]); };
    if (a == "--entry") entryName = nxt(); else if (a == "--max-steps") maxSteps = std::stoull(nxt()); else if (a == "--max-paths") maxPaths = std::stoull(nxt()); else if (a == "--time") timeBudget = std::stod(nxt()); else if (a == "--out") outFile = nxt(); else if (a == "--replay-dir") replayDir = nxt(); else if (a == "--samples") maxSamples = std::stoull(nxt()); else if (a == "--solver-timeout") solverTimeoutMs = std::stoul(nxt()); else if (a == "--repo") repoPrefix = nxt(); else if (a == "--trace") trace = true; else if (a == "-v") verbose = true; else if (a == "--mem") memLimitMB = std::stoull(nxt());
    else if (a == "--fix") { std::string x = nxt(); auto p = x.find('='); fixes.push_back({x.substr(0, p), std::stoull(x.substr(p + 1))}); } else file = a; }
  t0 = now(); llvm::SMDiagnostic err; M = llvm::parseIRFile(file, err, ctx); if (!M) { err.print("sx", llvm::errs()); return 2; } DL = &M->getDataLayout();
  u64 fa = 0x100000; for (auto& F : *M) { if (F.isIntrinsic()) continue; if (F.isDeclaration() && F.hasExternalWeakLinkage()) { gaddr[&F] = 0; continue; } gaddr[&F] = fa; KFunc* k = kf(&F); k->addr = fa; funcByAddr[fa] = k; fa += 16; }
  State* s0 = new State; s0->bump = 0x10000000; std::vector<std::pair<llvm::GlobalVariable*, u64>> gv;
  for (auto& G : M->globals()) { u64 sz = G.getValueType()->isSized() ? DL->getTypeAllocSize(G.getValueType()).getFixedValue() : 8; if (G.hasExternalWeakLinkage() && G.isDeclaration()) { gaddr[&G] = 0; continue; } if (sz == 0) sz = 1; u64 o = allocObj(*s0, sz, GLOBAL, false, std::max<u64>(16, G.getAlign() ? G.getAlign()->value() : 16)); gaddr[&G] = o; globalByAddr[o] = &G; gv.push_back({&G, o}); }
  try { for (auto& p : gv) { MemEnt* me = findEnt(*s0, p.second); if (p.first->hasInitializer()) initMem(me->o->d, 0, p.first->getInitializer()); me->o->ro = p.first->isConstant(); } } catch (PathEnd& e) { fprintf(stderr, "sx: %s\n", e.msg.c_str()); return 2; }
  std::vector<std::pair<unsigned, KFunc*>> ctors; if (auto* g = M->getNamedGlobal("llvm.global_ctors")) if (g->hasInitializer()) if (auto* arr = dyn_cast<llvm::ConstantArray>(g->getInitializer())) for (auto& o : arr->operands()) { auto* cs = cast<llvm::ConstantStruct>(o); if (auto* F = dyn_cast<llvm::Function>(cs->getOperand(1)->stripPointerCasts())) ctors.push_back({cast<llvm::ConstantInt>(cs->getOperand(0))->getZExtValue(), kf(F)}); }
  std::stable_sort(ctors.begin(), ctors.end(), [](auto& a, auto& b) { return a.first < b.first; });
  llvm::Function* EF = M->getFunction(entryName); if (!EF || EF->isDeclaration()) { fprintf(stderr, "sx: no entry %s\n", entryName.c_str()); return 2; }
  for (auto& c : ctors) s0->todo.push_back(c.second); s0->todo.push_back(kf(EF)); std::reverse(s0->todo.begin(), s0->todo.end());
  work.push_back(s0); bool timedOut = false; u64 tick = 0;
  while (!work.empty()) {
    if (nPaths >= maxPaths || now() - t0 > timeBudget) { timedOut = true; break; }
    State* s = work.back(); work.pop_back(); bool abandoned = false;
    try {
      for (;;) {
        if (s->st.empty()) { if (s->todo.empty()) { finishPath(*s); break; } KFunc* k = s->todo.back(); s->todo.pop_back(); pushFrame(*s, k, {}, nullptr); }
        step(*s);
        if ((++tick & 0xfffff) == 0) { if (now() - t0 > timeBudget) { timedOut = true; abandoned = true; break; } if (rssMB() > memLimitMB) { incompleteWhy["memory limit"]++; timedOut = true; abandoned = true; break; } }
      }
    } catch (PathEnd& e) {
      if (e.k == PathEnd::Error) { report(*s, e.kind, e.msg); }
      else if (e.k == PathEnd::Incomplete) { nIncomplete++; std::string w = e.msg + " in " + (s->st.empty() ? "?" : s->st.back().f->name) + " at " + repoLoc(*s); incompleteWhy[w]++; if (verbose) fprintf(stderr, "INCOMPLETE %s\n", w.c_str()); }
      else if (e.k == PathEnd::Discard) nDiscard++;
      else if (e.k == PathEnd::Done) finishPath(*s);
    }
    for (auto& r : s->reached) reachedAll.insert(r);
    if (!abandoned) nPaths++; freeState(s);
    if (timedOut) break;
    if (viols.size() >= 40) break;
  }
  std::vector<std::string> missing; for (auto& x : expectAll) if (!reachedAll.count(x)) missing.push_back(x);
  std::vector<std::string> fns; u64 nf = 0, nfAll = 0; for (auto& p : funcs) if (p.second->entered) { nfAll++; auto* sp = p.first->getSubprogram(); if (!sp) continue; std::string fn = sp->getFilename().str(); if (!fn.empty() && fn[0] != '/') fn = sp->getDirectory().str() + "/" + fn; if (!repoPrefix.empty() && fn.find(repoPrefix) == 0) { nf++; fns.push_back(fn.substr(repoPrefix.size()) + ": " + llvm::demangle(p.second->name)); } }
  // functions inlined into others are visible through debug locations
  std::set<std::string> inl; for (auto& p : funcs) if (p.second->entered) for (auto& k : p.second->insts) for (const llvm::DILocation* dl = k.I->getDebugLoc().get(); dl; dl = dl->getInlinedAt()) { auto* sp = dl->getScope()->getSubprogram(); if (!sp) continue; std::string fn = sp->getFilename().str(); if (!fn.empty() && fn[0] != '/') fn = sp->getDirectory().str() + "/" + fn; if (!repoPrefix.empty() && fn.find(repoPrefix) == 0) inl.insert(fn.substr(repoPrefix.size()) + ": " + sp->getName().str()); }
  std::ofstream f(outFile.empty() ? "/dev/stdout" : outFile);
  f << "{\n\"entry\":\"" << entryName << "\",\n\"complete\":" << (!timedOut && work.empty() && nIncomplete == 0 ? "true" : "false") << ",\"timed_out\":" << (timedOut ? "true" : "false") << ",\n\"paths\":" << nPaths << ",\"done\":" << nDone << ",\"discarded\":" << nDiscard << ",\"incomplete\":" << nIncomplete << ",\"forks\":" << nForks << ",\"instructions\":" << nInst << ",\n\"assert_sites\":" << assertCount.size() << ",\"asserts\":" << nAsserts << ",\"assert_queries\":" << nAssertQueries << ",\"memory_checks\":" << nMemChecks << ",\n\"queries\":" << sstats.queries << ",\"z3_calls\":" << sstats.z3calls << ",\"cache_hits\":" << sstats.cacheHits << ",\"model_hits\":" << sstats.modelHits << ",\"sat\":" << sstats.sat << ",\"unsat\":" << sstats.unsat << ",\"unknown\":" << sstats.unknown << ",\"solver_s\":" << sstats.z3time << ",\"max_query_s\":" << sstats.maxq << ",\n\"wall_s\":" << now() - t0 << ",\"rss_mb\":" << rssMB() << ",\"expressions\":" << exprCount << ",\n";
  auto strs = [&](const char* n, const auto& c) { f << "\"" << n << "\":["; bool first = true; for (auto& x : c) { f << (first ? "" : ",") << "\"" << jesc(x) << "\""; first = false; } f << "],\n"; };
  strs("missing_witness", missing); strs("witness", reachedAll); strs("functions", inl); { std::vector<std::string> w; for (auto& p : incompleteWhy) w.push_back(p.first + " x" + std::to_string(p.second)); strs("incomplete_why", w); } { std::vector<std::string> w; for (auto& p : assertCount) w.push_back(p.first + " x" + std::to_string(p.second)); strs("assertions", w); }
  f << "\"samples\":["; for (size_t i = 0; i < sampleFiles.size(); i++) f << (i ? "," : "") << "{\"inputs\":\"" << jesc(sampleFiles[i].first) << "\",\"obs\":\"" << jesc(sampleFiles[i].second) << "\"}"; f << "],\n";
  f << "\"violations\":["; for (size_t i = 0; i < viols.size(); i++) { auto& v = viols[i]; f << (i ? "," : "") << "\n {\"kind\":\"" << jesc(v.kind) << "\",\"msg\":\"" << jesc(v.msg) << "\",\"loc\":\"" << jesc(v.loc) << "\",\"replay\":\"" << jesc(v.replay) << "\",\"inputs\":\"" << jesc(v.inputs) << "\",\"stack\":["; for (size_t j = 0; j < v.stack.size(); j++) f << (j ? "," : "") << "\"" << jesc(v.stack[j]) << "\""; f << "]}"; } f << "]\n}\n";
  f.close(); _exit(0);
}
