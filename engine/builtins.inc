// Calls: intrinsics, engine builtins and ordinary functions.
static void ret(State& s, Val v) { Frame& f = s.st.back(); KInst& k = f.f->insts[f.pc]; if (k.dst >= 0) f.regs[k.dst] = v; advance(s); }
static Val arg(State& s, KInst& k, unsigned i) { return get(s.st.back(), k.ops[i]); }
static unsigned argW(KInst& k, unsigned i) { return tw(cast<llvm::CallBase>(k.I)->getArgOperand(i)->getType()); }
static u64 cArg(State& s, KInst& k, unsigned i, const char* why) { Val v = arg(s, k, i); if (!v.e) return v.c; unsigned w = argW(k, i); u64 r = concretize(s, v, w, why); if (k.ops[i] >= 0) s.st.back().regs[k.ops[i]] = v; return r; }
static bool throwBadAlloc(State& s) { llvm::Function* F = M->getFunction("__sx_throw_bad_alloc"); if (!F) incomplete("no __sx_throw_bad_alloc"); pushFrame(s, kf(F), {}, nullptr); return true; }
static bool sizeArg(State& s, KInst& k, unsigned i, u64& n) { // false: allocation fails
  Val v = arg(s, k, i); if (v.e) { if (decide(s, mkBin(ULT, mkConst(s.allocLimit, 64), v.e))) return false; n = cArg(s, k, i, "allocation size"); return true; }
  n = v.c; return n <= (s.allocLimit > (1u << 24) ? s.allocLimit : (1u << 24)); }
static void doFree(State& s, u64 p, Kind want, const char* what) {
  if (!p) return; MemEnt* me = findEnt(s, p);
  if (!me || me->base != p) error("memory", std::string(what) + " of a pointer that is not a live allocation");
  if (me->o->kind != want) { if (me->o->kind == HEAP_MALLOC || me->o->kind == HEAP_NEW || me->o->kind == HEAP_NEWA) error("memory", std::string(what) + " does not match the allocation function"); error("memory", std::string(what) + " of non-heap memory"); }
  removeObj(s, p); s.liveHeap--;
}
static void runThrow(State& s, u64 exc) {
  s.curExc = exc; s.uncaught++; const llvm::GlobalVariable* ti = tiOf(s.exc[exc].ti); bool found = false;
  for (size_t i = s.st.size(); i-- > 0 && !found;) { Frame& f = s.st[i]; KInst& k = f.f->insts[f.pc]; if (k.op != llvm::Instruction::Invoke) continue;
    auto* lp = cast<llvm::InvokeInst>(k.I)->getLandingPadInst();
    for (unsigned c = 0; c < lp->getNumClauses() && !found; c++) { if (lp->isCatch(c)) { auto* cl = lp->getClause(c)->stripPointerCasts(); u64 adj; if (isa<llvm::ConstantPointerNull>(cl)) found = true; else if (derives(&s, ti, asGV(cl), exc, adj)) found = true; } else found = true; } }
  if (!found) error("uncaught-exception", "exception of type " + (ti ? llvm::demangle(ti->getName().str()) : std::string("?")) + " escapes");
  unwindFrames(s);
}
static Val minmax(Val a, Val b, unsigned w, bool sg, bool mn) { E x = toE(a, w), y = toE(b, w); E lt = mkBin(sg ? SLT : ULT, x, y); return ev(mn ? mkITE(lt, x, y) : mkITE(lt, y, x)); }
typedef void (*BI)(State&, KInst&);
static u64 symMakeCount = 0;
static E memcmpE(State& s, u64 a, u64 b, u64 n) { Val va = cv(a), vb = cv(b); u64 oa, ob; E oe; if (!n) return mkConst(0, 32); MemEnt* ma = resolve(s, va, n, "read", oa, oe); u64 ba = ma->base; MemEnt* mb = resolve(s, vb, n, "read", ob, oe); u64 bb = mb->base; (void)ba; (void)bb;
  E r = mkConst(0, 32); for (u64 i = n; i-- > 0;) { E x = loadByte(s, ma, oa + i), y = loadByte(s, mb, ob + i); if (x == y) continue; E d = mkBin(SUB, mkZExt(x, 32), mkZExt(y, 32)); r = mkITE(mkEq(x, y), r, d); } return r; }
static E memeqE(State& s, u64 a, u64 b, u64 n) { Val va = cv(a), vb = cv(b); u64 oa, ob; E oe; if (!n) return mkConst(1, 1); MemEnt* ma = resolve(s, va, n, "read", oa, oe); MemEnt* mb = resolve(s, vb, n, "read", ob, oe);
  E r = mkConst(1, 1); for (u64 i = 0; i < n; i++) { r = mkBin(AND, r, mkEq(loadByte(s, ma, oa + i), loadByte(s, mb, ob + i))); if (isC(r, 0)) break; } return r; }
static void doAssert(State& s, Val c, unsigned w, const std::string& msg) {
  nAsserts++; assertCount[msg]++; E b = w == 1 ? toE(c, 1) : mkNot(mkEq(toE(c, w), mkConst(0, w)));
  if (isC(b)) { if (!b->val) error("assert", msg); return; }
  if (known(s, b) == 1) return;
  nAssertQueries++; Model m = s.m; Res r = eval(b, s.m) ? feasible(s, mkNot(b), m) : SAT;
  if (r == SAT) { Model keep = s.m; s.m = m; report(s, "assert", msg); s.m = keep; if (!eval(b, s.m)) { Model m2 = s.m; if (feasible(s, b, m2) != SAT) endPath(PathEnd::Done); s.m = m2; } }
  addPC(s, b);
}
static std::unordered_map<std::string, BI> builtins;
static void initBuiltins() {
  auto& B = builtins;
  auto newF = [](State& s, KInst& k) { u64 n; if (!sizeArg(s, k, 0, n)) { throwBadAlloc(s); return; } s.liveHeap++; ret(s, cv(allocObj(s, n, HEAP_NEW, true))); };
  auto newA = [](State& s, KInst& k) { u64 n; if (!sizeArg(s, k, 0, n)) { throwBadAlloc(s); return; } s.liveHeap++; ret(s, cv(allocObj(s, n, HEAP_NEWA, true))); };
  B["_Znwm"] = newF; B["_Znam"] = newA; B["_ZnwmSt11align_val_t"] = newF; B["_ZnamSt11align_val_t"] = newA;
  B["_ZnwmRKSt9nothrow_t"] = [](State& s, KInst& k) { u64 n; if (!sizeArg(s, k, 0, n)) { ret(s, cv(0)); return; } s.liveHeap++; ret(s, cv(allocObj(s, n, HEAP_NEW, true))); };
  B["_ZnamRKSt9nothrow_t"] = [](State& s, KInst& k) { u64 n; if (!sizeArg(s, k, 0, n)) { ret(s, cv(0)); return; } s.liveHeap++; ret(s, cv(allocObj(s, n, HEAP_NEWA, true))); };
  auto del = [](State& s, KInst& k) { u64 p = cArg(s, k, 0, "delete"); doFree(s, p, HEAP_NEW, "delete"); ret(s, cv(0)); };
  auto delA = [](State& s, KInst& k) { u64 p = cArg(s, k, 0, "delete"); doFree(s, p, HEAP_NEWA, "delete[]"); ret(s, cv(0)); };
  B["_ZdlPv"] = del; B["_ZdlPvm"] = del; B["_ZdlPvSt11align_val_t"] = del; B["_ZdlPvmSt11align_val_t"] = del; B["_ZdlPvRKSt9nothrow_t"] = del;
  B["_ZdaPv"] = delA; B["_ZdaPvm"] = delA; B["_ZdaPvSt11align_val_t"] = delA; B["_ZdaPvRKSt9nothrow_t"] = delA;
  B["malloc"] = [](State& s, KInst& k) { u64 n; if (!sizeArg(s, k, 0, n)) { ret(s, cv(0)); return; } s.liveHeap++; ret(s, cv(allocObj(s, n, HEAP_MALLOC, true))); };
  B["calloc"] = [](State& s, KInst& k) { u64 a = cArg(s, k, 0, "calloc"), b = cArg(s, k, 1, "calloc"); if ((u128)a * b > (1u << 24)) { ret(s, cv(0)); return; } s.liveHeap++; ret(s, cv(allocObj(s, a * b, HEAP_MALLOC, false))); };
  B["free"] = [](State& s, KInst& k) { u64 p = cArg(s, k, 0, "free"); doFree(s, p, HEAP_MALLOC, "free"); ret(s, cv(0)); };
  B["realloc"] = [](State& s, KInst& k) { u64 n; u64 p = cArg(s, k, 0, "realloc"); if (!sizeArg(s, k, 1, n)) { ret(s, cv(0)); return; }
    u64 old = 0; if (p) { MemEnt* me = findEnt(s, p); if (!me || me->base != p || me->o->kind != HEAP_MALLOC) error("memory", "realloc of a pointer that is not a live malloc allocation"); old = me->o->size; }
    if (p && n == 0) { doFree(s, p, HEAP_MALLOC, "realloc"); ret(s, cv(0)); return; }
    if (p && s.stay && n <= old) { Obj* o = writable(findEnt(s, p)); o->size = n; o->d.resize(n); if (!o->s.empty()) o->s.resize(n); ret(s, cv(p)); return; }
    u64 q = allocObj(s, n, HEAP_MALLOC, true); s.liveHeap++; if (p) { copyMem(s, cv(q), cv(p), std::min(old, n), true); doFree(s, p, HEAP_MALLOC, "realloc"); } ret(s, cv(q)); };
  B["memcpy"] = [](State& s, KInst& k) { u64 n = cArg(s, k, 2, "memcpy size"); Val d = arg(s, k, 0); copyMem(s, d, arg(s, k, 1), n, false); ret(s, d); };
  B["memmove"] = [](State& s, KInst& k) { u64 n = cArg(s, k, 2, "memmove size"); Val d = arg(s, k, 0); copyMem(s, d, arg(s, k, 1), n, true); ret(s, d); };
  B["memset"] = [](State& s, KInst& k) { u64 n = cArg(s, k, 2, "memset size"); Val d = arg(s, k, 0); setMem(s, d, arg(s, k, 1), n); ret(s, d); };
  B["memcmp"] = [](State& s, KInst& k) { u64 n = cArg(s, k, 2, "memcmp size"), a = cArg(s, k, 0, "memcmp"), b = cArg(s, k, 1, "memcmp"); ret(s, ev(memcmpE(s, a, b, n))); };
  B["bcmp"] = [](State& s, KInst& k) { u64 n = cArg(s, k, 2, "memcmp size"), a = cArg(s, k, 0, "memcmp"), b = cArg(s, k, 1, "memcmp"); ret(s, ev(mkZExt(mkNot(memeqE(s, a, b, n)), 32))); };
  B["__cxa_allocate_exception"] = [](State& s, KInst& k) { u64 n = cArg(s, k, 0, "exc"); u64 o = allocObj(s, n, EXC, true); ret(s, cv(o)); };
  B["__cxa_free_exception"] = [](State& s, KInst& k) { ret(s, cv(0)); };
  B["__cxa_throw"] = [](State& s, KInst& k) { u64 e = arg(s, k, 0).c; s.exc[e] = ExcInfo{arg(s, k, 1).c, arg(s, k, 2).c, e, 0}; runThrow(s, e); };
  B["__cxa_begin_catch"] = [](State& s, KInst& k) { u64 e = arg(s, k, 0).c; auto& x = s.exc[e]; x.handlers = (x.handlers < 0 ? -x.handlers : x.handlers) + 1; if (s.caught.empty() || s.caught.back() != e) s.caught.push_back(e); s.uncaught--; ret(s, cv(x.adjusted)); };
  B["__cxa_get_exception_ptr"] = [](State& s, KInst& k) { ret(s, cv(s.exc[arg(s, k, 0).c].adjusted)); };
  B["__cxa_end_catch"] = [](State& s, KInst& k) { if (s.caught.empty()) { ret(s, cv(0)); return; } u64 e = s.caught.back(); auto& x = s.exc[e];
    if (x.handlers < 0) { if (++x.handlers == 0) s.caught.pop_back(); ret(s, cv(0)); return; }
    if (--x.handlers == 0) { s.caught.pop_back(); if (x.dtor) { auto it = funcByAddr.find(x.dtor); if (it != funcByAddr.end() && !it->second->F->isDeclaration()) { pushFrame(s, it->second, {cv(e)}, nullptr); return; } } } ret(s, cv(0)); };
  B["__cxa_rethrow"] = [](State& s, KInst& k) { if (s.caught.empty()) error("terminate", "rethrow without an exception"); u64 e = s.caught.back(); auto& x = s.exc[e]; x.handlers = -x.handlers; runThrow(s, e); };
  B["__cxa_call_unexpected"] = [](State& s, KInst& k) { error("terminate", "exception violates its exception specification"); };
  B["_ZSt18uncaught_exceptionv"] = [](State& s, KInst& k) { ret(s, cv(s.uncaught > 0)); };
  B["_ZSt19uncaught_exceptionsv"] = [](State& s, KInst& k) { ret(s, cv(s.uncaught)); };
  B["_ZSt9terminatev"] = [](State& s, KInst& k) { error("terminate", "std::terminate"); };
  B["abort"] = [](State& s, KInst& k) { error("abort", "abort() called"); };
  B["__assert_fail"] = [](State& s, KInst& k) { error("abort", "assert(" + readCStr(s, arg(s, k, 0).c) + ") failed"); };
  B["__cxa_pure_virtual"] = [](State& s, KInst& k) { error("abort", "pure virtual call"); };
  B["__cxa_atexit"] = [](State& s, KInst& k) { ret(s, cv(0)); }; B["atexit"] = B["__cxa_atexit"];
  B["__cxa_guard_acquire"] = [](State& s, KInst& k) { Val g = loadScalar(s, arg(s, k, 0), 8); ret(s, cv(g.c == 0)); };
  B["__cxa_guard_release"] = [](State& s, KInst& k) { storeScalar(s, arg(s, k, 0), 8, cv(1)); ret(s, cv(0)); };
  B["__cxa_guard_abort"] = [](State& s, KInst& k) { ret(s, cv(0)); };
  B["__dynamic_cast"] = [](State& s, KInst& k) { u64 p = cArg(s, k, 0, "dynamic_cast"); auto* dst = tiOf(arg(s, k, 2).c); llvm::Type* i64 = llvm::Type::getInt64Ty(ctx); u64 vp = load(s, cv(p), i64).c; int64_t top = (int64_t)load(s, cv(vp - 16), i64).c; auto* ti = tiOf(load(s, cv(vp - 8), i64).c); u64 full = p + top, adj; ret(s, cv(derives(&s, ti, dst, full, adj) ? adj : 0)); };
  // ---- harness interface
  B["sym_make"] = [](State& s, KInst& k) {
    u64 p = cArg(s, k, 0, "sym"), n = cArg(s, k, 1, "sym"); std::string nm = readCStr(s, cArg(s, k, 2, "sym")); int c = s.nameCount[nm]++; if (c) nm += "~" + std::to_string(c);
    u64 off; E oe; Val pv = cv(p); MemEnt* me = resolve(s, pv, n, "write", off, oe);
    auto one = [&](u64 o, unsigned bytes, const std::string& name) { E e = mkSym(name, bytes * 8, true); s.inputs.push_back(e->val); s.m.set(e->val, 0); Val v = ev(e); for (auto& f : fixes) if (f.first == name) { addPC(s, mkEq(e, mkConst(f.second, bytes * 8))); s.m.set(e->val, f.second); v = cv(f.second); } storeAt(s, me, o, bytes, bytes * 8, v); };
    if (n == 1 || n == 2 || n == 4 || n == 8) one(off, n, nm); else for (u64 i = 0; i < n; i++) one(off + i, 1, nm + "[" + std::to_string(i) + "]");
    ret(s, cv(0)); };
  B["sym_assume"] = [](State& s, KInst& k) { Val c = arg(s, k, 0); unsigned w = argW(k, 0); E b = mkNot(mkEq(toE(c, w), mkConst(0, w))); if (isC(b)) { if (!b->val) endPath(PathEnd::Discard); ret(s, cv(0)); return; }
    if (!eval(b, s.m)) { Model m = s.m; if (feasible(s, b, m) != SAT) endPath(PathEnd::Discard); s.m = m; } addPC(s, b); ret(s, cv(0)); };
  B["sym_assert"] = [](State& s, KInst& k) { std::string msg = readCStr(s, cArg(s, k, 1, "msg")); doAssert(s, arg(s, k, 0), argW(k, 0), msg); ret(s, cv(0)); };
  B["sym_fail"] = [](State& s, KInst& k) { std::string msg = readCStr(s, cArg(s, k, 0, "msg")); nAsserts++; assertCount[msg]++; error("assert", msg); };
  B["sym_expect"] = [](State& s, KInst& k) { expectAll.insert(readCStr(s, arg(s, k, 0).c)); ret(s, cv(0)); };
  B["sym_reach"] = [](State& s, KInst& k) { s.reached.insert(readCStr(s, arg(s, k, 0).c)); ret(s, cv(0)); };
  B["sym_observe"] = [](State& s, KInst& k) { s.obs.push_back({readCStr(s, arg(s, k, 1).c), arg(s, k, 0), argW(k, 0)}); ret(s, cv(0)); };
  B["sym_is_symbolic"] = [](State& s, KInst& k) { Val v = arg(s, k, 0); ret(s, cv(v.e ? 1 : 0)); };
  B["sym_fresh"] = [](State& s, KInst& k) { u64 n = cArg(s, k, 0, "fresh"); E e = mkSym("fresh" + std::to_string(n) + "_" + std::to_string(s.fresh++), n, false); s.m.set(e->val, 0); ret(s, ev(mkZExt(e, 64))); };
  B["sym_conc"] = [](State& s, KInst& k) { ret(s, cv(cArg(s, k, 0, "sym_conc"))); };
  B["sym_done"] = [](State& s, KInst& k) { endPath(PathEnd::Done); };
  B["sym_live"] = [](State& s, KInst& k) { ret(s, cv(s.liveHeap)); };
  B["sym_realloc_stays"] = [](State& s, KInst& k) { s.stay = true; ret(s, cv(0)); };
  B["sym_alloc_limit"] = [](State& s, KInst& k) { s.allocLimit = cArg(s, k, 0, "limit"); ret(s, cv(0)); };
  B["sym_print"] = [](State& s, KInst& k) { if (verbose) { Val v = arg(s, k, 1); fprintf(stderr, "PRINT %s %s\n", readCStr(s, arg(s, k, 0).c).c_str(), v.e ? show(v.e, 12).c_str() : hex(v.c).c_str()); } ret(s, cv(0)); };
  B["sym_puts"] = [](State& s, KInst& k) { if (verbose) { std::string t; u64 p = arg(s, k, 0).c, n = cArg(s, k, 1, "n"); for (u64 i = 0; i < n; i++) { Val v = loadScalar(s, cv(p + i), 8); t += v.e ? '?' : (char)v.c; } fprintf(stderr, "OUT %s\n", t.c_str()); } ret(s, cv(0)); };
  B["sym_unsupported"] = [](State& s, KInst& k) { incomplete("runtime model: " + readCStr(s, arg(s, k, 0).c)); };
  B["__sx_fmt_double"] = [](State& s, KInst& k) { // (char*buf, size_t n, const char*fmt, int prec, double)
    u64 buf = cArg(s, k, 0, "fmt"), n = cArg(s, k, 1, "fmt"); std::string fmt = readCStr(s, cArg(s, k, 2, "fmt")); int prec = (int)cArg(s, k, 3, "fmt"); u64 b = cArg(s, k, 4, "double formatting"); double d; memcpy(&d, &b, 8);
    char tmp[512]; int len = snprintf(tmp, sizeof tmp, fmt.c_str(), prec, d); for (u64 i = 0; i < n && i <= (u64)len; i++) storeScalar(s, cv(buf + i), 8, cv((uint8_t)tmp[i])); ret(s, cv(mask((u64)(int64_t)len, 32))); };
  B["__sx_strtod"] = [](State& s, KInst& k) { // (const char*, int* used) ; characters must be concrete
    u64 p = cArg(s, k, 0, "strtod"); std::string t; for (int i = 0; i < 400; i++) { Val v = loadScalar(s, cv(p + i), 8); if (v.e) { concretize(s, v, 8, "strtod char"); } if (!v.c) break; t += (char)v.c; }
    char* e; double d = strtod(t.c_str(), &e); u64 b; memcpy(&b, &d, 8); storeScalar(s, arg(s, k, 1), 32, cv(e - t.c_str())); ret(s, cv(b)); };
#define M1(name, expr) B[name] = [](State& s, KInst& k) { u64 b = cArg(s, k, 0, name); double x; memcpy(&x, &b, 8); double r = (expr); u64 o; memcpy(&o, &r, 8); ret(s, cv(o)); };
  M1("sqrt", sqrt(x)) M1("floor", floor(x)) M1("ceil", ceil(x)) M1("log", log(x)) M1("exp", exp(x)) M1("fabs", fabs(x)) M1("round", round(x)) M1("trunc", trunc(x))
}
static void intrinsic(State& s, KInst& k, const llvm::IntrinsicInst* II) {
  using namespace llvm; unsigned w = k.w;
  auto A = [&](unsigned i) { return arg(s, k, i); };
  switch (II->getIntrinsicID()) {
  case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: case Intrinsic::invariant_end: case Intrinsic::dbg_value: case Intrinsic::dbg_declare: case Intrinsic::dbg_label: case Intrinsic::dbg_assign: case Intrinsic::stackrestore: case Intrinsic::prefetch: case Intrinsic::vaend: case Intrinsic::var_annotation: case Intrinsic::eh_sjlj_functioncontext: ret(s, cv(0)); return;
  case Intrinsic::invariant_start: case Intrinsic::stacksave: ret(s, cv(0)); return;
  case Intrinsic::memcpy: case Intrinsic::memcpy_inline: { u64 n = cArg(s, k, 2, "memcpy size"); if (A(0).e == nullptr && A(1).e == nullptr && A(0).c == A(1).c) { ret(s, cv(0)); return; } copyMem(s, A(0), A(1), n, false); ret(s, cv(0)); return; }
  case Intrinsic::memmove: { u64 n = cArg(s, k, 2, "memmove size"); copyMem(s, A(0), A(1), n, true); ret(s, cv(0)); return; }
  case Intrinsic::memset: case Intrinsic::memset_inline: { u64 n = cArg(s, k, 2, "memset size"); setMem(s, A(0), A(1), n); ret(s, cv(0)); return; }
  case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ssa_copy: case Intrinsic::threadlocal_address: case Intrinsic::ptr_annotation: case Intrinsic::annotation: ret(s, A(0)); return;
  case Intrinsic::is_constant: ret(s, cv(0)); return;
  case Intrinsic::objectsize: { Val m = A(1); ret(s, cv(m.c ? 0 : mask(~0ull, w))); return; }
  case Intrinsic::trap: case Intrinsic::debugtrap: case Intrinsic::ubsantrap: error("trap", "trap instruction reached");
  case Intrinsic::eh_typeid_for: { auto* g = dyn_cast<GlobalVariable>(II->getArgOperand(0)->stripPointerCasts()); ret(s, cv(g ? typeId(g) : 1000000)); return; }
  case Intrinsic::vastart: { u64 p = A(0).c; u64 va = s.st.back().va; storeScalar(s, cv(p), 32, cv(48)); storeScalar(s, cv(p + 4), 32, cv(304)); storeScalar(s, cv(p + 8), 64, cv(va)); storeScalar(s, cv(p + 16), 64, cv(0)); ret(s, cv(0)); return; }
  case Intrinsic::vacopy: copyMem(s, A(0), A(1), 24, true); ret(s, cv(0)); return;
  case Intrinsic::umin: ret(s, minmax(A(0), A(1), w, false, true)); return; case Intrinsic::umax: ret(s, minmax(A(0), A(1), w, false, false)); return;
  case Intrinsic::smin: ret(s, minmax(A(0), A(1), w, true, true)); return; case Intrinsic::smax: ret(s, minmax(A(0), A(1), w, true, false)); return;
  case Intrinsic::abs: { E x = toE(A(0), w); ret(s, ev(mkITE(mkBin(SLT, x, mkConst(0, w)), mkBin(SUB, mkConst(0, w), x), x))); return; }
  case Intrinsic::usub_sat: { E x = toE(A(0), w), y = toE(A(1), w); ret(s, ev(mkITE(mkBin(ULT, x, y), mkConst(0, w), mkBin(SUB, x, y)))); return; }
  case Intrinsic::uadd_sat: { E x = toE(A(0), w), y = toE(A(1), w); E r = mkBin(ADD, x, y); ret(s, ev(mkITE(mkBin(ULT, r, x), mkConst(mask(~0ull, w), w), r))); return; }
  case Intrinsic::bswap: { E x = toE(A(0), w); E r = mkExtract(x, 0, 8); for (unsigned i = 8; i < w; i += 8) r = mkConcat(r, mkExtract(x, i, 8)); ret(s, ev(r)); return; }
  case Intrinsic::ctpop: { E x = toE(A(0), w), r = mkConst(0, w); for (unsigned i = 0; i < w; i++) r = mkBin(ADD, r, mkZExt(mkExtract(x, i, 1), w)); ret(s, ev(r)); return; }
  case Intrinsic::ctlz: { E x = toE(A(0), w), r = mkConst(w, w); for (unsigned i = 0; i < w; i++) r = mkITE(mkEq(mkExtract(x, i, 1), mkConst(1, 1)), mkConst(w - 1 - i, w), r); ret(s, ev(r)); return; }
  case Intrinsic::cttz: { E x = toE(A(0), w), r = mkConst(w, w); for (unsigned i = w; i-- > 0;) r = mkITE(mkEq(mkExtract(x, i, 1), mkConst(1, 1)), mkConst(i, w), r); ret(s, ev(r)); return; }
  case Intrinsic::fshl: case Intrinsic::fshr: { E x = toE(A(0), w), y = toE(A(1), w), z = toE(A(2), w); E n = mkBin(UREM, z, mkConst(w, w)); E wn = mkBin(SUB, mkConst(w, w), n); E zr = mkEq(n, mkConst(0, w));
      if (II->getIntrinsicID() == Intrinsic::fshl) ret(s, ev(mkITE(zr, x, mkBin(OR, mkBin(SHL, x, n), mkBin(LSHR, y, wn))))); else ret(s, ev(mkITE(zr, y, mkBin(OR, mkBin(SHL, x, wn), mkBin(LSHR, y, n))))); return; }
  case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
      unsigned n = argW(k, 0); E x = toE(A(0), n), y = toE(A(1), n); auto id = II->getIntrinsicID(); Op o = id == Intrinsic::uadd_with_overflow || id == Intrinsic::sadd_with_overflow ? ADD : id == Intrinsic::usub_with_overflow || id == Intrinsic::ssub_with_overflow ? SUB : MUL; bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
      E r = mkBin(o, x, y), ov;
      if (!sg && o == ADD) ov = mkBin(ULT, r, x); else if (!sg && o == SUB) ov = mkBin(ULT, x, y);
      else { unsigned W = o == MUL ? 2 * n : n + 1; E X = sg ? mkSExt(x, W) : mkZExt(x, W), Y = sg ? mkSExt(y, W) : mkZExt(y, W); E R; if (isC(x) && isC(y) && W > 64) { __int128 a = sg ? (__int128)sx64(x->val, n) : (__int128)x->val, b = sg ? (__int128)sx64(y->val, n) : (__int128)y->val; __int128 p = o == MUL ? (__int128)((u128)a * (u128)b) : o == ADD ? a + b : a - b; bool of = sg ? p != (__int128)sx64((u64)p, n) : ((u128)p >> n) != 0; ret(s, mkAgg({ev(r), cv(of)})); return; } R = mkBin(o, X, Y); ov = mkNot(mkEq(R, sg ? mkSExt(r, W) : mkZExt(r, W))); }
      ret(s, mkAgg({ev(r), ev(ov)})); return; }
  case Intrinsic::fabs: if (w > 64) incomplete("fp80"); ret(s, ev(mkBin(AND, toE(A(0), w), mkConst(mask(~0ull, w - 1), w)))); return;
  case Intrinsic::floor: case Intrinsic::ceil: case Intrinsic::trunc: case Intrinsic::sqrt: case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::round: { if (w != 64) incomplete("float intrinsic"); u64 b = cArg(s, k, 0, "fp intrinsic"); double x; memcpy(&x, &b, 8); double r = 0; switch (II->getIntrinsicID()) { case Intrinsic::floor: r = ::floor(x); break; case Intrinsic::ceil: r = ::ceil(x); break; case Intrinsic::trunc: r = ::trunc(x); break; case Intrinsic::sqrt: r = ::sqrt(x); break; case Intrinsic::round: r = ::round(x); break; default: r = ::rint(x); } memcpy(&b, &r, 8); ret(s, cv(b)); return; }
  case Intrinsic::fmuladd: { E m = mkFP(FMUL, toE(A(0), w), toE(A(1), w), w); ret(s, ev(mkFP(FADD, m, toE(A(2), w), w))); return; }
  case Intrinsic::load_relative: { u64 p = A(0).c, o = A(1).c; Val d = loadScalar(s, cv(p + o), 32); ret(s, cv(p + (u64)sx64(d.c, 32))); return; }
  case Intrinsic::is_fpclass: { if (argW(k, 0) > 64) incomplete("fp80"); unsigned m = A(1).c; unsigned n = argW(k, 0); E x = toE(A(0), n); unsigned mb = n == 64 ? 52 : 23, eb = n - 1 - mb; E man = mkExtract(x, 0, mb), ex = mkExtract(x, mb, eb); E all = mkEq(ex, mkConst(mask(~0ull, eb), eb)), mz = mkEq(man, mkConst(0, mb)); E sgn = mkExtract(x, n - 1, 1); E r = mkConst(0, 1);
      if (m & 3) { if ((m & 3) != 3) incomplete("snan class"); r = mkBin(OR, r, mkBin(AND, all, mkNot(mz))); } E inf = mkBin(AND, all, mz); if (m & 4) r = mkBin(OR, r, mkBin(AND, inf, sgn)); if (m & 512) r = mkBin(OR, r, mkBin(AND, inf, mkNot(sgn))); unsigned rest = m & ~(3 | 4 | 512); unsigned fin = 8 | 16 | 32 | 64 | 128 | 256; if (rest == fin) r = mkBin(OR, r, mkNot(all)); else if (rest) incomplete("fpclass"); ret(s, ev(r)); return; }
  default: { std::string n = II->getCalledFunction()->getName().str();
    if (n.find("llvm.vector.reduce.") == 0) { auto& v = agg(A(0))->v; unsigned ew = tw(elemT(II->getArgOperand(0)->getType(), 0)); unsigned o = n.find(".add.") != n.npos ? Instruction::Add : n.find(".or.") != n.npos ? Instruction::Or : n.find(".and.") != n.npos ? Instruction::And : 0; if (!o) incomplete(n); Val r = v[0]; for (size_t i = 1; i < v.size(); i++) r = binop(s, o, r, v[i], ew); ret(s, r); return; }
    incomplete("intrinsic " + n); } }
}
static void doCall(State& s, KInst& k) {
  auto* cb = cast<llvm::CallBase>(k.I);
  if (auto* II = dyn_cast<llvm::IntrinsicInst>(cb)) { intrinsic(s, k, II); return; }
  if (cb->isInlineAsm()) { if (cast<llvm::InlineAsm>(cb->getCalledOperand())->getAsmString().empty()) { ret(s, cv(0)); return; } incomplete("inline asm"); }
  Val fv = get(s.st.back(), k.ops.back()); u64 fa = fv.e ? concretize(s, fv, 64, "function pointer") : fv.c;
  auto it = funcByAddr.find(fa); if (it == funcByAddr.end()) error(fa < 4096 ? "null-dereference" : "memory", "call through an invalid function pointer " + hex(fa));
  KFunc* t = it->second;
  if (builtins.empty()) initBuiltins();
  if (t->F->isDeclaration()) { auto b = builtins.find(t->name); if (b == builtins.end()) incomplete("external function " + t->name); t->entered = true; b->second(s, k); return; }
  std::vector<Val> args; unsigned n = cb->arg_size(); args.reserve(n); for (unsigned i = 0; i < n; i++) args.push_back(k.ops[i] == INT_MIN ? cv(0) : get(s.st.back(), k.ops[i]));
  if (n < t->F->arg_size()) incomplete("call with too few arguments to " + t->name);
  pushFrame(s, t, std::move(args), cb);
}
