#include "solver.h"
#include <z3.h>
#include <unordered_map>
#include <unordered_set>
#include <algorithm>
#include <deque>
#include <chrono>
#include <cstring>
namespace sx {
SolverStats sstats; unsigned solverTimeoutMs = 60000;
static Z3_context ctx = nullptr;
static Z3_solver slv = nullptr, slvFP = nullptr;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static void onErr(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); abort(); }
static void init() {
  if (ctx) return;
  Z3_config cfg = Z3_mk_config(); ctx = Z3_mk_context(cfg); Z3_del_config(cfg);
  Z3_set_error_handler(ctx, onErr);
  slv = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV")); Z3_solver_inc_ref(ctx, slv);
  slvFP = Z3_mk_solver(ctx); Z3_solver_inc_ref(ctx, slvFP);
  for (auto s : {slv, slvFP}) {
    Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p);
    Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), solverTimeoutMs);
    Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "random_seed"), 1);
    Z3_solver_set_params(ctx, s, p);
  }
}
static bool fpUsed;
static std::unordered_map<E, bool> hasFP;
static Z3_ast b2bv(Z3_ast b) { return Z3_mk_ite(ctx, b, Z3_mk_unsigned_int64(ctx, 1, Z3_mk_bv_sort(ctx, 1)), Z3_mk_unsigned_int64(ctx, 0, Z3_mk_bv_sort(ctx, 1))); }
static Z3_ast toZ(E e);
static Z3_ast boolZ(E e) { // width-1 expression as Bool
  Z3_ast one = Z3_mk_unsigned_int64(ctx, 1, Z3_mk_bv_sort(ctx, 1));
  if (isC(e)) return e->val ? Z3_mk_true(ctx) : Z3_mk_false(ctx);
  if (isNot(e)) return Z3_mk_not(ctx, boolZ(e->a));
  switch (e->op) {
  case AND: { Z3_ast x[2] = {boolZ(e->a), boolZ(e->b)}; return Z3_mk_and(ctx, 2, x); }
  case OR: { Z3_ast x[2] = {boolZ(e->a), boolZ(e->b)}; return Z3_mk_or(ctx, 2, x); }
  case EQ: return Z3_mk_eq(ctx, toZ(e->a), toZ(e->b));
  case ULT: return Z3_mk_bvult(ctx, toZ(e->a), toZ(e->b));
  case SLT: return Z3_mk_bvslt(ctx, toZ(e->a), toZ(e->b));
  case ITE: return Z3_mk_ite(ctx, boolZ(e->a), boolZ(e->b), boolZ(e->c));
  default: return Z3_mk_eq(ctx, toZ(e), one);
  }
}
static Z3_sort fps(unsigned w) { return w == 64 ? Z3_mk_fpa_sort_64(ctx) : Z3_mk_fpa_sort_32(ctx); }
static Z3_ast fp(E e) { return Z3_mk_fpa_to_fp_bv(ctx, toZ(e), fps(e->width)); }
static Z3_ast toZ(E e) {
  if (e->z3) return (Z3_ast)e->z3;
  Z3_ast r = nullptr;
  switch (e->op) {
  case CONST: r = Z3_mk_unsigned_int64(ctx, e->val, Z3_mk_bv_sort(ctx, e->width)); break;
  case SYM: r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, ("s" + std::to_string(e->val)).c_str()), Z3_mk_bv_sort(ctx, e->width)); break;
  case ADD: r = Z3_mk_bvadd(ctx, toZ(e->a), toZ(e->b)); break;
  case SUB: r = Z3_mk_bvsub(ctx, toZ(e->a), toZ(e->b)); break;
  case MUL: r = Z3_mk_bvmul(ctx, toZ(e->a), toZ(e->b)); break;
  case UDIV: r = Z3_mk_bvudiv(ctx, toZ(e->a), toZ(e->b)); break;
  case SDIV: r = Z3_mk_bvsdiv(ctx, toZ(e->a), toZ(e->b)); break;
  case UREM: r = Z3_mk_bvurem(ctx, toZ(e->a), toZ(e->b)); break;
  case SREM: r = Z3_mk_bvsrem(ctx, toZ(e->a), toZ(e->b)); break;
  case AND: r = Z3_mk_bvand(ctx, toZ(e->a), toZ(e->b)); break;
  case OR: r = Z3_mk_bvor(ctx, toZ(e->a), toZ(e->b)); break;
  case XOR: r = Z3_mk_bvxor(ctx, toZ(e->a), toZ(e->b)); break;
  case SHL: r = Z3_mk_bvshl(ctx, toZ(e->a), toZ(e->b)); break;
  case LSHR: r = Z3_mk_bvlshr(ctx, toZ(e->a), toZ(e->b)); break;
  case ASHR: r = Z3_mk_bvashr(ctx, toZ(e->a), toZ(e->b)); break;
  case EQ: case ULT: case SLT: r = b2bv(boolZ(e)); break;
  case ITE: r = Z3_mk_ite(ctx, boolZ(e->a), toZ(e->b), toZ(e->c)); break;
  case CONCAT: r = Z3_mk_concat(ctx, toZ(e->a), toZ(e->b)); break;
  case EXTRACT: r = Z3_mk_extract(ctx, e->val + e->width - 1, e->val, toZ(e->a)); break;
  case ZEXT: r = Z3_mk_zero_ext(ctx, e->width - e->a->width, toZ(e->a)); break;
  case SEXT: r = Z3_mk_sign_ext(ctx, e->width - e->a->width, toZ(e->a)); break;
  default: {
    Z3_ast rne = Z3_mk_fpa_rne(ctx), rtz = Z3_mk_fpa_rtz(ctx);
    switch (e->op) {
    case FADD: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_add(ctx, rne, fp(e->a), fp(e->b))); break;
    case FSUB: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_sub(ctx, rne, fp(e->a), fp(e->b))); break;
    case FMUL: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_mul(ctx, rne, fp(e->a), fp(e->b))); break;
    case FDIV: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_div(ctx, rne, fp(e->a), fp(e->b))); break;
    case FEQ: r = b2bv(Z3_mk_fpa_eq(ctx, fp(e->a), fp(e->b))); break;
    case FLT: r = b2bv(Z3_mk_fpa_lt(ctx, fp(e->a), fp(e->b))); break;
    case FLE: r = b2bv(Z3_mk_fpa_leq(ctx, fp(e->a), fp(e->b))); break;
    case FUNO: { Z3_ast x[2] = {Z3_mk_fpa_is_nan(ctx, fp(e->a)), Z3_mk_fpa_is_nan(ctx, fp(e->b))}; r = b2bv(Z3_mk_or(ctx, 2, x)); break; }
    case FPTOSI: r = Z3_mk_fpa_to_sbv(ctx, rtz, fp(e->a), e->width); break;
    case FPTOUI: r = Z3_mk_fpa_to_ubv(ctx, rtz, fp(e->a), e->width); break;
    case SITOFP: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_to_fp_signed(ctx, rne, toZ(e->a), fps(e->width))); break;
    case UITOFP: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_to_fp_unsigned(ctx, rne, toZ(e->a), fps(e->width))); break;
    case FPEXT: case FPTRUNC: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_to_fp_float(ctx, rne, fp(e->a), fps(e->width))); break;
    default: abort(); } } }
  Z3_inc_ref(ctx, r); e->z3 = r; return r;
}
static bool usesFP(E e) { auto it = hasFP.find(e); if (it != hasFP.end()) return it->second;
  bool r = e->op >= FADD; for (E x : {e->a, e->b, e->c}) if (!r && x) r = usesFP(x); return hasFP[e] = r; }

struct CacheEnt { Res r; std::vector<std::pair<uint32_t, uint64_t>> m; };
struct VH { size_t operator()(const std::vector<uint32_t>& v) const { uint64_t h = v.size(); for (auto x : v) h = (h ^ x) * 0x9e3779b97f4a7c15ull + (h >> 29); return h; } };
static std::unordered_map<std::vector<uint32_t>, CacheEnt, VH> cache;
static std::deque<Model> recent;

static void slice(const std::vector<E>& pc, E extra, std::vector<E>& out) {
  static std::vector<uint32_t> mark; static uint32_t gen = 0; gen++;
  if (mark.size() < symbols.size()) mark.resize(symbols.size() + 64, 0);
  for (auto s : *extra->syms) mark[s] = gen;
  std::vector<char> in(pc.size(), 0); bool ch = true;
  while (ch) { ch = false;
    for (size_t i = 0; i < pc.size(); i++) if (!in[i]) { bool hit = false; for (auto s : *pc[i]->syms) if (mark[s] == gen) { hit = true; break; }
      if (hit) { in[i] = 1; out.push_back(pc[i]); for (auto s : *pc[i]->syms) if (mark[s] != gen) { mark[s] = gen; ch = true; } } } }
}
Res solve(const std::vector<E>& pc, E extra, Model& m) {
  sstats.queries++;
  if (isC(extra)) return extra->val ? SAT : UNSAT;
  std::vector<E> sl; slice(pc, extra, sl); sl.push_back(extra);
  std::vector<uint32_t> key; for (E e : sl) key.push_back(e->id); std::sort(key.begin(), key.end()); key.erase(std::unique(key.begin(), key.end()), key.end());
  auto it = cache.find(key);
  if (it != cache.end()) { sstats.cacheHits++; for (auto& p : it->second.m) m.set(p.first, p.second); return it->second.r; }
  std::vector<uint32_t> syms; for (E e : sl) syms.insert(syms.end(), e->syms->begin(), e->syms->end()); std::sort(syms.begin(), syms.end()); syms.erase(std::unique(syms.begin(), syms.end()), syms.end());
  for (auto& rm : recent) { newStamp(); bool ok = true; for (size_t i = sl.size(); i-- > 0;) if (!evalCont(sl[i], rm)) { ok = false; break; }
    if (ok) { sstats.modelHits++; CacheEnt c; c.r = SAT; for (auto s : syms) { c.m.push_back({s, rm.get(s)}); m.set(s, rm.get(s)); } cache.emplace(std::move(key), c); return SAT; } }
  init();
  double t0 = now(); bool f = false; for (E e : sl) if (usesFP(e)) f = true;
  Z3_solver s = f ? slvFP : slv;
  Z3_solver_push(ctx, s);
  for (E e : sl) Z3_solver_assert(ctx, s, boolZ(e));
  Z3_lbool r = Z3_solver_check(ctx, s);
  CacheEnt c; c.r = r == Z3_L_TRUE ? SAT : r == Z3_L_FALSE ? UNSAT : UNKNOWN;
  if (r == Z3_L_TRUE) {
    Z3_model zm = Z3_solver_get_model(ctx, s); Z3_model_inc_ref(ctx, zm);
    for (auto sy : syms) { Z3_ast v; uint64_t val = 0; E se = mkSym(symbols[sy].name, symbols[sy].width, symbols[sy].input);
      if (Z3_model_eval(ctx, zm, toZ(se), true, &v)) Z3_get_numeral_uint64(ctx, v, &val);
      c.m.push_back({sy, val}); m.set(sy, val); }
    Z3_model_dec_ref(ctx, zm);
    newStamp(); for (E e : sl) if (!evalCont(e, m)) { fprintf(stderr, "engine error: z3 model does not satisfy %s\n", show(e).c_str()); c.r = UNKNOWN; break; }
    if (c.r == SAT) { Model k; for (auto& p : c.m) k.set(p.first, p.second); recent.push_front(k); if (recent.size() > 24) recent.pop_back(); }
  }
  Z3_solver_pop(ctx, s, 1);
  double dt = now() - t0; sstats.z3time += dt; if (dt > sstats.maxq) sstats.maxq = dt; sstats.z3calls++;
  if (c.r == SAT) sstats.sat++; else if (c.r == UNSAT) sstats.unsat++; else sstats.unknown++;
  Res res = c.r; cache.emplace(std::move(key), std::move(c)); return res;
}
}
