#include "expr.h"
#include <unordered_map>
#include <unordered_set>
#include <map>
#include <cstring>
#include <cmath>
#include <algorithm>
#include <set>
namespace sx {
std::vector<SymInfo> symbols;
uint64_t exprCount = 0;
static std::map<std::pair<std::string,unsigned>, uint32_t> symIds;
struct Key { Op op; uint32_t w; E a, b, c; uint64_t v; };
static uint64_t hmix(uint64_t h, uint64_t x) { h ^= x + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); return h * 0xff51afd7ed558ccdull; }
static std::vector<E> table(1 << 16, nullptr);
static size_t used = 0;
static const std::vector<uint32_t> noSyms;
static std::set<std::vector<uint32_t>> symSets;
static std::unordered_map<uint64_t, const std::vector<uint32_t>*> unionCache;
static std::unordered_map<const std::vector<uint32_t>*, uint32_t> setIds;
static uint32_t setId(const std::vector<uint32_t>* s) { auto it = setIds.find(s); if (it != setIds.end()) return it->second; uint32_t n = setIds.size(); setIds[s] = n; return n; }
static const std::vector<uint32_t>* uni(const std::vector<uint32_t>* a, const std::vector<uint32_t>* b) {
  if (a == b || b->empty()) return a;
  if (a->empty()) return b;
  uint32_t ia = setId(a), ib = setId(b); if (ia > ib) std::swap(ia, ib), std::swap(a, b);
  uint64_t k = (uint64_t)ia << 32 | ib;
  auto it = unionCache.find(k); if (it != unionCache.end()) return it->second;
  std::vector<uint32_t> r; std::set_union(a->begin(), a->end(), b->begin(), b->end(), std::back_inserter(r));
  auto p = &*symSets.insert(r).first; return unionCache[k] = p;
}
static E intern(Op op, unsigned w, E a, E b, E c, uint64_t v) {
  uint64_t h = hmix(op * 131 + w, v); if (a) h = hmix(h, a->id + 1); if (b) h = hmix(h, b->id + 77); if (c) h = hmix(h, c->id + 999);
  size_t m = table.size() - 1, i = h & m;
  while (table[i]) { E e = table[i]; if (e->hash == h && e->op == op && e->width == w && e->a == a && e->b == b && e->c == c && e->val == v) return e; i = (i + 1) & m; }
  Expr* e = new Expr; e->op = op; e->width = w; e->id = ++exprCount; e->hash = h; e->a = a; e->b = b; e->c = c; e->val = v; e->stamp = 0; e->ev = 0; e->z3 = nullptr;
  if (op == SYM) { e->syms = &*symSets.insert(std::vector<uint32_t>(1, v)).first; }
  else { const std::vector<uint32_t>* s = &noSyms; if (a) s = a->syms; if (b) s = uni(s, b->syms); if (c) s = uni(s, c->syms); e->syms = s; }
  table[i] = e; used++;
  if (used * 2 > table.size()) { std::vector<E> t(table.size() * 2, nullptr); size_t mm = t.size() - 1; for (E x : table) if (x) { size_t j = x->hash & mm; while (t[j]) j = (j + 1) & mm; t[j] = x; } table.swap(t); }
  return e;
}
E mkConst(uint64_t v, unsigned w) { assert(w && w <= 64); return intern(CONST, w, 0, 0, 0, mask(v, w)); }
E mkWide(u128 v, unsigned w) { if (w <= 64) return mkConst((uint64_t)v, w); return intern(CONCAT, w, mkConst((uint64_t)(v >> 64), w - 64), mkConst((uint64_t)v, 64), 0, 0); }
E mkSym(const std::string& n, unsigned w, bool input) {
  auto k = std::make_pair(n, w); auto it = symIds.find(k); uint32_t id;
  if (it == symIds.end()) { id = symbols.size(); symIds[k] = id; symbols.push_back({n, w, input}); } else id = it->second;
  return intern(SYM, w, 0, 0, 0, id);
}
static double asD(uint64_t v) { double d; memcpy(&d, &v, 8); return d; }
static float asF(uint64_t v) { float d; uint32_t x = v; memcpy(&d, &x, 4); return d; }
static uint64_t dB(double d) { uint64_t v; memcpy(&v, &d, 8); return v; }
static uint64_t fB(float d) { uint32_t v; memcpy(&v, &d, 4); return v; }
bool fpConst(Op op, uint64_t a, uint64_t b, unsigned wa, unsigned wr, uint64_t& r) {
  switch (op) {
  case FADD: r = wa == 64 ? dB(asD(a) + asD(b)) : fB(asF(a) + asF(b)); return true;
  case FSUB: r = wa == 64 ? dB(asD(a) - asD(b)) : fB(asF(a) - asF(b)); return true;
  case FMUL: r = wa == 64 ? dB(asD(a) * asD(b)) : fB(asF(a) * asF(b)); return true;
  case FDIV: r = wa == 64 ? dB(asD(a) / asD(b)) : fB(asF(a) / asF(b)); return true;
  case FEQ: r = wa == 64 ? asD(a) == asD(b) : asF(a) == asF(b); return true;
  case FLT: r = wa == 64 ? asD(a) < asD(b) : asF(a) < asF(b); return true;
  case FLE: r = wa == 64 ? asD(a) <= asD(b) : asF(a) <= asF(b); return true;
  case FUNO: r = wa == 64 ? (std::isnan(asD(a)) || std::isnan(asD(b))) : (std::isnan(asF(a)) || std::isnan(asF(b))); return true;
  case FPTOSI: { double d = wa == 64 ? asD(a) : asF(a); if (!(d > -9.3e18 && d < 9.2e18)) r = 1ull << 63; else r = (uint64_t)(int64_t)d; r = mask(r, wr); return true; }
  case FPTOUI: { double d = wa == 64 ? asD(a) : asF(a); if (!(d > -1 && d < 1.8446744073709551e19)) r = 0; else r = (uint64_t)d; r = mask(r, wr); return true; }
  case SITOFP: { int64_t v = sx64(a, wa); r = wr == 64 ? dB((double)v) : fB((float)v); return true; }
  case UITOFP: { r = wr == 64 ? dB((double)a) : fB((float)a); return true; }
  case FPEXT: r = dB((double)asF(a)); return true;
  case FPTRUNC: r = fB((float)asD(a)); return true;
  default: return false;
  }
}
E mkFP(Op op, E a, E b, unsigned w) {
  if (isC(a) && (!b || isC(b))) { uint64_t r; if (fpConst(op, a->val, b ? b->val : 0, a->width, w, r)) return mkConst(r, w); }
  return intern(op, w, a, b, 0, 0);
}
static bool foldBin(Op op, uint64_t a, uint64_t b, unsigned w, uint64_t& r) {
  switch (op) {
  case ADD: r = a + b; break; case SUB: r = a - b; break; case MUL: r = a * b; break;
  case UDIV: if (!b) return false; r = a / b; break;
  case UREM: if (!b) return false; r = a % b; break;
  case SDIV: { int64_t x = sx64(a, w), y = sx64(b, w); if (!y) return false; r = y == -1 ? 0 - (uint64_t)x : (uint64_t)(x / y); break; }
  case SREM: { int64_t x = sx64(a, w), y = sx64(b, w); if (!y) return false; r = y == -1 ? 0 : (uint64_t)(x % y); break; }
  case AND: r = a & b; break; case OR: r = a | b; break; case XOR: r = a ^ b; break;
  case SHL: r = b >= w ? 0 : a << b; break; case LSHR: r = b >= w ? 0 : a >> b; break;
  case ASHR: { int64_t x = sx64(a, w); r = b >= w ? (x < 0 ? ~0ull : 0) : (uint64_t)(x >> b); break; }
  case EQ: r = a == b; return true; case ULT: r = a < b; return true; case SLT: r = sx64(a, w) < sx64(b, w); return true;
  default: return false;
  }
  r = mask(r, w); return true;
}
// flatten into pieces from the least significant end
static void pieces(E e, std::vector<E>& out) {
  if (e->op == CONCAT) { pieces(e->b, out); pieces(e->a, out); }
  else if (e->op == ZEXT) { pieces(e->a, out); unsigned w = e->width - e->a->width; while (w > 64) { out.push_back(mkConst(0, 64)); w -= 64; } out.push_back(mkConst(0, w)); }
  else out.push_back(e);
}
static bool structural(E e) { return e->op == CONCAT || e->op == ZEXT; }
static E disjoint(Op op, E a, E b) { // OR / ADD / XOR of operands that never overlap, or AND with constants
  if (!(structural(a) || isC(a)) || !(structural(b) || isC(b))) return nullptr;
  std::vector<E> pa, pb; pieces(a, pa); pieces(b, pb);
  size_t i = 0, j = 0; unsigned oi = 0, oj = 0; std::vector<E> res;
  while (i < pa.size() && j < pb.size()) {
    unsigned w = std::min(pa[i]->width - oi, pb[j]->width - oj);
    E x = mkExtract(pa[i], oi, w), y = mkExtract(pb[j], oj, w), r = nullptr;
    if (op == AND) { if (isC(x, 0) || isC(y, 0)) r = mkConst(0, w); else if (isC(x, mask(~0ull, w))) r = y; else if (isC(y, mask(~0ull, w))) r = x; }
    else { if (isC(x, 0)) r = y; else if (isC(y, 0)) r = x; }
    if (!r && op != ADD && isC(x) && isC(y)) { uint64_t v; foldBin(op, x->val, y->val, w, v); r = mkConst(v, w); }
    if (!r) { if (op == ADD) return nullptr; if (a->width == w) return nullptr; r = intern(op, w, x->id < y->id ? x : y, x->id < y->id ? y : x, 0, 0); if (isC(x) && !isC(y)) r = mkBin(op, y, x); else r = mkBin(op, x, y); }
    res.push_back(r);
    oi += w; oj += w; if (oi == pa[i]->width) { i++; oi = 0; } if (oj == pb[j]->width) { j++; oj = 0; }
  }
  E r = res[0]; for (size_t k = 1; k < res.size(); k++) r = mkConcat(res[k], r);
  return r;
}
E mkAnd1(E a, E b) { return mkBin(AND, a, b); }
E mkBin(Op op, E a, E b) {
  unsigned w = a->width; assert(w == b->width || (fprintf(stderr, "width mismatch op %d %u %u\n", op, w, b->width), abort(), 0));
  if (isC(a) && isC(b)) { uint64_t r; if (foldBin(op, a->val, b->val, w, r)) return mkConst(r, op == EQ || op == ULT || op == SLT ? 1 : w); }
  bool comm = op == ADD || op == MUL || op == AND || op == OR || op == XOR || op == EQ;
  if (comm && isC(a)) std::swap(a, b);
  else if (comm && !isC(b) && a->id > b->id) std::swap(a, b);
  uint64_t ones = mask(~0ull, w);
  switch (op) {
  case ADD:
    if (isC(b, 0)) return a;
    if (isC(b) && a->op == ADD && isC(a->b)) return mkBin(ADD, a->a, mkConst(a->b->val + b->val, w));
    if (isC(b) && a->op == ITE && isC(a->b) && isC(a->c)) return mkITE(a->a, mkBin(op, a->b, b), mkBin(op, a->c, b));
    if (E r = disjoint(ADD, a, b)) return r;
    break;
  case SUB:
    if (a == b) return w <= 64 ? mkConst(0, w) : mkWide(0, w);
    if (isC(b)) return mkBin(ADD, a, mkConst(0 - b->val, w));
    if (a->op == ADD && a->a == b) return a->b;
    if (a->op == ADD && a->b == b) return a->a;
    if (a->op == ADD && isC(a->b) && b->op == ADD && isC(b->b) && a->a == b->a) return mkConst(a->b->val - b->b->val, w);
    if (b->op == ADD && isC(b->b) && a == b->a) return mkConst(0 - b->b->val, w);
    break;
  case MUL:
    if (isC(b, 0)) return b;
    if (isC(b, 1)) return a;
    if (isC(b) && b->val && !(b->val & (b->val - 1))) return mkBin(SHL, a, mkConst(__builtin_ctzll(b->val), w));
    break;
  case UDIV: if (isC(b, 1)) return a;
    if (isC(b) && b->val && !(b->val & (b->val - 1))) return mkBin(LSHR, a, mkConst(__builtin_ctzll(b->val), w));
    break;
  case UREM:
    if (isC(b) && b->val && !(b->val & (b->val - 1))) return mkBin(AND, a, mkConst(b->val - 1, w));
    break;
  case SDIV: if (isC(b, 1)) return a; break;
  case AND:
    if (a == b) return a;
    if (isC(b, 0)) return b;
    if (isC(b) && w <= 64 && b->val == ones) return a;
    if (w == 1) { if (isNot(a) && a->a == b) return mkConst(0, 1); if (isNot(b) && b->a == a) return mkConst(0, 1); break; }
    if (isC(b) && a->op == AND && isC(a->b)) return mkBin(AND, a->a, mkConst(a->b->val & b->val, w));
    if (isC(b) && b->val && !((b->val + 1) & b->val)) { unsigned n = 64 - __builtin_clzll(b->val); return mkZExt(mkExtract(a, 0, n), w); }
    if (isC(b) && a->op == ITE && isC(a->b) && isC(a->c)) return mkITE(a->a, mkBin(op, a->b, b), mkBin(op, a->c, b));
    if (isC(b) && b->val) { unsigned lo = __builtin_ctzll(b->val); uint64_t t = b->val >> lo; if (lo && !((t + 1) & t)) { unsigned n = 64 - __builtin_clzll(t); // contiguous mask
        E mid = mkExtract(a, lo, n); E r = mkConcat(mid, mkConst(0, lo)); return mkZExt(r, w); } }
    if (E r = disjoint(AND, a, b)) return r;
    break;
  case OR:
    if (a == b || isC(b, 0)) return a;
    if (isC(b) && w <= 64 && b->val == ones) return b;
    if (w == 1) { if (isNot(a) && a->a == b) return mkConst(1, 1); if (isNot(b) && b->a == a) return mkConst(1, 1); break; }
    if (E r = disjoint(OR, a, b)) return r;
    break;
  case XOR:
    if (a == b) return w <= 64 ? mkConst(0, w) : mkWide(0, w);
    if (isC(b, 0)) return a;
    if (isC(b) && a->op == XOR && isC(a->b)) return mkBin(XOR, a->a, mkConst(a->b->val ^ b->val, w));
    if (w == 1 && isC(b, 1) && a->op == ITE) return mkITE(a->a, mkNot(a->b), mkNot(a->c));
    if (w == 1 && isNot(a) && !isC(b)) return mkNot(mkBin(XOR, a->a, b));
    if (w == 1 && isNot(b)) return mkNot(mkBin(XOR, a, b->a));
    if (E r = w > 1 ? disjoint(XOR, a, b) : nullptr) return r;
    break;
  case SHL: if (isC(b)) { if (b->val == 0) return a; if (b->val >= w) return w <= 64 ? mkConst(0, w) : mkWide(0, w); unsigned k = b->val; E z = k <= 64 ? mkConst(0, k) : mkWide(0, k); return mkConcat(mkExtract(a, 0, w - k), z); } break;
  case LSHR: if (isC(b)) { if (b->val == 0) return a; if (b->val >= w) return w <= 64 ? mkConst(0, w) : mkWide(0, w); unsigned k = b->val; return mkZExt(mkExtract(a, k, w - k), w); } break;
  case ASHR: if (isC(b)) { if (b->val == 0) return a; unsigned k = std::min<uint64_t>(b->val, w - 1); return mkSExt(mkExtract(a, k, w - k), w); } break;
  case EQ:
    if (a == b) return mkConst(1, 1);
    if (w == 1 && isC(b)) return b->val ? a : mkNot(a);
    if (isC(b)) {
      uint64_t v = b->val;
      if (a->op == ZEXT) { unsigned n = a->a->width; if (n < 64 && (v >> n)) return mkConst(0, 1); if (n <= 64) return mkBin(EQ, a->a, mkConst(v, n)); }
      if (a->op == SEXT) { unsigned n = a->a->width; if (mask((uint64_t)sx64(mask(v, n), n), w) != v) return mkConst(0, 1); return mkBin(EQ, a->a, mkConst(v, n)); }
      if (a->op == CONCAT) { unsigned n = a->b->width; return mkBin(AND, mkBin(EQ, a->a, mkConst(v >> n, w - n)), mkBin(EQ, a->b, mkConst(v, n))); }
      if (a->op == ADD && isC(a->b)) return mkBin(EQ, a->a, mkConst(v - a->b->val, w));
      if (a->op == XOR && isC(a->b)) return mkBin(EQ, a->a, mkConst(v ^ a->b->val, w));
      if (a->op == ITE && (isC(a->b) || isC(a->c))) { E x = mkBin(EQ, a->b, b), y = mkBin(EQ, a->c, b); return mkITE(a->a, x, y); }
    }
    if (a->op == ZEXT && b->op == ZEXT && a->a->width == b->a->width) return mkBin(EQ, a->a, b->a);
    if (a->op == SEXT && b->op == SEXT && a->a->width == b->a->width) return mkBin(EQ, a->a, b->a);
    if (structural(a) && structural(b)) {
      std::vector<E> pa, pb; pieces(a, pa); pieces(b, pb); size_t i = 0, j = 0; unsigned oi = 0, oj = 0; E r = mkConst(1, 1);
      while (i < pa.size() && j < pb.size()) { unsigned n = std::min(pa[i]->width - oi, pb[j]->width - oj);
        r = mkBin(AND, r, mkBin(EQ, mkExtract(pa[i], oi, n), mkExtract(pb[j], oj, n))); if (isC(r, 0)) return r;
        oi += n; oj += n; if (oi == pa[i]->width) i++, oi = 0; if (oj == pb[j]->width) j++, oj = 0; }
      return r; }
    break;
  case ULT:
    if (a == b || isC(b, 0)) return mkConst(0, 1);
    if (isC(b, 1)) return mkBin(EQ, a, mkConst(0, w));
    if (isC(a, 0)) return mkNot(mkBin(EQ, b, a));
    if (isC(b) && a->op == ZEXT) { unsigned n = a->a->width; if (n < 64 && (b->val >> n)) return mkConst(1, 1); return mkBin(ULT, a->a, mkConst(b->val, n)); }
    if (isC(a) && b->op == ZEXT) { unsigned n = b->a->width; if (n < 64 && (a->val >> n)) return mkConst(0, 1); return mkBin(ULT, mkConst(a->val, n), b->a); }
    if (a->op == ZEXT && b->op == ZEXT && a->a->width == b->a->width) return mkBin(ULT, a->a, b->a);
    if (a->op == ITE && isC(b) && isC(a->b) && isC(a->c)) return mkITE(a->a, mkBin(op, a->b, b), mkBin(op, a->c, b));
    break;
  case SLT:
    if (a == b) return mkConst(0, 1);
    if (a->op == ZEXT && b->op == ZEXT && a->a->width == b->a->width) return mkBin(ULT, a->a, b->a);
    if (a->op == SEXT && b->op == SEXT && a->a->width == b->a->width) return mkBin(SLT, a->a, b->a);
    if (isC(b) && a->op == ZEXT) { if (sx64(b->val, w) < 0) return mkConst(0, 1); return mkBin(ULT, a, b); }
    if (isC(a) && b->op == ZEXT) { if (sx64(a->val, w) < 0) return mkConst(1, 1); return mkBin(ULT, a, b); }
    if (isC(b) && a->op == SEXT) { unsigned n = a->a->width; int64_t v = sx64(b->val, w), hi = (int64_t)((1ull << (n - 1)) - 1), lo = -hi - 1; if (v > hi) return mkConst(1, 1); if (v <= lo) return mkConst(0, 1); return mkBin(SLT, a->a, mkConst(v, n)); }
    if (isC(a) && b->op == SEXT) { unsigned n = b->a->width; int64_t v = sx64(a->val, w), hi = (int64_t)((1ull << (n - 1)) - 1), lo = -hi - 1; if (v >= hi) return mkConst(0, 1); if (v < lo) return mkConst(1, 1); return mkBin(SLT, mkConst(v, n), b->a); }
    if (a->op == ITE && isC(b) && isC(a->b) && isC(a->c)) return mkITE(a->a, mkBin(op, a->b, b), mkBin(op, a->c, b));
    break;
  default: break;
  }
  return intern(op, op == EQ || op == ULT || op == SLT ? 1 : w, a, b, 0, 0);
}
E mkITE(E c, E a, E b) {
  assert(c->width == 1 && a->width == b->width);
  if (isC(c)) return c->val ? a : b;
  if (a == b) return a;
  if (isNot(c)) return mkITE(c->a, b, a);
  if (a->width == 1) {
    if (isC(a, 1)) return isC(b, 0) ? c : mkBin(OR, c, b);
    if (isC(a, 0)) return isC(b, 1) ? mkNot(c) : mkBin(AND, mkNot(c), b);
    if (isC(b, 0)) return mkBin(AND, c, a);
    if (isC(b, 1)) return mkBin(OR, mkNot(c), a);
  }
  if (a->op == ITE && a->a == c) a = a->b;
  if (b->op == ITE && b->a == c) b = b->c;
  if (a == b) return a;
  if (b->op == ITE && b->b == a) return mkITE(mkBin(OR, c, b->a), a, b->c);
  if (a->op == ZEXT && b->op == ZEXT && a->a->width == b->a->width) return mkZExt(mkITE(c, a->a, b->a), a->width);
  return intern(ITE, a->width, c, a, b, 0);
}
E mkExtract(E a, unsigned off, unsigned w) {
  assert(off + w <= a->width);
  if (off == 0 && w == a->width) return a;
  switch (a->op) {
  case CONST: return mkConst(a->val >> off, w);
  case EXTRACT: return mkExtract(a->a, a->val + off, w);
  case CONCAT: { unsigned n = a->b->width; if (off + w <= n) return mkExtract(a->b, off, w); if (off >= n) return mkExtract(a->a, off - n, w);
      return mkConcat(mkExtract(a->a, 0, off + w - n), mkExtract(a->b, off, n - off)); }
  case ZEXT: { unsigned n = a->a->width; if (off + w <= n) return mkExtract(a->a, off, w); if (off >= n) return w <= 64 ? mkConst(0, w) : mkWide(0, w); return mkZExt(mkExtract(a->a, off, n - off), w); }
  case SEXT: { unsigned n = a->a->width; if (off + w <= n) return mkExtract(a->a, off, w); if (off == 0) return mkSExt(a->a, w); break; }
  case ITE: if ((isC(a->b) || structural(a->b)) && (isC(a->c) || structural(a->c))) return mkITE(a->a, mkExtract(a->b, off, w), mkExtract(a->c, off, w)); break;
  case AND: case OR: case XOR: if (isC(a->b)) return mkBin(a->op, mkExtract(a->a, off, w), mkExtract(a->b, off, w)); break;
  case ADD: case MUL: case SUB: if (off == 0 && (structural(a->a) || isC(a->b) || a->a->op == SEXT)) return mkBin(a->op, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w)); break;
  default: break;
  }
  return intern(EXTRACT, w, a, 0, 0, off);
}
E mkConcat(E hi, E lo) {
  if (isC(hi) && isC(lo) && hi->width + lo->width <= 64) return mkConst(hi->val << lo->width | lo->val, hi->width + lo->width);
  if (isC(hi, 0)) return mkZExt(lo, hi->width + lo->width);
  // adjacent extracts of one value
  { E h = hi, l = lo; E rest = nullptr;
    if (l->op == CONCAT) { rest = l->b; l = l->a; }
    if (h->op == EXTRACT && l->op == EXTRACT && h->a == l->a && h->val == l->val + l->width) { E m = mkExtract(h->a, l->val, h->width + l->width); return rest ? mkConcat(m, rest) : m; }
    if (h->op == EXTRACT && h->a == l && h->val == l->width && h->a->width == h->width + l->width) { return rest ? mkConcat(h->a, rest) : h->a; } 
    if (isC(h) && isC(l) && rest && h->width + l->width <= 64) return mkConcat(mkConst(h->val << l->width | l->val, h->width + l->width), rest);
  }
  if (lo->op == ZEXT && isC(hi)) { unsigned z = lo->width - lo->a->width; if (z + hi->width <= 64) return mkConcat(mkConst(hi->val << z, hi->width + z), lo->a); }
  if (hi->op == CONCAT) return mkConcat(hi->a, mkConcat(hi->b, lo));   // right-nested
  if (hi->op == ZEXT) return mkZExt(mkConcat(hi->a, lo), hi->width + lo->width);
  return intern(CONCAT, hi->width + lo->width, hi, lo, 0, 0);
}
E mkZExt(E a, unsigned w) {
  assert(w >= a->width);
  if (w == a->width) return a;
  if (isC(a)) return mkWide(a->val, w);
  if (a->op == ZEXT) return mkZExt(a->a, w);
  return intern(ZEXT, w, a, 0, 0, 0);
}
E mkSExt(E a, unsigned w) {
  if (w == a->width) return a;
  if (isC(a)) { if (w <= 64) return mkConst((uint64_t)sx64(a->val, a->width), w); __int128 v = sx64(a->val, a->width); return mkWide((u128)v, w); }
  if (a->op == SEXT) return mkSExt(a->a, w);
  if (a->op == ZEXT) return mkZExt(a->a, w);
  if (a->width == 1) return mkITE(a, w <= 64 ? mkConst(~0ull, w) : mkWide(~(u128)0, w), w <= 64 ? mkConst(0, w) : mkWide(0, w));
  if (a->op == ITE && isC(a->b) && isC(a->c)) return mkITE(a->a, mkSExt(a->b, w), mkSExt(a->c, w));
  return intern(SEXT, w, a, 0, 0, 0);
}
static uint32_t stampNo = 0;
void newStamp() { stampNo++; }
static u128 wm(u128 v, unsigned w) { return w >= 128 ? v : v & (((u128)1 << w) - 1); }
u128 evalCont(E e, const Model& m) {
  if (e->op == CONST) return e->val;
  if (e->stamp == stampNo) return e->ev;
  u128 r = 0; unsigned w = e->width;
  switch (e->op) {
  case SYM: r = m.get(e->val); break;
  case ITE: r = evalCont(e->a, m) ? evalCont(e->b, m) : evalCont(e->c, m); break;
  case CONCAT: r = evalCont(e->a, m) << e->b->width | evalCont(e->b, m); break;
  case EXTRACT: r = wm(evalCont(e->a, m) >> e->val, w); break;
  case ZEXT: r = evalCont(e->a, m); break;
  case SEXT: { u128 v = evalCont(e->a, m); unsigned n = e->a->width; if (v >> (n - 1) & 1) v |= ~(((u128)1 << n) - 1); r = wm(v, w); break; }
  default: {
    u128 a = evalCont(e->a, m), b = e->b ? evalCont(e->b, m) : 0; unsigned wa = e->a->width;
    if (e->op >= FADD) { uint64_t v = 0; fpConst(e->op, a, b, wa, w, v); r = v; break; }
    if (wa <= 64) { uint64_t v; if (foldBin(e->op, (uint64_t)a, (uint64_t)b, wa, v)) r = v; else { // SMT-LIB division by zero
        r = e->op == UDIV ? mask(~0ull, wa) : e->op == SDIV ? (sx64(a, wa) < 0 ? 1 : mask(~0ull, wa)) : a; } }
    else {
      auto s = [&](u128 v) { return (__int128)(wa >= 128 ? v : (v >> (wa - 1) & 1) ? v | ~(((u128)1 << wa) - 1) : v); };
      switch (e->op) {
      case ADD: r = a + b; break; case SUB: r = a - b; break; case MUL: r = a * b; break;
      case UDIV: r = b ? a / b : ~(u128)0; break; case UREM: r = b ? a % b : a; break;
      case SDIV: r = b ? (u128)(s(a) / s(b)) : ~(u128)0; break; case SREM: r = b ? (u128)(s(a) % s(b)) : a; break;
      case AND: r = a & b; break; case OR: r = a | b; break; case XOR: r = a ^ b; break;
      case SHL: r = b >= wa ? 0 : a << (int)b; break; case LSHR: r = b >= wa ? 0 : a >> (int)b; break;
      case ASHR: r = (u128)(s(a) >> (b >= wa ? wa - 1 : (int)b)); break;
      case EQ: r = a == b; break; case ULT: r = a < b; break; case SLT: r = s(a) < s(b); break;
      default: break; }
      r = wm(r, w); }
  } }
  e->stamp = stampNo; e->ev = r; return r;
}
u128 eval(E e, const Model& m) { newStamp(); return evalCont(e, m); }
static const char* names[] = {"const","sym","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","=","ult","slt","ite","concat","extract","zext","sext","fadd","fsub","fmul","fdiv","feq","flt","fle","funo","fptosi","fptoui","sitofp","uitofp","fpext","fptrunc"};
std::string show(E e, int d) {
  if (e->op == CONST) return std::to_string(e->val) + ":" + std::to_string(e->width);
  if (e->op == SYM) return symbols[e->val].name;
  if (d <= 0) return "...";
  std::string s = std::string("(") + names[e->op];
  if (e->op == EXTRACT) s += "[" + std::to_string(e->val) + "+" + std::to_string(e->width) + "]";
  if (e->op == ZEXT || e->op == SEXT) s += std::to_string(e->width);
  for (E x : {e->a, e->b, e->c}) if (x) s += " " + show(x, d - 1);
  return s + ")";
}
}
