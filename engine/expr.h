// Hash-consed bit-vector expressions with structural simplification.
#pragma once
#include <cstdint>
#include <vector>
#include <string>
#include <cassert>
namespace sx {
typedef unsigned __int128 u128;
enum Op : uint8_t {
  CONST, SYM, ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, SHL, LSHR, ASHR,
  EQ, ULT, SLT, ITE, CONCAT, EXTRACT, ZEXT, SEXT,
  // IEEE ops on bit patterns (width 32 or 64)
  FADD, FSUB, FMUL, FDIV, FEQ, FLT, FLE, FUNO, FPTOSI, FPTOUI, SITOFP, UITOFP, FPEXT, FPTRUNC
};
struct Expr {
  Op op; uint32_t width; uint32_t id; uint64_t hash;
  const Expr *a, *b, *c;
  uint64_t val;                       // CONST value, SYM index, EXTRACT offset
  const std::vector<uint32_t>* syms;  // sorted symbols occurring here
  mutable uint32_t stamp; mutable u128 ev;
  mutable void* z3;
};
typedef const Expr* E;
inline uint64_t mask(uint64_t v, unsigned w) { return w >= 64 ? v : v & ((1ull << w) - 1); }
inline int64_t sx64(uint64_t v, unsigned w) { return w >= 64 ? (int64_t)v : (int64_t)(v << (64 - w)) >> (64 - w); }
struct SymInfo { std::string name; unsigned width; bool input; };
extern std::vector<SymInfo> symbols;
extern uint64_t exprCount;

E mkConst(uint64_t v, unsigned w);
E mkWide(u128 v, unsigned w);
E mkSym(const std::string& name, unsigned w, bool input);
E mkBin(Op op, E a, E b);
E mkITE(E c, E a, E b);
E mkExtract(E a, unsigned off, unsigned w);
E mkConcat(E hi, E lo);
E mkZExt(E a, unsigned w);
E mkSExt(E a, unsigned w);
E mkFP(Op op, E a, E b, unsigned w);
inline E mkNot(E a) { return mkBin(XOR, a, mkConst(1, 1)); }
inline E mkEq(E a, E b) { return mkBin(EQ, a, b); }
E mkAnd1(E a, E b);
inline bool isC(E e) { return e->op == CONST; }
inline bool isC(E e, uint64_t v) { return e->op == CONST && e->val == v; }
inline bool isNot(E e) { return e->op == XOR && e->width == 1 && isC(e->b, 1); }
struct Model { std::vector<uint64_t> v; uint64_t get(uint32_t s) const { return s < v.size() ? v[s] : 0; }
  void set(uint32_t s, uint64_t x) { if (s >= v.size()) v.resize(symbols.size(), 0); v[s] = x; } };
u128 eval(E e, const Model& m);      // fresh stamp
void newStamp();
u128 evalCont(E e, const Model& m);  // continue with the current stamp
bool fpConst(Op op, uint64_t a, uint64_t b, unsigned wa, unsigned wr, uint64_t& r);
std::string show(E e, int depth = 6);
}
