// Harness interface.  In the symbolic build these are engine builtins; in the native build
// (native.cc) they read a replay file.
#ifndef SYM_H
#define SYM_H
#include <stddef.h>
#include <string>
#include <vector>
extern "C" {
  void sym_make(void* p, unsigned long n, const char* name);       // arbitrary bytes
  void sym_assume(int c);
  void sym_assert(int c, const char* msg);
  void sym_fail(const char* msg) __attribute__((noreturn));
  void sym_expect(const char* label);                              // this label must be reached on some path
  void sym_reach(const char* label);
  void sym_observe(unsigned long v, const char* label);            // compared with the native run
  unsigned long sym_conc(unsigned long v);                         // split into one path per value
  int sym_is_symbolic(unsigned long v);
  unsigned long sym_fresh(unsigned long bits);
  void sym_done() __attribute__((noreturn));
  unsigned long sym_live();                                        // live heap allocations
  void sym_realloc_stays();                                       // memory made smaller stays where it is
  void sym_alloc_limit(unsigned long n);                           // larger requests fail
  void sym_print(const char* label, unsigned long v);
  void sym_puts(const char* p, unsigned long n);
}
template <class T> inline T sym(const char* name) { T x; sym_make(&x, sizeof(T), name); return x; }
template <> inline bool sym<bool>(const char* name) { unsigned char c; sym_make(&c, 1, name); sym_assume(c < 2); return c != 0; }
// symbolic value in [lo,hi]
inline unsigned sym_range(const char* name, unsigned lo, unsigned hi) { unsigned x; sym_make(&x, 4, name); sym_assume(x >= lo && x <= hi); return x; }
// one path per value in [lo,hi]
inline unsigned sym_pick(const char* name, unsigned lo, unsigned hi) { return (unsigned)sym_conc(sym_range(name, lo, hi)); }
inline std::string sym_string(const char* name, unsigned n) { std::string s(n, ' '); for (unsigned i = 0; i < n; i++) { char c; sym_make(&c, 1, name); s[i] = c; } return s; }
inline void sym_observe_str(const std::string& s, const char* label) { unsigned long h = s.size(); for (size_t i = 0; i < s.size(); i++) sym_observe((unsigned char)s[i], label); sym_observe(h, label); }
#ifdef NATIVE
typedef void (*SymEntry)();
struct SymReg { SymReg(const char* n, SymEntry e); };
#define ENTRY(name) extern "C" void name(); static SymReg symreg_##name(#name, name); extern "C" void name()
#else
#define ENTRY(name) extern "C" void name()
#endif
#define STR2(x) #x
#define STR1(x) STR2(x)
#define CHECK(c, msg) sym_assert((c) ? 1 : 0, msg)
#endif
