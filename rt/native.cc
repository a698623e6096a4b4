// Native replay of harnesses: symbolic inputs come from a replay file.
#include "sym.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <fstream>
#include <iostream>
#include <sstream>
#include <new>
#include <unistd.h>
#include <exception>
#include <stdint.h>
static std::map<std::string, SymEntry>& table() { static std::map<std::string, SymEntry> t; return t; }
SymReg::SymReg(const char* n, SymEntry e) { table()[n] = e; }
static std::map<std::string, uint64_t> vals; static std::map<std::string, int> cnt; static FILE* obsf; static long live = 0; static unsigned long limit = 0; static bool started = false;
extern "C" void sym_make(void* p, unsigned long n, const char* name) {
  bool st = started; started = false; // bookkeeping allocations do not count
  { std::string nm = name; int c = cnt[nm]++; if (c) nm += "~" + std::to_string(c);
  if (n == 1 || n == 2 || n == 4 || n == 8) { uint64_t v = vals.count(nm) ? vals[nm] : 0; memcpy(p, &v, n); }
  else for (unsigned long i = 0; i < n; i++) { std::string k = nm + "[" + std::to_string(i) + "]"; ((unsigned char*)p)[i] = vals.count(k) ? vals[k] : 0; } }
  started = st;
}
static void fin(const char* what, const char* msg, int rc) { printf("%s %s\n", what, msg); fflush(stdout); if (obsf) fflush(obsf); _exit(rc); }
extern "C" void sym_assume(int c) { if (!c) fin("ASSUME-FAIL", "", 78); }
extern "C" void sym_assert(int c, const char* msg) { if (!c) fin("ASSERT-FAIL", msg, 77); }
extern "C" void sym_fail(const char* msg) { fin("ASSERT-FAIL", msg, 77); abort(); }
extern "C" void sym_expect(const char*) {}
extern "C" void sym_reach(const char*) {}
extern "C" void sym_observe(unsigned long v, const char* label) { if (obsf) fprintf(obsf, "%s=0x%lx\n", label, v); }
extern "C" unsigned long sym_conc(unsigned long v) { return v; }
extern "C" int sym_is_symbolic(unsigned long) { return 0; }
extern "C" unsigned long sym_fresh(unsigned long) { return 0; }
extern "C" void sym_done() { fin("DONE", "", 0); abort(); }
extern "C" unsigned long sym_live() { return live; }
extern "C" void sym_realloc_stays() {}
extern "C" void sym_alloc_limit(unsigned long n) { limit = n; }
extern "C" void sym_print(const char* l, unsigned long v) { printf("PRINT %s %lx\n", l, v); }
extern "C" void sym_puts(const char* p, unsigned long n) { printf("OUT %.*s\n", (int)n, p); }
#ifdef SYM_RAND
extern "C" int rand() { int r; sym_make(&r, 4, "rand"); if (r < 0) fin("ASSUME-FAIL", "rand", 78); return r; }
#endif
#ifndef SYM_NO_NEW
// count allocations; malloc underneath keeps the sanitizer's checks.  A header word before each
// block would hide small overruns, so a count is all we keep.
extern "C" void* __real_malloc(size_t); 
static void* take(size_t n) { if (started && limit && n > limit) throw std::bad_alloc(); void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); if (started) live++; return p; }
void* operator new(size_t n) { return take(n); }
void* operator new[](size_t n) { return take(n); }
void operator delete(void* p) noexcept { if (p && started) live--; free(p); }
void operator delete[](void* p) noexcept { if (p && started) live--; free(p); }
void operator delete(void* p, size_t) noexcept { if (p && started) live--; free(p); }
void operator delete[](void* p, size_t) noexcept { if (p && started) live--; free(p); }
#ifdef SYM_WRAP_MALLOC
#endif
#endif
#ifdef SYM_COUNT_MALLOC
extern "C" { void* __real_malloc(size_t); void* __real_realloc(void*, size_t); void __real_free(void*); void* __real_calloc(size_t, size_t);
void* __wrap_malloc(size_t n) { if (started && limit && n > limit) return 0; void* p = __real_malloc(n); if (started && p) live++; return p; }
void __wrap_free(void* p) { if (started && p) live--; __real_free(p); }
void* __wrap_realloc(void* p, size_t n) { if (started && limit && n > limit) return 0; void* q = __real_realloc(p, n); if (started) { if (!p && q) live++; if (p && !n) live--; } return q; } }
#endif
int main(int argc, char** argv) {
  if (argc < 3) { for (auto& p : table()) printf("%s\n", p.first.c_str()); return 2; }
  { std::ifstream f(argv[2]); if (!f) { printf("NO-REPLAY-FILE\n"); return 2; } std::string l; while (std::getline(f, l)) { if (l.empty() || l[0] == '#') continue; std::istringstream i(l); std::string n, w, v; i >> n >> w >> v; vals[n] = strtoull(v.c_str(), 0, 16); } }
  if (!table().count(argv[1])) { printf("NO-ENTRY %s\n", argv[1]); return 2; }
  SymEntry e = table()[argv[1]]; if (argc > 3) obsf = fopen(argv[3], "w");
  { static char ob[1 << 16]; if (obsf) setvbuf(obsf, ob, _IOFBF, sizeof ob); static char sb[1 << 16]; setvbuf(stdout, sb, _IOFBF, sizeof sb); }
  started = true;
  try { e(); } catch (std::exception& x) { started = false; printf("UNCAUGHT %s\n", x.what()); fflush(stdout); if (obsf) fflush(obsf); _exit(79); } catch (...) { started = false; printf("UNCAUGHT unknown\n"); fflush(stdout); _exit(79); }
  started = false; if (obsf) fflush(obsf); printf("DONE\n"); fflush(stdout); _exit(0);
}
