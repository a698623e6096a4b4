// Runtime model for symbolic execution: the parts of libstdc++/libc that are not in headers.
// Everything here is part of the trusted base; it is validated against the real libraries by
// replaying explored paths natively (see DESIGN.md).
#include "sym.h"
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cwchar>
#include <locale>
#include <ios>
#include <istream>
#include <ostream>
#include <sstream>
#include <fstream>
#include <iostream>
#include <stdexcept>
#include <functional>
#include <new>
#include <typeinfo>
#include <map>
#include <list>
#include <stdint.h>
extern "C" void sym_unsupported(const char*) __attribute__((noreturn));
extern "C" int __sx_fmt_double(char*, size_t, const char*, int, double);
extern "C" double __sx_strtod(const char*, int*);
#define U(x) sym_unsupported(x)

// ------------------------------------------------------------------ exceptions
namespace std {
  exception::~exception() noexcept {} const char* exception::what() const noexcept { return "std::exception"; }
  bad_exception::~bad_exception() noexcept {} const char* bad_exception::what() const noexcept { return "std::bad_exception"; }
  bad_alloc::~bad_alloc() noexcept {} const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
  bad_array_new_length::~bad_array_new_length() noexcept {} const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
  bad_cast::~bad_cast() noexcept {} const char* bad_cast::what() const noexcept { return "std::bad_cast"; }
  bad_typeid::~bad_typeid() noexcept {} const char* bad_typeid::what() const noexcept { return "std::bad_typeid"; }
  type_info::~type_info() {}
  __cow_string::__cow_string(const std::string& s) { char* p = (char*)malloc(s.size() + 1); memcpy(p, s.c_str(), s.size() + 1); _M_p = p; }
  __cow_string::__cow_string(const char* s, size_t n) { char* p = (char*)malloc(n + 1); memcpy(p, s, n); p[n] = 0; _M_p = p; }
  __cow_string::__cow_string(const __cow_string& o) noexcept { size_t n = strlen(o._M_p); char* p = (char*)malloc(n + 1); memcpy(p, o._M_p, n + 1); _M_p = p; }
  __cow_string::~__cow_string() { free((void*)_M_p); }
  logic_error::logic_error(const string& s) : _M_msg(s) {} logic_error::logic_error(const char* s) : _M_msg(s, strlen(s)) {} logic_error::logic_error(const logic_error& o) noexcept : exception(o), _M_msg(o._M_msg) {}
  logic_error::~logic_error() noexcept {} const char* logic_error::what() const noexcept { return _M_msg._M_p; }
  runtime_error::runtime_error(const string& s) : _M_msg(s) {} runtime_error::runtime_error(const char* s) : _M_msg(s, strlen(s)) {} runtime_error::runtime_error(const runtime_error& o) noexcept : exception(o), _M_msg(o._M_msg) {}
  runtime_error::~runtime_error() noexcept {} const char* runtime_error::what() const noexcept { return _M_msg._M_p; }
#define DER(N, B) N::N(const string& s) : B(s) {} N::N(const char* s) : B(s) {} N::~N() noexcept {}
  DER(domain_error, logic_error) DER(invalid_argument, logic_error) DER(length_error, logic_error) DER(out_of_range, logic_error)
  DER(range_error, runtime_error) DER(overflow_error, runtime_error) DER(underflow_error, runtime_error)
  bad_function_call::~bad_function_call() noexcept {} const char* bad_function_call::what() const noexcept { return "bad_function_call"; }
  void __throw_bad_exception() { throw bad_exception(); } void __throw_bad_alloc() { throw bad_alloc(); } void __throw_bad_array_new_length() { throw bad_array_new_length(); }
  void __throw_bad_cast() { throw bad_cast(); } void __throw_bad_typeid() { throw bad_typeid(); } void __throw_bad_function_call() { throw bad_function_call(); }
  void __throw_logic_error(const char* s) { throw logic_error(s); } void __throw_domain_error(const char* s) { throw domain_error(s); } void __throw_invalid_argument(const char* s) { throw invalid_argument(s); }
  void __throw_length_error(const char* s) { throw length_error(s); } void __throw_out_of_range(const char* s) { throw out_of_range(s); } void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); }
  void __throw_runtime_error(const char* s) { throw runtime_error(s); } void __throw_range_error(const char* s) { throw range_error(s); } void __throw_overflow_error(const char* s) { throw overflow_error(s); } void __throw_underflow_error(const char* s) { throw underflow_error(s); }
  void __throw_ios_failure(const char* s) { throw runtime_error(s); } void __throw_ios_failure(const char* s, int) { throw runtime_error(s); }
  size_t _Hash_bytes(const void* p, size_t n, size_t seed) { const unsigned char* c = (const unsigned char*)p; size_t h = seed; for (size_t i = 0; i < n; i++) h = h * 131 + c[i]; return h; }
  // ---------------------------------------------------------------- trees and lists (unbalanced, same in-order semantics)
  _Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() { if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; } else { _Rb_tree_node_base* y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; } return x; }
  const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
  _Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() { if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right; else if (x->_M_left) { _Rb_tree_node_base* y = x->_M_left; while (y->_M_right) y = y->_M_right; x = y; } else { _Rb_tree_node_base* y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; } return x; }
  const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
  void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw() {
    x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_black;
    if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
    else { p->_M_right = x; if (p == h._M_right) h._M_right = x; } }
  static void transplant(_Rb_tree_node_base* u, _Rb_tree_node_base* v, _Rb_tree_node_base& h) { if (u->_M_parent == &h) h._M_parent = v; else if (u == u->_M_parent->_M_left) u->_M_parent->_M_left = v; else u->_M_parent->_M_right = v; if (v) v->_M_parent = u->_M_parent; }
  _Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw() {
    if (h._M_left == z) h._M_left = _Rb_tree_increment(z); if (h._M_right == z) h._M_right = h._M_parent == z && !z->_M_left ? &h : _Rb_tree_decrement(z);
    if (!z->_M_left) transplant(z, z->_M_right, h); else if (!z->_M_right) transplant(z, z->_M_left, h);
    else { _Rb_tree_node_base* y = z->_M_right; while (y->_M_left) y = y->_M_left; if (y->_M_parent != z) { transplant(y, y->_M_right, h); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; } transplant(z, y, h); y->_M_left = z->_M_left; y->_M_left->_M_parent = y; }
    if (!h._M_parent) { h._M_left = &h; h._M_right = &h; } return z; }
  namespace __detail {
    void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
    void _List_node_base::_M_unhook() noexcept { _List_node_base *n = _M_next, *p = _M_prev; p->_M_next = n; n->_M_prev = p; }
    void _List_node_base::_M_transfer(_List_node_base* const f, _List_node_base* const l) noexcept { if (this != l) { l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; _M_prev->_M_next = f; _List_node_base* t = _M_prev; _M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; } }
    void _List_node_base::_M_reverse() noexcept { _List_node_base* t = this; do { _List_node_base* n = t->_M_next; t->_M_next = t->_M_prev; t->_M_prev = n; t = n; } while (t != this); }
    void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept {
      if (x._M_next != &x) { if (y._M_next != &y) { std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev); x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; } else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; } }
      else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; } }
    std::pair<bool, std::size_t> _Prime_rehash_policy::_M_need_rehash(std::size_t nb, std::size_t ne, std::size_t ni) const { if (ne + ni > nb) return std::make_pair(true, (ne + ni) * 2 + 11); return std::make_pair(false, (size_t)0); }
    std::size_t _Prime_rehash_policy::_M_next_bkt(std::size_t n) const { return n < 13 ? 13 : n | 1; }
  }
}
extern "C" void __sx_throw_bad_alloc() { throw std::bad_alloc(); }
extern "C" void __cxa_bad_cast() { throw std::bad_cast(); }
extern "C" void __cxa_bad_typeid() { throw std::bad_typeid(); }
extern "C" void __cxa_throw_bad_array_new_length() { throw std::bad_array_new_length(); }
// ------------------------------------------------------------------ libc: strings and characters
extern "C" {
  size_t strlen(const char* s) { size_t n = 0; while (s[n]) n++; return n; }
  int strcmp(const char* a, const char* b) { while (*a && *a == *b) a++, b++; return (unsigned char)*a - (unsigned char)*b; }
  int strncmp(const char* a, const char* b, size_t n) { for (; n; n--, a++, b++) { if (*a != *b) return (unsigned char)*a - (unsigned char)*b; if (!*a) break; } return 0; }
  char* strcpy(char* d, const char* s) { char* r = d; while ((*d++ = *s++)); return r; }
  char* strncpy(char* d, const char* s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
  char* strcat(char* d, const char* s) { strcpy(d + strlen(d), s); return d; }
  char* rt_strchr(const char*, int) __asm__("strchr"); char* rt_strrchr(const char*, int) __asm__("strrchr"); char* rt_strstr(const char*, const char*) __asm__("strstr"); void* rt_memchr(const void*, int, size_t) __asm__("memchr");
  char* rt_strchr(const char* s, int c) { for (;; s++) { if (*s == (char)c) return (char*)s; if (!*s) return 0; } }
  char* rt_strrchr(const char* s, int c) { const char* r = 0; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char*)r; } }
  char* rt_strstr(const char* h, const char* n) { size_t l = strlen(n); for (;; h++) { if (!strncmp(h, n, l)) return (char*)h; if (!*h) return 0; } }
  void* rt_memchr(const void* p, int c, size_t n) { const unsigned char* s = (const unsigned char*)p; for (size_t i = 0; i < n; i++) if (s[i] == (unsigned char)c) return (void*)(s + i); return 0; }
  size_t strspn(const char* s, const char* a) { size_t n = 0; while (s[n] && strchr(a, s[n])) n++; return n; }
  size_t strcspn(const char* s, const char* a) { size_t n = 0; while (s[n] && !strchr(a, s[n])) n++; return n; }
  char* strdup(const char* s) { size_t n = strlen(s) + 1; char* p = (char*)malloc(n); memcpy(p, s, n); return p; }
  size_t wcslen(const wchar_t* s) { size_t n = 0; while (s[n]) n++; return n; }
  int wmemcmp(const wchar_t* a, const wchar_t* b, size_t n) { for (size_t i = 0; i < n; i++) if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1; return 0; }
  wchar_t* wmemcpy(wchar_t* d, const wchar_t* s, size_t n) { memcpy(d, s, n * sizeof(wchar_t)); return d; }
  wchar_t* wmemmove(wchar_t* d, const wchar_t* s, size_t n) { memmove(d, s, n * sizeof(wchar_t)); return d; }
  wchar_t* wmemset(wchar_t* d, wchar_t c, size_t n) { for (size_t i = 0; i < n; i++) d[i] = c; return d; }
  const wchar_t* wmemchr_(const wchar_t* s, wchar_t c, size_t n) { for (size_t i = 0; i < n; i++) if (s[i] == c) return s + i; return 0; }
  // "C" locale, branch free; like glibc defined for -128..255
  int isdigit(int c) { return (unsigned)c - '0' < 10u; }
  int isupper(int c) { return (unsigned)c - 'A' < 26u; }
  int islower(int c) { return (unsigned)c - 'a' < 26u; }
  int isalpha(int c) { return ((unsigned)c - 'A' < 26u) | ((unsigned)c - 'a' < 26u); }
  int isalnum(int c) { return ((unsigned)c - 'A' < 26u) | ((unsigned)c - 'a' < 26u) | ((unsigned)c - '0' < 10u); }
  int isspace(int c) { return (c == ' ') | ((unsigned)c - 9u < 5u); }
  int isblank(int c) { return (c == ' ') | (c == 9); }
  int isprint(int c) { return (unsigned)c - 32u < 95u; }
  int isgraph(int c) { return (unsigned)c - 33u < 94u; }
  int iscntrl(int c) { return ((unsigned)c < 32u) | (c == 127); }
  int ispunct(int c) { return isgraph(c) & !isalnum(c); }
  int isxdigit(int c) { return ((unsigned)c - '0' < 10u) | ((unsigned)c - 'a' < 6u) | ((unsigned)c - 'A' < 6u); }
  int tolower(int c) { return isupper(c) ? c + 32 : c; }
  int toupper(int c) { return islower(c) ? c - 32 : c; }
  int isascii(int c) { return (unsigned)c < 128u; }
  int abs(int x) { return x < 0 ? -x : x; } long labs(long x) { return x < 0 ? -x : x; }
  static int err_no; int* __errno_location() { return &err_no; }
  char* getenv(const char*) { return 0; } int system(const char*) { U("system"); }
  void exit(int) { U("exit"); } void _exit(int) { U("_exit"); }
  static int digitOf(int c) { if (isdigit(c)) return c - '0'; if (islower(c)) return c - 'a' + 10; if (isupper(c)) return c - 'A' + 10; return 99; }
  unsigned long strtoul_(const char* s, char** e, int base, bool sg, bool& neg, bool& ov) {
    const char* p = s; while (isspace(*p)) p++; neg = false; ov = false; if (*p == '-') { neg = true; p++; } else if (*p == '+') p++;
    if ((base == 0 || base == 16) && *p == '0' && (p[1] == 'x' || p[1] == 'X') && digitOf(p[2]) < 16) { p += 2; base = 16; } else if (base == 0) base = *p == '0' ? 8 : 10;
    unsigned long v = 0; bool any = false; for (;; p++) { int d = digitOf((unsigned char)*p); if (d >= base) break; any = true; if (v > (~0ul - d) / base) ov = true; v = v * base + d; }
    if (e) *e = (char*)(any ? p : s); return v; }
  long strtol(const char* s, char** e, int b) { bool n, o; unsigned long v = strtoul_(s, e, b, true, n, o); if (n) return o || v > 0x8000000000000000ul ? (err_no = 34, (long)0x8000000000000000ul) : (long)(0 - v); return o || v > 0x7ffffffffffffffful ? (err_no = 34, 0x7fffffffffffffffl) : (long)v; }
  unsigned long strtoul(const char* s, char** e, int b) { bool n, o; unsigned long v = strtoul_(s, e, b, false, n, o); if (o) { err_no = 34; return ~0ul; } return n ? 0 - v : v; }
  long long strtoll(const char* s, char** e, int b) { return strtol(s, e, b); } unsigned long long strtoull(const char* s, char** e, int b) { return strtoul(s, e, b); }
  int atoi(const char* s) { return (int)strtol(s, 0, 10); } long atol(const char* s) { return strtol(s, 0, 10); }
  double strtod(const char* s, char** e) { char b[128]; int n = 0; while (n < 127 && s[n] && (isalnum(s[n]) || isspace(s[n]) || s[n] == '+' || s[n] == '-' || s[n] == '.')) { b[n] = s[n]; n++; } b[n] = 0; int u = 0; double d = __sx_strtod(b, &u); if (e) *e = (char*)s + u; return d; }
  double nan(const char*) { return __builtin_nan(""); } float nanf(const char*) { return __builtin_nanf(""); }
  float strtof(const char* s, char** e) { return (float)strtod(s, e); } double atof(const char* s) { return strtod(s, 0); }
  __attribute__((weak)) int rand() { int r; sym_make(&r, 4, "rand"); sym_assume(r >= 0); return r; } void srand(unsigned) {}
  void qsort(void* b, size_t n, size_t w, int (*c)(const void*, const void*)) { char* p = (char*)b; char t[256]; if (w > 256) U("qsort"); for (size_t i = 1; i < n; i++) for (size_t j = i; j && c(p + (j - 1) * w, p + j * w) > 0; j--) { memcpy(t, p + j * w, w); memcpy(p + j * w, p + (j - 1) * w, w); memcpy(p + (j - 1) * w, t, w); } }
  long time(long* t) { if (t) *t = 1700000000; return 1700000000; }
  int __cxa_thread_atexit_impl() { return 0; }
}
// ------------------------------------------------------------------ number formatting
static int udec(char* buf, unsigned long v) {
  if (!sym_is_symbolic(v)) { char t[24]; int n = 0; do { t[n++] = '0' + v % 10; v /= 10; } while (v); for (int i = 0; i < n; i++) buf[i] = t[n - 1 - i]; return n; }
  int n = 1; unsigned long p = 10; while (n < 20 && v >= p) { n++; if (n == 20) break; p *= 10; }
  unsigned long acc = 0; for (int i = 0; i < n; i++) { unsigned long d = sym_fresh(8); sym_assume(d <= (n == 20 && i == 0 ? 1 : 9)); acc = acc * 10 + d; buf[i] = (char)('0' + d); }
  if (n == 20) sym_assume(acc >= 10000000000000000000ul);
  sym_assume(acc == v); return n;
}
static int ubase(char* buf, unsigned long v, unsigned sh, bool up) { char t[72]; int n = 0; do { unsigned d = v & ((1u << sh) - 1); t[n++] = d < 10 ? '0' + d : (up ? 'A' : 'a') + d - 10; v >>= sh; } while (v); for (int i = 0; i < n; i++) buf[i] = t[n - 1 - i]; return n; }
struct Out { virtual void put(const char* p, size_t n) = 0; };
static int vfmt(Out& o, const char* f, va_list ap) {
  int total = 0;
  for (; *f; f++) {
    if (*f != '%') { const char* b = f; while (f[1] && f[1] != '%') f++; o.put(b, f - b + 1); total += f - b + 1; continue; }
    f++; if (*f == '%') { o.put("%", 1); total++; continue; }
    bool left = false, plus = false, zero = false, alt = false, space = false; for (;; f++) { if (*f == '-') left = true; else if (*f == '+') plus = true; else if (*f == '0') zero = true; else if (*f == '#') alt = true; else if (*f == ' ') space = true; else break; }
    int w = 0, pr = -1; if (*f == '*') { w = va_arg(ap, int); if (w < 0) { left = true; w = -w; } f++; } else while (isdigit(*f)) w = w * 10 + *f++ - '0';
    if (*f == '.') { f++; pr = 0; if (*f == '*') { pr = va_arg(ap, int); f++; } else while (isdigit(*f)) pr = pr * 10 + *f++ - '0'; }
    int lng = 0, sh = 0; for (;; f++) { if (*f == 'l' || *f == 'z' || *f == 'j' || *f == 't') lng++; else if (*f == 'h') sh++; else break; }
    char buf[600]; const char* s = buf; int n = 0; char sign = 0; const char* pre = ""; 
    switch (*f) {
    case 'd': case 'i': { long v = lng ? va_arg(ap, long) : va_arg(ap, int); if (sh == 1) v = (short)v; if (sh >= 2) v = (signed char)v; unsigned long u = v; if (v < 0) { sign = '-'; u = 0 - u; } else if (plus) sign = '+'; else if (space) sign = ' '; n = udec(buf, u); break; }
    case 'u': { unsigned long v = lng ? va_arg(ap, unsigned long) : va_arg(ap, unsigned); if (sh == 1) v = (unsigned short)v; if (sh >= 2) v = (unsigned char)v; n = udec(buf, v); break; }
    case 'x': case 'X': case 'o': { unsigned long v = lng ? va_arg(ap, unsigned long) : va_arg(ap, unsigned); if (sh == 1) v = (unsigned short)v; if (sh >= 2) v = (unsigned char)v; n = ubase(buf, v, *f == 'o' ? 3 : 4, *f == 'X'); if (alt && v) pre = *f == 'o' ? "0" : *f == 'x' ? "0x" : "0X"; break; }
    case 'p': { n = ubase(buf, (unsigned long)va_arg(ap, void*), 4, false); pre = "0x"; break; }
    case 'c': buf[0] = (char)va_arg(ap, int); n = 1; zero = false; break;
    case 's': { s = va_arg(ap, const char*); if (!s) s = "(null)"; if (pr >= 0) { while (n < pr && s[n]) n++; } else n = strlen(s); zero = false; pr = -1; break; }
    case 'f': case 'g': case 'e': case 'G': case 'E': { double d = va_arg(ap, double); char fm[8] = {'%', '.', '*', *f, 0}; n = __sx_fmt_double(buf, sizeof buf, fm, pr < 0 ? 6 : pr, d); if (buf[0] == '-') { sign = '-'; s++; n--; } else if (plus) sign = '+'; pr = -1; break; }
    default: U("printf conversion"); }
    int ndig = n; if (pr > n && *f != 'c') ndig = pr; if (pr >= 0 && strchr("diuxXo", *f)) zero = false;
    int len = ndig + (sign ? 1 : 0) + strlen(pre); int padn = w > len ? w - len : 0; total += len + padn;
    if (!left && !zero) for (int i = 0; i < padn; i++) o.put(" ", 1);
    if (sign) o.put(&sign, 1); o.put(pre, strlen(pre)); if (!left && zero) for (int i = 0; i < padn; i++) o.put("0", 1);
    for (int i = n; i < ndig; i++) o.put("0", 1); o.put(s, n); if (left) for (int i = 0; i < padn; i++) o.put(" ", 1);
  }
  return total;
}
struct BufOut : Out { char* b; size_t cap, n; void put(const char* p, size_t k) { for (size_t i = 0; i < k; i++) { if (n + 1 < cap) b[n] = p[i]; n++; } } };
// ------------------------------------------------------------------ FILE model: in-memory files
struct SXData { char* p; size_t n, cap; char name[64]; bool used; };
struct SXFile { SXData* d; size_t pos; bool rd, wr, app, eof, err, own; };
static SXData sxfiles[12];
static SXData d_in, d_out, d_err; static SXFile f_in, f_out, f_err;
static void grow(SXData* d, size_t n) { if (n <= d->cap) return; size_t c = n * 2 + 64; char* q = (char*)malloc(c); if (d->n) memcpy(q, d->p, d->n); if (d->p) free(d->p); d->p = q; d->cap = c; }
static size_t fput(SXFile* f, const char* p, size_t n) { if (!f->wr) { f->err = true; return 0; } if (f->app) f->pos = f->d->n; grow(f->d, f->pos + n); while (f->d->n < f->pos) f->d->p[f->d->n++] = 0; if (n) memcpy(f->d->p + f->pos, p, n); f->pos += n; if (f->pos > f->d->n) f->d->n = f->pos; return n; }
#undef stdin
#undef stdout
#undef stderr
extern "C" {
  FILE* stdin = (FILE*)&f_in; FILE* stdout = (FILE*)&f_out; FILE* stderr = (FILE*)&f_err;
  static SXFile* sf(FILE* f) { if (f == (FILE*)&f_in) { f_in.d = &d_in; f_in.rd = true; } else if (f == (FILE*)&f_out) { f_out.d = &d_out; f_out.wr = true; } else if (f == (FILE*)&f_err) { f_err.d = &d_err; f_err.wr = true; } return (SXFile*)f; }
  int fgetc(FILE* F) { SXFile* f = sf(F); if (f->pos >= f->d->n) { f->eof = true; return -1; } return (unsigned char)f->d->p[f->pos++]; }
  int getc(FILE* f) { return fgetc(f); } int getchar() { return fgetc(stdin); }
  int ungetc(int c, FILE* F) { SXFile* f = sf(F); if (c == -1 || !f->pos) return -1; f->pos--; f->eof = false; if (f->d->p[f->pos] != (char)c) { grow(f->d, f->d->n); f->d->p[f->pos] = (char)c; } return (unsigned char)c; }
  size_t fread(void* p, size_t s, size_t n, FILE* F) { SXFile* f = sf(F); size_t t = s * n, av = f->pos < f->d->n ? f->d->n - f->pos : 0; if (!f->rd) { f->err = true; return 0; } if (t > av) { t = av; f->eof = true; } if (t) memcpy(p, f->d->p + f->pos, t); f->pos += t; return s ? t / s : 0; }
  size_t fwrite(const void* p, size_t s, size_t n, FILE* F) { return s ? fput(sf(F), (const char*)p, s * n) / s : 0; }
  int fputs(const char* s, FILE* F) { fput(sf(F), s, strlen(s)); return 1; } int fputc(int c, FILE* F) { char b = (char)c; fput(sf(F), &b, 1); return (unsigned char)c; } int putc(int c, FILE* F) { return fputc(c, F); } int putchar(int c) { return fputc(c, stdout); }
  int puts(const char* s) { fputs(s, stdout); fputc('\n', stdout); return 1; }
  char* fgets(char* b, int n, FILE* F) { int i = 0; while (i < n - 1) { int c = fgetc(F); if (c == -1) break; b[i++] = (char)c; if (c == '\n') break; } if (!i) return 0; b[i] = 0; return b; }
  FILE* fopen(const char* name, const char* m) { SXData* d = 0; for (int i = 0; i < 12; i++) if (sxfiles[i].used && !strcmp(sxfiles[i].name, name)) d = &sxfiles[i]; if (m[0] == 'r' && !d) return 0;
    if (!d) { for (int i = 0; i < 12 && !d; i++) if (!sxfiles[i].used) d = &sxfiles[i]; if (!d) U("too many files"); d->used = true; strncpy(d->name, name, 63); d->n = 0; }
    SXFile* f = (SXFile*)malloc(sizeof(SXFile)); memset(f, 0, sizeof *f); f->own = true; f->d = d; bool pl = strchr(m, '+') != 0; f->rd = m[0] == 'r' || pl; f->wr = m[0] != 'r' || pl; f->app = m[0] == 'a'; if (m[0] == 'w') d->n = 0; return (FILE*)f; }
  FILE* fopen64(const char* n, const char* m) { return fopen(n, m); }
  int fclose(FILE* F) { SXFile* f = sf(F); if (f->own) free(f); return 0; } int fflush(FILE*) { return 0; }
  int fseek(FILE* F, long o, int w) { SXFile* f = sf(F); long b = w == 0 ? 0 : w == 1 ? (long)f->pos : (long)f->d->n; if (b + o < 0) return -1; f->pos = b + o; f->eof = false; return 0; } long ftell(FILE* F) { return sf(F)->pos; } void rewind(FILE* F) { fseek(F, 0, 0); }
  int fseeko(FILE* F, long o, int w) { return fseek(F, o, w); } long ftello(FILE* F) { return ftell(F); } int fseeko64(FILE* F, long o, int w) { return fseek(F, o, w); } long ftello64(FILE* F) { return ftell(F); }
  int feof(FILE* F) { return sf(F)->eof; } int ferror(FILE* F) { return sf(F)->err; } void clearerr(FILE* F) { sf(F)->eof = sf(F)->err = false; }
  int remove(const char* n) { for (int i = 0; i < 12; i++) if (sxfiles[i].used && !strcmp(sxfiles[i].name, n)) { sxfiles[i].used = false; return 0; } return -1; } int unlink(const char* n) { return remove(n); }
  int vsnprintf(char* b, size_t n, const char* f, va_list ap) { BufOut o; o.b = b; o.cap = n; o.n = 0; int r = vfmt(o, f, ap); if (n) b[o.n < n ? o.n : n - 1] = 0; return r; }
  int snprintf(char* b, size_t n, const char* f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, n, f, ap); va_end(ap); return r; }
  int sprintf(char* b, const char* f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, 1 << 20, f, ap); va_end(ap); return r; }
  struct FOut_ : Out { SXFile* f; void put(const char* p, size_t n) { fput(f, p, n); } };
  int vfprintf(FILE* F, const char* f, va_list ap) { FOut_ o; o.f = sf(F); return vfmt(o, f, ap); }
  int fprintf(FILE* F, const char* f, ...) { va_list ap; va_start(ap, f); int r = vfprintf(F, f, ap); va_end(ap); return r; }
  int printf(const char* f, ...) { va_list ap; va_start(ap, f); int r = vfprintf(stdout, f, ap); va_end(ap); return r; }
  int vprintf(const char* f, va_list ap) { return vfprintf(stdout, f, ap); }
  // harness access to the model's standard streams
  void sx_set_stdin(const char* p, size_t n) { d_in.n = 0; f_in.pos = 0; f_in.eof = false; grow(&d_in, n); if (n) memcpy(d_in.p, p, n); d_in.n = n; }
  size_t sx_stdout(const char** p) { *p = d_out.p; return d_out.n; } void sx_clear_stdout() { d_out.n = 0; f_out.pos = 0; }
}
// ------------------------------------------------------------------ locale and stream support
namespace std {
  locale::facet::~facet() {}
  struct MyImpl { _Atomic_word rc; const locale::facet** facets; size_t n; const locale::facet** caches; char** names; };
  static MyImpl classicImpl; static const locale::facet* classicFacets[64];
  locale::id ctype<char>::id; locale::id codecvt<char, char, mbstate_t>::id; 
  static size_t nextId = 1;
  size_t locale::id::_M_id() const throw() { if (!_M_index) _M_index = nextId++; return _M_index - 1; }
  locale::locale() throw() : _M_impl((_Impl*)&classicImpl) {} locale::locale(const locale& o) throw() : _M_impl(o._M_impl) {} locale::~locale() throw() {}
  const locale& locale::operator=(const locale& o) throw() { _M_impl = o._M_impl; return *this; }
  const locale& locale::classic() { static locale l; return l; }
  bool locale::operator==(const locale& o) const throw() { return _M_impl == o._M_impl; }
  ctype<char>::ctype(const mask* t, bool d, size_t r) : facet(r), _M_c_locale_ctype(0), _M_del(false), _M_toupper(0), _M_tolower(0), _M_table(t), _M_widen_ok(0), _M_narrow_ok(0) {}
  ctype<char>::~ctype() {}
  char ctype<char>::do_toupper(char c) const { return (char)::toupper((unsigned char)c); } char ctype<char>::do_tolower(char c) const { return (char)::tolower((unsigned char)c); }
  const char* ctype<char>::do_toupper(char* a, const char* b) const { for (; a < b; a++) *a = do_toupper(*a); return b; } const char* ctype<char>::do_tolower(char* a, const char* b) const { for (; a < b; a++) *a = do_tolower(*a); return b; }
  void ctype<char>::_M_widen_init() const { for (int i = 0; i < 256; i++) _M_widen[i] = (char)i; _M_widen_ok = 1; } void ctype<char>::_M_narrow_init() const { for (int i = 0; i < 256; i++) _M_narrow[i] = (char)i; _M_narrow_ok = 1; }
  static ctype_base::mask ctTable[256];
  const ctype_base::mask* ctype<char>::classic_table() throw() { return ctTable; }
  codecvt<char, char, mbstate_t>::codecvt(size_t r) : __codecvt_abstract_base<char, char, mbstate_t>(r), _M_c_locale_codecvt(0) {} codecvt<char, char, mbstate_t>::~codecvt() {}
  codecvt_base::result codecvt<char, char, mbstate_t>::do_out(mbstate_t&, const char* f, const char*, const char*& fn, char* t, char*, char*& tn) const { fn = f; tn = t; return noconv; }
  codecvt_base::result codecvt<char, char, mbstate_t>::do_unshift(mbstate_t&, char* t, char*, char*& tn) const { tn = t; return noconv; }
  codecvt_base::result codecvt<char, char, mbstate_t>::do_in(mbstate_t&, const char* f, const char*, const char*& fn, char* t, char*, char*& tn) const { fn = f; tn = t; return noconv; }
  int codecvt<char, char, mbstate_t>::do_encoding() const throw() { return 1; } bool codecvt<char, char, mbstate_t>::do_always_noconv() const throw() { return true; }
  int codecvt<char, char, mbstate_t>::do_length(mbstate_t&, const char* f, const char* e, size_t m) const { size_t n = e - f; return n < m ? n : m; } int codecvt<char, char, mbstate_t>::do_max_length() const throw() { return 1; }
  typedef ostreambuf_iterator<char> OI; typedef istreambuf_iterator<char> II;
  struct MyPut : num_put<char> {
    MyPut() : num_put<char>(1) {}
    static OI pad(OI s, ios_base& io, char fill, const char* p, int n, int signLen) {
      streamsize w = io.width(); io.width(0); int padn = w > n ? (int)(w - n) : 0; ios_base::fmtflags a = io.flags() & ios_base::adjustfield; int i = 0;
      if (a == ios_base::internal) { for (; i < signLen; i++) *s = p[i]; } else if (a == ios_base::left) { for (; i < n; i++) *s = p[i]; }
      for (int k = 0; k < padn; k++) *s = fill; for (; i < n; i++) *s = p[i]; return s; }
    OI num(OI s, ios_base& io, char fill, unsigned long u, bool neg, bool sg) const {
      char b[80]; int n = 0, sl = 0; ios_base::fmtflags f = io.flags(), bf = f & ios_base::basefield;
      if (bf == ios_base::hex || bf == ios_base::oct) { bool up = (f & ios_base::uppercase) != 0; if (f & ios_base::showbase && u) { b[n++] = '0'; if (bf == ios_base::hex) { b[n++] = up ? 'X' : 'x'; sl = 2; } } n += ubase(b + n, u, bf == ios_base::hex ? 4 : 3, up); }
      else { if (neg) { b[n++] = '-'; sl = 1; } else if (sg && (f & ios_base::showpos)) { b[n++] = '+'; sl = 1; } n += udec(b + n, u); }
      return pad(s, io, fill, b, n, sl); }
    static bool isDec(ios_base& io) { ios_base::fmtflags b = io.flags() & ios_base::basefield; return b != ios_base::hex && b != ios_base::oct; }
    OI do_put(OI s, ios_base& io, char f, bool v) const { if (!(io.flags() & ios_base::boolalpha)) return num(s, io, f, v, false, true); return pad(s, io, f, v ? "true" : "false", v ? 4 : 5, 0); }
    OI do_put(OI s, ios_base& io, char f, long v) const { bool neg = v < 0 && isDec(io); return num(s, io, f, neg ? 0 - (unsigned long)v : (unsigned long)v, neg, true); }
    OI do_put(OI s, ios_base& io, char f, unsigned long v) const { return num(s, io, f, v, false, false); }
    OI do_put(OI s, ios_base& io, char f, long long v) const { return do_put(s, io, f, (long)v); } OI do_put(OI s, ios_base& io, char f, unsigned long long v) const { return num(s, io, f, v, false, false); }
    OI do_put(OI s, ios_base& io, char f, double v) const { ios_base::fmtflags ff = io.flags() & ios_base::floatfield; bool up = (io.flags() & ios_base::uppercase) != 0; char fm[8]; int i = 0; fm[i++] = '%'; if (io.flags() & ios_base::showpos) fm[i++] = '+'; if (io.flags() & ios_base::showpoint) fm[i++] = '#'; fm[i++] = '.'; fm[i++] = '*'; fm[i++] = ff == ios_base::fixed ? 'f' : ff == ios_base::scientific ? (up ? 'E' : 'e') : (up ? 'G' : 'g'); fm[i] = 0;
      char b[512]; int n = __sx_fmt_double(b, sizeof b, fm, (int)io.precision(), v); return pad(s, io, f, b, n, n && (b[0] == '-' || b[0] == '+') ? 1 : 0); }
    OI do_put(OI s, ios_base& io, char f, long double v) const { U("long double output"); }
    OI do_put(OI s, ios_base& io, char f, const void* p) const { ios_base::fmtflags o = io.flags(); io.flags((o & ~(ios_base::basefield | ios_base::uppercase)) | ios_base::hex | ios_base::showbase); OI r = num(s, io, f, (unsigned long)p, false, false); io.flags(o); return r; }
  };
  struct MyGet : num_get<char> {
    MyGet() : num_get<char>(1) {}
    // returns false if no digits; neg, overflow
    static II digits(II b, II e, ios_base& io, ios_base::iostate& err, unsigned long& v, bool& neg, bool& any, bool& ov) {
      neg = any = ov = false; v = 0; ios_base::fmtflags bf = io.flags() & ios_base::basefield; unsigned base = bf == ios_base::oct ? 8 : bf == ios_base::hex ? 16 : 10;
      if (!(b == e)) { char c = *b; if (c == '-' || c == '+') { neg = c == '-'; ++b; } }
      if ((bf == 0 || bf == ios_base::hex) && !(b == e) && *b == '0') { ++b; any = true; if (bf == 0) base = 8; if (!(b == e) && (*b == 'x' || *b == 'X')) { ++b; any = false; base = 16; } }
      for (; !(b == e); ++b) { char c = *b; unsigned d = c >= '0' && c <= '9' ? c - '0' : base == 16 && c >= 'a' && c <= 'f' ? c - 'a' + 10 : base == 16 && c >= 'A' && c <= 'F' ? c - 'A' + 10 : 99; if (d >= base) break; any = true; if (base == 16 ? v >> 60 : v > (~0ul - d) / base) ov = true; v = v * base + d; }
      if (b == e) err |= ios_base::eofbit; return b; }
    II sget(II b, II e, ios_base& io, ios_base::iostate& err, long& r, long mn, long mx) const { unsigned long v; bool neg, any, ov; b = digits(b, e, io, err, v, neg, any, ov); if (!any) { r = 0; err |= ios_base::failbit; return b; }
      if (ov || (neg ? v > 0ul - (unsigned long)mn : v > (unsigned long)mx)) { r = neg ? mn : mx; err |= ios_base::failbit; } else r = neg ? (long)(0 - v) : (long)v; return b; }
    II uget(II b, II e, ios_base& io, ios_base::iostate& err, unsigned long& r, unsigned long mx) const { unsigned long v; bool neg, any, ov; b = digits(b, e, io, err, v, neg, any, ov); if (!any) { r = 0; err |= ios_base::failbit; return b; } if (ov || v > mx) { r = mx; err |= ios_base::failbit; } else r = (neg ? 0 - v : v) & mx; return b; }
    II do_get(II b, II e, ios_base& io, ios_base::iostate& err, bool& v) const { if (io.flags() & ios_base::boolalpha) U("boolalpha input"); long l; b = sget(b, e, io, err, l, (-0x7fffffffffffffffl - 1), 0x7fffffffffffffffl); if (l == 0 || l == 1) v = l; else { v = true; err |= ios_base::failbit; } return b; }
    II do_get(II b, II e, ios_base& io, ios_base::iostate& err, long& v) const { return sget(b, e, io, err, v, (-0x7fffffffffffffffl - 1), 0x7fffffffffffffffl); }
    II do_get(II b, II e, ios_base& io, ios_base::iostate& err, unsigned short& v) const { unsigned long l; b = uget(b, e, io, err, l, 0xffff); v = l; return b; }
    II do_get(II b, II e, ios_base& io, ios_base::iostate& err, unsigned int& v) const { unsigned long l; b = uget(b, e, io, err, l, 0xffffffff); v = l; return b; }
    II do_get(II b, II e, ios_base& io, ios_base::iostate& err, unsigned long& v) const { return uget(b, e, io, err, v, ~0ul); }
    II do_get(II b, II e, ios_base& io, ios_base::iostate& err, long long& v) const { long l; b = sget(b, e, io, err, l, (-0x7fffffffffffffffl - 1), 0x7fffffffffffffffl); v = l; return b; }
    II do_get(II b, II e, ios_base& io, ios_base::iostate& err, unsigned long long& v) const { unsigned long l; b = uget(b, e, io, err, l, ~0ul); v = l; return b; }
    II fget(II b, II e, ios_base::iostate& err, double& v) const { char t[128]; int n = 0; bool dot = false, ex = false, dig = false; 
      for (; !(b == e) && n < 120; ++b) { char c = *b; if (c >= '0' && c <= '9') { dig = true; t[n++] = c; } else if ((c == '+' || c == '-') && (n == 0 || t[n - 1] == 'e' || t[n - 1] == 'E')) t[n++] = c; else if (c == '.' && !dot && !ex) { dot = true; t[n++] = c; } else if ((c == 'e' || c == 'E') && dig && !ex) { ex = true; t[n++] = c; } else break; }
      t[n] = 0; if (b == e) err |= ios_base::eofbit; int u = 0; v = __sx_strtod(t, &u); if (u != n || n == 0) { v = 0; err |= ios_base::failbit; } else if (v > 1.7976931348623157e308) { v = 1.7976931348623157e308; err |= ios_base::failbit; } else if (v < -1.7976931348623157e308) { v = -1.7976931348623157e308; err |= ios_base::failbit; } return b; }
    II do_get(II b, II e, ios_base& io, ios_base::iostate& err, float& v) const { double d = 0; b = fget(b, e, err, d); v = (float)d; return b; }
    II do_get(II b, II e, ios_base& io, ios_base::iostate& err, double& v) const { return fget(b, e, err, v); }
    II do_get(II b, II e, ios_base& io, ios_base::iostate& err, long double& v) const { U("long double input"); }
    II do_get(II b, II e, ios_base& io, ios_base::iostate& err, void*& v) const { U("pointer input"); }
  };
  template <class F> static void install(F* f) { classicFacets[F::id._M_id()] = f; }
  struct InitLocale { InitLocale() {
      static bool done = false; if (done) return; done = true;
      for (int i = 0; i < 256; i++) { ctype_base::mask m = 0; if (::isupper(i)) m |= ctype_base::upper; if (::islower(i)) m |= ctype_base::lower; if (::isalpha(i)) m |= ctype_base::alpha; if (::isdigit(i)) m |= ctype_base::digit; if (::isxdigit(i)) m |= ctype_base::xdigit; if (::isspace(i)) m |= ctype_base::space; if (::isprint(i)) m |= ctype_base::print; if (::iscntrl(i)) m |= ctype_base::cntrl; if (::ispunct(i)) m |= ctype_base::punct; if (::isblank(i)) m |= ctype_base::blank; ctTable[i] = m; }
      classicImpl.rc = 1000; classicImpl.facets = classicFacets; classicImpl.n = 64;
      static ctype<char>* ct = (ctype<char>*)malloc(sizeof(ctype<char>)); new (ct) ctype<char>(ctTable, false, 1); classicFacets[ctype<char>::id._M_id()] = ct; ct->widen('a'); 
      static MyPut* mp = (MyPut*)malloc(sizeof(MyPut)); new (mp) MyPut; classicFacets[num_put<char>::id._M_id()] = mp; static MyGet* mg = (MyGet*)malloc(sizeof(MyGet)); new (mg) MyGet; classicFacets[num_get<char>::id._M_id()] = mg;
      typedef codecvt<char, char, mbstate_t> CV; static CV* cvt = (CV*)malloc(sizeof(CV)); new (cvt) CV(1); classicFacets[CV::id._M_id()] = cvt; } };
  static InitLocale initLocale __attribute__((init_priority(101)));
  ios_base::ios_base() throw() : _M_precision(), _M_width(), _M_flags(), _M_exception(), _M_streambuf_state(), _M_callbacks(0), _M_word_zero(), _M_word_size(_S_local_word_size), _M_word(_M_local_word), _M_ios_locale() {}
  ios_base::~ios_base() {}
  void ios_base::_M_init() throw() { _M_precision = 6; _M_width = 0; _M_flags = skipws | dec; _M_ios_locale = locale(); }
  void ios_base::_M_call_callbacks(event) throw() {} void ios_base::_M_dispose_callbacks() throw() {}
  ios_base::Init::Init() {} ios_base::Init::~Init() {}
  locale ios_base::imbue(const locale& l) throw() { locale o = _M_ios_locale; _M_ios_locale = l; return o; }
  bool ios_base::sync_with_stdio(bool) { return true; }
  void __basic_file_unused() {}
  __basic_file<char>::__basic_file(__c_lock*) throw() : _M_cfile(0), _M_cfile_created(false) {} __basic_file<char>::~__basic_file() { close(); }
  __basic_file<char>* __basic_file<char>::open(const char* n, ios_base::openmode m, int) { const char* s; bool in = (m & ios_base::in) != 0, out = (m & ios_base::out) != 0, tr = (m & ios_base::trunc) != 0, app = (m & ios_base::app) != 0; if (in && out) s = tr ? "w+" : app ? "a+" : "r+"; else if (in && app) s = "a+"; else if (in) s = "r"; else if (app) s = "a"; else if (out) s = "w"; else return 0; if (is_open()) return 0; _M_cfile = fopen(n, s); if (!_M_cfile) return 0; _M_cfile_created = true; if (m & ios_base::ate) fseek(_M_cfile, 0, 2); return this; }
  __basic_file<char>* __basic_file<char>::close() { if (!is_open()) return 0; if (_M_cfile_created) fclose(_M_cfile); _M_cfile = 0; return this; }
  bool __basic_file<char>::is_open() const throw() { return _M_cfile != 0; } int __basic_file<char>::fd() throw() { return 3; }
  streamsize __basic_file<char>::xsputn(const char* p, streamsize n) { return fwrite(p, 1, n, _M_cfile); } streamsize __basic_file<char>::xsputn_2(const char* p, streamsize n, const char* q, streamsize m) { return fwrite(p, 1, n, _M_cfile) + fwrite(q, 1, m, _M_cfile); }
  streamsize __basic_file<char>::xsgetn(char* p, streamsize n) { return fread(p, 1, n, _M_cfile); } streamoff __basic_file<char>::seekoff(streamoff o, ios_base::seekdir w) throw() { if (fseek(_M_cfile, o, w)) return -1; return ftell(_M_cfile); } int __basic_file<char>::sync() { return 0; } streamsize __basic_file<char>::showmanyc() { SXFile* f = sf(_M_cfile); return f->pos < f->d->n ? f->d->n - f->pos : 0; }
  void ios_base_library_init() {}
  template<> basic_istream<char>& getline(basic_istream<char>& in, basic_string<char>& s, char d) { s.clear(); int n = 0; basic_istream<char>::sentry ok(in, true); ios_base::iostate err = ios_base::goodbit; if (ok) { for (;;) { int c = in.rdbuf()->sbumpc(); if (c == -1) { err |= ios_base::eofbit; break; } n++; if ((char)c == d) break; s += (char)c; } if (!n) err |= ios_base::failbit; if (err) in.setstate(err); } return in; }
  template<> basic_istream<char>& operator>>(basic_istream<char>& in, basic_string<char>& s) { basic_istream<char>::sentry ok(in, false); ios_base::iostate err = ios_base::goodbit; if (ok) { s.clear(); streamsize w = in.width(); int n = 0; for (;;) { if (w > 0 && n >= w) break; int c = in.rdbuf()->sgetc(); if (c == -1) { err |= ios_base::eofbit; break; } if (::isspace(c)) break; s += (char)c; n++; in.rdbuf()->sbumpc(); } in.width(0); if (!n) err |= ios_base::failbit; if (err) in.setstate(err); } else in.setstate(ios_base::failbit); return in; }
  template<> basic_istream<char>& basic_istream<char>::ignore(streamsize n) { _M_gcount = 0; sentry c(*this, true); if (c) { while (_M_gcount < n) { int x = rdbuf()->sbumpc(); if (x == -1) { setstate(ios_base::eofbit); break; } _M_gcount++; } } return *this; }
  template<> basic_istream<char>& basic_istream<char>::ignore(streamsize n, int_type d) { _M_gcount = 0; sentry c(*this, true); if (c) { while (_M_gcount < n) { int x = rdbuf()->sbumpc(); if (x == -1) { setstate(ios_base::eofbit); break; } _M_gcount++; if (x == d) break; } } return *this; }
  struct OutBuf : streambuf { SXFile* f; OutBuf(SXFile* x) : f(x) {} int overflow(int c) { if (c != -1) { char b = (char)c; sf((FILE*)f); fput(f, &b, 1); } return c == -1 ? 0 : c; } streamsize xsputn(const char* p, streamsize n) { sf((FILE*)f); return fput(f, p, n); } };
  struct InBuf : streambuf { char b[1]; int underflow() { int c = fgetc(stdin); if (c == -1) return -1; b[0] = (char)c; setg(b, b, b + 1); return (unsigned char)c; } };
  static OutBuf outbuf __attribute__((init_priority(102)))(&f_out); static OutBuf errbuf __attribute__((init_priority(102)))(&f_err); static InBuf inbuf __attribute__((init_priority(102)));
  ostream cout __attribute__((init_priority(103)))(&outbuf); ostream cerr __attribute__((init_priority(103)))(&errbuf); ostream clog __attribute__((init_priority(103)))(&errbuf); istream cin __attribute__((init_priority(103)))(&inbuf);
}
