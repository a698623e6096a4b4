// The generator programs (classdesc, insert-friend) compiled into the harness as they stand, with stdio
// replaced by a store in memory.  Define VGEN_SOURCE to the program's source before including.
#ifndef VGEN_H
#define VGEN_H
#include "sym.h"
#include <assert.h>
#include <algorithm>
#include <string>
#include <vector>
#include <stack>
#include <map>
#include <set>
#include <stdio.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <ctype.h>
#include <iostream>
#include <sstream>
namespace memio {
  struct F { std::string d; size_t pos; bool eof; bool used; F() : pos(0), eof(false), used(false) {} };
  static F in, out, errs; static std::map<std::string, std::string> disk; static std::map<std::string, std::string> written; static unsigned opened;
  struct W : F { std::string name; };
  typedef size_t P;
  static int getc_(F* f) { if (f->pos >= f->d.size()) { f->eof = true; return -1; } return (unsigned char)f->d[f->pos++]; }
  static int ungetc_(int c, F* f) { if (c == -1) return -1; CHECK(f->pos > 0 && (unsigned char)f->d[f->pos - 1] == (unsigned char)c, "only what was read is pushed back"); f->pos--; f->eof = false; return c; }
  static int feof_(F* f) { return f->eof; }
  static int putc_(int c, F* f) { f->d += (char)c; return c; }
  static int getpos_(F* f, P* p) { *p = f->pos; return 0; }
  static int setpos_(F* f, const P* p) { f->pos = *p; f->eof = false; return 0; }
  static int seek_(F* f, long o, int) { f->pos = o; f->eof = false; return 0; }
  static long tell_(F* f) { return f->pos; }
  static std::string fmt(const char* f, va_list a) { std::string r; for (; *f; f++) { if (*f != '%') { r += *f; continue; } f++; if (*f == '%') { r += '%'; continue; } bool left = false; if (*f == '-') { left = true; f++; } unsigned w = 0; while (isdigit(*f)) w = w * 10 + *f++ - '0'; std::string t; 
      if (*f == 's') { const char* s = va_arg(a, const char*); if (!s) s = "(null)"; t = s; } else if (*f == 'd' || *f == 'u') { char b[24]; int n = 0; long v = va_arg(a, int); bool neg = v < 0; if (neg) v = -v; do { b[n++] = '0' + v % 10; v /= 10; } while (v); if (neg) b[n++] = '-'; while (n) t += b[--n]; } else if (*f == 'c') t += (char)va_arg(a, int); else CHECK(false, "conversion not modelled");
      while (!left && t.size() + r.size() * 0 < w) t = " " + t; while (left && t.size() < w) t += ' '; r += t; } return r; }
  static int printf_(const char* f, ...) { va_list a; va_start(a, f); out.d += fmt(f, a); va_end(a); return 0; }
  static int fprintf_(F* o, const char* f, ...) { va_list a; va_start(a, f); o->d += fmt(f, a); va_end(a); return 0; }
  static int sprintf_(char* b, const char* f, ...) { va_list a; va_start(a, f); std::string s = fmt(f, a); va_end(a); memcpy(b, s.c_str(), s.size() + 1); return s.size(); }
  static int puts_(const char* s) { out.d += s; out.d += '\n'; return 0; }
  static int fputs_(const char* s, F* f) { f->d += s; return 0; }
  static F* open_(const char* n, const char* m) { if (m[0] == 'r') { std::map<std::string, std::string>::iterator i = disk.find(n); if (i == disk.end()) return 0; W* f = new W; f->d = i->second; opened++; return f; } W* f = new W; f->name = n; opened++; return f; }
  static int close_(F* f) { W* w = static_cast<W*>(f); if (w->name.size()) written[w->name] += w->d; opened--; delete w; return 0; }
  // fscanf with the one format used: literal text, blanks, %N[^\n]
  static int scan_(F* f, const char* p, char* to) { bool first = true; for (; *p; p++) { if (isspace(*p)) { while (f->pos < f->d.size() && isspace((unsigned char)f->d[f->pos])) f->pos++; continue; } if (*p == '%') { unsigned w = 0, n = 0; p++; while (isdigit(*p)) w = w * 10 + *p++ - '0'; CHECK(std::string(p) == "[^\n]", "conversion not modelled"); if (f->pos >= f->d.size()) { f->eof = true; return first ? -1 : -1; } while (f->pos < f->d.size() && f->d[f->pos] != '\n' && n < w) to[n++] = f->d[f->pos++]; to[n] = 0; return n ? 1 : 0; }
      if (f->pos >= f->d.size()) { f->eof = true; return -1; } if (f->d[f->pos] != *p) return 0; f->pos++; first = false; } return 0; }
  struct S { F* f; S(F* f) : f(f) {} }; static S cout_(&out), cerr_(&errs); struct E {}; static E endl_;
  static S& operator<<(S& s, const std::string& x) { s.f->d += x; return s; } static S& operator<<(S& s, const char* x) { s.f->d += x; return s; } static S& operator<<(S& s, E) { s.f->d += '\n'; return s; } static S& operator<<(S& s, int x) { char b[24]; sprintf_(b, "%d", x); s.f->d += b; return s; }
}
#define FILE memio::F
#undef fgetc
#undef getc
#undef ungetc
#undef feof
#undef fputc
#undef putc
#undef stdin
#undef stdout
#undef stderr
#undef fputs
#undef stderr
#define fgetc memio::getc_
#define getc memio::getc_
#define ungetc memio::ungetc_
#define feof memio::feof_
#define fputc memio::putc_
#define putc memio::putc_
#define fpos_t memio::P
#define fgetpos memio::getpos_
#define fsetpos memio::setpos_
#define fseek memio::seek_
#define ftell memio::tell_
#define printf memio::printf_
#define fprintf memio::fprintf_
#define sprintf memio::sprintf_
#define puts memio::puts_
#define fopen memio::open_
#define fclose memio::close_
#define fscanf memio::scan_
#define stdin (&memio::in)
#define stdout (&memio::out)
#define stderr (&memio::errs)
#undef fputs
#define fputs memio::fputs_
#define cout memio::cout_
#define cerr memio::cerr_
#define endl memio::endl_
#define main program_main
#include VGEN_SOURCE
#undef main
#undef cout
#undef cerr
#undef endl
#undef FILE
#undef fpos_t
#undef printf
#undef fprintf
#undef sprintf
#undef puts
#undef fgetc
#undef getc
#undef ungetc
#undef feof
#undef fputc
#undef putc
#undef stdin
#undef stdout
#undef stderr
#undef fputs
#undef fopen
#undef fclose
#undef fscanf
#undef fseek
#undef ftell
#undef fgetpos
#undef fsetpos
// run the program on a source text; options are separated by blanks
static int run_gen(const std::string& src, const std::string& opts, std::string& output) {
  memio::in = memio::F(); memio::in.d = src; memio::out = memio::F(); memio::errs = memio::F();
  std::vector<std::string> w(1, "gen"); for (size_t i = 0; i < opts.size();) { size_t j = opts.find(' ', i); if (j == std::string::npos) j = opts.size(); if (j > i) w.push_back(opts.substr(i, j - i)); i = j + 1; }
  std::vector<char*> a; for (size_t i = 0; i < w.size(); i++) a.push_back(&w[i][0]); a.push_back(0); for (size_t i = 0; i < w.size(); i++) w[i].c_str();
  int r = program_main((int)w.size(), &a[0]); CHECK(memio::opened == 0, "files are closed"); output = memio::out.d; return r; }
// one generated descriptor
struct Desc { std::string guard, head, tmpl; std::vector<std::string> ops, types, scope; };
static std::vector<std::string> lines(const std::string& s) { std::vector<std::string> r; for (size_t i = 0; i < s.size();) { size_t j = s.find('\n', i); if (j == std::string::npos) j = s.size(); r.push_back(s.substr(i, j - i)); i = j + 1; } return r; }
static bool starts(const std::string& s, const std::string& p) { return s.size() >= p.size() && memcmp(s.data(), p.data(), p.size()) == 0; }
static std::vector<Desc> descs(const std::string& out, const std::string& action) {
  std::vector<Desc> r; std::vector<std::string> l = lines(out); std::string mark = "struct access_" + action + "< ", guard; int mode = 0; 
  for (size_t i = 0; i < l.size(); i++) { 
    if (starts(l[i], "#ifndef ")) guard = l[i].substr(8); else if (starts(l[i], "template ")) { size_t p = l[i].find(mark); if (p != std::string::npos) { Desc d; d.guard = guard; for (size_t k = 0; k < r.size(); k++) CHECK(r[k].guard != guard, "no two descriptors share a guard macro"); d.tmpl = l[i].substr(9, p - 10); size_t q = l[i].rfind(" > {"); CHECK(q != std::string::npos, "descriptor header"); d.head = l[i].substr(p + mark.size(), q - p - mark.size()); r.push_back(d); mode = 0; } }
    else if (starts(l[i], "void operator()(")) mode = 1; else if (starts(l[i], "void type(")) mode = 2; else if (l[i] == "}" || l[i] == "};") mode = 0; else if (l[i] == "{") ;
    else if (mode && r.size() && starts(l[i], "typedef ")) { if (mode == 1) r.back().scope.push_back(l[i]); }
    else if (mode && r.size() && starts(l[i], "using namespace ")) { if (mode == 1) r.back().scope.push_back(l[i]); }
    else if (mode == 1 && r.size()) r.back().ops.push_back(l[i]); else if (mode == 2 && r.size()) r.back().types.push_back(l[i]); }
  return r; }
static const Desc* find(const std::vector<Desc>& v, const std::string& head) { const Desc* r = 0; for (size_t i = 0; i < v.size(); i++) if (v[i].head == head) { CHECK(!r, "a class is described once"); r = &v[i]; } return r; }
static void expect(const Desc* d, const std::vector<std::string>& e, const char* what) { CHECK(d != 0, "the class is described"); if (!d) return; 
#ifdef NATIVE
  if (d->ops != e) { for (size_t i = 0; i < d->ops.size(); i++) std::cerr << "  got " << d->ops[i] << "\n"; for (size_t i = 0; i < e.size(); i++) std::cerr << "  exp " << e[i] << "\n"; }
#endif
  CHECK(d->ops.size() == e.size(), what); for (size_t i = 0; i < e.size(); i++) CHECK(d->ops[i] == e[i], what); }
#endif
