// Model of the parts of libtirpc the XDR buffers use (IR build only; the native build links the real library, and
// sampled paths are compared byte for byte).  RFC 4506: big endian, units of four bytes.
#ifndef XDRMODEL_H
#define XDRMODEL_H
#ifndef NATIVE
extern "C" {
#include <rpc/types.h>
#include <rpc/xdr.h>
static unsigned mx_getpos(XDR* x) { return (unsigned)((char*)x->x_private - x->x_base); }
static bool_t mx_setpos(XDR* x, u_int pos) { char* n = x->x_base + pos; char* last = (char*)x->x_private + x->x_handy; if (n > last) return FALSE; x->x_private = n; x->x_handy = (u_int)(last - n); return TRUE; }
static void mx_destroy(XDR*) {}
static bool_t mx_getlong(XDR*, long*) { sym_fail("unused"); }
static bool_t mx_putlong(XDR*, const long*) { sym_fail("unused"); }
static bool_t mx_getbytes(XDR* x, char* p, u_int n) { if (x->x_handy < n) return FALSE; x->x_handy -= n; memmove(p, x->x_private, n); x->x_private = (char*)x->x_private + n; return TRUE; }
static bool_t mx_putbytes(XDR* x, const char* p, u_int n) { if (x->x_handy < n) return FALSE; x->x_handy -= n; memmove(x->x_private, p, n); x->x_private = (char*)x->x_private + n; return TRUE; }
static const struct XDR::xdr_ops mx_ops = {mx_getlong, mx_putlong, mx_getbytes, mx_putbytes, mx_getpos, mx_setpos, 0, mx_destroy, 0};
void xdrmem_create(XDR* x, char* addr, u_int size, enum xdr_op op) { x->x_op = op; x->x_private = x->x_base = addr; x->x_handy = size; *(const void**)&x->x_ops = &mx_ops; }
void xdrstdio_create(XDR* x, FILE*, enum xdr_op op) { sym_fail("file streams are not modelled"); }
static bool_t put32(XDR* x, unsigned v) { char b[4] = {char(v >> 24), char(v >> 16), char(v >> 8), char(v)}; return x->x_ops->x_putbytes(x, b, 4); }
static bool_t get32(XDR* x, unsigned* v) { unsigned char b[4]; if (!x->x_ops->x_getbytes(x, (char*)b, 4)) return FALSE; *v = (unsigned)b[0] << 24 | (unsigned)b[1] << 16 | (unsigned)b[2] << 8 | b[3]; return TRUE; }
#define MX(name, T, I) bool_t name(XDR* x, T* p) { unsigned v; if (x->x_op == XDR_ENCODE) return put32(x, (unsigned)(I)*p); if (!get32(x, &v)) return FALSE; *p = (T)v; return TRUE; }
MX(xdr_char, char, int) MX(xdr_u_char, u_char, unsigned) MX(xdr_short, short, int) MX(xdr_u_short, u_short, unsigned) MX(xdr_int, int, int) MX(xdr_u_int, u_int, unsigned)
bool_t xdr_float(XDR* x, float* p) { unsigned v; if (x->x_op == XDR_ENCODE) { memcpy(&v, p, 4); return put32(x, v); } if (!get32(x, &v)) return FALSE; memcpy(p, &v, 4); return TRUE; }
#undef MX
bool_t xdr_u_hyper(XDR* x, u_quad_t* p) { unsigned h, l; if (x->x_op == XDR_ENCODE) { h = *p >> 32; l = *p; if (!put32(x, h)) return FALSE; return put32(x, l); } if (!get32(x, &h) || !get32(x, &l)) return FALSE; *p = (u_quad_t)h << 32 | l; return TRUE; }
bool_t xdr_hyper(XDR* x, quad_t* p) { return xdr_u_hyper(x, (u_quad_t*)p); }
bool_t xdr_double(XDR* x, double* p) { u_quad_t u; if (x->x_op == XDR_ENCODE) { memcpy(&u, p, 8); return xdr_u_hyper(x, &u); } if (!xdr_u_hyper(x, &u)) return FALSE; memcpy(p, &u, 8); return TRUE; }
bool_t xdr_long(XDR* x, long* p) { unsigned v; if (x->x_op == XDR_ENCODE) { if (*p > 2147483647L || *p < -2147483648L) return FALSE; return put32(x, (unsigned)*p); } if (!get32(x, &v)) return FALSE; *p = (long)(int)v; return TRUE; }
bool_t xdr_u_long(XDR* x, u_long* p) { unsigned v; if (x->x_op == XDR_ENCODE) { if (*p > 0xffffffffUL) return FALSE; return put32(x, (unsigned)*p); } if (!get32(x, &v)) return FALSE; *p = v; return TRUE; }
bool_t xdr_opaque(XDR* x, char* p, u_int n) { if (!n) return TRUE; unsigned pad = (4 - n % 4) % 4; char z[4] = {0, 0, 0, 0}; if (x->x_op == XDR_ENCODE) { if (!x->x_ops->x_putbytes(x, p, n)) return FALSE; return pad ? x->x_ops->x_putbytes(x, z, pad) : TRUE; } if (!x->x_ops->x_getbytes(x, p, n)) return FALSE; return pad ? x->x_ops->x_getbytes(x, z, pad) : TRUE; }
}
#else
extern "C" {
#include <rpc/types.h>
#include <rpc/xdr.h>
}
#endif
#endif
