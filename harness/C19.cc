// C19: Java class files: big endian form, round trip, references to the constant pool, hostile files
//@ std: c++98
//@ cd: pack dump
//@ gen: sym.h -> javaClass.cd : -nodef -i javaClass.h pack unpack dump
//@ bounds: all values of u1, u2, u4, u8; class files of up to 2 (thorough 3) constants of every kind with arbitrary contents, strings of up to 2 characters (and one of 40000), up to 2 interfaces, fields, methods and attributes with up to 2 bytes; all byte strings of up to 10 (thorough 14) bytes as class files or parts of such
#include "sym.h"
#include <cstring>
#include "pack_base.h"
#include "pack_stl.h"
#include "javaClass.h"
#include "javaClass_serialisation.h"
#include "javaClassDescriptor.h"
#include "javaClass.cd"
#include "classdesc_epilogue.h"
using namespace classdesc;
enum { NC = TIER ? 3 : 2, NH = TIER ? 14 : 10 };
// what a class file must look like, written independently (JVM specification, chapter 4)
struct W { std::string s; void u(unsigned long long v, int n) { for (int i = n - 1; i >= 0; i--) s += char(v >> 8 * i); } void str(const std::string& x) { u(x.size(), 2); s += x; } };
static bool same(const pack_t& b, const W& w) { return b.size() == w.s.size() && !memcmp(b.data(), w.s.data(), b.size()); }
static bool left(const pack_t& b) { return b.pos() != b.size(); }
ENTRY(words) { unsigned short a = sym<unsigned short>("a"); unsigned b = sym<unsigned>("b"); unsigned long long c = sym<unsigned long long>("c"); u1 e = sym<u1>("e"), e2 = 1; u2 x, x2; u4 y, y2; u8 z, z2; x.v = a; y = b; z.v = c; x2.v = 7; y2 = 8; z2.v = 9; pack_t p; p << x << y << z << e; W w; w.u(a, 2); w.u(b, 4); w.u(c, 8); w.u(e, 1); CHECK(same(p, w), "big endian"); p >> x2 >> y2 >> z2 >> e2; CHECK(x2.v == a && y2.v == b && z2.v == c && e2 == e && !left(p), "round trip"); CHECK(x == x2 && y == y2 && z == z2, "equality"); x2.v ^= 256; y2.v ^= 65536; z2.v ^= 1ull << 40; CHECK(!(x == x2) && !(y == y2) && !(z == z2), "inequality"); }
ENTRY(word_values) { unsigned short a = sym<unsigned short>("a"); u2 x(a), y; y = a; CHECK(x.v == a && y.v == a && size_t(x) == a && int(x) == a, "16 bit values are unsigned"); x = 0; x |= a; CHECK(x.v == a, "or"); x &= 255; CHECK(x.v == (a & 255), "and"); ++y; CHECK(y.v == (unsigned short)(a + 1), "increment"); unsigned b = sym<unsigned>("b"); u4 z(b); CHECK(unsigned(z) == b, "32 bit values"); unsigned long long c = sym<unsigned long long>("c"); u8 v(c), v2; v2 = c; CHECK(v.v == c && (unsigned long long)v == c && v2.v == c, "64 bit values"); }
static std::string str(const char* n, unsigned max = 2) { return sym_string(n, sym_pick("len", 0, max)); }
// constants; long and double take two places in the pool
static int constant(ConstantPoolVector& p, W& w) { unsigned a = sym<unsigned short>("a"), b = sym<unsigned short>("b"), i = sym<unsigned>("i"); unsigned long long l = sym<unsigned long long>("l"); u2 A, B; A.v = a; B.v = b; u8 L; L.v = l;
  switch (sym_pick("kind", 0, 5)) {
    case 0: { u1 t = sym_pick("t", 0, 1) ? JVM_CONSTANT_Class : JVM_CONSTANT_String; p.push_back(cp_info(t, A)); w.u(t, 1); w.u(a, 2); return 1; }
    case 1: { u1 t = sym_pick("t", 0, 2); t = t == 0 ? JVM_CONSTANT_Fieldref : t == 1 ? JVM_CONSTANT_Methodref : JVM_CONSTANT_InterfaceMethodref; p.push_back(cp_info(t, Ref(A, B))); w.u(t, 1); w.u(a, 2); w.u(b, 2); return 1; }
    case 2: { u1 t = sym_pick("t", 0, 1) ? JVM_CONSTANT_Integer : JVM_CONSTANT_Float; p.push_back(cp_info(t, u4(i))); w.u(t, 1); w.u(i, 4); return 1; }
    case 3: { u1 t = sym_pick("t", 0, 1) ? JVM_CONSTANT_Long : JVM_CONSTANT_Double; p.push_back(cp_info(t, L)); p.push_back(cp_info()); w.u(t, 1); w.u(l, 8); return 2; }
    case 4: { p.push_back(cp_info(JVM_CONSTANT_NameAndType, NameAndTypeInfo(A, B))); w.u(JVM_CONSTANT_NameAndType, 1); w.u(a, 2); w.u(b, 2); return 1; }
    default: { std::string s = str("s"); p.push_back(cp_info(JVM_CONSTANT_Utf8, s)); w.u(JVM_CONSTANT_Utf8, 1); w.str(s); return 1; } } }
ENTRY(constants) { ConstantPoolVector p(1), q(sym_pick("old", 0, 2) ? 3 : 0); W e, w; unsigned n = sym_pick("n", 0, NC); for (unsigned i = 0; i < n; i++) constant(p, e); w.u(p.size(), 2); w.s += e.s; pack_t b; b << p; CHECK(same(b, w), "the pool as specified"); if (q.size() > 1) q[1].set(JVM_CONSTANT_Utf8, std::string("old")); b >> q; CHECK(q.size() == p.size() && !left(b), "everything is read"); bool eq = true; for (unsigned i = 1; i < p.size(); i++) eq = eq && p[i] == q[i] && q[i].tag() == p[i].tag(); CHECK(eq, "constants round trip"); pack_t c; c << q; CHECK(c == b, "the same when written again"); }
ENTRY(constant_equality) { ConstantPoolVector p(0), q(0); W a, b; constant(p, a); constant(q, b); CHECK((p[0] == q[0]) == (a.s == b.s), "constants are equal exactly if their contents are"); }
static void attrs(JavaClassVector<attribute_info>& v, W& w, unsigned n) { w.u(n, 2); for (unsigned i = 0; i < n; i++) { attribute_info a; unsigned short x = sym<unsigned short>("an"); a.attribute_name_index.v = x; unsigned k = sym_pick("ni", 0, 2); w.u(x, 2); w.u(k, 4); for (unsigned j = 0; j < k; j++) { u1 c = sym<u1>("ab"); a.info.push_back(c); w.u(c, 1); } v.push_back(a); } }
template <class M> static void member(JavaClassVector<M>& v, W& w, unsigned na) { M m; unsigned short x = sym<unsigned short>("acc"), y = sym<unsigned short>("name"), z = sym<unsigned short>("desc"); m.access_flags.v = x; m.name_index.v = y; m.descriptor_index.v = z; w.u(x, 2); w.u(y, 2); w.u(z, 2); attrs(m.attributes, w, na); v.push_back(m); }
static void file(ClassFile& f, W& w) { unsigned m = sym<unsigned>("magic"); unsigned short v[5]; for (int i = 0; i < 5; i++) v[i] = sym<unsigned short>("v"); f.magic = m; f.minor_version.v = v[0]; f.major_version.v = v[1]; w.u(m, 4); w.u(v[0], 2); w.u(v[1], 2); unsigned which = sym_pick("which", 0, 4); W e; if (which == 0) constant(f.constant_pool, e); w.u(f.constant_pool.size(), 2); w.s += e.s;
  f.access_flags.v = v[2]; f.this_class.v = v[3]; f.super_class.v = v[4]; for (int i = 2; i < 5; i++) w.u(v[i], 2);
  unsigned ni = which == 1 ? sym_pick("k", 1, 2) : 0; w.u(ni, 2); for (unsigned i = 0; i < ni; i++) { u2 x; x.v = sym<unsigned short>("if"); f.interfaces.push_back(x); w.u(x.v, 2); }
  unsigned nf = which == 2 ? sym_pick("k", 1, 2) : which == 4, nm = which == 3 ? sym_pick("k", 1, 2) : which == 4; w.u(nf, 2); for (unsigned i = 0; i < nf; i++) member(f.fields, w, i == 0); w.u(nm, 2); for (unsigned i = 0; i < nm; i++) member(f.methods, w, nm == 2 ? i : 2); attrs(f.attributes, w, which == 4); }
ENTRY(class_file) { ClassFile f, g; W w; file(f, w); pack_t b; b << f; CHECK(same(b, w), "the class file as specified"); if (sym<bool>("used")) { g.addMethod("m", "()V"); g.interfaces.push_back(u2()); g.attributes.resize(1); g.attributes[0].info.push_back(1); } b >> g; CHECK(!left(b) && f == g, "round trip"); pack_t c; c << g; CHECK(c == b, "the same when written again"); }
ENTRY(file_equality) { ClassFile f, g; W w; f.addMethod("a", "()V"); f.fields.resize(1); f.attributes.resize(1); f.attributes[0].info.resize(2); f.interfaces.resize(1); f.methods[0].attributes.resize(1); g = f; g.constant_pool[1].set(JVM_CONSTANT_Utf8, std::string("a")); CHECK(f == g, "equal"); unsigned short x = sym<unsigned short>("x"), y = sym<unsigned short>("y"); bool expect = x == y;
  switch (sym_pick("where", 0, 16)) { case 0: f.magic = x; g.magic = y; break; case 1: f.minor_version.v = x; g.minor_version.v = y; break; case 2: f.major_version.v = x; g.major_version.v = y; break; case 3: f.access_flags.v = x; g.access_flags.v = y; break; case 4: f.this_class.v = x; g.this_class.v = y; break; case 5: f.super_class.v = x; g.super_class.v = y; break; case 6: f.interfaces[0].v = x; g.interfaces[0].v = y; break; case 7: f.fields[0].access_flags.v = x; g.fields[0].access_flags.v = y; break; case 8: f.fields[0].name_index.v = x; g.fields[0].name_index.v = y; break; case 9: f.fields[0].descriptor_index.v = x; g.fields[0].descriptor_index.v = y; break; case 10: f.methods[0].access_flags.v = x; g.methods[0].access_flags.v = y; break; case 11: f.methods[0].name_index.v = x; g.methods[0].name_index.v = y; break; case 12: f.methods[0].descriptor_index.v = x; g.methods[0].descriptor_index.v = y; break; case 13: f.methods[0].attributes[0].attribute_name_index.v = x; g.methods[0].attributes[0].attribute_name_index.v = y; break; case 14: f.attributes[0].info[1] = x; g.attributes[0].info[1] = y; expect = u1(x) == u1(y); break; case 15: f.constant_pool[2].set(JVM_CONSTANT_Integer, u4(x)); g.constant_pool[2].set(JVM_CONSTANT_Integer, u4(y)); break; case 16: g.methods.push_back(method_info()); expect = false; break; }
  CHECK((f == g) == expect, "class files are equal exactly if all parts are"); }
ENTRY(long_string) { std::string s(40000, 'x'), t; s[39999] = sym<char>("c"); pack_t b; b << s << u2(5); CHECK(b.size() == 40004 && (unsigned char)b.data()[0] == 40000 / 256 && (unsigned char)b.data()[1] == 40000 % 256, "a long string"); b >> t; u2 x; b >> x; CHECK(t == s && x.v == 5, "a long string round trips"); }
ENTRY(many) { ConstantPoolVector p(33000), q; unsigned short a = sym<unsigned short>("a"); u2 A; for (unsigned i = 1; i < p.size(); i++) p[i].set(JVM_CONSTANT_Class, A); A.v = a; p[32999].set(JVM_CONSTANT_Class, A); pack_t b; b << p; CHECK(b.size() == 2 + 3 * 32999, "a large pool"); b >> q; CHECK(q.size() == 33000 && q[32999].get<u2>().v == a && !left(b), "a large pool round trips"); } //@@ time=200 steps=2000000000
ENTRY(methods) { ClassFile f; unsigned n = sym_pick("n", 0, 2); std::string name[2], desc[2]; if (sym<bool>("c")) { f.constant_pool.push_back(cp_info(JVM_CONSTANT_Utf8, std::string("x"))); } for (unsigned i = 0; i < n; i++) { name[i] = str("name"); desc[i] = str("desc"); f.addMethod(name[i], desc[i]); } if (sym<bool>("native")) { f.makeNative(); CHECK(f.access_flags.v == 1, "public class"); for (unsigned i = 0; i < n; i++) CHECK(f.methods[i].access_flags.v == 0x101, "public native"); } else { f.makeInterface(); CHECK(f.access_flags.v == 0x601, "public abstract interface"); for (unsigned i = 0; i < n; i++) CHECK(f.methods[i].access_flags.v == 0x401, "public abstract"); }
  CHECK(f.methods.size().v == n, "one method each"); for (unsigned i = 0; i < n; i++) { unsigned a = f.methods[i].name_index.v, b = f.methods[i].descriptor_index.v; CHECK(a >= 1 && a < f.constant_pool.size() && b >= 1 && b < f.constant_pool.size() && a != b, "valid references"); CHECK(f.constant_pool[a].tag() == JVM_CONSTANT_Utf8 && f.constant_pool[a].get<std::string>() == name[i] && f.constant_pool[b].tag() == JVM_CONSTANT_Utf8 && f.constant_pool[b].get<std::string>() == desc[i], "names and descriptors"); } }
struct J { int a(short, long, std::string) { return 0; } void b() {} bool c(const std::string&, double, float) const { return 0; } static unsigned short d(unsigned, bool) { return 0; } };
ENTRY(descriptors) { CHECK(descriptor<int>() == "I" && descriptor<bool>() == "Z" && descriptor<short>() == "S" && descriptor<long>() == "J" && descriptor<float>() == "F" && descriptor<double>() == "D" && descriptor<unsigned>() == "I" && descriptor<long long>() == "J", "types"); CHECK((descriptor<int (J::*)(short, long, std::string)>() == "(SJLjava/lang/String;)I"), "method"); CHECK((descriptor<void (J::*)()>() == "()V"), "no arguments"); CHECK((descriptor<bool (J::*)(const std::string&, double, float) const>() == "(Ljava/lang/String;DF)Z"), "const method"); CHECK((descriptor<unsigned short (*)(unsigned, bool)>() == "(IZ)S"), "static"); CHECK(arg_description(&J::a) == "SJLjava/lang/String;" && arg_description(&J::b) == "", "arguments"); }
// untrusted files
ENTRY(hostile) { sym_alloc_limit(200); long before = sym_live(); { unsigned n = sym_pick("n", 0, NH); pack_t b; for (unsigned i = 0; i < n; i++) b << sym<char>("c"); unsigned what = sym_pick("what", 0, 4); try { switch (what) { case 0: { ConstantPoolVector p; b >> p; break; } case 1: { JavaClassVector<attribute_info> a; b >> a; break; } case 2: { JavaClassVector<method_info> m; b >> m; break; } case 3: { std::string s; b >> s; CHECK(s.size() + 2 <= n, "no more than is there"); break; } case 4: { cp_info c; b >> c; CHECK(c.tag() >= 1 && c.tag() <= 12 && c.tag() != 2, "a constant of unknown kind is refused"); break; } } } catch (std::bad_alloc&) { CHECK(what == 0 || what >= 3, "memory is only taken for what is there"); } catch (std::exception&) {} CHECK(b.pos() <= b.size(), "position within the data"); } CHECK(sym_live() == before, "nothing leaks"); } //@@ time=300
ENTRY(truncated) { ClassFile f, g; W w; file(f, w); sym_alloc_limit(4096); pack_t b, c; b << f; unsigned cut = sym_pick("cut", 0, 60); if (cut >= b.size()) return; c.packraw(b.data(), cut); bool t = false; try { c >> g; } catch (std::exception&) { t = true; } CHECK(t, "a truncated file is refused"); sym_reach("cut"); sym_expect("cut"); } //@@ time=300
ENTRY(unknown) { pack_t b; u1 t = sym<u1>("t"); sym_assume(t == 0 || t == 2 || t > 12); b << t << 5 << 6; cp_info c; bool r = false; try { b >> c; } catch (std::exception&) { r = true; } CHECK(r, "constants of kinds not supported are refused, as their extent is not known"); }
