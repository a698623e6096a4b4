// C11: the XML reader: any input is either read as what it says or refused
//@ std: c++98
//@ cd: pack xml_pack typeName
//@ bounds: every document of up to 7 (quick) / 8 arbitrary bytes; structured documents with up to 3 (quick) / 4 items of content (text, entities, comments, CDATA, child elements, quotes), symbolic text characters, attributes and nesting to depth 3
#include "sym.h"
#include "xml_pack_base.h"
#include "xml_unpack_base.h"
#include "pack_stl.h"
#include "classdesc_epilogue.h"
#include <map>
using namespace classdesc;
typedef std::map<std::string, std::string> M;
static bool read(const std::string& d, xml_unpack_t& u) { try { std::istringstream i(d); u.parse(i); return true; } catch (xml_pack_error&) { return false; } }
static std::string get(xml_unpack_t& u, const char* k) { std::string v = "(none)"; u.unpack(k, v); return v; }
// every byte string: terminates, stays in memory, fails only by exception
enum { NB = TIER ? 8 : 7 };
ENTRY(anything) { std::string d = sym_string("d", sym_pick("n", 0, NB)); xml_unpack_t u; bool ok = read(d, u); sym_observe(ok, "accepted"); if (ok && d.find("<") == std::string::npos) CHECK(u.firstToken("") == u.endToken("\x7f"), "no elements, no contents"); } //@@ time=200/1200 weight=4
ENTRY(anything_in_element) { std::string d = "<a>" + sym_string("d", sym_pick("n", 0, TIER ? 6 : 5)) + "</a>"; xml_unpack_t u; sym_observe(read(d, u), "accepted"); CHECK(u.count("a") <= 1, "one root"); } //@@ time=200/1200 weight=4
ENTRY(anything_in_tag) { std::string d = "<a " + sym_string("d", sym_pick("n", 0, TIER ? 7 : 5)) + "></a>"; xml_unpack_t u; sym_observe(read(d, u), "accepted"); CHECK(u.count("a") <= 1, "one root"); } //@@ time=200/1200 weight=4
// truncation of a valid document is never taken for a complete one
ENTRY(truncated) { std::string d = "<?xml version='1.0'?>\n<!-- c -->\n<r a='1'><i>1</i><s>x &amp; y</s><t><![CDATA[<q>]]></t><e/></r>"; unsigned n = sym_pick("n", 30, 120); if (n >= d.size()) { xml_unpack_t u; CHECK(read(d, u), "the document is valid"); CHECK(get(u, "r.s") == "x & y" && get(u, "r.t") == "<q>" && u.count("r.i") == 1 && u.exists("r.e"), "contents"); sym_reach("whole"); return; } xml_unpack_t u; bool ok = read(d.substr(0, n), u); CHECK(!ok || n <= 33, "truncation is noticed"); sym_expect("whole"); }
// one piece of element content and the text it stands for
static void item(std::string& d, std::string& text, unsigned& kids) { char c = sym<char>("c"); 
  switch (sym_pick("item", 0, 9)) {
  case 0: sym_assume(c != '<' && c != '&'); d += c; text += c; break;
  case 1: { static const char* e[] = {"&lt;", "&gt;", "&amp;", "&apos;", "&quot;"}; static const char v[] = "<>&'\""; unsigned k = sym_pick("ent", 0, 4); d += e[k]; text += v[k]; break; }
  case 2: { unsigned k = sym_range("code", 1, 127); std::string n; n += (char)('0' + k / 100); n += (char)('0' + k / 10 % 10); n += (char)('0' + k % 10); d += "&#" + n + ";"; text += (char)k; break; }
  case 3: d += "<!--"; sym_assume(c != '-'); d += c; d += "\"<a>'"; d += "-->"; break;
  case 4: d += "<![CDATA["; sym_assume(c != ']'); d += c; d += "<&]]"; d += "]]>"; text += c; text += "<&]]"; break;
  case 5: d += "<k></k>"; kids++; break;
  case 6: d += "<k z='/>'/>"; kids++; break;
  case 7: d += "'"; text += "'"; break;
  case 9: d += "<?p "; d += c; d += "'<a>\" ?>"; break;
  case 8: { static const char hex[] = "0123456789abcdef"; unsigned k = sym_pick("hi", 0, 7); d += "&#x"; d += hex[k]; d += "E;"; text += (char)(k * 16 + 14); break; } } }
ENTRY(content) { std::string d = "<r>", text; unsigned kids = 0; for (unsigned i = 0, n = sym_pick("n", 0, TIER ? 4 : 3); i < n; i++) item(d, text, kids); d += "</r>"; xml_unpack_t u; CHECK(read(d, u), "well-formed content is accepted"); CHECK(u.count("r.k") == kids, "child elements"); std::string v = get(u, "r"); 
  if (kids == 0 || text.size()) CHECK(v == text, "text content"); } //@@ time=250/1200 weight=5
ENTRY(prolog) { // what precedes and follows the root element
  std::string d; for (unsigned i = 0, n = sym_pick("n", 0, 2); i < n; i++) { char c = sym<char>("c"); switch (sym_pick("what", 0, 5)) {
    case 0: d += "<?xml version='1.0'"; d += c; d += "?>"; break;
    case 1: d += "<?proc \"a>\" '>"; d += c; d += "\"?>\n"; break;
    case 2: sym_assume(c != '"'); d += "<!DOCTYPE r SYSTEM \"a>"; d += c; d += "<\">"; break;
    case 3: sym_assume(c != '"' && c != '<' && c != '>'); d += "<!DOCTYPE r [ <!ELEMENT i ANY> <!ENTITY "; d += c; d += " \"<>>\"> ]> "; break;
    case 4: sym_assume(c != '-'); d += "<!--\"'>"; d += c; d += "<a>-->"; break;
    case 5: sym_assume(isspace((unsigned char)c)); d += c; break; } }
  d += "<r><i>x</i></r>"; if (sym<bool>("tail")) d += "<!-- x > -->\n"; xml_unpack_t u; CHECK(read(d, u), "accepted"); CHECK(get(u, "r.i") == "x" && u.count("r.i") == 1 && u.count("r") == 1, "root element found"); }
ENTRY(attributes) { std::string v = sym_string("v", sym_pick("n", 0, 2)); char q = sym<bool>("q") ? '"' : '\''; bool sp = sym<bool>("sp"), empty = sym<bool>("empty"); for (unsigned i = 0; i < v.size(); i++) sym_assume(v[i] != q && v[i] != '<' && v[i] != '&'); std::string d = "<r><x a"; if (sp) d += " "; d += "="; if (sp) d += "\n"; d += q; d += v; d += q; d += " bb='&lt;>'"; if (empty) d += "/>"; else d += ">t</x>"; d += "<x/></r>"; xml_unpack_t u; CHECK(read(d, u), "accepted"); M m(u.firstToken(""), u.endToken("\x7f")); CHECK(m.count("r#0.x#0.a") && m["r#0.x#0.a"] == v, "attribute value"); CHECK(m["r#0.x#0.bb"] == "<>", "second attribute"); CHECK(u.count("r.x") == 2, "elements"); if (!empty) CHECK(get(u, "r.x") == "t", "content"); }
ENTRY(tags) { // end tags must match the element they close
  static const char* nm[] = {"a", "b", "ab", "a.b", "bab"}; unsigned i = sym_pick("outer", 0, 4), j = sym_pick("open", 0, 4), k = sym_pick("close", 0, 4); std::string d = std::string("<") + nm[i] + "><" + nm[j] + ">t</" + nm[k] + (sym<bool>("sp") ? " >" : ">") + "</" + nm[i] + ">"; xml_unpack_t u; bool ok = read(d, u); CHECK(ok || j != k, "a matching end tag is accepted"); CHECK(!ok || j == k || (k == 1 && j == 3), "a mismatched end tag is refused"); }
ENTRY(indexing) { // repeated and nested elements are counted and indexed in document order
  unsigned n = sym_pick("n", 0, 3), m = sym_pick("m", 0, 2); std::string d = "<r>"; int v[3][2]; for (unsigned i = 0; i < n; i++) { d += "<g>"; for (unsigned j = 0; j < m; j++) { unsigned x = sym_range("x", 0, 9); v[i][j] = x; d += "<e>"; d += (char)('0' + x); d += "</e>\n<f/>"; } d += "</g>"; } d += "</r>"; xml_unpack_t u; CHECK(read(d, u), "accepted"); CHECK(u.count("r.g") == n && u.exists("r.g") == (n > 0), "outer count"); for (unsigned i = 0; i < n; i++) { CHECK(u.count(idx("r.g", i) + ".e") == m, "inner count"); for (unsigned j = 0; j < m; j++) { int x = -1; u.unpack(idx(idx("r.g", i) + ".e", j), x); CHECK(x == v[i][j], "element by index"); } } CHECK(u.count("r.h") == 0, "no such element"); u.clear(); CHECK(!u.exists("r.g"), "cleared"); }
ENTRY(several) { // documents may be merged into one reader
  std::string a = sym_string("a", 1), b = sym_string("b", 1); sym_assume(isalnum((unsigned char)a[0]) && isalnum((unsigned char)b[0])); xml_unpack_t u; CHECK(read("<r>" + a + "</r>", u) && read("<q>" + b + "</q>", u), "accepted"); CHECK(get(u, "r") == a && get(u, "q") == b, "both are there"); }
ENTRY(bools) { static const char* t[] = {"1", "t", "T", "true", "TRUE", "True", "y", "Yes", "on", " ON\n"}; static const char* f[] = {"0", "f", "false", "n", "no", "off", "truth", "11"}; unsigned k = sym_pick("k", 0, 17); std::string d = std::string("<b>") + (k < 10 ? t[k] : f[k - 10]) + "</b>"; xml_unpack_t u; CHECK(read(d, u), "accepted"); bool b = sym<bool>("old"); u.unpack("b", b); CHECK(b == (k < 10), "truth value"); }
ENTRY(numbers) { std::string s = sym_string("s", sym_pick("n", 1, 3)); bool neg = s[0] == '-'; int v = 0; bool ok = s.size() > (neg ? 1u : 0u); for (unsigned i = neg; i < s.size(); i++) { ok &= s[i] >= '0' && s[i] <= '9'; v = v * 10 + (s[i] - '0'); } sym_assume(ok); xml_unpack_t u; CHECK(read("<i> " + s + "\n</i>", u), "accepted"); int x = 5; u.unpack("i", x); CHECK(x == (neg ? -v : v), "number"); } //@@ time=200
