// an XML schema, as far as needed here, and the documents it accepts: written from the XML Schema recommendation
#ifndef VXSDCHECK_H
#define VXSDCHECK_H
#include <string>
#include <vector>
#include <map>
struct XEl { std::string name, type; bool opt; };
struct XTy { bool simple, seq, any, mixed; long smin, smax; std::vector<XEl> els; std::vector<std::string> values; XTy() : simple(false), seq(false), any(false), mixed(false), smin(1), smax(1) {} };
struct Tag { std::string name; std::map<std::string, std::string> at; bool close, empty; };
inline bool ncname(const std::string& s) { if (s.empty()) return false; for (size_t i = 0; i < s.size(); i++) { char c = s[i]; bool al = (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_'; if (!al && (i == 0 || !((c >= '0' && c <= '9') || c == '-' || c == '.'))) return false; } return true; }
// the tag at s[i]=='<'; leaves i behind it
inline bool tag(const std::string& s, size_t& i, Tag& t) { t.at.clear(); t.close = t.empty = false; t.name.clear(); if (i >= s.size() || s[i] != '<') return false; i++; if (i < s.size() && s[i] == '/') { t.close = true; i++; } while (i < s.size() && s[i] != ' ' && s[i] != '\n' && s[i] != '>' && s[i] != '/' && s[i] != '<') t.name += s[i++];
  while (i < s.size()) { while (i < s.size() && (s[i] == ' ' || s[i] == '\n')) i++; if (i >= s.size()) return false; if (s[i] == '>') { i++; return !t.name.empty(); } if (s[i] == '/' || s[i] == '?') { t.empty = true; i++; continue; } if (t.close) return false; std::string a, v; while (i < s.size() && s[i] != '=') a += s[i++]; i++; if (i >= s.size() || s[i] != '"') return false; i++; while (i < s.size() && s[i] != '"' && s[i] != '<') v += s[i++]; if (i >= s.size() || s[i] != '"' || t.at.count(a)) return false; i++; t.at[a] = v; } return false; }
struct Schema { std::map<std::string, XTy> types; std::string root, rootType, ns; std::string bad;
  bool fail(const std::string& w) { if (bad.empty()) bad = w; return false; }
  static bool builtin(const std::string& t) { static const char* b[] = {"boolean", "string", "short", "int", "long", "unsignedShort", "unsignedInt", "unsignedLong", "float", "double"}; for (int i = 0; i < 10; i++) if (t == std::string("xs:") + b[i]) return true; return false; }
  static bool nat(const std::string& s, long& v) { if (s == "unbounded") { v = -1; return true; } if (s.empty()) return false; v = 0; for (size_t i = 0; i < s.size(); i++) { if (s[i] < '0' || s[i] > '9') return false; v = v * 10 + s[i] - '0'; } return true; }
  bool only(const Tag& t, const char* a) { std::string l = std::string(",") + a + ","; for (std::map<std::string, std::string>::const_iterator i = t.at.begin(); i != t.at.end(); ++i) if (l.find("," + i->first + ",") == std::string::npos) return fail("attribute " + i->first); return true; }
  bool parse(const std::string& s) { size_t i = 0; Tag t; if (!tag(s, i, t) || t.name != "?xml") return fail("xml declaration"); std::vector<std::string> open; XTy cur; std::string name; bool done = false;
    while (true) { while (i < s.size() && (s[i] == ' ' || s[i] == '\n')) i++; if (i == s.size()) break; if (s[i] != '<' || !tag(s, i, t)) return fail("ill formed"); if (done) return fail("text after the schema");
      std::string in = open.empty() ? "" : open.back();
      if (t.close) { if (open.empty() || in != t.name) return fail("end tag " + t.name); open.pop_back(); if (t.name == "xs:complexType" || t.name == "xs:simpleType") { if (types.count(name)) return fail("type defined twice " + name); types[name] = cur; } if (t.name == "xs:schema") done = true; continue; }
      if (t.name == "xs:schema") { if (!open.empty()) return fail("schema"); if (t.at["xmlns:xs"] != "http://www.w3.org/2001/XMLSchema" || t.at["xmlns:tns"] != t.at["targetNamespace"] || t.at["elementFormDefault"] != "qualified") return fail("namespaces"); ns = t.at["targetNamespace"]; }
      else if (t.name == "xs:complexType" || t.name == "xs:simpleType") { if (in != "xs:schema") return fail("type in " + in); if (!only(t, "name,mixed")) return false; cur = XTy(); cur.simple = t.name == "xs:simpleType"; cur.mixed = t.at["mixed"] == "true"; name = t.at["name"]; if (!ncname(name)) return fail("type name " + name); }
      else if (t.name == "xs:sequence") { if (in != "xs:complexType" || cur.seq) return fail("sequence in " + in); if (!only(t, "minOccurs,maxOccurs")) return false; cur.seq = true; if (t.at.count("minOccurs") && (!nat(t.at["minOccurs"], cur.smin) || cur.smin < 0)) return fail("minOccurs"); if (t.at.count("maxOccurs") && !nat(t.at["maxOccurs"], cur.smax)) return fail("maxOccurs"); if (cur.smax >= 0 && cur.smin > cur.smax) return fail("occurs"); }
      else if (t.name == "xs:element") { if (!only(t, "name,type,minOccurs")) return false; XEl e; e.name = t.at["name"]; e.type = t.at["type"]; e.opt = t.at.count("minOccurs") && t.at["minOccurs"] == "0"; if (t.at.count("minOccurs") && !e.opt) return fail("minOccurs"); if (!ncname(e.name)) return fail("element name " + e.name); if (in == "xs:schema") { if (!root.empty()) return fail("two roots"); root = e.name; rootType = e.type; } else if (in == "xs:sequence") { if (cur.any) return fail("element after any"); for (size_t k = 0; k < cur.els.size(); k++) if (cur.els[k].name == e.name && (cur.els[k].opt || cur.els[k].type != e.type)) return fail("ambiguous " + e.name); cur.els.push_back(e); } else return fail("element in " + in); }
      else if (t.name == "xs:any") { if (in != "xs:sequence" || t.at["minOccurs"] != "0" || t.at["namespace"] != "##other") return fail("any in " + in); cur.any = true; }
      else if (t.name == "xs:restriction") { if (in != "xs:simpleType" || t.at["base"] != "xs:string") return fail("restriction in " + in); }
      else if (t.name == "xs:enumeration") { if (in != "xs:restriction") return fail("enumeration in " + in); cur.values.push_back(t.at["value"]); }
      else return fail("tag " + t.name);
      if (!t.empty) open.push_back(t.name); else if (t.name == "xs:complexType" || t.name == "xs:simpleType") types[name] = cur; }
    if (!done) return fail("unfinished"); if (root.empty()) return fail("no root element"); if (!known(rootType)) return fail("type of the root " + rootType);
    for (std::map<std::string, XTy>::iterator j = types.begin(); j != types.end(); ++j) for (size_t k = 0; k < j->second.els.size(); k++) if (!known(j->second.els[k].type)) return fail("undefined type " + j->second.els[k].type); return true; }
  bool known(const std::string& t) const { return t.compare(0, 4, "tns:") == 0 ? types.count(t.substr(4)) != 0 : builtin(t); }
  // what a type consists of, in one line
  std::string show(const std::string& n) { std::map<std::string, XTy>::iterator j = types.find(n); if (j == types.end()) return "none"; XTy& t = j->second; std::string r; for (size_t k = 0; k < t.els.size(); k++) r += (k ? " " : "") + t.els[k].name + (t.els[k].opt ? "?" : "") + ":" + t.els[k].type; for (size_t k = 0; k < t.values.size(); k++) r += (k ? "|" : "") + t.values[k]; if (t.mixed) r += " mixed"; if (t.smax != 1) r += t.smax < 0 ? " *" : " " + std::string(1, char('0' + t.smax)); return r; }
  // ---- documents
  static bool blank(const std::string& s) { for (size_t i = 0; i < s.size(); i++) if (s[i] != ' ' && s[i] != '\n') return false; return true; }
  static bool integer(const std::string& s, bool sgn, const char* lo, const char* hi) { size_t i = 0; bool neg = false; if (i < s.size() && s[i] == '-') { if (!sgn) return false; neg = true; i++; } size_t n = s.size() - i; if (!n) return false; for (size_t k = i; k < s.size(); k++) if (s[k] < '0' || s[k] > '9') return false; std::string m = neg ? lo : hi; return n < m.size() || (n == m.size() && s.compare(i, n, m) <= 0); }
  static bool simple(const std::string& t, const std::string& v) { if (t == "xs:string") return true; if (t == "xs:boolean") return v == "true" || v == "false" || v == "1" || v == "0"; if (t == "xs:short") return integer(v, true, "32768", "32767"); if (t == "xs:int") return integer(v, true, "2147483648", "2147483647"); if (t == "xs:long") return integer(v, true, "9223372036854775808", "9223372036854775807"); if (t == "xs:unsignedShort") return integer(v, false, "", "65535"); if (t == "xs:unsignedInt") return integer(v, false, "", "4294967295"); if (t == "xs:unsignedLong") return integer(v, false, "", "18446744073709551615"); return !v.empty(); }
  // element at s[i]: name, then its type decides
  bool element(const std::string& s, size_t& i, const std::string& name, const std::string& type, bool isroot) { Tag t; if (!tag(s, i, t) || t.close || t.name != name) return fail("expected " + name); if (isroot) { if (t.at.size() != 1 || t.at["xmlns"] != ns) return fail("namespace of the root"); } else if (!t.at.empty()) return fail("attributes");
    XTy cplx; bool builtn = builtin(type); if (!builtn) cplx = types[type.substr(4)];
    if (builtn || cplx.simple) { std::string v; if (!t.empty) { while (i < s.size() && s[i] != '<') v += s[i++]; Tag e; if (!tag(s, i, e) || !e.close || e.name != name) return fail("end of " + name); } if (builtn) return simple(type, v) || fail("value of " + name); for (size_t k = 0; k < cplx.values.size(); k++) if (cplx.values[k] == v) return true; return fail("value of " + name); }
    if (t.empty) return cplx.smin == 0 || accepts(cplx) || fail("nothing in " + name);
    for (long r = 0; ; r++) { if (!text(s, i, cplx.mixed)) return false; if (s.compare(i, 2, "</") == 0) { if (r < cplx.smin && !(r == 0 && cplx.smin == 1 && accepts(cplx))) return fail("too few in " + name); break; } if (cplx.smax >= 0 && r >= cplx.smax) return fail("too many in " + name); size_t start = i;
      for (size_t k = 0; k < cplx.els.size(); k++) { if (!text(s, i, cplx.mixed)) return false; Tag p; size_t j = i; bool is = tag(s, j, p) && !p.close && p.name == cplx.els[k].name; if (!is) { if (cplx.els[k].opt) continue; return fail("missing " + cplx.els[k].name); } if (!element(s, i, cplx.els[k].name, cplx.els[k].type, false)) return false; }
      if (i == start) return fail("unexpected in " + name); }
    Tag e; return (tag(s, i, e) && e.close && e.name == name) || fail("end of " + name); }
  static bool accepts(const XTy& t) { for (size_t k = 0; k < t.els.size(); k++) if (!t.els[k].opt) return false; return true; }
  bool text(const std::string& s, size_t& i, bool mixed) { while (i < s.size() && s[i] != '<') { if (!mixed && s[i] != ' ' && s[i] != '\n') return fail("text"); i++; } return i < s.size() || fail("unfinished"); }
  bool valid(const std::string& s) { size_t i = 0; while (i < s.size() && (s[i] == ' ' || s[i] == '\n')) i++; if (!element(s, i, root, rootType, true)) return false; return blank(s.substr(i)) || fail("text at the end"); } };
#endif
