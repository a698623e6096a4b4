// stand-in for json5_parser (see json5_parser_value.h): reads JSON
#ifndef VJSON5_READER_H
#define VJSON5_READER_H
#include "json5_parser_value.h"
#include <istream>
namespace json5_parser {
  template <class I> void vblank(I& i, I e) { while (i != e && (*i == ' ' || *i == '\n' || *i == '\t' || *i == '\r')) ++i; }
  template <class I> bool vis(I& i, I e, const char* w) { I k = i; for (; *w; ++w, ++k) if (k == e || *k != *w) return false; i = k; return true; }
  template <class I> bool vtext(I& i, I e, std::string& s) { if (i == e || *i != '"') return false; for (++i; i != e && *i != '"'; ++i) { if (*i == '\\') { ++i; if (i == e) return false; s += *i == 'n' ? '\n' : *i; } else s += *i; } if (i == e) return false; ++i; return true; }
  template <class I> bool vvalue(I& i, I e, mValue& v, int depth) { vblank(i, e); if (i == e || depth > 20) return false; char c = *i;
    if (c == '"') { std::string s; if (!vtext(i, e, s)) return false; v = mValue(s); return true; }
    if (c == '[') { mArray a; ++i; vblank(i, e); if (vis(i, e, "]")) { v = mValue(a); return true; } while (true) { mValue x; if (!vvalue(i, e, x, depth + 1)) return false; a.push_back(x); vblank(i, e); if (vis(i, e, "]")) { v = mValue(a); return true; } if (!vis(i, e, ",")) return false; } }
    if (c == '{') { mObject o; ++i; vblank(i, e); if (vis(i, e, "}")) { v = mValue(o); return true; } while (true) { vblank(i, e); std::string k; mValue x; if (!vtext(i, e, k)) return false; vblank(i, e); if (!vis(i, e, ":") || !vvalue(i, e, x, depth + 1)) return false; o[k] = x; vblank(i, e); if (vis(i, e, "}")) { v = mValue(o); return true; } if (!vis(i, e, ",")) return false; } }
    if (vis(i, e, "true")) { v = mValue(true); return true; } if (vis(i, e, "false")) { v = mValue(false); return true; } if (vis(i, e, "null")) { v = mValue(); return true; }
    bool neg = vis(i, e, "-"); if (i == e || *i < '0' || *i > '9') return false; boost::uint64_t n = 0; for (; i != e && *i >= '0' && *i <= '9'; ++i) n = n * 10 + (*i - '0');
    if (i != e && *i == '.') { double d = double(n), f = 1; boost::uint64_t k = 0, p = 1; for (++i; i != e && *i >= '0' && *i <= '9'; ++i) { k = k * 10 + (*i - '0'); p *= 10; } d += double(k) / double(p) * f; v = mValue(neg ? -d : d); return true; }
    if (neg) v = mValue(boost::int64_t(boost::uint64_t(0) - n)); else if (n >> 63) v = mValue(n); else v = mValue(boost::int64_t(n)); return true; }
  template <class I> bool read_range(I& i, I e, mValue& v) { return vvalue(i, e, v, 0); }
  inline bool read_string(const std::string& s, mValue& v) { std::string::const_iterator i = s.begin(); return read_range(i, s.end(), v); }
  inline bool read_stream(std::istream& is, mValue& v) { std::string s; char c; while (is.get(c)) s += c; return read_string(s, v); }
}
#endif
