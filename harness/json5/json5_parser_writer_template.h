// stand-in for json5_parser (see json5_parser_value.h): JSON text (floating point numbers by their value times 2^10, exact multiples only)
#ifndef VJSON5_WRITER_H
#define VJSON5_WRITER_H
#include "json5_parser_value.h"
#include <ostream>
namespace json5_parser {
  enum Output_options { none = 0, pretty_print = 1, raw_utf8 = 2, remove_trailing_zeros = 4, single_line_arrays = 8 };
  inline void vput(std::string& r, boost::uint64_t v) { char b[24]; int n = 24; do { b[--n] = '0' + char(v % 10); v /= 10; } while (v); r.append(b + n, 24 - n); }
  inline void vput(std::string& r, const std::string& s) { r += '"'; for (size_t i = 0; i < s.size(); i++) { char c = s[i]; if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else r += c; } r += '"'; }
  inline void vput(std::string& r, const mValue& v) { switch (v.type()) {
    case null_type: r += "null"; break; case bool_type: r += v.get_bool() ? "true" : "false"; break; case str_type: vput(r, v.get_str()); break;
    case int_type: if (!v.is_uint64() && v.get_int64() < 0) { r += '-'; vput(r, boost::uint64_t(0) - v.get_uint64()); } else vput(r, v.get_uint64()); break;
    case real_type: { double d = v.get_real(); if (!(d > -1e9 && d < 1e9)) { r += d != d ? "NaN" : d > 0 ? "Infinity" : "-Infinity"; break; } boost::int64_t k = boost::int64_t(d * 1024); if (k < 0) { r += '-'; k = -k; } boost::uint64_t f = boost::uint64_t(k % 1024) * 9765625u; vput(r, boost::uint64_t(k / 1024)); r += '.'; char b[11]; for (int i = 10; i-- > 0; f /= 10) b[i] = '0' + char(f % 10); int n = 10; while (n > 1 && b[n - 1] == '0') n--; r.append(b, n); break; }
    case array_type: { r += '['; const mArray& a = v.get_array(); for (size_t i = 0; i < a.size(); i++) { if (i) r += ','; vput(r, a[i]); } r += ']'; break; }
    case obj_type: { r += '{'; const mObject& o = v.get_obj(); for (mObject::const_iterator i = o.begin(); i != o.end(); ++i) { if (i != o.begin()) r += ','; vput(r, i->first); r += ':'; vput(r, i->second); } r += '}'; break; } } }
  inline std::string write_string(const mValue& v, unsigned = 0) { std::string r; vput(r, v); return r; }
  inline void write_stream(const mValue& v, std::ostream& os, unsigned = 0) { std::string r; vput(r, v); os.write(r.data(), r.size()); }
}
#endif
