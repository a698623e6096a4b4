// A stand-in for the json5_parser library (which is not part of this tree), written from its interface (that of json_spirit): the JSON value type.
#ifndef VJSON5_VALUE_H
#define VJSON5_VALUE_H
#include <string>
#include <vector>
#include <map>
#include <stdexcept>
#include <algorithm>
#include <boost/cstdint.hpp>
namespace json5_parser {
  enum Value_type { obj_type, array_type, str_type, bool_type, int_type, real_type, null_type };
  class mValue; typedef std::vector<mValue> mArray; typedef std::map<std::string, mValue> mObject;
  class mValue {
    Value_type t; bool u; union { bool b; boost::int64_t i; boost::uint64_t ui; double d; std::string* s; mArray* a; mObject* o; };
    void copy(const mValue&); void drop();
    void want(Value_type w) const { if (t != w) throw std::runtime_error("value type is not as expected"); }
  public:
    mValue() : t(null_type), u(false), i(0) {}
    mValue(const char* x) : t(str_type), u(false), s(new std::string(x)) {}
    mValue(const std::string& x) : t(str_type), u(false), s(new std::string(x)) {}
    mValue(const mObject& x); mValue(const mArray& x);
    mValue(bool x) : t(bool_type), u(false), i(0) { b = x; }
    mValue(int x) : t(int_type), u(false), i(x) {}
    mValue(boost::int64_t x) : t(int_type), u(false), i(x) {}
    mValue(boost::uint64_t x) : t(int_type), u(true), ui(x) {}
    mValue(double x) : t(real_type), u(false), d(x) {}
    mValue(const mValue& x) { copy(x); }
    ~mValue() { drop(); }
    mValue& operator=(const mValue& x) { mValue k(x); bool ku = k.u; Value_type kt = k.t; boost::uint64_t kv; __builtin_memcpy(&kv, &k.ui, 8); k.t = t; k.u = u; __builtin_memcpy(&k.ui, &ui, 8); t = kt; u = ku; __builtin_memcpy(&ui, &kv, 8); return *this; }
    bool operator==(const mValue& x) const; bool operator!=(const mValue& x) const { return !(*this == x); }
    Value_type type() const { return t; } bool is_uint64() const { return u; } bool is_null() const { return t == null_type; }
    const std::string& get_str() const { want(str_type); return *s; }
    const mObject& get_obj() const { want(obj_type); return *o; } mObject& get_obj() { want(obj_type); return *o; }
    const mArray& get_array() const { want(array_type); return *a; } mArray& get_array() { want(array_type); return *a; }
    bool get_bool() const { want(bool_type); return b; }
    boost::int64_t get_int64() const { want(int_type); return u ? boost::int64_t(ui) : i; }
    boost::uint64_t get_uint64() const { want(int_type); return u ? ui : boost::uint64_t(i); }
    int get_int() const { return int(get_int64()); }
    double get_real() const { if (t == int_type) return u ? double(ui) : double(i); want(real_type); return d; }
    template <class T> T get_value() const;
  };
  inline mValue::mValue(const mObject& x) : t(obj_type), u(false), o(new mObject(x)) {}
  inline mValue::mValue(const mArray& x) : t(array_type), u(false), a(new mArray(x)) {}
  inline void mValue::copy(const mValue& x) { t = x.t; u = x.u; ui = 0; switch (t) { case obj_type: o = new mObject(*x.o); break; case array_type: a = new mArray(*x.a); break; case str_type: s = new std::string(*x.s); break; default: __builtin_memcpy(&ui, &x.ui, 8); } }
  inline void mValue::drop() { switch (t) { case obj_type: delete o; break; case array_type: delete a; break; case str_type: delete s; break; default:; } }
  inline bool mValue::operator==(const mValue& x) const { if (t != x.t) return false; switch (t) { case obj_type: return *o == *x.o; case array_type: return *a == *x.a; case str_type: return *s == *x.s; case bool_type: return b == x.b; case int_type: return u == x.u && ui == x.ui; case real_type: return d == x.d; default: return true; } }
  template <> inline bool mValue::get_value<bool>() const { return get_bool(); }
  template <> inline int mValue::get_value<int>() const { return get_int(); }
  template <> inline boost::int64_t mValue::get_value<boost::int64_t>() const { return get_int64(); }
  template <> inline boost::uint64_t mValue::get_value<boost::uint64_t>() const { return get_uint64(); }
  template <> inline double mValue::get_value<double>() const { return get_real(); }
  template <> inline std::string mValue::get_value<std::string>() const { return get_str(); }
  template <> inline mObject mValue::get_value<mObject>() const { return get_obj(); }
  template <> inline mArray mValue::get_value<mArray>() const { return get_array(); }
}
#endif
