#ifndef VREST_HELPERS_ONLY
#include "sym.h"
#include "RESTProcess_base.h"
#include "vrest.h"
using namespace classdesc;
#include "vrestj.cd"
#include "vrest.cd"
#include "classdesc_epilogue.h"
using namespace vr;
#endif
using json5_parser::mValue; using json5_parser::mArray; using json5_parser::mObject;
static inline json_pack_t none() { return json_pack_t(); }
static inline json_pack_t args(std::initializer_list<mValue> l) { return json_pack_t(mArray(l)); }
// the argument itself, or a list of just that
static inline json_pack_t maybe(const mValue& x) { return sym_pick("as list", 0, 1) ? args({x}) : json_pack_t(x); }
static inline mValue pt(int x, int y) { mObject o; o["x"] = mValue(x); o["y"] = mValue(y); return mValue(o); }
static inline mValue entry(const mValue& k, const mValue& v) { mObject o; o["first"] = k; o["second"] = v; return mValue(o); }
static inline mValue ints(const std::vector<int>& v) { mArray a; for (int i : v) a.push_back(mValue(i)); return mValue(a); }
template <class T> static T val(const RPPtr& p) { CHECK(bool(p), "a result"); T t{}; json_pack_t j = p->asBuffer(); j >> t; return t; }
static inline bool isNull(const RPPtr& p) { return p && p->asBuffer().type() == RESTProcessType::null; }
template <class F> static bool throws(F f) { try { f(); } catch (const std::exception&) { return true; } return false; }
static inline bool bad(RESTProcess_t& r, const std::string& path, const json_pack_t& a) { return throws([&] { r.process(path, a); }); }
static inline std::vector<std::string> words(const RPPtr& p) { return val<std::vector<std::string>>(p); }
static inline std::string word(unsigned n) { return std::string(n, 'w'); }
static inline int small(const char* n) { return sym<signed char>(n); }
