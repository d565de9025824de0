#include "vc.hh"
#include "gearimpl/GearParametersImpl.h"
using namespace gear;
struct Ref { std::map<std::string, int> i; std::map<std::string, double> d; std::map<std::string, std::string> s; std::map<std::string, IntVec> iv; std::map<std::string, DoubleVec> dv; std::map<std::string, StringVec> sv; };
template <class M> static StringVec keysOf(const M& m) { StringVec r; for (auto& p : m) r.push_back(p.first); return r; }
template <class M, class F> static void cmp(const char* what, const M& m, const std::string& k, F get) {
  typename M::mapped_type v; Out o = outcome([&] { v = get(k); }); auto it = m.find(k);
  if (it == m.end()) CHECK(o == UNKNOWN_PARAM, std::string("unknown-") + what, "'%s': %s", k.c_str(), oname(o));
  else CHECK(o == OK && v == it->second, std::string("value-") + what, "'%s': %s", k.c_str(), oname(o));
}
static void all(const GearParametersImpl& p, const Ref& r, const std::vector<std::string>& names) {
  for (auto& n : names) {
    cmp("int", r.i, n, [&](const std::string& k) { return p.getIntVal(k); }); cmp("double", r.d, n, [&](const std::string& k) { return p.getDoubleVal(k); });
    cmp("string", r.s, n, [&](const std::string& k) { return p.getStringVal(k); }); cmp("ints", r.iv, n, [&](const std::string& k) { return p.getIntVals(k); });
    cmp("doubles", r.dv, n, [&](const std::string& k) { return p.getDoubleVals(k); }); cmp("strings", r.sv, n, [&](const std::string& k) { return p.getStringVals(k); });
  }
  CHECK(p.getIntKeys() == keysOf(r.i), "keys-int", ""); CHECK(p.getDoubleKeys() == keysOf(r.d), "keys-double", ""); CHECK(p.getStringKeys() == keysOf(r.s), "keys-string", "");
  CHECK(p.getIntVecKeys() == keysOf(r.iv), "keys-ints", ""); CHECK(p.getDoubleVecKeys() == keysOf(r.dv), "keys-doubles", ""); CHECK(p.getStringVecKeys() == keysOf(r.sv), "keys-strings", "");
}
static void params(Gen& g) {
  GearParametersImpl p; Ref r; std::vector<std::string> names; int nn = g.i("names", 1, 6);
  for (int k = 0; k < nn; ++k) names.push_back(g.chance(.1) ? std::string() : g.chance(.15) && k ? names[0] + "x" : g.word("name", 6));
  int n = g.i("ops", 0, 14); bool often = g.b("often");
  for (int k = 0; k < n; ++k) {
    const std::string& nm = g.pick(names); int op = g.i("op", 0, 5), len = op > 2 ? g.i("len", 0, 6) : 0;
    OP("'%s' ", nm.c_str());
    if (op == 0) { int v = g.chance(.2) ? (int)g.raw() : (int)g.i("v", -9, 9); p.setIntVal(nm, v); r.i[nm] = v; }
    if (op == 1) { double v = g.chance(.1) ? 1e300 * (g.u() - .5) : g.d("v", -9, 9); p.setDoubleVal(nm, v); r.d[nm] = v; }
    if (op == 2) { std::string v = g.chance(.2) ? "" : g.chance(.2) ? g.word("v") + " " + g.word("v") : g.word("v", 30); p.setStringVal(nm, v); r.s[nm] = v; }
    if (op == 3) { IntVec v; for (int j = 0; j < len; ++j) v.push_back(g.i("v", -9, 9)); p.setIntVals(nm, v); r.iv[nm] = v; }
    if (op == 4) { DoubleVec v; for (int j = 0; j < len; ++j) v.push_back(g.d("v", -9, 9)); p.setDoubleVals(nm, v); r.dv[nm] = v; }
    if (op == 5) { StringVec v; for (int j = 0; j < len; ++j) v.push_back(g.chance(.2) ? "" : g.word("v")); p.setStringVals(nm, v); r.sv[nm] = v; }
    if (often) all(p, r, names);
  }
  all(p, r, names); all(p, r, names);
}
PARTS_TABLE({"params", params})
