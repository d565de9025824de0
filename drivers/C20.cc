#include "xml.hh"
#include <climits>
#include <cfloat>
#include "gearxml/GearParametersXML.h"
#include "gearxml/tinyxml.h"
static int anInt(Gen& g) { return g.pick(std::vector<int>{0, 1, -1, INT_MAX, INT_MIN, (int)g.raw(), (int)g.i("n", -999, 999)}); }
static double aDouble(Gen& g) { return g.pick(std::vector<double>{0., 1., -1., 0.1, 1e-300, -1e300, DBL_MAX, DBL_MIN, 1. / 3, g.d("x", -1e3, 1e3), g.d("x", -1, 1) * std::pow(10., g.i("e", -200, 200)), (double)(int64_t)g.raw()}); }
static std::string aWord(Gen& g) { static const char* odd[] = {"&", "<", ">", "\"", "'", "&amp;", "&lt;", "=", "/", "--", "value", "1e5", "07", "-", "name", "0x10", "<a/>", "]]>", "\xc3\xa9", "\xe2\x82\xac", "int", "."};
  std::string s = g.b("plain") ? g.word("w", 14) : ""; while (s.empty() || g.chance(.3)) s += g.chance(.5) ? odd[g.raw() % 22] : g.word("w", 9); return s; }
static std::string aName(Gen& g) { return g.chance(.3) ? aWord(g) : g.chance(.15) ? g.word("a", 4) + " " + g.word("b", 4) : g.word("name", 8); }
static void fill(Gen& g, GearParametersImpl* p, int most) {
  int n = g.i("params", 0, most);
  for (int k = 0; k < n; ++k) { std::string name = aName(g); int m = g.chance(.1) ? g.i("long", 20, 300) : g.i("m", 1, 6);
    switch (g.i("kind", 0, 5)) {
    case 0: p->setIntVal(name, anInt(g)); break;
    case 1: p->setDoubleVal(name, aDouble(g)); break;
    case 2: p->setStringVal(name, aWord(g)); break;
    case 3: { IntVec v; while (m--) v.push_back(anInt(g)); p->setIntVals(name, v); break; }
    case 4: { DoubleVec v; while (m--) v.push_back(aDouble(g)); p->setDoubleVals(name, v); break; }
    default: { StringVec v; while (m--) v.push_back(aWord(g)); p->setStringVals(name, v); } } }
}
// doubles come back to a relative 1e-9 and nothing else changes
static void equal(const GearParameters& a, const GearParameters& b, const char* key) { Desc x, y; dParams(x, "p", a); dParams(y, "p", b); 
  for (auto& k : x.n) { auto it = y.n.find(k.first); CHECK(it != y.n.end(), key, "%s = %.17g lost", k.first.c_str(), k.second); bool d = k.first.find("p/double") == 0; CHECK(d ? std::fabs(k.second - it->second) <= 1e-9 * std::fabs(k.second) : k.second == it->second, key, "%s: %.17g became %.17g", k.first.c_str(), k.second, it->second); }
  for (auto& k : y.n) CHECK(x.n.count(k.first), key, "%s = %.17g invented", k.first.c_str(), k.second);
  for (auto& k : x.s) { auto it = y.s.find(k.first); CHECK(it != y.s.end(), key, "%s = '%s' lost", k.first.c_str(), k.second.c_str()); CHECK(k.second == it->second, key, "%s: '%s' became '%s'", k.first.c_str(), k.second.c_str(), it->second.c_str()); }
  for (auto& k : y.s) CHECK(x.s.count(k.first), key, "%s invented", k.first.c_str()); }
static void inMemory(Gen& g) {
  GearParametersImpl p; fill(g, &p, 12); TiXmlElement e("detector"); GearParametersXML::getXMLForParameters(&e, &p);
  GearParametersImpl q; Out o = outcome([&] { GearParametersXML::setParametersFromXML(&e, &q); }); CHECK(o == OK, "read", "%s", oname(o)); equal(p, q, "element");
}
static void onDisk(Gen& g) {
  GearMgrImpl* m = new GearMgrImpl; int n = g.i("sets", 1, 3);
  while (n--) { GearParametersImpl* p = new GearParametersImpl; fill(g, p, 8); m->setGearParameters(aName(g), p); }
  GearXML::createXMLFile(m, "p.xml"); GearXML x("p.xml"); GearMgr* r = 0; Out o = outcome([&] { r = x.createGearMgr(); }); CHECK(o == OK, "load", "%s", oname(o));
  CHECK(m->getGearParameterKeys().size() == r->getGearParameterKeys().size(), "sets", "%d sets became %d", (int)m->getGearParameterKeys().size(), (int)r->getGearParameterKeys().size());
  for (auto& k : m->getGearParameterKeys()) { const GearParameters* q = 0; Out u = outcome([&] { q = &r->getGearParameters(k); }); CHECK(u == OK, "sets", "set '%s' lost: %s", k.c_str(), oname(u)); equal(m->getGearParameters(k), *q, "file"); }
  delete m;
}
// parameters of detectors, materials' manager and field
static void ofDetectors(Gen& g) {
  GearMgrImpl* m = new GearMgrImpl; std::vector<GearParametersImpl*> a;
  int k = g.i("kind", 0, 7); GearParametersImpl* p = 0;
  switch (k) { case 0: { auto c = makeCalo(g, true); p = c; m->setEcalBarrelParameters(c); break; } case 1: { auto z = makeZ(g); p = z; m->setSITParameters(z); break; } case 2: { auto f = makeFTD(g); p = f; m->setFTDParameters(f); break; }
  case 3: { auto s = makeSi(g); p = s; m->setSiPlanesParameters(s); break; } case 4: { auto t = makeTr(g); p = t; m->setTrackerPlanesParameters(t); break; } case 5: { auto t = makeTPC(g); p = t; m->setTPCParameters(t); break; }
  case 6: { auto b = new ConstantBField(Vector3D(1, 2, 3)); p = b; m->setBField(b); break; } default: { auto c = makeCalo(g, false); p = c; m->setLHcalParameters(c); } }
  fill(g, p, 6); GearXML::createXMLFile(m, "d.xml"); GearXML x("d.xml"); GearMgr* r = 0; Out o = outcome([&] { r = x.createGearMgr(); }); CHECK(o == OK, "load", "kind %d: %s", k, oname(o));
  const GearParameters* q = 0;
  switch (k) { case 0: q = &r->getEcalBarrelParameters(); break; case 1: q = &dynamic_cast<const GearParameters&>(r->getSITParameters()); break; case 2: q = &dynamic_cast<const GearParameters&>(r->getFTDParameters()); break; case 3: q = &dynamic_cast<const GearParameters&>(r->getSiPlanesParameters()); break;
  case 4: q = &dynamic_cast<const GearParameters&>(r->getTrackerPlanesParameters()); break; case 5: q = &r->getTPCParameters(); break; case 6: q = &dynamic_cast<const GearParameters&>(r->getBField()); break; default: q = &r->getLHcalParameters(); }
  equal(*p, *q, "detector parameters"); delete m;
}
PARTS_TABLE({"inMemory", inMemory}, {"onDisk", onDisk}, {"ofDetectors", ofDetectors})
