#include "xml.hh"
static void roundtrip(Gen& g) {
  GearMgrImpl* m = makeMgr(g); Desc a = describe(*m);
  GearXML::createXMLFile(m, "rt.xml");
  GearXML x("rt.xml"); GearMgr* n = 0; Out o = outcome([&] { n = x.createGearMgr(); });
  CHECK(o == OK, "load", "%s", oname(o));
  if (a.s["detector name"].empty()) a.s["detector name"] = "Unknown";
  Desc b = describe(*n); same(a, b, "roundtrip");
  delete m;
}
PARTS_TABLE({"roundtrip", roundtrip})
