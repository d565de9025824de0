#include "xml.hh"
#include "gearxml/tinyxml.h"
// what may be left out of a description, and the value its absence means (absent element: "" )
struct Opt { const char *in, *element, *attribute, *value; };
static const Opt OPT[] = {
  {"SiPlanes", "ladder", "rotationXY", "0"}, {"SiPlanes", "ladder", "rotationZX", "0"}, {"SiPlanes", "ladder", "rotationZY", "0"},
  {"SiPlanes", "sensitive", "rotationXY", "0"}, {"SiPlanes", "sensitive", "rotationZX", "0"}, {"SiPlanes", "sensitive", "rotationZY", "0"},
  {"SiPlanes", "sensitive", "resolutionX", "=resolution"}, {"SiPlanes", "sensitive", "resolutionY", "=resolution"},
  {"SiPlanes", "sensitive", "rotation1", "1"}, {"SiPlanes", "sensitive", "rotation2", "0"}, {"SiPlanes", "sensitive", "rotation3", "0"}, {"SiPlanes", "sensitive", "rotation4", "1"},
  {"SiPlanes", "dut_sensitive", "rotation1", "1"}, {"SiPlanes", "dut_sensitive", "rotation2", "0"}, {"SiPlanes", "dut_sensitive", "rotation3", "0"}, {"SiPlanes", "dut_sensitive", "rotation4", "1"},
  {"TrackerPlanes", "layer", "info", ""}, {"TrackerPlanes", "", "info", ""}, {"TrackerPlanes", "", "positionX", "0"}, {"TrackerPlanes", "", "positionY", "0"}, {"TrackerPlanes", "", "positionZ", "0"},
  {"TrackerPlanes", "", "rotationXY", "0"}, {"TrackerPlanes", "", "rotationZX", "0"}, {"TrackerPlanes", "", "rotationZY", "0"}, {"TrackerPlanes", "", "sizeX", "1"}, {"TrackerPlanes", "", "sizeY", "1"},
  {"TrackerPlanes", "", "thickness", "0"}, {"TrackerPlanes", "", "radLength", "0"}, {"TrackerPlanes", "", "npixelX", "1"}, {"TrackerPlanes", "", "npixelY", "1"}, {"TrackerPlanes", "", "pitchX", "0"}, {"TrackerPlanes", "", "pitchY", "0"},
  {"TrackerPlanes", "", "resolutionX", "0"}, {"TrackerPlanes", "", "resolutionY", "0"},
  {"TPC", "PadRowLayout2D", "repeatRows", "1"}, {"TPC", "PadRowLayout2D", "phiMax", "6.283185307179586"}, {"TPC", "row", "repeat", "1"}, {"TPC", "row", "leftOffset", "0"}, {"TPC", "row", "rightOffset", "0"}, {"TPC", "row", "offset", "0"}, {"TPC", "row", "padWidth", "0"}, {"TPC", "row", "padHeight", "0"}, {"TPC", "row", "rowHeight", "0"}, {"TPC", "modules", "moduleIDStartCount", "0"}};
// elements that may be missing altogether
static const char* FREE[][2] = {{"TPC", "driftVelocity"}, {"TPC", "moduleID"}, {"TPC", "offset"}, {"TPC", "zPosition"}, {"TPC", "angle"}, {"TPC", "enlargeActiveAreaBy"}, {"TPC", "module"}, {"TPC", "modules"}, {"TPC", "row"}, {"TrackerPlanes", "ladder"}, {"TrackerPlanes", "sensitive"}};
struct Item { TiXmlElement* e; std::string attribute, in; };
static void items(TiXmlElement* e, const std::string& in, std::vector<Item>& out) {
  std::string n = e->Value();
  for (TiXmlAttribute* a = e->FirstAttribute(); a; a = a->Next()) out.push_back({e, a->Name(), in});
  out.push_back({e, "", in});
  for (TiXmlElement* c = e->FirstChildElement(); c; c = c->NextSiblingElement()) items(c, in, out);
}
enum Kind { MANDATORY, OPTIONAL, SKIP };
static std::string layoutOf(TiXmlElement* e) { for (TiXmlNode* p = e; p; p = p->Parent()) if (p->ToElement() && p->ToElement()->Attribute("type") && std::string(p->Value()) == "PadRowLayout2D") return p->ToElement()->Attribute("type"); return ""; }
static Kind kind(const Item& i, std::string& value) {
  std::string n = i.e->Value();
  if (n == "parameter") return i.attribute == "name" || i.attribute == "type" ? (i.e->Attribute("value") && *i.e->Attribute("value") ? MANDATORY : SKIP) : SKIP;
  if (i.attribute.empty()) { if (n == "detector" || n == "layer" || n == "material" || n == "BField" || n == "global") return SKIP; for (auto& f : FREE) if (i.in == f[0] && n == f[1]) return SKIP; return MANDATORY; }
  if (n == "detector" && i.attribute == "name") return i.in == "TPC" ? MANDATORY : MANDATORY;
  if (n == "BField" && (i.attribute == "type" || i.attribute == "name" || i.attribute == "geartype")) return SKIP;
  if (i.attribute == "geartype") return SKIP; // such a detector is skipped with a message: checked below
  std::string lay = i.in == "TPC" ? layoutOf(i.e) : "";
  for (auto& o : OPT) if (i.in == o.in && i.attribute == o.attribute && (!*o.element ? n == "ladder" || n == "sensitive" : n == o.element)) {
    bool versatile = lay == "VersatileDiskRowLayout", rect = lay == "RectangularPadRowLayout";
    if (n == "row" && i.attribute == "padWidth" && !versatile) continue; if (n == "row" && i.attribute == "padHeight" && !versatile) continue; if (n == "row" && i.attribute == "rowHeight" && !rect) continue;
    if (i.attribute == "phiMax" && lay != "FixedPadSizeDiskLayout") continue;
    value = o.value; if (value == "=resolution") value = i.e->Attribute("resolution"); return OPTIONAL; }
  if (n == "PadRowLayout2D" && lay == "FixedPadAngleDiskLayout" && i.attribute == "repeat") return SKIP;
  static const std::set<std::string> written = {"detectorName"};
  return MANDATORY;
}
static Out load(const char* f, GearMgr*& m, bool& again) {
  GearXML x(f); m = 0; Out o = outcome([&] { m = x.createGearMgr(); }); if (o != OK) { GearMgr* k = 0; again = outcome([&] { k = x.createGearMgr(); }) != OK; } return o;
}
static std::string spot;
static bool pickItem(Gen& g, TiXmlDocument& doc, Item& it, Kind& k, std::string& value) {
  if (!doc.LoadFile("v.xml")) return false;
  std::vector<Item> all; TiXmlElement* root = doc.RootElement();
  for (TiXmlElement* c = root->FirstChildElement(); c; c = c->NextSiblingElement()) {
    std::string n = c->Value();
    if (n == "detectors" || n == "materials") for (TiXmlElement* d = c->FirstChildElement(); d; d = d->NextSiblingElement()) { std::string in = n == "materials" ? "material" : d->Attribute("geartype"); in = in == "TPCParameters" ? "TPC" : in == "SiPlanesParameters" ? "SiPlanes" : in == "TrackerPlanesParameters" ? "TrackerPlanes" : in; items(d, in, all); }
    else items(c, n, all);
  }
  if (all.empty()) return false;
  it = all[g.raw() % all.size()]; k = kind(it, value);
  std::string p; for (TiXmlNode* q = it.e; q && q->ToElement(); q = q->Parent()) p = std::string("/") + q->Value() + (q->ToElement()->Attribute("name") ? std::string("[") + q->ToElement()->Attribute("name") + "]" : "") + p;
  spot = p + (it.attribute.empty() ? "" : "@" + it.attribute); rec("[%s] ", spot.c_str()); return true;
}
static void leaveOut(Gen& g) {
  GearMgrImpl* m = makeMgr(g, .2); GearXML::createXMLFile(m, "v.xml"); delete m;
  for (int n = 0; n < 25; ++n) {
    TiXmlDocument doc; Item it; Kind k; std::string value; if (!pickItem(g, doc, it, k, value) || k == SKIP) continue;
    std::string was; if (it.attribute.empty()) it.e->Parent()->RemoveChild(it.e); else { was = it.e->Attribute(it.attribute); it.e->RemoveAttribute(it.attribute); }
    doc.SaveFile("x.xml"); GearMgr* r = 0; bool again = true; Out o = load("x.xml", r, again);
    if (k == MANDATORY) { CHECK(o == PARSE_EXC, "missing part accepted", "without %s: %s", spot.c_str(), oname(o)); CHECK(again, "half read", "without %s: a second call returns a manager", spot.c_str()); continue; }
    it.e->SetAttribute(it.attribute, value); doc.SaveFile("y.xml"); GearMgr* s = 0; Out u = load("y.xml", s, again);
    CHECK(o == u, "default", "without %s: %s, with the default '%s': %s", spot.c_str(), oname(o), value.c_str(), oname(u));
    if (o == OK) { Desc a = describe(*s), b = describe(*r); same(a, b, "default"); }
  }
}
// types nobody reads, sections without a type or name, files without sections
static void sections(Gen& g) {
  GearMgrImpl* m = makeMgr(g, .2); GearParametersImpl* q = new GearParametersImpl; userParams(g, q); m->setGearParameters("always", q); GearXML::createXMLFile(m, "v.xml"); Desc full = describe(*m); delete m;
  TiXmlDocument doc; if (!doc.LoadFile("v.xml")) return; TiXmlElement* ds = doc.RootElement()->FirstChildElement("detectors"); std::vector<TiXmlElement*> all; for (TiXmlElement* d = ds->FirstChildElement(); d; d = d->NextSiblingElement()) all.push_back(d);
  TiXmlElement* d = all[g.raw() % all.size()]; std::string type = d->Attribute("geartype"), name = d->Attribute("name"); bool again = true; GearMgr* r = 0;
  int how = g.i("how", 0, 5); Out o;
  switch (how) {
  case 0: { std::string t = g.chance(.5) ? type + "x" : g.chance(.5) ? type.substr(1) : g.word("type", 12); if (t == "VXDParameters" || t == type) return; d->SetAttribute("geartype", t); doc.SaveFile("x.xml"); o = load("x.xml", r, again); CHECK(o == PARSE_EXC && again, "unknown type accepted", "type '%s': %s", t.c_str(), oname(o)); break; }
  case 1: d->RemoveAttribute("name"); doc.SaveFile("x.xml"); o = load("x.xml", r, again); CHECK(o == PARSE_EXC && again, "nameless section accepted", "%s: %s", type.c_str(), oname(o)); break;
  case 2: { if (type != "GearParameters") return; d->RemoveAttribute("geartype"); doc.SaveFile("x.xml"); o = load("x.xml", r, again); CHECK(o == OK, "untyped section", "%s: %s", name.c_str(), oname(o)); Desc b = describe(*r); CHECK(!b.n.count("has parameters " + name) , "untyped section", "section %s without a type is read", name.c_str()); break; }
  case 3: doc.RootElement()->RemoveChild(ds); doc.SaveFile("x.xml"); o = load("x.xml", r, again); CHECK(o == PARSE_EXC && again, "no detectors", "%s", oname(o)); break;
  case 4: { std::ofstream f("x.xml"); f << (g.b("empty") ? "" : "<?xml version=\"1.0\"?>"); f.close(); o = load("x.xml", r, again); CHECK(o == PARSE_EXC && again, "no root", "%s", oname(o)); break; }
  default: { std::ifstream f("v.xml"); std::string s((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>()); size_t end = s.rfind("</"); s.resize(g.raw() % (end + 1)); std::ofstream("x.xml") << s; o = load("x.xml", r, again); CHECK(o == PARSE_EXC && again, "cut file accepted", "first %d bytes: %s", (int)s.size(), oname(o)); } }
}
static void noFile(Gen& g) { bool again = true; GearMgr* r = 0; std::string n = g.word("file", 9) + ".none"; Out o = load(n.c_str(), r, again); CHECK(o == PARSE_EXC && again, "missing file", "%s", oname(o)); }
// the old description of a TPC: one pad plane, every part of it mandatory
static void oldTpc(Gen& g) {
  const char* parts[] = {"<maxDriftLength value=\"2500.\"/>", "<driftVelocity value=\"4.\"/>", "<readoutFrequency value=\"10.\"/>", "<PadRowLayout2D type=\"FixedPadSizeDiskLayout\" rMin=\"300.\" rMax=\"1600.\" padHeight=\"6.\" padWidth=\"2.\" maxRow=\"200\" padGap=\"0.1\"/>"};
  int miss = g.i("missing", 0, 4); bool noValue = g.b("only the value"); std::ofstream f("t.xml");
  f << "<gear><global detectorName=\"d\"/><detectors><detector name=\"TPC\" geartype=\"TPCParameters\">"; for (int k = 0; k < 4; ++k) { if (k == miss && !noValue) continue; std::string p = parts[k]; if (k == miss) { size_t a = p.find(k == 3 ? " type" : " value"), b = p.find(k == 3 ? " rMin" : "/>"); p.erase(a, b - a); } f << p; } f << "</detector></detectors></gear>"; f.close();
  bool again = true; GearMgr* r = 0; Out o = load("t.xml", r, again); CHECK(o == (miss == 4 ? OK : PARSE_EXC) && again, "old TPC", "without %s: %s", miss < 4 ? parts[miss] : "nothing", oname(o));
  if (miss == 4) { CHECK(near(r->getTPCParameters().getDriftVelocity(), 4) && near(r->getTPCParameters().getReadoutFrequency(), 10) && near(r->getTPCParameters().getMaxDriftLength(), 2500), "old TPC", "values"); }
}
// parts a module does not give come from the default module, if there is one
static void defaultModule(Gen& g) {
  const char* parts[] = {"<readoutFrequency value=\"%g\"/>", "<offset x_r=\"%g\" y_phi=\"0.25\"/>", "<angle value=\"%g\"/>", "<zPosition value=\"%g\"/>", "<enlargeActiveAreaBy value=\"%g\"/>", "<PadRowLayout2D type=\"FixedPadAngleDiskLayout\" rMin=\"%g\" rMax=\"600\" nRow=\"3\" phiMin=\"-1\" phiMax=\"1\" nPadsInRow=\"5\"/>"};
  double mv[6], dv[6]; bool mh[6], dh[6]; bool has = g.b("default"); std::string mod, def;
  for (int k = 0; k < 6; ++k) { mv[k] = 1 + g.i("mv", 0, 8) * .125; dv[k] = 3 + g.i("dv", 0, 8) * .125; mh[k] = g.chance(.6); dh[k] = has && g.chance(.6); char b[300]; snprintf(b, 300, parts[k], mv[k]); if (mh[k]) mod += b; snprintf(b, 300, parts[k], dv[k]); if (dh[k]) def += b; }
  int start = g.i("start", -1, 5); std::ofstream f("t.xml");
  f << "<gear><global detectorName=\"d\"/><detectors><detector name=\"TPC\" geartype=\"TPCParameters\"><maxDriftLength value=\"2500.\"/><coordinateType value=\"polar\"/><modules" << (start < 0 ? "" : " moduleIDStartCount=\"" + S(start) + "\"") << ">" << (has ? "<default>" + def + "</default>" : "") << "<module>" << mod << "</module></modules></detector></detectors></gear>"; f.close(); rec("module {%s} default {%s} ", mod.c_str(), def.c_str());
  bool again = true; GearMgr* r = 0; Out o = load("t.xml", r, again); bool ok = (mh[0] || dh[0]) && (mh[5] || dh[5]); 
  if (!ok) { CHECK(o == PARSE_EXC && again, "module", "incomplete module: %s", oname(o)); return; }
  CHECK(o == OK, "module", "complete module: %s", oname(o)); const TPCModule& m = *r->getTPCParameters().getModules()[0]; auto v = [&](int k, double none) { return mh[k] ? mv[k] : dh[k] ? dv[k] : none; };
  CHECK(m.getModuleID() == (start < 0 ? 0 : start), "module", "ID %d", m.getModuleID()); CHECK(near(m.getReadoutFrequency(), v(0, 0)), "module", "frequency %g", m.getReadoutFrequency()); CHECK(near(m.getOffset()[0], v(1, 0)), "module", "offset %g", m.getOffset()[0]); CHECK(near(m.getAngle(), v(2, 0)), "module", "angle %g", m.getAngle()); CHECK(near(m.getBorderWidth(), v(4, 0)), "module", "border %g", m.getBorderWidth());
  CHECK(near(m.getLocalPadLayout().getPlaneExtent()[0], v(5, 0)), "module", "layout %g", m.getLocalPadLayout().getPlaneExtent()[0]);
  Out z = outcome([&] { m.getZPosition(); }); CHECK((z == OK) == (mh[3] || dh[3]), "module", "z %s", oname(z)); if (z == OK) CHECK(near(m.getZPosition(), v(3, 0)), "module", "z %g", m.getZPosition());
}
PARTS_TABLE({"leaveOut", leaveOut}, {"sections", sections}, {"noFile", noFile}, {"oldTpc", oldTpc}, {"defaultModule", defaultModule})
