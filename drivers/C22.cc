#include "xml.hh"
#include "gearxml/MergeXML.h"
#include "gearxml/tinyxml.h"
static bool load(const char* f, GearMgr*& m) { GearXML x(f); Out o = outcome([&] { m = x.createGearMgr(); }); return o == OK; }
static std::string part(const std::string& key) { return key.substr(0, key.find_first_of(".#")); }
// two files about different detectors: nothing is lost and nothing is added
static void disjoint(Gen& g) {
  GearMgrImpl *a = makeMgr(g, .25), *b = makeMgr(g, .25); GearXML::createXMLFile(a, "a.xml"); GearXML::createXMLFile(b, "b.xml");
  TiXmlDocument da, db; if (!da.LoadFile("a.xml") || !db.LoadFile("b.xml")) return; int dom = g.i("dominant", 1, 2);
  // detectors, materials and the field of the second file stay only if the first has none of that name
  std::set<std::string> names; TiXmlElement *ra = da.RootElement(), *rb = db.RootElement();
  for (const char* s : {"detectors", "materials"}) { names.clear(); for (TiXmlElement* e = ra->FirstChildElement(s)->FirstChildElement(); e; e = e->NextSiblingElement()) names.insert(e->Attribute("name"));
    TiXmlElement* p = rb->FirstChildElement(s); for (TiXmlElement *e = p->FirstChildElement(), *n; e; e = n) { n = e->NextSiblingElement(); if (names.count(e->Attribute("name"))) p->RemoveChild(e); } }
  if (ra->FirstChildElement("BField") && rb->FirstChildElement("BField")) rb->RemoveChild(rb->FirstChildElement("BField"));
  if (g.chance(.15) && !ra->FirstChildElement("materials")->FirstChildElement()) ra->RemoveChild(ra->FirstChildElement("materials")); else if (g.chance(.15) && !rb->FirstChildElement("materials")->FirstChildElement()) rb->RemoveChild(rb->FirstChildElement("materials"));
  if (g.chance(.1)) { TiXmlElement* r = g.b("which") ? ra : rb; r->RemoveChild(r->FirstChildElement("global")); }
  da.SaveFile("a.xml"); db.SaveFile("b.xml"); GearMgr *ma = 0, *mb = 0, *mc = 0; CHECK(load("a.xml", ma) && load("b.xml", mb), "input", "the files to merge load");
  MergeXML x; CHECK(x.setFile1("a.xml") && x.setFile2("b.xml"), "input", "the files to merge are readable"); x.makeDominant(dom); bool ok = false; Out o = outcome([&] { ok = x.mergeFiles("c.xml"); }); CHECK(o == OK && ok, "merge", "%s %d", oname(o), ok);
  CHECK(load("c.xml", mc), "merge", "the merged file does not load");
  Desc A = describe(*ma), B = describe(*mb), C = describe(*mc), W = A; for (auto& k : B.n) W.n.insert(k); for (auto& k : B.s) W.s.insert(k);
  Desc& first = dom == 1 ? A : B; if (first.s.count("detector name")) W.s["detector name"] = first.s["detector name"]; else if (B.s.count("detector name")) W.s["detector name"] = B.s["detector name"];
  same(W, C, "merged"); delete a; delete b; delete ma; delete mb; delete mc;
}
// the same detectors in both files: attribute for attribute the dominant file wins, what only the other has is added
typedef std::map<std::string, std::string> Flat;
static void flat(TiXmlElement* e, const std::string& p, bool deep, Flat& out) {
  for (TiXmlAttribute* a = e->FirstAttribute(); a; a = a->Next()) out[p + "@" + a->Name()] = a->Value();
  if (!deep) return;
  std::map<std::string, int> seen; for (TiXmlElement* c = e->FirstChildElement(); c; c = c->NextSiblingElement()) { const char* n = c->Attribute("name"); std::string q = p + "/" + (n ? std::string("[") + n + "]" : c->Value()); int k = ++seen[q]; flat(c, q + "#" + S(k), true, out); }
}
static void overlap(Gen& g) {
  GearMgrImpl *a = makeMgr(g, .3); GearXML::createXMLFile(a, "a.xml"); int dom = g.i("dominant", 1, 2);
  TiXmlDocument da, db; if (!da.LoadFile("a.xml") || !db.LoadFile("a.xml")) return;
  // attributes directly below a named element are changed or dropped, parameters dropped, on either side
  for (TiXmlDocument* d : {&da, &db}) for (const char* s : {"detectors", "materials"}) { TiXmlElement* p = d->RootElement()->FirstChildElement(s);
    for (TiXmlElement *e = p->FirstChildElement(), *n; e; e = n) { n = e->NextSiblingElement(); if (g.chance(.25)) { p->RemoveChild(e); continue; }
      std::set<std::string> twice; for (TiXmlElement* c = e->FirstChildElement(); c; c = c->NextSiblingElement()) if (c->Attribute("name") && !twice.insert(c->Attribute("name")).second) return; // names are unique
      std::vector<TiXmlElement*> els(1, e); for (TiXmlElement *c = e->FirstChildElement(), *m; c; c = m) { m = c->NextSiblingElement(); std::string v = c->Value(); if (v == "parameter" && g.chance(.3)) { e->RemoveChild(c); continue; } els.push_back(c); }
      for (TiXmlElement* c : els) { std::vector<std::string> at; for (TiXmlAttribute* t = c->FirstAttribute(); t; t = t->Next()) if (std::string(t->Name()) != "name") at.push_back(t->Name());
        for (auto& t : at) { if (g.chance(.2)) c->RemoveAttribute(t); else if (g.chance(.3)) c->SetAttribute(t, g.word("v", 6)); } if (g.chance(.2)) c->SetAttribute("extra", g.word("v", 6)); } } }
  da.SaveFile("a.xml"); db.SaveFile("b.xml");
  MergeXML x; CHECK(x.setFile1("a.xml") && x.setFile2("b.xml"), "input", "the files to merge are readable"); if (dom == 1 || g.b("say")) x.makeDominant(dom); bool ok = false; Out o = outcome([&] { ok = x.mergeFiles("c.xml"); }); CHECK(o == OK && ok, "merge", "%s %d", oname(o), ok);
  TiXmlDocument dc; CHECK(dc.LoadFile("c.xml"), "merge", "the merged file cannot be read");
  if (!da.LoadFile("a.xml") || !db.LoadFile("b.xml")) return;
  for (const char* s : {"detectors", "materials"}) { Flat A, B, C; TiXmlElement *pa = da.RootElement()->FirstChildElement(s), *pb = db.RootElement()->FirstChildElement(s), *pc = dc.RootElement()->FirstChildElement(s);
    for (auto& t : std::vector<std::pair<TiXmlElement*, Flat*>>{{pa, &A}, {pb, &B}, {pc, &C}}) flat(t.first, "", true, *t.second);
    Flat &D = dom == 1 ? A : B, &R = dom == 1 ? B : A;
    for (auto& k : D) { CHECK(C.count(k.first), "dominant", "%s lost", k.first.c_str()); CHECK(C[k.first] == k.second, "dominant", "%s: '%s' became '%s'", k.first.c_str(), k.second.c_str(), C[k.first].c_str()); }
    for (auto& k : R) { if (D.count(k.first)) continue; std::string e = k.first.substr(0, k.first.rfind('@')); 
      // merged as far as the elements down to here have names
      std::string q = e.substr(1); bool reach = true; size_t cut = 0; while ((cut = q.find('/', cut)) != std::string::npos) { std::string up = "/" + q.substr(0, cut); ++cut; bool inD = false; for (auto& z : D) if (z.first.compare(0, up.size(), up) == 0 && (z.first[up.size()] == '@' || z.first[up.size()] == '/')) inD = true; if (inD && up.substr(up.rfind('/') + 1)[0] != '[') reach = false; }
      if (!reach) continue;
      CHECK(C.count(k.first), "added", "%s of the other file lost", k.first.c_str()); CHECK(C[k.first] == k.second, "added", "%s: '%s' became '%s'", k.first.c_str(), k.second.c_str(), C[k.first].c_str()); }
    for (auto& k : C) CHECK(A.count(k.first) || B.count(k.first), "invented", "%s", k.first.c_str()); }
  delete a;
}
// files that are no detector descriptions are refused and nothing is written
static void refused(Gen& g) {
  std::ofstream("a.xml") << "<gear><detectors/></gear>"; int k = g.i("kind", 0, 2); std::ofstream("b.xml") << (k == 0 ? "<geer><detectors/></geer>" : k == 1 ? "<gear><materials/></gear>" : "<other/>");
  bool swap = g.b("swap"); remove("c.xml"); MergeXML x; x.setFile1(swap ? "b.xml" : "a.xml"); x.setFile2(swap ? "a.xml" : "b.xml"); bool ok = true; Out o = outcome([&] { ok = x.mergeFiles("c.xml"); }); CHECK(o == OK && !ok, "refused", "%s %d", oname(o), ok);
  CHECK(!std::ifstream("c.xml").good(), "refused", "a merged file was written"); MergeXML y; CHECK(!y.setFile1("none.xml") && !y.setFile2("none.xml"), "refused", "a missing file was accepted");
}
PARTS_TABLE({"disjoint", disjoint}, {"overlap", overlap}, {"refused", refused})
