#include "tpc.hh"
struct Owned { std::vector<TPCModuleImpl*> v; ~Owned() { for (size_t k = 0; k < v.size(); ++k) delete v[k]; } };
static void tpc(Gen& g) {
  int mom = g.b("polarTPC") ? POL : CAR; double drift = g.d("drift", 1, 900); TPCParametersImpl t(drift, mom); Owned rej;
  std::vector<TPCModuleImpl*> ref; DV ext; bool haveNeg = false, havePos = false, negZ = false, posZ = false; double zn = 0, zp = 0; double cath = 0; std::map<int, TPCModuleImpl*> ids; int n = g.i("ops", 0, 9); double vd = 0;
  std::map<TPCModuleImpl*, double> freq;
  auto cathode = [&] { if (haveNeg && havePos) { if (negZ && posZ) cath = .5 * (zn + zp); } else if (haveNeg) { if (negZ) cath = zn + drift; } else if (havePos && posZ) cath = zp - drift; };
  for (int k = 0; k < n; ++k) {
    int op = g.i("op", 0, 11);
    if (op == 0) { OP("addModule(0) "); CHECK(isGear(outcome([&] { t.addModule(0); })), "null", ""); }
    else if (op == 1) { drift = g.d("drift", 1, 900); t.setMaxDriftLength(drift); OP("setMaxDriftLength "); cathode(); }
    else if (op == 2) { vd = g.d("vd", 0, 9); t.setDriftVelocity(vd); }
    else if (op == 3) { double f = g.d("F", 0, 9); Out o = outcome([&] { t.setReadoutFrequency(f); }); CHECK(ref.size() == 1 ? o == OK : isGear(o), "setfreq", "%zu modules: %s", ref.size(), oname(o)); if (ref.size() == 1) freq[ref[0]] = f; }
    else if (op == 4) {
      Lay l = genLay(g); bool ok = ref.empty(); bool canType = true; (void)canType;
      // a layout whose coordinates differ from those of the TPC is converted by the module
      OP("setPadLayout "); PadRowLayout2D* c = l.p->clone(); Out o = outcome([&] { t.setPadLayout(c); });
      CHECK(ok ? o == OK : isGear(o), "setpadlayout", "%zu modules: %s", ref.size(), oname(o));
      if (o != OK) { delete c; } else { TPCModuleImpl* m = dynamic_cast<TPCModuleImpl*>(t.getModules().at(0)); ref.push_back(m); ids[0] = m; freq[m] = 0; ext = m->getModuleExtent(); haveNeg = havePos = true; CHECK(m->getModuleID() == 0 && m->getAngle() == 0 && m->getOffset()[0] == 0 && m->getOffset()[1] == 0, "setpadlayout", ""); }
    } else {
      int mm = g.chance(.85) ? mom : g.b("othertype") ? POL : CAR, id = g.chance(.7) ? (int)g.i("id", 0, 40) : g.chance(.5) ? (int)g.i("id", -3, 3) : (int)g.i("id", 0, 100000); 
      Mod q = genMod(g, mm, id, g.i("steps", 0, 4)); TPCModuleImpl* m = new TPCModuleImpl(*q.m); OP("addModule(id %d type %d) ", id, mm);
      Out o = outcome([&] { t.addModule(m); });
      if (mm != mom || ids.count(id)) { CHECK(isGear(o), "reject", "id %d type %d: %s", id, mm, oname(o)); rej.v.push_back(m); }
      else {
        CHECK(o == OK, "accept", "%s", oname(o)); ref.push_back(m); ids[id] = m; freq[m] = q.freq;
        DV e = m->getModuleExtent(); if (ext.empty()) ext = e; else { ext[0] = std::min(ext[0], e[0]); ext[1] = std::max(ext[1], e[1]); ext[2] = std::min(ext[2], e[2]); ext[3] = std::max(ext[3], e[3]); }
        if (!q.zset) { if (!haveNeg) { haveNeg = true; } if (!havePos) havePos = true; }
        else { if (q.z <= 0) { if (!haveNeg) { haveNeg = negZ = true; zn = q.z; } } else if (!havePos) { havePos = posZ = true; zp = q.z; } cathode(); }
      }
    }
    CHECK(t.getModules().size() == ref.size() && t.getNModules() == (int)ref.size(), "count", "%zu expected %zu", t.getModules().size(), ref.size());
    for (size_t j = 0; j < ref.size(); ++j) CHECK(t.getModules()[j] == ref[j], "order", "module %zu", j);
    for (auto& p : ids) CHECK(&t.getModule(p.first) == p.second, "lookup", "id %d", p.first);
    for (int j = 0; j < 3; ++j) { int id = g.bare(-5, 50); if (!ids.count(id)) CHECK(isGear(outcome([&] { t.getModule(id); })), "unknown", "id %d", id); }
    if (ref.empty()) CHECK(isGear(outcome([&] { t.getPlaneExtent(); })), "extent", "empty"); else for (int j = 0; j < 4; ++j) CHECK(t.getPlaneExtent()[j] == ext[j], "extent", "[%d] %.12g expected %.12g", j, t.getPlaneExtent()[j], ext[j]);
    CHECK(t.getMaxDriftLength() == drift && t.getDriftVelocity() == vd && t.getCoordinateType() == mom, "values", "");
    double f = 0; Out o = outcome([&] { f = t.getReadoutFrequency(); }); CHECK(ref.size() == 1 ? o == OK && f == freq[ref[0]] : isGear(o), "freq", "%zu modules: %s", ref.size(), oname(o));
    const PadRowLayout2D* pl = 0; o = outcome([&] { pl = &t.getPadLayout(); });
    bool plain = ref.size() == 1 && ref[0]->getAngle() == 0 && ref[0]->getOffset()[0] == 0 && ref[0]->getOffset()[1] == 0;
    CHECK(plain ? o == OK && pl == ref[0] : isGear(o), "padlayout", "%zu modules: %s", ref.size(), oname(o));
    // the cathode shows in the module found for points just beside it
    if (haveNeg && havePos && !ref.empty()) { bool onlyN = false, onlyP = false; TPCModuleImpl *mn = 0, *mp = 0; int cn = 0, cp = 0;
      for (TPCModuleImpl* m : ref) { double z = 0; bool s = true; try { z = m->getZPosition(); } catch (TPCModule::NoZPositionException&) { s = false; } if (!s || z <= 0) { ++cn; mn = m; } if (!s || z > 0) { ++cp; mp = m; } }
      onlyN = cn == 1; onlyP = cp == 1; if (onlyN) CHECK(&t.getNearestModule(1, 1, cath - 1e-6) == mn, "cathode", "cathode at %.12g", cath); if (onlyP) CHECK(&t.getNearestModule(1, 1, cath + 1e-6) == mp, "cathode", "cathode at %.12g", cath); }
    else if (haveNeg != havePos) { CHECK((outcome([&] { t.getNearestModule(1, 1, cath - 1e-6); }) == OK) == haveNeg, "cathode", "at %.12g", cath); CHECK((outcome([&] { t.getNearestModule(1, 1, cath + 1e-6); }) == OK) == havePos, "cathode", "at %.12g", cath); }
  }
}
PARTS_TABLE({"tpc", tpc})
