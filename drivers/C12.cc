#include "tpc.hh"
static void tpc(Gen& g) {
  int mom = g.b("polarTPC") ? POL : CAR; TPCParametersImpl t(g.d("drift", 1, 900), mom); std::vector<Mod> ms; int n = g.chance(.1) ? 0 : g.i("modules", 1, 6); int zmode = g.i("zmode", 0, 3);
  std::vector<int> side; double zn = 0, zp = 0; bool hn = false, hp = false, nz = false, pz = false; double drift = t.getMaxDriftLength(), cath = 0;
  for (int k = 0; k < n; ++k) {
    Mod q = genMod(g, mom, g.chance(.5) ? k : 1000 - k * 7, g.i("steps", 0, 3));
    int s = zmode == 0 ? 0 : zmode == 1 ? (int)g.bare(0, 1) * 2 - 1 : zmode == 2 ? 1 : (int)g.bare(-1, 1);
    if (!q.zset && s) { double z = s > 0 ? zp != 0 ? zp : g.d("z+", .5, 900) : zn != 0 ? zn : g.d("z-", -900, 0); q.m->setZPosition(z); q.p.neg = z <= 0; q.z = z; q.zset = true; OP("z=%g ", z); }
    q.m.reset(new TPCModuleImpl(*q.m)); TPCModuleImpl* m = new TPCModuleImpl(*q.m); t.addModule(m); q.m = std::shared_ptr<TPCModuleImpl>(m, [](TPCModuleImpl*) {}); ms.push_back(q);
    int sd = !q.zset ? 0 : q.z <= 0 ? -1 : 1; side.push_back(sd);
    if (sd <= 0 && !hn) { hn = true; nz = sd < 0; zn = sd < 0 ? q.z : 0; } if (sd >= 0 && !hp) { hp = true; pz = sd > 0; zp = sd > 0 ? q.z : 0; }
    if (sd) { if (hn && hp) { if (nz && pz) cath = .5 * (zn + zp); } else if (hn) { if (nz) cath = zn + drift; } else if (pz) cath = zp - drift; }
  }
  for (int k = 0; k < 10; ++k) {
    double c0 = 0, c1 = 0; if (ms.empty()) { c0 = g.d("c0", 1, 9); c1 = g.d("c1", 1, 2); } else genPoint(g, ms[g.raw() % ms.size()], c0, c1);
    int mode = g.i("mode", 0, 2); double z = mode == 1 ? cath - (g.chance(.2) ? 0 : g.d("below", 1e-3, 400)) : cath + g.d("above", 1e-3, 400);
    std::vector<const TPCModuleImpl*> c; for (size_t j = 0; j < ms.size(); ++j) if (mode == 0 || side[j] == 0 || (mode == 1) == (side[j] < 0)) c.push_back(ms[j].m.get());
    rec("mode %d z=%.17g ", mode, z);
    const TPCModule* best = 0; Out o = outcome([&] { best = mode ? &t.getNearestModule(c0, c1, z) : &t.getNearestModule(c0, c1); });
    CHECK(c.empty() ? isGear(o) : o == OK, "nearest", "%s", oname(o));
    bool im = false, ip = false; double dmin = 1e300, pmin = 1e300;
    for (auto m : c) { im |= m->isInsideModule(c0, c1); ip |= m->isInsidePad(c0, c1); dmin = std::min(dmin, m->getDistanceToModule(c0, c1)); pmin = std::min(pmin, m->getDistanceToPad(c0, c1, m->getNearestPad(c0, c1))); }
    if (!c.empty()) { bool found = false; for (auto m : c) found |= m == best; CHECK(found, "nearest-side", "module of the wrong side"); CHECK(best->getDistanceToModule(c0, c1) <= dmin, "nearest-best", ""); }
    CHECK((mode ? t.isInsideModule(c0, c1, z) : t.isInsideModule(c0, c1)) == im, "insidemodule", "expected %d", im);
    CHECK((mode ? t.isInsidePad(c0, c1, z) : t.isInsidePad(c0, c1)) == ip, "insidepad", "expected %d", ip);
    GlobalPadIndex gi(0, 0); o = outcome([&] { gi = mode ? t.getNearestPad(c0, c1, z) : t.getNearestPad(c0, c1); });
    CHECK(c.empty() ? isGear(o) : o == OK, "nearestpad", "%s", oname(o));
    if (!c.empty()) { const TPCModuleImpl* m = 0; for (auto x : c) if (x->getModuleID() == gi.getModuleID()) m = x; CHECK(m != 0, "nearestpad-side", ""); CHECK(m->getNearestPad(c0, c1) == gi.getPadIndex(), "nearestpad-pad", ""); CHECK(m->getDistanceToPad(c0, c1, gi.getPadIndex()) <= pmin, "nearestpad-best", ""); }
  }
}
PARTS_TABLE({"tpc", tpc})
