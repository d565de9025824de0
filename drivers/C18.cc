#include "vc.hh"
#include "gearimpl/SiPlanesParametersImpl.h"
#include "gearimpl/TrackerPlanesParametersImpl.h"
using namespace gear;
static const int NF = 33, ND = 25; typedef std::vector<double> V;
static const bool INTF[] = {1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}, INTD[] = {1, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0};
static double get(const SiPlanesLayerLayout& l, int f, int i) { switch (f) { case 0: return l.getID(i); case 1: return l.getLayerPositionX(i); case 2: return l.getLayerPositionY(i); case 3: return l.getLayerPositionZ(i); case 4: return l.getLayerRotationXY(i); case 5: return l.getLayerRotationZX(i); case 6: return l.getLayerRotationZY(i); case 7: return l.getLayerSizeX(i); case 8: return l.getLayerSizeY(i); case 9: return l.getLayerThickness(i); case 10: return l.getLayerRadLength(i); case 11: return l.getSensitiveID(i); case 12: return l.getSensitivePositionX(i); case 13: return l.getSensitivePositionY(i); case 14: return l.getSensitivePositionZ(i); case 15: return l.getSensitiveRotationXY(i); case 16: return l.getSensitiveRotationZX(i); case 17: return l.getSensitiveRotationZY(i); case 18: return l.getSensitiveSizeX(i); case 19: return l.getSensitiveSizeY(i); case 20: return l.getSensitiveThickness(i); case 21: return l.getSensitiveNpixelX(i); case 22: return l.getSensitiveNpixelY(i); case 23: return l.getSensitivePitchX(i); case 24: return l.getSensitivePitchY(i); case 25: return l.getSensitiveResolution(i); case 26: return l.getSensitiveResolutionX(i); case 27: return l.getSensitiveResolutionY(i); case 28: return l.getSensitiveRotation1(i); case 29: return l.getSensitiveRotation2(i); case 30: return l.getSensitiveRotation3(i); case 31: return l.getSensitiveRotation4(i); case 32: return l.getSensitiveRadLength(i); } return 0; }
static void set(SiPlanesLayerLayoutImpl& l, int f, int i, double v) { switch (f) { case 0: l.setID(i, v); break; case 1: l.setLayerPositionX(i, v); break; case 2: l.setLayerPositionY(i, v); break; case 3: l.setLayerPositionZ(i, v); break; case 4: l.setLayerRotationXY(i, v); break; case 5: l.setLayerRotationZX(i, v); break; case 6: l.setLayerRotationZY(i, v); break; case 7: l.setLayerSizeX(i, v); break; case 8: l.setLayerSizeY(i, v); break; case 9: l.setLayerThickness(i, v); break; case 10: l.setLayerRadLength(i, v); break; case 11: l.setSensitiveID(i, v); break; case 12: l.setSensitivePositionX(i, v); break; case 13: l.setSensitivePositionY(i, v); break; case 14: l.setSensitivePositionZ(i, v); break; case 15: l.setSensitiveRotationXY(i, v); break; case 16: l.setSensitiveRotationZX(i, v); break; case 17: l.setSensitiveRotationZY(i, v); break; case 18: l.setSensitiveSizeX(i, v); break; case 19: l.setSensitiveSizeY(i, v); break; case 20: l.setSensitiveThickness(i, v); break; case 21: l.setSensitiveNpixelX(i, v); break; case 22: l.setSensitiveNpixelY(i, v); break; case 23: l.setSensitivePitchX(i, v); break; case 24: l.setSensitivePitchY(i, v); break; case 25: l.setSensitiveResolution(i, v); break; case 26: l.setSensitiveResolutionX(i, v); break; case 27: l.setSensitiveResolutionY(i, v); break; case 28: l.setSensitiveRotation1(i, v); break; case 29: l.setSensitiveRotation2(i, v); break; case 30: l.setSensitiveRotation3(i, v); break; case 31: l.setSensitiveRotation4(i, v); break; case 32: l.setSensitiveRadLength(i, v); break; } }
static double getDut(const SiPlanesLayerLayout& l, int f) { switch (f) { case 0: return l.getDUTID(); case 1: return l.getDUTPositionX(); case 2: return l.getDUTPositionY(); case 3: return l.getDUTPositionZ(); case 4: return l.getDUTSizeX(); case 5: return l.getDUTSizeY(); case 6: return l.getDUTThickness(); case 7: return l.getDUTRadLength(); case 8: return l.getDUTSensitiveID(); case 9: return l.getDUTSensitivePositionX(); case 10: return l.getDUTSensitivePositionY(); case 11: return l.getDUTSensitivePositionZ(); case 12: return l.getDUTSensitiveSizeX(); case 13: return l.getDUTSensitiveSizeY(); case 14: return l.getDUTSensitiveThickness(); case 15: return l.getDUTSensitiveNpixelX(); case 16: return l.getDUTSensitiveNpixelY(); case 17: return l.getDUTSensitivePitchX(); case 18: return l.getDUTSensitivePitchY(); case 19: return l.getDUTSensitiveResolution(); case 20: return l.getDUTSensitiveRotation1(); case 21: return l.getDUTSensitiveRotation2(); case 22: return l.getDUTSensitiveRotation3(); case 23: return l.getDUTSensitiveRotation4(); case 24: return l.getDUTSensitiveRadLength(); } return 0; }
template <class T> static void add(T& l, const V& v) { l.addLayer((int)v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], (int)v[11], v[12], v[13], v[14], v[15], v[16], v[17], v[18], v[19], v[20], (int)v[21], (int)v[22], v[23], v[24], v[25], v[26], v[27], v[28], v[29], v[30], v[31], v[32]); }
template <class T> static void addOld(T& l, const V& v) { l.addLayer((int)v[0], v[1], v[2], v[3], v[7], v[8], v[9], v[10], (int)v[11], v[12], v[13], v[14], v[18], v[19], v[20], (int)v[21], (int)v[22], v[23], v[24], v[25], v[28], v[29], v[30], v[31], v[32]); }
template <class T> static void addDut(T& l, const V& v) { l.addDUT((int)v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], (int)v[8], v[9], v[10], v[11], v[12], v[13], v[14], (int)v[15], (int)v[16], v[17], v[18], v[19], v[20], v[21], v[22], v[23], v[24]); }
static const int ROT[] = {4, 5, 6, 15, 16, 17}, RX = 26, RY = 27, RES = 25;
static double value(Gen& g, bool integer) { return integer ? (g.chance(.1) ? (double)(int)g.raw() : (double)g.i("n", -9, 99)) : g.d("x", -100, 100); }
static void silicon(Gen& g) {
  int id = g.i("id", -9, 99), ty = g.i("type", 0, 3), num = g.i("number", -9, 9);
  SiPlanesParametersImpl p(id, ty, num); SiPlanesLayerLayoutImpl l; std::vector<V> ref, refp; V dut(ND, 0.); int n = g.i("ops", 0, 14); bool often = g.b("often");
  auto check = [&] {
    CHECK(p.getSiPlanesID() == id && p.getSiPlanesType() == ty && p.getSiPlanesNumber() == num, "description", "");
    for (int w = 0; w < 2; ++w) { const SiPlanesLayerLayout& x = w ? (const SiPlanesLayerLayout&)l : p.getSiPlanesLayerLayout(); const std::vector<V>& r = w ? ref : refp; 
      CHECK(x.getNLayers() == (int)r.size(), "number", "%d", x.getNLayers());
      for (int i = 0; i < (int)r.size(); ++i) for (int f = 0; f < NF; ++f) CHECK(get(x, f, i) == r[i][f], "value", "%s accessor %d layer %d: %g, not %g", w ? "layout" : "parameters", f, i, get(x, f, i), r[i][f]);
      for (int f = 0; f < ND; ++f) CHECK(getDut(x, f) == dut[f], "dut", "%s accessor %d: %g, not %g", w ? "layout" : "parameters", f, getDut(x, f), dut[f]);
      int m = r.size(); for (int i : {-1, m, m + 1, -m - 1}) for (int f = 0; f < NF; ++f) { CHECK(outcome([&] { get(x, f, i); }) != OK, "outside", "accessor %d layer %d", f, i); if (w) CHECK(outcome([&] { set(l, f, i, 1); }) != OK, "outside", "set %d layer %d", f, i); }
    }
  };
  for (int k = 0; k < n; ++k) {
    int op = g.i("op", 0, 5);
    if (op < 2) { V v; for (int f = 0; f < NF; ++f) v.push_back(value(g, INTF[f])); add(l, v); add(p, v); ref.push_back(v); refp.push_back(v); }
    if (op == 2) { V v; for (int f = 0; f < NF; ++f) v.push_back(value(g, INTF[f])); addOld(l, v); addOld(p, v); for (int f : ROT) v[f] = 0; v[RX] = v[RY] = 0; ref.push_back(v); v[RX] = v[RY] = v[RES]; refp.push_back(v); }
    if (op == 3 && !ref.empty()) { int i = g.i("i", 0, ref.size() - 1), f = g.i("f", 0, NF - 1); double v = value(g, INTF[f]); set(l, f, i, v); ref[i][f] = v; }
    if (op == 4) { for (int f = 0; f < ND; ++f) dut[f] = value(g, INTD[f]); addDut(l, dut); addDut(p, dut); }
    if (op == 5) { int w = g.i("w", 0, 2), v = g.i("v", -9, 9); if (w == 0) p.setSiPlanesID(id = v); if (w == 1) p.setSiPlanesType(ty = v); if (w == 2) p.setSiPlanesNumber(num = v); }
    if (often) check();
  }
  check();
}
typedef TrackerPlanesMaterialLayerImpl MP; typedef TrackerPlanesSensitiveLayerImpl SP;
struct Plane { int id; std::string info; V v; };
struct Lay { int id; std::string info; std::vector<Plane> m, s; };
template <class P> static void cmp(P& p, const Plane& r, const char* what) {
  CHECK(p.getID() == r.id && p.getInfo() == r.info, what, "id %d info '%s'", p.getID(), p.getInfo().c_str());
  V v = {p.getPositionX(), p.getPositionY(), p.getPositionZ(), p.getRotationXY(), p.getRotationZX(), p.getRotationZY(), p.getSizeX(), p.getSizeY(), p.getThickness(), p.getRadLength()};
  for (int k = 0; k < 10; ++k) CHECK(v[k] == r.v[k], what, "value %d: %g, not %g", k, v[k], r.v[k]);
}
static void cmpS(SP& p, const Plane& r) {
  cmp(p, r, "sensitive"); V v = {(double)p.getNpixelX(), (double)p.getNpixelY(), p.getPitchX(), p.getPitchY(), p.getResolutionX(), p.getResolutionY()};
  for (int k = 0; k < 6; ++k) CHECK(v[k] == r.v[10 + k], "sensitive", "value %d: %g, not %g", 10 + k, v[k], r.v[10 + k]);
}
template <class P> static void setv(P& p, Plane& r, int f, double v) {
  switch (f) { case 0: p.setPositionX(v); break; case 1: p.setPositionY(v); break; case 2: p.setPositionZ(v); break; case 3: p.setRotationXY(v); break; case 4: p.setRotationZX(v); break; case 5: p.setRotationZY(v); break; case 6: p.setSizeX(v); break; case 7: p.setSizeY(v); break; case 8: p.setThickness(v); break; case 9: p.setRadLength(v); break; }
  r.v[f] = v;
}
static void cmpL(const TrackerPlanesLayerImpl& c, const Lay& r) {
  TrackerPlanesLayerImpl& l = const_cast<TrackerPlanesLayerImpl&>(c);
  CHECK(l.getID() == r.id && l.getInfo() == r.info, "layer", "id %d, not %d", l.getID(), r.id); CHECK(l.getNMaterialLayers() == (int)r.m.size() && l.getNSensitiveLayers() == (int)r.s.size(), "planes", "");
  for (size_t k = 0; k < r.m.size(); ++k) cmp(l.getMaterialLayerVec()[k], r.m[k], "material");
  for (size_t k = 0; k < r.s.size(); ++k) cmpS(l.getSensitiveLayerVec()[k], r.s[k]);
}
static void tracker(Gen& g) {
  int id = g.i("id", -9, 99), ty = g.i("type", -3, 3), num = g.i("number", -9, 9); 
  TrackerPlanesParametersImpl p(id, ty, num); TrackerPlanesLayerLayoutImpl y; std::vector<Lay> ref; int lid = 0; std::string linfo; int n = g.i("ops", 0, 12);
  TrackerPlanesLayerImpl* cur = new TrackerPlanesLayerImpl; Lay rc; rc.id = 0;
  for (int k = 0; k < n; ++k) {
    int op = g.i("op", 0, 7); Plane q; 
    if (op < 2) { q.id = g.i("pid", -9, 99); q.info = g.chance(.3) ? "" : g.word("info"); for (int f = 0; f < 10; ++f) q.v.push_back(value(g, false)); }
    if (op == 0) { cur->addMaterialLayer(q.id, q.info, q.v[0], q.v[1], q.v[2], q.v[3], q.v[4], q.v[5], q.v[6], q.v[7], q.v[8], q.v[9]); rc.m.push_back(q); }
    if (op == 1) { for (int f = 0; f < 6; ++f) q.v.push_back(value(g, f < 2)); cur->addSensitiveLayer(q.id, q.info, q.v[0], q.v[1], q.v[2], q.v[3], q.v[4], q.v[5], q.v[6], q.v[7], q.v[8], q.v[9], q.v[10], q.v[11], q.v[12], q.v[13], q.v[14], q.v[15]); rc.s.push_back(q); }
    if (op == 2) { rc.id = g.i("layer id", 0, 5); rc.info = g.word("info"); cur->setID(rc.id); cur->setInfo(rc.info); }
    if (op == 3 || op == 4) { p.addLayer(cur); y.addLayer(cur); ref.push_back(rc); if (g.b("new")) { delete cur; if (g.b("lists") && !rc.m.empty()) { TrackerPlanesMaterialLayerImplVec a; TrackerPlanesSensitiveLayerImplVec b; MP m; m.setID(3); a.push_back(m); SP s; s.setInfo("z"); b.push_back(s); b.push_back(s); cur = new TrackerPlanesLayerImpl(a, b); rc = Lay(); rc.id = 0; rc.m.push_back(Plane{3, "", V(10, 0.)}); rc.s.assign(2, Plane{0, "z", V(16, 0.)}); } else { cur = new TrackerPlanesLayerImpl; rc = Lay(); rc.id = 0; } } }
    if (op == 5) { int w = g.i("w", 0, 2), v = g.i("v", -9, 9); if (w == 0) p.setLayoutID(id = v); if (w == 1) p.setLayoutType(ty = v); if (w == 2) p.setLayoutNumberOfLayers(num = v); }
    if (op == 6) { lid = g.i("lid", -9, 9); linfo = g.word("linfo"); y.setID(lid); y.setInfo(linfo); }
    if (op == 7 && !rc.m.empty()) { int w = g.i("plane", 0, rc.m.size() - 1); setv(cur->getMaterialLayerVec()[w], rc.m[w], g.i("f", 0, 9), value(g, false)); }
    if (op == 7 && !rc.s.empty()) { int w = g.i("plane", 0, rc.s.size() - 1), f = g.i("f", 0, 15); double v = value(g, f == 10 || f == 11); SP& s = cur->getSensitiveLayerVec()[w]; setv(s, rc.s[w], f, v); switch (f) { case 10: s.setNpixelX(v); break; case 11: s.setNpixelY(v); break; case 12: s.setPitchX(v); break; case 13: s.setPitchY(v); break; case 14: s.setResolutionX(v); break; case 15: s.setResolutionY(v); break; } }
    cmpL(*cur, rc);
    CHECK(p.getLayoutID() == id && p.getLayoutType() == ty && p.getLayoutNumberOfLayers() == num, "description", ""); CHECK(y.getID() == lid && y.getInfo() == linfo, "layout", "id %d, not %d", y.getID(), lid);
    const TrackerPlanesLayerLayoutImpl* ls[2] = {&y, dynamic_cast<const TrackerPlanesLayerLayoutImpl*>(&p.getTrackerPlanesLayerLayout())};
    for (int w = 0; w < 2; ++w) if (ls[w]) {
      CHECK(ls[w]->getNLayers() == (int)ref.size(), "number", ""); for (size_t i = 0; i < ref.size(); ++i) cmpL(*ls[w]->getLayer(i), ref[i]);
      CHECK(ls[w]->getLayer(ref.size()) == 0 && ls[w]->getLayer(ref.size() + 7) == 0, "outside", "");
      for (int q = -1; q < 7; ++q) { const TrackerPlanesLayerImpl* f = ls[w]->getLayerByID(q); bool has = false; for (auto& r : ref) has |= r.id == q; CHECK(has == (f != 0) && (!f || f->getID() == q), "byid", "%d", q); }
    }
  }
  delete cur;
}
PARTS_TABLE({"silicon", silicon}, {"tracker", tracker})
