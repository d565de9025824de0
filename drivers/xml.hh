// random detector descriptions and a complete listing of what a manager answers
#ifndef XML_HH
#define XML_HH
#include "vc.hh"
#include <map>
#include "gear/GEAR.h"
#include "gear/BField.h"
#include "gearimpl/GearMgrImpl.h"
#include "gearimpl/ConstantBField.h"
#include "gearimpl/CalorimeterParametersImpl.h"
#include "gearimpl/FTDParametersImpl.h"
#include "gearimpl/ZPlanarParametersImpl.h"
#include "gearimpl/SiPlanesParametersImpl.h"
#include "gearimpl/TrackerPlanesParametersImpl.h"
#include "gearimpl/TPCParametersImpl.h"
#include "gearimpl/TPCModuleImpl.h"
#include "gearimpl/SimpleMaterialImpl.h"
#include "gearimpl/FixedPadAngleDiskLayout.h"
#include "gearimpl/FixedPadSizeDiskLayout.h"
#include "gearimpl/RectangularPadRowLayout.h"
#include "gearimpl/VersatileDiskRowLayout.h"
#include "gearxml/GearXML.h"
using namespace gear;
typedef std::map<std::string, double> Num; typedef std::map<std::string, std::string> Str;
struct Desc { Num n; Str s; };
static std::string S(int i) { return std::to_string(i); }
static void dParams(Desc& d, const std::string& p, const GearParameters& g) {
  for (auto& k : g.getIntKeys()) d.n[p + "/int/" + k] = g.getIntVal(k);
  for (auto& k : g.getDoubleKeys()) d.n[p + "/double/" + k] = g.getDoubleVal(k);
  for (auto& k : g.getStringKeys()) d.s[p + "/string/" + k] = g.getStringVal(k);
  for (auto& k : g.getIntVecKeys()) { auto& v = g.getIntVals(k); d.n[p + "/ints/" + k + "#"] = v.size(); for (size_t i = 0; i < v.size(); ++i) d.n[p + "/ints/" + k + S(i)] = v[i]; }
  for (auto& k : g.getDoubleVecKeys()) { auto& v = g.getDoubleVals(k); d.n[p + "/doubles/" + k + "#"] = v.size(); for (size_t i = 0; i < v.size(); ++i) d.n[p + "/doubles/" + k + S(i)] = v[i]; }
  for (auto& k : g.getStringVecKeys()) { auto& v = g.getStringVals(k); d.n[p + "/strings/" + k + "#"] = v.size(); for (size_t i = 0; i < v.size(); ++i) d.s[p + "/strings/" + k + S(i)] = v[i]; }
}
static void dCalo(Desc& d, const std::string& p, const CalorimeterParameters& c) {
  d.n[p + ".type"] = c.getLayoutType(); d.n[p + ".symmetry"] = c.getSymmetryOrder(); d.n[p + ".phi0"] = c.getPhi0();
  for (int i = 0; i < 4; ++i) d.n[p + ".extent" + S(i)] = c.getExtent()[i];
  const LayerLayout& l = c.getLayerLayout(); d.n[p + ".layers"] = l.getNLayers();
  for (int i = 0; i < l.getNLayers(); ++i) { d.n[p + ".distance" + S(i)] = l.getDistance(i); d.n[p + ".thickness" + S(i)] = l.getThickness(i); d.n[p + ".absorber" + S(i)] = l.getAbsorberThickness(i); d.n[p + ".cell0_" + S(i)] = l.getCellSize0(i); d.n[p + ".cell1_" + S(i)] = l.getCellSize1(i); }
  dParams(d, p, c);
}
static void dZ(Desc& d, const std::string& p, const ZPlanarParameters& z) {
  d.n[p + ".type"] = z.getType(); d.n[p + ".shell.half"] = z.getShellHalfLength(); d.n[p + ".shell.gap"] = z.getShellGap(); d.n[p + ".shell.rin"] = z.getShellInnerRadius(); d.n[p + ".shell.rout"] = z.getShellOuterRadius(); d.n[p + ".shell.rad"] = z.getShellRadLength();
  const ZPlanarLayerLayout& l = z.getZPlanarLayerLayout(); d.n[p + ".layers"] = l.getNLayers();
  for (int i = 0; i < l.getNLayers(); ++i) { std::string q = p + ".layer" + S(i);
    d.n[q + ".n"] = l.getNLadders(i); d.n[q + ".phi0"] = l.getPhi0(i);
    d.n[q + ".l.rad"] = l.getLadderRadLength(i); d.n[q + ".l.dist"] = l.getLadderDistance(i); d.n[q + ".l.thick"] = l.getLadderThickness(i); d.n[q + ".l.off"] = l.getLadderOffset(i); d.n[q + ".l.width"] = l.getLadderWidth(i); d.n[q + ".l.length"] = l.getLadderLength(i);
    d.n[q + ".s.rad"] = l.getSensitiveRadLength(i); d.n[q + ".s.dist"] = l.getSensitiveDistance(i); d.n[q + ".s.thick"] = l.getSensitiveThickness(i); d.n[q + ".s.off"] = l.getSensitiveOffset(i); d.n[q + ".s.width"] = l.getSensitiveWidth(i); d.n[q + ".s.length"] = l.getSensitiveLength(i); }
  dParams(d, p, dynamic_cast<const GearParameters&>(z));
}
static void dFTD(Desc& d, const std::string& p, const FTDParameters& f) {
  const FTDLayerLayout& l = f.getFTDLayerLayout(); d.n[p + ".layers"] = l.getNLayers();
  for (int i = 0; i < l.getNLayers(); ++i) { std::string q = p + ".layer" + S(i);
    d.n[q + ".petals"] = l.getNPetals(i); d.n[q + ".sensors"] = l.getNSensors(i); d.n[q + ".double"] = l.isDoubleSided(i); d.n[q + ".stype"] = l.getSensorType(i); d.n[q + ".half"] = l.getPhiHalfDistance(i); d.n[q + ".z"] = l.getZposition(i); d.n[q + ".zoff"] = l.getZoffset(i); d.n[q + ".zsign"] = l.getZoffsetSign0(i); d.n[q + ".phi0"] = l.getPhi0(i); d.n[q + ".alpha"] = l.getAlpha(i);
    d.n[q + ".p.r"] = l.getSupportRinner(i); d.n[q + ".p.rad"] = l.getSupportRadLength(i); d.n[q + ".p.thick"] = l.getSupportThickness(i); d.n[q + ".p.min"] = l.getSupportLengthMin(i); d.n[q + ".p.max"] = l.getSupportLengthMax(i); d.n[q + ".p.width"] = l.getSupportWidth(i);
    d.n[q + ".s.r"] = l.getSensitiveRinner(i); d.n[q + ".s.rad"] = l.getSensitiveRadLength(i); d.n[q + ".s.thick"] = l.getSensitiveThickness(i); d.n[q + ".s.min"] = l.getSensitiveLengthMin(i); d.n[q + ".s.max"] = l.getSensitiveLengthMax(i); d.n[q + ".s.width"] = l.getSensitiveWidth(i); }
  dParams(d, p, dynamic_cast<const GearParameters&>(f));
}
static double siGet(const SiPlanesLayerLayout& l, int f, int i) { switch (f) { case 0: return l.getID(i); case 1: return l.getLayerPositionX(i); case 2: return l.getLayerPositionY(i); case 3: return l.getLayerPositionZ(i); case 4: return l.getLayerRotationXY(i); case 5: return l.getLayerRotationZX(i); case 6: return l.getLayerRotationZY(i); case 7: return l.getLayerSizeX(i); case 8: return l.getLayerSizeY(i); case 9: return l.getLayerThickness(i); case 10: return l.getLayerRadLength(i); case 11: return l.getSensitiveID(i); case 12: return l.getSensitivePositionX(i); case 13: return l.getSensitivePositionY(i); case 14: return l.getSensitivePositionZ(i); case 15: return l.getSensitiveRotationXY(i); case 16: return l.getSensitiveRotationZX(i); case 17: return l.getSensitiveRotationZY(i); case 18: return l.getSensitiveSizeX(i); case 19: return l.getSensitiveSizeY(i); case 20: return l.getSensitiveThickness(i); case 21: return l.getSensitiveNpixelX(i); case 22: return l.getSensitiveNpixelY(i); case 23: return l.getSensitivePitchX(i); case 24: return l.getSensitivePitchY(i); case 25: return l.getSensitiveResolution(i); case 26: return l.getSensitiveResolutionX(i); case 27: return l.getSensitiveResolutionY(i); case 28: return l.getSensitiveRotation1(i); case 29: return l.getSensitiveRotation2(i); case 30: return l.getSensitiveRotation3(i); case 31: return l.getSensitiveRotation4(i); case 32: return l.getSensitiveRadLength(i); } return 0; }
static double dutGet(const SiPlanesLayerLayout& l, int f) { switch (f) { case 0: return l.getDUTID(); case 1: return l.getDUTPositionX(); case 2: return l.getDUTPositionY(); case 3: return l.getDUTPositionZ(); case 4: return l.getDUTSizeX(); case 5: return l.getDUTSizeY(); case 6: return l.getDUTThickness(); case 7: return l.getDUTRadLength(); case 8: return l.getDUTSensitiveID(); case 9: return l.getDUTSensitivePositionX(); case 10: return l.getDUTSensitivePositionY(); case 11: return l.getDUTSensitivePositionZ(); case 12: return l.getDUTSensitiveSizeX(); case 13: return l.getDUTSensitiveSizeY(); case 14: return l.getDUTSensitiveThickness(); case 15: return l.getDUTSensitiveNpixelX(); case 16: return l.getDUTSensitiveNpixelY(); case 17: return l.getDUTSensitivePitchX(); case 18: return l.getDUTSensitivePitchY(); case 19: return l.getDUTSensitiveResolution(); case 20: return l.getDUTSensitiveRotation1(); case 21: return l.getDUTSensitiveRotation2(); case 22: return l.getDUTSensitiveRotation3(); case 23: return l.getDUTSensitiveRotation4(); case 24: return l.getDUTSensitiveRadLength(); } return 0; }
static void dSi(Desc& d, const std::string& p, const SiPlanesParameters& s) {
  d.n[p + ".id"] = s.getSiPlanesID(); d.n[p + ".type"] = s.getSiPlanesType(); d.n[p + ".number"] = s.getSiPlanesNumber();
  const SiPlanesLayerLayout& l = s.getSiPlanesLayerLayout(); d.n[p + ".layers"] = l.getNLayers();
  for (int i = 0; i < l.getNLayers(); ++i) for (int f = 0; f < 33; ++f) d.n[p + ".layer" + S(i) + "." + S(f)] = siGet(l, f, i);
  if (s.getSiPlanesType() == SiPlanesParameters::TelescopeWithDUT) for (int f = 0; f < 25; ++f) d.n[p + ".dut." + S(f)] = dutGet(l, f);
  dParams(d, p, dynamic_cast<const GearParameters&>(s));
}
template <class P> static void dPlane(Desc& d, const std::string& q, P& p) {
  d.n[q + ".id"] = p.getID(); d.s[q + ".info"] = p.getInfo(); d.n[q + ".x"] = p.getPositionX(); d.n[q + ".y"] = p.getPositionY(); d.n[q + ".z"] = p.getPositionZ(); d.n[q + ".xy"] = p.getRotationXY(); d.n[q + ".zx"] = p.getRotationZX(); d.n[q + ".zy"] = p.getRotationZY(); d.n[q + ".sx"] = p.getSizeX(); d.n[q + ".sy"] = p.getSizeY(); d.n[q + ".thick"] = p.getThickness(); d.n[q + ".rad"] = p.getRadLength();
}
static void dTr(Desc& d, const std::string& p, const TrackerPlanesParameters& t) {
  d.n[p + ".id"] = t.getLayoutID(); d.n[p + ".number"] = t.getLayoutNumberOfLayers();
  const TrackerPlanesLayerLayout& l = t.getTrackerPlanesLayerLayout(); d.n[p + ".layers"] = l.getNLayers();
  for (int i = 0; i < l.getNLayers(); ++i) { std::string q = p + ".layer" + S(i); TrackerPlanesLayerImpl& y = *const_cast<TrackerPlanesLayerImpl*>(l.getLayer(i));
    d.n[q + ".id"] = y.getID(); d.s[q + ".info"] = y.getInfo(); d.n[q + ".m"] = y.getMaterialLayerVec().size(); d.n[q + ".s"] = y.getSensitiveLayerVec().size();
    for (size_t k = 0; k < y.getMaterialLayerVec().size(); ++k) dPlane(d, q + ".m" + S(k), y.getMaterialLayerVec()[k]);
    for (size_t k = 0; k < y.getSensitiveLayerVec().size(); ++k) { TrackerPlanesSensitiveLayerImpl& e = y.getSensitiveLayerVec()[k]; std::string r = q + ".s" + S(k); dPlane(d, r, e); d.n[r + ".nx"] = e.getNpixelX(); d.n[r + ".ny"] = e.getNpixelY(); d.n[r + ".px"] = e.getPitchX(); d.n[r + ".py"] = e.getPitchY(); d.n[r + ".rx"] = e.getResolutionX(); d.n[r + ".ry"] = e.getResolutionY(); } }
  dParams(d, p, dynamic_cast<const GearParameters&>(t));
}
static void dPads(Desc& d, const std::string& p, const PadRowLayout2D& l) {
  d.n[p + ".impl"] = l.getPadLayoutImplType(); d.n[p + ".coord"] = l.getCoordinateType(); d.n[p + ".pads"] = l.getNPads(); d.n[p + ".rows"] = l.getNRows();
  for (int i = 0; i < 4; ++i) d.n[p + ".extent" + S(i)] = l.getPlaneExtent()[i];
  for (int r = 0; r < l.getNRows(); ++r) { std::string q = p + ".row" + S(r); d.n[q + ".height"] = l.getRowHeight(r); auto& v = l.getPadsInRow(r); d.n[q + ".pads"] = v.size();
    for (size_t k = 0; k < v.size(); k += v.size() > 3 ? v.size() - 1 : 1) { std::string x = q + "." + S(k); d.n[x + ".i"] = v[k]; d.n[x + ".c0"] = l.getPadCenter(v[k])[0]; d.n[x + ".c1"] = l.getPadCenter(v[k])[1]; d.n[x + ".w"] = l.getPadWidth(v[k]); d.n[x + ".h"] = l.getPadHeight(v[k]); } }
  if (const RectangularPadRowLayout* r = dynamic_cast<const RectangularPadRowLayout*>(&l)) for (size_t k = 0; k < r->rows().size(); ++k) { d.n[p + ".left" + S(k)] = r->rows()[k].LeftOffset; d.n[p + ".right" + S(k)] = r->rows()[k].RightOffset; }
}
static void dTPC(Desc& d, const std::string& p, const TPCParameters& t) {
  d.n[p + ".drift"] = t.getMaxDriftLength(); d.n[p + ".velocity"] = t.getDriftVelocity(); d.n[p + ".coord"] = t.getCoordinateType(); d.n[p + ".modules"] = t.getNModules();
  if (t.getNModules()) for (int i = 0; i < 4; ++i) d.n[p + ".extent" + S(i)] = t.getPlaneExtent()[i];
  for (int i = 0; i < t.getNModules(); ++i) { const TPCModule& m = *t.getModules()[i]; std::string q = p + ".module" + S(i);
    d.n[q + ".id"] = m.getModuleID(); d.n[q + ".freq"] = m.getReadoutFrequency(); d.n[q + ".o0"] = m.getOffset()[0]; d.n[q + ".o1"] = m.getOffset()[1]; d.n[q + ".angle"] = m.getAngle(); d.n[q + ".border"] = m.getBorderWidth(); d.n[q + ".coord"] = m.getTPCCoordinateType();
    try { d.n[q + ".z"] = m.getZPosition(); } catch (TPCModule::NoZPositionException&) {}
    for (int e = 0; e < 4; ++e) { d.n[q + ".ext" + S(e)] = m.getModuleExtent()[e]; d.n[q + ".lext" + S(e)] = m.getLocalModuleExtent()[e]; }
    for (int r = 0; r < m.getNRows(); ++r) if (!m.getPadsInRow(r).empty()) { int k = m.getPadsInRow(r)[0]; d.n[q + ".c0_" + S(r)] = m.getPadCenter(k)[0]; d.n[q + ".c1_" + S(r)] = m.getPadCenter(k)[1]; }
    dPads(d, q + ".layout", m.getLocalPadLayout()); dParams(d, q, m); }
  dParams(d, p, t);
}
template <class F> static void slot(Desc& d, const char* name, F f) { try { f(); d.n[std::string("has ") + name] = 1; } catch (UnknownParameterException&) {} }
static const char* CALO[] = {"EcalBarrel", "EcalEndcap", "EcalPlug", "YokeBarrel", "YokeEndcap", "YokePlug", "HcalBarrel", "HcalEndcap", "HcalRing", "Lcal", "LHcal", "BeamCal"};
static const CalorimeterParameters& calo(GearMgr& m, int k) { switch (k) { case 0: return m.getEcalBarrelParameters(); case 1: return m.getEcalEndcapParameters(); case 2: return m.getEcalPlugParameters(); case 3: return m.getYokeBarrelParameters(); case 4: return m.getYokeEndcapParameters(); case 5: return m.getYokePlugParameters(); case 6: return m.getHcalBarrelParameters(); case 7: return m.getHcalEndcapParameters(); case 8: return m.getHcalRingParameters(); case 9: return m.getLcalParameters(); case 10: return m.getLHcalParameters(); default: return m.getBeamCalParameters(); } }
static void setCalo(GearMgr& m, int k, CalorimeterParameters* c) { switch (k) { case 0: m.setEcalBarrelParameters(c); break; case 1: m.setEcalEndcapParameters(c); break; case 2: m.setEcalPlugParameters(c); break; case 3: m.setYokeBarrelParameters(c); break; case 4: m.setYokeEndcapParameters(c); break; case 5: m.setYokePlugParameters(c); break; case 6: m.setHcalBarrelParameters(c); break; case 7: m.setHcalEndcapParameters(c); break; case 8: m.setHcalRingParameters(c); break; case 9: m.setLcalParameters(c); break; case 10: m.setLHcalParameters(c); break; default: m.setBeamCalParameters(c); } }
static Desc describe(GearMgr& m) {
  Desc d; try { d.s["detector name"] = m.getDetectorName(); } catch (UnknownParameterException&) {}
  slot(d, "BField", [&] { Vector3D b = m.getBField().at(Vector3D(1, 2, 3)); d.n["B.x"] = b[0]; d.n["B.y"] = b[1]; d.n["B.z"] = b[2]; dParams(d, "B", dynamic_cast<const GearParameters&>(m.getBField())); });
  for (int k = 0; k < 12; ++k) slot(d, CALO[k], [&] { dCalo(d, CALO[k], calo(m, k)); });
  slot(d, "VXD", [&] { dZ(d, "VXD", m.getVXDParameters()); }); slot(d, "SIT", [&] { dZ(d, "SIT", m.getSITParameters()); }); slot(d, "SET", [&] { dZ(d, "SET", m.getSETParameters()); });
  slot(d, "FTD", [&] { dFTD(d, "FTD", m.getFTDParameters()); }); slot(d, "SiPlanes", [&] { dSi(d, "SiPlanes", m.getSiPlanesParameters()); }); slot(d, "TrackerPlanes", [&] { dTr(d, "TrackerPlanes", m.getTrackerPlanesParameters()); });
  slot(d, "TPC", [&] { dTPC(d, "TPC", m.getTPCParameters()); });
  for (auto& k : m.getGearParameterKeys()) { d.n["has parameters " + k] = 1; dParams(d, "P/" + k, m.getGearParameters(k)); }
  for (auto& k : m.getMaterialNames()) { const SimpleMaterial& x = m.getSimpleMaterial(k); d.s["M/" + k] = x.getName(); d.n["M/" + k + ".A"] = x.getA(); d.n["M/" + k + ".Z"] = x.getZ(); d.n["M/" + k + ".d"] = x.getDensity(); d.n["M/" + k + ".rad"] = x.getRadLength(); d.n["M/" + k + ".int"] = x.getIntLength(); }
  return d;
}
static void same(const Desc& a, const Desc& b, const char* key) {
  for (auto& x : a.n) { auto it = b.n.find(x.first); CHECK(it != b.n.end(), key, "%s = %.10g lost", x.first.c_str(), x.second); CHECK(near(x.second, it->second, 3e-8) || std::fabs(x.second - it->second) <= 3e-9 * std::fabs(x.second), key, "%s: %.12g became %.12g", x.first.c_str(), x.second, it->second); }
  for (auto& x : b.n) CHECK(a.n.count(x.first), key, "%s = %.10g invented", x.first.c_str(), x.second);
  for (auto& x : a.s) { auto it = b.s.find(x.first); CHECK(it != b.s.end(), key, "%s = '%s' lost", x.first.c_str(), x.second.c_str()); CHECK(x.second == it->second, key, "%s: '%s' became '%s'", x.first.c_str(), x.second.c_str(), it->second.c_str()); }
  for (auto& x : b.s) CHECK(a.s.count(x.first), key, "%s invented", x.first.c_str());
}
// ------------------------------------------------------------------ random descriptions
static double pos(Gen& g, const char* n, double hi = 500) { return g.chance(.2) ? std::floor(1 + g.u() * 20) : g.d(n, 0.01, hi); }
static double any(Gen& g, const char* n, double hi = 500) { double v = g.d(n, -hi, hi); if (g.chance(.05)) v *= 1e-9; if (g.chance(.03)) v *= 1e12; return v; }
static int integer(Gen& g) { return g.chance(.15) ? (int)g.raw() : (int)g.i("n", -99, 999); }
static std::string text(Gen& g) { std::string s = g.word("w", 10); if (g.chance(.1)) s += "\xe2\x82\xac"; if (g.chance(.2)) s += std::string("&<>\"'=;/")[g.raw() % 8] + g.word("w", 3); return s; }
static void userParams(Gen& g, GearParametersImpl* p, int most = 3) {
  int n = g.i("params", 0, most);
  for (int k = 0; k < n; ++k) { std::string name = g.chance(.2) ? text(g) : g.word("name", 6); 
    switch (g.i("kind", 0, 5)) {
    case 0: p->setIntVal(name, integer(g)); break;
    case 1: p->setDoubleVal(name, any(g, "x")); break;
    case 2: p->setStringVal(name, text(g)); break;
    case 3: { IntVec v; int m = g.i("m", 1, 5); while (m--) v.push_back(integer(g)); p->setIntVals(name, v); break; }
    case 4: { DoubleVec v; int m = g.i("m", 1, 5); while (m--) v.push_back(any(g, "x")); p->setDoubleVals(name, v); break; }
    default: { StringVec v; int m = g.i("m", 1, 5); while (m--) v.push_back(text(g)); p->setStringVals(name, v); } } }
}
static CalorimeterParametersImpl* makeCalo(Gen& g, bool barrel) {
  double r = pos(g, "r"), o = r + pos(g, "dr"), z = pos(g, "z"); int sym = g.i("sym", 0, 16); double phi = g.d("phi0", -4, 4);
  CalorimeterParametersImpl* c = barrel ? new CalorimeterParametersImpl(r, z, sym, phi) : new CalorimeterParametersImpl(r, o, z, sym, phi);
  int n = g.i("layers", 0, 7); double t = 1, a = 0, c0 = 1, c1 = 1; double dist = barrel ? r : z;
  for (int k = 0; k < n; ++k) {
    if (k == 0 || g.chance(.6)) { if (k == 0 || g.chance(.6)) t = pos(g, "t", 20); if (k == 0 || g.chance(.4)) a = g.chance(.2) ? 0 : t * g.u(); if (k == 0 || g.chance(.4)) c0 = pos(g, "c0", 30); if (k == 0 || g.chance(.4)) c1 = pos(g, "c1", 30); }
    if (k == 0) c->layerLayout().positionLayer(dist, t, c0, c1, a); else c->layerLayout().addLayer(t, c0, c1, a);
    g.b("x");
  }
  userParams(g, c); return c;
}
static ZPlanarParametersImpl* makeZ(Gen& g) {
  ZPlanarParametersImpl* z = new ZPlanarParametersImpl(g.pick(std::vector<int>{ZPlanarParameters::CCD, ZPlanarParameters::CMOS, ZPlanarParameters::HYBRID}), pos(g, "ri"), pos(g, "ro"), pos(g, "h"), any(g, "gap"), any(g, "rad"));
  int n = g.i("layers", 0, 4);
  for (int k = 0; k < n; ++k) { double v[13]; for (double& x : v) x = pos(g, "v", 100); z->addLayer(g.i("ladders", 1, 20), g.d("phi", -3, 3), v[0], any(g, "off", 20), v[2], v[3], v[4], v[5], v[6], any(g, "off", 20), v[8], v[9], v[10], v[11]); }
  userParams(g, z); return z;
}
static FTDParametersImpl* makeFTD(Gen& g) {
  FTDParametersImpl* f = new FTDParametersImpl; int n = g.i("layers", 0, 4);
  for (int k = 0; k < n; ++k) { bool dbl = g.b("double"); double v[12]; for (double& x : v) x = pos(g, "v", 100);
    f->addLayer(g.i("petals", 1, 20), g.i("sensors", 1, 3) * (dbl ? 2 : 1), dbl, g.b("pixel") ? FTDParameters::PIXEL : FTDParameters::STRIP, g.d("half", .01, 1), g.d("phi", -3, 3), g.d("alpha", -.2, .2), pos(g, "z"), any(g, "zoff", 5), g.b("sign") ? 1 : -1, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11]); }
  userParams(g, f); return f;
}
static SiPlanesParametersImpl* makeSi(Gen& g) {
  bool dut = g.b("dut"); SiPlanesParametersImpl* s = new SiPlanesParametersImpl(integer(g), dut ? SiPlanesParameters::TelescopeWithDUT : SiPlanesParameters::TelescopeWithoutDUT, integer(g)); int n = g.i("layers", 0, 4);
  std::vector<double> v(33);
  if (dut) { for (double& x : v) x = any(g, "v"); s->addDUT(integer(g), v[1], v[2], v[3], v[4], v[5], v[6], v[7], integer(g), v[9], v[10], v[11], v[12], v[13], v[14], integer(g), integer(g), v[17], v[18], v[19], v[20], v[21], v[22], v[23], v[24]); }
  for (int k = 0; k < n; ++k) { for (double& x : v) x = any(g, "v"); v[25] = std::fabs(v[25]); v[26] = std::fabs(v[26]); v[27] = std::fabs(v[27]);
    s->addLayer(integer(g), v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], integer(g), v[12], v[13], v[14], v[15], v[16], v[17], v[18], v[19], v[20], integer(g), integer(g), v[23], v[24], v[25], v[26], v[27], v[28], v[29], v[30], v[31], v[32]); }
  userParams(g, s); return s;
}
static TrackerPlanesParametersImpl* makeTr(Gen& g) {
  int n = g.i("layers", 0, 4); TrackerPlanesParametersImpl* t = new TrackerPlanesParametersImpl(integer(g), 0, integer(g));
  for (int k = 0; k < n; ++k) { TrackerPlanesLayerImpl* l = new TrackerPlanesLayerImpl; l->setID(integer(g)); l->setInfo(g.b("named") ? text(g) : "");
    int m = g.i("material", 0, 3), s = g.i("sensitive", 0, 3); double v[16];
    while (m--) { for (double& x : v) x = any(g, "v"); l->addMaterialLayer(integer(g), g.b("named") ? text(g) : "", v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9]); }
    while (s--) { for (double& x : v) x = any(g, "v"); l->addSensitiveLayer(integer(g), g.b("named") ? text(g) : "", v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], integer(g), integer(g), v[12], v[13], v[14], v[15]); }
    t->addLayer(l); }
  userParams(g, t); return t;
}
static PadRowLayout2D* makePads(Gen& g, int k) {
  if (k == 0) { int row = g.i("rows", 1, 6); double r = pos(g, "r", 300), h = pos(g, "h", 9); return new FixedPadSizeDiskLayout(r, r + row * h + g.u() * h * .5, h, pos(g, "w", r * .5), g.b("max") ? g.i("maxrow", 1, row) : 0, g.b("gap") ? g.d("gap", 0, 1) : 0., g.b("phi") ? g.d("phiMax", 1, 6.28) : 2 * M_PI); }
  if (k == 1) { double r = pos(g, "r", 300), p = g.d("phi", -3, 2); return new FixedPadAngleDiskLayout(r, r + pos(g, "dr", 300), g.i("rows", 1, 6), p, p + g.d("dphi", .1, 3), g.i("pads", 1, 20)); }
  if (k == 2) { double x = any(g, "x", 100), w = pos(g, "w", 200) + 20; RectangularPadRowLayout* l = new RectangularPadRowLayout(x, x + w, any(g, "y", 100)); int n = g.i("groups", 1, 3);
    while (n--) { int np = g.i("pads", 1, 9); double lo = g.b("off") ? g.d("lo", 0, 5) : 0, ro = g.b("off") ? g.d("ro", 0, 5) : 0, ph = pos(g, "h", 9); l->addRow(g.i("nrow", 1, 3), np, (w - lo - ro) / np * g.d("fill", .3, .99), ph, g.b("rh") ? ph * 1.25 : 0., lo, ro); }
    if (g.chance(.6)) l->repeatRows(g.chance(.2) ? g.i("repeat", 10, 13) : g.i("repeat", 0, 4)); return l; }
  VersatileDiskRowLayout* l = new VersatileDiskRowLayout(50 + pos(g, "r", 300)); int n = g.i("groups", 1, 3);
  while (n--) { double pitch = pos(g, "pitch", 9), h = pos(g, "h", 9); l->addRow(g.i("pads", 1, 9), pitch, h, g.b("off") ? g.d("off", -9, 9) : 0., g.b("w") ? pitch * .75 : 0., g.b("h") ? h * .5 : 0., g.i("repeat", 1, 3)); }
  return l;
}
static TPCParametersImpl* makeTPC(Gen& g) {
  int ct = g.b("polar") ? PadRowLayout2D::POLAR : PadRowLayout2D::CARTESIAN; TPCParametersImpl* t = new TPCParametersImpl(pos(g, "drift", 3000), ct); int n = g.i("modules", 0, 3);
  for (int k = 0; k < n; ++k) { int kind = g.i("layout", 0, 3); bool zeroAngleOnly = kind == 2 && ct == PadRowLayout2D::POLAR;
    try {
    TPCModuleImpl* m = new TPCModuleImpl(g.b("far") ? 100 + k : k, makePads(g, kind), ct, g.b("freq") ? pos(g, "f", 50) : 1e7 * g.u());
    double o = any(g, "o0", 200); m->setOffset(ct == PadRowLayout2D::POLAR ? std::fabs(o) : o, ct == PadRowLayout2D::POLAR ? g.d("o1", -3, 3) : any(g, "o1", 200));
    if (g.b("angle") && !zeroAngleOnly) m->setAngle(g.d("angle", -3, 3));
    if (g.b("z")) m->setZPosition(any(g, "z", 1000));
    if (g.b("border")) m->setBorderWidth(g.d("border", 0, .3));
    userParams(g, m, 2); t->addModule(m); } catch (gear::Exception&) { } }
  if (g.b("velocity")) t->setDriftVelocity(any(g, "velocity", 99));
  userParams(g, t); return t;
}
static GearMgrImpl* makeMgr(Gen& g, double p = .12) {
  GearMgrImpl* m = new GearMgrImpl; bool all = g.chance(.03); auto on = [&](double q) { return all || g.chance(q); };
  if (g.b("named")) m->setDetectorName(text(g));
  if (on(.3)) { ConstantBField* b = new ConstantBField(Vector3D(any(g, "bx"), any(g, "by"), any(g, "bz"))); userParams(g, b); m->setBField(b); }
  for (int k = 0; k < 12; ++k) if (on(p)) { bool barrel = k == 0 || k == 3 || k == 6 ? true : k == 1 || k == 4 || k == 7 ? false : g.b("barrel"); setCalo(*m, k, makeCalo(g, barrel)); rec("[%s] ", CALO[k]); }
  if (on(p * 2)) { m->setVXDParameters(makeZ(g)); rec("[VXD] "); } if (on(p)) { m->setSITParameters(makeZ(g)); rec("[SIT] "); } if (on(p)) { m->setSETParameters(makeZ(g)); rec("[SET] "); }
  if (on(p * 3)) { m->setFTDParameters(makeFTD(g)); rec("[FTD] "); }
  if (on(p * 3)) { m->setSiPlanesParameters(makeSi(g)); rec("[SiPlanes] "); }
  if (on(p * 3)) { m->setTrackerPlanesParameters(makeTr(g)); rec("[TrackerPlanes] "); }
  if (on(p * 4)) { m->setTPCParameters(makeTPC(g)); rec("[TPC] "); }
  for (int k = g.i("sets", 0, 2); k > 0; --k) { GearParametersImpl* q = new GearParametersImpl; userParams(g, q, 8); m->setGearParameters(text(g), q); }
  for (int k = g.i("materials", 0, 3); k > 0; --k) { std::string n = text(g); bool taken = false; for (auto& x : m->getMaterialNames()) taken |= x == n; if (!taken) m->registerSimpleMaterial(new SimpleMaterialImpl(n, any(g, "A"), any(g, "Z"), any(g, "d"), any(g, "rad"), any(g, "int"))); }
  return m;
}
#endif
