#include "vc.hh"
#include "gearimpl/GearMgrImpl.h"
#include "gearimpl/GearParametersImpl.h"
#include "gearimpl/CalorimeterParametersImpl.h"
#include "gearimpl/ZPlanarParametersImpl.h"
#include "gearimpl/FTDParametersImpl.h"
#include "gearimpl/TPCParametersImpl.h"
#include "gearimpl/SiPlanesParametersImpl.h"
#include "gearimpl/TrackerPlanesParametersImpl.h"
#include "gearimpl/ConstantBField.h"
#include "gearimpl/SimpleMaterialImpl.h"
#include "gear/GearPointProperties.h"
#include "gear/GearDistanceProperties.h"
using namespace gear;
static const std::string NOSTR; static const std::vector<std::string> NOSTRS; static const std::vector<double> NOVALS;
#define D(n) double n(const Vector3D&) const { return 0; }
struct PP : GearPointProperties {
  long64 getCellID(const Vector3D&) const { return 0; } const std::string& getMaterialName(const Vector3D&) const { return NOSTR; }
  D(getDensity) D(getTemperature) D(getPressure) D(getRadlen) D(getIntlen)
  Vector3D getLocalPosition(const Vector3D&) const { return Vector3D(); } Vector3D getB(const Vector3D&) const { return Vector3D(); } Vector3D getE(const Vector3D&) const { return Vector3D(); }
  std::vector<std::string> getListOfLogicalVolumes(const Vector3D&) const { return NOSTRS; } std::vector<std::string> getListOfPhysicalVolumes(const Vector3D&) const { return NOSTRS; }
  std::string getRegion(const Vector3D&) const { return NOSTR; } bool isTracker(const Vector3D&) const { return 0; } bool isCalorimeter(const Vector3D&) const { return 0; }
};
#undef D
#define D(n) double n(const Vector3D&, const Vector3D&) const { return 0; }
struct DP : GearDistanceProperties {
  const std::vector<std::string>& getMaterialNames(const Vector3D&, const Vector3D&) const { return NOSTRS; } const std::vector<double>& getMaterialThicknesses(const Vector3D&, const Vector3D&) const { return NOVALS; }
  D(getNRadlen) D(getNIntlen) D(getBdL) D(getEdL)
};
#define CALS(X) X(EcalBarrel) X(EcalEndcap) X(EcalPlug) X(YokeBarrel) X(YokeEndcap) X(YokePlug) X(HcalBarrel) X(HcalEndcap) X(HcalRing) X(Lcal) X(LHcal) X(BeamCal)
enum { 
#define X(n) n,
  CALS(X) TPC, VXD, SIT, SET, FTD, TPL, SIP, PPR, DPR, BF, NSLOT };
static const void* get(GearMgrImpl& m, int k) {
  switch (k) {
#undef X
#define X(n) case n: return &m.get##n##Parameters();
    CALS(X)
    case TPC: return &m.getTPCParameters(); case VXD: return &m.getVXDParameters(); case SIT: return &m.getSITParameters(); case SET: return &m.getSETParameters(); case FTD: return &m.getFTDParameters();
    case TPL: return &m.getTrackerPlanesParameters(); case SIP: return &m.getSiPlanesParameters(); case PPR: return &m.getPointProperties(); case DPR: return &m.getDistanceProperties(); default: return &m.getBField();
  }
}
template <class B, class D> static const void* mk(D* d, std::function<void(B*)> f) { B* b = d; f(b); return b; }
static int nextType = 0;
static const void* set(GearMgrImpl& m, int k, bool angle, const void* again) {
  auto cal = [&]() -> CalorimeterParameters* { if (again) return (CalorimeterParameters*)again; CalorimeterParametersImpl* c = new CalorimeterParametersImpl(1., 2., 3., 4, .5); if (angle) c->setDoubleVal("beam_crossing_angle", 14.); return c; };
  switch (k) {
#undef X
#define X(n) case n: { CalorimeterParameters* c = cal(); m.set##n##Parameters(c); return c; }
    CALS(X)
    case TPC: { TPCParameters* t = again ? (TPCParameters*)again : new TPCParametersImpl(100., PadRowLayout2D::CARTESIAN); m.setTPCParameters(t); return t; }
    case VXD: case SIT: case SET: { ZPlanarParameters* t = again ? (ZPlanarParameters*)again : new ZPlanarParametersImpl(1, 1., 1., 1., 1., 1.); if (k == VXD) m.setVXDParameters(t); else if (k == SIT) m.setSITParameters(t); else m.setSETParameters(t); return t; }
    case FTD: { FTDParameters* t = again ? (FTDParameters*)again : new FTDParametersImpl(); m.setFTDParameters(t); return t; }
    case TPL: { TrackerPlanesParameters* t = again ? (TrackerPlanesParameters*)again : new TrackerPlanesParametersImpl(1, 1, 2); m.setTrackerPlanesParameters(t); return t; }
    case SIP: { SiPlanesParameters* t = again ? (SiPlanesParameters*)again : new SiPlanesParametersImpl(1, SiPlanesParameters::TelescopeWithDUT, 2); m.setSiPlanesParameters(t); return t; }
    case PPR: { GearPointProperties* t = again ? (GearPointProperties*)again : new PP; m.setPointProperties(t); return t; }
    case DPR: { GearDistanceProperties* t = again ? (GearDistanceProperties*)again : new DP; m.setDistanceProperties(t); return t; }
    default: { BField* t = again ? (BField*)again : new ConstantBField(Vector3D(0, 0, 3)); m.setBField(t); return t; }
  }
}
static void manager(Gen& g) {
  GearMgrImpl m; const void* ref[NSLOT]; for (int k = 0; k < NSLOT; ++k) ref[k] = 0;
  std::map<std::string, GearParameters*> sec; std::map<std::string, const SimpleMaterial*> mat; std::vector<const SimpleMaterial*> rej; std::string det;
  MeasurementSurfaceStore* st = &m.getMeasurementSurfaceStore();
  std::vector<std::string> names = {"a", "b", "ab", "B", "zz"}; int n = g.i("ops", 0, 30), few = g.chance(.5) ? (int)g.i("slot", 0, NSLOT - 2) : -1;
  for (int k = 0; k < n; ++k) {
    int op = g.i("op", 0, 6); const std::string& nm = g.pick(names);
    if (op < 4) { int s = few >= 0 ? few + g.i("slot", 0, 1) : g.i("slot", 0, NSLOT - 1); bool again = ref[s] && g.chance(.15); OP("set(%d%s) ", s, again ? " again" : ""); ref[s] = set(m, s, g.b("angle"), again ? ref[s] : 0); }
    if (op == 4) { GearParameters* p = sec.count(nm) && g.chance(.2) ? sec[nm] : new GearParametersImpl; OP("section(%s) ", nm.c_str()); m.setGearParameters(nm, p); sec[nm] = p; }
    if (op == 5) { SimpleMaterialImpl* p = new SimpleMaterialImpl(nm, 1., g.d("Z", 1, 90), 2., 3., 4.); OP("material(%s) ", nm.c_str()); Out o = outcome([&] { m.registerSimpleMaterial(p); });
      if (mat.count(nm)) { CHECK(isGear(o), "material", "second '%s': %s", nm.c_str(), oname(o)); rej.push_back(p); } else { CHECK(o == OK, "material", "first '%s': %s", nm.c_str(), oname(o)); mat[nm] = p; } }
    if (op == 6) { det = nm; m.setDetectorName(nm); }
    for (int j = 0; j < NSLOT; ++j) { const void* p = 0; Out o = outcome([&] { p = get(m, j); }); CHECK(ref[j] ? o == OK && p == ref[j] : o == UNKNOWN_PARAM, "slot", "%d: %s", j, oname(o)); }
    for (auto& q : names) {
      const void* p = 0; Out o = outcome([&] { p = &m.getGearParameters(q); }); if (sec.count(q)) CHECK(o == OK && p == sec[q], "section", "'%s': %s", q.c_str(), oname(o)); else CHECK(o == UNKNOWN_PARAM, "section", "'%s': %s", q.c_str(), oname(o));
      const SimpleMaterial* s = 0; o = outcome([&] { s = &m.getSimpleMaterial(q); }); if (mat.count(q)) CHECK(o == OK && s == mat[q] && s->getName() == q, "material", "'%s': %s", q.c_str(), oname(o)); else CHECK(o == UNKNOWN_PARAM, "material", "'%s': %s", q.c_str(), oname(o));
    }
    for (auto& q : sec) { Out o = outcome([&] { q.second->getIntVal("x"); }); CHECK(o == UNKNOWN_PARAM, "alive", ""); }
    StringVec sk, mk_; for (auto& q : sec) sk.push_back(q.first); for (auto& q : mat) mk_.push_back(q.first);
    CHECK(m.getGearParameterKeys() == sk, "sectionkeys", ""); CHECK(m.getMaterialNames() == mk_, "materialnames", "");
    Out o = outcome([&] { CHECK(m.getDetectorName() == det, "name", ""); }); CHECK((o == OK) == !det.empty(), "name", "%s", oname(o)); CHECK(&m.getMeasurementSurfaceStore() == st, "store", "");
  }
  for (auto p : rej) delete p;
}
PARTS_TABLE({"manager", manager})
