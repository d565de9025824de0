#include "tpc.hh"
typedef std::vector<double> Desc;
static void put(Desc& d, const std::function<double()>& f) { try { d.push_back(f()); } catch (Stop&) { throw; } catch (...) { d.push_back(-1e99); } }
// everything a user can ask; points drawn from a fixed generator so that two descriptions can be compared
static Desc describe(const PadRowLayout2D& l, uint64_t seed, bool list) {
  Desc d; Gen h; h.s = seed | 1;
  put(d, [&] { return l.getPadLayoutType(); }); put(d, [&] { return l.getPadLayoutImplType(); }); put(d, [&] { return l.getPadShape(); }); put(d, [&] { return l.getCoordinateType(); });
  put(d, [&] { return l.getNPads(); }); int n = l.getNRows(); d.push_back(n);
  for (int k = 0; k < 4; ++k) put(d, [&] { return l.getPlaneExtent()[k]; });
  for (int r = 0; r < n && r < 12; ++r) {
    put(d, [&] { return l.getRowHeight(r); });
    int np = 0;
    if (list) { const std::vector<int>& v = l.getPadsInRow(r); np = v.size(); d.push_back(np); for (int k = 0; k < np && k < 40; ++k) d.push_back(v[k]); }
    for (int k = 0; k < 3; ++k) {
      int i; try { i = l.getPadIndex(r, k); } catch (...) { d.push_back(-2e99); continue; }
      d.push_back(i); put(d, [&] { return l.getRowNumber(i); }); put(d, [&] { return l.getPadNumber(i); });
      put(d, [&] { return l.getPadWidth(i); }); put(d, [&] { return l.getPadHeight(i); }); put(d, [&] { return l.getPadPitch(i); });
      put(d, [&] { return l.getPadCenter(i)[0]; }); put(d, [&] { return l.getPadCenter(i)[1]; });
      put(d, [&] { return l.getLeftNeighbour(i); }); put(d, [&] { return l.getRightNeighbour(i); });
      double a = h.u() * 100, b = h.u() * 6;
      put(d, [&] { return l.getDistanceToPad(a, b, i); }); put(d, [&] { return l.isInsidePad(a, b, i); });
    }
  }
  if (n > 0) for (int k = 0; k < 6; ++k) { double a = h.u() * 100, b = h.u() * 6; put(d, [&] { return l.getNearestPad(a, b); }); put(d, [&] { return l.isInsidePad(a, b); }); }
  return d;
}
template <class T> static void strs(Desc& d, const T& v) { for (auto& s : v) { double h = 0; for (unsigned char c : s) h = std::fmod(h * 257 + c, 1e9 + 7); d.push_back(h); } }
static void params(Desc& d, const GearParameters& p) {
  for (auto& k : p.getIntKeys()) d.push_back(p.getIntVal(k)); for (auto& k : p.getDoubleKeys()) d.push_back(p.getDoubleVal(k));
  strs(d, p.getIntKeys()); strs(d, p.getDoubleKeys()); strs(d, p.getStringKeys()); strs(d, p.getIntVecKeys()); strs(d, p.getDoubleVecKeys()); strs(d, p.getStringVecKeys());
  for (auto& k : p.getStringKeys()) { std::vector<std::string> v(1, p.getStringVal(k)); strs(d, v); }
  for (auto& k : p.getIntVecKeys()) for (int x : p.getIntVals(k)) d.push_back(x);
  for (auto& k : p.getDoubleVecKeys()) for (double x : p.getDoubleVals(k)) d.push_back(x);
  for (auto& k : p.getStringVecKeys()) strs(d, p.getStringVals(k));
}
static void randParams(Gen& g, GearParametersImpl& p) {
  int n = g.i("npar", 0, 4);
  for (int k = 0; k < n; ++k) switch (g.raw() % 6) {
    case 0: p.setIntVal(g.word("k"), g.bare(-9, 9)); break;
    case 1: p.setDoubleVal(g.word("k"), g.u()); break;
    case 2: p.setStringVal(g.word("k"), g.word("v")); break;
    case 3: p.setIntVals(g.word("k"), std::vector<int>(g.bare(0, 3), (int)g.bare(0, 99))); break;
    case 4: p.setDoubleVals(g.word("k"), std::vector<double>(g.bare(0, 3), g.u())); break;
    default: p.setStringVals(g.word("k"), std::vector<std::string>(g.bare(0, 3), g.word("v")));
  }
}
static Desc describeM(const TPCModule& m, uint64_t s, bool list) {
  Desc d = describe(m, s, list); Gen h; h.s = s | 1;
  d.push_back(m.getModuleID()); d.push_back(m.getTPCCoordinateType()); d.push_back(m.getReadoutFrequency()); d.push_back(m.getAngle()); d.push_back(m.getBorderWidth());
  d.push_back(m.getOffset()[0]); d.push_back(m.getOffset()[1]); put(d, [&] { return m.getZPosition(); });
  for (int k = 0; k < 4; ++k) { d.push_back(m.getModuleExtent()[k]); d.push_back(m.getLocalModuleExtent()[k]); }
  for (int k = 0; k < 5; ++k) {
    double a = h.u() * 100, b = h.u() * 6; put(d, [&] { return m.isInsideModule(a, b); }); put(d, [&] { return m.getDistanceToModule(a, b); });
    put(d, [&] { return m.localToGlobal(a, b)[0]; }); put(d, [&] { return m.localToGlobal(a, b)[1]; }); put(d, [&] { return m.globalToLocal(a, b)[0]; }); put(d, [&] { return m.globalToLocal(a, b)[1]; });
  }
  Desc e = describe(static_cast<const TPCModuleImpl&>(m).getLocalPadLayout(), s + 5, list); d.insert(d.end(), e.begin(), e.end());
  params(d, dynamic_cast<const GearParameters&>(m));
  return d;
}
static Desc describeT(const TPCParametersImpl& t, uint64_t s) {
  Desc d; Gen h; h.s = s | 1;
  d.push_back(t.getNModules()); d.push_back(t.getMaxDriftLength()); d.push_back(t.getCoordinateType()); d.push_back(t.getDriftVelocity());
  put(d, [&] { return t.getReadoutFrequency(); });
  for (int k = 0; k < 4; ++k) put(d, [&] { return t.getPlaneExtent()[k]; });
  for (size_t k = 0; k < t.getModules().size(); ++k) { Desc e = describeM(*t.getModules()[k], s + k, true); d.insert(d.end(), e.begin(), e.end()); int id = t.getModules()[k]->getModuleID(); d.push_back(&t.getModule(id) == t.getModules()[k]); }
  for (int id = -5; id < 8; ++id) put(d, [&] { return t.getModule(id).getModuleID(); });
  for (int k = 0; k < 6; ++k) {
    double a = h.u() * 100, b = h.u() * 6, z = h.u() * 1000 - 500;
    put(d, [&] { return t.getNearestModule(a, b).getModuleID(); }); put(d, [&] { return t.getNearestModule(a, b, z).getModuleID(); });
    put(d, [&] { GlobalPadIndex p = t.getNearestPad(a, b, z); return p.getPadIndex() * 31. + p.getModuleID(); }); put(d, [&] { return t.isInsideModule(a, b, z); }); put(d, [&] { return t.isInsidePad(a, b, z); }); put(d, [&] { return t.isInsidePad(a, b); });
  }
  params(d, t);
  return d;
}
static bool same(const Desc& a, const Desc& b) { if (a.size() != b.size()) return false; for (size_t k = 0; k < a.size(); ++k) if (!(a[k] == b[k]) && !(a[k] != a[k] && b[k] != b[k])) return false; return true; }
static int firstDiff(const Desc& a, const Desc& b) { size_t k = 0; for (; k < a.size() && k < b.size(); ++k) if (a[k] != b[k]) break; return k; }
#define SAME(a, b, key, what) do { Desc x_ = (a), y_ = (b); CHECK(same(x_, y_), key, "%s: differs at %d (sizes %zu %zu)", what, firstDiff(x_, y_), x_.size(), y_.size()); } while (0)

static Lay genKind(Gen& g, int k) { return k == 1 ? genRect(g) : k == 2 ? genSize(g) : k == 3 ? genAngle(g) : genVers(g); }
static PadRowLayout2D* copyOf(const PadRowLayout2D* p, int k) {
  if (k == 1) return new RectangularPadRowLayout(*static_cast<const RectangularPadRowLayout*>(p));
  if (k == 2) return new FixedPadSizeDiskLayout(*static_cast<const FixedPadSizeDiskLayout*>(p));
  if (k == 3) return new FixedPadAngleDiskLayout(*static_cast<const FixedPadAngleDiskLayout*>(p));
  return new VersatileDiskRowLayout(*static_cast<const VersatileDiskRowLayout*>(p));
}
static void assign(PadRowLayout2D* a, const PadRowLayout2D* p, int k) {
  if (k == 1) *static_cast<RectangularPadRowLayout*>(a) = *static_cast<const RectangularPadRowLayout*>(p);
  else if (k == 2) *static_cast<FixedPadSizeDiskLayout*>(a) = *static_cast<const FixedPadSizeDiskLayout*>(p);
  else if (k == 3) *static_cast<FixedPadAngleDiskLayout*>(a) = *static_cast<const FixedPadAngleDiskLayout*>(p);
  else *static_cast<VersatileDiskRowLayout*>(a) = *static_cast<const VersatileDiskRowLayout*>(p);
}
static void grow(Gen& g, PadRowLayout2D* p, Ref& r) { if (r.kind == 1) addRect(g, *static_cast<RectangularPadRowLayout*>(p), r); else if (r.kind == 4) addVers(g, *static_cast<VersatileDiskRowLayout*>(p), r, false); }
static void layout(Gen& g) {
  int k = g.i("kind", 1, 4); Lay l = genKind(g, k); PadRowLayout2D* a = l.p.get(); uint64_t s = g.raw();
  if (g.chance(.5)) { describe(*a, s, true); OP("listed "); }
  PadRowLayout2D* c = 0; int how = g.i("how", 0, 3); Ref cr = l.r; Lay other;
  if (how == 0) c = a->clone();
  else if (how == 1) c = copyOf(a, k);
  else if (how == 2) { other = genKind(g, k); if (g.chance(.5)) describe(*other.p, s, true); c = copyOf(other.p.get(), k); if (g.chance(.5)) describe(*c, s, true); assign(c, a, k); }
  else { Desc d = describe(*a, s, g.chance(.5)); assign(a, a, k); SAME(describe(*a, s, true), describe(*a, s, true), K("self", l.r), "self"); c = a->clone(); }
  std::unique_ptr<PadRowLayout2D> hold(c);
  CHECK(typeid(*c) == typeid(*a), K("type", l.r), "");
  Desc d0 = describe(*a, s, true);
  SAME(d0, describe(*c, s, true), K("copy", l.r), "copy");
  if (k == 1 && g.chance(.3)) {            // the copy also continues like the original
    RectangularPadRowLayout* q = static_cast<RectangularPadRowLayout*>(c); PadRowLayout2D* a2 = a->clone(); q->repeatRows(2); static_cast<RectangularPadRowLayout*>(a2)->repeatRows(2);
    static_cast<RectangularPadRowLayout*>(a)->repeatRows(2); SAME(describe(*a, s, true), describe(*q, s, true), "repeat:rect", "repeat"); SAME(describe(*a2, s, true), describe(*q, s, true), "repeat:rect", "repeat2"); delete a2; d0 = describe(*q, s, true); return;
  }
  if (g.chance(.5)) { grow(g, a, l.r); SAME(d0, describe(*c, s, true), K("independent", l.r), "original changed"); l.p.reset(); OP("destroy original "); SAME(d0, describe(*c, s, true), K("independent", l.r), "original destroyed"); }
  else { grow(g, c, cr); SAME(d0, describe(*a, s, true), K("independent", l.r), "copy changed"); hold.reset(); OP("destroy copy "); SAME(d0, describe(*a, s, true), K("independent", l.r), "copy destroyed"); }
}
static void module(Gen& g) {
  Mod q = genMod(g); randParams(g, *q.m); uint64_t s = g.raw(); Desc d0 = describeM(*q.m, s, g.chance(.5)); d0 = describeM(*q.m, s, true);
  int how = g.i("how", 0, 3); std::shared_ptr<TPCModuleImpl> c;
  if (how == 0) c.reset(dynamic_cast<TPCModuleImpl*>(q.m->clone()));
  else if (how == 1) c.reset(new TPCModuleImpl(*q.m));
  else if (how == 2) { Mod o = genMod(g); randParams(g, *o.m); c = o.m; *c = *q.m; }
  else { TPCModuleImpl& self = *q.m; *q.m = self; SAME(d0, describeM(*q.m, s, true), "self:module", "self"); c.reset(new TPCModuleImpl(*q.m)); }
  CHECK(c != 0, "clone:module", "");
  SAME(d0, describeM(*c, s, true), "copy:module", "copy");
  CHECK(&c->getLocalPadLayout() != &q.m->getLocalPadLayout(), "shared:module", "");
  if (g.chance(.5)) { placeModule(g, q, 3); randParams(g, *q.m); SAME(d0, describeM(*c, s, true), "independent:module", "original changed"); q.m.reset(); SAME(d0, describeM(*c, s, true), "independent:module", "original destroyed"); }
  else { Mod w = q; w.m = c; placeModule(g, w, 3); randParams(g, *c); SAME(d0, describeM(*q.m, s, true), "independent:module", "copy changed"); w.m.reset(); c.reset(); SAME(d0, describeM(*q.m, s, true), "independent:module", "copy destroyed"); }
}
static std::shared_ptr<TPCParametersImpl> genTPC(Gen& g, int mom) {
  std::shared_ptr<TPCParametersImpl> t(new TPCParametersImpl(g.d("drift", 1, 900), mom)); int n = g.i("modules", 0, 3);
  for (int k = 0; k < n; ++k) { Mod q = genMod(g, mom, k + (int)g.bare(0, 1) * 4, g.bare(0, 3)); try { t->addModule(new TPCModuleImpl(*q.m)); } catch (gear::Exception&) {} }
  t->setDriftVelocity(g.d("vd", 0, 9)); randParams(g, *t); return t;
}
static void tpc(Gen& g) {
  int mom = g.b("polarTPC") ? POL : CAR; std::shared_ptr<TPCParametersImpl> t = genTPC(g, mom), c; uint64_t s = g.raw(); Desc d0 = describeT(*t, s);
  int how = g.i("how", 0, 2);
  if (how == 0) c.reset(new TPCParametersImpl(*t));
  else if (how == 1) { c = genTPC(g, mom); *c = *t; }
  else { TPCParametersImpl& self = *t; *t = self; SAME(d0, describeT(*t, s), "self:tpc", "self"); c.reset(new TPCParametersImpl(*t)); }
  SAME(d0, describeT(*c, s), "copy:tpc", "copy");
  for (size_t k = 0; k < t->getModules().size(); ++k) CHECK(t->getModules()[k] != c->getModules()[k], "shared:tpc", "");
  auto change = [&](TPCParametersImpl& x) { Mod q = genMod(g, mom, 7777, 2); x.addModule(new TPCModuleImpl(*q.m)); x.setMaxDriftLength(123); x.setDriftVelocity(5); randParams(g, x); if (!x.getModules().empty()) try { dynamic_cast<TPCModuleImpl*>(x.getModules()[0])->setAngle(.3); } catch (gear::NotImplementedException&) {} };
  if (g.chance(.5)) { change(*t); SAME(d0, describeT(*c, s), "independent:tpc", "original changed"); t.reset(); SAME(d0, describeT(*c, s), "independent:tpc", "original destroyed"); }
  else { change(*c); SAME(d0, describeT(*t, s), "independent:tpc", "copy changed"); c.reset(); SAME(d0, describeT(*t, s), "independent:tpc", "copy destroyed"); }
}
PARTS_TABLE({"layout", layout}, {"module", module}, {"tpc", tpc})
