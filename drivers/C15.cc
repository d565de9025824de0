#include "vc.hh"
#include "gearimpl/CalorimeterParametersImpl.h"
using namespace gear;
struct L { double d, t, c0, c1, a; };
static void layers(Gen& g) {
  bool barrel = g.b("barrel"); double a = g.d("r", -5, 100), b = g.d("r2", -5, 100), z = g.d("z", -5, 100), phi = g.d("phi0", -7, 7); int sym = g.i("symmetry", -2, 12);
  CalorimeterParametersImpl* cp = barrel ? (sym == 8 && phi < -6 ? new CalorimeterParametersImpl(a, z) : new CalorimeterParametersImpl(a, z, sym, phi)) : new CalorimeterParametersImpl(a, b, z, sym, phi);
  if (barrel && sym == 8 && phi < -6) phi = 0;
  CalorimeterParametersImpl& c = *cp; LayerLayoutImpl alone; std::vector<L> ref; int n = g.i("ops", 0, 12); bool often = g.b("often");
  auto check = [&] {
    double end = ref.empty() ? 0 : ref.back().d + ref.back().t; 
    CHECK(c.getLayoutType() == (barrel ? CalorimeterParameters::BARREL : CalorimeterParameters::ENDCAP), "type", ""); CHECK(c.getSymmetryOrder() == sym, "symmetry", ""); CHECK(c.getPhi0() == phi, "phi0", "%g", c.getPhi0());
    std::vector<double> x = c.getExtent(), w = barrel ? std::vector<double>{a, ref.empty() ? a : end, 0., z} : std::vector<double>{a, b, z, ref.empty() ? z : end};
    CHECK(x == w, "extent", "");
    for (const LayerLayout* l : {(const LayerLayout*)&c.getLayerLayout(), (const LayerLayout*)&alone}) {
      CHECK(l->getNLayers() == (int)ref.size(), "number", "%d", l->getNLayers());
      for (int k = 0; k < (int)ref.size(); ++k) CHECK(l->getDistance(k) == ref[k].d && l->getThickness(k) == ref[k].t && l->getCellSize0(k) == ref[k].c0 && l->getCellSize1(k) == ref[k].c1 && l->getAbsorberThickness(k) == ref[k].a, "layer", "%d of %d", k, (int)ref.size());
      for (int k : {-1, -(int)ref.size() - 1, (int)ref.size(), (int)ref.size() + 1, (int)ref.size() + 100}) {
        CHECK(outcome([&] { l->getDistance(k); }) != OK, "outside", "getDistance(%d)", k); CHECK(outcome([&] { l->getThickness(k); }) != OK, "outside", "getThickness(%d)", k);
        CHECK(outcome([&] { l->getCellSize0(k); }) != OK, "outside", "getCellSize0(%d)", k); CHECK(outcome([&] { l->getCellSize1(k); }) != OK, "outside", "getCellSize1(%d)", k);
        CHECK(outcome([&] { l->getAbsorberThickness(k); }) != OK, "outside", "getAbsorberThickness(%d)", k);
      }
    }
  };
  check();
  for (int k = 0; k < n; ++k) {
    bool pos = g.chance(.3), abs = g.b("absorber"); L l = {pos ? g.d("distance", -10, 200) : ref.empty() ? 0 : ref.back().d + ref.back().t, g.d("thickness", 0, 20), g.d("cell0", -1, 20), g.d("cell1", -1, 20), abs ? g.d("abs", 0, 20) : 0};
    for (LayerLayoutImpl* p : {&c.layerLayout(), &alone}) { if (pos) { if (abs) p->positionLayer(l.d, l.t, l.c0, l.c1, l.a); else p->positionLayer(l.d, l.t, l.c0, l.c1); } else if (abs) p->addLayer(l.t, l.c0, l.c1, l.a); else p->addLayer(l.t, l.c0, l.c1); }
    ref.push_back(l); if (often) check();
  }
  check(); delete cp;
}
PARTS_TABLE({"layers", layers})
