#include "vc.hh"
#include "gearimpl/FTDParametersImpl.h"
using namespace gear;
typedef FTDLayerLayout F;
struct D { int np, ns; bool two; int type; double half, phi0, alpha, z, dz, s0, s[6], a[6]; };
static void same(const F& l, int i, const D& d, int k) {
  CHECK(l.getNPetals(i) == d.np && l.getNSensors(i) == d.ns && l.isDoubleSided(i) == d.two && l.getSensorType(i) == d.type, "counts", "disk %d", i);
  CHECK(l.getPhiHalfDistance(i) == d.half && l.getPhi0(i) == d.phi0 && l.getAlpha(i) == d.alpha && l.getZposition(i) == d.z && l.getZoffset(i) == d.dz && l.getZoffsetSign0(i) == d.s0, "placement", "disk %d", i);
  CHECK(l.getSupportRinner(i) == d.s[0] && l.getSupportThickness(i) == d.s[1] && l.getSupportLengthMin(i) == d.s[2] && l.getSupportLengthMax(i) == d.s[3] && l.getSupportWidth(i) == d.s[4] && l.getSupportRadLength(i) == d.s[5], "support", "disk %d of %d", i, k);
  CHECK(l.getSensitiveRinner(i) == d.a[0] && l.getSensitiveThickness(i) == d.a[1] && l.getSensitiveLengthMin(i) == d.a[2] && l.getSensitiveLengthMax(i) == d.a[3] && l.getSensitiveWidth(i) == d.a[4] && l.getSensitiveRadLength(i) == d.a[5], "sensitive", "disk %d of %d", i, k);
}
static bool close(double a, double b) { return std::fabs(a - b) <= 1e-9 * (1 + std::fabs(a) + std::fabs(b)); }
static void disks(Gen& g) {
  FTDParametersImpl par; FTDLayerLayoutImpl alone; std::vector<D> ref; int n = g.i("disks", 0, 12); bool often = g.b("often");
  auto check = [&] {
    int N = ref.size();
    for (const F* l : {(const F*)&par.getFTDLayerLayout(), (const F*)&alone}) {
      CHECK(l->getNLayers() == N, "number", "%d", l->getNLayers());
      for (int i = 0; i < 2 * N; ++i) {
        const D& d = ref[i % N]; int side = i < N ? 1 : -1; same(*l, i, d, N);
        for (int p : {0, 1, 2, 3, d.np / 2, d.np - 1}) { if (p < 0 || p >= d.np) continue;
          double want = d.z + (p % 2 ? -1 : 1) * d.s0 * d.dz; if (want <= 0) continue;
          CHECK(close(l->getSupportZposition(i, p), side * want), "z of the support", "disk %d petal %d: %g", i, p, l->getSupportZposition(i, p));
          CHECK(close(l->getPhiPetalCd(i, p), d.phi0 + 2 * p * d.half), "phi", "disk %d petal %d: %g", i, p, l->getPhiPetalCd(i, p));
          for (int s : {1, 2, 3, d.ns / 2, d.ns / 2 + 1, d.ns}) if (s >= 1 && s <= d.ns) {
            int out = d.two && s > d.ns / 2 ? 1 : -1; double w = side * (want + out * (d.s[1] + d.a[1]) / 2);
            CHECK(close(l->getSensitiveZposition(i, p, s), w), "z of the sensor", "disk %d petal %d sensor %d of %d: %g, not %g", i, p, s, d.ns, l->getSensitiveZposition(i, p, s), w);
          }
          for (int s : {-1, 0, d.ns + 1, d.ns + 50}) CHECK(outcome([&] { l->getSensitiveZposition(i, p, s); }) == GEAR_EXC, "no such sensor", "sensor %d of %d", s, d.ns);
        }
        if (i < N) CHECK(close(l->getMaxRadius(i, false), d.s[0] + d.s[4]) && close(l->getMaxRadius(i, true), d.a[0] + d.a[4]), "radius", "disk %d", i);
      }
      for (int i : {-1, -N - 1, 2 * N, 2 * N + 1, 2 * N + 77}) {
        CHECK(outcome([&] { l->getNPetals(i); }) != OK, "outside", "getNPetals(%d)", i); CHECK(outcome([&] { l->getNSensors(i); }) != OK, "outside", "getNSensors(%d)", i); CHECK(outcome([&] { l->getZposition(i); }) != OK, "outside", "getZposition(%d)", i);
        CHECK(outcome([&] { l->getSupportRinner(i); }) != OK, "outside", "getSupportRinner(%d)", i); CHECK(outcome([&] { l->getSensitiveRinner(i); }) != OK, "outside", "getSensitiveRinner(%d)", i); CHECK(outcome([&] { l->getSensitiveWidth(i); }) != OK, "outside", "getSensitiveWidth(%d)", i);
      }
    }
  };
  check();
  for (int k = 0; k < n; ++k) {
    D d = {(int)g.i("petals", 1, 40), (int)g.i("sensors", 0, 9), g.b("double sided"), (int)g.i("type", 0, 3), g.d("half angle", 0, 1), g.d("phi0", -7, 7), g.d("alpha", -1, 1), g.d("z", 1, 2000), g.d("offset", -1, 40), g.b("sign") ? 1. : -1., {}, {}};
    for (double* v : {d.s, d.a}) { v[0] = g.d("rinner", 0, 300); v[1] = g.d("thickness", 0, 10); v[2] = g.d("length min", 0, 99); v[3] = g.d("length max", 100, 300); v[4] = g.d("width", 0, 300); v[5] = g.d("radlength", -1, 100); }
    for (int w = 0; w < 2; ++w) {
      auto add = [&](auto& t) { t.addLayer(d.np, d.ns, d.two, d.type, d.half, d.phi0, d.alpha, d.z, d.dz, d.s0, d.s[0], d.s[1], d.s[2], d.s[3], d.s[4], d.s[5], d.a[0], d.a[1], d.a[2], d.a[3], d.a[4], d.a[5]); };
      if (w) add(alone); else add(par);
    }
    ref.push_back(d); if (often) check();
  }
  check();
}
PARTS_TABLE({"disks", disks})
