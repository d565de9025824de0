#include "tpc.hh"
static double regionDist(int lay, const DV& e, double a, double b) {
  if (lay == CAR) { double dx = std::max(0., std::max(e[0] - a, a - e[1])), dy = std::max(0., std::max(e[2] - b, b - e[3])); return std::hypot(dx, dy); }
  while (b < e[2]) b += TWOPI; while (b >= e[2] + TWOPI) b -= TWOPI;
  if (b <= e[3]) return std::max(0., std::max(e[0] - a, a - e[1]));
  double x = a * std::cos(b), y = a * std::sin(b), best = 1e300;
  for (int k = 2; k < 4; ++k) { double ux = std::cos(e[k]), uy = std::sin(e[k]), t = std::min(e[1], std::max(e[0], x * ux + y * uy)); best = std::min(best, std::hypot(x - t * ux, y - t * uy)); }
  return best;
}
// smallest box around the region in a Cartesian TPC
static DV box(const Place& p, const DV& e) {
  DV o = {1e300, -1e300, 1e300, -1e300}; std::vector<std::pair<double, double> > pts;
  if (p.lay == CAR) for (int i = 0; i < 4; ++i) pts.push_back(std::make_pair(e[i & 1], e[2 + (i >> 1)]));
  else {
    std::vector<double> an = {e[2], e[3]};
    for (int k = 0; k < 4; ++k) { double a = k * M_PI / 2 - p.ang; while (a < e[2]) a += TWOPI; while (a >= e[2] + TWOPI) a -= TWOPI; if (a < e[3]) an.push_back(a); }
    for (double a : an) for (int i = 0; i < 2; ++i) { double x, y; cart(POL, e[i], a, x, y); pts.push_back(std::make_pair(x, y)); }
  }
  for (auto& t : pts) { double x, y; p.glob(t.first, t.second, x, y); o[0] = std::min(o[0], x); o[1] = std::max(o[1], x); o[2] = std::min(o[2], y); o[3] = std::max(o[3], y); }
  return o;
}
static void vec(const char* key, const DV& v, const DV& w) { CHECK(v.size() == 4, key, "size"); for (int k = 0; k < 4; ++k) CHECK(near(v[k], w[k], 1e-6), key, "[%d] %.12g expected %.12g", k, v[k], w[k]); }
static void area(Gen& g) {
  Mod q = genMod(g, -1, -1000000, 0);
  for (int round = 0; round < 3; ++round) {
    bool ext = !(q.p.mom == POL && q.p.lay == CAR);
    DV e = localExtent(q); vec("localextent", q.m->getLocalModuleExtent(), e);
    if (q.p.mom == CAR && !(q.p.lay == POL && (e[2] < -TWOPI || e[3] > TWOPI || q.ext[2] < -TWOPI || q.ext[3] > TWOPI))) { vec("moduleextent", q.m->getModuleExtent(), box(q.p, e)); vec("planeextent", q.m->getPlaneExtent(), box(q.p, q.ext)); }
    (void)ext;
    for (int k = 0; k < 12; ++k) {
      double c0, c1, a, b; genPoint(g, q, c0, c1); toLocal(q, c0, c1, a, b, e[2]);
      if (q.p.lay == POL && a < 1e-3) continue;
      double d = regionDist(q.p.lay, e, a, b), got = q.m->getDistanceToModule(c0, c1);
      CHECK(near(got, d, 1e-6), "distance", "got %.12g expected %.12g", got, d);
      bool in = q.m->isInsideModule(c0, c1);
      double t = 1e-7, d2 = regionDist(q.p.lay, e, a + t, b), d3 = regionDist(q.p.lay, e, a - t, b), d4 = regionDist(q.p.lay, e, a, b + t), d5 = regionDist(q.p.lay, e, a, b - t);
      bool z = d == 0; if ((d2 == 0) != z || (d3 == 0) != z || (d4 == 0) != z || (d5 == 0) != z) continue;
      CHECK(in == z, "inside", "reported %d, distance %.12g", in, d); CHECK((got == 0) == in, "zero", "inside %d distance %.12g", in, got);
    }
    placeModule(g, q, g.i("more", 1, 4));
  }
}
PARTS_TABLE({"area", area})
