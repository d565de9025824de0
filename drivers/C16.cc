#include "vc.hh"
#include "gearimpl/ZPlanarParametersImpl.h"
using namespace gear;
typedef ZPlanarLayerLayoutImpl L;
struct V { double dist, off, thick, len, width, rad; };
struct D { int n; double phi0; V v[2]; };
static bool close(double a, double b) { return std::fabs(a - b) <= 1e-9 * (1 + std::fabs(a) + std::fabs(b)); }
struct Box { double b, a, z; };                                    // along the normal (from the inner face), along the offset direction, |z|
static Box local(const D& d, int vol, int ladder, const Vector3D& p) {
  double phi = d.phi0 + ladder * 2 * M_PI / d.n; const V& v = d.v[vol];
  return Box{p.x() * std::cos(phi) + p.y() * std::sin(phi) - v.dist, -p.x() * std::sin(phi) + p.y() * std::cos(phi), std::fabs(p.z())};
}
static double out(double x, double lo, double hi) { return std::max(lo - x, x - hi); }          // > 0 outside the interval
// largest excess over the limits of the box: <= 0 inside
static double excess(const D& d, int vol, int ladder, double gap, const Vector3D& p) {
  Box q = local(d, vol, ladder, p); const V& v = d.v[vol];
  return std::max(std::max(out(q.b, 0, v.thick), out(q.a, -v.width / 2 + v.off, v.width / 2 + v.off)), out(q.z, gap / 2, v.len + gap / 2));
}
static double distance(const D& d, int vol, int ladder, double gap, const Vector3D& p) {      // to the surface, from outside
  Box q = local(d, vol, ladder, p); const V& v = d.v[vol];
  double x = std::max(0., out(q.b, 0, v.thick)), y = std::max(0., out(q.a, -v.width / 2 + v.off, v.width / 2 + v.off)), z = std::max(0., out(q.z, gap / 2, v.len + gap / 2));
  return std::sqrt(x * x + y * y + z * z);
}
static Vector3D global(const D& d, int vol, int ladder, double b, double a, double z) {
  double phi = d.phi0 + ladder * 2 * M_PI / d.n, r = d.v[vol].dist + b;
  return Vector3D(r * std::cos(phi) - a * std::sin(phi), r * std::sin(phi) + a * std::cos(phi), z);
}
static D layer(Gen& g) {
  D d; d.n = g.i("ladders", 1, g.chance(.3) ? 3 : 24); d.phi0 = g.d("phi0", -3.2, 6.4);
  if (g.chance(.2)) { static const double q[] = {0, M_PI / 2, -M_PI / 2, M_PI, M_PI / 4}; d.phi0 = q[g.bare(0, 4)]; OP("phi0:=%.17g ", d.phi0); }
  for (int k = 0; k < 2; ++k) { V& v = d.v[k]; v.dist = g.d("distance", 5, 120); v.width = g.d("width", 4, 40); v.off = g.chance(.2) ? g.d("large offset", -40, 40) : g.d("offset", -6, 6); v.thick = g.d("thickness", .02, 3); v.len = g.d("length", 10, 150); v.rad = g.d("radlength", .01, 100); }
  return d;
}
static void stored(const L& l, const std::vector<D>& ref) {
  CHECK(l.getNLayers() == (int)ref.size(), "number", "%d", l.getNLayers());
  for (int i = 0; i < (int)ref.size(); ++i) {
    const D& d = ref[i]; const V &a = d.v[0], &s = d.v[1];
    CHECK(l.getNLadders(i) == d.n && close(l.getPhi0(i), d.phi0), "placement", "layer %d: %d %g", i, l.getNLadders(i), l.getPhi0(i));
    CHECK(l.getLadderDistance(i) == a.dist && l.getLadderOffset(i) == a.off && l.getLadderThickness(i) == a.thick && l.getLadderLength(i) == a.len && l.getLadderWidth(i) == a.width && l.getLadderRadLength(i) == a.rad, "ladder", "layer %d", i);
    CHECK(l.getSensitiveDistance(i) == s.dist && l.getSensitiveOffset(i) == s.off && l.getSensitiveThickness(i) == s.thick && l.getSensitiveLength(i) == s.len && l.getSensitiveWidth(i) == s.width && l.getSensitiveRadLength(i) == s.rad, "sensitive", "layer %d", i);
    for (int k = 0; k < 2; ++k) {
      // the edges are given in the angle that runs clockwise from the y-axis
      const V& v = d.v[k]; double i0 = M_PI / 2 - d.phi0, lo = -v.width / 2 - v.off, hi = v.width / 2 - v.off, o = v.dist + v.thick;
      CHECK(close(l.getStartInnerPhi(i, k), i0 + std::atan(lo / v.dist)) && close(l.getEndInnerPhi(i, k), i0 + std::atan(hi / v.dist)), "inner edges", "layer %d volume %d", i, k);
      CHECK(close(l.getStartOuterPhi(i, k), i0 + std::atan(lo / o)) && close(l.getEndOuterPhi(i, k), i0 + std::atan(hi / o)), "outer edges", "layer %d volume %d", i, k);
      double r = std::hypot(o, std::max(std::fabs(lo), std::fabs(hi)));
      CHECK(std::fabs(l.getMaxRadius(i, k) - r) < 1e-6 * r, "largest radius", "layer %d volume %d: %.9g not %.9g", i, k, l.getMaxRadius(i, k), r);
    }
  }
  for (int i : {-1, (int)ref.size(), (int)ref.size() + 7}) CHECK(outcome([&] { l.getNLadders(i); }) != OK && outcome([&] { l.getSensitiveWidth(i); }) != OK && outcome([&] { l.getLadderWidth(i); }) != OK && outcome([&] { l.getStartOuterPhi(i, true); }) != OK, "outside", "layer %d", i);
}
static void ladders(Gen& g) {
  double h = g.chance(.4) ? 0 : g.d("shell half length", 20, 160), gap = g.chance(.4) ? 0 : g.d("gap", 0, 5), rin = g.d("rin", 1, 5), rout = g.d("rout", 100, 200), rl = g.d("rl", 1, 5); int type = g.i("type", 1, 3);
  ZPlanarParametersImpl par(type, rin, rout, h, gap, rl); L alone; std::vector<D> ref; int n = g.i("layers", 1, 4);
  CHECK(par.getType() == type && par.getShellInnerRadius() == rin && par.getShellOuterRadius() == rout && par.getShellHalfLength() == h && par.getShellGap() == gap && par.getShellRadLength() == rl, "shell", "");
  for (int k = 0; k < n; ++k) {
    D d = layer(g); const V &a = d.v[0], &s = d.v[1];
    for (int w = 0; w < 2; ++w) { auto add = [&](auto& t) { t.addLayer(d.n, d.phi0, a.dist, a.off, a.thick, a.len, a.width, a.rad, s.dist, s.off, s.thick, s.len, s.width, s.rad); }; if (w) add(alone); else add(par); }
    ref.push_back(d);
  }
  stored(alone, ref); stored((const L&)par.getZPlanarLayerLayout(), ref);
  for (int k = 0; k < 12; ++k) {
    int vol = g.i("volume", 0, 1), li = g.i("near layer", 0, n - 1), la = g.i("near ladder", 0, ref[li].n - 1); const V& v = ref[li].v[vol];
    Vector3D p;
    switch (g.i("kind", 0, 5)) {
      case 0: p = Vector3D(g.d("x", -150, 150), g.d("y", -150, 150), g.d("z", -170, 170)); break;
      case 1: { static const double q[][2] = {{0, 1}, {0, -1}, {1, 0}, {-1, 0}, {0, 0}}; int w = g.i("axis", 0, 4); double r = g.d("r", 0, 150); p = Vector3D(r * q[w][0], r * q[w][1], g.d("z", -60, 60)); break; }
      default: {                                               // around a ladder: inside, at the faces and corners
        double b = g.d("b", -1, v.thick + 1), s = g.d("s", -v.width / 2 + v.off - 1, v.width / 2 + v.off + 1), z = g.d("z", gap / 2 - 1, v.len + gap / 2 + 1);
        if (g.chance(.5)) { double e = 1e-3; int c = g.i("corner", 0, 26);
          if (c % 3) b = c % 3 == 1 ? e * (g.chance(.5) ? 1 : -1) : v.thick + e * (g.chance(.5) ? 1 : -1);
          if (c / 3 % 3) s = v.off + (c / 3 % 3 == 1 ? -1 : 1) * (v.width / 2 + e * (g.chance(.5) ? 1 : -1));
          if (c / 9) z = c / 9 == 1 ? gap / 2 + e : v.len + gap / 2 + e * (g.chance(.5) ? 1 : -1); }
        else if (g.chance(.6)) { b = v.thick * g.u(); s = v.off + v.width * (g.u() - .5); z = gap / 2 + v.len * g.u(); }
        p = global(ref[li], vol, la, b, s, g.b("back") ? -z : z);
      }
    }
    OP("p=(%.17g,%.17g,%.17g) ", p.x(), p.y(), p.z());
    double tol = 5e-4 , best = 1e300, near = 1e300; int bl = -1;
    double zs = h > 1e-3 ? out(std::fabs(p.z()), gap / 2, h + gap / 2) : -1;          // the shell cuts the ladders
    for (int i = 0; i < n; ++i) for (int m = 0; m < ref[i].n; ++m) {
      double e = std::max(zs, excess(ref[i], vol, m, gap, p)); if (e < best) { best = e; bl = i; }
      near = std::min(near, distance(ref[i], vol, m, gap, p));
    }
    SensorID id = {}; id.layer = id.module = id.side = id.sensor = -77;
    bool in = vol ? par.isPointInSensitive(p, &id) : ((const ZPlanarParameters&)par).isPointInLadder(p);
    if (vol) CHECK(in == par.isPointInSensitive(p), "inside", "with and without sensor");
    if (best < -1e-7) CHECK(in, "inside", "volume %d: %g inside layer %d", vol, -best, bl);
    if (best > tol) CHECK(!in, "inside", "volume %d: %g outside", vol, best);
    if (in && vol) {
      CHECK(id.layer >= 0 && id.layer < n && id.module >= 0 && id.module < ref[id.layer].n && id.sensor == 0 && id.side == (p.z() >= 0 ? 1 : -1), "sensor", "layer %d module %d side %d sensor %d", id.layer, id.module, id.side, id.sensor);
      CHECK(excess(ref[id.layer], vol, id.module, gap, p) <= tol, "sensor contains the point", "layer %d module %d: %g outside", id.layer, id.module, excess(ref[id.layer], vol, id.module, gap, p));
    }
    Vector3D w = vol ? par.distanceToNearestSensitive(p) : ((const ZPlanarParameters&)par).distanceToNearestLadder(p);
    if (in) CHECK(w.x() == 0 && w.y() == 0 && w.z() == 0, "distance inside", "%g %g %g", w.x(), w.y(), w.z());
    else {
      if (near > tol) CHECK(std::fabs(w.r() - near) <= 1e-4 + 1e-5 * near, "distance", "volume %d: %.9g, nearest ladder is at %.9g", vol, w.r(), near);
      Vector3D q = p + w; double e = 1e300; for (int i = 0; i < n; ++i) for (int m = 0; m < ref[i].n; ++m) { double x = std::fabs(excess(ref[i], vol, m, gap, q)); if (x < e) e = x; }
      CHECK(e < 1e-3, "on the surface", "ends %g from a surface", e);
    }
  }
}
PARTS_TABLE({"ladders", ladders})
