#include "vc.hh"
#include "gearsurf/MeasurementSurface.h"
#include "gearsurf/CartesianCoordinateSystem.h"
#include "gearsurf/BoundaryRectangle.h"
#include "gearsurf/BoundaryTrapezoid.h"
using namespace gear; using CLHEP::Hep3Vector; using CLHEP::HepRotation;
static Hep3Vector pt(Gen& g, double s) { return Hep3Vector(g.d("px", -s, s), g.d("py", -s, s), g.d("pz", -s, s)); }
static void coordinates(Gen& g) {
  Hep3Vector T = pt(g, 1000), p = pt(g, 1000); HepRotation R; int n = g.i("turns", 0, 3); for (int i = 0; i < n; ++i) { int a = g.i("axis", 0, 2); double d = g.d("angle", -7, 7); a == 0 ? R.rotateX(d) : a == 1 ? R.rotateY(d) : R.rotateZ(d); }
  CartesianCoordinateSystem c(T, R); double e = 1e-9;
  CHECK((*c.getOrigin() - T).mag() == 0, "origin", ""); CHECK((c.getGlobalPoint(Hep3Vector(0, 0, 0)) - T).mag() < e, "origin", "of local frame");
  CHECK((c.getGlobalPoint(p) - (T + R * p)).mag() < e, "global", ""); CHECK((c.getLocalPoint(p) - R.inverse() * (p - T)).mag() < e, "local", "");
  CHECK((c.getGlobalPoint(c.getLocalPoint(p)) - p).mag() < e, "local and back", ""); CHECK((c.getLocalPoint(c.getGlobalPoint(p)) - p).mag() < e, "global and back", "");
  CHECK((c.getLocalXAxis() - R.colX()).mag() < e && (c.getLocalYAxis() - R.colY()).mag() < e && (c.getLocalZAxis() - R.colZ()).mag() < e, "axes", "");
  CHECK(*c.getR() == R, "rotation", "");
}
static void boundaries(Gen& g) {
  bool trap = g.b("trapezoid"), turned = g.b("turned"); double w = g.d("width", .5, 50), l = g.d("length", .5, 50), d = g.d("deltaW", .01, 2), t = g.d("top", 0, 50), al = turned ? g.d("alpha", -7, 7) : 0;
  IBoundary* b = trap ? (IBoundary*)new BoundaryTrapezoid(w, t, l, d, al) : turned ? new BoundaryRectangle(w, l, d, al) : new BoundaryRectangle(w, l, d);
  Hep3Vector T = pt(g, 100); HepRotation R; R.rotateX(g.d("tilt", -3, 3)); R.rotateZ(g.d("turn", -3, 3)); auto* c = new CartesianCoordinateSystem(T, R); int id = g.i("id", -9, 9999);
  MeasurementSurface s(id, c, b), none(id + 1, new CartesianCoordinateSystem(T, R)); CHECK(s.getID() == id && none.getID() == id + 1 && s.getCoordinateSystem() == c, "surface", "");
  for (int k = 0; k < 12; ++k) {
    double v = g.chance(.3) ? (g.b("side") ? 1 : -1) * (l / 2 + g.d("nv", -1e-3, 1e-3)) : g.d("v", -40, 40), wid = trap ? w + (t - w) * (v / l + .5) : w;
    double u = g.chance(.3) ? (g.b("side") ? 1 : -1) * (wid / 2 + g.d("nu", -1e-3, 1e-3)) : g.d("u", -40, 40), n = g.chance(.6) ? 0 : g.d("n", -3, 3);
    double m = std::min(std::min(std::fabs(std::fabs(u) - wid / 2), std::fabs(std::fabs(v) - l / 2)), n == 0 ? 1 : std::fabs(std::fabs(n) - d)); if (m < 1e-7) continue;
    bool in = std::fabs(u) <= wid / 2 && std::fabs(v) <= l / 2 && std::fabs(n) <= d; Hep3Vector p(u * std::cos(al) - v * std::sin(al), u * std::sin(al) + v * std::cos(al), n);
    CHECK(b->isInBoundary(p) == in, "boundary", "point %g,%g,%g of %s %g,%g,%g", u, v, n, trap ? "trapezoid" : "rectangle", w, l, t);
    CHECK(s.isLocalInBoundary(p) == in && s.isGlobalInBoundary(T + R * p) == in, "surface", "point %g,%g,%g", u, v, n); CHECK(none.isLocalInBoundary(p) && none.isGlobalInBoundary(p), "surface", "without boundary");
  }
}
PARTS_TABLE({"coordinates", coordinates}, {"boundaries", boundaries})
