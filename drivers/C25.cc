#include "vc.hh"
#include "gearimpl/Vector3D.h"
using namespace gear;
struct P3 { double a, b, c; P3(double x, double y, double z) : a(x), b(y), c(z) {} double x() const { return a; } double y() const { return b; } double z() const { return c; } };
static bool nr(double a, double b, double s) { return std::fabs(a - b) <= 1e-12 * (1e-3 + s); }
static double comp(Gen& g, const char* n) { return g.chance(.2) ? 0. : g.chance(.2) ? (double)g.i(n, -3, 3) : g.chance(.3) ? g.d(n, -1e-3, 1e-3) : g.d(n, -1e3, 1e3); }
static void vectors(Gen& g) {
  double x = comp(g, "x"), y = comp(g, "y"), z = comp(g, "z"), s = comp(g, "s"); const double a[3] = {x, y, z}; const float f[3] = {(float)x, (float)y, (float)z};
  Vector3D v(x, y, z), w(comp(g, "x2"), comp(g, "y2"), comp(g, "z2")); const Vector3D& c = v; const Vector3D u(a), t(x, y, z, Vector3D::cartesian), fl(f), o(P3(x, y, z)), none;
  for (const Vector3D* q : {&c, &u, &t, &o}) CHECK(q->x() == x && q->y() == y && q->z() == z && (*q)[0] == x && (*q)[1] == y && (*q)[2] == z, "components", "");
  CHECK(v.x() == x && v.y() == y && v.z() == z && v[0] == x && v[1] == y && v[2] == z, "components", "not const");
  CHECK(fl.x() == f[0] && fl.y() == f[1] && fl.z() == f[2] && none.x() == 0 && none.y() == 0 && none.z() == 0, "components", "float or default");
  P3 p = v.to<P3>(); CHECK(p.a == x && p.b == y && p.c == z, "conversion", "");
  double R = std::sqrt(x * x + y * y + z * z), T = std::sqrt(x * x + y * y);
  CHECK(nr(c.r(), R, R) && nr(c.r2(), R * R, R * R) && nr(c.rho(), T, T) && nr(c.trans(), T, T) && nr(c.trans2(), T * T, T * T), "lengths", "");
  CHECK(nr(T * std::cos(c.phi()), x, R) && nr(T * std::sin(c.phi()), y, R) && c.phi() <= M_PI && c.phi() >= -M_PI, "phi", "%.17g", c.phi());
  CHECK(nr(R * std::cos(c.theta()), z, R) && nr(R * std::sin(c.theta()), T, R) && c.theta() >= 0 && c.theta() <= M_PI, "theta", "%.17g", c.theta());
  Vector3D cy(c.rho(), c.phi(), c.z(), Vector3D::cylindrical), sp(c.r(), c.phi(), c.theta(), Vector3D::spherical);
  for (const Vector3D* q : {(const Vector3D*)&cy, (const Vector3D*)&sp}) CHECK(nr(q->x(), x, R) && nr(q->y(), y, R) && nr(q->z(), z, R), q == &cy ? "cylindrical" : "spherical", "%.17g,%.17g,%.17g", q->x(), q->y(), q->z());
  double ro = g.d("rho", 0, 100), ph = g.d("phi", -10, 10), th = g.d("theta", 0, M_PI); Vector3D c1(ro, ph, z, Vector3D::cylindrical), s1(ro, ph, th, Vector3D::spherical);
  CHECK(nr(c1.x(), ro * std::cos(ph), ro) && nr(c1.y(), ro * std::sin(ph), ro) && c1.z() == z && nr(c1.rho(), ro, ro), "cylindrical", "");
  CHECK(nr(s1.x(), ro * std::sin(th) * std::cos(ph), ro) && nr(s1.y(), ro * std::sin(th) * std::sin(ph), ro) && nr(s1.z(), ro * std::cos(th), ro) && nr(s1.r(), ro, ro) && (ro == 0 || std::fabs(s1.theta() - th) < 1e-6), "spherical", "");
  double B[3] = {w.x(), w.y(), w.z()}, S = R + w.r(); Vector3D r[4] = {v + w, v - w, s * v, v.cross(w)};
  for (int i = 0; i < 3; ++i) { int j = (i + 1) % 3, k = (i + 2) % 3; CHECK(r[0][i] == a[i] + B[i] && r[1][i] == a[i] - B[i] && r[2][i] == s * a[i], "algebra", "component %d", i); CHECK(nr(r[3][i], a[j] * B[k] - a[k] * B[j], S * S), "vector product", "component %d", i); }
  CHECK(nr(v.dot(w), x * B[0] + y * B[1] + z * B[2], S * S), "scalar product", "");
  CHECK((v == w) == (x == B[0] && y == B[1] && z == B[2]) && v == u && !(v == Vector3D(x, y, z + 1)) && !(v == Vector3D(x + 1, y, z)) && !(v == Vector3D(x, y - 1, z)), "equality", "");
  if (R > 0) { Vector3D n = v.unit(); CHECK(nr(n.r(), 1, 1) && nr(n.x() * R, x, R) && nr(n.y() * R, y, R) && nr(n.z() * R, z, R), "unit", ""); }
  CHECK(v.x() == x && v.y() == y && v.z() == z && w.x() == B[0] && w.y() == B[1] && w.z() == B[2], "operands kept", "");
  int i = g.i("set", 0, 2); v[i] = s; for (int j = 0; j < 3; ++j) CHECK(v[j] == (i == j ? s : a[j]), "set component", "%d", i);
}
PARTS_TABLE({"vectors", vectors})
