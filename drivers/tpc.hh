#ifndef TPC_HH
#define TPC_HH
#include "layouts.hh"
#include "gearimpl/TPCModuleImpl.h"
#include "gearimpl/TPCParametersImpl.h"
typedef std::vector<double> DV;
static const int POL = PadRowLayout2D::POLAR, CAR = PadRowLayout2D::CARTESIAN;

inline bool sameAngle(double a, double b, double tol = 1e-7) { double d = std::fmod(a - b, TWOPI); d = std::fabs(d); return d < tol || TWOPI - d < tol; }

// a placement, written from the specification
struct Place {
  int mom, lay; double ox, oy, ang; bool neg;
  double offc[2];
  Place() : mom(CAR), lay(CAR), ox(0), oy(0), ang(0), neg(false) { offc[0] = offc[1] = 0; }
  void setOff(double a, double b) { ox = a; oy = b; if (mom == POL) { offc[0] = a * std::cos(b); offc[1] = a * std::sin(b); } else { offc[0] = a; offc[1] = b; } }
  // Cartesian local to Cartesian global
  void glob(double lx, double ly, double& x, double& y) const { x = lx * std::cos(ang) - ly * std::sin(ang) + offc[0]; y = ly * std::cos(ang) + lx * std::sin(ang) + offc[1]; if (neg) x = -x; }
  void loc(double x, double y, double& lx, double& ly) const { if (neg) x = -x; x -= offc[0]; y -= offc[1]; lx = x * std::cos(ang) + y * std::sin(ang); ly = y * std::cos(ang) - x * std::sin(ang); }
};
inline void cart(int type, double a, double b, double& x, double& y) { if (type == POL) { x = a * std::cos(b); y = a * std::sin(b); } else { x = a; y = b; } }

struct Mod {
  std::shared_ptr<TPCModuleImpl> m; std::shared_ptr<PadRowLayout2D> l; Ref r; Place p; int id; double freq, border; bool zset; double z; DV ext;
  Mod() : id(0), freq(0), border(0), zset(false), z(1) {}
};
inline void placeModule(Gen& g, Mod& q, int steps) {
  bool canExt = !(q.p.mom == POL && q.p.lay == CAR);      // extents are not implemented for Cartesian layouts in polar TPCs
  for (int s = 0; s < steps; ++s) {
    int k = g.i("set", 0, 4);
    if (k == 0) {
      double a = g.chance(.2) ? 0 : q.p.mom == POL ? g.d("offset0", 0, 80) : g.d("offset0", -80, 80), b = g.chance(.2) ? 0 : q.p.mom == POL ? g.d("offset1", -6, 6) : g.d("offset1", -80, 80);
      OP("setOffset(%.17g,%.17g) ", a, b); q.p.setOff(a, b);
      Out o = outcome([&] { q.m->setOffset(a, b); }); if (canExt) CHECK(o == OK, "setOffset", "%s", oname(o));
    } else if (k == 1) {
      double a = g.chance(.15) ? 0 : g.chance(.2) ? (double)(g.raw() % 9) * M_PI / 4 - M_PI : g.d("angle", -6.2, 6.2); OP("setAngle(%.17g) ", a); q.p.ang = a;
      Out o = outcome([&] { q.m->setAngle(a); }); if (canExt) CHECK(o == OK, "setAngle", "%s", oname(o));
    } else if (k == 2) {
      double z = g.chance(.15) ? 0 : g.d("z", -500, 500); OP("setZPosition(%.17g) ", z); q.p.neg = z <= 0; q.z = z; q.zset = true;
      Out o = outcome([&] { q.m->setZPosition(z); }); CHECK(o == OK, "setZPosition", "%s", oname(o));
    } else if (k == 3) {
      double b = g.chance(.3) ? 0 : g.d("border", 0, 6); OP("setBorderWidth(%.17g) ", b); q.border = b;
      Out o = outcome([&] { q.m->setBorderWidth(b); }); if (canExt) CHECK(o == OK, "setBorderWidth", "%s", oname(o));
    } else { double f = g.d("freq", 0, 1e7); OP("setReadoutFrequency(%.17g) ", f); q.freq = f; q.m->setReadoutFrequency(f); }
  }
}
inline Mod genMod(Gen& g, int mom = -1, int id = -1000000, int steps = -1) {
  Mod q; Lay l = genLay(g); q.r = l.r; q.l = l.p; q.ext.assign(q.r.e, q.r.e + 4);
  if (mom < 0) mom = g.b("polarTPC") ? POL : CAR;
  q.p.mom = mom; q.p.lay = q.r.polar ? POL : CAR; q.id = id > -1000000 ? id : (int)g.i("id", -5, 100000); q.freq = g.d("f", 0, 1e6);
  OP("mom=%d ", mom);
  q.m.reset(new TPCModuleImpl(q.id, l.p->clone(), mom, q.freq));
  placeModule(g, q, steps >= 0 ? steps : (int)g.i("steps", 0, 7));
  return q;
}
// local coordinates of a global point, in the layout's own coordinates, angles from the start of the local module extent
inline void toLocal(const Mod& q, double c0, double c1, double& a, double& b, double start) {
  double x, y, lx, ly; cart(q.p.mom, c0, c1, x, y); q.p.loc(x, y, lx, ly);
  if (q.p.lay == CAR) { a = lx; b = ly; return; }
  a = std::sqrt(lx * lx + ly * ly); b = std::atan2(ly, lx);
  while (b < start) b += TWOPI;
  while (b >= start + TWOPI) b -= TWOPI;
}
// local extent of the module, from the specification
inline DV localExtent(const Mod& q) {
  DV e = q.ext;
  if (q.border == 0) return e;
  if (q.p.lay == CAR) { e[0] -= q.border; e[1] += q.border; e[2] -= q.border; e[3] += q.border; return e; }
  double in = e[0], w = e[3] - e[2], pb = in > 0 ? q.border / in : M_PI;
  e[0] = std::max(0., e[0] - q.border); e[1] += q.border;
  if (w + 2 * pb > TWOPI) pb = (TWOPI - w) / 2;
  e[2] -= pb; e[3] += pb; return e;
}
// a point near the module in global coordinates
inline void genPoint(Gen& g, const Mod& q, double& c0, double& c1) {
  DV e = localExtent(q); double lx, ly, x, y;
  double s = g.chance(.5) ? .1 : g.chance(.5) ? 1 : 6;
  double a = e[0] + (e[1] - e[0]) * (-s + (1 + 2 * s) * g.u()), b = e[2] + (e[3] - e[2]) * (-s + (1 + 2 * s) * g.u());
  if (q.p.lay == POL) a = std::fabs(a) + 1e-3;
  cart(q.p.lay, a, b, lx, ly); q.p.glob(lx, ly, x, y);
  if (q.p.mom == POL) { c0 = std::sqrt(x * x + y * y); c1 = std::atan2(y, x); if (g.chance(.3)) c1 += TWOPI * (double)((long)(g.raw() % 5) - 2); }
  else { c0 = x; c1 = y; }
  rec("p=(%.17g,%.17g) ", c0, c1);
}
#endif
