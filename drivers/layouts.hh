#ifndef LAYOUTS_HH
#define LAYOUTS_HH
#include "vc.hh"
#include "gear/PadRowLayout2D.h"
#include "gearimpl/FixedPadAngleDiskLayout.h"
#include "gearimpl/FixedPadSizeDiskLayout.h"
#include "gearimpl/RectangularPadRowLayout.h"
#include "gearimpl/VersatileDiskRowLayout.h"
#include <memory>
using namespace gear;
static const double TWOPI = 2 * M_PI;

// description of a layout, written from the specification
struct RRow { int n; double lo, hi, c0, pitch, padW, padH; double mid() const { return .5 * (lo + hi); } };
struct Ref {
  int kind; bool polar, full; double e[4]; std::vector<RRow> rows;
  long npads() const { long s = 0; for (size_t k = 0; k < rows.size(); ++k) s += rows[k].n; return s; }
};
struct Lay { std::shared_ptr<PadRowLayout2D> p; Ref r; };

// how much a nearly full circle lacks (the tolerance of the library is 1e-6)
inline double lack(Gen& g) {
  static const double e[] = {1e-1, 1e-2, 1e-3, 3e-4, 1e-4, 1e-5, 3e-6, 1.2e-6, 8e-7, 5e-7, 1e-8, 1e-10};
  double v = e[g.raw() % (sizeof e / sizeof e[0])]; rec("lack=%g ", v); return v;
}
inline Lay genAngle(Gen& g) {
  Lay l; Ref& r = l.r;
  int nr = g.i("nrow", 1, g.chance(.1) ? 300 : 9), np = g.i("npads", 1, g.chance(.1) ? 500 : 12);
  double rmin = g.d("rmin", 0, 60), rmax = rmin + g.d("dr", .5, 90), p0, p1;
  if (g.chance(.35)) { p0 = g.chance(.5) ? 0 : g.d("phimin", -3.2, 3.2); p1 = p0 + TWOPI; rec("full "); }
  else if (g.chance(.2)) { p0 = g.d("phimin", -3.2, 3.2); p1 = p0 + TWOPI - lack(g); }
  else { p0 = g.d("phimin", -4, 4); p1 = p0 + g.d("dphi", .05, 6.2); }
  l.p.reset(new FixedPadAngleDiskLayout(rmin, rmax, nr, p0, p1, np));
  r.kind = 3; r.polar = true; r.full = std::fabs(p1 - p0 - TWOPI) < 1e-6;
  r.e[0] = rmin; r.e[1] = rmax; r.e[2] = p0; r.e[3] = p1;
  double h = (rmax - rmin) / nr, a = (p1 - p0) / np;
  for (int k = 0; k < nr; ++k) { RRow w = {np, rmin + k * h, rmin + (k + 1) * h, p0, a, a, h}; r.rows.push_back(w); }
  return l;
}
inline Lay genSize(Gen& g) {
  for (;;) {
    Lay l; Ref& r = l.r;
    double ph = g.d("padHeight", .5, 8), pw = g.d("padWidth", .5, 4), gap = g.chance(.5) ? 0 : g.d("padGap", 0, 1);
    double rmin = g.d("rmin", 5, 60);
    int fit = g.i("fit", 1, g.chance(.1) ? 60 : 8);
    double rmax = rmin + fit * ph + g.d("slack", 0, .8) * ph;
    int want = g.chance(.4) ? 0 : g.i("nrow", 1, fit + 2);
    double pm = g.chance(.4) ? TWOPI : g.chance(.2) ? TWOPI - lack(g) : g.d("phimax", .3, 6.25);
    int nr = (int)std::floor((rmax + 0.01 - rmin) / ph);
    double q = (rmax + 0.01 - rmin) / ph; if (std::fabs(q - std::floor(q + .5)) < 1e-9) continue;
    if (want > 0 && want < nr) nr = want;
    if (nr < 1) continue;
    double h = (rmax - rmin) / nr; bool bad = false;
    r.kind = 2; r.polar = true; r.full = std::fabs(pm - TWOPI) < 1e-6; r.e[0] = rmin; r.e[1] = rmax; r.e[2] = 0; r.e[3] = pm;
    for (int k = 0; k < nr; ++k) {
      double c = rmin + (k + .5) * h, t = c * pm / (pw + gap); int n = (int)std::floor(t);
      if (n < 1 || n > 60000 || std::fabs(t - std::floor(t + .5)) < 1e-9) { bad = true; break; }
      RRow w = {n, rmin + k * h, rmin + (k + 1) * h, 0, pm / n, pw / c, ph}; r.rows.push_back(w);
    }
    if (bad) continue;
    rec("FPS(rmax=%.17g) ", rmax);
    l.p.reset(new FixedPadSizeDiskLayout(rmin, rmax, ph, pw, want, gap, pm));
    return l;
  }
}
inline void addRect(Gen& g, RectangularPadRowLayout& o, Ref& r) {
  int nr = g.i("nRow", 1, g.chance(.05) ? 40 : 4), np = g.i("nPad", 1, g.chance(.05) ? 300 : 10);
  double W = r.e[1] - r.e[0], lo = g.chance(.5) ? 0 : g.d("left", 0, .3) * W, ro = g.chance(.5) ? 0 : g.d("right", 0, .3) * W;
  double rw = (r.e[1] - ro) - (r.e[0] + lo), pw = rw / np * (g.chance(.3) ? .999999 : g.d("fill", .2, .99)), ph = g.d("padHeight", .3, 6), rh = g.chance(.5) ? 0 : ph + g.d("gap", 0, 2);
  rec("addRow(%d,%d,%.17g,%.17g,%.17g,%.17g,%.17g) ", nr, np, pw, ph, rh, lo, ro);
  o.addRow(nr, np, pw, ph, rh, lo, ro);
  if (rh == 0) rh = ph;
  for (int k = 0; k < nr; ++k) { RRow w = {np, r.e[3], r.e[3] + rh, r.e[0] + lo, rw / np, pw, ph}; r.rows.push_back(w); r.e[3] += rh; }
}
inline Lay genRect(Gen& g, bool simple = false) {
  Lay l; Ref& r = l.r;
  r.kind = 1; r.polar = r.full = false;
  r.e[0] = g.d("xMin", -50, 50); r.e[1] = r.e[0] + g.d("dx", 1, 100); r.e[2] = r.e[3] = g.chance(.3) ? 0 : g.d("yMin", -40, 40);
  RectangularPadRowLayout* o = new RectangularPadRowLayout(r.e[0], r.e[1], r.e[2]); l.p.reset(o);
  int n = g.i("adds", 1, 4);
  for (int k = 0; k < n; ++k) addRect(g, *o, r);
  if (!simple && g.chance(.25)) {
    unsigned c = g.i("repeat", 1, 4); o->repeatRows(c); rec("repeatRows(%u) ", c);
    size_t m = r.rows.size();
    for (unsigned k = 1; k < c; ++k) for (size_t j = 0; j < m; ++j) { RRow w = r.rows[j]; double h = w.hi - w.lo; w.lo = r.e[3]; w.hi = w.lo + h; r.e[3] = w.hi; r.rows.push_back(w); }
  }
  return l;
}
inline void addVers(Gen& g, VersatileDiskRowLayout& o, Ref& r, bool full) {
  int rep = g.chance(.7) ? 1 : g.i("rep", 1, 4), np = g.i("nPads", 1, g.chance(.05) ? 300 : 10);
  double rh = g.d("rowHeight", .5, 8), c = r.e[1] + .5 * rh, cl = r.e[1] + (rep - .5) * rh;
  double off = full ? 0 : g.chance(.4) ? 0 : g.d("offphi", 0, 2) * c;
  double room = TWOPI * c * (1 - 1e-12) - off, pitch = full ? (g.chance(.4) ? TWOPI - lack(g) : TWOPI * (1 - 1e-12)) * c / np : room / np * g.d("fill", .05, .97);
  if (full) rep = 1;
  double pw = g.chance(.5) ? 0 : pitch * g.d("pw", .2, 1), ph = g.chance(.5) ? 0 : rh * g.d("ph", .2, 1);
  rec("addRow(%d,%.17g,%.17g,%.17g,%.17g,%.17g,%d) ", np, pitch, rh, off, pw, ph, rep);
  o.addRow(np, pitch, rh, off, pw, ph, rep);
  if (pw == 0) pw = pitch;
  if (ph == 0) ph = rh;
  (void)cl;
  for (int k = 0; k < rep; ++k) {
    double m = r.e[1] + .5 * rh;
    RRow w = {np, r.e[1], r.e[1] + rh, off / m, pitch / m, pw / m, ph}; r.rows.push_back(w); r.e[1] += rh;
    double a = w.c0, b = w.c0 + np * w.pitch;
    if (r.rows.size() == 1 || a < r.e[2]) r.e[2] = a;
    if (r.rows.size() == 1 || b > r.e[3]) r.e[3] = b;
  }
}
inline Lay genVers(Gen& g) {
  Lay l; Ref& r = l.r;
  r.kind = 4; r.polar = true; r.e[0] = r.e[1] = g.d("rMin", 1, 60); r.e[2] = r.e[3] = 0;
  VersatileDiskRowLayout* o = new VersatileDiskRowLayout(r.e[0]); l.p.reset(o);
  int n = g.i("adds", 1, 4); bool full = g.chance(.25);
  for (int k = 0; k < n; ++k) addVers(g, *o, r, full);
  if (r.e[3] - r.e[2] > TWOPI) { r.e[2] = 0; r.e[3] = TWOPI; }
  r.full = std::fabs(r.e[3] - r.e[2] - TWOPI) < 1e-6;
  return l;
}
inline Lay genLay(Gen& g) {
  int k = g.i("kind", 1, 4);
  return k == 1 ? genRect(g) : k == 2 ? genSize(g) : k == 3 ? genAngle(g) : genVers(g);
}
inline Lay genPolar(Gen& g) {
  int k = g.i("kind", 2, 4);
  return k == 2 ? genSize(g) : k == 3 ? genAngle(g) : genVers(g);
}
static const char* KIND[] = {"?", "rect", "size", "angle", "vers"};
inline std::string K(const std::string& p, const Ref& r) { return p + ":" + KIND[r.kind]; }
#endif
