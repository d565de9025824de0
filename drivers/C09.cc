#include "tpc.hh"
template <class F, class G> static void sameAns(const char* what, F a, G b) {
  double x = 0, y = 0; Out p = outcome([&] { x = a(); }), q = outcome([&] { y = b(); });
  CHECK(p == q && (p != OK || x == y), what, "%s %.12g, layout %s %.12g", oname(p), x, oname(q), y);
}
static void module(Gen& g) {
  double f0; Mod q = genMod(g, -1, -1000000, 0); f0 = q.freq; Ref& r = q.r; const TPCModuleImpl& m = *q.m; const PadRowLayout2D& l = *q.l;
  CHECK(m.getModuleID() == q.id, "id", ""); CHECK(m.getCoordinateType() == q.p.mom && m.getTPCCoordinateType() == q.p.mom && m.getPadLayoutType() == q.p.mom, "coordtype", "");
  CHECK(m.getReadoutFrequency() == f0, "freq", ""); CHECK(outcome([&] { m.getZPosition(); }) != OK, "z", "");
  bool noz = false; try { m.getZPosition(); } catch (TPCModule::NoZPositionException&) { noz = true; } catch (...) {} CHECK(noz, "noz", "");
  placeModule(g, q, g.i("steps", 0, 8));
  CHECK(m.getModuleID() == q.id, "id", ""); CHECK(m.getReadoutFrequency() == q.freq, "freq", ""); CHECK(m.getAngle() == q.p.ang, "angle", ""); CHECK(m.getBorderWidth() == q.border, "border", "");
  CHECK(m.getOffset()[0] == q.p.ox && m.getOffset()[1] == q.p.oy, "offset", "");
  noz = false; double z = 0; try { z = m.getZPosition(); } catch (TPCModule::NoZPositionException&) { noz = true; } CHECK(noz == !q.zset && (noz || z == q.z), "z", "");
  CHECK(m.getPadLayoutImplType() == PadRowLayout2D::TPCMODULE, "impl", ""); CHECK(m.getPadShape() == l.getPadShape() && m.getNPads() == l.getNPads() && m.getNRows() == l.getNRows(), "counts", "");
  DV e = localExtent(q); bool known = !(q.p.mom == POL && q.p.lay == CAR); double start = e[2];
  (void)known;
  for (int k = 0; k < 14; ++k) {
    int row = g.chance(.1) ? (int)g.i("badrow", -3, 400) : (int)g.i("row", 0, (long)r.rows.size() - 1), pad = row >= 0 && row < (int)r.rows.size() && g.chance(.9) ? (int)g.i("pad", 0, r.rows[row].n - 1) : (int)g.i("badpad", -3, 400);
    sameAns("padindex", [&] { return m.getPadIndex(row, pad); }, [&] { return l.getPadIndex(row, pad); });
    sameAns("rowheight", [&] { return m.getRowHeight(row); }, [&] { return l.getRowHeight(row); });
    if (row >= 0 && row < (int)r.rows.size()) CHECK(m.getPadsInRow(row) == l.getPadsInRow(row), "padsinrow", "");
    if (row < 0 || row >= (int)r.rows.size() || pad < 0 || pad >= r.rows[row].n) continue;
    int i = l.getPadIndex(row, pad);
    sameAns("rownumber", [&] { return m.getRowNumber(i); }, [&] { return l.getRowNumber(i); }); sameAns("padnumber", [&] { return m.getPadNumber(i); }, [&] { return l.getPadNumber(i); });
    sameAns("padwidth", [&] { return m.getPadWidth(i); }, [&] { return l.getPadWidth(i); }); sameAns("padheight", [&] { return m.getPadHeight(i); }, [&] { return l.getPadHeight(i); }); sameAns("padpitch", [&] { return m.getPadPitch(i); }, [&] { return l.getPadPitch(i); });
    sameAns("right", [&] { return m.getRightNeighbour(i); }, [&] { return l.getRightNeighbour(i); }); sameAns("left", [&] { return m.getLeftNeighbour(i); }, [&] { return l.getLeftNeighbour(i); });
    Vector2D c = l.getPadCenter(i), d = m.getPadCenter(i); double lx, ly, x, y, dx, dy; cart(q.p.lay, c[0], c[1], lx, ly); q.p.glob(lx, ly, x, y); cart(q.p.mom, d[0], d[1], dx, dy);
    CHECK(near(x, dx, 1e-8) && near(y, dy, 1e-8), "centre", "got (%.12g,%.12g) expected (%.12g,%.12g)", dx, dy, x, y);
    double c0, c1; genPoint(g, q, c0, c1); if (g.chance(.4)) { // near this pad
      double a = c[0], b = c[1]; a += (g.u() - .5) * 1.2 * (q.p.lay == CAR ? r.rows[row].padW : r.rows[row].padH); b += (g.u() - .5) * 1.2 * (q.p.lay == CAR ? r.rows[row].padH : r.rows[row].padW);
      if (q.p.lay == POL) a = std::fabs(a) + 1e-3; cart(q.p.lay, a, b, lx, ly); q.p.glob(lx, ly, x, y);
      if (q.p.mom == POL) { c0 = std::hypot(x, y); c1 = std::atan2(y, x); } else { c0 = x; c1 = y; } rec("q=(%.17g,%.17g) ", c0, c1); }
    double a, b; toLocal(q, c0, c1, a, b, start); if (q.p.lay == POL && a < 1e-3) continue;
    if (q.p.lay == POL && (b - start < 1e-6 || start + TWOPI - b < 1e-6)) continue;
    CHECK(near(m.getDistanceToPad(c0, c1, i), l.getDistanceToPad(a, b, i), 1e-7), "distance", "got %.12g expected %.12g", m.getDistanceToPad(c0, c1, i), l.getDistanceToPad(a, b, i));
    // the answers below jump at pad edges: skip points on one
    double t = 1e-7 * std::max(1., std::fabs(a)), tb = q.p.lay == POL ? 1e-7 : t; bool in = l.isInsidePad(a, b, i), edge = false; int n = l.getNearestPad(a, b); bool any = l.isInsidePad(a, b, n);
    for (int s = 0; s < 40; ++s) { double f = s < 4 ? 1 : .1 * g.u(), aa = a + (s & 1 ? t : -t) * f, bb = b + (s & 2 ? tb : -tb) * f; int nn = l.getNearestPad(aa, bb); if (l.isInsidePad(aa, bb, i) != in || nn != n || l.isInsidePad(aa, bb, nn) != any) edge = true; }
    if (q.p.lay == POL) for (int s = -1; s < 2; s += 2) { int nn = l.getNearestPad(a, b + s * TWOPI); if (nn != n || l.isInsidePad(a, b, nn) != any) edge = true; } // two pads at the same distance
    if (edge) continue;
    CHECK(m.isInsidePad(c0, c1, i) == in, "insidepad", "expected %d", in);
    CHECK(m.getNearestPad(c0, c1) == n, "nearest", "got %d expected %d", m.getNearestPad(c0, c1), n);
    CHECK(m.isInsidePad(c0, c1) == any, "insideany", "expected %d", any);
  }
}
PARTS_TABLE({"module", module})
