#include "layouts.hh"
static void cells(Gen& g) {
  Lay l = genPolar(g); Ref& r = l.r; PadRowLayout2D& p = *l.p;
  for (int k = 0; k < 20; ++k) {
    int row = g.i("row", 0, (long)r.rows.size() - 1); RRow& w = r.rows[row]; int pad = g.chance(.2) ? 0 : g.chance(.2) ? w.n - 1 : g.i("pad", 0, w.n - 1);
    int idx = p.getPadIndex(row, pad);
    double a = w.c0 + pad * w.pitch;
    Vector2D c = p.getPadCenter(idx);
    CHECK(near(c[0], w.mid()) && near(c[1], a + .5 * w.pitch), K("centre", r), "row %d pad %d centre %.12g %.12g expected %.12g %.12g", row, pad, c[0], c[1], w.mid(), a + .5 * w.pitch);
    CHECK(near(p.getPadPitch(idx), w.pitch), K("pitch", r), "row %d pad %d", row, pad);
    CHECK(near(p.getRowHeight(row), w.hi - w.lo), K("rowheight", r), "row %d", row);
    double fr = g.d("fr", .001, .999), fp = g.d("fphi", .001, .999);
    double rr = w.lo + fr * (w.hi - w.lo), ph = a + fp * w.pitch;
    if (rr < 1e-5) continue;
    rec("point(%.17g,%.17g) ", rr, ph);
    int turns = g.chance(.5) ? 0 : g.i("turns", -3, 3);
    int q = p.getNearestPad(rr, ph + turns * TWOPI);
    CHECK(q == idx, K(turns ? "nearest-turn" : "nearest", r), "row %d pad %d: got row %d pad %d", row, pad, (q >> 16), (q & 0xffff));
    double d = p.getDistanceToPad(rr, ph, idx);
    CHECK(std::fabs(d) < 1e-9, K("distance", r), "row %d pad %d: %g", row, pad, d);
    if (r.kind != 2) {
      CHECK(p.isInsidePad(rr, ph, idx), K("inside", r), "row %d pad %d", row, pad);
      CHECK(p.isInsidePad(rr, ph), K("insideany", r), "row %d pad %d", row, pad);
      // not inside another pad
      int r2 = g.i("row2", 0, (long)r.rows.size() - 1), p2 = g.i("pad2", 0, r.rows[r2].n - 1);
      if (r2 != row || p2 != pad) {
        CHECK(!p.isInsidePad(rr, ph, p.getPadIndex(r2, p2)), K("outside", r), "row %d pad %d: also inside row %d pad %d", row, pad, r2, p2);
        CHECK(p.getDistanceToPad(rr, ph, p.getPadIndex(r2, p2)) > 0, K("distance-other", r), "row %d pad %d", r2, p2);
      }
    } else {
      double dr = std::fabs(rr - w.mid()) - .5 * w.padH, dp = std::fabs(ph - a - .5 * w.pitch) - .5 * w.padW;
      if (std::fabs(dr) > 1e-9 && std::fabs(dp) > 1e-9) {
        CHECK(p.isInsidePad(rr, ph, idx) == (dr < 0 && dp < 0), K("inside", r), "row %d pad %d", row, pad);
        CHECK(p.isInsidePad(rr, ph) == (dr < 0 && dp < 0), K("insideany", r), "row %d pad %d", row, pad);
      }
    }
  }
  // any other point: an existing pad
  for (int k = 0; k < 20; ++k) {
    double rr = g.chance(.3) ? g.d("r", 1e-5, 3) : g.chance(.3) ? (g.chance(.5) ? r.e[0] : r.e[1]) : g.d("r", 1e-5, 2 * r.e[1]), ph = g.chance(.2) ? r.e[2] : g.chance(.2) ? r.e[3] : g.d("phi", -13, 13);
    if (rr < 1e-5) continue;
    rec("any(%.17g,%.17g) ", rr, ph);
    int q = -1; Out o = outcome([&] { q = p.getNearestPad(rr, ph); });
    CHECK(o == OK, K("exists-throws", r), "%s", oname(o));
    int row = p.getRowNumber(q), pad = p.getPadNumber(q);
    CHECK(row >= 0 && row < (int)r.rows.size() && pad >= 0 && pad < r.rows[row].n, K("exists", r), "row %d pad %d", row, pad);
  }
}
PARTS_TABLE({"cells", cells})
