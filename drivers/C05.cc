#include "layouts.hh"
static double dbox(double x, double y, double cx, double cy, double w, double h) {
  double dx = std::max(0., std::fabs(x - cx) - .5 * w), dy = std::max(0., std::fabs(y - cy) - .5 * h); return std::sqrt(dx * dx + dy * dy);
}
static void rect(Gen& g) {
  Lay l = genRect(g); Ref& r = l.r; PadRowLayout2D& p = *l.p;
  for (int k = 0; k < 25; ++k) {
    int row = g.i("row", 0, (long)r.rows.size() - 1); RRow& w = r.rows[row]; int pad = g.chance(.2) ? 0 : g.chance(.2) ? w.n - 1 : g.i("pad", 0, w.n - 1);
    int idx = p.getPadIndex(row, pad);
    double cx = w.c0 + (pad + .5) * w.pitch, cy = w.mid();
    Vector2D c = p.getPadCenter(idx);
    CHECK(near(c[0], cx) && near(c[1], cy), K("centre", r), "row %d pad %d", row, pad);
    double x, y; int mode = g.i("mode", 0, 2);
    if (mode == 0) { x = cx + g.d("fx", -.499, .499) * w.padW; y = cy + g.d("fy", -.499, .499) * w.padH; }
    else if (mode == 1) { x = cx + g.d("gx", -3, 3) * w.padW; y = cy + g.d("gy", -3, 3) * (w.hi - w.lo); }
    else { double X = r.e[1] - r.e[0], Y = r.e[3] - r.e[2]; x = r.e[0] + g.d("hx", -1, 2) * X; y = r.e[2] + g.d("hy", -1, 2) * Y; }
    rec("point(%.17g,%.17g) ", x, y);
    double d = dbox(x, y, cx, cy, w.padW, w.padH);
    CHECK(near(p.getDistanceToPad(x, y, idx), d, 1e-9), K("distance", r), "row %d pad %d: %.12g expected %.12g", row, pad, p.getDistanceToPad(x, y, idx), d);
    double mx = std::fabs(x - cx) - .5 * w.padW, my = std::fabs(y - cy) - .5 * w.padH;
    if (std::fabs(mx) > 1e-9 && std::fabs(my) > 1e-9)
      CHECK(p.isInsidePad(x, y, idx) == (mx < 0 && my < 0), K("inside", r), "row %d pad %d", row, pad);
    int q = p.getNearestPad(x, y), qr = q >> 16, qp = q & 0xffff;
    CHECK(q >= 0 && qr < (int)r.rows.size() && qp < r.rows[qr].n, K("exists", r), "row %d pad %d", qr, qp);
    // in which pad is the point
    int in = -1; bool edge = false;
    for (size_t a = 0; a < r.rows.size(); ++a) {
      RRow& v = r.rows[a]; double ey = std::fabs(y - v.mid()) - .5 * v.padH; if (ey > 1e-9) continue;
      int b = (int)std::floor((x - v.c0) / v.pitch);
      for (int bb = std::max(0, b - 1); bb <= b + 1 && bb < v.n; ++bb) {
        double ex = std::fabs(x - v.c0 - (bb + .5) * v.pitch) - .5 * v.padW;
        if (ex > 1e-9) continue;
        if (ex < -1e-9 && ey < -1e-9) in = (a << 16) | bb; else edge = true;
      }
    }
    if (edge) continue;
    if (in >= 0) { CHECK(q == in, K("nearest", r), "point in row %d pad %d, got row %d pad %d", in >> 16, in & 0xffff, qr, qp); }
    CHECK(p.isInsidePad(x, y) == (in >= 0), K("insideany", r), "inside=%d", in);
  }
}
// many different rows
static void rows(Gen& g) {
  double x0 = g.d("xMin", -10, 10), y0 = g.d("yMin", -30, 30);
  RectangularPadRowLayout o(x0, x0 + 20, y0); int n = g.i("n", 1, 30); std::vector<double> lo, hi; double y = y0;
  for (int k = 0; k < n; ++k) { double ph = g.chance(.3) ? g.d("ph", 5, 40) : g.d("ph", .1, 3), rh = g.chance(.5) ? ph : ph + g.d("gap", 0, 4); o.addRow(1, 4, 4.5, ph, rh); lo.push_back(y + .5 * (rh - ph)); hi.push_back(y + .5 * (rh + ph)); y += rh; }
  for (int k = 0; k < 60; ++k) {
    int row = g.i("row", 0, n - 1); double yy = g.chance(.8) ? lo[row] + g.d("f", .001, .999) * (hi[row] - lo[row]) : g.d("y", y0 - 20, y + 20), xx = x0 + 5 * g.i("pad", 0, 3) + 2.5;
    rec("y=%.17g ", yy);
    int q = o.getNearestPad(xx, yy); CHECK(q >= 0 && (q >> 16) < n, "rows:exists", "row %d", q >> 16);
    if (yy > lo[row] + 1e-9 && yy < hi[row] - 1e-9) CHECK((q >> 16) == row, "rows:nearest", "row %d expected %d", q >> 16, row);
    bool in = false, edge = false; for (int j = 0; j < n; ++j) { in |= yy > lo[j] && yy < hi[j]; edge |= near(yy, lo[j]) || near(yy, hi[j]); }
    if (!edge) CHECK(o.isInsidePad(xx, yy) == in, "rows:inside", "");
  }
}
PARTS_TABLE({"rect", rect}, {"rows", rows})
