#include "layouts.hh"
static void verify(PadRowLayout2D& p, Ref& r, const char* what) {
  CHECK(p.getNRows() == (int)r.rows.size(), K("nrows", r), "%s %d expected %d", what, p.getNRows(), (int)r.rows.size());
  CHECK(p.getNPads() == r.npads(), K("npads", r), "%s %d expected %ld", what, p.getNPads(), r.npads());
  const std::vector<double>& e = p.getPlaneExtent();
  CHECK(e.size() == 4, K("extent", r), "%s", what);
  for (int k = 0; k < 4; ++k) CHECK(near(e[k], r.e[k]), K("extent", r), "%s [%d] %.12g expected %.12g", what, k, e[k], r.e[k]);
  for (size_t k = 0; k < r.rows.size(); ++k) {
    RRow& w = r.rows[k];
    CHECK((int)p.getPadsInRow(k).size() == w.n, K("rowpads", r), "%s row %d: %d expected %d", what, (int)k, (int)p.getPadsInRow(k).size(), w.n);
    CHECK(near(p.getRowHeight(k), w.hi - w.lo), K("height", r), "%s row %d", what, (int)k);
    for (int q = 0; q < w.n; q = q == w.n - 1 ? w.n : q + 1 + (q > 3 ? w.n / 7 : 0)) {
      int i = p.getPadIndex(k, q); Vector2D c = p.getPadCenter(i);
      CHECK(near(c[0], r.polar ? w.mid() : w.c0 + (q + .5) * w.pitch) && near(c[1], r.polar ? w.c0 + (q + .5) * w.pitch : w.mid()), K("centre", r), "%s row %d pad %d at %.12g %.12g", what, (int)k, q, c[0], c[1]);
      CHECK(near(p.getPadWidth(i), w.padW), K("width", r), "%s row %d: %.12g expected %.12g", what, (int)k, p.getPadWidth(i), w.padW);
      CHECK(near(p.getPadHeight(i), w.padH), K("padheight", r), "%s row %d: %.12g expected %.12g", what, (int)k, p.getPadHeight(i), w.padH);
      CHECK(near(p.getPadPitch(i), w.pitch), K("pitch", r), "%s row %d: %.12g expected %.12g", what, (int)k, p.getPadPitch(i), w.pitch);
      if (q + 1 >= w.n) break;
    }
  }
  CHECK(p.getCoordinateType() == (r.polar ? 2 : 1) && p.getPadLayoutImplType() == r.kind && p.getPadLayoutType() == p.getCoordinateType(), K("type", r), "%s", what);
}
static void build(Gen& g) { Lay l = genLay(g); verify(*l.p, l.r, "built"); }
static void repeat(Gen& g) {
  Lay l = genRect(g, true); Ref& r = l.r; RectangularPadRowLayout& o = dynamic_cast<RectangularPadRowLayout&>(*l.p);
  unsigned n = g.i("repeat", 0, 5); o.repeatRows(n); rec("repeatRows(%u) ", n);
  size_t m = r.rows.size();
  for (unsigned k = 1; k < n; ++k) for (size_t j = 0; j < m; ++j) { RRow w = r.rows[j]; double h = w.hi - w.lo; w.lo = r.e[3]; w.hi = w.lo + h; r.e[3] = w.hi; r.rows.push_back(w); }
  verify(o, r, "repeated");
  if (n > 0) { o.repeatRows(g.i("again", 0, 4)); verify(o, r, "repeated twice"); CHECK(o.getRepeatRowCount() == (int)n, "repeatcount", ""); }
}
static void reject(Gen& g) {
  { Lay l = genRect(g); Ref& r = l.r; RectangularPadRowLayout& o = dynamic_cast<RectangularPadRowLayout&>(*l.p);
    int np = g.i("nPad", 1, 9), nr = g.i("nRow", 1, 3); double W = r.e[1] - r.e[0], lo = g.chance(.5) ? 0 : g.d("left", 0, .3) * W; Out q;
    std::vector<unsigned> eq = o.equalRowNumbers();
    if (g.chance(.5)) { double pw = (W - lo) / np * (1 + g.d("over", .001, 2)); rec("wide(%d,%d,%.17g,1,1,%.17g) ", nr, np, pw, lo); q = outcome([&] { o.addRow(nr, np, pw, 1, 1, lo); }); }
    else { double ph = g.d("ph", .5, 5), rh = ph * g.d("low", .1, .99); rec("low(%d,%d,%.17g,%.17g) ", nr, np, ph, rh); q = outcome([&] { o.addRow(nr, np, .5 * W / np, ph, rh); }); }
    CHECK(q == GEAR_EXC, "rect:reject", "%s", oname(q)); verify(o, r, "after rejected row"); CHECK(o.equalRowNumbers() == eq, "rect:rejectRows", "");
    addRect(g, o, r); verify(o, r, "after rejected and added row"); }
  { Lay l = genVers(g); Ref& r = l.r; VersatileDiskRowLayout& o = dynamic_cast<VersatileDiskRowLayout&>(*l.p);
    int np = g.i("nPads", 1, 9), mode = g.i("mode", 0, 6), rep = g.i("rep", 1, 3); double rh = g.d("rh", .5, 5), pitch = g.d("pitch", .1, .5), pw = 0;
    if (mode == 0) np = -(int)g.i("np", 0, 3);
    if (mode == 1) pitch = -pitch;
    if (mode == 2) pw = -pitch;
    if (mode == 3) pw = 1.1 * pitch;
    if (mode == 4) rh = -g.i("rh", 0, 2);
    if (mode == 5) rep = -(int)g.i("rp", 0, 2);
    if (mode == 6) pitch = TWOPI * (r.e[1] + .5 * rh) / np * g.d("over", 1.001, 3);
    Out q = outcome([&] { o.addRow(np, pitch, rh, 0, pw, 0, rep); });
    CHECK(q == GEAR_EXC, "vers:reject", "mode %d: %s", mode, oname(q)); verify(o, r, "after rejected row"); }
}
PARTS_TABLE({"build", build}, {"repeat", repeat}, {"reject", reject})
