#include "layouts.hh"
static void nb(Gen& g) {
  Lay l = genLay(g); Ref& r = l.r;
  for (int k = 0; k < 30; ++k) {
    int row = g.i("row", 0, (long)r.rows.size() - 1), n = r.rows[row].n, pad = g.chance(.2) ? 0 : g.chance(.2) ? n - 1 : g.i("pad", 0, n - 1);
    if (g.chance(.3)) { int c = r.polar ? 1 : 0; (void)c; }
    int idx = l.p->getPadIndex(row, pad);
    for (int left = 0; left < 2; ++left) {
      int step = (left ? 1 : -1) * (r.polar ? 1 : -1), want = pad + step; bool end = want < 0 || want >= n;
      int q = -1; Out o = outcome([&] { q = left ? l.p->getLeftNeighbour(idx) : l.p->getRightNeighbour(idx); });
      if (end && !r.full) { CHECK(o == GEAR_EXC, K("end", r), "row %d pad %d left=%d: %s", row, pad, left, oname(o)); continue; }
      want = (want + n) % n;
      CHECK(o == OK, K("exists", r), "row %d pad %d left=%d: %s", row, pad, left, oname(o));
      CHECK(l.p->getRowNumber(q) == row && l.p->getPadNumber(q) == want, K(end ? "wrap" : "step", r), "row %d pad %d left=%d: got row %d pad %d, expected %d", row, pad, left, l.p->getRowNumber(q), l.p->getPadNumber(q), want);
      int back = -1; o = outcome([&] { back = left ? l.p->getRightNeighbour(q) : l.p->getLeftNeighbour(q); });
      CHECK(o == OK && back == idx, K("back", r), "row %d pad %d left=%d", row, pad, left);
    }
  }
}
static void near2pi(Gen& g) {
  // phi extents close to a full turn
  double eps = g.pick(std::vector<double>{0, 5e-7, -5e-7, 9e-7, -9e-7, 1.1e-6, -1.1e-6, 5e-6, -5e-6, 1e-3, -1e-3});
  rec("eps=%g ", eps);
  int n = g.i("npads", 1, 9); double p0 = g.d("phimin", -3, 3);
  FixedPadAngleDiskLayout o(10, 20, 3, p0, p0 + TWOPI + eps, n);
  FixedPadSizeDiskLayout s(10, 20, 2, 1, 0, 0, TWOPI - std::fabs(eps));
  bool full = std::fabs(eps) < 1e-6;
  int row = g.i("row", 0, 2), m = s.getPadsInRow(row).size();
  Out a = outcome([&] { int q = o.getLeftNeighbour(o.getPadIndex(row, n - 1)); CHECK(o.getPadNumber(q) == 0 && o.getRowNumber(q) == row, "near2pi:angle", ""); });
  CHECK(full ? a == OK : a == GEAR_EXC, "near2pi:angle", "left: %s", oname(a));
  a = outcome([&] { int q = o.getRightNeighbour(o.getPadIndex(row, 0)); CHECK(o.getPadNumber(q) == n - 1 && o.getRowNumber(q) == row, "near2pi:angle", ""); });
  CHECK(full ? a == OK : a == GEAR_EXC, "near2pi:angle", "right: %s", oname(a));
  a = outcome([&] { int q = s.getLeftNeighbour(s.getPadIndex(row, m - 1)); CHECK(s.getPadNumber(q) == 0, "near2pi:size", ""); });
  CHECK(full ? a == OK : a == GEAR_EXC, "near2pi:size", "left: %s", oname(a));
  a = outcome([&] { int q = s.getRightNeighbour(s.getPadIndex(row, 0)); CHECK(s.getPadNumber(q) == m - 1, "near2pi:size", ""); });
  CHECK(full ? a == OK : a == GEAR_EXC, "near2pi:size", "right: %s", oname(a));
}
PARTS_TABLE({"neighbours", nb}, {"near2pi", near2pi})
