#include "layouts.hh"
#include "gearimpl/GlobalPadIndex.h"
static void index(Gen& g) {
  Lay l = genLay(g); Ref& r = l.r; std::map<int, std::pair<int, int> > used;
  for (int k = 0; k < 40; ++k) {
    int row = g.i("row", -3, (long)r.rows.size() + 2);
    if (g.chance(.1)) row = g.i("row", -2147483647L - 1, 2147483647L);
    int n = row >= 0 && row < (int)r.rows.size() ? r.rows[row].n : 5;
    int pad = g.i("pad", -3, n + 2);
    if (g.chance(.1)) pad = g.i("pad", -2147483647L - 1, 2147483647L);
    bool ex = row >= 0 && row < (int)r.rows.size() && pad >= 0 && pad < n;
    int idx = 0; Out o = outcome([&] { idx = l.p->getPadIndex(row, pad); });
    if (!ex) { CHECK(o != OK, K("reject", r), "row %d pad %d accepted as %d", row, pad, idx); continue; }
    CHECK(o == OK, K("accept", r), "row %d pad %d: %s", row, pad, oname(o));
    CHECK(l.p->getRowNumber(idx) == row, K("row", r), "row %d pad %d gives %d", row, pad, l.p->getRowNumber(idx));
    CHECK(l.p->getPadNumber(idx) == pad, K("pad", r), "row %d pad %d gives %d", row, pad, l.p->getPadNumber(idx));
    std::pair<int, int> p(row, pad);
    CHECK(!used.count(idx) || used[idx] == p, K("unique", r), "index %d", idx);
    used[idx] = p;
  }
}
static void big(Gen& g) {
  int nr = g.i("nrow", 1, 32768), np = g.i("npads", 1, 65536);
  if (nr > 500 && g.chance(.9)) nr = 500;
  FixedPadAngleDiskLayout o(10, 20, nr, 0, 3, np);
  for (int k = 0; k < 20; ++k) {
    int row = g.i("row", 0, nr - 1), pad = g.i("pad", 0, np - 1), idx = o.getPadIndex(row, pad);
    CHECK(o.getRowNumber(idx) == row && o.getPadNumber(idx) == pad, "big:angle", "row %d pad %d", row, pad);
  }
  int mr = g.chance(.1) ? g.i("rows", 1, 32768) : std::min(nr, 500);
  RectangularPadRowLayout q(0, 1e6, 0); q.addRow(mr, np, 1, 1);
  VersatileDiskRowLayout v(1000); v.addRow(np, .05, 1, 0, 0, 0, mr);
  for (int k = 0; k < 20; ++k) {
    int row = g.i("row", 0, mr - 1), pad = g.i("pad", 0, np - 1), idx = q.getPadIndex(row, pad);
    CHECK(q.getRowNumber(idx) == row && q.getPadNumber(idx) == pad, "big:rect", "row %d pad %d", row, pad);
    idx = v.getPadIndex(row, pad);
    CHECK(v.getRowNumber(idx) == row && v.getPadNumber(idx) == pad, "big:vers", "row %d pad %d", row, pad);
  }
}
static void empty(Gen& g) {
  int row = g.i("row", -2, 3), pad = g.i("pad", -2, 3);
  RectangularPadRowLayout q(0, 1, 0); VersatileDiskRowLayout v(3);
  CHECK(outcome([&] { q.getPadIndex(row, pad); }) != OK, "empty:rect", "");
  CHECK(outcome([&] { v.getPadIndex(row, pad); }) != OK, "empty:vers", "");
}
static void global(Gen& g) {
  int a = g.i("a", -5, 1L << 30), m = g.i("m", -5, 1L << 30), b = g.chance(.4) ? a : g.i("b", -5, 1L << 30), n = g.chance(.4) ? m : g.i("n", -5, 1L << 30);
  GlobalPadIndex x(a, m), y(b, n);
  CHECK(x.getPadIndex() == a && x.getModuleID() == m, "global:get", "");
  CHECK((x == y) == (a == b && m == n), "global:eq", "");
  CHECK((x < y) == (m < n || (m == n && a < b)), "global:less", "");
  GlobalPadIndex z(x); CHECK(z == x && z.getPadIndex() == a && z.getModuleID() == m, "global:copy", "");
  z.setPadIndex(b); CHECK(z.getPadIndex() == b && z.getModuleID() == m, "global:setPad", "");
  z.setModuleID(n); CHECK(z.getPadIndex() == b && z.getModuleID() == n, "global:setMod", "");
}
PARTS_TABLE({"index", index}, {"big", big}, {"empty", empty}, {"global", global})
