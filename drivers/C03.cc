#include "layouts.hh"
static void verify(PadRowLayout2D& p, Ref& r, Gen& g, const char* what) {
  for (int k = 0; k < 12; ++k) {
    int row = g.i("row", -2, (long)r.rows.size() + 1);
    if (g.chance(.05)) row = g.i("row", -2147483647L - 1, 2147483647L);
    const std::vector<int>& v = p.getPadsInRow(row);
    if (row < 0 || row >= (int)r.rows.size()) { CHECK(v.empty(), K("empty", r), "%s row %d has %d pads", what, row, (int)v.size()); continue; }
    CHECK((int)v.size() == r.rows[row].n, K("size", r), "%s row %d lists %d of %d", what, row, (int)v.size(), r.rows[row].n);
    for (size_t j = 0; j < v.size(); ++j)
      CHECK(v[j] == p.getPadIndex(row, j), K("element", r), "%s row %d element %d is %d", what, row, (int)j, v[j]);
  }
  long s = 0;
  for (size_t k = 0; k < r.rows.size(); ++k) s += p.getPadsInRow(k).size();
  CHECK(s == p.getNPads() && s == r.npads(), K("total", r), "%s lists %ld reports %d", what, s, p.getNPads());
  CHECK(p.getNRows() == (int)r.rows.size(), K("rows", r), "%s", what);
}
static void list(Gen& g) {
  Lay l = genLay(g); Ref& r = l.r;
  verify(*l.p, r, g, "original");
  std::unique_ptr<PadRowLayout2D> c(l.p->clone());
  verify(*c, r, g, "clone"); verify(*l.p, r, g, "original");
  if (r.kind == 1 && g.chance(.5)) { addRect(g, *dynamic_cast<RectangularPadRowLayout*>(l.p.get()), r); verify(*l.p, r, g, "extended"); }
  if (r.kind == 4 && g.chance(.5)) { addVers(g, *dynamic_cast<VersatileDiskRowLayout*>(l.p.get()), r, false); verify(*l.p, r, g, "extended"); }
}
PARTS_TABLE({"list", list})
