#include "tpc.hh"
static void frames(Gen& g) {
  Mod q = genMod(g, -1, -1000000, 0);
  for (int round = 0; round < 3; ++round) {
    for (int k = 0; k < 8; ++k) {
      double a, b, lx, ly, x, y, s = g.chance(.3) ? 1 : 100;
      if (q.p.lay == POL) { a = g.d("r", .01, s); b = g.d("phi", -6.2, 6.2); } else { a = g.d("lx", -s, s); b = g.d("ly", -s, s); }
      cart(q.p.lay, a, b, lx, ly); q.p.glob(lx, ly, x, y);
      Vector2D v = q.m->localToGlobal(a, b); double vx, vy; cart(q.p.mom, v[0], v[1], vx, vy);
      CHECK(near(vx, x, 1e-8) && near(vy, y, 1e-8), "toglobal", "got (%.12g,%.12g) expected (%.12g,%.12g)", vx, vy, x, y);
      if (q.p.mom == POL) CHECK(v[0] >= 0, "radius", "");
      Vector2D w = q.m->globalToLocal(v[0], v[1]); double wx, wy; cart(q.p.lay, w[0], w[1], wx, wy);
      CHECK(near(wx, lx, 1e-8) && near(wy, ly, 1e-8), "roundtrip", "got (%.12g,%.12g) expected (%.12g,%.12g)", wx, wy, lx, ly);
      if (q.p.lay == POL && std::hypot(x, y) > 1e-3) CHECK(near(w[0], a, 1e-8) && sameAngle(w[1], b, 1e-6), "roundtrip-polar", "");
      // and in the other order
      double c0, c1; if (q.p.mom == POL) { c0 = g.d("R", .01, s); c1 = g.d("Phi", -6.2, 6.2); } else { c0 = g.d("X", -s, s); c1 = g.d("Y", -s, s); }
      cart(q.p.mom, c0, c1, x, y); q.p.loc(x, y, lx, ly);
      Vector2D l = q.m->globalToLocal(c0, c1); double mx, my; cart(q.p.lay, l[0], l[1], mx, my);
      CHECK(near(mx, lx, 1e-8) && near(my, ly, 1e-8), "tolocal", "got (%.12g,%.12g) expected (%.12g,%.12g)", mx, my, lx, ly);
      Vector2D h = q.m->localToGlobal(l[0], l[1]); double hx, hy; cart(q.p.mom, h[0], h[1], hx, hy);
      CHECK(near(hx, x, 1e-8) && near(hy, y, 1e-8), "roundtrip2", "");
    }
    placeModule(g, q, g.i("more", 1, 4));
    if (g.chance(.2)) { OP("copy "); q.m.reset(new TPCModuleImpl(*q.m)); }
  }
}
PARTS_TABLE({"frames", frames})
