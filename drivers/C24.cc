#include "vc.hh"
#include "gearsurf/MeasurementSurfaceStore.h"
#include "gearsurf/MeasurementSurface.h"
#include "gearsurf/CartesianCoordinateSystem.h"
using namespace gear;
struct Fill : MeasurementSurfaceStoreFiller { std::vector<MeasurementSurface*> l; std::string n; void getMeasurementSurfaces(std::vector<MeasurementSurface*>& v) const { v.insert(v.end(), l.begin(), l.end()); } std::string getName() const { return n; } };
static void fills(Gen& g) {
  auto* s = new MeasurementSurfaceStore; std::map<int, MeasurementSurface*> ref; bool full = false; std::string by; int n = g.i("fills", 0, 4); bool copy = g.b("copied");
  auto check = [&](const MeasurementSurfaceStore& s) {
    CHECK(s.isFilled() == full, "filled", "%d", s.isFilled()); std::string q; Out o = outcome([&] { q = s.getFillerName(); }); CHECK(full ? o == OK && q == by : o == GEAR_EXC, "filler", "%s", q.c_str());
    for (int id = -6; id < 26; ++id) { const MeasurementSurface* m = nullptr; Out o = outcome([&] { m = s.GetMeasurementSurface(id); }); auto it = ref.find(id); CHECK(it == ref.end() ? o == GEAR_EXC : o == OK && m == it->second, "surface", "of identifier %d", id); }
  };
  check(*s);
  for (int k = 0; k < n; ++k) {
    Fill f; f.n = "f" + std::to_string(g.i("name", 0, 99)); std::map<int, MeasurementSurface*> m; bool dup = false; int c = g.i("surfaces", 0, 9);
    for (int i = 0; i < c; ++i) { int id = g.i("id", -5, 24); auto* ms = new MeasurementSurface(id, new CartesianCoordinateSystem(CLHEP::Hep3Vector(), CLHEP::HepRotation())); f.l.push_back(ms); dup = !m.insert({id, ms}).second || dup; }
    Out o = outcome([&] { s->FillStore(&f); });
    CHECK(o == (full || dup ? GEAR_EXC : OK), "fill", "%d surfaces, %s: outcome %d", c, full ? "filled before" : dup ? "an identifier twice" : "distinct identifiers", o);
    if (o == OK) { full = true; by = f.n; ref = m; }
    check(*s);
  }
  if (copy) check(*new MeasurementSurfaceStore(*s));
}
PARTS_TABLE({"fills", fills})
