// 45-degree polygons in every type that can hold them.
#include "poly.hpp"
using namespace poly;
PBT_TARGET(fortyfive, 700000, 14000000) {
  Case c = make_case(s, 1, POLY_LIM);
  switch (s.irange(0, 6)) {
    case 0: run<bp::polygon_45_data<int> >(s, c, "polygon_45_data<int>"); break; case 1: run<bp::polygon_45_with_holes_data<int> >(s, c, "polygon_45_with_holes_data<int>"); break;
    case 2: run<bp::polygon_45_data<ll> >(s, c, "polygon_45_data<long long>"); break; case 3: run<bp::polygon_45_with_holes_data<ll> >(s, c, "polygon_45_with_holes_data<long long>"); break;
    case 4: convert<bp::polygon_45_with_holes_data<int>, bp::polygon_45_data<int> >(s, c, "assignment of polygon_45 to polygon_45_with_holes"); convert<bp::polygon_data<int>, bp::polygon_45_data<int> >(s, c, "assignment of polygon_45 to polygon"); convert<OwnPoly, bp::polygon_45_data<int> >(s, c, "assignment of polygon_45 to own polygon"); break;
    case 5: convert<bp::polygon_with_holes_data<int>, bp::polygon_45_with_holes_data<int> >(s, c, "assignment of polygon_45_with_holes to polygon_with_holes"); break;
    default: view<bp::polygon_45_concept, bp::polygon_data<int> >(s, c, "view of polygon as polygon_45"); view<bp::polygon_45_concept, OwnPoly >(s, c, "view of own polygon as polygon_45"); view<bp::polygon_45_with_holes_concept, bp::polygon_with_holes_data<int> >(s, c, "view of polygon_with_holes as polygon_45_with_holes"); view<bp::polygon_concept, bp::polygon_45_with_holes_data<int> >(s, c, "view of polygon_45_with_holes as polygon");
  }
}
// scaling a 45-degree polygon rounds its vertices and keeps its angles
PBT_TARGET(snap, 200000, 4000000) {
  tri::Lat l = tri::lattice(s, 8, 100000000); Shape t = tri::any_shape(s, l.G, s.coin()); Case c; c.A = tri::vary(s, maps(t, [&](P q) { return P{l.ox + q.x * l.m, l.oy + q.y * l.m}; })); int k = s.irange(2, 9), m = s.irange(1, 64); bool down = s.coin();
  s.notef([&](std::ostream& o) { show(o, c.A); o << (down ? " scale_down " : " scale ") << (down ? k : m) << (down ? "" : "/16"); });
  typedef bp::polygon_45_with_holes_data<int> Poly; Poly p = make<Poly>(c.A); if (down) bp::scale_down(p, k); else bp::scale(p, m / 16.0); Shape g = shape_of(p);
  auto one = [&](const Ring& from, const Ring& to) { LD f = down ? 1.0L / k : m / 16.0L; if (from.size() != to.size()) pbt::fail("vertices were lost"); if (!is45(to)) pbt::fail("not 45-degree"); for (size_t i = 0; i < from.size(); ++i) { LD dx = fabsl(to[i].x - from[i].x * f), dy = fabsl(to[i].y - from[i].y * f); if (dx > (LD)from.size() || dy > (LD)from.size()) pbt::fail("moved"); } };
  auto ok = [&](const Ring& r) { LD f = down ? 1.0L / k : m / 16.0L; for (size_t i = 0; i < r.size(); ++i) { const P &a = r[i], &b = r[(i + 1) % r.size()]; LD d = std::max(fabsl(a.x - b.x), fabsl(a.y - b.y)) * f; if (d < 4) return false; } return true; };
  if (!ok(c.A.outer)) return; for (auto& h : c.A.holes) if (!ok(h)) return; s.nontrivial(c.A.outer.size() > 4);
  one(c.A.outer, g.outer); for (size_t i = 0; i < c.A.holes.size(); ++i) one(c.A.holes[i], g.holes[i]);
}
