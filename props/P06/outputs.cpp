#include "common.hpp"
#include "pre.hpp"
// every output form of a 45-degree set
PBT_TARGET(outputs, 150000, 4000000) {
  Lat l = lattice(s); Tri g(l.G); QS q;
  int kind = s.irange(0, 2);
  if (kind == 0) { fill(s, l, q, g, 6); g = g.norm(); }
  else { int dens = s.irange(1, 9); for (auto& v : g.c) v = s.draw(10) < (uint64_t)dens; q = from_tri(s, l, g); if (kind == 2) { Lat m(l); Tri t(l.G); Shape h = any_shape(s, l.G, true); t.add(h); g = g ^ t; using namespace op; q ^= bpwh45<int>(l.at(h)); } }
  s.notef([&](std::ostream& o) { o << "G " << l.G << " m " << l.m << " region " << g; });
  auto comps = g.components(); bool hol = false; { std::vector<Ring> a, b; g.trace(a, b); hol = !b.empty(); }
  s.nontrivial(comps.size() >= 2 || hol); s.label("with holes", hol); s.label("components > 1", comps.size() > 1);
  switch (s.irange(0, 7)) {
    case 0: { std::vector<QD> v; Pre<std::vector<QD>> pre(s, v, bpoly45<int>(l.at(ref::ring(R{0, 0, 2, 4})))); if (s.coin()) q.get(v); else q.get_polygons(v); pre.done(); Tri t = keyed(l, v, "get(polygon_45)"); CHECKM(t == g.fine(), "polygon_45: " << t << " want " << g); break; }
    case 1: { std::vector<QW> v; if (s.coin()) q.get(v); else q.get_polygons_with_holes(v); Tri t = holed(l, v, "get(polygon_45_with_holes)"); CHECKM(t == g, "polygon_45_with_holes: " << t << " want " << g);
      for (auto& p : v) { Tri one(l.G); one.add(l.inv(gen::rshape(p))); CHECKM(one.components().size() == 1, "a polygon with holes is not edge-connected: " << gen::rshape(p)); }
      CHECKM(v.size() == comps.size(), "polygons with holes: " << v.size() << " for " << comps.size() << " components of " << g); break; }
    case 2: { std::list<GD> v; if (s.coin()) q.get(v); else bp::assign(v, q); Tri t = keyed(l, v, "get(polygon)"); CHECKM(t == g.fine(), "polygon: " << t << " want " << g); break; }
    case 3: { std::vector<GW> v; if (s.coin()) q.get(v); else bp::assign(v, q); Tri t = holed(l, v, "get(polygon_with_holes)"); CHECKM(t == g, "polygon_with_holes: " << t << " want " << g); CHECKM(v.size() == comps.size(), "number of polygons with holes"); break; }
    case 4: { std::vector<QD> v; Pre<std::vector<QD>> pre(s, v, bpoly45<int>(l.at(ref::ring(R{0, 0, 2, 4})))); if (s.coin()) q.get_trapezoids(v); else bp::get_trapezoids(v, q); pre.done(); Tri t = traps(l, v, false, "get_trapezoids"); CHECKM(t == g.fine(), "trapezoids: " << t << " want " << g); break; }
    case 5: { std::vector<QD> v; Pre<std::vector<QD>> pre(s, v, bpoly45<int>(l.at(ref::ring(R{0, 0, 2, 4})))); bool h = s.coin(); if (s.coin()) q.get_trapezoids(v, h ? H : V); else bp::get_trapezoids(v, q, h ? H : V); pre.done(); Tri t = traps(l, v, h, "get_trapezoids(orient)"); CHECKM(t == g.fine(), "trapezoids: " << t << " want " << g); break; }
    case 6: { std::vector<GD> v; bool h = s.coin(); q.get_trapezoids(v, h ? H : V); Tri t = traps(l, v, h, "get_trapezoids into polygons"); CHECKM(t == g.fine(), "trapezoids: " << t << " want " << g); break; }
    default: { // appending, and the round trip
      std::vector<QD> v(1, bpoly45<int>(l.at(ref::ring(R{0, 0, 2, 2})))); q.get(v); CHECK(!v.empty()); Ring r = gen::rring(v[0]); CHECKM(l.inv(r) == l.inv(l.at(ref::ring(R{0, 0, 2, 2}))), "get overwrote the container"); v.erase(v.begin());
      QS z; z.insert(v.begin(), v.end()); CHECKM(z == q, "polygons inserted again give another set: " << g); std::vector<QD> tr; q.get_trapezoids(tr, s.coin() ? H : V); QS y; y.insert(tr.begin(), tr.end()); CHECKM(y == q, "trapezoids inserted again give another set: " << g); }
  }
}
