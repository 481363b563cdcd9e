#include "../P05/half.hpp"
#include "common.hpp"
namespace {
bool touch(const Tri& a, const Tri& b) {  // closed regions share a point: always at a corner of triangles
  std::set<P> v; P p[3];
  for (int t = 0; t < (int)a.c.size(); ++t) if (a.c[t] > 0) { a.corners(t, p); v.insert(p, p + 3); }
  for (int t = 0; t < (int)b.c.size(); ++t) if (b.c[t] > 0) { b.corners(t, p); for (int k = 0; k < 3; ++k) if (v.count(p[k])) return true; }
  return false;
}
}
PBT_TARGET(m45, 60000, 1500000) {
  Lat l = lattice(s, 8); int n = s.irange(1, 6); bp::connectivity_extraction_45<int> ce; std::vector<Tri> v;
  for (int i = 0; i < n; ++i) {
    int k = s.weighted({2, 4, 4, 1, 1, 1, 1, 1, 5}); Tri r(l.G); unsigned id;
    s.notef([&](std::ostream& o) { o << "node " << i; });
    switch (k) { case 0: id = ce.insert(make<RD>::go(s, l, r)); break; case 1: id = ce.insert(make<QD>::go(s, l, r)); break; case 2: id = ce.insert(make<QW>::go(s, l, r)); break; case 3: id = ce.insert(make<PD>::go(s, l, r)); break; case 4: id = ce.insert(make<WD>::go(s, l, r)); break;
      case 5: id = ce.insert(make<PS>::go(s, l, r)); break; case 6: id = ce.insert(make<std::vector<QD>>::go(s, l, r)); break; case 7: id = ce.insert(make<std::list<QW>>::go(s, l, r)); break;
      default: { QS q = make<QS>::go(s, l, r); id = ce.insert(q); } }
    CHECKM(id == (unsigned)i, "id of node " << i << " is " << id); v.push_back(r.norm());
    if (s.chance(1, 8)) { s.note("  copy"); bp::connectivity_extraction_45<int> c(ce), d; d = c; d.insert(RD(0, 0, 1, 1)); ce = c; }
    if (s.chance(1, 10)) { s.note("  extract"); check_graph(s, ce, expect(v, touch)); }
  }
  VGr w = expect(v, touch); stats(s, w); check_graph(s, ce, w);
}
// edges that cross or touch at half-integer points
PBT_TARGET(half45, 40000, 1000000) {
  HL l; l.G = s.irange(2, 7); l.ox = s.chance(1, 4) ? s.around(-500000000, 500000000) : s.around(-6, 6); l.oy = s.chance(1, 4) ? s.around(-500000000, 500000000) : s.around(-6, 6);
  int n = s.irange(1, 6); bp::connectivity_extraction_45<int> ce; std::vector<Tri> v;
  for (int i = 0; i < n; ++i) { s.notef([&](std::ostream& o) { o << "node " << i; }); QS q; Tri g(l.G); hfill(s, l, q, g, 2); q.clean(); g = check_half(l, q, g.norm(), "cleaned operand"); v.push_back(g); ce.insert(q); }
  VGr w = expect(v, touch); stats(s, w); check_graph(s, ce, w);
}
