#include "../../lib/arbset.hpp"
#include "common.hpp"
namespace {
// cells of positive area, and for the boundary contact the rings of each node as the library holds them (a simple region)
bool touching(const std::vector<Ring>& a, const std::vector<Ring>& b) {
  auto sa = segs(a), sb = segs(b); Frac f;
  for (auto& x : sa) for (auto& y : sb) { if (cross_at(x, y, f)) return true; if (mem::on_segment(x.a, x.b, y.a) || mem::on_segment(x.a, x.b, y.b) || mem::on_segment(y.a, y.b, x.a)) return true; }
  auto inside = [](const std::vector<Ring>& r, const std::vector<Ring>& of) { for (auto& x : of) for (auto& p : x) { bool on = false; for (auto& y : r) on = on || mem::on_ring(y, p); if (!on && winding(r, p)) return true; } return false; };
  return inside(a, b) || inside(b, a);
}
}
PBT_TARGET(general, 30000, 800000) {
  Ctx c; start(s, c); if (s.coin()) c.f = Frame{-16, 16}; int n = s.irange(1, s.chance(1, 6) ? 12 : 5); std::vector<Opd> in;
  for (int i = 0; i < n; ++i) { s.notef([&](std::ostream& o) { o << "node " << i; }); Frame f = c.f; if (s.chance(3, 4)) { ll w = std::max<ll>(2, (f.hi - f.lo) / 3); ll x = s.range(f.lo, f.hi - w); c.f = Frame{x, x + w}; } in.push_back(plan(s, c, 1, s.coin() ? 1 : 3, ANY, true, "shape:")); c.f = f; }
  bool exact = settle(s, c, s.chance(7, 8)); if (c.skip || !exact) return;
  bp::connectivity_extraction<int> ce; std::vector<std::vector<Ring>> v;
  for (size_t i = 0; i < in.size(); ++i) {
    GS g = OT<GS>::build(in[i], c.k); unsigned id; const Item& t = in[i].items[0]; bool single = in[i].items.size() == 1 && !t.hole;
    if (single && t.as == 3 && s.coin()) id = ce.insert(to_rect(at(t, c.k).outer)); else if (single && t.h.holes.empty() && s.coin()) id = ce.insert(bpolyd<int>(at(t, c.k).outer)); else if (single && s.coin()) id = ce.insert(bpwhd<int>(at(t, c.k))); else id = ce.insert(g);
    CHECKM(id == i, "id of node " << i << " is " << id);
    std::vector<Ring> r = out_rings(g); Diff d = compare(c.w, in[i].region, r); CHECKM(d.wrong <= extent_eps(c.w.rings), "region of a node"); v.push_back(r);
    if (s.chance(1, 8)) { s.note("  copy"); bp::connectivity_extraction<int> k(ce), q; q = k; q.insert(RD(0, 0, 1, 1)); ce = k; }
    if (s.chance(1, 10)) { s.note("  extract"); check_graph(s, ce, expect(v, touching)); }
  }
  VGr w = expect(v, touching); stats(s, w); check_graph(s, ce, w);
}
