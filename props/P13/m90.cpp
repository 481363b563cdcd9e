#include "../P01/common.hpp"
#include "common.hpp"
namespace {
bool touch(const Reg& a, const Reg& b) { for (auto& x : a.rects()) for (auto& y : b.rects()) if (std::min(x.x1, y.x1) >= std::max(x.x0, y.x0) && std::min(x.y1, y.y1) >= std::max(x.y0, y.y0)) return true; return false; }
}
PBT_TARGET(m90, 80000, 2000000) {
  Pool p = pool(s, 1000000000LL, 10); int n = s.irange(1, 7); bp::connectivity_extraction_90<int> ce; std::vector<Reg> v; bool big = s.chance(1, 4);
  auto smallrect = [&] { if (big) return rect(s, p); int i = s.irange(0, (int)p.xs.size() - 2), j = s.irange(0, (int)p.ys.size() - 2); int k = std::min((int)p.xs.size() - 1, i + s.irange(1, 2)), q = std::min((int)p.ys.size() - 1, j + s.irange(1, 2)); return R{p.xs[i], p.ys[j], p.xs[k], p.ys[q]}; };
  for (int i = 0; i < n; ++i) {
    int k = s.weighted({4, 2, 2, 3, 2}); Reg r; unsigned id;
    if (k == 0) { R q = smallrect(); r = Reg::of(q); id = ce.insert(brect<int>(q)); }
    else if (k == 1) { Shape h = shape(s, p, false); h.outer = vary(s, h.outer); r = Reg::of(h); id = ce.insert(bpoly90<int>(h.outer)); }
    else if (k == 2) { Shape h = shape(s, p, true); h.outer = vary(s, h.outer); for (auto& q : h.holes) q = vary(s, q); r = Reg::of(h); id = ce.insert(bpwh90<int>(h)); }
    else if (k == 3) { PS ps(orient(s)); std::vector<R> w; for (int j = s.irange(0, 3); j > 0; --j) { w.push_back(smallrect()); ps.insert(brect<int>(w.back())); } r = Reg::of(w); if (s.chance(1, 4)) ps.clean(); id = ce.insert(ps); }
    else { PS ps(orient(s)); std::vector<Reg::E> es; fill(s, p, ps, es, true, 4); r = Reg::from_edges(es); id = ce.insert(ps); }
    s.notef([&](std::ostream& o) { o << "node " << i << " kind " << k << " region " << r; });
    CHECKM(id == (unsigned)i, "id of node " << i << " is " << id); v.push_back(r);
    if (s.chance(1, 8)) { s.note("  copy"); bp::connectivity_extraction_90<int> c(ce), d; d = c; d.insert(RD(0, 0, 1, 1)); ce = c; }
    if (s.chance(1, 10)) { s.note("  extract"); check_graph(s, ce, expect(v, touch)); }
  }
  VGr w = expect(v, touch); stats(s, w); check_graph(s, ce, w);
}
