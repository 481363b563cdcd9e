// detail::minkowski_offset against sums of rectangles (Manhattan operands,
// exact) and against exact overlap tests of A and q - B (any angle).
#include "simple.hpp"
namespace {
using ref::R; using ref::Reg;
typedef bp::detail::minkowski_offset<int> MO;
std::vector<Ring> rings_of_set(const GS& g) { GS c(g); std::vector<GW> v; c.get(v); return rings_of(gen::rshapes_wh(v)); }
void stale(Src& s, GS& g) { if (s.chance(1, 4)) { g.insert(bp::rectangle_data<int>(-1000, -1000, 1000, 1000)); if (s.coin()) g.clean(); } }
GS build(const std::vector<Shape>& v) { GS g; for (auto& h : v) g.insert(bpwhd<int>(h)); return g; }
struct Region { std::vector<Shape> v; std::vector<Seg> e; bool in(const P& q) const { for (auto& h : v) { int w = std::abs(mem::winding(h.outer, q)); for (auto& k : h.holes) w -= std::abs(mem::winding(k, q)); if (w > 0) return true; } return false; } };
Region region(const std::vector<Shape>& v) { Region r; r.v = v; r.e = segs(rings_of(v)); return r; }
Ring par(const Seg& a, const Seg& b) { return Ring{P{a.a.x + b.a.x, a.a.y + b.a.y}, P{a.b.x + b.a.x, a.b.y + b.a.y}, P{a.b.x + b.b.x, a.b.y + b.b.y}, P{a.a.x + b.b.x, a.a.y + b.b.y}}; }
// 1 in the sum by margin, 0 outside by margin, -1 too close to say
int member(const Region& a, const Region& b, const P& q, ll d) {
  int r = 0; for (auto& x : a.e) for (auto& y : b.e) { Ring p = par(x, y); bool n = mem::near(p, q, d); if (n) r = -1; else if (mem::winding(p, q) != 0) return 1; }
  if (r < 0) return r;
  for (auto& h : a.v) if (b.in(P{q.x - h.outer[0].x, q.y - h.outer[0].y})) return 1;
  for (auto& h : b.v) if (a.in(P{q.x - h.outer[0].x, q.y - h.outer[0].y})) return 1;
  return 0;
}
}
PBT_TARGET(manhattan, 6000, 120000) {
  gen::Pool pa = gen::pool(s, 100000, 6), pb = gen::pool(s, 100000, 5); std::vector<Shape> a, b; for (int i = s.chance(1, 20) ? 0 : s.irange(1, 3); i > 0; --i) a.push_back(s.chance(2, 3) ? gen::shape(s, pa, true, 24) : Shape{ref::ring(gen::rect(s, pa)), {}}); for (int i = s.chance(1, 20) ? 0 : s.irange(1, 2); i > 0; --i) b.push_back(s.coin() ? gen::shape(s, pb, true, 12) : Shape{ref::ring(gen::rect(s, pb)), {}});
  s.notef([&](std::ostream& o) { o << "a " << a << " b " << b; });
  Reg ra = Reg::of(a), rb = Reg::of(b); std::vector<R> sum; for (auto& x : ra.rects()) for (auto& y : rb.rects()) sum.push_back(R{x.x0 + y.x0, x.y0 + y.y0, x.x1 + y.x1, x.y1 + y.y1}); Reg want = Reg::of(sum);
  GS ga = build(a), gb = build(b), out; stale(s, out); bool swap = s.coin(); if (swap) MO::convolve_two_polygon_sets(out, gb, ga); else MO::convolve_two_polygon_sets(out, ga, gb);
  std::vector<Ring> rg = rings_of_set(out); std::vector<Reg::E> es; for (auto& r : rg) { for (size_t i = 0; i < r.size(); ++i) { P p = r[i], q = r[(i + 1) % r.size()]; CHECKM(p.x == q.x || p.y == q.y, "slanted edge " << p << q); } Reg::add_ring(es, r, 1); }
  Reg got = Reg::from_edges(es); CHECKM(got == want, "sum is " << got << " expected " << want); CHECKM(Reg::from_edges(es, [](int c) { return c < 0 || c > 1; }).empty(), "output polygons overlap: " << rg);
  bool holes = false; for (auto& h : a) holes = holes || !h.holes.empty(); s.label("hole in an operand", holes); s.nontrivial(ra.rects().size() > 1 && rb.rects().size() > 0);
}
PBT_TARGET(general, 5000, 100000) {
  Frame fa = frame(s, 100000), fb = frame(s, 100000); ll k = s.weighted({1, 2, 2}); k = k == 0 ? 1 : k == 1 ? 16 : 100; auto fit = [&](Frame& f) { if (std::max(std::llabs(f.lo), std::llabs(f.hi)) * k > 200000) { f.lo /= 300; f.hi = std::max(f.hi / 300, f.lo + 2); } }; fit(fa); fit(fb);
  std::vector<Shape> a, b; for (int i = s.weighted({12, 3, 1}) == 1 ? 2 : 1; i > 0; --i) a.push_back(mem::scaled(gen_simple(s, fa), k)); for (int i = s.weighted({12, 2}) == 1 ? 2 : 1; i > 0; --i) b.push_back(mem::scaled(gen_simple(s, fb), k));
  s.notef([&](std::ostream& o) { o << "a " << a << " b " << b; });
  for (auto* v : {&a, &b}) { if (!sturdy(*v)) v->resize(1); if (!sturdy(*v)) { s.label("excluded: thin"); return; } }
  Region ra = region(a), rb = region(b); GS ga = build(a), gb = build(b), out; stale(s, out); if (s.coin()) MO::convolve_two_polygon_sets(out, gb, ga); else MO::convolve_two_polygon_sets(out, ga, gb);
  std::vector<Ring> rg = rings_of_set(out); int dec = 0, in = 0;
  for (int i = 0; i < 24; ++i) {
    const Seg &x = ra.e[s.draw(ra.e.size())], &y = rb.e[s.draw(rb.e.size())]; ll sp = s.coin() ? 24 : (fa.hi - fa.lo) * k / 4 + 8; P q{(s.coin() ? x.a.x : (x.a.x + x.b.x) / 2) + (s.coin() ? y.a.x : (y.a.x + y.b.x) / 2) + s.around(-sp, sp), (s.coin() ? x.a.y : (x.a.y + x.b.y) / 2) + (s.coin() ? y.a.y : (y.a.y + y.b.y) / 2) + s.around(-sp, sp)};
    int m = member(ra, rb, q, 4); if (m < 0) continue; ++dec; in += m; int w = winding(rg, q); CHECKM(w == m, "point " << q << " is covered " << w << " times by the sum, expected " << m << "; output " << rg); }
  s.label("inside", in > 0); s.label("outside", in < dec); s.label("hole in an operand", a[0].holes.size() + b[0].holes.size() > 0); s.nontrivial(dec > 3);
}
