// Simple polygons with holes, of any angle, that survive snapping unchanged.
#ifndef VERIF_SIMPLE_HPP
#define VERIF_SIMPLE_HPP
#include "arbset.hpp"
// ---- shapes of any angle, simple, holes strictly inside ---------------------
inline bool simple(const Shape& h) {
  std::vector<Ring> r{h.outer}; for (auto& k : h.holes) r.push_back(k); auto sg = segs(r); Frac f; std::map<P, int> at;
  for (auto& q : r) { for (auto& p : q) if (++at[p] > 1) return false; } for (auto& a : sg) for (auto& b : sg) { if (&a >= &b) continue; bool share = a.a == b.b || a.b == b.a; if (a.a == b.a || a.b == b.b) return false;
    if (share) { P c = a.b == b.a ? a.b : a.a, d = a.b == b.a ? a.a : a.b, e = a.b == b.a ? b.b : b.a; if (mem::cross(c, d, e) == 0 && (LL)(d.x - c.x) * (e.x - c.x) + (LL)(d.y - c.y) * (e.y - c.y) > 0) return false; continue; }
    if (cross_at(a, b, f)) return false; for (const P* p : {&b.a, &b.b}) if (mem::on_segment(a.a, a.b, *p)) return false; for (const P* p : {&a.a, &a.b}) if (mem::on_segment(b.a, b.b, *p)) return false; }
  for (auto& k : h.holes) if (mem::winding(h.outer, k[0]) == 0) return false; for (size_t i = 0; i < h.holes.size(); ++i) for (size_t j = 0; j < h.holes.size(); ++j) if (i != j && mem::winding(h.holes[i], h.holes[j][0])) return false;
  return true;
}
inline Shape gen_simple(Src& s, const Frame& f) {
  Shape h; for (int t = 0; t < 3; ++t) { h = any_shape(s, f, s.weighted({4, 1, 3, 1, 2}), true); if (h.outer.size() > 8) continue; if (simple(h)) return h; h.holes.clear(); if (simple(h)) return h; }
  ll m = f.lo + (f.hi - f.lo) / 2; h = Shape(); h.outer = Ring{P{f.lo, f.lo}, P{f.hi, m}, P{m, f.hi}}; if (!usable(h.outer)) h.outer = Ring{P{f.lo, f.lo}, P{f.hi, f.lo}, P{f.lo, f.hi}}; return h;
}
// the operand survives snapping as it is
inline bool sturdy(const std::vector<Shape>& v) { auto sg = segs(rings_of(v)); return crossing_lcm(sg, 1) == 1 && separated(sg); }
#endif
