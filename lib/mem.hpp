// Exact point membership and point-to-edge distance for polygons of any angle.
// Independent of boost::polygon.
#ifndef VERIF_MEM_HPP
#define VERIF_MEM_HPP
#include "gen90.hpp"
namespace mem {
using ref::ll; using ref::P; using ref::Ring; using ref::Shape; using pbt::Src;
typedef __int128 LL;
inline int sgn(LL v) { return v > 0 ? 1 : v < 0 ? -1 : 0; }
inline LL cross(const P& a, const P& b, const P& c) { return (LL)(b.x - a.x) * (c.y - a.y) - (LL)(b.y - a.y) * (c.x - a.x); }
// winding number of the closed ring around q; q must not lie on the ring.
// All coordinates in the same (scaled) units.
inline int winding(const Ring& r, const P& q) {
  int w = 0;
  for (size_t i = 0, n = r.size(); i < n; ++i) {
    const P &a = r[i], &b = r[(i + 1) % n];
    if (a.y <= q.y) { if (b.y > q.y && cross(a, b, q) > 0) ++w; }
    else if (b.y <= q.y && cross(a, b, q) < 0) --w;
  }
  return w;
}
inline bool on_segment(const P& a, const P& b, const P& q) {
  return cross(a, b, q) == 0 && std::min(a.x, b.x) <= q.x && q.x <= std::max(a.x, b.x) && std::min(a.y, b.y) <= q.y && q.y <= std::max(a.y, b.y);
}
inline bool on_ring(const Ring& r, const P& q) { for (size_t i = 0, n = r.size(); i < n; ++i) if (on_segment(r[i], r[(i + 1) % n], q)) return true; return false; }
// is q within Euclidean distance d of segment ab?  (|coordinates| < 2^33 or so)
inline bool near(const P& a, const P& b, const P& q, ll d) {
  ll dx = b.x - a.x, dy = b.y - a.y;
  if (q.x < std::min(a.x, b.x) - d || q.x > std::max(a.x, b.x) + d || q.y < std::min(a.y, b.y) - d || q.y > std::max(a.y, b.y) + d) return false;
  LL t = (LL)(q.x - a.x) * dx + (LL)(q.y - a.y) * dy, len = (LL)dx * dx + (LL)dy * dy;
  auto d2 = [&](const P& u) { return (LL)(q.x - u.x) * (q.x - u.x) + (LL)(q.y - u.y) * (q.y - u.y); };
  if (t <= 0) return d2(a) <= (LL)d * d;
  if (t >= len) return d2(b) <= (LL)d * d;
  long double c = (long double)cross(a, b, q); return c * c <= (long double)d * d * (long double)len;
}
inline bool near(const Ring& r, const P& q, ll d) { for (size_t i = 0, n = r.size(); i < n; ++i) if (near(r[i], r[(i + 1) % n], q, d)) return true; return false; }
inline bool near(const std::vector<Ring>& v, const P& q, ll d) { for (auto& r : v) if (near(r, q, d)) return true; return false; }
inline Ring scaled(const Ring& r, ll k) { Ring o; for (auto& p : r) o.push_back(P{p.x * k, p.y * k}); return o; }
inline Shape scaled(const Shape& s, ll k) { Shape o; o.outer = scaled(s.outer, k); for (auto& h : s.holes) o.holes.push_back(scaled(h, k)); return o; }
}  // namespace mem
#endif
