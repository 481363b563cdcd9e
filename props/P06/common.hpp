#include "../P05/common.hpp"
typedef bp::polygon_data<int> GD;
typedef bp::polygon_with_holes_data<int> GW;
static const bp::orientation_2d H = bp::HORIZONTAL, V = bp::VERTICAL;
inline bool same(const Tri& a, const Tri& b) { return a == b; }
// a set holding the region g, built from its triangles or its traced polygons
inline QS from_tri(Src& s, const Lat& l, const Tri& g) {
  QS q; std::vector<Ring> o, in; 
  if (s.coin()) { g.trace(o, in); for (auto& r : o) q.insert(bpoly45<int>(l.at(r))); for (auto& r : in) q.insert(bpoly45<int>(l.at(r)), true); }
  else for (int t = 0; t < (int)g.c.size(); ++t) if (g.c[t] > 0) { P p[3]; g.corners(t, p); q.insert(bpoly45<int>(l.at(Ring{p[0], p[1], p[2]}))); }
  return q;
}
// a keyhole slit that ends on a vertex repeats it
template <class V> Tri keyed(const Lat& l, const V& v, const char* what) {
  std::vector<Shape> w = gen::rshapes(v);
  for (auto& h : w) { Ring r; for (auto& p : h.outer) if (r.empty() || r.back() != p) r.push_back(p); h.outer = r; }
  return tiles(l.fine(), w, true, what);
}
template <class V> Tri holed(const Lat& l, const V& v, const char* what) { return tiles(l, gen::rshapes_wh(v), true, what); }
template <class V> Tri traps(const Lat& l, const V& v, bool horizontal, const char* what) {
  for (auto& p : v) { Ring r = gen::rring(p); if (r.size() > 1 && r.front() == r.back()) r.pop_back();
    CHECKM(r.size() == 3 || r.size() == 4, what << ": a trapezoid with " << r.size() << " vertices " << r);
    // bounded by at most two slice lines: every vertex on the low or high slice coordinate
    ll lo = horizontal ? r[0].y : r[0].x, hi = lo; for (auto& q : r) { ll z = horizontal ? q.y : q.x; lo = std::min(lo, z); hi = std::max(hi, z); }
    for (auto& q : r) { ll z = horizontal ? q.y : q.x; CHECKM(z == lo || z == hi, what << ": vertex off the slice lines in " << r); } }
  return tiles(l.fine(), gen::rshapes(v), false, what);
}
inline ll delta2(const Tri& t, int) { return t.area(); }
