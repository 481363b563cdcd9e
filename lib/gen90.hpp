// Generators of Manhattan geometry and conversions between the reference
// model (ref::) and boost::polygon.
#ifndef VERIF_GEN90_HPP
#define VERIF_GEN90_HPP
#include <functional>
#include "pbt.hpp"
#include "reg.hpp"
#include <boost/polygon/polygon.hpp>
#include <list>
namespace gen {
namespace bp = boost::polygon;
using ref::ll; using ref::P; using ref::R; using ref::Ring; using ref::Shape; using ref::Reg;
using pbt::Src;

// A pool of coordinates: shapes of one case pick from it, so that edges of
// different shapes coincide often.
struct Pool {
  std::vector<ll> xs, ys;
};
inline std::vector<ll> axis(Src& s, int n, int mode, ll lo_lim, ll hi_lim, ll mult) {
  std::vector<ll> v; ll c;
  // mode 0: consecutive small integers; 1: small random gaps; 2: wide
  if (mode == 0) { c = s.around(-4, 4); for (int i = 0; i < n; ++i) v.push_back((c + i) * mult); }
  else if (mode == 1) { c = s.around(-30, 30); for (int i = 0; i < n; ++i) { v.push_back(c * mult); c += s.range(1, 6); } }
  else {
    std::set<ll> t; ll span = (hi_lim / mult) - (lo_lim / mult);
    for (int i = 0; i < n * 2 && (int)t.size() < n; ++i) {
      ll k = s.weighted({6, 2, 1, 1}) ;
      ll q = k == 0 ? lo_lim / mult + s.range(0, span) : k == 1 ? s.around(-3, 3) : k == 2 ? hi_lim / mult - s.range(0, 3) : lo_lim / mult + s.range(0, 3);
      t.insert(q * mult);
    }
    for (ll j = 1; (int)t.size() < 2; ++j) t.insert((j + 1) * mult);
    v.assign(t.begin(), t.end());
  }
  return v;
}
// lim: largest absolute coordinate in wide mode
inline Pool pool(Src& s, ll lim, int maxn = 8, ll mult = 1, bool allow_wide = true) {
  Pool p; int mode = s.weighted({4, 4, allow_wide ? 2 : 0});
  int nx = s.irange(3, maxn), ny = s.irange(3, maxn);
  p.xs = axis(s, nx, mode, -lim, lim, mult); p.ys = axis(s, ny, mode, -lim, lim, mult);
  return p;
}
inline R rect(Src& s, const Pool& p) {
  int nx = (int)p.xs.size(), ny = (int)p.ys.size();
  int i = s.irange(0, nx - 2), j = s.irange(0, ny - 2);
  int k = s.irange(i + 1, nx - 1), l = s.irange(j + 1, ny - 1);
  return R{p.xs[i], p.ys[j], p.xs[k], p.ys[l]};
}
// trace the boundary of a set of cells with the interior on the left; loops
// stay tight around their cell at pinch points
inline void trace(const std::vector<std::vector<char>>& c, const Pool& p, std::vector<Ring>& outer, std::vector<Ring>& inner) {
  int n = (int)c.size(), m = (int)c[0].size();
  auto at = [&](int i, int j) { return i >= 0 && j >= 0 && i < n && j < m && c[i][j]; };
  // directed unit edge from grid vertex (i,j) in direction d (0 E,1 N,2 W,3 S)
  static const int dx[4] = {1, 0, -1, 0}, dy[4] = {0, 1, 0, -1};
  auto isedge = [&](int i, int j, int d) {
    switch (d) {
      case 0: return at(i, j) && !at(i, j - 1);
      case 1: return at(i - 1, j) && !at(i, j);
      case 2: return at(i - 1, j - 1) && !at(i - 1, j);
      default: return at(i, j - 1) && !at(i - 1, j - 1);
    }
  };
  std::set<std::pair<std::pair<int, int>, int>> seen;
  for (int i = 0; i <= n; ++i) for (int j = 0; j <= m; ++j) for (int d = 0; d < 4; ++d) {
    if (!isedge(i, j, d) || seen.count(std::make_pair(std::make_pair(i, j), d))) continue;
    Ring r; int x = i, y = j, k = d;
    // walk
    do {
      seen.insert(std::make_pair(std::make_pair(x, y), k));
      int px = x, py = y; (void)px; (void)py;
      x += dx[k]; y += dy[k];
      int nk = -1;
      int order[3] = {(k + 1) & 3, k, (k + 3) & 3};
      for (int q = 0; q < 3; ++q) if (isedge(x, y, order[q])) { nk = order[q]; break; }
      if (nk != k) r.push_back(P{p.xs[x], p.ys[y]});
      k = nk;
    } while (!(x == i && y == j && k == d));
    if (area2(r) > 0) outer.push_back(r); else inner.push_back(r);
  }
}
// a connected Manhattan shape; holes only when allowed (otherwise filled)
inline Shape shape(Src& s, const Pool& p, bool holes, int maxcells = 30) {
  int nx = (int)p.xs.size() - 1, ny = (int)p.ys.size() - 1;
  int w = std::min(nx, s.irange(1, 6)), h = std::min(ny, s.irange(1, 6));
  int ox = s.irange(0, nx - w), oy = s.irange(0, ny - h);
  std::vector<std::vector<char>> c(nx, std::vector<char>(ny, 0)), k = c;
  int dens = s.irange(1, 4);  // of 5
  bool any = false;
  for (int i = 0; i < w; ++i) for (int j = 0; j < h; ++j) if (s.draw(5) < (uint64_t)(5 - (5 - dens)) ) { c[ox + i][oy + j] = 1; any = true; }
  if (holes && w > 2 && h > 2 && s.coin()) {  // a plate with cells punched out of its inside
    for (int i = 0; i < w; ++i) for (int j = 0; j < h; ++j) c[ox + i][oy + j] = !(i && j && i + 1 < w && j + 1 < h && s.draw(5) < (uint64_t)dens);
    any = true;
  }
  if (!any) c[ox][oy] = 1;
  // largest 4-connected component
  int best = 0; std::vector<std::vector<char>> comp = k, seen = k;
  for (int i = 0; i < nx; ++i) for (int j = 0; j < ny; ++j) if (c[i][j] && !seen[i][j]) {
    std::vector<std::pair<int, int>> q(1, std::make_pair(i, j)); seen[i][j] = 1;
    std::vector<std::vector<char>> cur = k;
    for (size_t t = 0; t < q.size(); ++t) {
      int x = q[t].first, y = q[t].second; cur[x][y] = 1;
      for (int d = 0; d < 4; ++d) { int a = x + (d == 0) - (d == 1), b = y + (d == 2) - (d == 3);
        if (a >= 0 && b >= 0 && a < nx && b < ny && c[a][b] && !seen[a][b]) { seen[a][b] = 1; q.push_back(std::make_pair(a, b)); } }
    }
    if ((int)q.size() > best) { best = (int)q.size(); comp = cur; }
  }
  std::vector<Ring> o, in; trace(comp, p, o, in);
  Shape r; r.outer = o[0];
  if (holes) r.holes = in;
  return r;
}
// vary representation: rotate the start vertex, reverse the winding
inline Ring vary(Src& s, Ring r) {
  if (s.chance(1, 3)) std::reverse(r.begin(), r.end());
  if (s.chance(1, 3)) std::rotate(r.begin(), r.begin() + s.irange(0, (int)r.size() - 1), r.end());
  return r;
}

template <class T> bp::rectangle_data<T> brect(const R& r) { return bp::rectangle_data<T>((T)r.x0, (T)r.y0, (T)r.x1, (T)r.y1); }
template <class T> std::vector<bp::point_data<T>> bpts(const Ring& r) {
  std::vector<bp::point_data<T>> v; for (auto& p : r) v.push_back(bp::point_data<T>((T)p.x, (T)p.y)); return v;
}
template <class Poly, class T> Poly bpoly(const Ring& r) { std::vector<bp::point_data<T>> v = bpts<T>(r); Poly p; bp::set_points(p, v.begin(), v.end()); return p; }
template <class T> bp::polygon_90_data<T> bpoly90(const Ring& r) { return bpoly<bp::polygon_90_data<T>, T>(r); }
template <class T> bp::polygon_90_with_holes_data<T> bpwh90(const Shape& s) {
  bp::polygon_90_with_holes_data<T> p = bpoly<bp::polygon_90_with_holes_data<T>, T>(s.outer);
  std::vector<bp::polygon_90_data<T>> h; for (auto& r : s.holes) h.push_back(bpoly90<T>(r));
  bp::set_holes(p, h.begin(), h.end());
  return p;
}
template <class T> R rrect(const bp::rectangle_data<T>& r) { return R{(ll)bp::xl(r), (ll)bp::yl(r), (ll)bp::xh(r), (ll)bp::yh(r)}; }
template <class Poly> Ring rring(const Poly& p) {
  Ring r;
  for (auto i = bp::begin_points(p); i != bp::end_points(p); ++i) { auto q = *i; r.push_back(P{(ll)bp::x(q), (ll)bp::y(q)}); }
  return r;
}
template <class Poly> Shape rshape(const Poly& p) {
  Shape s; s.outer = rring(p);
  for (auto i = bp::begin_holes(p); i != bp::end_holes(p); ++i) s.holes.push_back(rring(*i));
  return s;
}
template <class V> std::vector<R> rrects(const V& v) { std::vector<R> o; for (auto& r : v) o.push_back(rrect(r)); return o; }
template <class V> std::vector<Shape> rshapes(const V& v) { std::vector<Shape> o; for (auto& r : v) { Shape s; s.outer = rring(r); o.push_back(s); } return o; }
template <class V> std::vector<Shape> rshapes_wh(const V& v) { std::vector<Shape> o; for (auto& r : v) o.push_back(rshape(r)); return o; }

// region stored in the raw data of a set: sum of all edge counts > 0
template <class Set> Reg raw_region(const Set& ps) {
  std::vector<Reg::E> es; bool vert = ps.orient() == bp::HORIZONTAL;
  // (pos,(y,count)); for a HORIZONTAL set pos is a y coordinate
  std::map<ll, std::map<ll, int>> d;
  for (auto i = ps.begin(); i != ps.end(); ++i) d[(ll)i->first][(ll)i->second.first] += i->second.second;
  std::map<ll, int> cur; ll last = 0; std::vector<R> rs;
  for (auto& c : d) {
    int k = 0; ll y0 = 0; bool in = false;
    for (auto& e : cur) { k += e.second; bool n = k > 0; if (n && !in) y0 = e.first; if (!n && in) rs.push_back(R{last, y0, c.first, e.first}); in = n; }
    if (in) pbt::fail("raw 90-set data: unbounded region");
    for (auto& e : c.second) { cur[e.first] += e.second; if (!cur[e.first]) cur.erase(e.first); }
    last = c.first;
  }
  if (!cur.empty()) pbt::fail("raw 90-set data: unbalanced edges");
  if (vert) for (auto& r : rs) r = R{r.y0, r.x0, r.y1, r.x1};
  return Reg::of(rs);
}
template <class Set> std::vector<R> get_rects(const Set& ps) { std::vector<bp::rectangle_data<typename Set::coordinate_type>> v; ps.get(v); return rrects(v); }
inline bool disjoint(const std::vector<R>& v) {
  for (size_t i = 0; i < v.size(); ++i) { if (v[i].x0 >= v[i].x1 || v[i].y0 >= v[i].y1) return false;
    for (size_t j = i + 1; j < v.size(); ++j)
      if (std::min(v[i].x1, v[j].x1) > std::max(v[i].x0, v[j].x0) && std::min(v[i].y1, v[j].y1) > std::max(v[i].y0, v[j].y0)) return false; }
  return true;
}
}  // namespace gen
#endif
