// Exact reference model of 45-degree regions: a raster of GxG squares, each cut
// by its diagonals in four triangles.  All edges of a case run along lattice
// lines, so a region is a set of triangles.  Independent of boost::polygon.
#ifndef VERIF_TRI_HPP
#define VERIF_TRI_HPP
#include "gen90.hpp"
namespace tri {
using ref::ll; using ref::P; using ref::R; using ref::Ring; using ref::Shape; using pbt::Src;
// Lattice points are (u,v) with u,v both even (square corners) or both odd
// (square centres), 0..2G; the real coordinate is (ox+m*u, oy+m*v).
// With k==2 the raster is refined: every half unit is a lattice point (needed
// for slices along lines through square centres).
struct Lat {
  ll ox, oy, m; int G; int k = 1;
  Lat fine() const { Lat l(*this); l.G *= 2; l.k *= 2; return l; }
  P at(ll u, ll v) const { return P{ox + m * u, oy + m * v}; }
  Ring at(const Ring& r) const { Ring o; for (auto& p : r) o.push_back(at(p.x, p.y)); return o; }
  Shape at(const Shape& s) const { Shape o; o.outer = at(s.outer); for (auto& h : s.holes) o.holes.push_back(at(h)); return o; }
  P inv(const P& p) const {
    ll a = k * (p.x - ox), b = k * (p.y - oy);
    if (a % m || b % m) { std::ostringstream o; o << "vertex " << p << " is not on the lattice of the input"; pbt::fail(o.str()); }
    P q{a / m, b / m};
    if (((q.x ^ q.y) & 1) || q.x < 0 || q.y < 0 || q.x > 2 * G || q.y > 2 * G) { std::ostringstream o; o << "vertex " << p << " is not a vertex or intersection of the input"; pbt::fail(o.str()); }
    return q;
  }
  // a ring may repeat its first vertex at the end
  Ring inv(const Ring& r) const { Ring o; for (auto& p : r) o.push_back(inv(p)); if (o.size() > 1 && o.front() == o.back()) o.pop_back(); return o; }
  Shape inv(const Shape& s) const { Shape o; o.outer = inv(s.outer); for (auto& h : s.holes) o.holes.push_back(inv(h)); return o; }
};
enum { S_ = 0, E_ = 1, N_ = 2, W_ = 3 };
struct Tri {  // winding counts per triangle; the region is count > 0
  int G; std::vector<int> c;
  explicit Tri(int g = 0) : G(g), c((size_t)g * g * 4, 0) {}
  int id(int i, int j, int k) const { return (i * G + j) * 4 + k; }
  bool in(int t) const { return c[t] > 0; }
  bool operator==(const Tri& o) const { for (size_t t = 0; t < c.size(); ++t) if ((c[t] > 0) != (o.c[t] > 0)) return false; return true; }
  bool operator!=(const Tri& o) const { return !(*this == o); }
  bool empty() const { for (int v : c) if (v > 0) return false; return true; }
  int area() const { int n = 0; for (int v : c) n += v > 0; return n; }  // in triangles, each of area m*m
  Tri norm() const { Tri r(*this); for (auto& v : r.c) v = v > 0; return r; }
  Tri& operator+=(const Tri& o) { for (size_t t = 0; t < c.size(); ++t) c[t] += o.c[t]; return *this; }
  Tri& operator-=(const Tri& o) { for (size_t t = 0; t < c.size(); ++t) c[t] -= o.c[t]; return *this; }
  template <class F> static Tri comb(const Tri& a, const Tri& b, F f) { Tri r(a.G); for (size_t t = 0; t < a.c.size(); ++t) r.c[t] = f(a.c[t] > 0, b.c[t] > 0); return r; }
  friend Tri operator|(const Tri& a, const Tri& b) { return comb(a, b, [](bool p, bool q) { return p || q; }); }
  friend Tri operator&(const Tri& a, const Tri& b) { return comb(a, b, [](bool p, bool q) { return p && q; }); }
  friend Tri operator^(const Tri& a, const Tri& b) { return comb(a, b, [](bool p, bool q) { return p != q; }); }
  friend Tri operator-(const Tri& a, const Tri& b) { return comb(a, b, [](bool p, bool q) { return p && !q; }); }
  bool manhattan() const { for (int s = 0; s < G * G; ++s) { int n = 0; for (int k = 0; k < 4; ++k) n += c[s * 4 + k] > 0; if (n != 0 && n != 4) return false; } return true; }
  // add sign times the winding number of a ring in lattice coordinates
  void add(const Ring& r, int sign) {
    static const int sy[3] = {2, 7, 10};
    for (size_t k = 0, n = r.size(); k < n; ++k) {
      ll px = r[k].x * 6, py = r[k].y * 6, qx = r[(k + 1) % n].x * 6, qy = r[(k + 1) % n].y * 6;
      if (py == qy) continue;
      int up = qy > py ? sign : -sign; ll slope = px == qx ? 0 : ((qx > px) == (qy > py)) ? 1 : -1;
      ll lo = std::min(py, qy), hi = std::max(py, qy);
      for (ll j = lo / 12; j <= (hi - 1) / 12; ++j) for (int w = 0; w < 3; ++w) {
        ll y = 12 * j + sy[w]; if (y < lo || y > hi) continue;
        ll x = px + (y - py) * slope;
        for (int i = 0; i < G; ++i) {
          if (12 * i + 2 >= x) break;
          if (w == 1) { c[id(i, j, W_)] += up; if (12 * i + 10 < x) c[id(i, j, E_)] += up; }
          else if (12 * i + 7 < x) c[id(i, j, w == 0 ? S_ : N_)] += up;
        }
      }
    }
  }
  void add(const Shape& s, int sign = 1) {
    add(s.outer, ref::area2(s.outer) >= 0 ? sign : -sign);
    for (auto& h : s.holes) add(h, ref::area2(h) >= 0 ? -sign : sign);
  }
  static Tri of(int G, const Shape& s) { Tri t(G); t.add(s); return t; }
  Tri fine() const {
    Tri r(2 * G);
    for (int i = 0; i < 2 * G; ++i) for (int j = 0; j < 2 * G; ++j) for (int k = 0; k < 4; ++k) {
      static const int sx[4] = {7, 10, 7, 2}, sy[4] = {2, 7, 10, 7};
      int x = 12 * (i & 1) + sx[k], y = 12 * (j & 1) + sy[k];  // in a square of side 24
      int q = x > y ? (x + y < 24 ? S_ : E_) : (x + y < 24 ? W_ : N_);
      r.c[r.id(i, j, k)] = c[id(i / 2, j / 2, q)];
    }
    return r;
  }
  R extents() const {  // lattice coordinates
    R e{1000, 1000, -1000, -1000};
    for (int i = 0; i < G; ++i) for (int j = 0; j < G; ++j) for (int k = 0; k < 4; ++k) if (c[id(i, j, k)] > 0) {
      ll x0 = 2 * i + (k == E_), x1 = 2 * i + 2 - (k == W_), y0 = 2 * j + (k == N_), y1 = 2 * j + 2 - (k == S_);
      e.x0 = std::min(e.x0, x0); e.x1 = std::max(e.x1, x1); e.y0 = std::min(e.y0, y0); e.y1 = std::max(e.y1, y1);
    }
    return e;
  }
  template <class F> void neighbours(int t, F f) const {
    int k = t & 3, s = t >> 2, i = s / G, j = s % G;
    f(id(i, j, (k + 1) & 3)); f(id(i, j, (k + 3) & 3));
    if (k == S_ && j > 0) f(id(i, j - 1, N_)); if (k == N_ && j + 1 < G) f(id(i, j + 1, S_));
    if (k == W_ && i > 0) f(id(i - 1, j, E_)); if (k == E_ && i + 1 < G) f(id(i + 1, j, W_));
  }
  // edge-connected components of the region
  std::vector<Tri> components() const {
    std::vector<Tri> out; std::vector<char> seen(c.size(), 0);
    for (int t = 0; t < (int)c.size(); ++t) if (c[t] > 0 && !seen[t]) {
      Tri r(G); std::vector<int> q(1, t); seen[t] = 1;
      for (size_t h = 0; h < q.size(); ++h) { r.c[q[h]] = 1; neighbours(q[h], [&](int n) { if (c[n] > 0 && !seen[n]) { seen[n] = 1; q.push_back(n); } }); }
      out.push_back(r);
    }
    return out;
  }
  // corners of a triangle, counterclockwise, lattice coordinates
  void corners(int t, P* p) const {
    int k = t & 3, s = t >> 2; ll i = s / G, j = s % G;
    P q[4] = {{2 * i, 2 * j}, {2 * i + 2, 2 * j}, {2 * i + 2, 2 * j + 2}, {2 * i, 2 * j + 2}};
    p[0] = q[k]; p[1] = q[(k + 1) & 3]; p[2] = P{2 * i + 1, 2 * j + 1};
  }
  // boundary rings (interior on the left, tight at pinch points)
  void trace(std::vector<Ring>& outer, std::vector<Ring>& inner) const {
    static const int dx[8] = {1, 1, 0, -1, -1, -1, 0, 1}, dy[8] = {0, 1, 1, 1, 0, -1, -1, -1};
    auto dir = [&](const P& a, const P& b) { int x = (b.x > a.x) - (b.x < a.x), y = (b.y > a.y) - (b.y < a.y); for (int d = 0; d < 8; ++d) if (dx[d] == x && dy[d] == y) return d; return -1; };
    typedef std::pair<P, int> Ed; std::map<Ed, P> es;  // (start, direction) -> end
    for (int t = 0; t < (int)c.size(); ++t) if (c[t] > 0) {
      P p[3]; corners(t, p);
      for (int k = 0; k < 3; ++k) {
        P a = p[k], b = p[(k + 1) % 3]; Ed rev(b, dir(b, a));
        auto f = es.find(rev); if (f != es.end() && f->second == a) es.erase(f); else es[Ed(a, dir(a, b))] = b;
      }
    }
    while (!es.empty()) {
      Ed e = es.begin()->first, first = e; Ring r; 
      std::map<Ed, P> used;
      do {
        P b = es.find(e) != es.end() ? es[e] : used[e]; used[e] = b;
        int nd = -1;
        for (int turn = 3; turn >= -3; --turn) { int d = (e.second + turn + 8) & 7; if (es.count(Ed(b, d))) { nd = d; break; } }
        if (nd != e.second) r.push_back(b);
        e = Ed(b, nd);
      } while (e != first);
      for (auto& u : used) es.erase(u.first);
      if (ref::area2(r) > 0) outer.push_back(r); else inner.push_back(r);
    }
  }
};
inline std::ostream& operator<<(std::ostream& o, const Tri& t) {
  std::vector<Ring> a, b; t.trace(a, b); o << "lattice outer " << a; if (!b.empty()) o << " inner " << b; return o;
}
// Generators.  rect in corner coordinates
inline Lat lattice(Src& s, int maxG = 8, ll lim = 500000000LL) {
  Lat l; l.G = s.irange(2, maxG);
  int mode = s.weighted({4, 3, 2});
  if (mode == 0) { l.m = 1; l.ox = s.around(-8, 8); l.oy = s.around(-8, 8); }
  else if (mode == 1) { l.m = s.range(1, 40); l.ox = s.around(-500, 500); l.oy = s.around(-500, 500); }
  else { l.m = s.range(1, lim / (2 * l.G)); ll w = l.m * 2 * l.G; l.ox = s.around(-lim, lim - w); l.oy = s.around(-lim, lim - w); }
  return l;
}
inline Ring trect(Src& s, int G) {
  int a = s.irange(0, G - 1), b = s.irange(a + 1, G), c = s.irange(0, G - 1), d = s.irange(c + 1, G);
  return ref::ring(R{2 * a, 2 * c, 2 * b, 2 * d});
}
inline Ring octagon(Src& s, int G, bool all = false) {
  int a = s.irange(0, G - 1), b = s.irange(a + 1, G), c = s.irange(0, G - 1), d = s.irange(c + 1, G);
  int w = 2 * (b - a), h = 2 * (d - c);
  int k[4]; for (int i = 0; i < 4; ++i) k[i] = 0;
  // cuts at SW,SE,NE,NW: multiples of 2 keep vertices on corners
  for (int i = 0; i < 4; ++i) { int side = (i & 1) ? h : w; (void)side; k[i] = (all || s.coin()) ? 2 * s.irange(0, std::min(w, h) / 2) : 0; }
  auto lim2 = [&](int i, int j, int len) { while (k[i] + k[j] > len) { if (k[i] >= k[j]) k[i] -= 2; else k[j] -= 2; } };
  lim2(0, 1, w); lim2(1, 2, h); lim2(2, 3, w); lim2(3, 0, h);
  ll x0 = 2 * a, x1 = 2 * b, y0 = 2 * c, y1 = 2 * d; Ring r;
  auto pp = [&](ll x, ll y) { P q{x, y}; if (r.empty() || r.back() != q) r.push_back(q); };
  pp(x0 + k[0], y0); pp(x1 - k[1], y0); pp(x1, y0 + k[1]); pp(x1, y1 - k[2]); pp(x1 - k[2], y1); pp(x0 + k[3], y1); pp(x0, y1 - k[3]); pp(x0, y0 + k[0]);
  if (r.size() > 1 && r.front() == r.back()) r.pop_back();
  // drop collinear vertices (two full cuts meeting)
  for (bool ch = true; ch && r.size() > 3;) { ch = false; for (size_t i = 0; i < r.size(); ++i) { P p = r[(i + r.size() - 1) % r.size()], q = r[i], t = r[(i + 1) % r.size()];
    if ((q.x - p.x) * (t.y - q.y) == (q.y - p.y) * (t.x - q.x)) { r.erase(r.begin() + i); ch = true; break; } } }
  if (r.size() < 3 || ref::area2(r) <= 0) return ref::ring(R{x0, y0, x1, y1});
  return r;
}
inline Shape blob(Src& s, int G, bool holes) {
  if (holes && G > 2 && s.chance(1, 3)) {  // a plate with pieces punched out of its inside
    int w = s.irange(3, G), h = s.irange(3, G), x = s.irange(0, G - w), y = s.irange(0, G - h), dens = s.irange(1, 4); Tri t(G);
    for (int i = 0; i < w; ++i) for (int j = 0; j < h; ++j) for (int k = 0; k < 4; ++k) t.c[t.id(x + i, y + j, k)] = !(i && j && i + 1 < w && j + 1 < h && s.draw(5) < (uint64_t)dens);
    std::vector<Ring> o, in; t.trace(o, in); if (o.size() == 1) { Shape r; r.outer = o[0]; r.holes = in; return r; }
  }
  Tri t(G); int n = s.count(1, 28); std::vector<int> q(1, (int)s.draw(G * G * 4)); t.c[q[0]] = 1;
  for (int i = 1; i < n; ++i) {
    int from = q[q.size() - 1 - s.draw(std::min<size_t>(q.size(), 4))]; std::vector<int> nb; t.neighbours(from, [&](int k) { if (!t.c[k]) nb.push_back(k); });
    if (nb.empty()) continue;
    int k = nb[s.draw(nb.size())]; t.c[k] = 1; q.push_back(k);
  }
  std::vector<Ring> o, in; t.trace(o, in); Shape r; r.outer = o[0]; if (holes) r.holes = in; return r;
}
inline Shape manh(Src& s, int G, bool holes) {
  gen::Pool p; for (int i = 0; i <= G; ++i) { p.xs.push_back(2 * i); p.ys.push_back(2 * i); }
  return gen::shape(s, p, holes);
}
inline Shape any_shape(Src& s, int G, bool holes) {
  int k = s.weighted({3, 3, 5, 1}); Shape r;
  if (k == 0) r.outer = trect(s, G); else if (k == 1) r.outer = octagon(s, G); else if (k == 2) r = blob(s, G, holes); else r = manh(s, G, holes);
  return r;
}
inline Shape vary(Src& s, Shape h) { h.outer = gen::vary(s, h.outer); for (auto& q : h.holes) q = gen::vary(s, q); return h; }
template <class T> boost::polygon::polygon_45_data<T> bpoly45(const Ring& r) { return gen::bpoly<boost::polygon::polygon_45_data<T>, T>(r); }
template <class T> boost::polygon::polygon_45_with_holes_data<T> bpwh45(const Shape& s) {
  boost::polygon::polygon_45_with_holes_data<T> p = gen::bpoly<boost::polygon::polygon_45_with_holes_data<T>, T>(s.outer);
  std::vector<boost::polygon::polygon_45_data<T>> h; for (auto& r : s.holes) h.push_back(bpoly45<T>(r));
  boost::polygon::set_holes(p, h.begin(), h.end()); return p;
}
// Region denoted by a list of output shapes; fails unless they tile it
// without overlap and are properly wound.
inline void fail(const std::string& m) { pbt::fail(m); }
inline Tri tiles(const Lat& l, const std::vector<Shape>& v, bool ccw, const char* what) {
  Tri t(l.G);
  for (auto& s : v) {
    Shape q = l.inv(s);
    auto wf = [&](const Ring& r, bool hole) {
      CHECKM(r.size() >= 3, what << ": ring with fewer than 3 vertices " << s);
      for (size_t i = 0; i < r.size(); ++i) { const P &a = r[i], &b = r[(i + 1) % r.size()]; ll x = b.x - a.x, y = b.y - a.y;
        CHECKM((x || y) && (!x || !y || x == y || x == -y), what << ": degenerate or non-45 edge in " << s); }
      ref::ll sg = ref::area2(r) > 0 ? 1 : ref::area2(r) < 0 ? -1 : 0;
      CHECKM(sg != 0, what << ": ring of zero area " << s);
      if (ccw) CHECKM(sg == (hole ? -1 : 1), what << ": wrong winding of " << (hole ? "hole" : "outer ring") << " in " << s);
    };
    wf(q.outer, false); for (auto& h : q.holes) wf(h, true);
    Tri o(l.G); o.add(q, 1);
    for (size_t k = 0; k < o.c.size(); ++k) CHECKM(o.c[k] == 0 || o.c[k] == 1, what << ": a polygon covers a point " << o.c[k] << " times: " << s);
    t += o;
  }
  for (size_t k = 0; k < t.c.size(); ++k) CHECKM(t.c[k] == 0 || t.c[k] == 1, what << ": output shapes overlap: " << v);
  return t;
}
template <class Set> void check_region(const Lat& l, const Set& ps, const Tri& want, const char* what) {
  typedef typename Set::coordinate_type T;
  Set c1(ps), c2(ps);
  std::vector<boost::polygon::polygon_45_with_holes_data<T>> w; c1.get(w);
  std::vector<Shape> sw = gen::rshapes_wh(w);
  Tri got = tiles(l, sw, true, what);
  CHECKM(got == want, what << ": polygons with holes denote " << got << " want " << want << " polygons " << sw);
  std::vector<boost::polygon::polygon_45_data<T>> z; c2.get_trapezoids(z);
  got = tiles(l.fine(), gen::rshapes(z), false, what);
  CHECKM(got == want.fine(), what << ": trapezoids denote " << got << " want " << want);
  CHECKM(!ps.has_error_data(), what << ": error data on integral input");
}
}  // namespace tri
#endif
