// Model of regions bounded by segments of any angle: a region is an expression
// over the winding numbers of input rings, evaluated at points or at the cells
// of a slab decomposition.  Independent of boost::polygon.
#ifndef VERIF_ARB_HPP
#define VERIF_ARB_HPP
#include "mem.hpp"
#include <memory>
namespace arb {
using ref::ll; using ref::P; using ref::Ring; using ref::Shape; using pbt::Src;
typedef long double LD;
typedef __int128 LL;
// ---- region expressions -------------------------------------------------
struct Node; typedef std::shared_ptr<Node> Ex;
struct Node { int kind; int leaf; std::vector<std::pair<Ex, int>> kids; };  // 0 sum of signed leaves/kids, 1 norm, 2.. boolean
inline Ex sum() { return std::make_shared<Node>(Node{0, -1, {}}); }
inline Ex leaf(int i) { return std::make_shared<Node>(Node{9, i, {}}); }
inline Ex add(Ex a, Ex b, int sign = 1) { Ex n = sum(); n->kids.push_back({a, 1}); n->kids.push_back({b, sign}); return n; }
inline Ex norm(Ex a) { Ex n = std::make_shared<Node>(Node{1, -1, {}}); n->kids.push_back({a, 1}); return n; }
inline Ex boolean(int o, Ex a, Ex b) { Ex n = std::make_shared<Node>(Node{2 + o, -1, {}}); n->kids.push_back({a, 1}); n->kids.push_back({b, 1}); return n; }
inline bool opbool(int o, bool a, bool b) { return o == 0 ? a || b : o == 1 ? a && b : o == 2 ? a != b : a && !b; }
inline int eval(const Ex& e, const std::vector<int>& w) {
  if (e->kind == 9) return w[e->leaf];
  if (e->kind == 0) { int c = 0; for (auto& k : e->kids) c += k.second * eval(k.first, w); return c; }
  if (e->kind == 1) return eval(e->kids[0].first, w) > 0;
  return opbool(e->kind - 2, eval(e->kids[0].first, w) > 0, eval(e->kids[1].first, w) > 0);
}
// ---- the rings of one case ----------------------------------------------
struct World {
  std::vector<Ring> rings;
  int ring(const Ring& r) { rings.push_back(r); return (int)rings.size() - 1; }
  Ex region(const Ring& r) {  // winding normalised to counterclockwise; a zero-area ring must not be passed
    int i = ring(r); Ex n = sum(); n->kids.push_back({leaf(i), ref::area2(r) >= 0 ? 1 : -1}); return n;
  }
  Ex region(const Shape& s) { Ex n = region(s.outer); for (auto& h : s.holes) n = add(n, region(h), -1); return n; }
  std::vector<int> windings(const P& q) const { std::vector<int> w; for (auto& r : rings) w.push_back(mem::winding(r, q)); return w; }
  bool in(const Ex& e, const P& q) const { return eval(e, windings(q)) > 0; }
};
struct Seg { P a, b; };
inline std::vector<Seg> segs(const std::vector<Ring>& v) { std::vector<Seg> o; for (auto& r : v) for (size_t i = 0, n = r.size(); i < n; ++i) if (r[i] != r[(i + 1) % n]) o.push_back(Seg{r[i], r[(i + 1) % n]}); return o; }
inline std::vector<Ring> rings_of(const std::vector<Shape>& v) { std::vector<Ring> o; for (auto& s : v) { o.push_back(s.outer); for (auto& h : s.holes) o.push_back(h); } return o; }
inline int winding(const std::vector<Ring>& v, const P& q) { int w = 0; for (auto& r : v) w += mem::winding(r, q); return w; }
// ---- intersections ------------------------------------------------------
// proper or touching intersection of non-parallel segments: p = num/den exactly
struct Frac { LL x, y, d; };
inline bool cross_at(const Seg& s, const Seg& t, Frac& f) {
  LL rx = s.b.x - s.a.x, ry = s.b.y - s.a.y, sx = t.b.x - t.a.x, sy = t.b.y - t.a.y, d = rx * sy - ry * sx;
  if (d == 0) return false;
  LL qx = t.a.x - s.a.x, qy = t.a.y - s.a.y, u = qx * sy - qy * sx, v = qx * ry - qy * rx;
  if (d < 0) { d = -d; u = -u; v = -v; }
  if (u < 0 || u > d || v < 0 || v > d) return false;
  LL a = u, b = d; while (b) { LL c = a % b; a = b; b = c; }
  if (a > 1) { u /= a; d /= a; }
  f.x = (LL)s.a.x * d + u * rx; f.y = (LL)s.a.y * d + u * ry; f.d = d;
  LL g = f.d, h = f.x < 0 ? -f.x : f.x; while (h) { LL c = g % h; g = h; h = c; }
  LL g2 = g, k = f.y < 0 ? -f.y : f.y; while (k) { LL c = g2 % k; g2 = k; k = c; }
  f.x /= g2; f.y /= g2; f.d /= g2;
  return true;
}
inline std::vector<std::pair<int, int>> candidate_pairs(const std::vector<Seg>& v) {
  std::vector<std::pair<int, int>> o;
  for (size_t i = 0; i < v.size(); ++i) for (size_t j = i + 1; j < v.size(); ++j) {
    if (std::max(v[i].a.x, v[i].b.x) < std::min(v[j].a.x, v[j].b.x) || std::max(v[j].a.x, v[j].b.x) < std::min(v[i].a.x, v[i].b.x)) continue;
    if (std::max(v[i].a.y, v[i].b.y) < std::min(v[j].a.y, v[j].b.y) || std::max(v[j].a.y, v[j].b.y) < std::min(v[i].a.y, v[i].b.y)) continue;
    o.push_back({(int)i, (int)j});
  }
  return o;
}
// lcm of the denominators of all crossings (0 when above lim)
inline ll crossing_lcm(const std::vector<Seg>& v, ll lim) {
  ll m = 1; Frac f;
  for (auto& p : candidate_pairs(v)) if (cross_at(v[p.first], v[p.second], f) && f.d > 1) {
    if (f.d > lim) return 0;
    ll a = m, b = (ll)f.d; while (b) { ll c = a % b; a = b; b = c; }
    if ((LL)(m / a) * f.d > lim) return 0;
    m = m / a * (ll)f.d;
  }
  return m;
}
inline std::set<P> crossing_points(const std::vector<Seg>& v) {  // integral ones
  std::set<P> o; Frac f;
  for (auto& s : v) { o.insert(s.a); o.insert(s.b); }
  for (auto& p : candidate_pairs(v)) if (cross_at(v[p.first], v[p.second], f) && f.d == 1) o.insert(P{(ll)f.x, (ll)f.y});
  return o;
}
// ---- slab decomposition -------------------------------------------------
// Calls f(cell area, windings per group) for every bounded cell of the
// arrangement of the given rings (all crossings of edges are taken into
// account; slab borders at non-integral crossings are rounded outward, which
// is exact when all crossings are integral).  group[i] is the index the ring's
// winding is added to.
template <class F> void cells(const std::vector<Ring>& rings, const std::vector<int>& group, int ngroups, F f) {
  struct E { LD x0, y0, x1, y1; int s, g; };
  std::vector<Seg> ss; std::vector<int> sg; 
  for (size_t i = 0; i < rings.size(); ++i) for (size_t k = 0, n = rings[i].size(); k < n; ++k) { P a = rings[i][k], b = rings[i][(k + 1) % n]; if (a != b) { ss.push_back(Seg{a, b}); sg.push_back(group[i]); } }
  std::vector<LD> xs; Frac fr;
  for (auto& s : ss) { xs.push_back(s.a.x); xs.push_back(s.b.x); }
  for (auto& p : candidate_pairs(ss)) if (cross_at(ss[p.first], ss[p.second], fr)) xs.push_back((LD)fr.x / (LD)fr.d);
  std::sort(xs.begin(), xs.end()); xs.erase(std::unique(xs.begin(), xs.end()), xs.end());
  std::vector<E> es;
  for (size_t i = 0; i < ss.size(); ++i) { P a = ss[i].a, b = ss[i].b; if (a.x == b.x) continue; int s = 1; if (a.x > b.x) { std::swap(a, b); s = -1; } es.push_back(E{(LD)a.x, (LD)a.y, (LD)b.x, (LD)b.y, s, sg[i]}); }
  std::vector<int> w(ngroups);
  for (size_t i = 0; i + 1 < xs.size(); ++i) {
    LD l = xs[i], r = xs[i + 1], m = (l + r) / 2;
    std::vector<std::pair<LD, int>> ys;
    for (size_t k = 0; k < es.size(); ++k) if (es[k].x0 <= l && es[k].x1 >= r) ys.push_back({es[k].y0 + (es[k].y1 - es[k].y0) * ((m - es[k].x0) / (es[k].x1 - es[k].x0)), (int)k});
    std::sort(ys.begin(), ys.end());
    std::fill(w.begin(), w.end(), 0);
    for (size_t k = 0; k + 1 < ys.size(); ++k) { w[es[ys[k].second].g] += es[ys[k].second].s; LD a = (ys[k + 1].first - ys[k].first) * (r - l); if (a > 0) f(a, w); }
  }
}
// area of the region of e, and of where the rings of `out` (summed windings,
// required to be 0 or 1) denote something else
struct Diff { LD want, wrong; int bad; };
inline Diff compare(const World& w, const Ex& e, const std::vector<Ring>& out) {
  std::vector<Ring> all = w.rings; std::vector<int> g; for (size_t i = 0; i < all.size(); ++i) g.push_back((int)i);
  int n = (int)all.size(); for (auto& r : out) { all.push_back(r); g.push_back(n); }
  Diff d{0, 0, 0};
  cells(all, g, n + 1, [&](LD a, const std::vector<int>& c) { bool in = eval(e, c) > 0; if (in) d.want += a; int o = c[n]; if (o != (in ? 1 : 0)) { d.wrong += a; if (o != 0 && o != 1 && a > 0.01L) d.bad = o; } });
  return d;
}
inline LD extent_eps(const std::vector<Ring>& v) { LD m = 1; for (auto& r : v) for (auto& p : r) m = std::max(m, std::max((LD)std::llabs(p.x), (LD)std::llabs(p.y))); return 0.2L + m * m * 1e-15L; }
// ---- generators ---------------------------------------------------------
struct Frame { ll lo, hi; };  // coordinate range
inline ll coord(Src& s, const Frame& f) { return s.range(f.lo, f.hi); }
inline Ring simple_star(Src& s, const Frame& f, int maxn = 7) {
  // points sorted around a centre: star-shaped, mostly simple
  int n = s.irange(3, maxn); std::vector<P> v; P c{coord(s, f), coord(s, f)};
  for (int i = 0; i < n; ++i) v.push_back(P{coord(s, f), coord(s, f)});
  auto half = [&](const P& p) { ll x = p.x - c.x, y = p.y - c.y; return y > 0 || (y == 0 && x >= 0) ? 0 : 1; };
  std::stable_sort(v.begin(), v.end(), [&](const P& a, const P& b) { int ha = half(a), hb = half(b); if (ha != hb) return ha < hb; return mem::cross(c, a, b) > 0; });
  return v;
}
inline Ring wild(Src& s, const Frame& f, int maxn = 6) { int n = s.irange(3, maxn); Ring v; for (int i = 0; i < n; ++i) v.push_back(P{coord(s, f), coord(s, f)}); return v; }
// edges with directions out of 16, so that all crossings have denominators
// dividing 60 (times the lattice)
inline Ring sixteen(Src& s, const Frame& f, bool shuffle, unsigned mask = 0xffff) {
  static const int dx[16] = {1, 2, 1, 1, 0, -1, -1, -2, -1, -2, -1, -1, 0, 1, 1, 2}, dy[16] = {0, 1, 1, 2, 1, 2, 1, 1, 0, -1, -1, -2, -1, -2, -1, -1};
  ll span = std::max<ll>(1, (f.hi - f.lo) / 8); std::vector<std::pair<int, ll>> e; ll X = 0, Y = 0;
  for (int d = 0; d < 16; ++d) if ((mask >> d & 1) && s.chance(1, 3)) { ll k = s.range(1, span); e.push_back({d, k}); X += k * dx[d]; Y += k * dy[d]; }
  auto put = [&](int d, ll k) { for (auto& q : e) if (q.first == d) { q.second += k; return; } e.push_back({d, k}); };
  if (X > 0) put(8, X); if (X < 0) put(0, -X); if (Y > 0) put(12, Y); if (Y < 0) put(4, -Y);
  std::sort(e.begin(), e.end());
  if (shuffle) for (size_t i = e.size(); i > 1; --i) std::swap(e[i - 1], e[s.draw(i)]);
  Ring r; P p{coord(s, f), coord(s, f)}; for (auto& q : e) { r.push_back(p); p.x += q.second * dx[q.first]; p.y += q.second * dy[q.first]; }
  return r;
}
inline bool usable(const Ring& r) { return r.size() >= 3 && ref::area2(r) != 0; }
inline Ring any_ring(Src& s, const Frame& f, int style) {
  for (int t = 0; t < 4; ++t) {
    Ring r; int k = style >= 0 ? style : s.weighted({4, 2, 2, 1, 2});
    if (k == 0) r = simple_star(s, f); else if (k == 1) r = wild(s, f); else if (k == 2) r = sixteen(s, f, false); else if (k == 3) r = sixteen(s, f, true);
    else { ll a = coord(s, f), b = coord(s, f), c = coord(s, f), d = coord(s, f); r = ref::ring(ref::R{std::min(a, b), std::min(c, d), std::max(a, b), std::max(c, d)}); }
    if (usable(r)) return r;
  }
  ll m = (f.lo + f.hi) / 2; return Ring{P{m, m}, P{m + 1, m}, P{m, m + 1}};
}
inline Ring shrunk(Src& s, const Ring& r, ll num, ll den) {  // towards the vertex mean; only for convex rings
  LL cx = 0, cy = 0; for (auto& p : r) { cx += p.x; cy += p.y; } cx /= (ll)r.size(); cy /= (ll)r.size(); Ring o; (void)s;
  for (auto& p : r) o.push_back(P{(ll)(cx + (p.x - cx) * num / den), (ll)(cy + (p.y - cy) * num / den)}); return o;
}
inline Shape any_shape(Src& s, const Frame& f, int style, bool holes) {
  Shape h; h.outer = any_ring(s, f, style);
  if (holes && s.coin()) { if (s.coin()) { Ring c = sixteen(s, f, false); if (usable(c)) { h.outer = c; Ring k = shrunk(s, c, s.range(1, 3), 4); if (usable(k)) h.holes.push_back(k); } }
    else { Ring k = any_ring(s, f, style); h.holes.push_back(k); } }
  return h;
}
inline Shape vary(Src& s, Shape h) { h.outer = gen::vary(s, h.outer); for (auto& q : h.holes) q = gen::vary(s, q); return h; }
inline Shape clean_dups(Shape h) { return h; }
template <class T> boost::polygon::polygon_data<T> bpolyd(const Ring& r) { return gen::bpoly<boost::polygon::polygon_data<T>, T>(r); }
template <class T> boost::polygon::polygon_with_holes_data<T> bpwhd(const Shape& s) {
  boost::polygon::polygon_with_holes_data<T> p = gen::bpoly<boost::polygon::polygon_with_holes_data<T>, T>(s.outer);
  std::vector<boost::polygon::polygon_data<T>> h; for (auto& r : s.holes) h.push_back(bpolyd<T>(r));
  boost::polygon::set_holes(p, h.begin(), h.end()); return p;
}
inline Frame frame(Src& s, ll lim = 400000000LL) {
  int m = s.weighted({4, 4, 2, 2});
  ll half = m == 0 ? s.range(2, 12) : m == 1 ? s.range(10, 60) : m == 2 ? s.range(100, 5000) : s.range(10000, lim / 2);
  ll c = m < 2 ? s.around(-20, 20) : s.around(-(lim - half) / 4, (lim - half) / 4);
  return Frame{c - half, c + half};
}
}  // namespace arb
#endif
