// Voronoi inputs (points and non-crossing segments), structural and geometric
// oracles. The oracles do not use the library's arithmetic.
#ifndef VERIF_VOR_HPP
#define VERIF_VOR_HPP
#include "mem.hpp"
#include <boost/polygon/voronoi.hpp>
#include <boost/polygon/point_data.hpp>
#include <boost/polygon/segment_data.hpp>
#include <cmath>
#include <map>
#include <set>
namespace vor {
using ref::ll; using ref::P; using pbt::Src; using mem::LL; using mem::cross; using mem::sgn;
namespace bp = boost::polygon;
typedef long double LD;
struct Seg { P a, b; };
inline std::ostream& operator<<(std::ostream& o, const Seg& s) { return o << s.a << "-" << s.b; }
struct Input { std::vector<P> pts; std::vector<Seg> segs; };
inline std::ostream& operator<<(std::ostream& o, const Input& in) {
  o << "points"; for (auto& p : in.pts) o << " " << p; o << " segments"; for (auto& s : in.segs) o << " " << s; return o; }
// geometric site; for a point a==b. Segments have a < b.
struct Site { P a, b; bool seg() const { return !(a == b); } };
inline bool plt(const P& a, const P& b) { return a.x != b.x ? a.x < b.x : a.y < b.y; }
inline bool operator<(const Site& s, const Site& t) { if (!(s.a == t.a)) return plt(s.a, t.a); return plt(s.b, t.b); }
inline bool operator==(const Site& s, const Site& t) { return s.a == t.a && s.b == t.b; }
inline std::ostream& operator<<(std::ostream& o, const Site& s) { o << s.a; if (s.seg()) o << "-" << s.b; return o; }
inline Site site(const P& p) { return Site{p, p}; }
inline Site site(const Seg& s) { return plt(s.a, s.b) ? Site{s.a, s.b} : Site{s.b, s.a}; }
inline std::set<Site> sites(const Input& in) { std::set<Site> o; for (auto& p : in.pts) o.insert(site(p)); for (auto& s : in.segs) { o.insert(site(s.a)); o.insert(site(s.b)); o.insert(site(s)); } return o; }

// may the two segments both be in an input?
inline bool compatible(const Seg& s, const Seg& t) {
  int o1 = sgn(cross(s.a, s.b, t.a)), o2 = sgn(cross(s.a, s.b, t.b)), o3 = sgn(cross(t.a, t.b, s.a)), o4 = sgn(cross(t.a, t.b, s.b));
  auto in = [](const Seg& s, const P& p) { return mem::on_segment(s.a, s.b, p) && !(p == s.a) && !(p == s.b); };
  if (in(s, t.a) || in(s, t.b) || in(t, s.a) || in(t, s.b)) return false;
  if ((s.a == t.a && s.b == t.b) || (s.a == t.b && s.b == t.a)) return false;
  return !(o1 * o2 < 0 && o3 * o4 < 0);
}
inline bool compatible(const Seg& s, const P& p) { return !mem::on_segment(s.a, s.b, p) || p == s.a || p == s.b; }

const ll I32MAX = 2147483647LL, I32MIN = -2147483648LL;
// With segments the construction mistakes a circle event that ends within 64
// ULPs of a site for a coincident one (known finding near_coincident_events),
// so large coordinates with segments are kept to patterns where events are
// either exactly coincident or well apart: scaled patterns and plain random
// (hashed with a counter, so that neither shrinking nor the fuzzer can steer the values).
struct Gen {
  Src& s; int kind; ll base_x, base_y, k; int R, drawn = 0; bool segs, apart;
  Gen(Src& s_, bool segs_, bool apart_) : s(s_), base_x(0), base_y(0), k(1), segs(segs_), apart(apart_) {
    kind = s.weighted({6, 5, 3, 2, 2, 2, 1}); R = 4;
    switch (kind) {
      case 0: R = s.irange(1, 6); break;
      case 1: R = s.irange(7, 40); break;
      case 2: R = 1000; break;
      case 3: break;                                              // whole range
      case 4: R = s.irange(1, segs ? 8 : 40); base_x = corner(R); base_y = corner(R); break;  // small pattern far away
      case 5: R = s.irange(1, 8); k = s.range(2, I32MAX / 8); break;  // scaled pattern
      default: R = s.irange(1, 6); k = s.range(2, apart ? 1 << 6 : segs ? 1 << 10 : 1 << 20);       // scaled pattern with jitter
    }
  }
  ll corner(int r) { ll h = segs ? (1 << 20) - 1 : I32MAX; switch (s.irange(0, 3)) { case 0: return h - r; case 1: return -h - 1; case 2: return s.range(-h / 2, h / 2); default: return 0; } }
  ll coord(ll base) {
    switch (kind) {
      case 2: return s.around(-R, R);
      case 3: { if (segs || apart) return (ll)(pbt::mix64(s.range(0, 1ll << 40) * 64 + ++drawn) & 0xffffffffull) + I32MIN; int w = s.irange(0, 5); if (w == 0) return I32MAX - s.irange(0, 2); if (w == 1) return I32MIN + s.irange(0, 2); if (w == 2) return s.irange(-3, 3); return s.range(I32MIN, I32MAX); }
      case 6: return s.irange(0, R) * k + s.irange(-1, 1);
      default: return base + s.irange(0, R) * k;
    }
  }
  P point() { ll x = coord(base_x), y = coord(base_y); return P{x, y}; }
};
inline bool add(Input& in, const Seg& g) {
  if (g.a == g.b) return false;
  for (auto& t : in.segs) if (!compatible(g, t)) return false;
  for (auto& p : in.pts) if (!compatible(g, p)) return false;
  in.segs.push_back(g); return true;
}
inline bool add(Input& in, const P& p) { for (auto& t : in.segs) if (!compatible(t, p)) return false; in.pts.push_back(p); return true; }
// mode 0: points, 1: segments, 2: both
// apart: events are either exactly coincident or well apart
inline Input gen_input(Src& s, int mode, int maxn = 12, bool apart = false) {
  Gen g(s, mode != 0, apart); Input in; int pat = s.weighted({8, 2, 2, 2, 2, 1});
  int n = s.chance(1, 40) ? s.irange(maxn, maxn * 6) : s.irange(1, maxn);
  static const int CIRC[12][2] = {{5, 0}, {4, 3}, {3, 4}, {0, 5}, {-3, 4}, {-4, 3}, {-5, 0}, {-4, -3}, {-3, -4}, {0, -5}, {3, -4}, {4, -3}};
  auto fits = [&](const P& p) { return p.x >= I32MIN && p.x <= I32MAX && p.y >= I32MIN && p.y <= I32MAX; };
  if (mode != 1) {
    int np = mode == 2 ? s.irange(0, n) : n;
    if (pat == 1) { P a = g.point(), d{g.point().x - g.base_x, g.point().y - g.base_y}; if (g.kind == 3) d = P{s.irange(-3, 3), s.irange(-3, 3)}; for (int i = 0; i < np; ++i) { ll t = s.irange(-6, 6); P p{a.x + d.x * t, a.y + d.y * t}; if (fits(p)) in.pts.push_back(p); } }
    else if (pat == 2) { P c = g.point(); ll m = apart ? g.k * s.range(1, 3) : s.chance(1, 4) ? s.range(1, (mode ? 1 << 12 : I32MAX) / 6) : s.range(1, 20); for (int i = 0; i < np; ++i) { int j = s.irange(0, 12); P p = j == 12 ? c : P{c.x + CIRC[j][0] * m, c.y + CIRC[j][1] * m}; if (fits(p)) in.pts.push_back(p); } }
    else if (pat == 3) { int w = s.irange(1, 5), h = s.irange(1, 5); ll st = apart ? g.k * s.range(1, 3) : s.chance(1, 4) ? s.range(1, (mode ? 1 << 12 : I32MAX) / 6) : s.range(1, 5); P o = g.kind == 3 ? P{I32MIN, I32MIN} : g.point(); for (int i = 0; i < w; ++i) for (int j = 0; j < h; ++j) { if (s.chance(1, 6)) continue; P p{o.x + i * st, o.y + j * st}; if (fits(p)) in.pts.push_back(p); } }
    else for (int i = 0; i < np; ++i) { if (!in.pts.empty() && s.chance(1, 10)) { P p = s.pick(in.pts); if (s.coin()) { p.x += s.irange(-1, 1); p.y += s.irange(-1, 1); } if (((mode == 0 && !apart) || g.kind < 3 || g.kind == 4) && fits(p)) in.pts.push_back(p); } else in.pts.push_back(g.point()); }
  }
  if (mode != 0) {
    int ns = s.irange(1, n), tries = 0;
    P first = g.point(), cur = first; int style = s.weighted({5, 4, 2, 2, 2});
    while ((int)in.segs.size() < ns && ++tries < ns * 3) {
      Seg q; 
      if (style == 0) q = Seg{g.point(), g.point()};
      else if (style == 1) { P nx = s.chance(1, 6) ? first : g.point(); q = Seg{cur, nx}; cur = nx; }
      else if (style == 2) q = Seg{first, g.point()};
      else if (style == 3) { P a = g.point(), b = g.point(); if (s.coin()) b.x = a.x; else b.y = a.y; q = Seg{a, b}; }
      else { P a = g.point(); P d{s.irange(-3, 3) * g.k, s.irange(-3, 3) * g.k}; P b{a.x + d.x, a.y + d.y}; if (!fits(b)) continue; q = Seg{a, b}; }
      if (s.coin()) std::swap(q.a, q.b);
      Input tmp; tmp.segs = in.segs; if (add(tmp, q)) in.segs.push_back(q);
    }
    std::vector<P> keep; for (auto& p : in.pts) { bool ok = true; for (auto& t : in.segs) ok = ok && compatible(t, p); if (ok) keep.push_back(p); } in.pts = keep;
    if (mode == 2 && !in.segs.empty()) for (int i = s.irange(0, 2); i-- > 0;) { const Seg& q = s.pick(in.segs); in.pts.push_back(s.coin() ? q.a : q.b); }
  }
  s.notef([&](std::ostream& o) { o << in; });
  return in;
}
typedef bp::voronoi_diagram<double> VD;
typedef bp::point_data<int> BPt; typedef bp::segment_data<int> BSg;
inline BPt bpt(const P& p) { return BPt((int)p.x, (int)p.y); }
inline BSg bsg(const Seg& q) { return BSg(bpt(q.a), bpt(q.b)); }
// indices of points are 0.., of segments after them
inline void build(const Input& in, VD& vd, int how = 0) {
  std::vector<BPt> p; std::vector<BSg> g; for (auto& q : in.pts) p.push_back(bpt(q)); for (auto& q : in.segs) g.push_back(bsg(q));
  if (how == 0) { if (g.empty()) bp::construct_voronoi(p.begin(), p.end(), &vd); else if (p.empty()) bp::construct_voronoi(g.begin(), g.end(), &vd); else bp::construct_voronoi(p.begin(), p.end(), g.begin(), g.end(), &vd); return; }
  bp::default_voronoi_builder b; size_t i = 0;
  if (how == 1) { for (auto& q : in.pts) CHECK_EQ(b.insert_point((int)q.x, (int)q.y), i++); for (auto& q : in.segs) CHECK_EQ(b.insert_segment((int)q.a.x, (int)q.a.y, (int)q.b.x, (int)q.b.y), i++); }
  else if (how == 2) { for (auto& q : p) CHECK_EQ(bp::insert(q, &b), i++); for (auto& q : g) CHECK_EQ(bp::insert(q, &b), i++); }
  else { bp::insert(p.begin(), p.end(), &b); bp::insert(g.begin(), g.end(), &b); }
  b.construct(&vd);
}
// the site a cell belongs to, from source index and category (checked)
inline Site cell_site(const Input& in, const VD::cell_type& c) {
  size_t i = c.source_index(); CHECKM(i < in.pts.size() + in.segs.size(), "source index " << i); bp::SourceCategory k = c.source_category();
  if (i < in.pts.size()) { CHECKM(k == bp::SOURCE_CATEGORY_SINGLE_POINT && c.contains_point() && !c.contains_segment(), "category " << (int)k << " of point " << in.pts[i]); return site(in.pts[i]); }
  const Seg& q = in.segs[i - in.pts.size()];
  switch (k) {
    case bp::SOURCE_CATEGORY_SEGMENT_START_POINT: CHECK(c.contains_point() && !c.contains_segment()); return site(q.a);
    case bp::SOURCE_CATEGORY_SEGMENT_END_POINT: CHECK(c.contains_point() && !c.contains_segment()); return site(q.b);
    case bp::SOURCE_CATEGORY_INITIAL_SEGMENT: CHECKM(plt(q.a, q.b), "initial segment " << q); break;
    case bp::SOURCE_CATEGORY_REVERSE_SEGMENT: CHECKM(!plt(q.a, q.b), "reverse segment " << q); break;
    default: CHECKM(false, "category " << (int)k << " of segment " << q);
  }
  CHECK(c.contains_segment() && !c.contains_point()); return site(q);
}
inline bool endpoint_of(const Site& p, const Site& q) { return !p.seg() && q.seg() && (p.a == q.a || p.a == q.b); }
typedef const VD::edge_type* E; typedef const VD::cell_type* C; typedef const VD::vertex_type* V;
// is the cell of an end point just that point: no angle of 180 degrees or more without a segment
inline bool hemmed_in(const Input& in, const P& p) {
  std::vector<P> d; for (auto& q : in.segs) { if (q.a == p) d.push_back(P{q.b.x - p.x, q.b.y - p.y}); else if (q.b == p) d.push_back(P{q.a.x - p.x, q.a.y - p.y}); }
  if (d.size() < 3) return false;
  for (auto& u : d) { bool ok = false; for (auto& v : d) ok = ok || (LL)u.x * v.y - (LL)u.y * v.x > 0; if (!ok) return false; }  // some direction within 180 degrees counterclockwise of each
  return true;
}
// well-formedness of the half-edge structure
inline std::vector<Site> structure(const Input& in, const VD& vd) {
  std::set<Site> want = sites(in), got; std::vector<Site> of; 
  for (auto& c : vd.cells()) { Site t = cell_site(in, c); CHECKM(got.insert(t).second, "two cells of site " << t); of.push_back(t); }
  for (auto& t : want) CHECKM(got.count(t), "no cell of site " << t);
  size_t nc = vd.num_cells(), ne = vd.num_edges(), nv = vd.num_vertices();
  CHECK_EQ(nc, vd.cells().size()); CHECK_EQ(ne, vd.edges().size()); CHECK_EQ(nv, vd.vertices().size()); CHECKM(ne % 2 == 0, "odd number of half-edges");
  auto cid = [&](C c) { size_t i = (size_t)(c - vd.cells().data()); CHECKM(c && i < nc, "cell pointer out of range"); return i; };
  auto eok = [&](E e) { CHECKM(e && (size_t)(e - vd.edges().data()) < ne, "edge pointer out of range"); };
  auto vok = [&](V v) { CHECKM(!v || (size_t)(v - vd.vertices().data()) < nv, "vertex pointer out of range"); };
  for (auto& e : vd.edges()) { eok(e.twin()); eok(e.next()); eok(e.prev()); vok(e.vertex0()); vok(e.vertex1()); cid(e.cell()); }
  for (auto& e0 : vd.edges()) {
    E e = &e0; const Site &a = of[cid(e->cell())], &b = of[cid(e->twin()->cell())];
    CHECKM(e->twin() != e && e->twin()->twin() == e, "twin of twin of the edge between " << a << " and " << b);
    CHECKM(e->cell() != e->twin()->cell(), "both sides of an edge belong to " << a);
    CHECKM(e->next()->prev() == e && e->prev()->next() == e, "next and prev of the edge between " << a << " and " << b);
    CHECKM(e->next()->cell() == e->cell(), "next leaves the cell of " << a);
    CHECKM(e->vertex1() == e->twin()->vertex0() && e->vertex0() == e->twin()->vertex1(), "vertex1");
    CHECKM(e->next()->vertex0() == e->vertex1() && e->prev()->vertex1() == e->vertex0(), "next of an edge of " << a << " starts elsewhere");
    CHECKM(e->rot_next() == e->prev()->twin() && e->rot_prev() == e->twin()->next(), "rot links");
    CHECKM(e->rot_next()->vertex0() == e->vertex0() && e->rot_next()->rot_prev() == e && e->rot_prev()->rot_next() == e, "rot_next of an edge of " << a);
    CHECKM(e->is_finite() == (e->vertex0() && e->vertex1()) && e->is_infinite() == !e->is_finite(), "is_finite");
    CHECKM(!e->vertex0() || e->vertex0() != e->vertex1(), "edge between " << a << " and " << b << " is a loop");
    bool prim = !endpoint_of(a, b) && !endpoint_of(b, a), lin = !prim || a.seg() == b.seg();
    CHECKM(e->is_primary() == prim && e->is_secondary() == !prim, "is_primary of the edge between " << a << " and " << b);
    CHECKM(e->is_linear() == lin && e->is_curved() == !lin, "is_linear of the edge between " << a << " and " << b);
    if (e->is_infinite()) CHECKM((!a.seg() && !b.seg()) || !prim, "infinite edge between " << a << " and " << b);
    CHECK_EQ((int)e->color(), 0);
  }
  size_t sum = 0;
  for (size_t i = 0; i < nc; ++i) {
    C c = &vd.cells()[i]; CHECKM(c->is_degenerate() == (c->incident_edge() == NULL) && c->is_degenerate() == (nc == 1 || (!of[i].seg() && hemmed_in(in, of[i].a))), "cell of " << of[i] << " is_degenerate " << c->is_degenerate()); CHECK_EQ((int)c->color(), 0);
    if (c->is_degenerate()) continue;
    E e = c->incident_edge(); eok(e); size_t k = 0, gaps = 0; do { CHECKM(e->cell() == c, "cycle of the cell of " << of[i] << " runs into the cell of " << of[cid(e->cell())]); CHECKM(++k <= ne, "cycle of the cell of " << of[i] << " does not close"); if (!e->vertex1()) ++gaps; e = e->next(); } while (e != c->incident_edge());
    CHECKM(gaps <= (nv ? 1u : 2u), "cell of " << of[i] << " is unbounded " << gaps << " times"); sum += k;
  }
  CHECKM(sum == ne, "cell cycles have " << sum << " of " << ne << " half-edges");
  sum = 0; size_t inf = 0; for (auto& e : vd.edges()) inf += !e.vertex0();
  for (auto& v : vd.vertices()) { CHECKM(!v.is_degenerate() && v.incident_edge(), "vertex without edge"); eok(v.incident_edge()); CHECK_EQ((int)v.color(), 0);
    E e = v.incident_edge(); size_t k = 0; do { CHECKM(e->vertex0() == &v, "cycle around a vertex runs into another"); CHECKM(++k <= ne, "vertex cycle does not close"); e = e->rot_next(); } while (e != v.incident_edge()); CHECKM(k >= 3, "vertex of degree " << k); sum += k; }
  CHECKM(sum + inf == ne, "vertex cycles have " << sum << " of " << ne - inf << " half-edges");
  size_t faces = 0; for (auto& c : vd.cells()) faces += !c.is_degenerate();
  if (nc >= 2) { long x = (long)nv + 1 - (long)ne / 2 + (long)faces; CHECKM(x == 2, "Euler: " << nv << " vertices " << ne / 2 << " edges " << nc << " cells"); }
  if (nc >= 3) CHECKM(nv <= 2 * nc - 5 && ne / 2 <= 3 * nc - 6, "size bounds: " << nv << " vertices " << ne / 2 << " edges " << nc << " cells");
  return of;
}
inline LD dist(const P& p, LD x, LD y) { return std::sqrt((x - p.x) * (x - p.x) + (y - p.y) * (y - p.y)); }
inline LD along(const Site& q, LD x, LD y) { LD dx = q.b.x - q.a.x, dy = q.b.y - q.a.y; return ((x - q.a.x) * dx + (y - q.a.y) * dy) / (dx * dx + dy * dy); }
inline LD dist(const Site& q, LD x, LD y) {
  if (!q.seg()) return dist(q.a, x, y);
  LD t = along(q, x, y); if (t <= 0) return dist(q.a, x, y); if (t >= 1) return dist(q.b, x, y);
  LD dx = q.b.x - q.a.x, dy = q.b.y - q.a.y; return std::fabs(dx * (y - q.a.y) - dy * (x - q.a.x)) / std::sqrt(dx * dx + dy * dy);
}
}  // namespace vor
#endif
