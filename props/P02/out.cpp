#include "gen90.hpp"
#include "pre.hpp"
using namespace gen;
typedef bp::polygon_90_set_data<int> PS;
typedef bp::rectangle_data<int> RD;
typedef bp::polygon_90_data<int> PD;
typedef bp::polygon_90_with_holes_data<int> WD;

// random region: bitmap over a coordinate grid or a union of shapes
static Reg make(Src& s, PS& ps) {
  std::vector<Reg::E> es; std::vector<R> rs;
  if (s.chance(2, 3)) {
    Pool p = pool(s, 1000000000LL, 11);
    int dens = s.irange(2, 8);
    for (size_t i = 0; i + 1 < p.xs.size(); ++i) for (size_t j = 0; j + 1 < p.ys.size(); ++j) if (s.draw(10) >= (uint64_t)(10 - dens)) rs.push_back(R{p.xs[i], p.ys[j], p.xs[i + 1], p.ys[j + 1]});
    for (auto& r : rs) { Reg::add_rect(es, r); ps.insert(brect<int>(r)); }
  } else {
    Pool p = pool(s, 1000000000LL, 14);
    for (int i = s.count(1, s.chance(1, 6) ? 25 : 8); i > 0; --i) {
      if (s.coin()) { R r = rect(s, p); Reg::add_rect(es, r); ps.insert(brect<int>(r)); s.notef([&](std::ostream& o) { o << "rect " << r; }); }
      else { Shape h = shape(s, p, true); Reg::add_shape(es, h); ps.insert(bpwh90<int>(h)); s.notef([&](std::ostream& o) { o << "shape " << h; }); }
    }
  }
  Reg g = Reg::from_edges(es);
  s.notef([&](std::ostream& o) { o << "orient " << ps.orient().to_int() << " region " << g; });
  return g;
}
// structural well-formedness of an output ring: closed Manhattan loop with
// alternating edges, first vertex not repeated at the end
static void ring_ok(const Ring& r, const char* what) {
  CHECKM(r.size() >= 4 && r.size() % 2 == 0, what << ": ring size " << r);
  CHECKM(!(r.front() == r.back()), what << ": last vertex repeats the first " << r);
  for (size_t i = 0; i < r.size(); ++i) {
    const P &a = r[i], &b = r[(i + 1) % r.size()], &c = r[(i + 2) % r.size()];
    bool h = a.y == b.y, v = a.x == b.x;
    CHECKM(h != v, what << ": edge is not axis parallel or has zero length " << r);
    bool h2 = b.y == c.y;
    CHECKM(h != h2, what << ": consecutive edges on one line " << r);
  }
}
// shapes are pairwise interior-disjoint, each a valid region, and cover g
static void cover_ok(const std::vector<Shape>& v, const Reg& g, const char* what) {
  __int128 tot = 0;
  for (auto& h : v) {
    __int128 a = area2(h.outer);
    CHECKM(a > 0, what << ": outer ring is not counterclockwise " << h);
    for (auto& q : h.holes) { __int128 ha = area2(q); CHECKM(ha < 0, what << ": hole is not clockwise " << h); a += ha; }
    // the winding numbers of outer plus holes are 0 or 1 everywhere
    std::vector<Reg::E> es; Reg::add_ring(es, h.outer, 1); for (auto& q : h.holes) Reg::add_ring(es, q, 1);
    CHECKM(Reg::from_edges(es, [](int c) { return c > 1 || c < 0; }).empty(), what << ": self-overlapping polygon " << h);
    tot += a;
  }
  Reg u = Reg::of(v);
  CHECKM(u == g, what << ": polygons cover " << u << " want " << g << " polygons " << v);
  CHECKM(tot == 2 * g.area(), what << ": polygons overlap " << v);
}
// more than one boundary edge of the region on one scan line
static bool shared_line(const Reg& g0, bool vertical) {
  Reg g = vertical ? g0 : g0.map([](P p) { return P{p.y, p.x}; });
  for (size_t i = 0; i <= g.st.size(); ++i) {
    Reg l, r; ll big = 0;
    std::vector<R> a, b;
    if (i > 0) for (auto& q : g.st[i - 1]) a.push_back(R{0, q.first, 1, q.second});
    if (i < g.st.size()) for (auto& q : g.st[i]) b.push_back(R{0, q.first, 1, q.second});
    l = Reg::of(a); r = Reg::of(b); (void)big;
    if ((l - r).rects().size() + (r - l).rects().size() > 1) return true;
  }
  return false;
}
// rectangles whose sides all have different coordinates
static Reg make_general(Src& s, PS& ps) {
  int n = s.count(1, 9);
  std::vector<ll> x, y; for (int i = 0; i < 2 * n; ++i) { x.push_back(i * s.range(1, 3) + i); y.push_back(i * s.range(1, 3) + i); }
  std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end());
  for (int i = 1; i < 2 * n; ++i) { if (x[i] <= x[i - 1]) x[i] = x[i - 1] + 1; if (y[i] <= y[i - 1]) y[i] = y[i - 1] + 1; }
  std::vector<R> v;
  for (int i = 0; i < n; ++i) {
    int a = s.irange(0, (int)x.size() - 2), b = s.irange(a + 1, std::min((int)x.size() - 1, a + 6)), c = s.irange(0, (int)y.size() - 2), d = s.irange(c + 1, std::min((int)y.size() - 1, c + 6));
    v.push_back(R{x[a], y[c], x[b], y[d]});
    x.erase(x.begin() + b); x.erase(x.begin() + a); y.erase(y.begin() + d); y.erase(y.begin() + c);
  }
  for (auto& r : v) ps.insert(brect<int>(r));
  Reg g = Reg::of(v);
  s.notef([&](std::ostream& o) { o << "orient " << ps.orient().to_int() << " rects " << v << " region " << g; });
  return g;
}
static bool corner_touch(const Reg& g) {
  std::vector<R> r = g.rects();
  return components(r, true).size() != components(r, false).size();
}
// k: 0 keyholed, 1 holes, 2 vertex threshold keyholed, 3 threshold with holes
PBT_TARGET(polygons90, 250000, 5000000) {
  PS ps(s.coin() ? bp::VERTICAL : bp::HORIZONTAL);
  int k = s.irange(0, 3); size_t th = 4 + 2 * (size_t)s.irange(0, 6);
  Reg g = k >= 2 ? make_general(s, ps) : make(s, ps);
  size_t ncomp = components(g.rects(), false).size();
  // known finding k_vertex_shared_line
  if (k >= 2 && shared_line(g, ps.orient() == bp::VERTICAL)) { s.label("excluded: known finding k_vertex_shared_line"); k -= 2; }
  s.nontrivial(g.rects().size() >= 3);
  s.label(k == 0 ? "keyholed" : k == 1 ? "with holes" : k == 2 ? "threshold" : "threshold with holes");
  s.label("corner touching components", corner_touch(g));
  if (k == 0) {
    std::vector<PD> v; Pre<std::vector<PD>> pre(s, v, gen::bpoly90<int>(ref::ring(R{3, 5, 14, 7}))); if (s.coin()) ps.get(v); else ps.get_polygons(v); pre.done();
    std::vector<Shape> w = rshapes(v);
    for (auto& h : w) ring_ok(h.outer, "get(polygon_90)");
    cover_ok(w, g, "get(polygon_90)");
  } else if (k == 1) {
    std::vector<WD> v; Pre<std::vector<WD>> pre(s, v, gen::bpwh90<int>(Shape{ref::ring(R{3, 5, 14, 7}), {}})); ps.get(v); pre.done();
    std::vector<Shape> w = rshapes_wh(v); size_t holes = 0;
    for (auto& h : w) { ring_ok(h.outer, "get(polygon_90_with_holes)"); for (auto& q : h.holes) { ring_ok(q, "get(polygon_90_with_holes) hole"); ++holes; } }
    cover_ok(w, g, "get(polygon_90_with_holes)");
    s.label("has holes", holes > 0);
    for (auto& h : w) for (auto& q : h.holes) {
      std::vector<Reg::E> eo, eh; Reg::add_ring(eo, h.outer, 1); Reg::add_ring(eh, q, -1);
      Reg o = Reg::from_edges(eo), i = Reg::from_edges(eh);
      CHECKM((i - o).empty(), "hole outside its polygon " << h);
      for (auto& q2 : h.holes) if (&q2 != &q) { std::vector<Reg::E> e2; Reg::add_ring(e2, q2, -1); CHECKM((i & Reg::from_edges(e2)).empty(), "overlapping holes " << h); }
    }
    size_t n = w.size();
    CHECKM(n == ncomp, "get(polygon_90_with_holes): " << n << " polygons for " << ncomp << " connected regions " << g << " polygons " << w);
  } else if (k == 2) {
    std::vector<PD> v; Pre<std::vector<PD>> pre(s, v, gen::bpoly90<int>(ref::ring(R{3, 5, 14, 7}))); ps.get(v, th); pre.done(); std::vector<Shape> w = rshapes(v);
    for (auto& h : w) { ring_ok(h.outer, "get(polygon_90,k)"); CHECKM(h.outer.size() <= th, "get(polygon_90," << th << "): " << h.outer.size() << " vertices " << h); }
    cover_ok(w, g, "get(polygon_90,k)");
  } else {
    std::vector<WD> v; Pre<std::vector<WD>> pre(s, v, gen::bpwh90<int>(Shape{ref::ring(R{3, 5, 14, 7}), {}})); ps.get(v, th); pre.done(); std::vector<Shape> w = rshapes_wh(v);
    for (auto& h : w) { ring_ok(h.outer, "get(polygon_90_with_holes,k)"); size_t n = h.outer.size(); for (auto& q : h.holes) { ring_ok(q, "hole"); n += q.size(); }
      CHECKM(n <= th, "get(polygon_90_with_holes," << th << "): " << n << " vertices " << h); }
    cover_ok(w, g, "get(polygon_90_with_holes,k)");
  }
}
// rectangle slicing in both directions and all maximal rectangles
PBT_TARGET(rectangles, 250000, 5000000) {
  PS ps(s.coin() ? bp::VERTICAL : bp::HORIZONTAL);
  Reg g = make(s, ps);
  s.nontrivial(g.rects().size() >= 3);
  int k = s.irange(0, 4);
  std::vector<RD> v;
  if (k <= 2) {
    // existing content of the container stays
    bool pre = s.coin(); if (pre) v.push_back(RD(1, 2, 3, 4));
    bp::orientation_2d sl = ps.orient();
    if (k == 0) ps.get(v); else if (k == 1) bp::get_rectangles(v, ps); else { sl = s.coin() ? bp::VERTICAL : bp::HORIZONTAL; if (s.coin()) ps.get_rectangles(v, sl); else bp::get_rectangles(v, ps, sl); }
    if (pre) { CHECK(v.size() >= 1 && v[0] == RD(1, 2, 3, 4)); v.erase(v.begin()); }
    std::vector<R> r = rrects(v);
    CHECKM(disjoint(r), "overlapping or degenerate rectangles " << r);
    CHECKM(Reg::of(r) == g, "rectangles cover " << Reg::of(r) << " want " << g);
    // slices along an orientation are maximal in it: two pieces never share
    // a whole edge across the other direction
    // HORIZONTAL: cut lines are horizontal, i.e. no piece can be extended in x
    // (the free function without an orientation does not say which one it uses)
    if (k != 1) for (auto& q : r) {
      R l = q, h = q;
      if (sl == bp::HORIZONTAL) { l.x0 = q.x0 - 1; l.x1 = q.x0; h.x0 = q.x1; h.x1 = q.x1 + 1; }
      else { l.y0 = q.y0 - 1; l.y1 = q.y0; h.y0 = q.y1; h.y1 = q.y1 + 1; }
      CHECKM((g & Reg::of(l)).empty(), "piece " << q << " is cut along the slicing orientation " << sl.to_int() << " of " << r);
      CHECKM((g & Reg::of(h)).empty(), "piece " << q << " is cut along the slicing orientation " << sl.to_int() << " of " << r);
    }
  } else if (k == 3) {
    bp::get_max_rectangles(v, ps);
    std::vector<R> got = rrects(v); std::sort(got.begin(), got.end());
    // brute force over the grid of edge coordinates
    std::set<ll> sx, sy; for (auto& q : g.rects()) { sx.insert(q.x0); sx.insert(q.x1); sy.insert(q.y0); sy.insert(q.y1); }
    std::vector<ll> X(sx.begin(), sx.end()), Y(sy.begin(), sy.end());
    int n = (int)X.size() - 1, m = (int)Y.size() - 1;
    std::vector<R> want;
    if (n > 0 && m > 0) {
      std::vector<std::vector<int>> c(n + 1, std::vector<int>(m + 1, 0));
      std::vector<std::vector<char>> in(n, std::vector<char>(m, 0));
      for (auto& q : g.rects()) for (int i = 0; i < n; ++i) if (X[i] >= q.x0 && X[i + 1] <= q.x1) for (int j = 0; j < m; ++j) if (Y[j] >= q.y0 && Y[j + 1] <= q.y1) in[i][j] = 1;
      for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) c[i + 1][j + 1] = c[i][j + 1] + c[i + 1][j] - c[i][j] + in[i][j];
      auto full = [&](int a, int b, int d, int e) { if (a < 0 || b < 0 || d > n || e > m) return false; return c[d][e] - c[a][e] - c[d][b] + c[a][b] == (d - a) * (e - b); };
      for (int a = 0; a < n; ++a) for (int b = 0; b < m; ++b) if (in[a][b]) for (int d = a + 1; d <= n; ++d) for (int e = b + 1; e <= m; ++e)
        if (full(a, b, d, e) && !full(a - 1, b, d, e) && !full(a, b - 1, d, e) && !full(a, b, d + 1, e) && !full(a, b, d, e + 1)) want.push_back(R{X[a], Y[b], X[d], Y[e]});
    }
    std::sort(want.begin(), want.end());
    CHECKM(got == want, "get_max_rectangles: got " << got << " want " << want);
  } else {
    // outputs into the more general polygon types
    std::vector<Shape> w;
    int t = s.irange(0, 3);
    if (t == 0) { std::vector<bp::polygon_45_data<int>> o; ps.get(o); w = rshapes(o); }
    else if (t == 1) { std::vector<bp::polygon_data<int>> o; ps.get(o); w = rshapes(o); }
    else if (t == 2) { std::vector<bp::polygon_45_with_holes_data<int>> o; ps.get(o); w = rshapes_wh(o); }
    else { std::vector<bp::polygon_with_holes_data<int>> o; ps.get(o); w = rshapes_wh(o); }
    for (auto& h : w) ring_ok(h.outer, "general type");
    cover_ok(w, g, "get into a general polygon type");
  }
}
PBT_KNOWN(k_vertex_shared_line) {
  PS ps(bp::VERTICAL);
  ps.insert(RD(0, 0, 1, 1)); ps.insert(RD(1, 1, 2, 2));
  std::vector<PD> v; ps.get(v, 4);
  std::vector<Shape> w = rshapes(v);
  for (auto& h : w) ring_ok(h.outer, "get(polygon_90,4)");
  cover_ok(w, Reg::of(std::vector<R>{R{0, 0, 1, 1}, R{1, 1, 2, 2}}), "get(polygon_90,4)");
}
PBT_KNOWN(k_vertex_odd) {
  std::vector<R> q{R{12, 2, 14, 8}, R{0, 16, 2, 18}, R{4, 10, 6, 12}, R{10, 0, 16, 4}, R{8, 6, 18, 14}};
  PS ps(bp::VERTICAL);
  for (auto& r : q) ps.insert(brect<int>(r));
  std::vector<PD> v; ps.get(v, 7);
  for (auto& p : v) CHECK(p.size() <= 7);
}
