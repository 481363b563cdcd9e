// Single objects of user types: the same result as for the library types.
#include "sets.hpp"
#include <boost/polygon/voronoi.hpp>
#include <boost/polygon/segment_utils.hpp>
namespace {
// the plain library type of each user polygon
template <class T> struct plain; template <> struct plain<Poly90> { typedef bp::polygon_90_data<int> type; }; template <> struct plain<Poly90H> { typedef WD type; }; template <> struct plain<P4> { typedef QD type; }; template <> struct plain<P4H> { typedef QW type; }; template <> struct plain<PG> { typedef GD type; }; template <> struct plain<PGH> { typedef GW type; };
template <class L> struct mk; template <> struct mk<bp::polygon_90_data<int> > { static bp::polygon_90_data<int> go(const Shape& h) { return gen::bpoly90<int>(h.outer); } }; template <> struct mk<WD> { static WD go(const Shape& h) { return gen::bpwh90<int>(h); } }; template <> struct mk<QD> { static QD go(const Shape& h) { return bpoly45<int>(h.outer); } }; template <> struct mk<QW> { static QW go(const Shape& h) { return bpwh45<int>(h); } }; template <> struct mk<GD> { static GD go(const Shape& h) { return gen::bpoly<GD, int>(h.outer); } }; template <> struct mk<GW> { static GW go(const Shape& h) { return gwh(h); } };
template <class T> struct is90 { static const bool v = std::is_same<T, Poly90>::value || std::is_same<T, Poly90H>::value; };
template <class L> Shape lib_shape(const L& p) { std::vector<L> v(1, p); if constexpr (std::is_same<L, WD>::value || std::is_same<L, QW>::value || std::is_same<L, GW>::value) return gen::rshapes_wh(v)[0]; else return gen::rshapes(v)[0]; }
template <class T, class L> void agree1(const T& a, const L& b, const char* what) { std::vector<Shape> v(1, raw(a)), w(1, lib_shape(b)); CHECKM(eqshapes(v, w), what << ": user polygon " << v << " library " << w); }
template <class T> void polygon(Src& s, const char* name) {
  typedef typename plain<T>::type L; Lat l = plat(s); s.label(name); Shape lh = plan_shape(s, l, is90<T>::v, false, fill_one<T>::holes), h = l.at(lh); s.notef([&](std::ostream& o) { o << name << " " << h; });
  T a = fill_one<T>::go(h); L b = mk<L>::go(h); s.nontrivial(h.outer.size() > 4 || !h.holes.empty()); agree1(a, b, "built");
  CHECKM(bp::area(a) == bp::area(b), "area " << (double)bp::area(a) << " library " << (double)bp::area(b)); CHECKM(bp::perimeter(a) == bp::perimeter(b) || std::fabs((double)bp::perimeter(a) - (double)bp::perimeter(b)) <= 1e-9 * (double)bp::perimeter(b), "perimeter " << (double)bp::perimeter(a) << " library " << (double)bp::perimeter(b));
  Rect e = bp::construct<Rect>(0, 0, 0, 0); RD f(0, 0, 0, 0); bool x = bp::extents(e, a), y = bp::extents(f, b); CHECKM(x == y && eqrect(e, f), "extents " << show(e)); { own::Pt p; bp::point_data<int> q; bp::center(p, a); bp::center(q, b); CHECKM(p.xx == q.x() && p.yy == q.y(), "center " << p.xx << "," << p.yy); }
  for (int i = 0; i < 8; ++i) { P p{s.range(bp::xl(f) - 2, bp::xh(f) + 2), s.range(bp::yl(f) - 2, bp::yh(f) + 2)}; if (s.coin()) { const Ring& r = h.outer; p = r[s.draw(r.size())]; p.x += s.irange(-1, 1); p.y += s.irange(-1, 1); } bool bt = s.coin(); own::Pt op = bp::construct<own::Pt>((int)p.x, (int)p.y);
    bool m = bp::contains(a, op, bt), n = bp::contains(b, bp::point_data<int>((int)p.x, (int)p.y), bt); CHECKM(m == n, "contains " << p << " touch " << bt << ": " << m << " library " << n); }
  CHECKM(bp::equivalence(a, b) && bp::equivalence(b, a), "not equivalent to the library polygon");
  { L c; bp::assign(c, a); agree1(a, c, "assigned to the library type"); T d; bp::assign(d, b); agree1(d, b, "assigned from the library type"); T g; bp::assign(g, a); agree1(g, b, "assigned"); }
  { int dx = s.irange(-50, 50), dy = s.irange(-50, 50); T c(a); L d(b); switch (s.irange(0, 4)) { case 0: bp::move(c, bp::HORIZONTAL, dx); bp::move(d, bp::HORIZONTAL, dx); break; case 1: { own::Pt v = bp::construct<own::Pt>(dx, dy); bp::convolve(c, v); bp::convolve(d, v); break; } case 2: { bp::axis_transformation t((bp::axis_transformation::ATR)s.irange(0, 7)); bp::transform(c, t); bp::transform(d, t); break; } case 3: bp::scale_up(c, 3); bp::scale_up(d, 3); break; default: bp::scale_down(c, 2); bp::scale_down(d, 2); } agree1(c, d, "moved"); CHECKM(bp::area(c) == bp::area(d), "area after a change"); }
  { Lat l2 = l; Shape k = l2.at(plan_shape(s, l, is90<T>::v, false, fill_one<T>::holes)); T c = fill_one<T>::go(k); L d = mk<L>::go(k); s.notef([&](std::ostream& o) { o << " second " << k; }); bool m = bp::equivalence(a, c), n = bp::equivalence(b, d); CHECKM(m == n, "equivalence " << m << " library " << n);
    using namespace op; typedef typename std::conditional<is90<T>::v, PS, typename std::conditional<std::is_same<L, QD>::value || std::is_same<L, QW>::value, QS, GS>::type>::type S; S u, v; int o = s.irange(0, 3); bool mixed = s.coin();
    switch (o) { case 0: if (mixed) u = a | d; else u = a | c; v = b | d; break; case 1: if (mixed) u = b & c; else u = a & c; v = b & d; break; case 2: if (mixed) u = a ^ d; else u = a ^ c; v = b ^ d; break; default: if (mixed) u = b - c; else u = a - c; v = b - d; } CHECKM(u == v, "boolean of user polygons"); S w; w.insert(a); w.insert(c, true); S z; z.insert(b); z.insert(d, true); CHECKM(w == z, "insert of user polygons"); }
}
}  // namespace
PBT_TARGET(polygons, 120000, 2500000) { switch (s.irange(0, 5)) { case 0: polygon<Poly90>(s, "Poly90"); break; case 1: polygon<Poly90H>(s, "Poly90H"); break; case 2: polygon<P4>(s, "P4"); break; case 3: polygon<P4H>(s, "P4H"); break; case 4: polygon<PG>(s, "PG"); break; default: polygon<PGH>(s, "PGH"); } }
// property merge and connectivity extraction fed with user polygons
PBT_TARGET(overlays, 60000, 1200000) {
  Lat l = plat(s); int n = s.irange(1, 5), kind = s.irange(0, 2); std::vector<Shape> v; for (int i = 0; i < n; ++i) { v.push_back(l.at(plan_shape(s, l, kind == 0, false, true))); s.notef([&](std::ostream& o) { o << v.back(); }); } s.nontrivial(n > 1);
  std::vector<std::set<int> > g(n), h(n);
  if (kind == 0) { bp::property_merge_90<int, int> p, q; bp::connectivity_extraction_90<int> c, d; for (int i = 0; i < n; ++i) { Poly90H a = fill_one<Poly90H>::go(v[i]); WD b = gen::bpwh90<int>(v[i]); p.insert(a, i % 3); q.insert(b, i % 3); c.insert(a); d.insert(b); } std::map<std::set<int>, PS> x, y; p.merge(x); q.merge(y); CHECKM(x.size() == y.size(), "number of label sets"); for (auto& e : x) CHECKM(y.count(e.first) && y[e.first] == e.second, "property merge"); c.extract(g); d.extract(h); }
  else if (kind == 1) { bp::property_merge_45<int, int> p, q; bp::connectivity_extraction_45<int> c, d; for (int i = 0; i < n; ++i) { P4H a = fill_one<P4H>::go(v[i]); QW b = bpwh45<int>(v[i]); p.insert(a, i % 3); q.insert(b, i % 3); c.insert(a); d.insert(b); } std::map<std::set<int>, QS> x, y; p.merge(x); q.merge(y); CHECKM(x.size() == y.size(), "number of label sets"); for (auto& e : x) CHECKM(y.count(e.first) && y[e.first] == e.second, "property merge"); c.extract(g); d.extract(h); }
  else { bp::property_merge<int, int> p, q; bp::connectivity_extraction<int> c, d; for (int i = 0; i < n; ++i) { PGH a = fill_one<PGH>::go(v[i]); GW b = gwh(v[i]); p.insert(a, i % 3); q.insert(b, i % 3); c.insert(a); d.insert(b); } std::map<std::set<int>, GS> x, y; p.merge(x); q.merge(y); CHECKM(x.size() == y.size(), "number of label sets"); for (auto& e : x) CHECKM(y.count(e.first) && y[e.first] == e.second, "property merge"); c.extract(g); d.extract(h); }
  CHECKM(g == h, "connectivity graph");
}
// Voronoi diagrams and segment intersection of user points and segments
PBT_TARGET(sites, 60000, 1200000) {
  int n = s.irange(0, 8), m = s.irange(0, 5); ll R = s.coin() ? 10 : 1000; std::vector<own::Pt> p; std::vector<bp::point_data<int> > q; std::vector<own::Sg> u; std::vector<bp::segment_data<int> > w; auto c = [&] { return (int)s.around(-R, R); };
  for (int i = 0; i < n; ++i) { int x = c(), y = c(); p.push_back(bp::construct<own::Pt>(x, y)); q.push_back(bp::point_data<int>(x, y)); }
  for (int i = 0; i < m; ++i) { bp::point_data<int> a(c(), c()), b(c(), c()); if (a == b) b.x(b.x() + 1); w.push_back(bp::segment_data<int>(a, b)); u.push_back(bp::construct<own::Sg>(a, b)); s.notef([&](std::ostream& o) { o << "(" << a.x() << "," << a.y() << ")-(" << b.x() << "," << b.y() << ")"; }); }
  s.notef([&](std::ostream& o) { for (auto& a : q) o << "(" << a.x() << "," << a.y() << ")"; });
  // pieces of the segments, which may be given to the Voronoi builder
  std::vector<own::Sg> pu; std::vector<bp::segment_data<int> > pw; bp::intersect_segments(pu, u.begin(), u.end()); bp::intersect_segments(pw, w.begin(), w.end()); CHECKM(pu.size() == pw.size(), "number of pieces " << pu.size() << " library " << pw.size());
  std::sort(pw.begin(), pw.end()); { std::vector<bp::segment_data<int> > z; for (auto& x : pu) z.push_back(bp::segment_data<int>(bp::point_data<int>(x.low.xx, x.low.yy), bp::point_data<int>(x.high.xx, x.high.yy))); std::sort(z.begin(), z.end()); CHECKM(z == pw, "pieces of user segments differ"); }
  for (int i = 0; i + 1 < (int)u.size(); ++i) { CHECKM(bp::intersects(u[i], u[i + 1]) == bp::intersects(w[i], w[i + 1]), "intersects"); CHECKM(bp::length(u[i]) == bp::length(w[i]), "length"); CHECKM(bp::orientation(u[i], p.empty() ? u[i + 1].low : p[0]) == bp::orientation(w[i], q.empty() ? w[i + 1].low() : q[0]), "orientation"); CHECKM(bp::euclidean_distance(u[i], u[i + 1]) == bp::euclidean_distance(w[i], w[i + 1]), "distance"); }
  pw.erase(std::unique(pw.begin(), pw.end()), pw.end()); pu.clear(); for (auto& x : pw) pu.push_back(bp::construct<own::Sg>(x.low(), x.high()));
  { size_t e = 0; for (auto& x : pw) e += x.low() != x.high(); if (e != pw.size()) return; }
  // sites may meet at end points only
  for (size_t i = 0; i < q.size();) { bool on = false; for (auto& x : pw) { ll ax = x.low().x(), ay = x.low().y(), bx = x.high().x(), by = x.high().y(), px = q[i].x(), py = q[i].y(); if ((bx - ax) * (py - ay) == (by - ay) * (px - ax) && px >= std::min(ax, bx) && px <= std::max(ax, bx) && py >= std::min(ay, by) && py <= std::max(ay, by)) on = true; } if (on) { q.erase(q.begin() + i); p.erase(p.begin() + i); } else ++i; }
  bp::voronoi_diagram<double> a, b; bp::construct_voronoi(p.begin(), p.end(), pu.begin(), pu.end(), &a); bp::construct_voronoi(q.begin(), q.end(), pw.begin(), pw.end(), &b); s.nontrivial(a.num_vertices() > 0);
  CHECK(a.num_cells() == b.num_cells() && a.num_edges() == b.num_edges() && a.num_vertices() == b.num_vertices());
  for (size_t i = 0; i < a.num_vertices(); ++i) CHECKM(a.vertices()[i].x() == b.vertices()[i].x() && a.vertices()[i].y() == b.vertices()[i].y(), n << " points, vertex " << i << ": " << a.vertices()[i].x() << "," << a.vertices()[i].y() << " library " << b.vertices()[i].x() << "," << b.vertices()[i].y()); for (size_t i = 0; i < a.num_cells(); ++i) CHECK(a.cells()[i].source_index() == b.cells()[i].source_index() && a.cells()[i].source_category() == b.cells()[i].source_category());
}
// rectangles, intervals and points
PBT_TARGET(rectangles, 60000, 1200000) {
  ll R = s.coin() ? 12 : 100000000; auto c = [&] { return (int)s.around(-R, R); }; auto rect = [&](Rect& a, RD& b) { int x0 = c(), x1 = c(), y0 = c(), y1 = c(); if (x0 > x1) std::swap(x0, x1); if (y0 > y1) std::swap(y0, y1); a = bp::construct<Rect>(x0, y0, x1, y1); b = bp::construct<RD>(x0, y0, x1, y1); CHECK(eqrect(a, b)); s.notef([&](std::ostream& o) { o << raw(a); }); };
  Rect a, x; RD b, y; rect(a, b); rect(x, y); bool t = s.coin(); bp::orientation_2d o = s.coin() ? bp::HORIZONTAL : bp::VERTICAL; bp::direction_2d dir((bp::direction_2d_enum)s.irange(0, 3)); int px = c(), py = c(); own::Pt p = bp::construct<own::Pt>(px, py); bp::point_data<int> q(px, py); s.nontrivial(bp::intersects(b, y));
  CHECK(bp::intersects(a, x, t) == bp::intersects(b, y, t)); CHECK(bp::contains(a, x, t) == bp::contains(b, y, t)); CHECK(bp::contains(a, p, t) == bp::contains(b, q, t)); CHECK(bp::abuts(a, x) == bp::abuts(b, y)); CHECK(bp::abuts(a, x, o) == bp::abuts(b, y, o)); CHECK(bp::boundaries_intersect(a, x, t) == bp::boundaries_intersect(b, y, t));
  CHECK(bp::area(a) == bp::area(b)); CHECK(bp::half_perimeter(a) == bp::half_perimeter(b)); CHECK(bp::perimeter(a) == bp::perimeter(b)); CHECK(bp::delta(a, o) == bp::delta(b, o)); CHECK(bp::equivalence(a, x) == bp::equivalence(b, y)); CHECK(bp::equivalence(a, b)); CHECK(bp::equivalence(b, a)); CHECK(bp::guess_orientation(a) == bp::guess_orientation(b));
  CHECK(bp::manhattan_distance(a, x) == bp::manhattan_distance(b, y)); CHECK(bp::euclidean_distance(a, p) == bp::euclidean_distance(b, q)); CHECK(bp::square_euclidean_distance(a, x) == bp::square_euclidean_distance(b, y)); CHECK(bp::euclidean_distance(a, x, o) == bp::euclidean_distance(b, y, o));
  int d = s.irange(0, 6), k = s.irange(0, 15); bool u = true, v = true; s.notef([&](std::ostream& w) { w << " function " << k << " amount " << d; });
  if (k == 7) d = std::min<ll>(d, std::min(bp::delta(b, bp::HORIZONTAL), bp::delta(b, bp::VERTICAL)) / 2);  // the result stays a rectangle
  switch (k) { case 0: u = bp::intersect(a, x, t); v = bp::intersect(b, y, t); break; case 1: bp::generalized_intersect(a, x); bp::generalized_intersect(b, y); break; case 2: u = bp::encompass(a, x); v = bp::encompass(b, y); break; case 3: u = bp::encompass(a, p); v = bp::encompass(b, q); break; case 4: bp::bloat(a, d); bp::bloat(b, d); break; case 5: bp::bloat(a, o, d); bp::bloat(b, o, d); break; case 6: bp::bloat(a, dir, d); bp::bloat(b, dir, d); break; case 7: bp::shrink(a, d); bp::shrink(b, d); break;
    case 8: bp::convolve(a, x); bp::convolve(b, y); break; case 9: bp::deconvolve(a, p); bp::deconvolve(b, q); break; case 10: bp::move(a, o, d); bp::move(b, o, d); break; case 11: { bp::axis_transformation z((bp::axis_transformation::ATR)s.irange(0, 7)); bp::transform(a, z); bp::transform(b, z); break; } case 12: bp::scale_up(a, d + 1); bp::scale_up(b, d + 1); break; case 13: bp::scale_down(a, d + 1); bp::scale_down(b, d + 1); break; case 14: bp::join_with(a, x); bp::join_with(b, y); break; default: { own::Iv i = bp::construct<own::Iv>(std::min(px, py), std::max(px, py)); bp::set(a, o, i); bp::set(b, o, bp::construct<bp::interval_data<int> >(std::min(px, py), std::max(px, py))); } }
  CHECKM(u == v && eqrect(a, b), "result " << u << " " << raw(a) << " library " << v << " [" << bp::xl(b) << "," << bp::yl(b) << " " << bp::xh(b) << "," << bp::yh(b) << "]");
  Rect e = bp::get_half(a, dir); RD f = bp::get_half(b, dir); CHECK(eqrect(e, f)); own::Pt c1; bp::point_data<int> c2; bp::center(c1, a); bp::center(c2, b); CHECK(c1.xx == c2.x() && c1.yy == c2.y()); CHECK(bp::euclidean_distance(p, c1) == bp::euclidean_distance(q, c2)); CHECK(bp::equivalence(c1, c2)); bp::convolve(c1, p); bp::convolve(c2, q); CHECK(bp::x(c1) == c2.x() && bp::y(c1) == c2.y());
}
