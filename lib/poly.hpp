// Polygon functions against exact definitions over a shape's vertices.
#ifndef VERIF_POLY_HPP
#define VERIF_POLY_HPP
#include "ivl.hpp"
#include "tri.hpp"
#include "arb.hpp"
#include <cmath>
#include <deque>
namespace bp = boost::polygon;
using pbt::Src; using ref::P; using ref::Ring; using ref::Shape;
#ifndef POLY_LIM
#define POLY_LIM 2147483647
#endif
namespace poly {
// user models: coordinates in a deque, points in a list; the winding is known
template <class T> struct Own90 { typedef T C; std::deque<T> c; };
struct OwnPoly { typedef int T; std::list<bp::point_data<T> > p; bp::winding_direction w; OwnPoly() : w(bp::unknown_winding) {} };
struct OwnHoles { typedef int T; std::list<bp::point_data<T> > p; std::vector<OwnPoly> h; };
}
namespace boost { namespace polygon {
template <class T> struct geometry_concept<poly::Own90<T> > { typedef polygon_90_concept type; };
template <class T> struct polygon_90_traits<poly::Own90<T> > { typedef T coordinate_type; typedef typename std::deque<T>::const_iterator compact_iterator_type; static compact_iterator_type begin_compact(const poly::Own90<T>& t) { return t.c.begin(); } static compact_iterator_type end_compact(const poly::Own90<T>& t) { return t.c.end(); } static std::size_t size(const poly::Own90<T>& t) { return t.c.size(); } static winding_direction winding(const poly::Own90<T>&) { return unknown_winding; } };
template <class T> struct polygon_90_mutable_traits<poly::Own90<T> > { template <class I> static poly::Own90<T>& set_compact(poly::Own90<T>& t, I b, I e) { t.c.clear(); for (; b != e; ++b) t.c.push_back(*b); return t; } };
template <class T> struct polygon_mutable_traits<poly::Own90<T> > { template <class I> static poly::Own90<T>& set_points(poly::Own90<T>& t, I b, I e) { typedef iterator_points_to_compact<I, typename std::iterator_traits<I>::value_type> C; return polygon_90_mutable_traits<poly::Own90<T> >::set_compact(t, C(b, e), C(e, e)); } };
template <> struct geometry_concept<poly::OwnPoly> { typedef polygon_concept type; };
template <> struct polygon_traits<poly::OwnPoly> { typedef int T; typedef T coordinate_type; typedef std::list<point_data<T> >::const_iterator iterator_type; typedef point_data<T> point_type; static iterator_type begin_points(const poly::OwnPoly& t) { return t.p.begin(); } static iterator_type end_points(const poly::OwnPoly& t) { return t.p.end(); } static std::size_t size(const poly::OwnPoly& t) { return t.p.size(); } static winding_direction winding(const poly::OwnPoly& t) { return t.w; } };
template <> struct polygon_mutable_traits<poly::OwnPoly> { typedef int T; template <class I> static poly::OwnPoly& set_points(poly::OwnPoly& t, I b, I e) { std::list<point_data<T> > n(b, e); t.p.swap(n); return t; } };
template <> struct geometry_concept<poly::OwnHoles> { typedef polygon_with_holes_concept type; };
template <> struct polygon_traits<poly::OwnHoles> { typedef int T; typedef T coordinate_type; typedef std::list<point_data<T> >::const_iterator iterator_type; typedef point_data<T> point_type; static iterator_type begin_points(const poly::OwnHoles& t) { return t.p.begin(); } static iterator_type end_points(const poly::OwnHoles& t) { return t.p.end(); } static std::size_t size(const poly::OwnHoles& t) { return t.p.size(); } static winding_direction winding(const poly::OwnHoles&) { return unknown_winding; } };
template <> struct polygon_mutable_traits<poly::OwnHoles> { typedef int T; template <class I> static poly::OwnHoles& set_points(poly::OwnHoles& t, I b, I e) { std::list<point_data<T> > n(b, e); t.p.swap(n); return t; } };
template <> struct polygon_with_holes_traits<poly::OwnHoles> { typedef int T; typedef typename std::vector<poly::OwnPoly >::const_iterator iterator_holes_type; typedef poly::OwnPoly hole_type; static iterator_holes_type begin_holes(const poly::OwnHoles& t) { return t.h.begin(); } static iterator_holes_type end_holes(const poly::OwnHoles& t) { return t.h.end(); } static std::size_t size_holes(const poly::OwnHoles& t) { return t.h.size(); } };
template <> struct polygon_with_holes_mutable_traits<poly::OwnHoles> { typedef int T; template <class I> static poly::OwnHoles& set_holes(poly::OwnHoles& t, I b, I e) { std::vector<poly::OwnPoly > n; for (; b != e; ++b) { n.push_back(poly::OwnPoly()); std::list<point_data<T> > q(polygon_traits<typename std::iterator_traits<I>::value_type>::begin_points(*b), polygon_traits<typename std::iterator_traits<I>::value_type>::end_points(*b)); n.back().p.swap(q); } t.h.swap(n); return t; } };
} }
namespace poly {
typedef long double LD;
template <class Poly> struct ctype { typedef typename bp::polygon_traits<Poly>::coordinate_type T; };
template <class T> std::vector<bp::point_data<T> > pts(const Ring& r) { std::vector<bp::point_data<T> > v; for (auto& p : r) v.push_back(bp::point_data<T>(un<T>(p.x), un<T>(p.y))); return v; }
template <class Poly> Ring ring_of(const Poly& p) { typedef typename ctype<Poly>::T T; Ring r; for (auto i = bp::begin_points(p), e = bp::end_points(p); i != e; ++i) { P q{(ll)re<T>(bp::x(*i)), (ll)re<T>(bp::y(*i))}; r.push_back(q); } return r; }
template <class C> struct traits_of { static const bool holes = false; static const int kind = 2; };
template <> struct traits_of<bp::polygon_90_concept> { static const bool holes = false; static const int kind = 0; };
template <> struct traits_of<bp::polygon_90_with_holes_concept> { static const bool holes = true; static const int kind = 0; };
template <> struct traits_of<bp::polygon_45_concept> { static const bool holes = false; static const int kind = 1; };
template <> struct traits_of<bp::polygon_45_with_holes_concept> { static const bool holes = true; static const int kind = 1; };
template <> struct traits_of<bp::polygon_with_holes_concept> { static const bool holes = true; static const int kind = 2; };
template <class Poly> struct about : traits_of<typename bp::geometry_concept<Poly>::type> {};
template <bool H> struct Holes {
  template <class Poly> static void get(const Poly& p, std::vector<Ring>& v) { for (auto i = bp::begin_holes(p), e = bp::end_holes(p); i != e; ++i) v.push_back(ring_of(*i)); if (v.size() != bp::size_holes(p)) pbt::fail("size_holes differs from the number of holes"); }
  template <class Poly> static void set(Poly& p, const Shape& s) { typedef typename bp::polygon_with_holes_traits<Poly>::hole_type Hole; typedef typename ctype<Poly>::T T; std::vector<Hole> v; for (auto& r : s.holes) { Hole h; auto q = pts<T>(r); bp::set_points(h, q.begin(), q.end()); v.push_back(h); } bp::set_holes(p, v.begin(), v.end()); }
};
template <> struct Holes<false> { template <class Poly> static void get(const Poly&, std::vector<Ring>&) {} template <class Poly> static void set(Poly&, const Shape&) {} };
template <class Poly> Shape shape_of(const Poly& p) { Shape s; s.outer = ring_of(p); Holes<about<Poly>::holes>::get(p, s.holes); return s; }
template <class Poly> Poly make(const Shape& s) { typedef typename ctype<Poly>::T T; Poly p; auto q = pts<T>(s.outer); bp::set_points(p, q.begin(), q.end()); Holes<about<Poly>::holes>::set(p, s); return p; }
// equal vertex sequences; Manhattan polygons may start at the next vertex
inline bool same(const Ring& a, const Ring& b, bool rotated) { if (a == b) return true; if (!rotated || a.size() != b.size() || a.empty()) return false; Ring c = b; std::rotate(c.begin(), c.begin() + 1, c.end()); return a == c; }
inline bool same(const Shape& a, const Shape& b, bool rotated) { if (!same(a.outer, b.outer, rotated) || a.holes.size() != b.holes.size()) return false; for (size_t i = 0; i < a.holes.size(); ++i) if (!same(a.holes[i], b.holes[i], rotated)) return false; return true; }
inline std::ostream& show(std::ostream& o, const Shape& s) { o << s.outer; for (auto& h : s.holes) o << " hole " << h; return o; }
inline W ringarea(const Ring& r) { W a = 0; for (size_t i = 0, n = r.size(); i < n; ++i) { const P &p = r[i], &q = r[(i + 1) % n]; a += (W)p.x * q.y - (W)p.y * q.x; } return a; }
template <class F> Ring mapr(const Ring& r, F f) { Ring o; for (auto& p : r) o.push_back(f(p)); return o; }
template <class F> Shape maps(const Shape& s, F f) { Shape o; o.outer = mapr(s.outer, f); for (auto& h : s.holes) o.holes.push_back(mapr(h, f)); return o; }
inline bool is45(const Ring& r) { for (size_t i = 0, n = r.size(); i < n; ++i) { ll dx = r[i].x - r[(i + 1) % n].x, dy = r[i].y - r[(i + 1) % n].y; if (dx && dy && dx != dy && dx != -dy) return false; } return true; }
inline int where(const Shape& s, const P& q) {  // 1 inside, 0 on a boundary, -1 outside
  if (mem::on_ring(s.outer, q)) return 0; for (auto& h : s.holes) if (mem::on_ring(h, q)) return 0;
  if (mem::winding(s.outer, q) == 0) return -1; for (auto& h : s.holes) if (mem::winding(h, q) != 0) return -1; return 1;
}
template <class T> struct Range { static bool ok(const Shape& s) { auto in = [](ll v) { ll lim = Kind<T>::real ? 1LL << 24 : sizeof(T) == 8 ? 1LL << 30 : 1LL << 40; return fits<T>((W)v) && v <= lim && v >= -lim; }; for (auto& p : s.outer) if (!in(p.x) || !in(p.y)) return false; for (auto& h : s.holes) for (auto& p : h) if (!in(p.x) || !in(p.y)) return false; return true; } };
struct Case { Shape A; int kind; std::vector<P> q; P v; };
// all functions of a polygon of type Poly holding shape A, seen through object o (the polygon or a view of it)
template <class T, bool M, class O> void measures(const O& o, const Case& c, const Shape& A, const char* what) {
  const W unit = Kind<T>::unit; auto bad = [&](const char* f, const std::string& g, const std::string& w) { pbt::fail(std::string(f) + " of " + what + " is " + g + " instead of " + w); }; auto str = [](auto v) { std::ostringstream os; os.precision(20); os << v; return os.str(); };
  W a2 = ringarea(A.outer); if (a2 < 0) a2 = -a2; for (auto& h : A.holes) { W t = ringarea(h); a2 -= t < 0 ? -t : t; }
  ll xl = A.outer[0].x, xh = xl, yl = A.outer[0].y, yh = yl; LD per = 0; ll man = 0; for (auto& p : A.outer) { xl = std::min(xl, p.x); xh = std::max(xh, p.x); yl = std::min(yl, p.y); yh = std::max(yh, p.y); }
  auto len = [&](const Ring& r) { for (size_t i = 0, n = r.size(); i < n; ++i) { LD dx = (LD)(r[i].x - r[(i + 1) % n].x), dy = (LD)(r[i].y - r[(i + 1) % n].y); per += sqrtl(dx * dx + dy * dy); man += (ll)(fabsl(dx) + fabsl(dy)); } }; len(A.outer); for (auto& h : A.holes) len(h);
  auto ar = bp::area(o); if (M && !Kind<T>::real) { if ((W)(xh - xl) * (yh - yl) < ((W)1 << 63) && (W)ar * 2 != a2) bad("area", str(ar), str((LD)a2 / 2)); } else { LD box = (LD)(xh - xl) * (LD)(yh - yl), g = (LD)ar * (LD)(unit * unit) * 2, d = fabsl(g - (LD)a2); LD tol = box * (Kind<T>::real ? 1e-15L : 1e-18L) * 4 * (LD)A.outer.size(); if (box * 4 < (Kind<T>::real ? 4e15L : 9e18L)) tol = 0; if (d > tol) bad("area", str(ar), str((LD)a2 / 2 / (LD)(unit * unit))); }
  auto pr = bp::perimeter(o); if (M) { if ((W)(pr * (decltype(pr))unit) != man) bad("perimeter", str(pr), str(man)); } else if (fabsl((LD)pr * (LD)unit - per) > per * 1e-14L) bad("perimeter", str(pr), str(per / unit));
  bool fit = !M || Kind<T>::real || (W)(xh - xl) * (yh - yl) < ((W)1 << 63); if (fit && (bp::winding(o) == bp::COUNTERCLOCKWISE) != (ringarea(A.outer) > 0)) bad("winding", str((int)bp::winding(o).to_int()), "its opposite");
  bp::rectangle_data<T> box(un<T>(1), un<T>(2), un<T>(3), un<T>(4)); if (!bp::extents(box, o)) bad("extents", "false", "true"); if (re<T>(bp::xl(box)) != xl || re<T>(bp::xh(box)) != xh || re<T>(bp::yl(box)) != yl || re<T>(bp::yh(box)) != yh) bad("extents", str(bp::xl(box)) + "," + str(bp::yl(box)) + "," + str(bp::xh(box)) + "," + str(bp::yh(box)), str(xl) + "," + str(yl) + "," + str(xh) + "," + str(yh));
  bp::point_data<T> ce; bp::center(ce, o); W ex = 2 * re<T>(ce.x()) - xl - xh, ey = 2 * re<T>(ce.y()) - yl - yh; if (ex > 1 || ex < -1 || ey > 1 || ey < -1) bad("center", str(ce.x()) + "," + str(ce.y()), "the middle of the bounding box");
  for (auto& q : c.q) { bp::point_data<T> p(un<T>(q.x), un<T>(q.y)); int w = where(A, q); for (int t = 0; t < 3; ++t) { bool g = t == 2 ? bp::contains(o, p) : bp::contains(o, p, t == 1); bool want = w > 0 || (w == 0 && t != 0); if (g != want) bad("contains", std::string(g ? "true" : "false") + " for point (" + str(q.x) + "," + str(q.y) + ")" + (t == 1 ? " with touch" : t == 0 ? " without touch" : ""), want ? "true" : "false"); } }
  if (bp::size(o) != A.outer.size()) bad("size", str(bp::size(o)), str(A.outer.size()));
}
template <class Poly> void expect(const Poly& p, const Shape& want, const char* what) { Shape g = shape_of(p); if (!same(g, want, about<Poly>::kind == 0)) { std::ostringstream o; o << what << " gives "; show(o, g); o << " instead of "; show(o, want); pbt::fail(o.str()); } }
inline ll rnd(W n, W d) { W q = n / d; if (n % d < 0) --q; return (ll)q; }
inline P axmap(int t, P p) { if (t & 1) p.x = -p.x; if (t & 2) p.y = -p.y; if (t & 4) std::swap(p.x, p.y); return p; }
template <class Poly> void run(Src& s, const Case& c, const char* name) {
  typedef typename ctype<Poly>::T T; const bool M = about<Poly>::kind == 0, real = Kind<T>::real; s.label(name);
  Shape A = c.A; if (!about<Poly>::holes) A.holes.clear(); if (!Range<T>::ok(A)) return;
  const Poly p = make<Poly>(A); expect(p, A, (std::string("setting ") + name).c_str()); measures<T, M>(p, c, A, name); A = shape_of(p);
  auto flat = [](const Ring& r) { for (size_t i = 0; i < r.size(); ++i) if (r[i] == r[(i + 1) % r.size()]) return true; return false; };
  auto op = [&](const char* what, const Shape& w, auto f) { if (!Range<T>::ok(w)) return; if (M) { if (flat(w.outer)) return; for (auto& h : w.holes) if (flat(h)) return; } Poly t = p; f(t); expect(t, w, (std::string(what) + " of " + name).c_str()); };
  bp::point_data<T> v(un<T>(c.v.x), un<T>(c.v.y));
  op("convolve", maps(A, [&](P q) { return P{q.x + c.v.x, q.y + c.v.y}; }), [&](Poly& t) { bp::convolve(t, v); }); op("move x", maps(A, [&](P q) { return P{q.x + c.v.x, q.y}; }), [&](Poly& t) { bp::move(t, bp::HORIZONTAL, v.x()); }); op("move y", maps(A, [&](P q) { return P{q.x, q.y + c.v.y}; }), [&](Poly& t) { bp::move(t, bp::VERTICAL, v.y()); });
  { int k = s.irange(0, 7); bp::axis_transformation at((bp::axis_transformation::ATR)k); op("axis transform", maps(A, [&](P q) { return axmap(k, q); }), [&](Poly& t) { bp::transform(t, at); }); Shape sh = maps(A, [&](P q) { return P{q.x - c.v.x, q.y - c.v.y}; }); if (Range<T>::ok(sh)) op("transform", maps(sh, [&](P q) { return axmap(k, q); }), [&](Poly& t) { bp::transformation<T> tr(at, v); bp::transform(t, tr); }); }
  { int k = s.irange(1, 9); op("scale_up", maps(A, [&](P q) { return P{q.x * k, q.y * k}; }), [&](Poly& t) { bp::scale_up(t, k); }); bool exact = true; Shape d = maps(A, [&](P q) { if (q.x % k || q.y % k) exact = false; return P{real ? q.x / k : rnd(2 * q.x + k, 2 * k), real ? q.y / k : rnd(2 * q.y + k, 2 * k)}; }); if ((about<Poly>::kind != 1 && !real) || exact) op("scale_down", d, [&](Poly& t) { bp::scale_down(t, k); });
    Shape u = maps(A, [&](P q) { return P{q.x * k, q.y * k}; }); if (Range<T>::ok(u)) op("scale_up and scale_down", A, [&](Poly& t) { bp::scale_up(t, k); bp::scale_down(t, k); }); }
  { int k = s.irange(1, 64); bool exact = true; Shape d = maps(A, [&](P q) { if ((W)q.x * k % 16 || (W)q.y * k % 16) exact = false; return real ? P{(ll)((W)q.x * k / 16), (ll)((W)q.y * k / 16)} : P{(ll)(((W)q.x * k + 8) >> 4), (ll)(((W)q.y * k + 8) >> 4)}; }); if ((about<Poly>::kind != 1 && !real) || exact) op("scale", d, [&](Poly& t) { bp::scale(t, k / 16.0); }); }
  bool f45 = is45(A.outer); for (auto& h : A.holes) f45 = f45 && is45(h); if (bp::is_45(p) != f45) pbt::fail(std::string("is_45 of ") + name + " is wrong");
  Poly e; if (bp::size(e) != 0 || bp::begin_points(e) != bp::end_points(e)) pbt::fail(std::string("a new ") + name + " is not empty"); { bp::rectangle_data<T> b(1, 2, 3, 4), b0 = b; if (bp::extents(b, e) || !(b == b0)) pbt::fail(std::string("extents of an empty ") + name); if (bp::area(e) != 0) pbt::fail(std::string("area of an empty ") + name); }
}
template <class To, class From> auto equals(To& u, const From& f, int) -> decltype(u = f, void()) { u = f; }
template <class To, class From> void equals(To& u, const From& f, ...) { bp::assign(u, f); }
// assignment and views of one type as another
template <class To, class From> void convert(Src& s, const Case& c, const char* what) {
  typedef typename ctype<From>::T T; Shape A = c.A; if (!about<From>::holes) A.holes.clear(); if (!Range<T>::ok(A)) return; const From f = make<From>(A); A = shape_of(f); if (!about<To>::holes) A.holes.clear(); (void)s;
  Shape other; other.outer = {P{0, 0}, P{2, 0}, P{2, 2}, P{0, 2}}; if (about<To>::holes && !c.A.holes.empty()) other.holes.push_back(other.outer); To t = make<To>(other); bp::assign(t, f); expect(t, A, what); To u = make<To>(other); equals(u, f, 0); expect(u, A, what);
}
template <class Concept, class From> void view(Src& s, const Case& c, const char* what) {
  typedef typename ctype<From>::T T; Shape A = c.A; if (!about<From>::holes) A.holes.clear(); if (!Range<T>::ok(A)) return; (void)s; const From f = make<From>(A); A = shape_of(f); if (!traits_of<Concept>::holes) A.holes.clear();
  measures<T, traits_of<Concept>::kind == 0>(bp::view_as<Concept>(f), c, A, what);
}
inline bool simple(const Ring& r) {
  size_t n = r.size(); if (n < 3) return false; auto on = [](const P& a, const P& b, const P& q) { return mem::on_segment(a, b, q); };
  for (size_t i = 0; i < n; ++i) { const P &a = r[i], &b = r[(i + 1) % n]; if (a == b || on(a, b, r[(i + 2) % n]) || on(b, r[(i + 2) % n], a)) return false;
    for (size_t j = i + 2; j < n; ++j) { if (i == 0 && j == n - 1) continue; const P &c = r[j], &d = r[(j + 1) % n]; if (on(a, b, c) || on(a, b, d) || on(c, d, a) || on(c, d, b)) return false; if (mem::sgn(mem::cross(a, b, c)) * mem::sgn(mem::cross(a, b, d)) < 0 && mem::sgn(mem::cross(c, d, a)) * mem::sgn(mem::cross(c, d, b)) < 0) return false; } }
  return true;
}
// generators: exact simple polygons with holes; hole boundaries may touch the outer one at vertices
inline Shape linear(const Shape& s, ll a, ll b, ll d, ll e) { return maps(s, [&](P q) { return P{a * q.x + b * q.y, d * q.x + e * q.y}; }); }
inline Case make_case(Src& s, int kind, ll lim) {
  Case c; c.kind = kind; bool holes = s.coin(); int how = kind == 2 ? s.irange(0, 2) : kind;
  if (how == 0) { c.A = gen::shape(s, gen::pool(s, lim), holes); }
  else if (how == 1) { tri::Lat l = tri::lattice(s, 8, kind == 1 ? lim : lim / 4); Shape t = tri::any_shape(s, l.G, holes); c.A = maps(t, [&](P q) { return P{l.ox + q.x * l.m, l.oy + q.y * l.m}; }); }
  else { arb::Frame f = arb::frame(s, lim); c.A.outer = arb::simple_star(s, f); if (!simple(c.A.outer)) c.A.outer = {P{f.lo, f.lo}, P{f.hi, f.lo}, P{f.hi, f.hi}}; }
  if (kind == 2 && how < 2 && s.chance(3, 4)) { ll k[4]; for (auto& x : k) x = s.around(-3, 3); if (k[0] * k[3] - k[1] * k[2] == 0) { k[0] = 1; k[3] = 1 + k[1] * k[2]; if (k[3] == 0) { k[2] = 0; k[3] = 1; } } Shape t = linear(c.A, k[0], k[1], k[2], k[3]); bool ok = true; for (auto& q : t.outer) if (q.x > lim || q.x < -lim || q.y > lim || q.y < -lim) ok = false; if (ok) c.A = t; }
  if (kind == 2 && how < 2) for (auto& h : c.A.holes) if (h.size() > 3 && s.coin()) { bool cw = false, ccw = false; for (size_t i = 0; i < h.size(); ++i) { P a = h[i], b = h[(i + 1) % h.size()], d = h[(i + 2) % h.size()]; __int128 z = (__int128)(b.x - a.x) * (d.y - b.y) - (__int128)(b.y - a.y) * (d.x - b.x); if (z > 0) ccw = true; else cw = true; } if (cw != ccw) h.erase(h.begin() + s.draw(h.size())); }  // a hole whose angles differ from the outer ring's
  if (kind == 2 && lim > 2147483646 && s.chance(1, 24)) { ll dx = s.range(1ll << 30, 3ll << 30), dy = (1ll << 32) - dx + (s.coin() ? 0 : s.around(-2, 2)), x = s.range(INT_MIN, INT_MAX - dx), y = s.range(INT_MIN, INT_MAX - dy); c.A.holes.clear(); c.A.outer = {P{x, y}, P{x + dx, y + dy}, P{x, y + dy}}; }  // differences that agree only modulo 2^32
  c.A = tri::vary(s, c.A); std::vector<Ring> all = c.A.holes; all.push_back(c.A.outer);
  ll xl = c.A.outer[0].x, xh = xl, yl = c.A.outer[0].y, yh = yl; for (auto& p : c.A.outer) { xl = std::min(xl, p.x); xh = std::max(xh, p.x); yl = std::min(yl, p.y); yh = std::max(yh, p.y); }
  for (int i = 0; i < 8; ++i) { const Ring& r = all[s.draw(all.size())]; size_t k = s.draw(r.size()); const P &a = r[k], &b = r[(k + 1) % r.size()], &d = r[s.draw(r.size())]; P q;
    switch (s.irange(0, 5)) { case 0: q = a; break; case 1: { ll g = std::llabs(b.x - a.x), h = std::llabs(b.y - a.y); while (h) { ll t = g % h; g = h; h = t; } ll m = s.range(0, g); q = P{a.x + (b.x - a.x) / g * m, a.y + (b.y - a.y) / g * m}; break; }
      case 2: q = P{a.x, d.y}; break; case 3: q = P{(a.x + b.x + d.x) / 3, (a.y + b.y + d.y) / 3}; break; case 4: q = P{s.range(xl - 1, xh + 1), s.coin() ? a.y : s.range(yl - 1, yh + 1)}; break; default: q = P{a.x + (b.x - a.x) / 2 + s.around(-1, 1), a.y + (b.y - a.y) / 2 + s.around(-1, 1)}; }
    q.x = std::min(std::max(q.x, (ll)INT_MIN), (ll)INT_MAX); q.y = std::min(std::max(q.y, (ll)INT_MIN), (ll)INT_MAX); c.q.push_back(q); }
  c.v = P{s.around(-100, 100), s.around(-100, 100)};
  s.notef([&](std::ostream& o) { show(o, c.A); o << " shift " << c.v; }); s.label("holes", !c.A.holes.empty()); s.nontrivial(c.A.outer.size() > 4); return c;
}
inline void real_points(Case& c) { c.A = maps(c.A, [](P p) { return P{p.x * 2, p.y * 2}; }); for (auto& q : c.q) { q.x *= 2; q.y *= 2; } c.v.x *= 2; c.v.y *= 2; }
}
#endif
