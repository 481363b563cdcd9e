// User-defined types that specialize the documented traits and keep the data
// their own way: points store y first, intervals the high end first,
// rectangles a corner and a size, polygons normalize what they are given
// (least vertex first, counterclockwise), sets iterate their own polygons.
#ifndef VERIF_OWN_HPP
#define VERIF_OWN_HPP
#include <boost/polygon/polygon.hpp>
#include <algorithm>
#include <deque>
#include <list>
#include <vector>
namespace own {
namespace bp = boost::polygon;
struct Pt { int yy, xx; };
struct Iv { int hi, lo; };
struct Rect { Pt corner; int w, h; };
struct Sg { Pt high, low; };
typedef std::vector<std::pair<int, int> > Ring;
inline long long area2(const Ring& r) { __int128 a = 0; for (size_t i = 0; i < r.size(); ++i) { auto &p = r[i], &q = r[(i + 1) % r.size()]; a += (__int128)p.first * q.second - (__int128)p.second * q.first; } return a > 0 ? 1 : a < 0 ? -1 : 0; }
// the normal form kept by the normalizing polygons
inline Ring normal(Ring r) { if (r.size() > 1 && r.front() == r.back()) r.pop_back(); if (area2(r) < 0) std::reverse(r.begin(), r.end()); if (!r.empty()) { size_t b = 0; for (size_t i = 1; i < r.size(); ++i) if (r[i] < r[b]) b = i; std::rotate(r.begin(), r.begin() + b, r.end()); } return r; }
template <class I> Ring ring(I b, I e) { Ring r; for (; b != e; ++b) r.push_back(std::make_pair((int)bp::x(*b), (int)bp::y(*b))); return r; }
// Manhattan: corner coordinates; Poly90 keeps them as given, Poly90H normalizes
struct Poly90 { std::deque<int> c; };
struct Poly90H { std::vector<int> c; std::deque<Poly90> holes; };
template <int K> struct Pg { std::deque<Pt> v; };                            // normalizes, winding known
template <int K> struct PgH { std::list<Pt> v; std::vector<Pg<K> > holes; };  // keeps the order given
struct Set90 { std::deque<Poly90H> d; };
struct Set90V { std::list<Rect> d; };  // reports the vertical scanline orientation
struct Set45 { std::deque<PgH<1> > d; };
struct SetG { std::deque<PgH<2> > d; };
inline std::vector<int> normal90(const std::vector<int>& c) { Ring r; size_t n = c.size(); for (size_t i = 0; i < n; ++i) { size_t a = i & 1 ? (i + 1) % n : i, b = i & 1 ? i : i + 1; r.push_back(std::make_pair(c[a], c[b])); }
  r = normal(r); std::vector<int> o; if (r.size() < 4) return o; if (r[0].second != r[1].second) std::rotate(r.begin(), r.begin() + 1, r.end()); for (size_t i = 0; i < r.size(); ++i) o.push_back(i & 1 ? r[i].second : r[i].first);
  // compact form: x of vertex 0, y of vertices 0 and 1, x of 1 and 2, ... wants edge 0-1 horizontal
  o.clear(); for (size_t i = 0; i < r.size(); i += 2) { o.push_back(r[i].first); o.push_back(r[i].second); } return o; }
}  // namespace own
namespace boost { namespace polygon {
#define CONCEPT(T, C) template <> struct geometry_concept<T> { typedef C type; };
CONCEPT(own::Pt, point_concept) CONCEPT(own::Iv, interval_concept) CONCEPT(own::Rect, rectangle_concept) CONCEPT(own::Sg, segment_concept)
CONCEPT(own::Poly90, polygon_90_concept) CONCEPT(own::Poly90H, polygon_90_with_holes_concept)
CONCEPT(own::Pg<1>, polygon_45_concept) CONCEPT(own::PgH<1>, polygon_45_with_holes_concept) CONCEPT(own::Pg<2>, polygon_concept) CONCEPT(own::PgH<2>, polygon_with_holes_concept)
CONCEPT(own::Set90, polygon_90_set_concept) CONCEPT(own::Set90V, polygon_90_set_concept) CONCEPT(own::Set45, polygon_45_set_concept) CONCEPT(own::SetG, polygon_set_concept)
#undef CONCEPT
template <> struct point_traits<own::Pt> { typedef int coordinate_type; static int get(const own::Pt& p, orientation_2d o) { return o == HORIZONTAL ? p.xx : p.yy; } };
template <> struct point_mutable_traits<own::Pt> { typedef int coordinate_type; static void set(own::Pt& p, orientation_2d o, int v) { (o == HORIZONTAL ? p.xx : p.yy) = v; } static own::Pt construct(int x, int y) { own::Pt p; p.xx = x; p.yy = y; return p; } };
template <> struct interval_traits<own::Iv> { typedef int coordinate_type; typedef own::Iv interval_type; static int get(const own::Iv& i, direction_1d d) { return d == LOW ? i.lo : i.hi; } };
template <> struct interval_mutable_traits<own::Iv> { typedef int coordinate_type; static void set(own::Iv& i, direction_1d d, int v) { (d == LOW ? i.lo : i.hi) = v; } static own::Iv construct(int l, int h) { own::Iv i; i.lo = std::min(l, h); i.hi = std::max(l, h); return i; } };
template <> struct rectangle_traits<own::Rect> { typedef int coordinate_type; typedef own::Iv interval_type; static own::Iv get(const own::Rect& r, orientation_2d o) { return o == HORIZONTAL ? interval_mutable_traits<own::Iv>::construct(r.corner.xx, r.corner.xx + r.w) : interval_mutable_traits<own::Iv>::construct(r.corner.yy, r.corner.yy + r.h); } };
template <> struct rectangle_mutable_traits<own::Rect> {
  template <class I> static void set(own::Rect& r, orientation_2d o, const I& i) { int a = get(i, LOW), b = get(i, HIGH); if (o == HORIZONTAL) { r.corner.xx = a; r.w = b - a; } else { r.corner.yy = a; r.h = b - a; } }
  template <class I, class J> static own::Rect construct(const I& h, const J& v) { own::Rect r; set(r, HORIZONTAL, h); set(r, VERTICAL, v); return r; } };
template <> struct segment_traits<own::Sg> { typedef int coordinate_type; typedef own::Pt point_type; static own::Pt get(const own::Sg& s, direction_1d d) { return d == LOW ? s.low : s.high; } };
template <> struct segment_mutable_traits<own::Sg> { typedef int coordinate_type; typedef own::Pt point_type; template <class P> static void set(own::Sg& s, direction_1d d, const P& p) { assign(d == LOW ? s.low : s.high, p); } template <class P, class Q> static own::Sg construct(const P& l, const Q& h) { own::Sg s; assign(s.low, l); assign(s.high, h); return s; } };
// Manhattan polygons
template <> struct polygon_90_traits<own::Poly90> { typedef int coordinate_type; typedef std::deque<int>::const_iterator compact_iterator_type; static compact_iterator_type begin_compact(const own::Poly90& t) { return t.c.begin(); } static compact_iterator_type end_compact(const own::Poly90& t) { return t.c.end(); } static std::size_t size(const own::Poly90& t) { return t.c.size(); } static winding_direction winding(const own::Poly90&) { return unknown_winding; } };
template <> struct polygon_90_mutable_traits<own::Poly90> { template <class I> static own::Poly90& set_compact(own::Poly90& t, I b, I e) { std::deque<int> n; for (; b != e; ++b) n.push_back(*b); t.c.swap(n); return t; } };
template <> struct polygon_90_traits<own::Poly90H> { typedef int coordinate_type; typedef std::vector<int>::const_iterator compact_iterator_type; static compact_iterator_type begin_compact(const own::Poly90H& t) { return t.c.begin(); } static compact_iterator_type end_compact(const own::Poly90H& t) { return t.c.end(); } static std::size_t size(const own::Poly90H& t) { return t.c.size(); } static winding_direction winding(const own::Poly90H&) { return counterclockwise_winding; } };
template <> struct polygon_90_mutable_traits<own::Poly90H> { template <class I> static own::Poly90H& set_compact(own::Poly90H& t, I b, I e) { std::vector<int> n; for (; b != e; ++b) n.push_back(*b); t.c = own::normal90(n); return t; } };
template <> struct polygon_with_holes_traits<own::Poly90H> { typedef std::deque<own::Poly90>::const_iterator iterator_holes_type; typedef own::Poly90 hole_type; static iterator_holes_type begin_holes(const own::Poly90H& t) { return t.holes.begin(); } static iterator_holes_type end_holes(const own::Poly90H& t) { return t.holes.end(); } static std::size_t size_holes(const own::Poly90H& t) { return t.holes.size(); } };
template <> struct polygon_with_holes_mutable_traits<own::Poly90H> { template <class I> static own::Poly90H& set_holes(own::Poly90H& t, I b, I e) { std::deque<own::Poly90> n; for (; b != e; ++b) { n.push_back(own::Poly90()); assign(n.back(), *b); } t.holes.swap(n); return t; } };
template <> struct polygon_mutable_traits<own::Poly90> { template <class I> static own::Poly90& set_points(own::Poly90& t, I b, I e) { return polygon_90_mutable_traits<own::Poly90>::set_compact(t, iterator_points_to_compact<I, own::Pt>(b, e), iterator_points_to_compact<I, own::Pt>(e, e)); } };
template <> struct polygon_mutable_traits<own::Poly90H> { template <class I> static own::Poly90H& set_points(own::Poly90H& t, I b, I e) { return polygon_90_mutable_traits<own::Poly90H>::set_compact(t, iterator_points_to_compact<I, own::Pt>(b, e), iterator_points_to_compact<I, own::Pt>(e, e)); } };
// polygons of other angles
template <> struct polygon_traits<own::Pg<1> > { typedef int coordinate_type; typedef std::deque<own::Pt>::const_iterator iterator_type; typedef own::Pt point_type; static iterator_type begin_points(const own::Pg<1>& t) { return t.v.begin(); } static iterator_type end_points(const own::Pg<1>& t) { return t.v.end(); } static std::size_t size(const own::Pg<1>& t) { return t.v.size(); } static winding_direction winding(const own::Pg<1>&) { return counterclockwise_winding; } };
template <> struct polygon_traits<own::Pg<2> > { typedef int coordinate_type; typedef std::deque<own::Pt>::const_iterator iterator_type; typedef own::Pt point_type; static iterator_type begin_points(const own::Pg<2>& t) { return t.v.begin(); } static iterator_type end_points(const own::Pg<2>& t) { return t.v.end(); } static std::size_t size(const own::Pg<2>& t) { return t.v.size(); } static winding_direction winding(const own::Pg<2>&) { return counterclockwise_winding; } };
template <int K> struct polygon_mutable_traits<own::Pg<K> > { template <class I> static own::Pg<K>& set_points(own::Pg<K>& t, I b, I e) { own::Ring r = own::normal(own::ring(b, e)); t.v.clear(); for (auto& p : r) t.v.push_back(point_mutable_traits<own::Pt>::construct(p.first, p.second)); return t; } };
template <> struct polygon_traits<own::PgH<1> > { typedef int coordinate_type; typedef std::list<own::Pt>::const_iterator iterator_type; typedef own::Pt point_type; static iterator_type begin_points(const own::PgH<1>& t) { return t.v.begin(); } static iterator_type end_points(const own::PgH<1>& t) { return t.v.end(); } static std::size_t size(const own::PgH<1>& t) { return t.v.size(); } static winding_direction winding(const own::PgH<1>&) { return unknown_winding; } };
template <> struct polygon_traits<own::PgH<2> > { typedef int coordinate_type; typedef std::list<own::Pt>::const_iterator iterator_type; typedef own::Pt point_type; static iterator_type begin_points(const own::PgH<2>& t) { return t.v.begin(); } static iterator_type end_points(const own::PgH<2>& t) { return t.v.end(); } static std::size_t size(const own::PgH<2>& t) { return t.v.size(); } static winding_direction winding(const own::PgH<2>&) { return unknown_winding; } };
template <int K> struct polygon_mutable_traits<own::PgH<K> > { template <class I> static own::PgH<K>& set_points(own::PgH<K>& t, I b, I e) { std::list<own::Pt> n; for (; b != e; ++b) { n.push_back(own::Pt()); assign(n.back(), *b); } t.v.swap(n); return t; } };
template <int K> struct polygon_with_holes_traits<own::PgH<K> > { typedef typename std::vector<own::Pg<K> >::const_iterator iterator_holes_type; typedef own::Pg<K> hole_type; static iterator_holes_type begin_holes(const own::PgH<K>& t) { return t.holes.begin(); } static iterator_holes_type end_holes(const own::PgH<K>& t) { return t.holes.end(); } static std::size_t size_holes(const own::PgH<K>& t) { return t.holes.size(); } };
template <int K> struct polygon_with_holes_mutable_traits<own::PgH<K> > { template <class I> static own::PgH<K>& set_holes(own::PgH<K>& t, I b, I e) { std::vector<own::Pg<K> > n; for (; b != e; ++b) { n.push_back(own::Pg<K>()); assign(n.back(), *b); } t.holes.swap(n); return t; } };
// sets, as the documentation's custom_polygon_set.cpp does it
#define SETTRAITS(T, I) typedef int coordinate_type; typedef I iterator_type; typedef T operator_arg_type; static iterator_type begin(const T& s) { return s.d.begin(); } static iterator_type end(const T& s) { return s.d.end(); } static bool clean(const T&) { return false; } static bool sorted(const T&) { return false; }
template <> struct polygon_90_set_traits<own::Set90> { SETTRAITS(own::Set90, std::deque<own::Poly90H>::const_iterator) static orientation_2d orient(const own::Set90&) { return HORIZONTAL; } };
template <> struct polygon_90_set_traits<own::Set90V> { SETTRAITS(own::Set90V, std::list<own::Rect>::const_iterator) static orientation_2d orient(const own::Set90V&) { return VERTICAL; } };
template <> struct polygon_45_set_traits<own::Set45> { SETTRAITS(own::Set45, std::deque<own::PgH<1> >::const_iterator) };
template <> struct polygon_set_traits<own::SetG> { SETTRAITS(own::SetG, std::deque<own::PgH<2> >::const_iterator) };
#undef SETTRAITS
template <> struct polygon_90_set_mutable_traits<own::Set90> { template <class I> static void set(own::Set90& s, I b, I e, orientation_2d o) { s.d.clear(); polygon_90_set_data<int> ps(o); ps.insert(b, e, o); ps.get(s.d); } };
template <> struct polygon_90_set_mutable_traits<own::Set90V> { template <class I> static void set(own::Set90V& s, I b, I e, orientation_2d o) { s.d.clear(); polygon_90_set_data<int> ps(o); ps.insert(b, e, o); ps.get_rectangles(s.d, VERTICAL); } };
template <> struct polygon_45_set_mutable_traits<own::Set45> { template <class I> static void set(own::Set45& s, I b, I e) { s.d.clear(); polygon_45_set_data<int> ps; ps.insert(b, e); ps.get(s.d); } };
template <> struct polygon_set_mutable_traits<own::SetG> { template <class I> static void set(own::SetG& s, I b, I e) { s.d.clear(); polygon_set_data<int> ps; ps.insert(b, e); ps.get(s.d); } };
} }
#endif
