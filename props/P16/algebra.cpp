// Points, isotropy types, axis transformations, scale factors and
// transformations against plain integer algebra.
#include "ivl.hpp"
#include <cmath>
namespace {
template <class T> struct Pin { T v[2]; };
struct P2 { W x, y; };
std::ostream& operator<<(std::ostream& o, const P2& p) { return o << "(" << (ll)p.x << "," << (ll)p.y << ")"; }
bool operator==(const P2& a, const P2& b) { return a.x == b.x && a.y == b.y; }
}
namespace boost { namespace polygon {
template <class T> struct geometry_concept<Pin<T> > { typedef point_concept type; };
template <class T> struct point_traits<Pin<T> > { typedef T coordinate_type; static T get(const Pin<T>& p, orientation_2d o) { return p.v[o == HORIZONTAL]; } };
template <class T> struct point_mutable_traits<Pin<T> > { typedef T coordinate_type; static void set(Pin<T>& p, orientation_2d o, T v) { p.v[o == HORIZONTAL] = v; } static Pin<T> construct(T x, T y) { Pin<T> p = {{y, x}}; return p; } };
} }
namespace {
template <class T, class P> P mk(const P2& p) { return bp::construct<P>(un<T>(p.x), un<T>(p.y)); }
template <class T, class P> P2 rd(const P& p) { return P2{re<T>(bp::x(p)), re<T>(bp::y(p))}; }
template <class T> bool fits(const P2& p) { return fits<T>(p.x) && fits<T>(p.y); }
#define SAME(what, obj, want) do { P2 g_ = rd<T>(obj), w_ = (want); CHECKM(g_ == w_, what << " of " << A << " and " << B << " value " << (ll)v << " is " << g_ << " instead of " << w_); } while (0)
#define IS(what, expr, want) do { auto g_ = (expr); auto w_ = (want); CHECKM(g_ == w_, what << " of " << A << " and " << B << " value " << (ll)v << " is " << g_ << " instead of " << w_); } while (0)
typedef bp::axis_transformation AT;
P2 map(int t, P2 p) { if (t & 1) p.x = -p.x; if (t & 2) p.y = -p.y; if (t & 4) std::swap(p.x, p.y); return p; }
template <class T> P2 pnt(Src& s, int mode) { return P2{coord<T>(s, mode), coord<T>(s, mode)}; }
template <class T, class P, class Q> void points(Src& s, const char* kind) {
  int mode = s.irange(0, 3); P2 A = pnt<T>(s, mode), B = pnt<T>(s, mode); if (s.chance(1, 4)) { if (s.coin()) B.x = A.x; else B.y = A.y; } if (s.chance(1, 8)) B = A; W v = coord<T>(s, mode);
  s.notef([&](std::ostream& o) { o << kind << " " << Kind<T>::name() << " " << A << " " << B << " value " << (ll)v; }); s.label(std::string(kind) + " " + Kind<T>::name()); s.nontrivial(A.x != B.x && A.y != B.y);
  const P a = mk<T, P>(A); const Q b = mk<T, Q>(B); T c = un<T>(v); typedef typename bp::coordinate_traits<T>::coordinate_difference D; const W unit = Kind<T>::unit;
  SAME("construct", a, A); IS("get", bp::get(a, bp::HORIZONTAL) == un<T>(A.x) && bp::get(a, bp::VERTICAL) == un<T>(A.y), true); IS("equivalence", bp::equivalence(a, b), A == B); { P t = a; bp::assign(t, b); SAME("assign", t, B); IS("equivalence of copies", bp::equivalence(t, b), true); }
  { P t = a; bp::x(t, c); SAME("x set", t, (P2{v, A.y})); bp::y(t, un<T>(B.y)); SAME("y set", t, (P2{v, B.y})); bp::set(t, bp::HORIZONTAL, un<T>(A.x)); bp::set(t, bp::VERTICAL, c); SAME("set", t, (P2{A.x, v})); }
  W dx = A.x > B.x ? A.x - B.x : B.x - A.x, dy = A.y > B.y ? A.y - B.y : B.y - A.y, lim = Kind<T>::real ? (sizeof(T) == 4 ? (W)1 << 24 : (W)1 << 52) : (W)1 << 62;
  IS("distance x", (W)(bp::euclidean_distance(a, b, bp::HORIZONTAL) * (D)unit) == dx, true); IS("distance y", (W)(bp::euclidean_distance(a, b, bp::VERTICAL) * (D)unit) == dy, true); if (dx + dy < lim) IS("manhattan_distance", (W)(bp::manhattan_distance(a, b) * (D)unit) == dx + dy, true);
  if (dx < ((W)1 << 32) && dy < ((W)1 << 32) && dx * dx + dy * dy < lim) IS("distance_squared", (W)(bp::distance_squared(a, b) * (D)(unit * unit)) == dx * dx + dy * dy, true); if (dx < lim && dy < lim) { double g = (double)bp::euclidean_distance(a, b) * unit, w = std::sqrt((double)dx * (double)dx + (double)dy * (double)dy); CHECKM(std::fabs(g - w) <= w * (sizeof(T) == 4 && Kind<T>::real ? 1e-6 : 1e-12), "euclidean_distance of " << A << " and " << B << " is " << g << " instead of " << w); }
  { T l = un<T>(A.x), m = un<T>(B.y); W d = A.x > B.y ? A.x - B.y : B.y - A.x; IS("distance of coordinates", (W)(bp::euclidean_distance(l, m) * (D)unit) == d, true); }
  auto op = [&](const char* what, const P2& w, auto f) { if (!fits<T>(w)) return; P t = a; f(t); SAME(what, t, w); };
  op("convolve", P2{A.x + B.x, A.y + B.y}, [&](P& t) { bp::convolve(t, b); }); op("deconvolve", P2{A.x - B.x, A.y - B.y}, [&](P& t) { bp::deconvolve(t, b); }); op("move x", P2{A.x + v, A.y}, [&](P& t) { bp::move(t, bp::HORIZONTAL, c); }); op("move y", P2{A.x, A.y + v}, [&](P& t) { bp::move(t, bp::VERTICAL, c); });
  { P t = a; if (fits<T>(P2{2 * A.x, 2 * A.y})) { bp::convolve(t, t); SAME("convolve with itself", t, (P2{2 * A.x, 2 * A.y})); } P u = a; bp::deconvolve(u, u); SAME("deconvolve with itself", u, (P2{0, 0})); }
  { int k = s.irange(1, 9); op("scale_up", P2{A.x * k, A.y * k}, [&](P& t) { bp::scale_up(t, (unsigned)k); }); auto fl = [](W n, W d) { W q = n / d; if (n % d < 0) --q; return q; }; bool exact = A.x % k == 0 && A.y % k == 0;
    if (!Kind<T>::real || exact) op("scale_down", Kind<T>::real ? P2{A.x / k, A.y / k} : P2{fl(2 * A.x + k, 2 * k), fl(2 * A.y + k, 2 * k)}, [&](P& t) { bp::scale_down(t, k); }); }
  { int m = s.irange(1, 64), n = s.irange(1, 64); auto sc = [&](W w, int f, bool& ok) -> W { if (w * f > ((W)1 << 50) || w * f < -((W)1 << 50)) ok = false; if (!Kind<T>::real) return (w * f + 8) >> 4; if (w * f % 16) ok = false; return w * f / 16; }; bool ok = true; P2 w{sc(A.x, m, ok), sc(A.y, n, ok)}; if (ok) op("scale", w, [&](P& t) { bp::anisotropic_scale_factor<double> f(m / 16.0, n / 16.0); bp::scale(t, f); }); }
  { int t = s.irange(0, 7); AT at((AT::ATR)t); if (Kind<T>::lo() < A.x && Kind<T>::lo() < A.y) op("axis transform", map(t, A), [&](P& q) { bp::transform(q, at); });
    P2 d{A.x - B.x, A.y - B.y}; bp::point_data<T> o(un<T>(B.x), un<T>(B.y)); if (fits<T>(d)) op("transform", map(t, d), [&](P& q) { bp::transformation<T> tr(at, o); bp::transform(q, tr); }); }
  // the order and members of point_data
  { typedef bp::point_data<T> D2; D2 p(un<T>(A.x), un<T>(A.y)), q; q = b; D2 r(b); bool lt = A.x < B.x || (A.x == B.x && A.y < B.y), eq = A == B; SAME("assignment", q, B); SAME("conversion", r, B); IS("<", p < q, lt); IS("<=", p <= q, lt || eq); IS(">", p > q, !lt && !eq); IS(">=", p >= q, !lt); IS("==", p == q, eq); IS("!=", p != q, !eq);
    q.x(p.x()); q.y(p.y()); IS("members", q == p && q.get(bp::HORIZONTAL) == p.x() && q.get(bp::VERTICAL) == p.y(), true); q.set(bp::VERTICAL, c); q.set(bp::HORIZONTAL, un<T>(B.y)); SAME("member set", q, (P2{B.y, v})); D2 u(q); SAME("copy", u, (P2{B.y, v})); }
}
}
PBT_TARGET(points, 1500000, 8000000) {
  switch (s.irange(0, 6)) {
    case 0: points<int, bp::point_data<int>, bp::point_data<int> >(s, "point_data"); break; case 1: points<int, Pin<int>, bp::point_data<int> >(s, "own and data"); break; case 2: points<int, bp::point_data<int>, Pin<int> >(s, "data and own"); break; case 3: points<ll, bp::point_data<ll>, Pin<ll> >(s, "data and own"); break;
    case 4: points<double, Pin<double>, Pin<double> >(s, "own"); break; case 5: points<float, bp::point_data<float>, bp::point_data<float> >(s, "point_data"); break; default: points<double, bp::point_data<double>, Pin<double> >(s, "data and own"); }
}
// axis transformations, scale factors and transformations as maps
PBT_TARGET(maps, 800000, 4000000) {
  typedef int T; int i = s.irange(0, 7), j = s.irange(0, 7); W v = 0; P2 A{s.around(-1000, 1000), s.around(-1000, 1000)}, B{s.around(-1000, 1000), s.around(-1000, 1000)}, C{s.around(-1000, 1000), s.around(-1000, 1000)}; AT a((AT::ATR)i), b((AT::ATR)j);
  s.notef([&](std::ostream& o) { o << "axis transformations " << i << " " << j << " point " << A << " shifts " << B << " " << C; }); s.nontrivial(i && j && i != j && A.x != A.y && A.x && A.y);
  auto app = [](const AT& t, P2 p) { int x = (int)p.x, y = (int)p.y; t.transform(x, y); return P2{x, y}; }; auto same = [&](const char* what, P2 g, P2 w) { CHECKM(g == w, what << " of axis transformations " << i << " and " << j << " takes " << A << " to " << g << " instead of " << w << " (shifts " << B << " " << C << ")"); };
  same("transform", app(a, A), map(i, A)); same("sum", app(a + b, A), map(j, map(i, A))); { AT t = a; t += b; CHECK(t == a + b && !(t != a + b)); same("+=", app(t, A), map(j, map(i, A))); } same("inverse", app(a.inverse(), map(i, A)), A); same("inverse first", map(i, app(a.inverse(), A)), A); { AT t = a; t.invert(); CHECK(t == a.inverse()); CHECK((a + t) == AT() && (t + a) == AT(AT::EAST_NORTH)); }
  CHECK((a == b) == (i == j) && (a != b) == (i != j) && (a < b) == (i < j)); { AT t; t = (AT::ATR)i; CHECK(t == a); t = b; CHECK(t == b); AT u(a); CHECK(u == a); }
  auto unit = [](bp::direction_2d d) { return P2{d == bp::EAST ? 1 : d == bp::WEST ? -1 : 0, d == bp::NORTH ? 1 : d == bp::SOUTH ? -1 : 0}; };
  { bp::direction_2d h, k; a.get_directions(h, k); same("horizontal direction", unit(h), map(i, P2{1, 0})); same("vertical direction", unit(k), map(i, P2{0, 1})); AT t(b); t.set_directions(h, k); CHECK(t == a); }
  { AT::INDIVIDUAL_AXIS ia[2], ib[2]; a.populate_axis_array(ia); b.populate_axis_array(ib); auto ax = [](AT::INDIVIDUAL_AXIS d) { return P2{d == AT::PX ? 1 : d == AT::NX ? -1 : 0, d == AT::PY ? 1 : d == AT::NY ? -1 : 0}; }; same("axis 0", ax(ia[0]), map(i, P2{1, 0})); same("axis 1", ax(ia[1]), map(i, P2{0, 1})); AT t(b); t.write_back_axis_array(ia); CHECK(t == a); AT::combine_axis_arrays(ia, ib); t.write_back_axis_array(ia); CHECKM(t == a + b, "combine_axis_arrays of " << i << " and " << j << " is not the sum"); }
  { bp::direction_2d d((bp::direction_2d_enum)(j & 3)); same("made from a direction", app(AT(d), unit(d)), P2{0, 1}); bp::orientation_2d o((bp::orientation_2d_enum)(j & 1)); P2 u = app(AT(o), j & 1 ? P2{0, 1} : P2{1, 0}); CHECK(u.x == 0 && (u.y == 1 || u.y == -1)); }
  // scale factors
  { typedef bp::anisotropic_scale_factor<double> F; int m = s.irange(1, 64), n = s.irange(1, 64), k = s.irange(1, 8), l = s.irange(1, 8); F f(m / 16.0, n / 16.0), g; CHECK(g.x() == 1 && g.y() == 1); g.x(k); g.y(l); CHECK(g.get(bp::HORIZONTAL) == k && g.get(bp::VERTICAL) == l); F h = f + g; CHECK(h.x() == f.x() * k && h.y() == f.y() * l); F e = f; e += g; CHECK(e.x() == h.x() && e.y() == h.y()); e.set(bp::VERTICAL, 3); e.set(bp::HORIZONTAL, 5); CHECK(e.y() == 3 && e.x() == 5);
    F inv = f; inv.invert(); CHECK(inv.x() == 1 / f.x() && inv.y() == 1 / f.y()); int x = (int)A.x, y = (int)A.y; f.scale(x, y); same("scale", P2{x, y}, P2{(A.x * m + 8) >> 4, (A.y * n + 8) >> 4});
    F t = g; t.transform(a); int p = (int)A.x * k, q = (int)A.y * l; P2 want = map(i, P2{p, q}), at = map(i, A); int tx = (int)at.x, ty = (int)at.y; t.scale(tx, ty); same("transformed scale", P2{tx, ty}, want); double xx = 1.0 * (double)A.x, yy = (double)A.y; f.scale(xx, yy); CHECK(xx == (double)A.x * f.x() && yy == (double)A.y * f.y()); }
  // transformations: scaled, displaced axis maps
  { typedef bp::transformation<int> R; typedef bp::point_data<int> P; auto ap = [](const R& r, P2 p) { int x = (int)p.x, y = (int)p.y; r.transform(x, y); return P2{x, y}; }; P pb((int)B.x, (int)B.y), pc((int)C.x, (int)C.y); auto mp = [&](int t, P2 o, P2 p) { return map(t, P2{p.x - o.x, p.y - o.y}); };
    R r(a, pb), q(b, pc); same("transformation", ap(r, A), mp(i, B, A)); same("sum of transformations", ap(r + q, A), mp(j, C, mp(i, B, A))); { R t = r; t += q; CHECK(t == r + q && !(t != r + q)); same("sum in place", ap(t, A), mp(j, C, mp(i, B, A))); } same("inverse transformation", ap(r.inverse(), mp(i, B, A)), A); same("inverse transformation first", mp(i, B, ap(r.inverse(), A)), A); { R t = r; t.invert(); CHECK(t == r.inverse()); R u = r + t; CHECK(u == R()); }
    same("axis transformation only", ap(R(a), A), map(i, A)); same("axis enum only", ap(R((AT::ATR)i), A), map(i, A)); same("shift only", ap(R(pb), A), P2{A.x - B.x, A.y - B.y}); same("identity", ap(R(), A), A); { R t(q); CHECK(t == q); t.set_axis_transformation(a); t.set_translation(pb); CHECK(t == r); CHECK(t.get_axis_transformation() == a); P o; t.get_translation(o); CHECK(o == pb); bp::direction_2d h, k, h2, k2; t.get_directions(h, k); a.get_directions(h2, k2); CHECK(h == h2 && k == k2); }
    { R t(a, pb, pc); P2 m = map(i, P2{A.x - B.x, A.y - B.y}); same("about a reference point", ap(t, A), P2{m.x + C.x, m.y + C.y}); } CHECK((r < q) == (i < j || (i == j && (B.x < C.x || (B.x == C.x && B.y < C.y))))); CHECK((r == q) == (i == j && B == C)); }
}
// isotropy types, all values
PBT_TARGET(isotropy, 40000, 200000) {
  using namespace boost::polygon; int d = s.irange(0, 5), e = s.irange(0, 5); s.nontrivial(d != e); s.notef([&](std::ostream& o) { o << "directions " << d << " " << e; });
  direction_3d d3 = d < 4 ? direction_3d((direction_2d_enum)d) : direction_3d((direction_3d_enum)d), e3 = e < 4 ? direction_3d((direction_2d_enum)e) : direction_3d((direction_3d_enum)e);
  CHECK((int)d3.to_int() == d && d3.is_positive() == (d % 2 == 1) && d3.is_negative() == (d % 2 == 0) && d3.get_sign() == (d % 2 ? 1 : -1) && (int)d3.backward().to_int() == (d ^ 1) && d3.backward().backward() == d3); CHECK((d3 == e3) == (d == e) && (d3 != e3) == (d != e) && (d3 < e3) == (d < e) && (d3 <= e3) == (d <= e) && (d3 > e3) == (d > e) && (d3 >= e3) == (d >= e));
  CHECK(direction_1d(d3).to_int() == (unsigned)(d & 1) && orientation_3d(d3).to_int() == (unsigned)(d >> 1)); CHECK(direction_3d() == direction_3d(WEST)); { direction_3d t; t = e3; CHECK(t == e3); direction_3d u(t); CHECK(u == e3); }
  { orientation_3d o(d3), q(e3); CHECK((o == q) == (d / 2 == e / 2) && (o != q) == (d / 2 != e / 2)); CHECK(o.get_direction(direction_1d(d3)) == d3); orientation_3d t; CHECK(t == orientation_3d(orientation_2d(HORIZONTAL))); t = q; CHECK(t == q); orientation_3d u(t); CHECK(u == q); CHECK(orientation_3d(PROXIMAL).to_int() == 2); }
  direction_1d l((direction_1d_enum)(d & 1)), m((direction_1d_enum)(e & 1)); CHECK(l.get_sign() == (d & 1 ? 1 : -1) && (int)l.to_int() == (d & 1) && (l == m) == ((d & 1) == (e & 1)) && (l != m) == ((d & 1) != (e & 1))); { direction_1d t = l; t.backward(); CHECK(t != l && t.get_sign() == -l.get_sign()); t.backward(); CHECK(t == l); t = m; CHECK(t == m); CHECK(direction_1d() == direction_1d(LOW)); }
  orientation_2d o((orientation_2d_enum)(d & 1)), q((orientation_2d_enum)(e & 1)); CHECK((int)o.to_int() == (d & 1) && (o == q) == ((d & 1) == (e & 1)) && (o != q) == ((d & 1) != (e & 1)) && o.get_perpendicular() != o && o.get_perpendicular().get_perpendicular() == o); { orientation_2d t = o; t.turn_90(); CHECK(t == o.get_perpendicular()); t = q; CHECK(t == q); CHECK(orientation_2d() == orientation_2d(HORIZONTAL)); CHECK(orientation_3d(o).to_int() == o.to_int()); }
  if (d < 4) { direction_2d a((direction_2d_enum)d); CHECK((int)a.to_int() == d && a.is_positive() == (a == EAST || a == NORTH) && a.is_negative() == (a == WEST || a == SOUTH) && a.get_sign() == (a == EAST || a == NORTH ? 1 : -1)); int x[4] = {-1, 1, 0, 0}, y[4] = {0, 0, -1, 1}; auto vec = [&](direction_2d t, int u, int w) { return x[t.to_int()] == u && y[t.to_int()] == w; };
    CHECK(vec(a.backward(), -x[d], -y[d])); CHECKM(vec(a.left(), -y[d], x[d]), "left of direction " << d); CHECKM(vec(a.right(), y[d], -x[d]), "right of direction " << d); CHECKM(vec(a.turn(COUNTERCLOCKWISE), -y[d], x[d]) && vec(a.turn(CLOCKWISE), y[d], -x[d]), "turn of direction " << d);
    CHECK(orientation_2d(a) == (d < 2 ? HORIZONTAL : VERTICAL) && direction_1d(a) == (d & 1 ? HIGH : LOW) && orientation_2d(a).get_direction(direction_1d(a)) == a && direction_3d(a).to_int() == a.to_int()); CHECK(orientation_3d(a).to_int() == orientation_2d(a).to_int());
    if (e < 4) { direction_2d b((direction_2d_enum)e); CHECK((a == b) == (d == e) && (a != b) == (d != e) && (a < b) == (d < e) && (a <= b) == (d <= e) && (a > b) == (d > e) && (a >= b) == (d >= e)); direction_2d t; CHECK(t == WEST); t = b; CHECK(t == b); direction_2d u(t); CHECK(u == b); } }
}
PBT_KNOWN(turn_low_right) { using namespace boost::polygon; direction_2d e(EAST); CHECKM(e.turn(LEFT) == NORTH, "turn(LOW) of EAST, documented as left, is direction " << e.turn(LEFT).to_int()); }
