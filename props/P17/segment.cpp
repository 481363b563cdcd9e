// Segment predicates against exact wide-integer geometry, measures against
// quadruple precision, operations against their effect on both end points.
#include "ivl.hpp"
#include <cmath>

namespace {
typedef __float128 Q;
struct P2 { W x, y; };
bool operator==(const P2& a, const P2& b) { return a.x == b.x && a.y == b.y; }
bool operator!=(const P2& a, const P2& b) { return !(a == b); }
bool operator<(const P2& a, const P2& b) { return a.x < b.x || (a.x == b.x && a.y < b.y); }
struct Sg { P2 l, h; };
std::ostream& operator<<(std::ostream& o, const P2& p) { return o << "(" << (ll)p.x << "," << (ll)p.y << ")"; }
std::ostream& operator<<(std::ostream& o, const Sg& s) { return o << s.l << "-" << s.h; }
bool operator==(const Sg& a, const Sg& b) { return a.l == b.l && a.h == b.h; }
template <class T> struct Pair { bp::point_data<T> ends[2]; };  // a user model, ends stored in reverse
}
namespace boost { namespace polygon {
template <class T> struct geometry_concept<Pair<T> > { typedef segment_concept type; };
template <class T> struct segment_traits<Pair<T> > { typedef T coordinate_type; typedef point_data<T> point_type; static point_type get(const Pair<T>& s, direction_1d d) { return s.ends[1 - d.to_int()]; } };
template <class T> struct segment_mutable_traits<Pair<T> > { typedef T coordinate_type; typedef point_data<T> point_type; static void set(Pair<T>& s, direction_1d d, const point_type& p) { s.ends[1 - d.to_int()] = p; } static Pair<T> construct(const point_type& l, const point_type& h) { Pair<T> s = {{h, l}}; return s; } };
} }
namespace {
template <class T> bp::point_data<T> pt(const P2& p) { return bp::point_data<T>(un<T>(p.x), un<T>(p.y)); }
template <class T, class S> S mk(const Sg& s) { return bp::construct<S>(pt<T>(s.l), pt<T>(s.h)); }
template <class T, class S> Sg rd(const S& s) { auto l = bp::low(s), h = bp::high(s); return Sg{{re<T>(bp::x(l)), re<T>(bp::y(l))}, {re<T>(bp::x(h)), re<T>(bp::y(h))}}; }
template <class T> bool fits(const Sg& s) { return fits<T>(s.l.x) && fits<T>(s.l.y) && fits<T>(s.h.x) && fits<T>(s.h.y); }
#define SAME(what, obj, want) do { Sg g_ = rd<T>(obj), w_ = (want); CHECKM(g_ == w_, what << " of " << A << " and " << B << " point " << p << " is " << g_ << " instead of " << w_); } while (0)
#define IS(what, expr, want) do { auto g_ = (expr); auto w_ = (want); CHECKM(g_ == w_, what << " of " << A << " and " << B << " point " << p << " is " << g_ << " instead of " << w_); } while (0)
int sg(W v) { return v < 0 ? -1 : v > 0; }
W cross(const P2& a, const P2& b, const P2& c, const P2& d) { return (b.x - a.x) * (d.y - c.y) - (b.y - a.y) * (d.x - c.x); }
W dot(const P2& a, const P2& b, const P2& c, const P2& d) { return (b.x - a.x) * (d.x - c.x) + (b.y - a.y) * (d.y - c.y); }
bool on(const Sg& s, const P2& p) { return cross(s.l, s.h, s.l, p) == 0 && dot(p, s.l, p, s.h) <= 0; }
// closed segments share a point
bool meet(const Sg& a, const Sg& b) {
  if (on(a, b.l) || on(a, b.h) || on(b, a.l) || on(b, a.h)) return true;
  return sg(cross(a.l, a.h, a.l, b.l)) * sg(cross(a.l, a.h, a.l, b.h)) < 0 && sg(cross(b.l, b.h, b.l, a.l)) * sg(cross(b.l, b.h, b.l, a.h)) < 0;
}
// they share a point that is not an end of both: a crossing, an end inside the other one, or a stretch
bool more_than_touch(const Sg& a, const Sg& b) {
  auto end = [](const Sg& s, const P2& p) { return p == s.l || p == s.h; };
  for (const P2& p : {b.l, b.h}) if (on(a, p) && !end(a, p)) return true;
  for (const P2& p : {a.l, a.h}) if (on(b, p) && !end(b, p)) return true;
  if (a.l != a.h && ((a.l == b.l && a.h == b.h) || (a.l == b.h && a.h == b.l))) return true;
  return !(on(a, b.l) || on(a, b.h) || on(b, a.l) || on(b, a.h)) && meet(a, b);
}
Q dist(const P2& a, const P2& b) { Q x = (Q)(a.x - b.x), y = (Q)(a.y - b.y); return (Q)sqrtl((long double)(x * x + y * y)); }
Q dist(const Sg& s, const P2& p) { W d = dot(s.l, s.h, s.l, p), n = dot(s.l, s.h, s.l, s.h); if (n == 0 || d <= 0) return dist(s.l, p); if (d >= n) return dist(s.h, p); W c = cross(s.l, s.h, s.l, p); return (Q)(c < 0 ? -c : c) / (Q)sqrtl((long double)n); }
Q dist(const Sg& a, const Sg& b) { if (meet(a, b)) return 0; Q r = dist(a, b.l); for (Q t : {dist(a, b.h), dist(b, a.l), dist(b, a.h)}) if (t < r) r = t; return r; }
template <class T> W crd(Src& s, int mode) { W v = coord<T>(s, mode); if (!Kind<T>::real && sizeof(T) == 8) while (v > (1LL << 30) || v < -(1LL << 30)) v /= 2; if (Kind<T>::real) while (v > (1LL << 21) || v < -(1LL << 21)) v = v / 4 * 2; return v; }
template <class T> P2 pnt(Src& s, int mode) { W x = crd<T>(s, mode), y = crd<T>(s, mode); return P2{x, y}; }
template <class T> bool ok(const P2& p) { W lim = Kind<T>::real ? (W)1 << 21 : sizeof(T) == 8 ? (W)1 << 30 : (W)1 << 62; return fits<T>(p.x) && fits<T>(p.y) && p.x <= lim && p.y <= lim && p.x >= -lim && p.y >= -lim; }
// a point on the line of a segment with integral position, if there is room
template <class T> P2 along(Src& s, const Sg& a, int mode) {
  W dx = a.h.x - a.l.x, dy = a.h.y - a.l.y, g = dx < 0 ? -dx : dx, h = dy < 0 ? -dy : dy; while (h) { W t = g % h; g = h; h = t; } if (g == 0) return a.l; if (Kind<T>::real && g % 2 == 0) g /= 2;
  W k = s.chance(1, 4) ? s.around(-2, 2) : (W)s.range(0, (ll)(g > 1000000 ? 1000000 : g)); if (s.chance(1, 4)) k = g - k; P2 p{a.l.x + dx / g * k, a.l.y + dy / g * k}; return ok<T>(p) ? p : pnt<T>(s, mode);
}
template <class T, class S, class R> void run(Src& s, const char* kind) {
  int mode = s.irange(0, 3); Sg A{pnt<T>(s, mode), pnt<T>(s, mode)}; if (s.chance(1, 16)) A.h = A.l; Sg B; P2* q[2] = {&B.l, &B.h};
  for (int i = 0; i < 2; ++i) switch (s.weighted({4, 3, 2})) { case 0: *q[i] = pnt<T>(s, mode); break; case 1: *q[i] = along<T>(s, A, mode); break; default: *q[i] = s.coin() ? A.l : A.h; } if (s.chance(1, 20)) B.h = B.l;
  P2 p; switch (s.weighted({4, 3, 2, 2})) { case 0: p = pnt<T>(s, mode); break; case 1: p = along<T>(s, A, mode); break; case 2: p = s.coin() ? A.l : A.h; break; default: p = along<T>(s, A, mode); if (s.coin()) ++p.x; else ++p.y; if (Kind<T>::real) { p.x &= ~(W)1; p.y &= ~(W)1; } if (!ok<T>(p)) p = A.l; }
  s.notef([&](std::ostream& o) { o << kind << " " << Kind<T>::name() << " " << A << " " << B << " point " << p; }); s.label(std::string(kind) + " " + Kind<T>::name()); bool proper = A.l != A.h && B.l != B.h, m = meet(A, B); s.nontrivial(proper && !(A == B)); s.label("meet", m); s.label("degenerate", !proper);
  const S a = mk<T, S>(A); const R b = mk<T, R>(B); const bp::point_data<T> c = pt<T>(p); const W unit = Kind<T>::unit; auto rev = [](const Sg& g) { return Sg{g.h, g.l}; };
  // access
  SAME("construct", a, A); SAME("copy_construct", bp::copy_construct<S>(b), B); { S t = a; bp::assign(t, b); SAME("assign", t, B); IS("equivalence of copies", bp::equivalence(t, b), true); t = a; bp::low(t, c); SAME("low set", t, (Sg{p, A.h})); bp::high(t, c); SAME("high set", t, (Sg{p, p})); bp::set(t, bp::LOW, pt<T>(A.l)); bp::set(t, bp::HIGH, pt<T>(A.h)); SAME("set", t, A); } IS("equivalence", bp::equivalence(a, b), A == B);
  IS("get", bp::get(a, bp::LOW) == pt<T>(A.l) && bp::get(a, bp::HIGH) == pt<T>(A.h), true);
  { auto ce = bp::center(a); W ex = 2 * re<T>(bp::x(ce)) - A.l.x - A.h.x, ey = 2 * re<T>(bp::y(ce)) - A.l.y - A.h.y; CHECKM(ex >= -1 && ex <= 1 && ey >= -1 && ey <= 1, "center of " << A << " is " << (P2{re<T>(bp::x(ce)), re<T>(bp::y(ce))})); }
  // predicates
  int want = sg(cross(A.l, A.h, A.l, p)); IS("orientation of point", bp::orientation(a, c), want); IS("orientation of point seen reversed", bp::orientation(mk<T, S>(rev(A)), c), -want);
  want = sg(cross(A.l, A.h, B.l, B.h)); IS("orientation", bp::orientation(a, b), want); IS("orientation swapped", bp::orientation(b, a), -want); IS("orientation reversed", bp::orientation(a, mk<T, R>(rev(B))), -want);
  bool in = on(A, p), strict = in && p != A.l && p != A.h; IS("contains point", bp::contains(a, c), in); IS("contains point with touch", bp::contains(a, c, true), in); IS("contains point without touch", bp::contains(a, c, false), strict);
  bool inl = on(A, B.l), inh = on(A, B.h), sl = inl && B.l != A.l && B.l != A.h, sh = inh && B.h != A.l && B.h != A.h; IS("contains", bp::contains(a, b), inl && inh); IS("contains with touch", bp::contains(a, b, true), inl && inh); IS("contains without touch", bp::contains(a, b, false), sl && sh);
  IS("abuts HIGH", bp::abuts(a, b, bp::HIGH), A.h == B.l); IS("abuts LOW", bp::abuts(a, b, bp::LOW), A.l == B.h); IS("abuts", bp::abuts(a, b), A.h == B.l || A.l == B.h);
  for (int k = 0; k < 4; ++k) { S u = mk<T, S>(k & 1 ? rev(A) : A); R v = mk<T, R>(k & 2 ? rev(B) : B); IS("intersects", bp::intersects(u, v), m); IS("intersects with touch", bp::intersects(v, u, true), m); bool w = more_than_touch(A, B); IS("intersects without touch", bp::intersects(u, v, false), w); IS("intersects without touch swapped", bp::intersects(v, u, false), w); }
  // measures: squares of distances must fit the difference type
  auto small = [](const P2& u, const P2& v) { W x = u.x - v.x, y = u.y - v.y; return x * x + y * y < ((W)1 << 62); }; auto near = [&](const char* what, long double g, Q w) { Q d = (Q)g * (Q)unit - w; if (d < 0) d = -d; CHECKM(d <= w * (Q)1e-12 && (w != 0 || g == 0), what << " of " << A << " and " << B << " point " << p << " is " << (double)g << " instead of " << (double)(w / unit)); };
  if (small(A.l, A.h)) near("length", bp::length(a), dist(A.l, A.h)); if (small(A.l, p) && small(A.h, p)) near("distance to point", bp::euclidean_distance(a, c), dist(A, p));
  if (small(A.l, B.l) && small(A.l, B.h) && small(A.h, B.l) && small(A.h, B.h)) { near("distance", bp::euclidean_distance(a, b), dist(A, B)); near("distance swapped", bp::euclidean_distance(b, a), dist(A, B)); near("distance reversed", bp::euclidean_distance(a, mk<T, R>(rev(B))), dist(A, B)); }
  // operations act on both ends
  auto op = [&](const char* what, const Sg& w, auto f) { if (!fits<T>(w)) return; S t = a; f(t); SAME(what, t, w); }; auto each = [&](auto f) { Sg r{f(A.l), f(A.h)}; return r; };
  op("convolve", each([&](P2 e) { return P2{e.x + p.x, e.y + p.y}; }), [&](S& t) { bp::convolve(t, c); }); op("deconvolve", each([&](P2 e) { return P2{e.x - p.x, e.y - p.y}; }), [&](S& t) { bp::deconvolve(t, c); });
  op("move x", each([&](P2 e) { return P2{e.x + p.x, e.y}; }), [&](S& t) { bp::move(t, bp::HORIZONTAL, un<T>(p.x)); }); op("move y", each([&](P2 e) { return P2{e.x, e.y + p.y}; }), [&](S& t) { bp::move(t, bp::VERTICAL, un<T>(p.y)); });
  { int k = s.irange(1, 9); auto fl = [](W n, W d) { W q = n / d; if (n % d < 0) --q; return q; }; op("scale_up", each([&](P2 e) { return P2{e.x * k, e.y * k}; }), [&](S& t) { bp::scale_up(t, k); }); if (!Kind<T>::real) op("scale_down", each([&](P2 e) { return P2{fl(2 * e.x + k, 2 * k), fl(2 * e.y + k, 2 * k)}; }), [&](S& t) { bp::scale_down(t, k); }); else if (A.l.x % k == 0 && A.l.y % k == 0 && A.h.x % k == 0 && A.h.y % k == 0) op("scale_down", each([&](P2 e) { return P2{e.x / k, e.y / k}; }), [&](S& t) { bp::scale_down(t, k); }); }
  if (!Kind<T>::real) { int i = s.irange(1, 64), j = s.irange(1, 64); op("scale", each([&](P2 e) { return P2{(e.x * i + 8) >> 4, (e.y * j + 8) >> 4}; }), [&](S& t) { bp::anisotropic_scale_factor<double> f(i / 16.0, j / 16.0); bp::scale(t, f); }); }
  { int k = s.irange(0, 7); bp::axis_transformation at((bp::axis_transformation::ATR)k); bp::transformation<T> tr(at, c); auto map = [&](P2 e) { if (k & 1) e.x = -e.x; if (k & 2) e.y = -e.y; if (k & 4) std::swap(e.x, e.y); return e; }; if (Kind<T>::lo() < A.l.x && Kind<T>::lo() < A.l.y && Kind<T>::lo() < A.h.x && Kind<T>::lo() < A.h.y) op("axis transform", each(map), [&](S& t) { bp::transform(t, at); });
    Sg d = each([&](P2 e) { return P2{e.x - p.x, e.y - p.y}; }); if (fits<T>(d)) op("transform", Sg{map(d.l), map(d.h)}, [&](S& t) { bp::transform(t, tr); }); }
  // the order and members of segment_data
  { typedef bp::segment_data<T> D; D u = mk<T, D>(A), v; v = b; SAME("assignment", v, B); bool lt = A.l < B.l || (A.l == B.l && A.h < B.h), eq = A == B; IS("<", u < v, lt); IS("<=", u <= v, lt || eq); IS(">", u > v, !lt && !eq); IS(">=", u >= v, !lt); IS("==", u == v, eq); IS("!=", u != v, !eq); D w(u); v = w; SAME("copy", v, A); v.low(c).high(pt<T>(A.l)); SAME("members", v, (Sg{p, A.l})); v.set(bp::LOW, v.get(bp::HIGH)); v.set(bp::HIGH, c); SAME("member set", v, (Sg{A.l, p})); }
}
}
PBT_TARGET(functions, 1500000, 8000000) {
  switch (s.irange(0, 5)) {
    case 0: run<int, bp::segment_data<int>, bp::segment_data<int> >(s, "segment_data"); break; case 1: run<int, Pair<int>, bp::segment_data<int> >(s, "own and data"); break; case 2: run<int, bp::segment_data<int>, Pair<int> >(s, "data and own"); break; case 3: run<ll, bp::segment_data<ll>, bp::segment_data<ll> >(s, "segment_data"); break;
    case 4: run<double, bp::segment_data<double>, Pair<double> >(s, "data and own"); break; default: run<int, bp::segment_data<int>, bp::segment_data<int> >(s, "segment_data"); }
}
