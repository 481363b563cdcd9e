// Rectangle functions against per-axis models on wide integers and point-set
// definitions, for library and user-defined rectangle types.
#include "ivl.hpp"
#include <cmath>
namespace {
template <class T> struct Box { T left, bottom, right, top; };
struct Bx { Ivl x, y; };
std::ostream& operator<<(std::ostream& o, const Bx& b) { return o << b.x << "x" << b.y; }
bool operator==(const Bx& a, const Bx& b) { return a.x == b.x && a.y == b.y; }
}
namespace boost { namespace polygon {
template <class T> struct geometry_concept<Box<T> > { typedef rectangle_concept type; };
template <class T> struct rectangle_traits<Box<T>, gtl_yes> { typedef T coordinate_type; typedef interval_data<T> interval_type; static interval_type get(const Box<T>& b, orientation_2d o) { return o == HORIZONTAL ? interval_type(b.left, b.right) : interval_type(b.bottom, b.top); } };
template <class T> struct rectangle_mutable_traits<Box<T> > {
  template <class I> static void set(Box<T>& b, orientation_2d o, const I& i) { if (o == HORIZONTAL) { b.left = low(i); b.right = high(i); } else { b.bottom = low(i); b.top = high(i); } }
  template <class I, class J> static Box<T> construct(const I& h, const J& v) { Box<T> b = {low(h), low(v), high(h), high(v)}; return b; } };
} }
namespace {
template <class T, class R> R mk(const Bx& b) { return bp::construct<R>(un<T>(b.x.l), un<T>(b.y.l), un<T>(b.x.h), un<T>(b.y.h)); }
template <class T, class R> Bx rd(const R& r) { auto h = bp::get(r, bp::HORIZONTAL); auto v = bp::get(r, bp::VERTICAL); return Bx{{re<T>(bp::low(h)), re<T>(bp::high(h))}, {re<T>(bp::low(v)), re<T>(bp::high(v))}}; }
template <class T> bool fits(const Bx& b) { return fits<T>(b.x) && fits<T>(b.y) && b.x.l <= b.x.h && b.y.l <= b.y.h; }
#define SAME(what, obj, want) do { Bx g_ = rd<T>(obj), w_ = (want); CHECKM(g_ == w_, what << " of " << A << " and " << B << " point " << (ll)px << "," << (ll)py << " is " << g_ << " instead of " << w_); } while (0)
#define IS(what, expr, want) do { auto g_ = (expr); auto w_ = (want); CHECKM(g_ == w_, what << " of " << A << " and " << B << " point " << (ll)px << "," << (ll)py << " is " << g_ << " instead of " << w_); } while (0)
bool meet(const Ivl& a, const Ivl& b, bool t) { return t ? a.l <= b.h && b.l <= a.h : a.l < b.h && b.l < a.h; }
bool has(const Ivl& a, const Ivl& b, bool t) { return t ? a.l <= b.l && b.h <= a.h : a.l < b.l && b.h < a.h; }
bool has(const Ivl& a, W p, bool t) { return t ? a.l <= p && p <= a.h : a.l < p && p < a.h; }
W gap(const Ivl& a, const Ivl& b) { return a.h < b.l ? b.l - a.h : b.h < a.l ? a.l - b.h : 0; }
Ivl cut(const Ivl& a, const Ivl& b) { return Ivl{std::max(a.l, b.l), std::min(a.h, b.h)}; }
Ivl hull(const Ivl& a, const Ivl& b) { return Ivl{std::min(a.l, b.l), std::max(a.h, b.h)}; }
Ivl mid(const Ivl& a, const Ivl& b) { W x[4] = {a.l, a.h, b.l, b.h}; std::sort(x, x + 4); return Ivl{x[1], x[2]}; }
const bp::direction_2d dirs[4] = {bp::WEST, bp::EAST, bp::SOUTH, bp::NORTH};
Ivl& ax(Bx& b, bp::orientation_2d o) { return o == bp::HORIZONTAL ? b.x : b.y; }
const Ivl& ax(const Bx& b, bp::orientation_2d o) { return o == bp::HORIZONTAL ? b.x : b.y; }
// boundaries of proper rectangles meet: some boundary point of a is a boundary point of b
bool rings_meet(const Bx& a, const Bx& b) {
  auto seg = [&](bool vert, W at, const Ivl& along) { if (vert) return (at == b.x.l || at == b.x.h) ? meet(along, b.y, true) : has(b.x, at, true) && (has(along, b.y.l, true) || has(along, b.y.h, true)); return (at == b.y.l || at == b.y.h) ? meet(along, b.x, true) : has(b.y, at, true) && (has(along, b.x.l, true) || has(along, b.x.h, true)); };
  return seg(true, a.x.l, a.y) || seg(true, a.x.h, a.y) || seg(false, a.y.l, a.x) || seg(false, a.y.h, a.x);
}
template <class T> Ivl rel(Src& s, int mode, const Ivl& a) { Ivl b = ivl<T>(s, mode); if (s.chance(1, 2)) { switch (s.irange(0, 5)) { case 0: b.l = a.h; break; case 1: b.h = a.l; break; case 2: b.l = a.l; break; case 3: b.h = a.h; break; default: b = a; } if (b.l > b.h) std::swap(b.l, b.h); } return b; }
template <class T> W relc(Src& s, int mode, const Ivl& a) { return s.chance(1, 3) ? (s.coin() ? a.l : a.h) : coord<T>(s, mode); }
bool close_to(double g, double w) { return std::fabs(g - w) <= 1e-12 * w; }
template <class T, class R, class Q> void run(Src& s, const char* kind) {
  int mode = s.irange(0, 3); Bx A{ivl<T>(s, mode), ivl<T>(s, mode)}, B; B.x = rel<T>(s, mode, A.x); B.y = rel<T>(s, mode, A.y); W px = relc<T>(s, mode, A.x), py = relc<T>(s, mode, A.y), v = coord<T>(s, mode);
  s.notef([&](std::ostream& o) { o << kind << " " << Kind<T>::name() << " a " << A << " b " << B << " point " << (ll)px << "," << (ll)py << " value " << (ll)v; }); s.label(std::string(kind) + " " + Kind<T>::name());
  bool proper = A.x.l < A.x.h && A.y.l < A.y.h && B.x.l < B.x.h && B.y.l < B.y.h; s.nontrivial(proper && !(A == B) && meet(A.x, B.x, true) && meet(A.y, B.y, true));
  const R a = mk<T, R>(A); const Q b = mk<T, Q>(B); const bp::point_data<T> p(un<T>(px), un<T>(py)); const T c = un<T>(v);
  typedef typename bp::coordinate_traits<T>::coordinate_difference D; typedef bp::interval_data<T> I; const W unit = Kind<T>::unit;
  // access
  SAME("construct", a, A); SAME("construct of intervals", (bp::construct<R>(I(un<T>(A.x.l), un<T>(A.x.h)), I(un<T>(A.y.l), un<T>(A.y.h)))), A); SAME("construct with swapped ends", (bp::construct<bp::rectangle_data<T> >(un<T>(A.x.l), un<T>(A.y.l), un<T>(A.x.h), un<T>(A.y.h))), A); { bp::rectangle_data<T> t(un<T>(A.x.h), un<T>(A.y.h), un<T>(A.x.l), un<T>(A.y.l)); SAME("rectangle_data with swapped ends", t, A); }
  { R t = a; bp::assign(t, b); SAME("assign", t, B); SAME("copy_construct", bp::copy_construct<R>(b), B); IS("equivalence", bp::equivalence(a, b), A == B); IS("equivalence of copies", bp::equivalence(t, b), true); }
  IS("xl", bp::xl(a) == un<T>(A.x.l) && bp::xh(a) == un<T>(A.x.h) && bp::yl(a) == un<T>(A.y.l) && bp::yh(a) == un<T>(A.y.h), true);
  auto pt = [&](const bp::point_data<T>& q, W x, W y) { return re<T>(q.x()) == x && re<T>(q.y()) == y; };
  IS("ll", pt(bp::ll(a), A.x.l, A.y.l), true); IS("lr", pt(bp::lr(a), A.x.h, A.y.l), true); IS("ul", pt(bp::ul(a), A.x.l, A.y.h), true); IS("ur", pt(bp::ur(a), A.x.h, A.y.h), true);
  IS("horizontal", re<T>(bp::low(bp::horizontal(a))) == A.x.l && re<T>(bp::high(bp::horizontal(a))) == A.x.h, true); IS("vertical", re<T>(bp::low(bp::vertical(a))) == A.y.l && re<T>(bp::high(bp::vertical(a))) == A.y.h, true);
  { Bx w = A; R t = a; I bx(un<T>(B.x.l), un<T>(B.x.h)), by(un<T>(B.y.l), un<T>(B.y.h)); bp::horizontal(t, bx); w.x = B.x; SAME("horizontal set", t, w); bp::vertical(t, by); w.y = B.y; SAME("vertical set", t, w); t = a; w = A; bp::set(t, bp::VERTICAL, bx); w.y = B.x; SAME("set VERTICAL", t, w); bp::set(t, bp::HORIZONTAL, by); w.x = B.y; SAME("set HORIZONTAL", t, w); }
  if (px <= A.x.h) { R t = a; bp::xl(t, un<T>(px)); SAME("xl set", t, (Bx{{px, A.x.h}, A.y})); } if (px >= A.x.l) { R t = a; bp::xh(t, un<T>(px)); SAME("xh set", t, (Bx{{A.x.l, px}, A.y})); bp::set(t, bp::HORIZONTAL, bp::HIGH, un<T>(A.x.h)); SAME("set xh", t, A); }
  if (py <= A.y.h) { R t = a; bp::yl(t, un<T>(py)); SAME("yl set", t, (Bx{A.x, {py, A.y.h}})); bp::set(t, bp::VERTICAL, bp::LOW, un<T>(A.y.l)); SAME("set yl", t, A); } if (py >= A.y.l) { R t = a; bp::yh(t, un<T>(py)); SAME("yh set", t, (Bx{A.x, {A.y.l, py}})); }
  { bp::point_data<T> q(un<T>(s.coin() ? B.x.l : B.x.h), un<T>(s.coin() ? B.y.l : B.y.h)); R t = a; bp::set_points(t, p, q); SAME("set_points", t, (Bx{{std::min(px, re<T>(q.x())), std::max(px, re<T>(q.x()))}, {std::min(py, re<T>(q.y())), std::max(py, re<T>(q.y()))}})); }
  // measures
  W dx = A.x.h - A.x.l, dy = A.y.h - A.y.l; IS("delta x", (W)((D)bp::delta(a, bp::HORIZONTAL) * (D)unit) == dx, true); IS("delta y", (W)((D)bp::delta(a, bp::VERTICAL) * (D)unit) == dy, true);
  W lim = Kind<T>::real ? (sizeof(T) == 4 ? (W)1 << 24 : (W)1 << 52) : (W)1 << 62; if (dx * dy < lim) IS("area", (W)(bp::area(a) * unit * unit) == dx * dy, true);
  if (2 * (dx + dy) < lim) { IS("half_perimeter", (W)(bp::half_perimeter(a) * unit) == dx + dy, true); IS("perimeter", (W)(bp::perimeter(a) * unit) == 2 * (dx + dy), true); }
  IS("guess_orientation", bp::guess_orientation(a) == (dx >= dy ? bp::HORIZONTAL : bp::VERTICAL), true);
  { bp::point_data<T> q; bp::center(q, a); W ex = 2 * re<T>(q.x()) - A.x.l - A.x.h, ey = 2 * re<T>(q.y()) - A.y.l - A.y.h; CHECKM(ex >= -1 && ex <= 1 && ey >= -1 && ey <= 1, "center of " << A << " is " << (ll)re<T>(q.x()) << "," << (ll)re<T>(q.y())); }
  for (int i = 0; i < 4; ++i) for (int turn = 0; turn < 2; ++turn) { bp::direction_2d d = dirs[i]; bp::point_data<T> q; bp::get_corner(q, a, d, turn ? bp::HIGH : bp::LOW);
    int fx = d == bp::WEST ? -1 : d == bp::EAST ? 1 : 0, fy = d == bp::SOUTH ? -1 : d == bp::NORTH ? 1 : 0, lx = turn ? fy : -fy, ly = turn ? -fx : fx;  // HIGH turns right
    IS("get_corner facing " << i << " turning " << turn, pt(q, fx + lx < 0 ? A.x.l : A.x.h, fy + ly < 0 ? A.y.l : A.y.h), true); }
  for (int i = 0; i < 4; ++i) { bp::direction_2d d = dirs[i]; Bx h = rd<T>(bp::get_half(a, d)); bp::orientation_2d o(d); const Ivl& k = ax(A, o); Ivl g = ax(h, o); bool hi = d == bp::EAST || d == bp::NORTH; W m = hi ? g.l : g.h, e = 2 * m - k.l - k.h; CHECKM((hi ? g.h == k.h : g.l == k.l) && e >= -1 && e <= 1 && ax(h, o.get_perpendicular()) == ax(A, o.get_perpendicular()), "get_half " << i << " of " << A << " is " << h); }
  // predicates
  for (int t = 0; t < 2; ++t) { bool touch = t != 0;
    IS("intersects " << t, bp::intersects(a, b, touch), meet(A.x, B.x, touch) && meet(A.y, B.y, touch)); IS("contains " << t, bp::contains(a, b, touch), has(A.x, B.x, touch) && has(A.y, B.y, touch)); IS("contains point " << t, bp::contains(a, p, touch), has(A.x, px, touch) && has(A.y, py, touch));
    if (proper) { bool w = touch ? rings_meet(A, B) : meet(A.x, B.x, false) && meet(A.y, B.y, false) && !(has(A.x, B.x, true) && has(A.y, B.y, true)) && !(has(B.x, A.x, true) && has(B.y, A.y, true)); IS("boundaries_intersect " << t, bp::boundaries_intersect(a, b, touch), w); } }
  IS("intersects", bp::intersects(a, b), meet(A.x, B.x, true) && meet(A.y, B.y, true)); IS("contains", bp::contains(a, b), has(A.x, B.x, true) && has(A.y, B.y, true)); IS("contains point", bp::contains(a, p), has(A.x, px, true) && has(A.y, py, true)); IS("boundaries_intersect", bp::boundaries_intersect(a, b), bp::boundaries_intersect(a, b, true));
  bool abx = (A.x.h == B.x.l || A.x.l == B.x.h) && meet(A.y, B.y, true), aby = (A.y.h == B.y.l || A.y.l == B.y.h) && meet(A.x, B.x, true);
  IS("abuts EAST", bp::abuts(a, b, bp::EAST), A.x.h == B.x.l && meet(A.y, B.y, true)); IS("abuts WEST", bp::abuts(a, b, bp::WEST), A.x.l == B.x.h && meet(A.y, B.y, true)); IS("abuts NORTH", bp::abuts(a, b, bp::NORTH), A.y.h == B.y.l && meet(A.x, B.x, true)); IS("abuts SOUTH", bp::abuts(a, b, bp::SOUTH), A.y.l == B.y.h && meet(A.x, B.x, true));
  IS("abuts HORIZONTAL", bp::abuts(a, b, bp::HORIZONTAL), abx); IS("abuts VERTICAL", bp::abuts(a, b, bp::VERTICAL), aby); IS("abuts", bp::abuts(a, b), abx || aby);
  // distances
  { W gx = gap(A.x, B.x), gy = gap(A.y, B.y), qx = gap(A.x, Ivl{px, px}), qy = gap(A.y, Ivl{py, py}); D u = (D)unit;
    IS("distance x", (W)(bp::euclidean_distance(a, b, bp::HORIZONTAL) * u) == gx, true); IS("distance y", (W)(bp::euclidean_distance(a, b, bp::VERTICAL) * u) == gy, true); IS("point distance x", (W)(bp::euclidean_distance(a, p, bp::HORIZONTAL) * u) == qx, true); IS("point distance y", (W)(bp::euclidean_distance(a, p, bp::VERTICAL) * u) == qy, true);
    if (gx + gy < lim) IS("manhattan_distance", (W)(bp::manhattan_distance(a, b) * u) == gx + gy, true); if (qx + qy < lim) IS("manhattan_distance to point", (W)(bp::manhattan_distance(a, p) * u) == qx + qy, true);
    W g2 = gx < (1LL << 31) * 2 && gy < (1LL << 31) * 2 ? gx * gx + gy * gy : lim, q2 = qx < (1LL << 31) * 2 && qy < (1LL << 31) * 2 ? qx * qx + qy * qy : lim; double eps = sizeof(T) == 4 && Kind<T>::real ? 1e-6 : 1e-12;
    if (g2 < lim) { IS("square_euclidean_distance", (W)(bp::square_euclidean_distance(a, b) * u * u) == g2, true); double g = bp::euclidean_distance(a, b) * (double)unit, w = std::sqrt((double)g2); CHECKM(std::fabs(g - w) <= eps * w, "euclidean_distance of " << A << " and " << B << " is " << g << " instead of " << w); }
    if (q2 < lim) { IS("square_euclidean_distance to point", (W)(bp::square_euclidean_distance(a, p) * u * u) == q2, true); double g = bp::euclidean_distance(a, p) * (double)unit, w = std::sqrt((double)q2); CHECKM(std::fabs(g - w) <= eps * w, "euclidean_distance of " << A << " and point " << (ll)px << "," << (ll)py << " is " << g << " instead of " << w); } }
  // operations
  for (int t = 0; t < 3; ++t) { bool touch = t > 0, w = meet(A.x, B.x, touch) && meet(A.y, B.y, touch); R r = a; bool ok = t == 2 ? bp::intersect(r, b) : bp::intersect(r, b, touch); Ivl cx = cut(A.x, B.x), cy = cut(A.y, B.y); if (!touch) w = cx.l < cx.h && cy.l < cy.h; IS("intersect " << t, ok, w); SAME("intersect " << t, r, w ? (Bx{cx, cy}) : A);
    for (int o = 0; o < 2; ++o) { bp::orientation_2d ori(o == 0 ? bp::HORIZONTAL : bp::VERTICAL); R q = a; Ivl c1 = cut(ax(A, ori), B.x); bool w1 = touch ? c1.l <= c1.h : c1.l < c1.h; Bx wr = A; if (w1) ax(wr, ori) = c1; IS("intersect with interval", bp::intersect(q, bp::horizontal(b), ori, touch), w1); SAME("intersect with interval", q, wr); } }
  { R r = a; bp::generalized_intersect(r, b); SAME("generalized_intersect", r, (Bx{mid(A.x, B.x), mid(A.y, B.y)})); }
  { Bx h{hull(A.x, B.x), hull(A.y, B.y)}; R r = a; IS("encompass", bp::encompass(r, b), !(h == A)); SAME("encompass", r, h); r = a; Bx g{hull(A.x, Ivl{px, px}), hull(A.y, Ivl{py, py})}; IS("encompass point", bp::encompass(r, p), !(g == A)); SAME("encompass point", r, g);
    r = a; Bx k = A; k.y = hull(A.y, B.x); IS("encompass interval", bp::encompass(r, bp::horizontal(b), bp::VERTICAL), !(k == A)); SAME("encompass interval", r, k); }
  { bool jx = A.y == B.y && (A.x.h == B.x.l || A.x.l == B.x.h), jy = A.x == B.x && (A.y.h == B.y.l || A.y.l == B.y.h); R r = a; IS("join_with", bp::join_with(r, b), jx || jy); SAME("join_with", r, (jx || jy) ? (Bx{hull(A.x, B.x), hull(A.y, B.y)}) : A); s.label("joined", jx || jy); }
  auto op = [&](const char* what, const Bx& w, auto f) { if (!fits<T>(w)) return; R r = a; f(r); SAME(what, r, w); };
  op("convolve", Bx{{A.x.l + B.x.l, A.x.h + B.x.h}, {A.y.l + B.y.l, A.y.h + B.y.h}}, [&](R& r) { bp::convolve(r, b); }); op("deconvolve", Bx{{A.x.l - B.x.l, A.x.h - B.x.h}, {A.y.l - B.y.l, A.y.h - B.y.h}}, [&](R& r) { bp::deconvolve(r, b); });
  op("reflected_convolve", Bx{{A.x.l - B.x.h, A.x.h - B.x.l}, {A.y.l - B.y.h, A.y.h - B.y.l}}, [&](R& r) { bp::reflected_convolve(r, b); }); op("reflected_deconvolve", Bx{{A.x.l + B.x.h, A.x.h + B.x.l}, {A.y.l + B.y.h, A.y.h + B.y.l}}, [&](R& r) { bp::reflected_deconvolve(r, b); });
  op("convolve point", Bx{{A.x.l + px, A.x.h + px}, {A.y.l + py, A.y.h + py}}, [&](R& r) { bp::convolve(r, p); }); op("deconvolve point", Bx{{A.x.l - px, A.x.h - px}, {A.y.l - py, A.y.h - py}}, [&](R& r) { bp::deconvolve(r, p); });
  op("move x", Bx{{A.x.l + v, A.x.h + v}, A.y}, [&](R& r) { bp::move(r, bp::HORIZONTAL, c); }); op("move y", Bx{A.x, {A.y.l + v, A.y.h + v}}, [&](R& r) { bp::move(r, bp::VERTICAL, c); });
  if (-v >= Kind<T>::lo() && -v <= Kind<T>::hi()) for (int sg = 1; sg >= -1; sg -= 2) { W k = sg * v; bool sh = sg < 0;
    op("bloat or shrink", Bx{{A.x.l - k, A.x.h + k}, {A.y.l - k, A.y.h + k}}, [&](R& r) { if (sh) bp::shrink(r, c); else bp::bloat(r, c); });
    op("bloat or shrink x", Bx{{A.x.l - k, A.x.h + k}, A.y}, [&](R& r) { if (sh) bp::shrink(r, bp::HORIZONTAL, c); else bp::bloat(r, bp::HORIZONTAL, c); }); op("bloat or shrink y", Bx{A.x, {A.y.l - k, A.y.h + k}}, [&](R& r) { if (sh) bp::shrink(r, bp::VERTICAL, c); else bp::bloat(r, bp::VERTICAL, c); });
    for (int i = 0; i < 4; ++i) { Bx w = A; bp::direction_2d d = dirs[i]; Ivl& k2 = ax(w, bp::orientation_2d(d)); if (d == bp::EAST || d == bp::NORTH) k2.h += k; else k2.l -= k; op("bloat or shrink in a direction", w, [&](R& r) { if (sh) bp::shrink(r, d, c); else bp::bloat(r, d, c); }); } }
  // scaling and transforms
  { int k = s.irange(1, 9); op("scale_up", Bx{{A.x.l * k, A.x.h * k}, {A.y.l * k, A.y.h * k}}, [&](R& r) { bp::scale_up(r, k); }); bool exact = A.x.l % k == 0 && A.x.h % k == 0 && A.y.l % k == 0 && A.y.h % k == 0; if (!Kind<T>::real || exact) op("scale_down", Bx{{A.x.l / k, A.x.h / k}, {A.y.l / k, A.y.h / k}}, [&](R& r) { bp::scale_down(r, k); }); }
  { int m = s.irange(1, 64), n = s.irange(1, 64); auto sc = [&](W w, int f, bool& ok) -> W { if (w * f > ((W)1 << 50) || w * f < -((W)1 << 50)) ok = false; if (!Kind<T>::real) return (w * f + 8) >> 4; if (w * f % 16) ok = false; return w * f / 16; }; bool ok = true; Bx w{{sc(A.x.l, m, ok), sc(A.x.h, m, ok)}, {sc(A.y.l, n, ok), sc(A.y.h, n, ok)}};
    if (ok) op("scale", w, [&](R& r) { bp::anisotropic_scale_factor<double> f(m / 16.0, n / 16.0); bp::scale(r, f); }); }
  { int t = s.irange(0, 7); bp::axis_transformation at((bp::axis_transformation::ATR)t); bp::transformation<T> tr(at, p); auto map = [&](W x, W y, W& u, W& w) { if (t & 1) x = -x; if (t & 2) y = -y; if (t & 4) std::swap(x, y); u = x; w = y; };
    for (int k = 0; k < 2; ++k) { W ox = k ? px : 0, oy = k ? py : 0, x0, y0, x1, y1; if (!fits<T>(A.x.l - ox) || !fits<T>(A.x.h - ox) || !fits<T>(A.y.l - oy) || !fits<T>(A.y.h - oy)) continue; map(A.x.l - ox, A.y.l - oy, x0, y0); map(A.x.h - ox, A.y.h - oy, x1, y1); Bx w{{std::min(x0, x1), std::max(x0, x1)}, {std::min(y0, y1), std::max(y0, y1)}}; op(k ? "transform" : "axis transform", w, [&](R& r) { if (k) bp::transform(r, tr); else bp::transform(r, at); }); } }
  // order
  { typedef std::vector<W> K; K ha{A.x.l, A.y.l, A.x.h, A.y.h}, hb{B.x.l, B.y.l, B.x.h, B.y.h}, va{A.y.l, A.x.l, A.y.h, A.x.h}, vb{B.y.l, B.x.l, B.y.h, B.x.h}; IS("less HORIZONTAL", (bp::less_rectangle_concept<R, Q>(bp::HORIZONTAL)(a, b)), ha < hb); IS("less VERTICAL", (bp::less_rectangle_concept<R, Q>(bp::VERTICAL)(a, b)), va < vb); IS("less", (bp::less_rectangle_concept<R, Q>()(a, b)), va < vb); }
  s.label("abut", abx || aby); s.label("degenerate", !proper);
}
template <class T> void data(Src& s) {
  int mode = s.irange(0, 3); Bx A{ivl<T>(s, mode), ivl<T>(s, mode)}, B; B.x = rel<T>(s, mode, A.x); B.y = rel<T>(s, mode, A.y); W px = 0, py = 0; s.nontrivial(!(A == B)); s.notef([&](std::ostream& o) { o << "rectangle_data<" << Kind<T>::name() << "> " << A << " " << B; });
  typedef bp::rectangle_data<T> R; R a = mk<T, R>(A), b; Box<T> w = mk<T, Box<T> >(B); b = w; SAME("assignment of another model", b, B); IS("==", a == b, A == B); IS("!=", a != b, !(A == B)); IS("== of another model", a == w, A == B); R c(a); SAME("copy", c, A); c = b; SAME("assignment", c, B);
  for (int i = 0; i < 4; ++i) { bp::direction_2d d = dirs[i]; bool hi = d == bp::EAST || d == bp::NORTH; const Ivl& k = ax(A, bp::orientation_2d(d)); IS("get direction", a.get(d) == un<T>(hi ? k.h : k.l), true); c.set(d, un<T>(hi ? k.h : k.l)); } SAME("set by direction", c, A);
}
}
PBT_TARGET(functions, 1000000, 20000000) {
  switch (s.irange(0, 6)) {
    case 0: run<int, bp::rectangle_data<int>, bp::rectangle_data<int> >(s, "rectangle_data"); break; case 1: run<int, Box<int>, bp::rectangle_data<int> >(s, "own and data"); break; case 2: run<int, bp::rectangle_data<int>, Box<int> >(s, "data and own"); break;
    case 3: run<ll, bp::rectangle_data<ll>, bp::rectangle_data<ll> >(s, "rectangle_data"); break; case 4: run<double, Box<double>, Box<double> >(s, "own"); break; case 5: run<float, bp::rectangle_data<float>, bp::rectangle_data<float> >(s, "rectangle_data"); break; default: run<double, bp::rectangle_data<double>, bp::rectangle_data<double> >(s, "rectangle_data"); }
}
PBT_TARGET(data, 100000, 1000000) { switch (s.irange(0, 3)) { case 0: data<int>(s); break; case 1: data<ll>(s); break; case 2: data<double>(s); break; default: data<float>(s); } }
