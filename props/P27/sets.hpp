// Sets and containers of user types against the region model and against the
// library's own set types put through the same functions.
#include "../P05/common.hpp"
#include "own.hpp"
typedef bp::polygon_set_data<int> GS; typedef bp::polygon_data<int> GD; typedef bp::polygon_with_holes_data<int> GW;
using own::Rect; using own::Poly90; using own::Poly90H; typedef own::Pg<1> P4; typedef own::PgH<1> P4H; typedef own::Pg<2> PG; typedef own::PgH<2> PGH;
using own::Set90; using own::Set90V; using own::Set45; using own::SetG;
// filling user objects, by the documented functions
inline Rect orect(const Ring& r) { R b{r[0].x, r[0].y, r[0].x, r[0].y}; for (auto& p : r) { b.x0 = std::min(b.x0, p.x); b.y0 = std::min(b.y0, p.y); b.x1 = std::max(b.x1, p.x); b.y1 = std::max(b.y1, p.y); } return bp::construct<Rect>((int)b.x0, (int)b.y0, (int)b.x1, (int)b.y1); }
inline std::vector<own::Pt> opts(const Ring& r) { std::vector<own::Pt> v; for (auto& p : r) v.push_back(bp::construct<own::Pt>((int)p.x, (int)p.y)); return v; }
template <class T> struct fill_one;
template <> struct fill_one<Rect> { static const bool holes = false; static Rect go(const Shape& h) { return orect(h.outer); } };
template <> struct fill_one<Poly90> { static const bool holes = false; static Poly90 go(const Shape& h) { Poly90 p; bp::assign(p, gen::bpoly90<int>(h.outer)); return p; } };
template <> struct fill_one<Poly90H> { static const bool holes = true; static Poly90H go(const Shape& h) { Poly90H p; bp::assign(p, gen::bpwh90<int>(h)); return p; } };
template <int K> struct fill_one<own::Pg<K> > { static const bool holes = false; static own::Pg<K> go(const Shape& h) { own::Pg<K> p; auto v = opts(h.outer); bp::set_points(p, v.begin(), v.end()); return p; } };
template <int K> struct fill_one<own::PgH<K> > { static const bool holes = true; static own::PgH<K> go(const Shape& h) { own::PgH<K> p; auto v = opts(h.outer); bp::set_points(p, v.begin(), v.end()); std::vector<own::Pg<K> > q; for (auto& r : h.holes) q.push_back(fill_one<own::Pg<K> >::go(Shape{r, {}})); bp::set_holes(p, q.begin(), q.end()); return p; } };
// reading them, without the library
inline Ring comp(const std::vector<int>& c) { Ring r; size_t n = c.size(); for (size_t i = 0; i < n; ++i) r.push_back(i & 1 ? P{c[(i + 1) % n], c[i]} : P{c[i], c[i + 1]}); return r; }
template <class C> Ring ptsring(const C& c) { Ring r; for (auto& p : c) r.push_back(P{p.xx, p.yy}); return r; }
inline Shape raw(const Rect& r) { return Shape{ref::ring(R{r.corner.xx, r.corner.yy, r.corner.xx + r.w, r.corner.yy + r.h}), {}}; }
inline Shape raw(const Poly90& p) { return Shape{comp(std::vector<int>(p.c.begin(), p.c.end())), {}}; }
inline Shape raw(const Poly90H& p) { Shape s; s.outer = comp(p.c); for (auto& h : p.holes) s.holes.push_back(raw(h).outer); return s; }
template <int K> Shape raw(const own::Pg<K>& p) { return Shape{ptsring(p.v), {}}; }
template <int K> Shape raw(const own::PgH<K>& p) { Shape s; s.outer = ptsring(p.v); for (auto& h : p.holes) s.holes.push_back(ptsring(h.v)); return s; }
template <class C> std::vector<Shape> rawc(const C& c) { std::vector<Shape> v; for (auto& p : c) v.push_back(raw(p)); return v; }
inline const std::deque<Poly90H>& items(const Set90& s) { return s.d; } inline const std::list<Rect>& items(const Set90V& s) { return s.d; } inline const std::deque<P4H>& items(const Set45& s) { return s.d; } inline const std::deque<PGH>& items(const SetG& s) { return s.d; }
template <class T> const std::vector<T>& items(const std::vector<T>& s) { return s; } template <class T> const std::list<T>& items(const std::list<T>& s) { return s; }
template <class S> std::vector<Shape> raws(const S& s) { return rawc(items(s)); }
inline std::deque<Poly90H>& items(Set90& s) { return s.d; } inline std::list<Rect>& items(Set90V& s) { return s.d; } inline std::deque<P4H>& items(Set45& s) { return s.d; } inline std::deque<PGH>& items(SetG& s) { return s.d; }
template <class T> std::vector<T>& items(std::vector<T>& s) { return s; } template <class T> std::list<T>& items(std::list<T>& s) { return s; }
template <class S> struct item { typedef typename std::decay<decltype(*items(std::declval<S&>()).begin())>::type type; };
inline Shape plan_shape(Src& s, const Lat& l, bool manh, bool rect, bool holes) { Shape h; if (rect) h.outer = trect(s, l.G); else if (manh) h = tri::manh(s, l.G, holes); else h = any_shape(s, l.G, holes); if (!rect) h = vary(s, h); return h; }
// the same geometry in a user set and in a library set
template <class S, class L> struct put;
inline void into(PS& p, const Shape& h) { p.insert(gen::bpwh90<int>(h)); }
inline void into(QS& p, const Shape& h) { p.insert(bpwh45<int>(h)); }
inline GW gwh(const Shape& h) { GW w = gen::bpoly<GW, int>(h.outer); std::vector<GD> v; for (auto& r : h.holes) v.push_back(gen::bpoly<GD, int>(r)); bp::set_holes(w, v.begin(), v.end()); return w; }
inline void into(GS& p, const Shape& h) { p.insert(gwh(h)); }
template <class S, class L> void fill2(Src& s, const Lat& l, bool manh, S& a, L& b, Tri& g, int maxn, const char* what) {
  typedef typename item<S>::type T; s.note(what);
  for (int i = s.count(0, maxn); i > 0; --i) { Shape h = plan_shape(s, l, manh, std::is_same<T, Rect>::value, fill_one<T>::holes); g.add(h); h = l.at(h); s.notef([&](std::ostream& o) { o << "  " << h; }); items(a).push_back(fill_one<T>::go(h)); into(b, h); }
}
inline __int128 area2sum(const std::vector<Shape>& v) { __int128 t = 0; for (auto& h : v) { auto ab = [](__int128 a) { return a < 0 ? -a : a; }; t += ab(ref::area2(h.outer)); for (auto& r : h.holes) t -= ab(ref::area2(r)); } return t; }
template <class S> void denotes(const Lat& l, const S& a, const Tri& want, const char* what) { auto v = raws(a); for (auto& h : v) h.outer.erase(std::unique(h.outer.begin(), h.outer.end()), h.outer.end()); Tri got = tiles(l.fine(), v, false, what); CHECKM(got == want.fine(), what << ": " << got << " want " << want << " polygons " << v); }
inline void canon(std::vector<Shape>& v) { for (auto& h : v) { auto f = [](Ring r) { if (r.size() > 1 && r.front() == r.back()) r.pop_back(); for (bool ch = true; ch && r.size() > 3;) { ch = false; for (size_t i = 0; i < r.size(); ++i) { P p = r[(i + r.size() - 1) % r.size()], q = r[i], t = r[(i + 1) % r.size()]; if ((__int128)(q.x - p.x) * (t.y - q.y) == (__int128)(q.y - p.y) * (t.x - q.x)) { r.erase(r.begin() + i); ch = true; break; } } } if (ref::area2(r) < 0) std::reverse(r.begin(), r.end()); Ring best = r; for (size_t i = 1; i < r.size(); ++i) { std::rotate(r.begin(), r.begin() + 1, r.end()); if (r < best) best = r; } return best; }; h.outer = f(h.outer); for (auto& r : h.holes) r = f(r); std::sort(h.holes.begin(), h.holes.end()); } std::sort(v.begin(), v.end(), [](const Shape& a, const Shape& b) { return std::make_pair(a.outer, a.holes) < std::make_pair(b.outer, b.holes); }); }
inline bool eqshapes(std::vector<Shape> a, std::vector<Shape> b) { canon(a); canon(b); if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) if (a[i].outer != b[i].outer || a[i].holes != b[i].holes) return false; return true; }
// a user set and a library set hold the same region, the user set without overlaps
template <class S, class L> void agree(const S& a, const L& b, const char* what, bool overlaps = false) {
  auto v = raws(a); L q; for (auto& h : v) into(q, h); L c(b); c.clean(); q.clean();
  typedef typename std::conditional<std::is_same<L, PS>::value, WD, typename std::conditional<std::is_same<L, QS>::value, QW, GW>::type>::type W; std::vector<W> w; c.get(w);
  // a cut to a hole of a general set ends on a snapped point of the outer edge
  long double tol = 0; if (std::is_same<L, GS>::value && !fill_one<typename item<S>::type>::holes) for (auto& h : gen::rshapes_wh(w)) if (!h.holes.empty()) { ll a = h.outer[0].x, b = a, c = h.outer[0].y, d = c; for (auto& p : h.outer) { a = std::min(a, p.x); b = std::max(b, p.x); c = std::min(c, p.y); d = std::max(d, p.y); } tol += (long double)h.holes.size() * 2 * (b - a + d - c); }
  bool same = q == c; if (!same && std::is_same<L, GS>::value) { std::vector<Shape> x = gen::rshapes_wh(w); same = eqshapes(v, x); if (!same && tol > 0) { using namespace bp::operators; GS d, e; for (auto& h : v) into(d, h); for (auto& h : x) into(e, h); d ^= e; same = 2 * (long double)bp::area(d) <= tol; } }  // general sets may snap once more
  CHECKM(same, what << ": user type holds " << v << ", library type " << gen::rshapes_wh(w));
  __int128 wa = area2sum(gen::rshapes_wh(w)); if (!overlaps) CHECKM(std::fabs((long double)(area2sum(v) - wa)) <= tol, what << ": user polygons overlap or have the wrong area: " << v << " total " << (double)area2sum(v) << "/2 library " << (double)wa << "/2 " << gen::rshapes_wh(w));
}
inline std::string show(const Rect& r) { std::ostringstream o; o << raw(r); return o.str(); }
inline bool eqrect(const Rect& a, const RD& b) { return a.corner.xx == bp::xl(b) && a.corner.yy == bp::yl(b) && a.corner.xx + a.w == bp::xh(b) && a.corner.yy + a.h == bp::yh(b); }
template <class S, class L> void same_queries(const S& a, const L& b, const Tri& g, const char* what) {
  CHECKM(bp::area(a) == bp::area(b), what << ": area " << (double)bp::area(a) << " library " << (double)bp::area(b)); CHECKM(bp::empty(a) == g.empty(), what << ": empty " << bp::empty(a));
  Rect e = bp::construct<Rect>(0, 0, 0, 0); RD f(0, 0, 0, 0); bool x = bp::extents(e, a), y = bp::extents(f, b); CHECKM(x == y && (!x || eqrect(e, f)), what << ": extents " << x << " " << show(e) << " library " << y << " [" << bp::xl(f) << "," << bp::yl(f) << " " << bp::xh(f) << "," << bp::yh(f) << "]");
  CHECKM(bp::equivalence(a, b), what << ": not equivalent to the library set"); CHECKM(bp::equivalence(b, a), what << ": library set not equivalent to it");
}
template <class S, class T> S comb(int o, const S& a, const T& b, int form) {
  using namespace op; S r(a);
  if (form == 0) { switch (o) { case 0: bp::assign(r, a | b); break; case 1: bp::assign(r, a & b); break; case 2: bp::assign(r, a ^ b); break; default: bp::assign(r, a - b); } }
  else if (form == 1) { switch (o) { case 0: r |= b; break; case 1: r &= b; break; case 2: r ^= b; break; default: r -= b; } }
  else { switch (o) { case 0: bp::assign(r, a + b); break; case 1: bp::assign(r, a * b); break; case 2: r ^= b; break; default: r -= b; } }
  return r;
}
template <class L, class S, class T> L combl(int o, const S& a, const T& b, bool plus) { using namespace op; L r; switch (o) { case 0: if (plus) r = a + b; else r = a | b; break; case 1: if (plus) r = a * b; else r = a & b; break; case 2: r = a ^ b; break; default: r = a - b; } return r; }
inline Lat plat(Src& s) { Lat l = lattice(s, 6, 400000); l.m = 4 * std::max<ll>(1, l.m / 4); l.ox &= ~1LL; l.oy &= ~1LL; return l; }
template <class S, class L> struct Two { S a; L b; Tri g; };
template <class S, class L> void booleans(Src& s, bool manh, const char* name) {
  Lat l = plat(s); int o = s.irange(0, 3); s.notef([&](std::ostream& x) { x << name << " op " << OPN[o]; }); s.label(name);
  Two<S, L> p, q; p.g = q.g = Tri(l.G); fill2(s, l, manh, p.a, p.b, p.g, 4, " a:"); fill2(s, l, manh, q.a, q.b, q.g, 4, " b:");
  Tri ga = p.g.norm(), gb = q.g.norm(), want = combine(o, ga, gb); s.nontrivial(!(ga & gb).empty() && ga != gb);
  same_queries(p.a, p.b, ga, "operand"); bool eq = bp::equivalence(p.a, q.a); CHECKM(eq == (ga == gb), "equivalence of user sets " << eq);
  switch (s.irange(0, 5)) {
    case 0: { S r = comb(o, p.a, q.a, s.irange(0, 2)); denotes(l, r, want, "user op user"); same_queries(r, combl<L>(o, p.b, q.b, s.coin()), want, "result"); break; }
    case 1: { S r = comb(o, p.a, q.b, s.irange(0, 2)); denotes(l, r, want, "user op library"); break; }
    case 2: { L r = combl<L>(o, p.b, q.a, s.coin()); agree(comb(o, p.a, q.a, 0), r, "library op user"); S t; bp::assign(t, r); denotes(l, t, want, "assigned from library"); break; }
    case 3: { L r = combl<L>(o, p.a, q.a, s.coin()); S t; bp::assign(t, r); denotes(l, t, want, "view of user sets to library set"); break; }
    case 4: { using namespace op; S t; bp::assign(t, (p.a ^ q.a) | (p.a & q.a)); denotes(l, t, ga | gb, "nested views"); bp::assign(t, (p.a | q.b) - (p.b & q.a)); denotes(l, t, ga ^ gb, "nested mixed views"); break; }
    default: { using namespace op; L t(p.b); switch (o) { case 0: t |= q.a; break; case 1: t &= q.a; break; case 2: t ^= q.a; break; default: t -= q.a; } S r; bp::assign(r, t); denotes(l, r, want, "library op= user"); S c; bp::assign(c, q.a); denotes(l, c, gb, "copy"); bp::clear(c); CHECK(bp::empty(c) && items(c).empty()); break; }
  }
}
