// Interval functions against a model on wide integers, for int, long long,
// double and float coordinates, library and user-defined interval types.
#include "ivl.hpp"
namespace {
template <class T, class I> I mk(const Ivl& v) { return bp::construct<I>(un<T>(v.l), un<T>(v.h)); }
template <class T, class I> Ivl rd(const I& i) { return Ivl{re<T>(bp::get(i, bp::LOW)), re<T>(bp::get(i, bp::HIGH))}; }
#define SAME(what, obj, want) do { Ivl g_ = rd<T>(obj), w_ = (want); CHECKM(g_ == w_, what << " of " << A << " and " << B << " value " << (ll)v << " is " << g_ << " instead of " << w_); } while (0)
#define IS(what, expr, want) do { auto g_ = (expr); auto w_ = (want); CHECKM(g_ == w_, what << " of " << A << " and " << B << " value " << (ll)v << " is " << g_ << " instead of " << w_); } while (0)
// the point-set definitions, evaluated on all ends and all points half way between neighbouring ends
struct Points { std::vector<W> p; Points(const Ivl& a, const Ivl& b, W v) { for (W w : {a.l, a.h, b.l, b.h, v}) p.push_back(w * 4); std::vector<W> q = p; std::sort(q.begin(), q.end()); for (size_t i = 0; i + 1 < q.size(); ++i) if (q[i] != q[i + 1]) p.push_back((q[i] + q[i + 1]) / 2); p.push_back(q[0] - 1); p.push_back(q.back() + 1); } };
bool in(const Ivl& i, W p4) { return i.l * 4 <= p4 && p4 <= i.h * 4; }
bool inside(const Ivl& i, W p4) { return i.l * 4 < p4 && p4 < i.h * 4; }
template <class T, class I, class J> void run(Src& s, const char* kind) {
  int mode = s.irange(0, 3); Ivl A = ivl<T>(s, mode), B = ivl<T>(s, mode); W v = coord<T>(s, mode);
  if (s.chance(1, 3)) { switch (s.irange(0, 5)) { case 0: B.l = A.h; break; case 1: B.h = A.l; break; case 2: B.l = A.l; break; case 3: B.h = A.h; break; case 4: B = A; break; default: v = s.coin() ? A.l : A.h; } if (B.l > B.h) std::swap(B.l, B.h); }
  s.notef([&](std::ostream& o) { o << kind << " " << Kind<T>::name() << " a " << A << " b " << B << " value " << (ll)v; }); s.label(std::string(kind) + " " + Kind<T>::name());
  s.nontrivial(A.l < A.h && B.l < B.h && !(A == B) && A.h >= B.l && B.h >= A.l);
  const I a = mk<T, I>(A); const J b = mk<T, J>(B); T c = un<T>(v);
  // construction and access
  { I t = bp::construct<I>(un<T>(A.h), un<T>(A.l)); SAME("construct with swapped ends", t, A); SAME("copy_construct", bp::copy_construct<I>(b), B); I u = a; bp::assign(u, b); SAME("assign", u, B); }
  IS("low", re<T>(bp::low(a)) == A.l, true); IS("high", re<T>(bp::high(a)) == A.h, true); IS("equivalence", bp::equivalence(a, b), A == B); IS("self equivalence", bp::equivalence(a, mk<T, J>(A)), true);
  if (v <= A.h) { I t = a; bp::low(t, c); SAME("low set", t, (Ivl{v, A.h})); t = a; bp::set(t, bp::LOW, c); SAME("set LOW", t, (Ivl{v, A.h})); }
  if (v >= A.l) { I t = a; bp::high(t, c); SAME("high set", t, (Ivl{A.l, v})); t = a; bp::set(t, bp::HIGH, c); SAME("set HIGH", t, (Ivl{A.l, v})); }
  { typedef typename bp::coordinate_traits<T>::coordinate_difference D; D d = bp::delta(a); if (Kind<T>::real) IS("delta", (double)d, (double)un<double>(A.h - A.l)); else IS("delta", (W)d == A.h - A.l, true); }
  { W m = re<T>(bp::center(a)), e = 2 * m - (A.l + A.h); CHECKM(Kind<T>::real ? e == 0 : e >= -1 && e <= 1, "center of " << A << " is " << (ll)m);
    Ivl lo = rd<T>(bp::get_half(a, bp::LOW)), hi = rd<T>(bp::get_half(a, bp::HIGH)); W f = 2 * lo.h - (A.l + A.h); CHECKM(lo.l == A.l && hi.h == A.h && lo.h == hi.l && lo.h >= A.l && lo.h <= A.h && f >= -1 && f <= 1, "halves of " << A << " are " << lo << " and " << hi); }
  // predicates by their point sets
  Points P(A, B, v); bool meet = false, all = true, allin = true; for (W p : P.p) { if (in(A, p) && in(B, p)) meet = true; if (in(B, p) && !in(A, p)) all = false; if (in(B, p) && !inside(A, p)) allin = false; }
  bool over = A.l < B.h && B.l < A.h;  // overlap that is more than touching: also of a point strictly inside
  if (A.l < A.h && B.l < B.h) { bool o2 = false; for (W p : P.p) if (inside(A, p) && inside(B, p)) o2 = true; CHECK(o2 == over); }
  IS("intersects", bp::intersects(a, b), meet); IS("intersects with touch", bp::intersects(a, b, true), meet); IS("intersects without touch", bp::intersects(a, b, false), over);
  IS("contains", bp::contains(a, b), all); IS("contains with touch", bp::contains(a, b, true), all); IS("contains without touch", bp::contains(a, b, false), allin);
  IS("contains value", bp::contains(a, c), A.l <= v && v <= A.h); IS("contains value with touch", bp::contains(a, c, true), A.l <= v && v <= A.h); IS("contains value without touch", bp::contains(a, c, false), A.l < v && v < A.h);
  for (int touch = 0; touch < 2; ++touch) { auto ct = [&](const Ivl& i, W p) { return touch ? i.l <= p && p <= i.h : i.l < p && p < i.h; }; IS("boundaries_intersect " << touch, bp::boundaries_intersect(a, b, touch != 0), (ct(A, B.l) || ct(A, B.h)) && (ct(B, A.l) || ct(B, A.h))); }
  IS("boundaries_intersect default", bp::boundaries_intersect(a, b), bp::boundaries_intersect(a, b, true));
  bool ah = A.h == B.l, al = A.l == B.h; IS("abuts HIGH", bp::abuts(a, b, bp::HIGH), ah); IS("abuts LOW", bp::abuts(a, b, bp::LOW), al); IS("abuts", bp::abuts(a, b), ah || al);
  { W d = v < A.l ? A.l - v : v > A.h ? v - A.h : 0; auto g = bp::euclidean_distance(a, c); IS("distance to value", (W)(g * Kind<T>::unit) == d, true); W e = A.h < B.l ? B.l - A.h : B.h < A.l ? A.l - B.h : 0; auto h = bp::euclidean_distance(a, b); IS("distance", (W)(h * Kind<T>::unit) == e, true); }
  // operations
  for (int touch = 0; touch < 3; ++touch) { I t = a; bool ok = touch == 2 ? bp::intersect(t, b) : bp::intersect(t, b, touch != 0); Ivl m{std::max(A.l, B.l), std::min(A.h, B.h)}; bool want = touch ? m.l <= m.h : m.l < m.h; IS("intersect " << touch, ok, want); SAME("intersect " << touch, t, want ? m : A); }
  { I t = a; W x[4] = {A.l, A.h, B.l, B.h}; std::sort(x, x + 4); bp::generalized_intersect(t, b); SAME("generalized_intersect", t, (Ivl{x[1], x[2]})); }
  { I t = a; bool r = bp::encompass(t, b); Ivl w{std::min(A.l, B.l), std::max(A.h, B.h)}; SAME("encompass", t, w); IS("encompass", r, !(w == A)); t = a; r = bp::encompass(t, c); w = Ivl{std::min(A.l, v), std::max(A.h, v)}; SAME("encompass value", t, w); IS("encompass value", r, !(w == A)); }
  { I t = a; bool r = bp::join_with(t, b); IS("join_with", r, ah || al); SAME("join_with", t, (ah || al) ? (Ivl{std::min(A.l, B.l), std::max(A.h, B.h)}) : A); }
  auto ifits = [&](const Ivl& w, const char* what, auto f) { if (!fits<T>(w)) return; I t = a; f(t); SAME(what, t, w); if (w.l > w.h) CHECKM(false, what << " turned round"); };
  ifits(Ivl{A.l + v, A.h + v}, "convolve value", [&](I& t) { bp::convolve(t, c); }); ifits(Ivl{A.l - v, A.h - v}, "deconvolve value", [&](I& t) { bp::deconvolve(t, c); });
  ifits(Ivl{A.l + v, A.h + v}, "move", [&](I& t) { bp::move(t, c); });
  ifits(Ivl{A.l + B.l, A.h + B.h}, "convolve", [&](I& t) { bp::convolve(t, b); }); if (A.l - B.l <= A.h - B.h) ifits(Ivl{A.l - B.l, A.h - B.h}, "deconvolve", [&](I& t) { bp::deconvolve(t, b); });
  ifits(Ivl{A.l - B.h, A.h - B.l}, "reflected_convolve", [&](I& t) { bp::reflected_convolve(t, b); }); if (A.l + B.h <= A.h + B.l) ifits(Ivl{A.l + B.h, A.h + B.l}, "reflected_deconvolve", [&](I& t) { bp::reflected_deconvolve(t, b); });
  if (fits<T>(2 * v)) { ifits(Ivl{2 * v - A.h, 2 * v - A.l}, "flip", [&](I& t) { bp::flip(t, c); }); ifits(Ivl{-A.h, -A.l}, "flip at 0", [&](I& t) { bp::flip(t); }); }
  if (-v >= Kind<T>::lo() && -v <= Kind<T>::hi()) {
    if (A.l - v <= A.h + v) ifits(Ivl{A.l - v, A.h + v}, "bloat", [&](I& t) { bp::bloat(t, c); }); if (A.l + v <= A.h - v) ifits(Ivl{A.l + v, A.h - v}, "shrink", [&](I& t) { bp::shrink(t, c); });
    if (A.l - v <= A.h) ifits(Ivl{A.l - v, A.h}, "bloat LOW", [&](I& t) { bp::bloat(t, bp::LOW, c); }); if (A.l <= A.h + v) ifits(Ivl{A.l, A.h + v}, "bloat HIGH", [&](I& t) { bp::bloat(t, bp::HIGH, c); });
    if (A.l + v <= A.h) ifits(Ivl{A.l + v, A.h}, "shrink LOW", [&](I& t) { bp::shrink(t, bp::LOW, c); }); if (A.l <= A.h - v) ifits(Ivl{A.l, A.h - v}, "shrink HIGH", [&](I& t) { bp::shrink(t, bp::HIGH, c); }); }
  // scaling
  { int k = s.irange(1, 9); ifits(Ivl{A.l * k, A.h * k}, "scale_up", [&](I& t) { bp::scale_up(t, (T)k); });
    if (!Kind<T>::real) ifits(Ivl{A.l / k, A.h / k}, "scale_down", [&](I& t) { bp::scale_down(t, (T)k); }); else if (A.l % k == 0 && A.h % k == 0) ifits(Ivl{A.l / k, A.h / k}, "scale_down", [&](I& t) { bp::scale_down(t, (T)k); }); }
  { int num = s.irange(1, 64); W l = A.l * num, h = A.h * num;  // the factor num/16 is exact in double
    W lim = (W)1 << 50; if (l > -lim && h < lim) { W wl, wh; if (Kind<T>::real) { wl = l / 16; wh = h / 16; } else { wl = (l + 8) >> 4; wh = (h + 8) >> 4; }
      if (!Kind<T>::real || (l % 16 == 0 && h % 16 == 0)) ifits(Ivl{wl, wh}, "scale", [&](I& t) { bp::scale(t, num / 16.0); }); } }
  s.label("touching", ah || al); s.label("point interval", A.l == A.h || B.l == B.h);
}
// the relational operators and members of interval_data
template <class T> void data(Src& s) {
  int mode = s.irange(0, 3); Ivl A = ivl<T>(s, mode), B = ivl<T>(s, mode); if (s.chance(1, 2)) { if (s.coin()) B.l = A.l; else B.h = A.h; if (B.l > B.h) B = A; } W v = 0; (void)v;
  s.nontrivial(!(A == B)); s.notef([&](std::ostream& o) { o << "interval_data<" << Kind<T>::name() << "> " << A << " " << B; }); typedef bp::interval_data<T> I;
  I a(un<T>(A.l), un<T>(A.h)), b; b.low(un<T>(B.l)); b.high(un<T>(B.h)); SAME("members", b, B); I c(a), d; d = b; SAME("copy", c, A); SAME("assignment", d, B); d.set(bp::LOW, un<T>(A.l)); d.set(bp::HIGH, un<T>(A.h)); SAME("set", d, A);
  Own<T> w = {un<T>(B.l), un<T>(B.h)}; c = w; SAME("assignment of another model", c, B); IS("get", a.get(bp::LOW) == a.low() && a.get(bp::HIGH) == a.high() && re<T>(a.low()) == A.l && re<T>(a.high()) == A.h, true);
  bool lt = A.l < B.l || (A.l == B.l && A.h < B.h), eq = A == B; IS("<", a < b, lt); IS("<=", a <= b, lt || eq); IS(">", a > b, !lt && !eq); IS(">=", a >= b, !lt); IS("==", a == b, eq); IS("!=", a != b, !eq);
}
}
PBT_TARGET(functions, 600000, 20000000) {
  switch (s.irange(0, 7)) {
    case 0: run<int, bp::interval_data<int>, bp::interval_data<int> >(s, "interval_data"); break; case 1: run<int, Own<int>, bp::interval_data<int> >(s, "own and data"); break;
    case 2: run<int, bp::interval_data<int>, Own<int> >(s, "data and own"); break; case 3: run<ll, bp::interval_data<ll>, bp::interval_data<ll> >(s, "interval_data"); break;
    case 4: run<ll, Own<ll>, Own<ll> >(s, "own"); break; case 5: run<double, bp::interval_data<double>, Own<double> >(s, "data and own"); break;
    case 6: run<float, Own<float>, bp::interval_data<float> >(s, "own and data"); break; default: run<double, bp::interval_data<double>, bp::interval_data<double> >(s, "interval_data"); }
}
PBT_TARGET(data, 60000, 1000000) { switch (s.irange(0, 3)) { case 0: data<int>(s); break; case 1: data<ll>(s); break; case 2: data<double>(s); break; default: data<float>(s); } }
PBT_KNOWN(set_past_other_end) {
  bp::interval_data<int> i(0, 5); bp::low(i, 7); CHECKM(bp::low(i) == 7 && bp::high(i) == 7, "low set to 7 leaves [" << i.low() << "," << i.high() << "], documented: both ends 7");
}
