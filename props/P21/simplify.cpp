// simplify on point sequences and on polygon sets.  A kept subsequence is
// justified when every removed vertex is within (number removed in its gap) x
// len of the edge that replaces the gap.
#include "arbset.hpp"
namespace {
typedef bp::point_data<int> Pt; typedef bp::point_data<double> PtD; struct Own { int y, x; };
}
namespace boost { namespace polygon {
template <> struct geometry_concept<Own> { typedef point_concept type; };
template <> struct point_traits<Own> { typedef int coordinate_type; static int get(const Own& p, orientation_2d o) { return o == HORIZONTAL ? p.x : p.y; } };
} }
namespace {
template <class T> struct Mk; template <> struct Mk<Pt> { static Pt of(const P& p) { return Pt((int)p.x, (int)p.y); } }; template <> struct Mk<PtD> { static PtD of(const P& p) { return PtD((double)p.x, (double)p.y); } }; template <> struct Mk<Own> { static Own of(const P& p) { Own o; o.x = (int)p.x; o.y = (int)p.y; return o; } };
LD dist(const P& a, const P& b, const P& q) {  // to the segment
  LD dx = (LD)b.x - a.x, dy = (LD)b.y - a.y, ux = (LD)q.x - a.x, uy = (LD)q.y - a.y, l = dx * dx + dy * dy, t = ux * dx + uy * dy; if (l == 0 || t <= 0) return sqrtl(ux * ux + uy * uy); if (t >= l) { LD vx = (LD)q.x - b.x, vy = (LD)q.y - b.y; return sqrtl(vx * vx + vy * vy); } return fabsl((LD)mem::cross(a, b, q)) / sqrtl(l);
}
LD eps(const std::vector<P>& v) { LD m = 1; for (auto& p : v) m = std::max(m, std::max(fabsl((LD)p.x), fabsl((LD)p.y))); return m * 1e-9L; }
// indices of w in v as a cyclic subsequence whose gaps are all justified
bool justified(const std::vector<P>& v, const std::vector<P>& w, LD len, LD e) {
  size_t n = v.size(), m = w.size();
  for (size_t r = 0; r < n; ++r) {  // v rotated to start at a copy of w[0]
    if (v[r] != w[0]) continue; auto at = [&](size_t i) -> const P& { return v[(r + i) % n]; };
    std::vector<std::vector<char> > ok(m + 1, std::vector<char>(n + 1, 0)); ok[0][0] = 1;  // ok[j][i]: w[j] sits at i
    for (size_t j = 0; j < m; ++j) for (size_t i = 0; i < n; ++i) if (ok[j][i]) for (size_t k = i + 1; k <= n; ++k) {
      const P& t = j + 1 < m ? w[j + 1] : w[0]; if (j + 1 < m ? k >= n || at(k) != t : k != n) continue; LD far = 0; for (size_t q = i + 1; q < k; ++q) far = std::max(far, dist(w[j], t, at(q))); if (far <= len * (LD)(k - i - 1) + e) ok[j + 1][k] = 1; }
    if (ok[m][n]) return true;
  }
  return false;
}
std::vector<P> gen_points(Src& s, ll& len) {
  int m = s.weighted({4, 4, 2, 1}); ll half = m == 0 ? s.range(2, 8) : m == 1 ? s.range(10, 100) : m == 2 ? s.range(100, 100000) : s.range(100000, 1000000000), cx = s.around(-half, half) / 2, cy = s.around(-half, half) / 2; int n = s.irange(3, s.chance(1, 8) ? 40 : 12); std::vector<P> v; auto pt = [&] { return P{cx + s.range(-half, half), cy + s.range(-half, half)}; };
  len = s.weighted({4, 3, 1, 1}); len = len == 0 ? 0 : len == 1 ? s.range(1, 3) : len == 2 ? s.range(1, half) : s.range(half, 3 * half);
  ll small = std::max<ll>(1, len ? len : 2); int style = s.weighted({3, 2, 1});
  if (style == 2) { Ring r = sixteen(s, Frame{-half, half}, false); if (usable(r)) for (size_t i = 0; i < r.size(); ++i) { v.push_back(r[i]); const P &a = r[i], &b = r[(i + 1) % r.size()]; for (int k = s.count(0, 3); k > 0; --k) { v.push_back(P{(a.x + b.x) / 2, (a.y + b.y) / 2}); } } }
  while ((int)v.size() < n) {
    if (v.empty() || s.chance(2, 5)) v.push_back(pt());
    else if (v.size() > 1 && s.coin()) { const P &a = v[v.size() - 2], &b = v.back(); ll k = s.around(-2, 3); v.push_back(P{b.x + (b.x - a.x) * k, b.y + (b.y - a.y) * k}); if (std::llabs(v.back().x) > 2000000000 || std::llabs(v.back().y) > 2000000000) v.back() = pt(); }  // ahead or back on the line
    else { ll sp = std::min<ll>(small, 1000000); v.push_back(P{v.back().x + s.around(-sp, sp), v.back().y + s.around(-sp, sp)}); }
  }
  if (s.chance(1, 10)) { size_t i = s.draw(v.size()); v.insert(v.begin() + i, v[i]); } if (s.chance(1, 3)) v.push_back(v[0]);
  return v;
}
template <class T> void run(Src& s) {
  ll len; std::vector<P> v = gen_points(s, len); s.notef([&](std::ostream& o) { o << "len " << len << " points " << v; }); std::vector<T> src, dst; for (auto& p : v) src.push_back(Mk<T>::of(p));
  bool alias = s.coin(); size_t n; if (alias) { dst = src; n = bp::detail::simplify_detail::simplify(dst, dst, len); } else { if (s.coin()) dst.resize(3, src[0]); n = bp::detail::simplify_detail::simplify(dst, src, len); for (size_t i = 0; i < v.size(); ++i) CHECKM((ll)bp::x(src[i]) == v[i].x && (ll)bp::y(src[i]) == v[i].y, "the source changed"); }
  std::vector<P> w; for (auto& p : dst) w.push_back(P{(ll)bp::x(p), (ll)bp::y(p)}); bool closed = v[0] == v.back();
  CHECKM(n == v.size() - w.size(), "reports " << n << " of " << v.size() << " removed, result " << w); s.label("emptied", w.empty()); s.label("closed", closed); if (w.empty()) return;
  if (closed) { CHECKM(w.size() >= 4 && w[0] == w.back(), "closed input, result " << w); w.pop_back(); v.pop_back(); } CHECKM(w.size() >= 3, "result " << w);
  LD e = eps(v); CHECKM(justified(v, w, (LD)len, e), "result " << w << " is farther from the input than " << len << " per vertex removed");
  for (size_t i = 0; i < w.size(); ++i) { LD d = dist(w[(i + w.size() - 1) % w.size()], w[(i + 1) % w.size()], w[i]); CHECKM(d >= (LD)len - e, "vertex " << w[i] << " within " << len << " of its neighbours' segment was kept: " << w); if (len == 0 && e < 1e-4L) CHECKM(d > 0, "vertex " << w[i] << " on its neighbours' segment was kept: " << w); }
  std::vector<T> again; size_t n2 = bp::detail::simplify_detail::simplify(again, dst, len); CHECKM(n2 == 0 && again.size() == dst.size(), "a second pass removes " << n2); std::vector<P> w2; for (auto& p : again) w2.push_back(P{(ll)bp::x(p), (ll)bp::y(p)}); if (closed) w2.pop_back(); CHECKM(justified(w, w2, 0, 0), "a second pass changes the points to " << w2);
  s.nontrivial(w.size() < v.size());
}
}
PBT_TARGET(points, 120000, 3000000) { switch (s.weighted({3, 1, 1})) { case 0: run<Pt>(s); break; case 1: run<PtD>(s); break; default: run<Own>(s); } }
namespace {
template <class A> void set_case(Src& s, const char* name) {
  Ctx c; start(s, c); s.note(name); Opd oa = OT<A>::plan(s, c); bool exact = settle(s, c, s.coin()); if (c.skip) return; A a = OT<A>::build(oa, c.k);
  std::vector<GW> before; bp::assign(before, a); size_t big = 0, all = 0, nr = 0; ll ext = 1; for (auto& sh : gen::rshapes_wh(before)) { auto one = [&](const Ring& r) { big = std::max(big, r.size()); all += r.size(); ++nr; for (auto& p : r) ext = std::max(ext, std::max(std::llabs(p.x), std::llabs(p.y))); }; one(sh.outer); for (auto& h : sh.holes) one(h); }
  ll len = s.weighted({3, 3, 1}); len = len == 0 ? 0 : len == 1 ? s.range(1, 4) : s.range(ext, 4 * ext); s.notef([&](std::ostream& o) { o << "len " << len; });
  size_t n = bp::simplify(a, len); CHECKM(n <= all + nr, "reports " << n << " removed of " << all);
  std::vector<GW> after; bp::assign(after, a); std::vector<Ring> rg = rings_of(gen::rshapes_wh(after)); size_t left = 0; for (auto& r : rg) left += r.size(); s.label("shortened", left < all); s.label("kept", n == 0);
  if (len > 2 * ext) { CHECKM(rg.empty(), "polygons of extent " << ext << " survive simplification by " << len << ": " << rg); s.label("emptied"); return; }
  const bool slit = std::is_same<A, VG>::value;  // holes are cut open, which adds vertices
  if (slit && exact && len == 0) { Diff d = compare(c.w, oa.region, rg); CHECKM(d.wrong <= extent_eps(c.w.rings), "wrong on area " << (double)d.wrong << "; output " << rg); }
  check_rings(s, c, rg, oa.region, exact && len == 0 && !slit, "after simplify", (len == 0 ? 0 : len * (ll)big) + 2 * SNAP); s.nontrivial(all > 3);
}
}
PBT_TARGET(sets, 12000, 300000) { switch (s.irange(0, 3)) { case 0: case 1: set_case<GS>(s, "set"); break; case 2: set_case<VG>(s, "vector of polygons"); break; default: set_case<LG>(s, "list of polygons with holes"); } }
