#include "gen90.hpp"
using namespace gen;
typedef bp::polygon_90_set_data<int> PS;
typedef bp::rectangle_data<int> RD;
typedef bp::polygon_90_data<int> PD;
typedef bp::polygon_90_with_holes_data<int> WD;

struct Case { Reg g; std::vector<RD> rects; std::vector<WD> polys; PS ps; Pool p; };
static Case make(Src& s, bool bare = false) {
  Case c; c.ps = PS(s.coin() ? bp::VERTICAL : bp::HORIZONTAL); c.p = pool(s, 200000000LL, 9);
  std::vector<Reg::E> es;
  if (s.coin()) {  // bitmap of cells
    int dens = s.irange(2, 8);
    for (size_t i = 0; i + 1 < c.p.xs.size(); ++i) for (size_t j = 0; j + 1 < c.p.ys.size(); ++j) if (s.draw(10) >= (uint64_t)(10 - dens)) {
      R r{c.p.xs[i], c.p.ys[j], c.p.xs[i + 1], c.p.ys[j + 1]}; Reg::add_rect(es, r); c.rects.push_back(brect<int>(r)); }
  } else for (int i = s.count(1, 6); i > 0; --i) {
    if (s.coin()) { R r = rect(s, c.p); Reg::add_rect(es, r); c.rects.push_back(brect<int>(r)); }
    else { Shape h = shape(s, c.p, true); Reg::add_shape(es, h); c.polys.push_back(bpwh90<int>(h)); }
  }
  c.g = Reg::from_edges(es);
  c.ps.insert(c.rects.begin(), c.rects.end()); c.ps.insert(c.polys.begin(), c.polys.end());
  if (s.chance(1, 4)) c.ps.clean();
  s.notef([&](std::ostream& o) { o << "orient " << c.ps.orient().to_int() << " region " << c.g; });
  return c;
}
static ll amount(Src& s, const Pool& p) {
  int k = s.weighted({5, 1, 2});
  if (k == 0) return s.range(0, 6);
  if (k == 1) return 0;
  const std::vector<ll>& v = s.coin() ? p.xs : p.ys;
  int i = s.irange(0, (int)v.size() - 2); ll d = v[i + 1] - v[i];
  ll e = s.irange(-1, 1);
  d = s.coin() ? d / 2 + e : d + e;
  return std::max(0LL, std::min(d, 200000000LL));
}
struct Amt { ll w, e, s, n; };
static Amt amounts(Src& s, const Pool& p) {
  Amt a; a.w = amount(s, p);
  if (s.coin()) { a.e = a.s = a.n = a.w; } else { a.e = amount(s, p); a.s = amount(s, p); a.n = amount(s, p); }
  s.notef([&](std::ostream& o) { o << "w,e,s,n = " << a.w << ',' << a.e << ',' << a.s << ',' << a.n; });
  return a;
}
static Reg grow(const Reg& g, const Amt& a) { return g.bloat(a.w, a.e, a.s, a.n); }
static Reg shrk(const Reg& g, const Amt& a) { return g.shrink(a.w, a.e, a.s, a.n); }
static Reg shift(const Reg& g, ll dx, ll dy) { return g.map([=](P q) { return P{q.x + dx, q.y + dy}; }); }
// resize by signed amounts
static Reg sized(const Reg& g, ll w, ll e, ll so, ll n) {
  Reg r = shift(g, -w, -so); ll et = w + e, nt = so + n;
  if (et < 0) r = r.shrink(0, -et, 0, 0);
  if (nt < 0) r = r.shrink(0, 0, 0, -nt);
  return r.bloat(0, std::max(0LL, et), 0, std::max(0LL, nt));
}
template <class PSet> static void same(const PSet& ps, const Reg& want, const char* what) {
  std::vector<R> v = get_rects(ps);
  CHECKM(disjoint(v), what << ": overlapping rectangles");
  Reg got = Reg::of(v);
  CHECKM(got == want, what << ": got " << got << " want " << want);
  CHECKM(raw_region(ps) == want, what << ": raw data");
}
PBT_TARGET(members, 450000, 9000000) {
  Case c = make(s); Amt a = amounts(s, c.p); int k = s.irange(0, 7);
  s.nontrivial(c.g.rects().size() >= 2 && a.w + a.e + a.s + a.n > 0);
  PS q = c.ps;
  switch (k) {
    case 0: q.bloat(a.w, a.e, a.s, a.n); s.label("bloat"); same(q, grow(c.g, a), "bloat"); break;
    case 1: q.shrink(a.w, a.e, a.s, a.n); s.label("shrink"); s.label("shrink keeps something", !shrk(c.g, a).empty() && !c.g.empty()); same(q, shrk(c.g, a), "shrink"); break;
    case 2: { int d = s.irange(0, 3); Amt b{0, 0, 0, 0}; bp::direction_2d dir = d == 0 ? bp::WEST : d == 1 ? bp::EAST : d == 2 ? bp::SOUTH : bp::NORTH;
      (d == 0 ? b.w : d == 1 ? b.e : d == 2 ? b.s : b.n) = a.w; s.label("directional");
      if (s.coin()) { q.bloat(dir, a.w); same(q, grow(c.g, b), "bloat(direction)"); } else { q.shrink(dir, a.w); same(q, shrk(c.g, b), "shrink(direction)"); } break; }
    case 3: { ll w = s.coin() ? a.w : -a.w, e = s.coin() ? a.e : -a.e, so = s.coin() ? a.s : -a.s, n = s.coin() ? a.n : -a.n;
      s.notef([&](std::ostream& o) { o << "signed " << w << ',' << e << ',' << so << ',' << n; }); s.label("resize signed");
      q.resize(w, e, so, n); same(q, sized(c.g, w, e, so, n), "resize"); break; }
    case 4: q.bloat2(a.w, a.e, a.s, a.n); same(q, grow(c.g, a), "bloat2"); break;
    case 5: { // composition: bloats add up, a shrink undoes no more than the bloat did
      Amt b = amounts(s, c.p); q.bloat(a.w, a.e, a.s, a.n); q.bloat(b.w, b.e, b.s, b.n);
      same(q, c.g.bloat(a.w + b.w, a.e + b.e, a.s + b.s, a.n + b.n), "bloat twice"); break; }
    case 6: { q.bloat(a.w, a.e, a.s, a.n); q.shrink(a.w, a.e, a.s, a.n); Reg m = grow(c.g, a); same(q, shrk(m, a), "close"); break; }
    default: { q.shrink(a.w, a.e, a.s, a.n); q.bloat(a.w, a.e, a.s, a.n); same(q, grow(shrk(c.g, a), a), "open"); break; }
  }
}
template <class Cont> static Reg reg_of(const Cont& c) { PS t; t.insert(c.begin(), c.end()); return raw_region(t); }
static Reg reg_of(const PS& c) { std::vector<R> v = get_rects(c); CHECK(disjoint(v)); return Reg::of(v); }
template <class T> static void free_ops(Src& s, T& t, const Case& c, const Amt& a, bool disjointResult) {
  using namespace boost::polygon::operators;
  Reg want; int k = s.irange(0, 11); const char* what = "";
  bp::orientation_2d o = s.coin() ? bp::HORIZONTAL : bp::VERTICAL; bool H = o == bp::HORIZONTAL;
  int d = s.irange(0, 3); Amt b{0, 0, 0, 0}; bp::direction_2d dir = d == 0 ? bp::WEST : d == 1 ? bp::EAST : d == 2 ? bp::SOUTH : bp::NORTH;
  (d == 0 ? b.w : d == 1 ? b.e : d == 2 ? b.s : b.n) = a.w;
  Amt u{a.w, a.w, a.w, a.w}, o1{H ? a.w : 0, H ? a.w : 0, H ? 0 : a.w, H ? 0 : a.w}, o2{H ? a.w : 0, H ? a.e : 0, H ? 0 : a.w, H ? 0 : a.e};
  typedef unsigned long ul;
  switch (k) {
    case 0: bp::bloat(t, (ul)a.w); want = grow(c.g, u); what = "bloat(set,v)"; break;
    case 1: bp::shrink(t, (ul)a.w); want = shrk(c.g, u); what = "shrink(set,v)"; break;
    case 2: bp::bloat(t, o, (ul)a.w); want = grow(c.g, o1); what = "bloat(set,orient,v)"; break;
    case 3: bp::shrink(t, o, (ul)a.w); want = shrk(c.g, o1); what = "shrink(set,orient,v)"; break;
    case 4: bp::bloat(t, o, (ul)a.w, (ul)a.e); want = grow(c.g, o2); what = "bloat(set,orient,l,h)"; break;
    case 5: bp::shrink(t, o, (ul)a.w, (ul)a.e); want = shrk(c.g, o2); what = "shrink(set,orient,l,h)"; break;
    case 6: bp::bloat(t, dir, (ul)a.w); want = grow(c.g, b); what = "bloat(set,dir,v)"; break;
    case 7: bp::shrink(t, dir, (ul)a.w); want = shrk(c.g, b); what = "shrink(set,dir,v)"; break;
    case 8: bp::bloat(t, (ul)a.w, (ul)a.e, (ul)a.s, (ul)a.n); want = grow(c.g, a); what = "bloat(set,w,e,s,n)"; break;
    case 9: bp::shrink(t, (ul)a.w, (ul)a.e, (ul)a.s, (ul)a.n); want = shrk(c.g, a); what = "shrink(set,w,e,s,n)"; break;
    case 10: { int v = s.coin() ? (int)a.w : -(int)a.w; bp::resize(t, v); want = v >= 0 ? grow(c.g, u) : shrk(c.g, u); what = "resize(set,v)"; break; }
    default: { ll w = s.coin() ? a.w : -a.w, e = s.coin() ? a.e : -a.e, so = s.coin() ? a.s : -a.s, n = s.coin() ? a.n : -a.n;
      bp::resize(t, (int)w, (int)e, (int)so, (int)n); want = sized(c.g, w, e, so, n); what = "resize(set,w,e,s,n)"; break; }
  }
  s.label(what);
  Reg got = reg_of(t);
  CHECKM(got == want, what << ": got " << got << " want " << want << " amounts " << a.w << ' ' << a.e << ' ' << a.s << ' ' << a.n);
}
PBT_TARGET(free_functions, 350000, 7000000) {
  Case c = make(s); Amt a = amounts(s, c.p); int k = s.irange(0, 3);
  s.nontrivial(c.g.rects().size() >= 2 && a.w + a.e + a.s + a.n > 0);
  if (k == 0) { free_ops(s, c.ps, c, a, true); }
  else if (k == 1) { std::vector<RD> v; c.ps.get(v); free_ops(s, v, c, a, true); }
  else if (k == 2) { std::vector<PD> v; c.ps.get(v); free_ops(s, v, c, a, true); }
  else { std::list<WD> v; c.ps.get(v); free_ops(s, v, c, a, true); }
}
PBT_TARGET(operators, 250000, 5000000) {
  using namespace boost::polygon::operators;
  Case c = make(s); int v = (int)amount(s, c.p); bool neg = s.coin(); int k = s.irange(0, 3), t = s.irange(0, 2);
  s.nontrivial(c.g.rects().size() >= 2 && v > 0);
  int x = neg ? -v : v; bool plus = k < 2; int eff = plus ? x : -x;
  Reg want = eff >= 0 ? c.g.bloat(eff, eff, eff, eff) : c.g.shrink(-eff, -eff, -eff, -eff), got;
  s.notef([&](std::ostream& o) { o << "op " << k << " type " << t << " value " << x; });
  auto run = [&](auto& q) {
    auto orig = q;
    if (k == 0) { auto r = q + x; got = reg_of(r); CHECKM(reg_of(q) == c.g, "operator+ changed its operand"); }
    else if (k == 1) { auto& r = (q += x); CHECK(&r == &q); got = reg_of(q); }
    else if (k == 2) { auto r = q - x; got = reg_of(r); CHECKM(reg_of(q) == c.g, "operator- changed its operand"); }
    else { auto& r = (q -= x); CHECK(&r == &q); got = reg_of(q); }
  };
  if (t == 0) run(c.ps);
  else if (t == 1) { std::vector<PD> q; c.ps.get(q); run(q); }
  else { std::vector<RD> q; c.ps.get(q); run(q); }
  CHECKM(got == want, "set op coordinate: got " << got << " want " << want);
}
PBT_TARGET(grow_and, 200000, 4000000) {
  Case c = make(s); Amt a = amounts(s, c.p);
  std::vector<Reg::E> es; auto comp = components(c.g.rects(), false);
  s.nontrivial(comp.size() >= 2 && a.w + a.e + a.s + a.n > 0);
  int k = s.irange(0, 4), t = s.irange(0, 1);
  bp::orientation_2d o = s.coin() ? bp::HORIZONTAL : bp::VERTICAL; bool H = o == bp::HORIZONTAL;
  int d = s.irange(0, 3); bp::direction_2d dir = d == 0 ? bp::WEST : d == 1 ? bp::EAST : d == 2 ? bp::SOUTH : bp::NORTH;
  Amt b = a;
  if (k == 1) b = Amt{a.w, a.w, a.w, a.w}; else if (k == 2) b = Amt{H ? a.w : 0, H ? a.w : 0, H ? 0 : a.w, H ? 0 : a.w};
  else if (k == 3) b = Amt{H ? a.w : 0, H ? a.e : 0, H ? 0 : a.w, H ? 0 : a.e};
  else if (k == 4) { b = Amt{0, 0, 0, 0}; (d == 0 ? b.w : d == 1 ? b.e : d == 2 ? b.s : b.n) = a.w; }
  for (auto& q : comp) { Reg r = Reg::of(q).bloat(b.w, b.e, b.s, b.n); for (auto& z : r.rects()) Reg::add_rect(es, z); }
  Reg want = Reg::from_edges(es, [](int n) { return n >= 2; });
  s.label("overlap after growing", !want.empty());
  typedef unsigned long ul;
  auto run = [&](auto& q) {
    switch (k) { case 0: bp::grow_and(q, (ul)a.w, (ul)a.e, (ul)a.s, (ul)a.n); break; case 1: bp::grow_and(q, (ul)a.w); break; case 2: bp::grow_and(q, o, (ul)a.w); break;
      case 3: bp::grow_and(q, o, (ul)a.w, (ul)a.e); break; default: bp::grow_and(q, dir, (ul)a.w); }
    Reg got = reg_of(q);
    CHECKM(got == want, "grow_and: got " << got << " want " << want);
  };
  if (t == 0) run(c.ps); else { std::vector<PD> q; c.ps.get(q); run(q); }
}
