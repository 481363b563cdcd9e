#include "../P05/common.hpp"
#include "mem.hpp"
namespace {
const bp::RoundingOption RO[5] = {bp::CLOSEST, bp::OVERSIZE, bp::UNDERSIZE, bp::SQRT2, bp::SQRT1OVER2};
const char* const RN[5] = {"CLOSEST", "OVERSIZE", "UNDERSIZE", "SQRT2", "SQRT1OVER2"};
const bp::CornerOption CO[3] = {bp::INTERSECTION, bp::ORTHOGONAL, bp::UNFILLED};
const char* const CN[3] = {"INTERSECTION", "ORTHOGONAL", "UNFILLED"};
// how far the offset of a 45-degree line x+y=c (or x-y=c) moves c
ll shift45(ll d, int r) {
  double e = (double)d / 1.4142135623730950488016887242097; ll f = (ll)e;
  switch (r) { case 0: return 2 * (e - (double)f < 0.5 ? f : f + 1); case 1: return 2 * (f + 1); case 2: return 2 * f; case 3: return 2 * d; default: return d; }
}
Ring canon(Ring r) {  // without duplicates and collinear vertices, starting at the least vertex
  Ring o; for (auto& p : r) if (o.empty() || o.back() != p) o.push_back(p);
  while (o.size() > 1 && o.front() == o.back()) o.pop_back();
  for (bool ch = true; ch && o.size() > 2;) { ch = false; for (size_t i = 0; i < o.size(); ++i) { const P &a = o[(i + o.size() - 1) % o.size()], &b = o[i], &c = o[(i + 1) % o.size()]; if (mem::cross(a, b, c) == 0) { o.erase(o.begin() + i); ch = true; break; } } }
  if (!o.empty()) std::rotate(o.begin(), std::min_element(o.begin(), o.end()), o.end());
  return o;
}
// a convex ring with edges at multiples of 45 degrees, counterclockwise
Ring convex(Src& s, ll span) {
  int tries = 0;
  for (;;) {
    ll w = s.range(1, span), h = s.range(1, span), x0 = s.around(-20, 20), y0 = s.around(-20, 20), x1 = x0 + w, y1 = y0 + h, k[4];
    for (int i = 0; i < 4; ++i) k[i] = s.coin() ? s.range(0, std::min(w, h)) : 0;
    if (k[0] + k[1] > w) k[1] = w - k[0]; if (k[1] + k[2] > h) k[2] = h - k[1]; if (k[2] + k[3] > w) k[3] = w - k[2]; if (k[3] + k[0] > h) k[3] = h - k[0];
    Ring r = canon(Ring{{x0 + k[0], y0}, {x1 - k[1], y0}, {x1, y0 + k[1]}, {x1, y1 - k[2]}, {x1 - k[2], y1}, {x0 + k[3], y1}, {x0, y1 - k[3]}, {x0, y0 + k[0]}});
    if (r.size() >= 3 && ref::area2(r) > 0) return r;
    if (++tries > 200) return ref::ring(R{0, 0, 2, 2});
  }
}
// every edge line moved outwards by d (45-degree lines by sh); empty if an edge vanishes
Ring moved(const Ring& r, ll d, ll sh, bool& acute) {
  size_t n = r.size(); struct L { ll a, b, c; }; std::vector<L> ls; acute = false;  // outside: a*x+b*y > c
  for (size_t i = 0; i < n; ++i) { P p = r[i], q = r[(i + 1) % n]; ll dx = (q.x > p.x) - (q.x < p.x), dy = (q.y > p.y) - (q.y < p.y); L l{dy, -dx, 0}; l.c = l.a * p.x + l.b * p.y + (dx && dy ? sh : d); ls.push_back(l);
    P t = r[(i + 2) % n]; ll ex = (t.x > q.x) - (t.x < q.x), ey = (t.y > q.y) - (t.y < q.y); if (dx * ex + dy * ey < 0) acute = true; }
  Ring o;
  for (size_t i = 0; i < n; ++i) { const L &p = ls[(i + n - 1) % n], &q = ls[i]; ll det = p.a * q.b - q.a * p.b; if (!det) return Ring(); ll x = p.c * q.b - q.c * p.b, y = p.a * q.c - q.a * p.c; if (x % det || y % det) return Ring(); o.push_back(P{x / det, y / det}); }
  for (size_t i = 0; i < n; ++i) { P p = r[i], q = r[(i + 1) % n], a = o[i], b = o[(i + 1) % n]; ll len = (q.x - p.x) * (b.x - a.x) + (q.y - p.y) * (b.y - a.y); if (len <= 0) return Ring(); }
  return o;
}
std::vector<Shape> shapes(const QS& q) { QS c(q); std::vector<QW> v; c.get(v); return gen::rshapes_wh(v); }
void do_resize(Src& s, QS& q, ll d, int r, int c) {
  using namespace op; int how = s.irange(0, r == 0 && c == 0 ? 5 : 2);
  switch (how) {
    case 0: q.resize((int)d, RO[r], CO[c]); break;
    case 1: bp::resize(q, (int)d, RO[r], CO[c]); break;
    case 2: { std::vector<QW> v; q.get(v); q.clear(); for (auto& p : v) q.insert_with_resize(p, (int)d, RO[r], CO[c]); break; }
    case 3: if (d >= 0) bp::bloat(q, (unsigned long)d); else bp::shrink(q, (unsigned long)-d); break;
    case 4: if (s.coin()) q += (int)d; else q -= (int)-d; break;
    default: q.resize((int)d);
  }
}
// Euclidean distance test against a region given by disjoint shapes; q and r scaled by k
bool inside(const std::vector<Shape>& v, const P& q) { for (auto& h : v) { int w = mem::winding(h.outer, q) != 0; for (auto& o : h.holes) if (mem::winding(o, q) != 0) w = 0; if (w) return true; } return false; }
bool onedge(const std::vector<Shape>& v, const P& q) { for (auto& h : v) { if (mem::on_ring(h.outer, q)) return true; for (auto& o : h.holes) if (mem::on_ring(o, q)) return true; } return false; }
bool edgewithin(const std::vector<Shape>& v, const P& q, ll d) { for (auto& h : v) { if (mem::near(h.outer, q, d)) return true; for (auto& o : h.holes) if (mem::near(o, q, d)) return true; } return false; }
}  // namespace
PBT_TARGET(convex, 220000, 6000000) {
  ll span = s.pick(std::vector<ll>{6, 12, 40, 1000, 1000000}); Ring r = convex(s, span);
  ll d = s.range(1, std::max<ll>(2, s.coin() ? 8 : span / 2)); if (s.coin()) d = -d;
  int ro = s.irange(0, 4), co = s.irange(0, 1); bool acute;
  s.notef([&](std::ostream& o) { o << "ring " << r << " by " << d << " " << RN[ro] << " " << CN[co]; });
  ll sh = shift45(std::abs(d), ro); Ring want = moved(r, d, d < 0 ? -sh : sh, acute);
  if (want.empty()) { s.label("an edge vanishes"); return; }
  if (sh < std::abs(d)) return;  // UNDERSIZE 1: 45-degree edges stay, their neighbours move
  if (co == 1 && (acute || ro == 4)) return;
  bool diag = false; for (size_t i = 0; i < r.size(); ++i) { const P &a = r[i], &b = r[(i + 1) % r.size()]; if (a.x != b.x && a.y != b.y) diag = true; }
  s.nontrivial(diag); s.label(RN[ro]); s.label(d > 0 ? "grow" : "shrink"); s.label("acute corner", acute);
  QS q; Ring in = gen::vary(s, r); q.insert(bpoly45<int>(in)); do_resize(s, q, d, ro, co);
  std::vector<Shape> got = shapes(q);
  CHECKM(got.size() == 1 && got[0].holes.empty() && canon(got[0].outer) == canon(want), "resize " << d << " " << RN[ro] << " " << CN[co] << " of " << r << ": got " << got << " want " << want);
}
PBT_TARGET(manhattan, 60000, 1500000) {
  gen::Pool p = gen::pool(s, 100000, 8); QS q; ref::Reg g;
  for (int i = s.irange(1, 5); i > 0; --i) { Shape h = gen::shape(s, p, true); q.insert(gen::bpwh90<int>(h)); g = g | ref::Reg::of(h); s.notef([&](std::ostream& o) { o << " " << h; }); }
  ll d = s.range(1, 12); if (s.coin()) { std::vector<ll>& v = s.coin() ? p.xs : p.ys; ll gap = v[1] - v[0]; d = std::max<ll>(1, s.coin() ? gap : (gap + 1) / 2); } if (s.coin()) d = -d;
  int ro = s.irange(0, 4), co = s.irange(0, 1); s.notef([&](std::ostream& o) { o << "by " << d << " " << RN[ro] << " " << CN[co]; });
  ref::Reg want = d > 0 ? g.bloat(d, d, d, d) : g.shrink(-d, -d, -d, -d); s.nontrivial(!want.empty() && want != g);
  do_resize(s, q, d, ro, co);
  std::vector<Shape> got = shapes(q); CHECKM(ref::Reg::of(got) == want, "resize " << d << " of the Manhattan region " << g << ": got " << ref::Reg::of(got) << " want " << want);
}
PBT_TARGET(bounds, 60000, 1500000) {
  Lat l = lattice(s, 6, 100000); Tri g(l.G); QS q; fill(s, l, q, g, 4); g = g.norm(); q.clean();
  std::vector<Shape> a = shapes(q); if (a.empty()) return;
  ll d = s.range(1, s.coin() ? 6 : 3 * l.m + 1); bool shrink = s.coin(); int ro = s.irange(0, 4), co = s.irange(0, 2);
  s.notef([&](std::ostream& o) { o << "m " << l.m << " by " << (shrink ? -d : d) << " " << RN[ro] << " " << CN[co] << " region " << a; });
  QS b(q); do_resize(s, b, shrink ? -d : d, ro, co); std::vector<Shape> c = shapes(b);
  { using namespace op; QS z; if (shrink) z = b - q; else z = q - b; CHECKM(z.empty() || z.has_error_data(), (shrink ? "shrinking adds points" : "growing loses points")); }
  std::vector<Shape> a2, c2; for (auto& h : a) a2.push_back(mem::scaled(h, 2)); for (auto& h : c) c2.push_back(mem::scaled(h, 2));
  // Every edge moves at least lo and no mitre reaches beyond hi (in half units).
  ll dmin = ro == 4 ? d * 7 / 10 : d, dmax = ro == 3 ? d * 3 / 2 + 1 : d;
  if (co == 1) dmin = dmin * 7 / 10;  // a rectangle at acute corners
  ll lo = co == 2 ? -1 : 2 * (dmin - 2), hi = 2 * (dmax * 262 / 100 + 4);
  R e{1000000000, 1000000000, -1000000000, -1000000000}; for (auto& h : a2) for (auto& p : h.outer) { e.x0 = std::min(e.x0, p.x); e.x1 = std::max(e.x1, p.x); e.y0 = std::min(e.y0, p.y); e.y1 = std::max(e.y1, p.y); }
  int nt = 0;
  for (int i = 0; i < 24; ++i) {
    P p{e.x0 + s.range(-hi - 3, e.x1 - e.x0 + hi + 3), e.y0 + s.range(-hi - 3, e.y1 - e.y0 + hi + 3)};
    if (s.coin()) { const Ring& r = a2[s.draw(a2.size())].outer; P v = r[s.draw(r.size())]; p = P{v.x + s.around(-hi - 3, hi + 3), v.y + s.around(-hi - 3, hi + 3)}; }
    if (onedge(a2, p) || onedge(c2, p)) continue;
    bool ia = inside(a2, p), ic = inside(c2, p);
    if (!shrink) {
      if (!ia && lo >= 0 && edgewithin(a2, p, lo)) { ++nt; CHECKM(ic, "point " << p << "/2 is within " << lo << "/2 of the region and not in the grown set " << c); }
      if (!ia && !edgewithin(a2, p, hi)) { CHECKM(!ic, "point " << p << "/2 is farther than " << hi << "/2 from the region and in the grown set " << c); }
      if (ia) CHECKM(ic, "point " << p << "/2 of the region is not in the grown set " << c);
    } else {
      if (ia && lo >= 0 && edgewithin(a2, p, lo)) { ++nt; CHECKM(!ic, "point " << p << "/2 is within " << lo << "/2 of the outside and in the shrunk set " << c); }
      if (ia && !edgewithin(a2, p, hi)) { ++nt; CHECKM(ic, "point " << p << "/2 is farther than " << hi << "/2 from the outside and not in the shrunk set " << c); }
      if (!ia) CHECKM(!ic, "point " << p << "/2 outside the region is in the shrunk set " << c);
    }
  }
  s.nontrivial(nt >= 2 && !g.manhattan());
}
PBT_TARGET(grow_and, 40000, 1000000) {
  Lat l = lattice(s, 6, 100000); Tri g(l.G); QS q; fill(s, l, q, g, 5); q.clean();
  ll d = s.range(1, l.m * 2 + 2); std::vector<QD> v; { QS c(q); c.get(v); }
  QS want; for (auto& p : v) { QS t; t.insert(p); t.resize((int)d); t.clean(); want.insert(t); } want.self_intersect();
  s.notef([&](std::ostream& o) { o << "m " << l.m << " grow_and " << d << " " << gen::rshapes(v); });
  bp::grow_and(q, (unsigned long)d); s.nontrivial(!want.empty()); CHECKM(q == want, "grow_and: " << shapes(q) << " want " << shapes(want));
}
// The same region far away, in long long coordinates, is resized the same.
PBT_TARGET(far_away, 30000, 600000) {
  typedef bp::polygon_45_set_data<ll> QL; typedef bp::polygon_45_with_holes_data<ll> WL;
  Lat l = lattice(s, 6, 100000); Tri g(l.G); QS q; fill(s, l, q, g, 4); q.clean(); std::vector<QW> v; { QS c(q); c.get(v); }
  ll ox = 2 * s.around(-(1ll << 38), 1ll << 38), oy = 2 * s.around(-(1ll << 38), 1ll << 38), d = s.range(1, 2 * l.m + 2); bool shrink = s.coin(); int ro = s.irange(0, 4), co = s.irange(0, 2); if (shrink) d = -d;
  s.notef([&](std::ostream& o) { o << "m " << l.m << " by " << d << " " << RN[ro] << " " << CN[co] << " moved by " << P{ox, oy} << " region " << gen::rshapes_wh(v); });
  QL w; for (auto& p : v) { std::vector<bp::point_data<ll> > t; for (auto i = p.begin(); i != p.end(); ++i) t.push_back(bp::point_data<ll>(i->x() + ox, i->y() + oy)); bp::polygon_45_data<ll> r(t.begin(), t.end()); w.insert(r);
    for (auto h = p.begin_holes(); h != p.end_holes(); ++h) { t.clear(); for (auto i = h->begin(); i != h->end(); ++i) t.push_back(bp::point_data<ll>(i->x() + ox, i->y() + oy)); bp::polygon_45_data<ll> r2(t.begin(), t.end()); w.insert(r2, true); } }
  QS a; for (auto& p : v) a.insert(p); a.resize((int)d, RO[ro], CO[co]); w.resize(d, RO[ro], CO[co]); a.clean(); w.clean();
  std::vector<QW> va; a.get(va); std::vector<WL> vw; w.get(vw); std::vector<Shape> sa = gen::rshapes_wh(va), sw = gen::rshapes_wh(vw);
  for (auto& h : sw) { for (auto& p : h.outer) p = P{p.x - ox, p.y - oy}; for (auto& r : h.holes) for (auto& p : r) p = P{p.x - ox, p.y - oy}; }
  s.nontrivial(!va.empty() && !g.manhattan()); bool same = sa.size() == sw.size(); for (size_t i = 0; same && i < sa.size(); ++i) same = sa[i].outer == sw[i].outer && sa[i].holes == sw[i].holes; CHECKM(same, "resized far away (and moved back): " << sw << " near the origin: " << sa);
}

// Growing a shape and shrinking the plane around it are the same thing.
PBT_TARGET(duality, 60000, 1500000) {
  ll span = s.pick(std::vector<ll>{6, 12, 40, 1000, 100000}); Ring r = convex(s, span); ll d = s.range(1, std::max<ll>(2, s.coin() ? 8 : span / 2)); if (s.coin()) d = -d;
  int ro = s.irange(0, 4), co = s.irange(0, 2); ll m = 4 * (span + std::abs(d)) + 100; bool odd = false;
  for (auto& p : r) odd |= (p.x & 1) != 0;
  s.notef([&](std::ostream& o) { o << "hole " << r << " by " << d << " " << RN[ro] << " " << CN[co]; });
  QS a, b, big; a.insert(bpoly45<int>(gen::vary(s, r))); big.insert(RD((int)-m, (int)-m, (int)m, (int)m)); b.insert(RD((int)-m, (int)-m, (int)m, (int)m)); b.insert(bpoly45<int>(gen::vary(s, r)), true);
  do_resize(s, a, d, ro, co); do_resize(s, b, -d, ro, co); big.resize((int)-d, RO[ro], CO[co]);
  QS want; { using namespace op; a.clean(); big.clean(); want = big - a; }
  s.nontrivial(!a.empty() && !a.is_manhattan()); s.label(RN[ro]); s.label(CN[co]); s.label(d > 0 ? "hole grows" : "hole shrinks");
  CHECKM(b == want, "resized by " << -d << " around the hole: " << shapes(b) << " want " << shapes(want));
}
