// Resizing of general sets.  mitred: against polygons whose edges are moved in
// long double arithmetic, used when no edge vanishes and no ring crosses
// itself.  arcs: against the distance to the region and to its complement.
#include "simple.hpp"
namespace {
struct Q { LD x, y; };
typedef std::vector<Q> QR;
LD cr(const Q& a, const Q& b, const Q& c) { return (b.x - a.x) * (c.y - a.y) - (b.y - a.y) * (c.x - a.x); }
LD segdist(const Q& a, const Q& b, const Q& q) { LD dx = b.x - a.x, dy = b.y - a.y, l = dx * dx + dy * dy, t = l == 0 ? 0 : ((q.x - a.x) * dx + (q.y - a.y) * dy) / l; t = std::max((LD)0, std::min((LD)1, t)); return hypotl(a.x + t * dx - q.x, a.y + t * dy - q.y); }
int wind(const QR& r, const Q& q) { int w = 0; for (size_t i = 0, n = r.size(); i < n; ++i) { const Q &a = r[i], &b = r[(i + 1) % n]; if (a.y <= q.y) { if (b.y > q.y && cr(a, b, q) > 0) ++w; } else if (b.y <= q.y && cr(a, b, q) < 0) --w; } return w; }
LD ringdist(const QR& r, const Q& q) { LD d = 1e30L; for (size_t i = 0; i < r.size(); ++i) d = std::min(d, segdist(r[i], r[(i + 1) % r.size()], q)); return d; }
// every edge of the counterclockwise ring moved to its right by d; false when
// an edge gets shorter than 8 or turns round, or edges cross or come close
bool offset(Ring r, LD d, QR& o) {
  Ring c; for (size_t i = 0; i < r.size(); ++i) if (r[i] != r[(i + 1) % r.size()]) c.push_back(r[i]); r.clear(); for (size_t i = 0; i < c.size(); ++i) if (mem::cross(c[(i + c.size() - 1) % c.size()], c[i], c[(i + 1) % c.size()]) != 0) r.push_back(c[i]);
  size_t n = r.size(); if (n < 3) return false; o.assign(n, Q());
  for (size_t i = 0; i < n; ++i) {
    const P &p = r[(i + n - 1) % n], &q = r[i], &t = r[(i + 1) % n]; LD ax = q.x - p.x, ay = q.y - p.y, bx = t.x - q.x, by = t.y - q.y, la = hypotl(ax, ay), lb = hypotl(bx, by); ax /= la; ay /= la; bx /= lb; by /= lb;
    LD cx = ay + by, cy = -ax - bx, l = 1 + ax * bx + ay * by; if (l < 1e-4L) return false; o[i] = Q{q.x + d * cx / l, q.y + d * cy / l}; if (fabsl(o[i].x) > 1e6L || fabsl(o[i].y) > 1e6L) return false;
  }
  for (size_t i = 0; i < n; ++i) { const P &p = r[i], &q = r[(i + 1) % n]; const Q &a = o[i], &b = o[(i + 1) % n]; LD e = ((b.x - a.x) * (q.x - p.x) + (b.y - a.y) * (q.y - p.y)) / hypotl(q.x - p.x, q.y - p.y); if (e < 8) return false; }
  for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) if (j != i && (j + 1) % n != i && segdist(o[j], o[(j + 1) % n], o[i]) < 8) return false;
  for (size_t i = 0; i < n; ++i) for (size_t j = i + 2; j < n; ++j) { if (i == 0 && j == n - 1) continue; const Q &a = o[i], &b = o[i + 1], &c = o[j], &e = o[(j + 1) % n]; if ((cr(a, b, c) > 0) != (cr(a, b, e) > 0) && (cr(c, e, a) > 0) != (cr(c, e, b) > 0)) return false; }
  return true;
}
Ring ccw(Ring r) { if (ref::area2(r) < 0) std::reverse(r.begin(), r.end()); return r; }
Q toQ(const P& p) { return Q{(LD)p.x, (LD)p.y}; }
QR toQ(const Ring& r) { QR o; for (auto& p : r) o.push_back(toQ(p)); return o; }
std::vector<Shape> gen_set(Src& s, Frame& f, ll& k) {
  f = frame(s, 100000); k = s.weighted({1, 3, 3, 2}); k = k == 0 ? 1 : k == 1 ? 16 : k == 2 ? 100 : 1000; while (std::max(std::llabs(f.lo), std::llabs(f.hi)) * k > 200000) { f.lo /= 4; f.hi = std::max(f.hi / 4, f.lo + 4); if (k > 100 && f.hi > 200) k = 100; }
  std::vector<Shape> v; int n = s.weighted({8, 3, 1}) + 1; for (int i = 0; i < n; ++i) { Shape h = mem::scaled(gen_simple(s, f), k); v.push_back(h); if (!sturdy(v)) v.pop_back(); }
  s.notef([&](std::ostream& o) { o << v; }); return v;
}
bool disjoint(const std::vector<Shape>& v) { for (size_t i = 0; i < v.size(); ++i) for (size_t j = 0; j < v.size(); ++j) if (i != j) { if (mem::winding(v[j].outer, v[i].outer[0])) { bool hole = false; for (auto& h : v[j].holes) hole = hole || mem::winding(h, v[i].outer[0]); if (!hole) return false; } auto a = segs(rings_of({v[i]})), b = segs(rings_of({v[j]})); Frac f; for (auto& x : a) for (auto& y : b) if (cross_at(x, y, f)) return false; } return true; }
std::vector<Ring> rings_out(const GS& g) { return out_rings(g); }
GS build(Src& s, const std::vector<Shape>& v) { GS g; for (auto& h : v) g.insert(bpwhd<int>(s.coin() ? vary(s, h) : h)); if (s.coin()) g.clean(); return g; }
std::vector<Ring> apply(Src& s, const std::vector<Shape>& v, int d) {
  int form = s.irange(0, 7); s.notef([&](std::ostream& o) { o << "resize by " << d << " form " << form; }); GS g = build(s, v); using namespace boost::polygon::operators;
  if (form == 0) return rings_out(g + d); if (form == 1) return rings_out(g - -d); if (form == 2) { g += d; return rings_out(g); } if (form == 3) { g -= -d; return rings_out(g); }
  if (form == 4) { g.resize(d); return rings_out(g); } if (form == 5) { bp::resize(g, d); return rings_out(g); }
  if (form == 6) { if (d >= 0) bp::bloat(g, (unsigned)d); else bp::shrink(g, (unsigned)-d); return rings_out(g); }
  std::vector<GW> w; for (auto& h : v) w.push_back(bpwhd<int>(h)); if (d >= 0) bp::bloat(w, (unsigned)d); else bp::shrink(w, (unsigned)-d); return rings_of(gen::rshapes_wh(w));
}
}
PBT_TARGET(mitred, 40000, 800000) {
  Frame f; ll k; std::vector<Shape> v = gen_set(s, f, k); if (v.empty() || !disjoint(v)) { s.label("excluded: not disjoint"); return; } ll ext = (f.hi - f.lo) * k; int d = (int)s.weighted({1, 6, 2, 1}); d = d == 0 ? 0 : d == 1 ? (int)s.range(1, std::max<ll>(1, ext / 12)) : d == 2 ? (int)s.range(1, std::max<ll>(2, ext / 3)) : (int)s.range(1, ext); if (s.coin()) d = -d;
  struct Mo { QR outer; std::vector<QR> holes; bool dead; }; std::vector<Mo> want; bool gone = false;
  for (auto& h : v) { Mo m; m.dead = false; auto small = [&](const Ring& r) { ll a = r[0].x, b = a, c = r[0].y, e = c; for (auto& p : r) { a = std::min(a, p.x); b = std::max(b, p.x); c = std::min(c, p.y); e = std::max(e, p.y); } return b - a <= 2 * std::llabs(d) || e - c <= 2 * std::llabs(d); };
    if (d < 0 && small(h.outer)) { gone = true; continue; } if (!offset(ccw(h.outer), d, m.outer)) { s.label("excluded: edges vanish"); return; }
    for (auto& x : h.holes) { if (d > 0 && small(x)) { gone = true; continue; } QR q; if (!offset(ccw(x), -d, q)) { s.label("excluded: edges vanish"); return; } m.holes.push_back(q); }
    want.push_back(m); }
  std::vector<Ring> out = apply(s, v, d); int dec = 0; s.label(d > 0 ? "bloat" : d < 0 ? "shrink" : "zero"); s.label("vanishing ring", gone); s.label("hole", !v[0].holes.empty());
  std::vector<QR> all; for (auto& m : want) { all.push_back(m.outer); for (auto& h : m.holes) all.push_back(h); } if (all.empty()) { CHECKM(out.empty(), "everything is narrower than twice the shrink, yet " << out << " is left"); return; }
  for (int i = 0; i < 16; ++i) {
    const QR& r = all[s.draw(all.size())]; size_t j = s.draw(r.size()); const Q &a = r[j], &b = r[(j + 1) % r.size()]; LD t = s.draw(17) / (LD)16; ll sp = s.coin() ? 12 : std::max<ll>(12, 2 * std::llabs(d)); P q{(ll)(a.x + t * (b.x - a.x)) + s.around(-sp, sp), (ll)(a.y + t * (b.y - a.y)) + s.around(-sp, sp)};
    bool near = false; for (auto& x : all) near = near || ringdist(x, toQ(q)) < 4; if (near) continue; ++dec; bool in = false; for (auto& m : want) { int w = wind(m.outer, toQ(q)); for (auto& h : m.holes) w -= wind(h, toQ(q)) > 0; in = in || w > 0; }
    int w = winding(out, q); CHECKM(w == (in ? 1 : 0), "point " << q << " is covered " << w << " times, expected " << in << "; output " << out); }
  s.nontrivial(d != 0 && dec > 3);
}
PBT_TARGET(arcs, 6000, 120000) {
  Frame f; ll k; std::vector<Shape> v = gen_set(s, f, k); if (v.empty()) { s.label("excluded: thin"); return; } { size_t n = 0; for (auto& h : v) { n += h.outer.size(); for (auto& x : h.holes) n += x.size(); } if (n > 14) v.resize(1); }
  ll ext = (f.hi - f.lo) * k; ll m = std::max<ll>(2, ext / 3); int d = (int)(s.chance(1, 4) ? s.range(1, m) : s.range(std::max<ll>(1, m / 16), std::max<ll>(2, m / 2))); if (s.coin()) d = -d; unsigned n = s.irange(0, 24);
  s.notef([&](std::ostream& o) { o << "resize by " << d << " with arcs of " << n; }); GS g = build(s, v); if (s.coin()) g.resize(d, true, n); else bp::resize(g, d, true, (int)n); std::vector<Ring> out = out_rings(g); unsigned sides = n < 3 ? 4 : n;
  LD r = std::abs(d), in_r = r * cosl(acosl(-1) / sides) - 4, out_r = r + 4; int dec = 0, moved = 0; auto sg = segs(rings_of(v));
  for (int i = 0; i < 24; ++i) {
    const Seg& e = sg[s.draw(sg.size())]; LD t = s.draw(9) / (LD)8; ll sp = 2 * std::llabs(d) + 8; P q{(ll)(e.a.x + t * (e.b.x - e.a.x)) + s.around(-sp, sp), (ll)(e.a.y + t * (e.b.y - e.a.y)) + s.around(-sp, sp)};
    bool in = false; for (auto& h : v) { int w = mem::winding(h.outer, q) != 0; for (auto& x : h.holes) w -= mem::winding(x, q) != 0; in = in || w > 0; } LD dist = 1e30L; for (auto& x : sg) dist = std::min(dist, segdist(toQ(x.a), toQ(x.b), toQ(q)));
    // distance to the boundary of the union: an edge inside another polygon is no boundary
    if (v.size() > 1 && !disjoint(v)) { if (in == (d > 0) && dist <= 4) continue; if (in == (d < 0)) continue; }
    if (dist <= 4) continue; int want = -1; if (d > 0) want = in ? 1 : dist < in_r ? 1 : dist > out_r ? 0 : -1; else want = !in ? 0 : dist < in_r ? 0 : dist > out_r ? 1 : -1; if (want < 0) continue; ++dec; moved += want != (in ? 1 : 0);
    int w = winding(out, q); CHECKM(w == want, "point " << q << " at distance " << (double)dist << " from an edge is covered " << w << " times, expected " << want << "; output " << out); }
  s.label("bloat", d > 0); s.label("shrink", d < 0); s.label("in the moved band", moved > 0); s.nontrivial(moved > 0 && dec > 3);
}
