#include "common.hpp"
namespace {
namespace wide {  // the same polygon in long long coordinates
bp::polygon_45_with_holes_data<ll> of(const QW& p) {
  typedef bp::polygon_45_data<ll> LD; typedef bp::point_data<ll> LP; std::vector<LP> t; std::vector<LD> hs; bp::polygon_45_with_holes_data<ll> r;
  for (auto i = p.begin(); i != p.end(); ++i) t.push_back(LP(i->x(), i->y())); r.set(t.begin(), t.end());
  for (auto h = p.begin_holes(); h != p.end_holes(); ++h) { t.clear(); for (auto i = h->begin(); i != h->end(); ++i) t.push_back(LP(i->x(), i->y())); hs.push_back(LD(t.begin(), t.end())); }
  r.set_holes(hs.begin(), hs.end()); return r;
}
}  // namespace wide
Tri remap(const Tri& g, int a) {  // axis transformation a of the raster
  Tri r(g.G); int L = 12 * g.G;
  for (int t = 0; t < (int)g.c.size(); ++t) if (g.c[t] > 0) {
    static const int sx[4] = {6, 10, 6, 2}, sy[4] = {2, 6, 10, 6};
    int x = 12 * ((t >> 2) / g.G) + sx[t & 3], y = 12 * ((t >> 2) % g.G) + sy[t & 3];
    if (a & 1) x = L - x; if (a & 2) y = L - y; if (a & 4) std::swap(x, y);
    int p = x % 12, q = y % 12, k = p > q ? (p + q < 12 ? S_ : E_) : (p + q < 12 ? W_ : N_);
    r.c[r.id(x / 12, y / 12, k)] = 1;
  }
  return r;
}
Lat remap(const Lat& l, int a) { Lat o(l); if (a & 1) o.ox = -(l.ox + l.m * 2 * l.G); if (a & 2) o.oy = -(l.oy + l.m * 2 * l.G); if (a & 4) std::swap(o.ox, o.oy); return o; }
bool touches(const Tri& a, const Tri& b) {
  std::set<P> v; P p[3];
  for (int t = 0; t < (int)a.c.size(); ++t) if (a.c[t] > 0) { a.corners(t, p); v.insert(p, p + 3); }
  for (int t = 0; t < (int)b.c.size(); ++t) if (b.c[t] > 0) { b.corners(t, p); for (int k = 0; k < 3; ++k) if (v.count(p[k])) return true; }
  return false;
}
__int128 realarea(const Lat& l, const Tri& g) { return (__int128)g.area() * l.m * l.m; }
R realext(const Lat& l, const Tri& g) { R e = g.extents(); P a = l.at(e.x0, e.y0), b = l.at(e.x1, e.y1); return R{a.x, a.y, b.x, b.y}; }
R rr(const RD& r) { return gen::rrect(r); }
void queries(Src& s, const Lat& l, const QS& p, const Tri& g, int k) {
  switch (k) {
    case 0: check_region(l, p, g, "region"); break;
    case 1: { auto a = bp::area(p); CHECKM((__int128)a == realarea(l, g), "area " << a << " want " << (double)realarea(l, g)); break; }
    case 2: { RD e(7, 7, 9, 9); bool ok = s.coin() ? p.extents(e) : bp::extents(e, p); CHECKM(ok == !g.empty(), "extents result"); if (ok) CHECKM(rr(e) == realext(l, g), "extents " << rr(e) << " of " << g); break; }
    case 3: CHECKM(p.empty() == g.empty(), "empty() of " << g); break;
    case 4: CHECKM(bp::empty(p) == g.empty(), "empty(set) of " << g); break;
    case 5: { QS q = from_tri(s, l, g); if (s.coin()) q.clean(); CHECKM(p == q && q == p && !(p != q), "== with the same region " << g); CHECKM(p.size() == q.size(), "size() of equal sets"); CHECK(bp::equivalence(p, q)); break; }
    case 6: { Tri f(g); f.c[s.draw(f.c.size())] ^= 1; for (auto& v : f.c) v = v > 0; if (f == g) break; QS q = from_tri(s, l, f); CHECKM(p != q && !(q == p), "== with a different region " << g << " and " << f); CHECK(!bp::equivalence(q, p)); break; }
    case 7: { p.clean(); CHECK(!p.dirty() && p.sorted()); CHECKM(p.is_manhattan() == g.manhattan(), "is_manhattan() of " << g); break; }
    case 8: { std::vector<QD> v; p.get(v); QS q; q.insert(v.begin(), v.end()); CHECKM(q == p, "inserting the polygons again"); break; }
    default: { bool h = s.coin(); std::vector<QD> v; p.get_trapezoids(v, h ? H : V); Tri t = traps(l, v, h, "trapezoids"); CHECKM(t == g.fine(), "trapezoids denote " << t << " want " << g); }
  }
}
}  // namespace
PBT_TARGET(history, 130000, 3000000) {
  Lat l = lattice(s, 6, 2000000); QS q; Tri g(l.G); int steps = s.irange(1, 10), muts = 0;
  auto one = [&](Tri& t, QS& z, bool hole) {
    switch (s.irange(0, 4)) { case 0: ins<RD>(s, l, z, t, hole); break; case 1: ins<QD>(s, l, z, t, hole); break; case 2: ins<WD>(s, l, z, t, hole); break; default: ins<QW>(s, l, z, t, hole); } };
  auto other = [&](Tri& t) { QS z; Tri n(l.G); for (int i = s.irange(0, 3); i > 0; --i) one(n, z, false); if (s.chance(1, 3)) z.clean(); t = n.norm(); return z; };
  for (int st = 0; st < steps; ++st) {
    int op = s.irange(0, 33);
    s.notef([&](std::ostream& z) { z << "step " << op << " G " << l.G << " m " << l.m << " o (" << l.ox << "," << l.oy << ") region " << g; });
    switch (op) {
      case 0: case 1: case 2: { Tri t(l.G); one(t, q, false); g = (g.norm() | t); ++muts; break; }
      case 3: { q.clean(); Tri t(l.G); one(t, q, true); for (auto& v : t.c) v = v < 0; g = g - t; if (s.coin()) { QS z(q); queries(s, l, z, g, s.irange(0, 9)); } q.clean(); ++muts; break; }  // subtractive insert
      case 4: { Tri t; QS z = other(t); int k = s.irange(0, 5);  // sets of another coordinate type too
        if (k < 2) { bp::polygon_45_set_data<ll> y; std::vector<QW> v; z.get(v); for (auto& p : v) { y.insert(wide::of(p)); } if (k) y.clean(); if (s.coin()) q.insert(y); else { q.clean(); QS x; x.insert(y); using namespace bp::operators; if (s.coin()) q |= x; else q = x + q; } s.label("other coordinate type"); }
        else q.insert(z); g = g | t; ++muts; break; }
      case 5: { q.clean(); Tri t; QS z = other(t); z.clean(); q.insert(z, true); q.clean(); g = g - t; ++muts; break; }
      case 6: { Tri t(l.G); std::vector<QW> v = make<std::vector<QW>>::go(s, l, t); q.insert(v.begin(), v.end()); g = g | t; ++muts; break; }
      case 7: q.clean(); break;
      case 8: q.sort(); break;
      case 9: { QS z(q); std::swap(z, q); CHECK(z == q); break; }
      case 10: { Tri t; QS z = other(t); q = z; g = t; break; }
      case 11: { Tri t(l.G); switch (s.irange(0, 3)) { case 0: q = make<QD>::go(s, l, t); break; case 1: q = make<RD>::go(s, l, t); break; case 2: q = make<PS>::go(s, l, t); break; default: q = make<std::vector<QW>>::go(s, l, t); } q.clean(); g = t.norm(); ++muts; break; }
      case 12: { using namespace bp::operators; Tri t; QS z = other(t); int k = s.irange(0, 3); q.clean(); if (k == 0) q |= z; else if (k == 1) q &= z; else if (k == 2) q ^= z; else q -= z; g = combine(k, g, t); ++muts; break; }
      case 13: { using namespace bp::operators; Tri t; QS z = other(t); int k = s.irange(0, 3); q.clean(); if (k == 0) q = q | z; else if (k == 1) q = z & q; else if (k == 2) q = q ^ z; else q = q - z; g = combine(k, g, t); ++muts; break; }
      case 14: { int a = s.irange(0, 7); bp::axis_transformation tr((bp::axis_transformation::ATR)a); if (s.coin()) q.transform(tr); else bp::transform(q, tr); g = remap(g, a); l = remap(l, a); ++muts; break; }
      case 15: { ll dx = s.around(-20, 20), dy = s.around(-20, 20); bp::transformation<int> tr(bp::point_data<int>((int)-dx, (int)-dy)); if (s.coin()) q.transform(tr); else bp::transform(q, tr); l.ox += dx; l.oy += dy; ++muts; break; }
      case 16: case 17: { ll f = s.range(1, 4), big = std::max(std::abs(l.ox), std::abs(l.oy)) + 2 * l.m * l.G; if (big * f > 100000000) break; int how = s.irange(0, 3);
        if (how == 0) q.scale_up((unsigned long)f); else if (how == 1) bp::scale_up(q, (unsigned long)f); else if (how == 2) q.scale((double)f); else bp::scale(q, (double)f); l.ox *= f; l.oy *= f; l.m *= f; ++muts; break; }
      case 18: { ll f = s.range(2, 4); if (l.ox % f || l.oy % f || l.m % f) break; int how = s.irange(0, 3);
        if (how == 0) q.scale_down((unsigned long)f); else if (how == 1) bp::scale_down(q, (unsigned long)f); else if (how == 2) q.scale(1.0 / (double)f); else bp::scale(q, 1.0 / (double)f); l.ox /= f; l.oy /= f; l.m /= f; ++muts; s.label("scaled down"); break; }
      case 19: case 20: { // overlaps, then self operations
        q.clear(); Tri t(l.G); for (int i = s.irange(0, 4); i > 0; --i) one(t, q, false); bool x = s.coin(), mem = s.coin();
        if (x) { if (mem) q.self_xor(); else bp::self_xor(q); for (auto& v : t.c) v = v & 1; } else { if (mem) q.self_intersect(); else bp::self_intersect(q); for (auto& v : t.c) v = v > 1; }
        g = t; ++muts; s.label("self ops"); break; }
      case 21: { q.clean(); if (s.coin()) q.self_xor(); else { q.self_intersect(); g = Tri(l.G); } break; }
      case 22: if (s.chance(1, 3)) { if (s.coin()) q.clear(); else bp::clear(q); g = Tri(l.G); } break;
      case 23: { Tri t; QS z = other(t); if (s.coin()) { t = g; z = from_tri(s, l, g); } g = t; switch (s.irange(0, 3)) { case 0: q.set(z.begin(), z.end()); break; case 1: z.clean(); q.set_clean(z.value()); break; case 2: q.set(z.value()); break; default: { std::vector<QW> v; z.get(v); q.set(v.begin(), v.end()); } } break; }
      case 24: case 25: { Tri t; QS z = other(t); Tri r(l.G); for (auto& c : g.components()) if (touches(c, t)) r = r | c;
        bp::interact(q, z); s.label("interact keeps some", !(r == g) && !r.empty()); g = r; ++muts; break; }
      case 26: { Tri r(l.G); unsigned long lim[6]; for (int i = 0; i < 6; ++i) lim[i] = (unsigned long)(i % 2 ? (s.coin() ? 1000000000000LL : s.range(0, 12)) : s.range(0, 6)); 
        for (int i = 0; i < 6; ++i) lim[i] *= (unsigned long)(i < 2 ? l.m * l.m : l.m);
        for (auto& c : g.components()) { R e = realext(l, c); unsigned long w = e.x1 - e.x0, h = e.y1 - e.y0; __int128 a = realarea(l, c); if (w > lim[2] && w <= lim[3] && h > lim[4] && h <= lim[5] && a >= lim[0] && a <= lim[1]) r = r | c; }
        bp::keep(q, lim[0], lim[1], lim[2], lim[3], lim[4], lim[5]); s.label("keep drops", !(r == g)); g = r; ++muts; break; }
      case 27: { Tri t; QS z = other(t); q.clean(); z.clean(); if (s.coin()) { bp::assign(q, z); g = t; } else { std::vector<QW> v; bp::assign(v, z); bp::assign(q, v); g = t; } break; }
      case 28: { q.resize(0); break; }
      default: queries(s, l, q, g, s.irange(0, 9)); break;
    }
    if (s.chance(1, 3)) queries(s, l, q, g, s.irange(0, 9));
  }
  s.nontrivial(muts >= 3 && !g.empty() && !g.manhattan());
  for (int k = 0; k <= 9; ++k) queries(s, l, q, g, k);
}
