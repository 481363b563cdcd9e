#include "gen90.hpp"
using namespace gen;
typedef bp::polygon_90_set_data<int> PS;
typedef bp::rectangle_data<int> RD;
typedef bp::polygon_90_data<int> PD;
typedef bp::polygon_90_with_holes_data<int> WD;
typedef unsigned long ul;
static const bp::orientation_2d H = bp::HORIZONTAL, V = bp::VERTICAL;
static bp::orientation_2d orient(Src& s) { return s.coin() ? V : H; }
static PS from_reg(const Reg& g, bp::orientation_2d o) { PS p(o); for (auto& r : g.rects()) p.insert(brect<int>(r)); return p; }
static Reg reg_of(const PS& c) { std::vector<R> v = get_rects(c); CHECKM(disjoint(v), "overlapping rectangles " << v); return Reg::of(v); }
static std::vector<RD> rds(const Reg& g) { std::vector<RD> v; for (auto& r : g.rects()) v.push_back(brect<int>(r)); return v; }

// every query against the model
static void queries(const PS& p, const Reg& g, int k, bp::orientation_2d o) {
  switch (k) {
    case 0: CHECKM(reg_of(p) == g, "get(rectangles): got " << reg_of(p) << " want " << g); break;
    case 1: CHECKM((__int128)bp::area(p) == g.area(), "area " << bp::area(p) << " of " << g); break;
    case 2: { RD e(7, 7, 9, 9); bool ok = p.extents(e); CHECKM(ok == !g.empty(), "extents result"); if (ok) CHECKM(rrect(e) == g.extents(), "extents " << rrect(e) << " of " << g); break; }
    case 3: { RD e; bool ok = bp::extents(e, p); CHECK(ok == !g.empty()); if (ok) CHECKM(rrect(e) == g.extents(), "extents(free) " << rrect(e) << " of " << g); break; }
    case 4: CHECKM(p.empty() == g.empty(), "empty()"); break;
    case 5: CHECKM(bp::empty(p) == g.empty(), "empty(set)"); break;
    case 6: { PS q = from_reg(g, o); CHECKM(p == q, "== with the same region " << g << " stored in orientation " << o.to_int()); CHECK(!(p != q)); CHECK(q == p); break; }
    case 7: { Reg f = g.empty() ? Reg::of(R{0, 0, 1, 1}) : g - Reg::of(R{g.rects()[0].x0, g.rects()[0].y0, g.rects()[0].x0 + 1, g.rects()[0].y0 + 1}); PS q = from_reg(f, o); CHECKM(p != q && !(q == p), "== with a different region " << g); CHECK(!bp::equivalence(p, q)); break; }
    case 8: { PS q = from_reg(g, o); CHECKM(bp::equivalence(p, q), "equivalence " << g); CHECK(bp::equivalence(rds(g), p)); CHECK(bp::equivalence(q, rds(g))); break; }
    case 9: { p.clean(); CHECK(!p.dirty() && p.sorted()); CHECKM(raw_region(p) == g, "clean scan data is not the region " << g);
      for (auto i = p.begin(); i != p.end(); ++i) { auto n = i; ++n; if (n != p.end()) CHECKM(i->first < n->first || (i->first == n->first && i->second.first <= n->second.first), "clean scan data is not sorted"); CHECK(i->second.second != 0); }
      PS q = from_reg(g, p.orient()); CHECKM(q.size() == p.size(), "size() of equal sets: " << p.size() << " and " << q.size()); q.clean(); CHECKM(q.value() == p.value(), "canonical scan data differ"); break; }
    case 10: { std::vector<PD> v; p.get(v); PS q(o); q.insert(v.begin(), v.end()); CHECKM(raw_region(q) == g, "polygons"); CHECK(q == p); break; }
    default: CHECKM(raw_region(p) == g, "raw region " << raw_region(p) << " want " << g);
  }
}
static ll rnd(double d) { return (ll)std::floor(d + 0.5); }
// scaling_policy rounds halves up or away from zero: exclude ties
static bool tie(const Reg& g, double f) { for (auto& r : g.rects()) for (ll v : {r.x0, r.y0, r.x1, r.y1}) { double t = v * f * 2; if (t == std::floor(t) && std::fmod(t, 2.0) != 0) return true; } return false; }
static bool near_tie(const Reg& g, double fx, double fy) { for (auto& r : g.rects()) { for (ll v : {r.x0, r.x1}) if (std::fabs(v * fx - std::floor(v * fx) - 0.5) < 1e-6) return true; for (ll v : {r.y0, r.y1}) if (std::fabs(v * fy - std::floor(v * fy) - 0.5) < 1e-6) return true; } return false; }

PBT_TARGET(history, 900000, 20000000) {
  Pool p = pool(s, 1000000, 8);
  PS ps(orient(s)); Reg g; bool orient_known = true; bp::orientation_2d o = ps.orient();
  int steps = s.irange(1, 12), muts = 0;
  auto one = [&](Reg& out, PS& q, bool hole) {  // insert a random geometry
    if (s.coin()) { R r = rect(s, p); q.insert(brect<int>(r), hole); out = Reg::of(r); s.notef([&](std::ostream& z) { z << "rect " << r; }); }
    else { Shape h = shape(s, p, true); q.insert(bpwh90<int>(h), hole); out = Reg::of(h); s.notef([&](std::ostream& z) { z << "shape " << h; }); }
  };
  auto other = [&](Reg& og) { PS q(orient(s)); og = Reg(); for (int i = s.irange(0, 3); i > 0; --i) { Reg t; one(t, q, false); og = og | t; } if (s.chance(1, 3)) q.clean(); return q; };
  auto toobig = [&](ll f) { R e = g.extents(); for (ll v : {e.x0, e.x1, e.y0, e.y1}) if ((v < 0 ? -v : v) * f > 100000000LL) return true; return false; };
  for (int st = 0; st < steps; ++st) {
    int op = s.irange(0, 37);
    s.notef([&](std::ostream& z) { z << "step " << op << " region " << g; });
    switch (op) {
      case 0: case 1: { Reg t; one(t, ps, false); g = g | t; ++muts; break; }
      case 2: { // subtractive insert
        ps.clean(); Reg t; one(t, ps, true); if (s.coin()) { g = g - t; ps.clean(); } else { Reg u; Reg::of(R{0,0,1,1}); one(u, ps, false); std::vector<Reg::E> es; for (auto& r : g.rects()) Reg::add_rect(es, r); for (auto& r : t.rects()) Reg::add_rect(es, r, -1); for (auto& r : u.rects()) Reg::add_rect(es, r); g = Reg::from_edges(es); ps.clean(); } ++muts; break; }
      case 3: { Reg t; PS q = other(t); ps.insert(q); g = g | t; ++muts; break; }
      case 4: { std::vector<RD> v; Reg t; for (int i = s.irange(0, 3); i > 0; --i) { R r = rect(s, p); v.push_back(brect<int>(r)); t = t | Reg::of(r); } ps.insert(v.begin(), v.end()); g = g | t; ++muts; break; }
      case 5: { std::list<WD> v; Reg t; for (int i = s.irange(0, 3); i > 0; --i) { Shape h = shape(s, p, true); v.push_back(bpwh90<int>(h)); t = t | Reg::of(h); } ps.insert(v.begin(), v.end()); g = g | t; ++muts; break; }
      case 6: ps.clean(); break;
      case 7: ps.sort(); break;
      case 8: { PS q(ps); std::swap(q, ps); CHECK(q == ps); break; }
      case 9: { o = orient(s); PS q(o, ps); CHECK(q.orient() == o); ps = q; break; }
      case 10: { Reg t; PS q = other(t); ps = q; g = t; o = q.orient(); break; }
      case 11: { if (s.coin()) { R r = rect(s, p); ps = brect<int>(r); g = Reg::of(r); } else { Shape h = shape(s, p, true); ps = bpwh90<int>(h); g = Reg::of(h); } break; }
      case 12: { using namespace bp::operators; Reg t; PS q = other(t); int k = s.irange(0, 3); ps.clean();
        if (k == 0) { ps |= q; g = g | t; } else if (k == 1) { ps &= q; g = g & t; } else if (k == 2) { ps ^= q; g = g ^ t; } else { ps -= q; g = g - t; } o = ps.orient(); ++muts; break; }
      case 13: { ll dx = s.around(-20, 20), dy = s.around(-20, 20); if (s.coin()) ps.move((int)dx, (int)dy); else if (s.coin()) bp::move(ps, (int)dx, (int)dy); else { bp::move(ps, H, (int)dx); bp::move(ps, V, (int)dy); } g = g.map([&](P q) { return P{q.x + dx, q.y + dy}; }); ++muts; break; }
      case 14: { int a = s.irange(0, 7); bp::axis_transformation tr((bp::axis_transformation::ATR)a); if (s.coin()) ps.transform(tr); else bp::transform(ps, tr);


        auto f = [&](P q) { ll x = q.x, y = q.y; if (a & 1) x = -x; if (a & 2) y = -y; if (a & 4) std::swap(x, y); return P{x, y}; };
        g = g.map(f); ++muts; break; }
      case 15: { if (toobig(5)) break; ll f = s.range(1, 5); if (s.coin()) ps.scale_up((ul)f); else bp::scale_up(ps, (ul)f); g = g.map([&](P q) { return P{q.x * f, q.y * f}; }); ++muts; break; }
      case 16: { ll f = 2 * s.range(0, 3) + 1; if (s.coin()) ps.scale_down((ul)f); else bp::scale_down(ps, (ul)f); g = g.map([&](P q) { return P{rnd((double)q.x / f), rnd((double)q.y / f)}; }); ++muts; break; }
      case 17: { if (toobig(4)) break; double f = s.irange(1, 12) * 0.25; if (tie(g, f)) break; ps.clean(); ps.scale(f); g = g.map([&](P q) { return P{rnd(q.x * f), rnd(q.y * f)}; }); ++muts; break; }
      case 18: { if (toobig(4)) break; double fx = s.irange(1, 9) * 0.375, fy = s.irange(1, 9) * 0.4; if (near_tie(g, fx, fy)) break; bp::anisotropic_scale_factor<double> sc(fx, fy);
        if (s.coin()) ps.scale(sc); else ps.scale_with(sc); g = g.map([&](P q) { return P{rnd(q.x * fx), rnd(q.y * fy)}; }); ++muts; s.label("anisotropic scale"); break; }
      case 19: { Reg t; PS q = other(t); bool member = s.coin(); 
        Reg r; for (auto& c : components(g.rects(), false)) { Reg cg = Reg::of(c); if (!t.empty()) { // touching includes shared edges and corners
            bool hit = false; for (auto& a : c) for (auto& b : t.rects()) if (a.x0 <= b.x1 && b.x0 <= a.x1 && a.y0 <= b.y1 && b.y0 <= a.y1) hit = true; if (hit) r = r | cg; } }
        if (member) ps.interact(q); else bp::interact(ps, q);
        Reg got = reg_of(PS(ps));
        CHECKM(got == r, "interact: got " << got << " want " << r << " of " << g << " with " << t);
        g = r; o = ps.orient(); ++muts; break; }
      case 20: { // keep
        auto cs = components(g.rects(), false); Reg r; ll lim[6]; for (int i = 0; i < 6; ++i) lim[i] = i % 2 ? (s.coin() ? 1000000000LL : s.range(0, 30)) : s.range(0, 6);
        for (auto& c : cs) { Reg cg = Reg::of(c); R e = cg.extents(); ll w = e.x1 - e.x0, h = e.y1 - e.y0; __int128 a = cg.area(); if (w > lim[2] && w <= lim[3] && h > lim[4] && h <= lim[5] && a >= lim[0] && a <= lim[1]) r = r | cg; }
        bp::keep(ps, (ul)lim[0], (ul)lim[1], (ul)lim[2], (ul)lim[3], (ul)lim[4], (ul)lim[5]); g = r; ++muts; s.label("keep drops", r != Reg()); break; }
      case 21: if (s.chance(1, 3)) { if (s.coin()) ps.clear(); else bp::clear(ps); g = Reg(); } break;
      case 22: { o = orient(s); PS q = from_reg(g, o); if (s.coin()) q.clean(); if (s.coin()) ps.set(q.begin(), q.end(), o); else ps.set(q.value(), o); CHECK(ps.orient() == o); break; }
      case 23: { // build with overlaps, then keep only the overlaps (or not overlaps)
        std::vector<Reg::E> es; ps.clear(); int n = s.irange(0, 4); for (int i = 0; i < n; ++i) { Reg t; one(t, ps, false); for (auto& r : t.rects()) Reg::add_rect(es, r); }
        bool x = s.coin(); bool mem = s.coin(); if (x) { if (mem) ps.self_xor(); else bp::self_xor(ps); g = Reg::from_edges(es, [](int c) { return c % 2 != 0; }); } else { if (mem) ps.self_intersect(); else bp::self_intersect(ps); g = Reg::from_edges(es, [](int c) { return c > 1; }); }
        ++muts; s.label("self ops"); break; }
      case 24: { ps.clean(); if (s.coin()) { ps.self_xor(); } else { ps.self_intersect(); g = Reg(); } break; }
      case 25: { std::vector<RD> v = rds(g); o = orient(s); PS q(o, v.begin(), v.end()); CHECKM(q.orient() == o, "constructor does not keep the orientation it is given"); ps = q; break; }
      default: queries(ps, g, op - 26, orient(s)); break;
    }
    if (s.chance(1, 2)) queries(ps, g, s.irange(0, 10), orient(s));
  }
  s.nontrivial(muts >= 3 && !g.empty());
  for (int k = 0; k <= 10; ++k) queries(ps, g, k, s.coin() ? H : V);
  (void)orient_known;
}
