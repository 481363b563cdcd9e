#include "arbset.hpp"
namespace {
typedef bp::axis_transformation AT;
struct Map { int a; ll tx, ty, s; };  // p -> s * A p + t
P lin(int a, P p) { if (a & 1) p.x = -p.x; if (a & 2) p.y = -p.y; if (a & 4) std::swap(p.x, p.y); return p; }
P unlin(int a, P p) { if (a & 4) std::swap(p.x, p.y); if (a & 1) p.x = -p.x; if (a & 2) p.y = -p.y; return p; }
P fwd(const Map& m, P p) { p = lin(m.a, p); return P{p.x * m.s + m.tx, p.y * m.s + m.ty}; }
P bwd(const Map& m, P p) { P q{(p.x - m.tx) / m.s, (p.y - m.ty) / m.s}; return unlin(m.a, q); }
bool flips(const Map& m) { return ((m.a & 1) + (m.a >> 1 & 1) + (m.a >> 2 & 1)) & 1; }
template <class F> Ring mapring(Ring r, bool rev, F f) { for (auto& p : r) p = f(p); if (rev) std::reverse(r.begin(), r.end()); return r; }
// winds 0 or 1 times around every cell
bool simple(const Ring& r) { bool ok = true; int d = ref::area2(r) < 0 ? -1 : 1; cells(std::vector<Ring>{r}, {0}, 1, [&](LD, const std::vector<int>& w) { ok = ok && (w[0] == 0 || w[0] == d); }); return ok; }
enum Kind { INS, INSHOLE, INSSET, INSRANGE, CLEAN, SORT, COPY, ASSIGNSET, ASSIGNGEO, SETRANGE, SETVALUE, BOOLASSIGN, BOOLVIEW, SELFBOOL, AXIS, SHIFT, SCALEUP, UPDOWN, SCALEF, CLEAR, RESERVE, QUERY, NKIND };
struct Step { Kind k; std::vector<Item> items; Map m; int v, w; Ex ex; };
}
// what the raw axis transformations of the library do to a point is P16's business; here they are taken from point transform
static int probe(AT::ATR a) {  // the code (see lin) of an axis transformation
  int x = 1, y = 2; AT(a).transform(x, y);
  for (int c = 0; c < 8; ++c) { P q = lin(c, P{1, 2}); if (q.x == x && q.y == y) return c; } return 0;
}
PBT_TARGET(history, 200000, 4000000) {
  Ctx c; start(s, c); if (c.f.hi - c.f.lo > 20000) { c.f = Frame{-40, 40}; }
  int n = s.irange(1, 9), muts = 0; std::vector<Step> st; ll F = 1;
  for (int i = 0; i < n; ++i) {
    Step t; t.k = (Kind)s.weighted({5, 2, 2, 2, 2, 1, 1, 1, 1, 1, 1, 4, 3, 1, 2, 2, 1, 1, 1, 1, 1, 4}); t.v = s.irange(0, 7); t.w = s.irange(0, 7); t.m = Map{0, 0, 0, 1}; t.ex = sum();
    int cnt = 0; switch (t.k) { case INS: case INSHOLE: case ASSIGNGEO: cnt = 1; break; case INSSET: case INSRANGE: case ASSIGNSET: case SETRANGE: case SETVALUE: case BOOLASSIGN: case BOOLVIEW: cnt = s.irange(0, 3); break; default:; }
    s.notef([&](std::ostream& o) { static const char* const N[] = {"insert", "insert hole", "insert set", "insert range", "clean", "sort", "copy", "assign set", "assign geometry", "set range", "set value", "boolean assign", "boolean view", "self boolean", "axis transform", "translate", "scale_up", "scale up and down", "scale", "clear", "reserve", "query"}; o << "step " << N[t.k] << " v " << t.v << " w " << t.w; });
    for (int j = 0; j < cnt; ++j) { Item it; it.as = (int)s.draw(6); it.hole = false; it.clean = s.chance(1, 8); int cls = it.as == 3 ? RECT : it.as == 4 ? OCTA : it.as == 0 ? NOHOLE : ANY; it.h = gen_shape(s, c, cls); note(s, "shape", it); t.items.push_back(it); t.ex = add(t.ex, norm(c.w.region(it.h))); }
    if (t.k == AXIS) t.m.a = probe((AT::ATR)t.v);
    if (t.k == SHIFT) { t.m.tx = s.around(-30, 30); t.m.ty = s.around(-30, 30); }
    if (t.k == SCALEUP || t.k == SCALEF) { t.m.s = s.irange(1, 3); if (F * t.m.s > 6) t.m.s = 1; F *= t.m.s; }
    st.push_back(t);
  }
  if (c.w.rings.empty()) return;
  bool exact = settle(s, c, s.chance(3, 4), 80000); if (c.skip) return;
  ll k0 = c.k; for (auto& r : c.w.rings) r = mem::scaled(r, F); c.k *= F; ll snap = SNAP * (n + 2) * F; if (!exact) s.label("not exact");
  for (auto& t : st) { t.m.tx *= k0 * F; t.m.ty *= k0 * F; }
  GS g; Ex want = sum();
  // maps between the frame at step i and the final one
  auto back = [&](const Ring& r, size_t i) { bool rev = false; for (size_t j = i; j < st.size(); ++j) rev ^= flips(st[j].m); return mapring(r, rev, [&](P p) { for (size_t j = st.size(); j-- > i;) p = bwd(st[j].m, p); return p; }); };
  auto ahead = [&](const Ring& r, size_t i) { bool rev = false; for (size_t j = i; j < st.size(); ++j) rev ^= flips(st[j].m); return mapring(r, rev, [&](P p) { for (size_t j = i; j < st.size(); ++j) p = fwd(st[j].m, p); return p; }); };
  auto same = [&](const Ex& a, const Ex& b) { std::vector<int> gr; for (size_t i = 0; i < c.w.rings.size(); ++i) gr.push_back((int)i); LD d = 0; cells(c.w.rings, gr, (int)gr.size(), [&](LD ar, const std::vector<int>& w) { if ((eval(a, w) > 0) != (eval(b, w) > 0)) d += ar; }); return d <= extent_eps(c.w.rings); };
  for (size_t i = 0; i < st.size(); ++i) {
    Step& t = st[i];
    auto shape = [&](const Item& it) { Shape h = mem::scaled(it.h, c.k), o; o.outer = back(h.outer, i + 1); for (auto& x : h.holes) o.holes.push_back(back(x, i + 1)); return o; };
    auto put = [&](GS& z, const Item& it, bool hole) { Shape h = shape(it);
      // a shape with holes outside its outer ring is subtractive there: insert it as a clean set
      GS one; switch (it.as) { case 0: if (h.holes.empty() && simple(h.outer)) { z.insert(bpolyd<int>(h.outer), hole); return; } break; case 3: z.insert(to_rect(h.outer), hole); return; case 4: { QS q; q.insert(gen::bpoly<QD, int>(h.outer)); z.insert(q, hole); return; } default:; }
      if (ref::area2(h.outer) == 0) return; one.insert(bpwhd<int>(h)); one.clean(); z.insert(one, hole); };
    auto make = [&](GS& z) { for (auto& it : t.items) { put(z, it, false); if (it.clean) z.clean(); } };
    bool mut = true;
    switch (t.k) {
      case INS: put(g, t.items[0], false); want = add(norm(want), t.ex); break;
      case INSHOLE: g.clean(); put(g, t.items[0], true); if (t.v & 1) { GS z(g); check_rings(s, c, [&] { std::vector<Ring> o; for (auto& r : out_rings(z)) o.push_back(ahead(r, i + 1)); return o; }(), boolean(3, want, t.ex), exact, "copy of a set with a hole inserted", snap); } g.clean(); want = boolean(3, want, t.ex); break;
      case INSSET: { GS z; make(z); g.insert(z); want = add(norm(want), t.ex); break; }
      case INSRANGE: { if (t.v & 1) { GS z; make(z); g.insert(z.begin(), z.end()); } else { std::vector<GW> v; GS z; make(z); z.get(v); g.insert(v.begin(), v.end()); } want = add(norm(want), t.ex); break; }
      case CLEAN: g.clean(); mut = false; break;
      case SORT: g.sort(); mut = false; break;
      case COPY: { GS z(g); if (t.v & 1) std::swap(z, g); else { g.clear(); g = z; } mut = false; break; }
      case ASSIGNSET: { GS z; make(z); if (t.v & 1) g = z; else bp::assign(g, z); want = t.ex; break; }
      case ASSIGNGEO: { Shape h = shape(t.items[0]); if (!h.holes.empty()) { GS z; make(z); g = z; } else if (t.v & 1) g = bpolyd<int>(h.outer); else bp::assign(g, VG(1, bpolyd<int>(h.outer))); if (!simple(h.outer)) g.clean(); want = t.ex; break; }
      case SETRANGE: { GS z; make(z); if (t.v & 1) g.set(z.begin(), z.end()); else { std::vector<GW> v; z.get(v); g.set(v.begin(), v.end()); } want = t.ex; break; }
      case SETVALUE: { GS z; make(z); g.set(z.value()); want = t.ex; break; }
      case BOOLASSIGN: { using namespace boost::polygon::operators; GS z; make(z); int o = t.v & 3; if (t.v & 4) { std::vector<GW> v; z.get(v); switch (o) { case 0: g |= v; break; case 1: g &= v; break; case 2: g ^= v; break; default: g -= v; } } else switch (o) { case 0: g |= z; break; case 1: g &= z; break; case 2: g ^= z; break; default: g -= z; } want = boolean(o, want, t.ex); break; }
      case BOOLVIEW: { using namespace boost::polygon::operators; GS z; make(z); int o = t.v & 3; if (t.v & 4) switch (o) { case 0: g = z | g; break; case 1: g = z & g; break; case 2: g = z ^ g; break; default: g = z - g; } else switch (o) { case 0: g = GS(g | z); break; case 1: g = GS(g & z); break; case 2: g = GS(g ^ z); break; default: g = GS(g - z); } want = (t.v & 4) ? boolean(o, t.ex, want) : boolean(o, want, t.ex); break; }
      case SELFBOOL: { using namespace boost::polygon::operators; int o = t.v & 3; switch (o) { case 0: g |= g; break; case 1: g &= g; break; case 2: g ^= g; break; default: g -= g; } want = boolean(o, want, want); break; }
      case AXIS: { AT a((AT::ATR)t.v); if (t.w & 1) g.transform(a); else bp::transform(g, a); break; }
      case SHIFT: { bp::transformation<int> tr(bp::point_data<int>((int)-t.m.tx, (int)-t.m.ty)); int x = 0, y = 0; tr.transform(x, y); if (x != t.m.tx || y != t.m.ty) { tr = bp::transformation<int>(bp::point_data<int>((int)t.m.tx, (int)t.m.ty)); } if (t.w & 1) g.transform(tr); else bp::transform(g, tr); break; }
      case SCALEUP: if (t.w & 1) g.scale_up(t.m.s); else bp::scale_up(g, t.m.s); break;
      case UPDOWN: { int f = 1 + t.v % 3; if (t.w & 1) { g.scale_up(f); g.scale_down(f); } else { bp::scale_up(g, f); bp::scale_down(g, f); } break; }
      case SCALEF: g.scale(bp::anisotropic_scale_factor<double>((double)t.m.s, (double)t.m.s)); break;
      case CLEAR: if (t.v & 1) g.clear(); else bp::clear(g); want = sum(); break;
      case RESERVE: g.reserve(100); mut = false; break;
      default: mut = false;
    }
    if (mut) ++muts;
    bool last = i + 1 == st.size(); if (t.k != QUERY && !last) continue;
    std::vector<Ring> got, out; got = out_rings(g); for (auto& r : got) out.push_back(ahead(r, i + 1));
    if (last || t.v < 2) check_rings(s, c, out, want, exact, "set", snap);
    if (!exact) continue;
    Diff d = compare(c.w, want, {}); LD up = 1; for (size_t j = i + 1; j < st.size(); ++j) up *= st[j].m.s * st[j].m.s; LD eps = extent_eps(c.w.rings);
    switch (last ? s.irange(2, 7) : t.v) {
      case 2: { LD a = bp::area(g); CHECKM(std::fabs((double)(a * up - d.want)) <= eps, "area " << (double)a << " want " << (double)(d.want / up)); break; }
      case 3: { const GS& cg = g; RD e(7, 7, 9, 9); bool ok = (t.w & 1) ? cg.extents(e) : bp::extents(e, g); CHECKM(ok == !got.empty(), "result of extents"); if (ok) { RD x = to_rect(got[0]); for (auto& r : got) bp::encompass(x, to_rect(r)); CHECKM(e == x, "extents"); } break; }
      case 4: CHECKM((t.w & 1 ? g.empty() : bp::empty(g)) == (d.want <= eps), "empty of region of area " << (double)d.want); break;
      case 5: { std::vector<GW> v; g.get(v); GS z; if (s.coin()) std::reverse(v.begin(), v.end()); for (auto& p : v) z.insert(p); if (s.coin()) z.clean(); CHECKM(g == z && z == g && !(g != z), "== with the same region"); CHECK(bp::equivalence(g, z) && bp::equivalence(z, v)); break; }
      case 6: { GS z; Ex e = sum(); std::vector<Step*> src; for (auto& u : st) if (!u.items.empty()) src.push_back(&u); if (src.empty()) break; Step& u = *s.pick(src); for (auto& it : u.items) put(z, it, false); bool eq = same(want, u.ex); CHECKM((g == z) == eq && (z != g) == !eq, "== is not " << eq); CHECK(bp::equivalence(g, z) == eq); s.label("== true", eq); s.label("== false", !eq); break; }
      default: { g.clean(); CHECK(!g.dirty() && g.sorted()); int kind = 0; for (auto& e : g) { ll dx = std::llabs((ll)e.first.first.x() - e.first.second.x()), dy = std::llabs((ll)e.first.first.y() - e.first.second.y()); kind = std::max(kind, dx == 0 || dy == 0 ? 0 : dx == dy ? 1 : 2); }
        CHECKM((int)g.concept_downcast() == (int)(kind == 0 ? bp::POLYGON_90_SET_CONCEPT : kind == 1 ? bp::POLYGON_45_SET_CONCEPT : bp::POLYGON_SET_CONCEPT), "concept_downcast of kind " << kind);
        QS q; bool ok = g.downcast(q); CHECKM(ok == (kind < 2), "downcast of kind " << kind); if (ok) { GS z; z.insert(q); CHECKM(z == g, "region of the 45-degree downcast"); } s.label("downcast", ok); }
    }
  }
  s.nontrivial(muts >= 3);
}
// scaling that rounds moves every edge by less than a unit
PBT_TARGET(scaling, 60000, 1000000) {
  Ctx c; start(s, c); Opd a = plan(s, c, 1, 3, ANY, true, "set:"); settle(s, c, false); if (c.skip) return;
  GS g = OT<GS>::build(a, c.k); if (s.coin()) g.clean(); ll f = s.irange(2, 9); int m = s.irange(0, 3); GS h(g);
  s.notef([&](std::ostream& o) { o << "factor 1/" << f << " mode " << m; });
  if (m == 0) h.scale_down(f); else if (m == 1) bp::scale_down(h, f); else if (m == 2) h.scale(bp::anisotropic_scale_factor<double>(1.0 / f, 1.0 / f)); else { h.clean(); h.scale_down(f); }
  std::vector<Ring> out = out_rings(h); int dec = 0; auto sg = segs(c.w.rings); ll d = SNAP + f * (SNAP + 2);
  for (int i = 0; i < 12; ++i) { P q = sample(s, c, sg, d); P r{q.x / f, q.y / f}; q = P{r.x * f, r.y * f}; if (mem::near(c.w.rings, q, d)) continue; ++dec; bool w = c.w.in(a.region, q);
    CHECKM(winding(out, r) == (w ? 1 : 0), "point " << r << " of the scaled set is covered " << winding(out, r) << " times, expected " << w << "; output " << out); }
  s.nontrivial(dec > 2);
}
namespace {
bool touching(const std::vector<Ring>& a, const std::vector<Ring>& b) {  // closed regions (disjoint-interior rings with holes) share a point
  auto sa = segs(a), sb = segs(b); Frac f;
  for (auto& x : sa) for (auto& y : sb) { if (cross_at(x, y, f)) return true; if (mem::on_segment(x.a, x.b, y.a) || mem::on_segment(x.a, x.b, y.b) || mem::on_segment(y.a, y.b, x.a)) return true; }
  auto inside = [](const std::vector<Ring>& r, const std::vector<Ring>& of) { for (auto& x : of) for (auto& p : x) { bool on = false; for (auto& y : r) on = on || mem::on_ring(y, p); if (!on && winding(r, p)) return true; } return false; };
  return inside(a, b) || inside(b, a);
}
}
// interact keeps the polygons that touch the other set, keep those in bounds
PBT_TARGET(interact, 80000, 2000000) {
  Ctx c; start(s, c); Opd a = plan(s, c, 1, 5, ANY, true, "set:"); s.note(" that:"); Opd b = plan(s, c, 0, 2, ANY, true, "set:"); bool exact = settle(s, c, true); if (c.skip || !exact) return;
  GS g = OT<GS>::build(a, c.k), h = OT<GS>::build(b, c.k); std::vector<GW> v; { GS z(g); z.get(v); } std::vector<Ring> hr = out_rings(h);
  int m = s.irange(0, 2); GS out(g), exp; int kept = 0, lost = 0;
  if (m < 2) { if (m == 0) out.interact(h); else bp::interact(out, h); for (auto& p : v) { Shape sh = gen::rshapes_wh(std::vector<GW>(1, p))[0]; if (touching(rings_of({sh}), hr)) { exp.insert(p); ++kept; } else ++lost; } }
  else { int k = s.irange(0, 2); auto lim = [&](bool area) { ll e = (c.f.hi - c.f.lo) * c.k; return area ? s.range(0, e * e / 4) : s.range(0, e); };
    double amin = (double)lim(true) / 8, amax = amin + lim(true); ll wmin = lim(false) / 4, wmax = wmin + lim(false), hmin = lim(false) / 4, hmax = hmin + lim(false); if (k == 0) { wmin = hmin = 0; }
    s.notef([&](std::ostream& o) { o << "keep area " << amin << ".." << amax << " width " << wmin << ".." << wmax << " height " << hmin << ".." << hmax; });
    bp::keep(out, amin, amax, (unsigned long long)wmin, (unsigned long long)wmax, (unsigned long long)hmin, (unsigned long long)hmax);
    for (auto& p : v) { Shape sh = gen::rshapes_wh(std::vector<GW>(1, p))[0]; LD ar = ref::area2(sh.outer); for (auto& x : sh.holes) ar += ref::area2(x); ar /= 2; RD e = to_rect(sh.outer); ll w = (ll)bp::xh(e) - bp::xl(e), t = (ll)bp::yh(e) - bp::yl(e);
      if (ar >= amin && ar <= amax && w > wmin && w <= wmax && t > hmin && t <= hmax) { exp.insert(p); ++kept; } else ++lost; } }
  s.nontrivial(kept && lost); s.label(m < 2 ? "interact" : "keep");
  CHECKM(out == exp && exp == out, (m < 2 ? "interact" : "keep") << " left " << out_rings(out) << " expected " << out_rings(exp));
  CHECKM(g == GS(OT<GS>::build(a, c.k)), "copied-from set changed");
}
