// The three engines on input that all (or two) of them accept.
#include "../P05/common.hpp"
#include <boost/polygon/polygon.hpp>
namespace {
typedef bp::polygon_set_data<int> GS; typedef bp::polygon_data<int> GD; typedef bp::polygon_with_holes_data<int> GW;
struct It { int kind; Shape h; bool hole, clean; };  // kinds: 0 rectangle, 1 polygon without holes, 2 with holes
struct Plan { std::vector<It> v; Tri g; };
Plan plan(Src& s, const Lat& l, bool manh, int maxn, const char* what) {
  Plan p; p.g = Tri(l.G); s.note(what);
  for (int i = s.count(0, maxn); i > 0; --i) {
    It t; t.kind = s.irange(0, 2); t.hole = s.chance(1, 6); t.clean = s.chance(1, 8);
    if (t.kind == 0) t.h.outer = trect(s, l.G); else if (manh || s.chance(1, 4)) t.h = tri::manh(s, l.G, t.kind == 2); else t.h = any_shape(s, l.G, t.kind == 2);
    if (t.kind) t.h = vary(s, t.h);
    Tri o(l.G); o.add(t.h); if (t.hole) p.g -= o; else p.g += o; if (t.clean) p.g = p.g.norm();
    s.notef([&](std::ostream& o) { o << "  " << (t.kind == 0 ? "rect " : t.kind == 1 ? "poly " : "pwh ") << l.at(t.h) << (t.hole ? " (as hole)" : "") << (t.clean ? " then clean" : ""); }); p.v.push_back(t);
  }
  return p;
}
RD rect(const Ring& r) { R b{r[0].x, r[0].y, r[0].x, r[0].y}; for (auto& p : r) { b.x0 = std::min(b.x0, p.x); b.y0 = std::min(b.y0, p.y); b.x1 = std::max(b.x1, p.x); b.y1 = std::max(b.y1, p.y); } return RD((int)b.x0, (int)b.y0, (int)b.x1, (int)b.y1); }
GW gwh(const Shape& h) { GW w = gen::bpoly<GW, int>(h.outer); std::vector<GD> v; for (auto& r : h.holes) v.push_back(gen::bpoly<GD, int>(r)); bp::set_holes(w, v.begin(), v.end()); return w; }
bool m90(const Shape& h) { auto f = [](const Ring& r) { for (size_t i = 0; i < r.size(); ++i) { const P &a = r[i], &b = r[(i + 1) % r.size()]; if (a.x != b.x && a.y != b.y) return false; } return true; }; bool ok = f(h.outer); for (auto& r : h.holes) ok = ok && f(r); return ok; }
template <class S> void put90(S& q, const It& t, const Shape& h) { if (t.kind == 0) q.insert(rect(h.outer), t.hole); else if (t.kind == 1) q.insert(gen::bpoly90<int>(h.outer), t.hole); else q.insert(gen::bpwh90<int>(h), t.hole); }
template <class S> void put45(S& q, const It& t, const Shape& h) { if (t.kind == 0) q.insert(rect(h.outer), t.hole); else if (t.kind == 1) q.insert(bpoly45<int>(h.outer), t.hole); else q.insert(bpwh45<int>(h), t.hole); }
template <class S> void putgen(S& q, const It& t, const Shape& h) { if (t.kind == 0) q.insert(rect(h.outer), t.hole); else if (t.kind == 1) q.insert(gen::bpoly<GD, int>(h.outer), t.hole); else q.insert(gwh(h), t.hole); }
// as: 0 as the narrowest kind of polygon, 1 as 45-degree ones, 2 as general ones
template <class S> void put(S& q, const It& t, const Lat& l, int as) { Shape h = l.at(t.h); if (as == 0 && m90(h)) put90(q, t, h); else if constexpr (std::is_same<S, GS>::value) { if (as == 2) putgen(q, t, h); else put45(q, t, h); } else put45(q, t, h); if (t.clean) q.clean(); }
PS build90(Src& s, const Lat& l, const Plan& p) { PS q(s.coin() ? bp::HORIZONTAL : bp::VERTICAL); for (auto& t : p.v) { put90(q, t, l.at(t.h)); if (t.clean) q.clean(); } return q; }
QS build45(Src& s, const Lat& l, const Plan& p) { QS q; for (auto& t : p.v) put(q, t, l, s.irange(0, 1)); return q; }
GS buildg(Src& s, const Lat& l, const Plan& p) { GS q; for (auto& t : p.v) put(q, t, l, s.irange(0, 2)); return q; }
// the regions
template <class W, class S> std::vector<Shape> outs(const S& q) { S c(q); std::vector<W> v; c.get(v); return gen::rshapes_wh(v); }
void same(const Lat& l, const PS& q, const Tri& want, const char* what) { auto v = outs<WD>(q); Tri got = tiles(l, v, true, what); CHECKM(got == want, what << " (90): " << got << " want " << want << " polygons " << v); }
void same(const Lat& l, const QS& q, const Tri& want, const char* what) { auto v = outs<QW>(q); Tri got = tiles(l, v, true, what); CHECKM(got == want, what << " (45): " << got << " want " << want << " polygons " << v); }
void same(const Lat& l, const GS& q, const Tri& want, const char* what) { auto v = outs<GW>(q); Tri got = tiles(l, v, true, what); CHECKM(got == want, what << " (general): " << got << " want " << want << " polygons " << v); }
template <class S> S boolean(Src& s, const S& a, const S& b, int o) {
  using namespace op; S r; if (s.coin()) { switch (o) { case 0: r = a | b; break; case 1: r = a & b; break; case 2: r = a ^ b; break; default: r = a - b; } }
  else { r = a; switch (o) { case 0: r |= b; break; case 1: r &= b; break; case 2: r ^= b; break; default: r -= b; } } return r;
}
GS gset(const std::vector<GW>& v) { GS g; g.insert(v.begin(), v.end()); return g; }
// queries of two sets of different kinds that hold the same region
template <class A, class B> void queries(const A& a, const B& b, const Tri& g, const char* what) {
  CHECKM(bp::area(a) == bp::area(b), what << ": area " << (double)bp::area(a) << " and " << (double)bp::area(b));
  CHECKM(bp::empty(a) == g.empty() && bp::empty(b) == g.empty(), what << ": empty " << bp::empty(a) << " and " << bp::empty(b));
  RD ea(0, 0, 0, 0), eb(0, 0, 0, 0); bool fa = bp::extents(ea, a), fb = bp::extents(eb, b); CHECKM(fa == fb && fa == !g.empty() && (!fa || ea == eb), what << ": extents [" << bp::xl(ea) << "," << bp::yl(ea) << " " << bp::xh(ea) << "," << bp::yh(ea) << "] and [" << bp::xl(eb) << "," << bp::yl(eb) << " " << bp::xh(eb) << "," << bp::yh(eb) << "]");
}
Lat lat(Src& s) { Lat l = lattice(s, 6, 480000); if (l.m < 4) { l.m *= 4; } l.m += l.m & 1; l.ox -= l.ox & 1; l.oy -= l.oy & 1; return l; }
}  // namespace
// Manhattan input in the Manhattan, 45-degree and general engines
PBT_TARGET(manhattan, 250000, 5000000) {
  Lat l = lat(s); int o = s.irange(0, 3); s.notef([&](std::ostream& x) { x << "op " << OPN[o] << " m " << l.m; }); Plan pa = plan(s, l, true, 4, " a:"), pb = plan(s, l, true, 4, " b:");
  PS a9 = build90(s, l, pa), b9 = build90(s, l, pb); QS a4 = build45(s, l, pa), b4 = build45(s, l, pb); GS ag = buildg(s, l, pa), bg = buildg(s, l, pb);
  if (o == 0 && (neg(pa.g) || neg(pb.g))) { s.label("excluded: known finding or_assign_counts"); a9.clean(); b9.clean(); a4.clean(); b4.clean(); ag.clean(); bg.clean(); }
  Tri ga = pa.g.norm(), gb = pb.g.norm(), want = combine(o, ga, gb); s.nontrivial(!(ga & gb).empty() && ga != gb);
  queries(a9, a4, ga, "queries of a (90 and 45)"); queries(a9, ag, ga, "queries of a (90 and general)");
  PS r9 = boolean(s, a9, b9, o); QS r4 = boolean(s, a4, b4, o); GS rg = boolean(s, ag, bg, o);
  same(l, r9, want, "boolean"); same(l, r4, want, "boolean"); same(l, rg, want, "boolean"); queries(r9, r4, want, "queries of the result (90 and 45)"); queries(r4, rg, want, "queries of the result (45 and general)");
  // conversions
  using namespace op;
  switch (s.irange(0, 9)) {
    case 0: { QS q; q.insert(r9); same(l, q, want, "insert of a 90 set"); CHECK(q == r4); CHECK(q.is_manhattan()); break; }
    case 1: { GS q; q.insert(r9); same(l, q, want, "insert of a 90 set"); CHECK(q == rg); break; }
    case 2: { QS q; bp::assign(q, r9); same(l, q, want, "assign of a 90 set"); CHECK(bp::equivalence(q, r9)); CHECK(bp::equivalence(r9, q)); break; }
    case 3: { GS q; bp::assign(q, r9); same(l, q, want, "assign of a 90 set"); CHECK(bp::equivalence(q, r9)); CHECK(bp::equivalence(r9, q)); break; }
    case 4: { QS q; q = r9; same(l, q, want, "= of a 90 set"); GS h; h = r9; same(l, h, want, "= of a 90 set"); break; }
    case 5: { QS q(r9); same(l, q, want, "construction from a 90 set"); break; }
    case 6: { std::vector<GW> v; bp::assign(v, r9); same(l, gset(v), want, "polygons assigned from a 90 set"); std::vector<QW> w; bp::assign(w, r9); Tri t = tiles(l, gen::rshapes_wh(w), true, "45-degree polygons assigned from a 90 set"); CHECK(t == want); break; }
    case 7: { GS h; bp::assign(h, bg); bp::assign(h, r9); same(l, h, want, "assign over a set"); QS q; bp::assign(q, b4); bp::assign(q, r9); same(l, q, want, "assign over a set"); break; }
    case 8: { QS q; bool down = false; { GS c(rg); down = c.downcast(q); } CHECKM(down, "downcast of a Manhattan general set to 45 fails"); same(l, q, want, "downcast"); break; }
    default: { PS q(s.coin() ? bp::HORIZONTAL : bp::VERTICAL); std::vector<WD> w; bp::assign(w, r9); q.insert(w.begin(), w.end()); same(l, q, want, "polygons back into a 90 set"); CHECK(q == r9); std::vector<RD> v; bp::assign(v, r9); GS h; h.insert(v.begin(), v.end()); same(l, h, want, "rectangles into a general set"); CHECK(h == rg); }
  }
  // mixed operands
  switch (s.irange(0, 5)) {
    case 0: { QS q; switch (o) { case 0: q = r9 | b4; break; case 1: q = r9 & b4; break; case 2: q = r9 ^ b4; break; default: q = r9 - b4; } same(l, q, combine(o, want, gb), "90 and 45"); break; }
    case 1: { GS q; switch (o) { case 0: q = r9 | bg; break; case 1: q = r9 & bg; break; case 2: q = r9 ^ bg; break; default: q = r9 - bg; } same(l, q, combine(o, want, gb), "90 and general"); break; }
    case 2: { GS q; switch (o) { case 0: q = rg | b9; break; case 1: q = rg & b9; break; case 2: q = rg ^ b9; break; default: q = rg - b9; } same(l, q, combine(o, want, gb), "general and 90"); break; }
    case 3: { QS q(r4); switch (o) { case 0: q |= b9; break; case 1: q &= b9; break; case 2: q ^= b9; break; default: q -= b9; } same(l, q, combine(o, want, gb), "45 and 90, assigned"); break; }
    case 4: { GS q(rg); switch (o) { case 0: q |= b9; break; case 1: q &= b9; break; case 2: q ^= b9; break; default: q -= b9; } same(l, q, combine(o, want, gb), "general and 90, assigned"); break; }
    default: { std::vector<GW> v; switch (o) { case 0: bp::assign(v, r4 | b9); break; case 1: bp::assign(v, r4 & b9); break; case 2: bp::assign(v, r4 ^ b9); break; default: bp::assign(v, r4 - b9); } same(l, gset(v), combine(o, want, gb), "45 and 90 as polygons"); }
  }
}
// 45-degree input in the 45-degree and general engines
PBT_TARGET(fortyfive, 180000, 4000000) {
  Lat l = lat(s); int o = s.irange(0, 3); s.notef([&](std::ostream& x) { x << "op " << OPN[o] << " m " << l.m; }); Plan pa = plan(s, l, false, 4, " a:"), pb = plan(s, l, false, 4, " b:");
  QS a4 = build45(s, l, pa), b4 = build45(s, l, pb); GS ag = buildg(s, l, pa), bg = buildg(s, l, pb);
  if (o == 0 && (neg(pa.g) || neg(pb.g))) { s.label("excluded: known finding or_assign_counts"); a4.clean(); b4.clean(); ag.clean(); bg.clean(); }
  Tri ga = pa.g.norm(), gb = pb.g.norm(), want = combine(o, ga, gb); s.nontrivial(!(ga & gb).empty() && ga != gb && !want.manhattan());
  queries(a4, ag, ga, "queries of a (45 and general)");
  QS r4 = boolean(s, a4, b4, o); GS rg = boolean(s, ag, bg, o);
  same(l, r4, want, "boolean"); same(l, rg, want, "boolean"); queries(r4, rg, want, "queries of the result (45 and general)");
  using namespace op;
  switch (s.irange(0, 6)) {
    case 0: { GS q; q.insert(r4); same(l, q, want, "insert of a 45 set"); CHECK(q == rg); break; }
    case 1: { GS q; bp::assign(q, r4); same(l, q, want, "assign of a 45 set"); CHECK(bp::equivalence(q, r4)); CHECK(bp::equivalence(r4, q)); break; }
    case 2: { GS q; q = r4; same(l, q, want, "= of a 45 set"); break; }
    case 3: { GS q, h; bp::assign(h, bg); bp::assign(q, r4); bp::assign(h, q); same(l, h, want, "assign over a set"); break; }
    case 4: { std::vector<GW> v; bp::assign(v, r4); same(l, gset(v), want, "polygons assigned from a 45 set"); break; }
    case 5: { QS q; bool down = false; { GS c(rg); down = c.downcast(q); } CHECKM(down, "downcast of a 45-degree general set fails"); same(l, q, want, "downcast"); CHECK(q == r4); break; }
    default: { QS q; std::vector<QW> v; bp::assign(v, r4); q.insert(v.begin(), v.end()); same(l, q, want, "polygons back into a 45 set"); CHECK(q == r4); }
  }
  switch (s.irange(0, 3)) {
    case 0: { GS q; switch (o) { case 0: q = r4 | bg; break; case 1: q = r4 & bg; break; case 2: q = r4 ^ bg; break; default: q = r4 - bg; } same(l, q, combine(o, want, gb), "45 and general"); break; }
    case 1: { GS q; switch (o) { case 0: q = rg | b4; break; case 1: q = rg & b4; break; case 2: q = rg ^ b4; break; default: q = rg - b4; } same(l, q, combine(o, want, gb), "general and 45"); break; }
    case 2: { GS q(rg); switch (o) { case 0: q |= b4; break; case 1: q &= b4; break; case 2: q ^= b4; break; default: q -= b4; } same(l, q, combine(o, want, gb), "general and 45, assigned"); break; }
    default: { std::vector<GW> v; switch (o) { case 0: bp::assign(v, r4 | bg); break; case 1: bp::assign(v, r4 & bg); break; case 2: bp::assign(v, r4 ^ bg); break; default: bp::assign(v, r4 - bg); } same(l, gset(v), combine(o, want, gb), "45 and general as polygons"); }
  }
}
// sets and containers seen as sets of a narrower kind by view_as
namespace {
template <class C> void view90(Src& s, const Lat& l, C& x, const Tri& g, const QS& b4, const PS& b9, const Tri& gb, const char* what) {
  using namespace op; PS q(s.coin() ? bp::HORIZONTAL : bp::VERTICAL); int o = s.irange(0, 3); const C& cx = x; auto v = bp::view_as<bp::polygon_90_set_concept>(x);
  switch (s.irange(0, 5)) {
    case 0: bp::assign(q, v); same(l, q, g, what); break;
    case 1: { if (s.coin()) q = b9; bp::assign(q, bp::view_as<bp::polygon_90_set_concept>(cx)); same(l, q, g, what); break; }
    case 2: CHECKM(bp::area(v) == bp::area(x), what << ": area of the view"); break;
    case 3: switch (o) { case 0: q = v | b9; break; case 1: q = v & b9; break; case 2: q = v ^ b9; break; default: q = v - b9; } same(l, q, combine(o, g, gb), what); break;
    case 4: switch (o) { case 0: q = b9 | v; break; case 1: q = b9 & v; break; case 2: q = b9 ^ v; break; default: q = b9 - v; } same(l, q, combine(o, gb, g), what); break;
    default: q = b9; switch (o) { case 0: q |= v; break; case 1: q &= v; break; case 2: q ^= v; break; default: q -= v; } same(l, q, combine(o, gb, g), what);
  }
}
template <class C> void view45(Src& s, const Lat& l, C& x, const Tri& g, const QS& b4, const Tri& gb, const char* what) {
  using namespace op; QS q; int o = s.irange(0, 3); const C& cx = x; auto v = bp::view_as<bp::polygon_45_set_concept>(x);
  switch (s.irange(0, 5)) {
    case 0: bp::assign(q, v); same(l, q, g, what); break;
    case 1: { if (s.coin()) q = b4; bp::assign(q, bp::view_as<bp::polygon_45_set_concept>(cx)); same(l, q, g, what); break; }
    case 2: CHECKM(bp::area(v) == bp::area(x), what << ": area of the view"); break;
    case 3: switch (o) { case 0: q = v | b4; break; case 1: q = v & b4; break; case 2: q = v ^ b4; break; default: q = v - b4; } same(l, q, combine(o, g, gb), what); break;
    case 4: switch (o) { case 0: q = b4 | v; break; case 1: q = b4 & v; break; case 2: q = b4 ^ v; break; default: q = b4 - v; } same(l, q, combine(o, gb, g), what); break;
    default: q = b4; switch (o) { case 0: q |= v; break; case 1: q &= v; break; case 2: q ^= v; break; default: q -= v; } same(l, q, combine(o, gb, g), what);
  }
}
}
PBT_TARGET(views, 120000, 3000000) {
  Lat l = lat(s); bool m = s.coin(); Plan pa = plan(s, l, m, 4, " a:"), pb = plan(s, l, m, 4, " b:");
  QS a4 = build45(s, l, pa), b4 = build45(s, l, pb); GS ag = buildg(s, l, pa); a4.clean(); b4.clean(); ag.clean(); Tri ga = pa.g.norm(), gb = pb.g.norm(); s.nontrivial(!(ga & gb).empty() && ga != gb);
  if (m) {
    PS b9 = build90(s, l, pb); b9.clean();
    switch (s.irange(0, 4)) {
      case 0: view90(s, l, a4, ga, b4, b9, gb, "view of a 45-degree set"); break;
      case 1: view90(s, l, ag, ga, b4, b9, gb, "view of a general set"); break;
      case 2: { std::vector<GW> v; ag.get(v); view90(s, l, v, ga, b4, b9, gb, "view of polygons with holes"); break; }
      case 3: { std::vector<QW> v; a4.get(v); view90(s, l, v, ga, b4, b9, gb, "view of 45-degree polygons with holes"); break; }
      default: { std::list<GD> v; ag.get(v); view90(s, l, v, ga, b4, b9, gb, "view of polygons"); }
    }
  } else {
    switch (s.irange(0, 2)) {
      case 0: view45(s, l, ag, ga, b4, gb, "view of a general set"); break;
      case 1: { std::vector<GW> v; ag.get(v); view45(s, l, v, ga, b4, gb, "view of polygons with holes"); break; }
      default: { std::list<GD> v; ag.get(v); view45(s, l, v, ga, b4, gb, "view of polygons"); }
    }
  }
}
