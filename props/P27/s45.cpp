#include "sets.hpp"
namespace {
template <class S> void functions(Src& s, const char* name) {
  Lat l = plat(s); s.note(name); s.label(name); S a; QS b; Tri g(l.G); fill2(s, l, false, a, b, g, 5, " a:"); g = g.norm(); s.nontrivial(!g.empty()); auto before = raws(a);
  { std::vector<P4> ta; if (s.coin()) bp::get_trapezoids(ta, a); else bp::get_trapezoids(ta, a, s.coin() ? bp::HORIZONTAL : bp::VERTICAL); agree(ta, b, "trapezoids"); agree(a, b, "set after get_trapezoids", true); }
  int d = (int)(2 * s.range(0, 2 * l.m)); int k = s.irange(0, 11); s.notef([&](std::ostream& x) { x << " function " << k << " amount " << d; });
  using namespace op;
  switch (k) {
    case 0: bp::bloat(a, d); bp::bloat(b, d); break; case 1: bp::shrink(a, d); bp::shrink(b, d); break;
    case 2: { int r = s.coin() ? d : -d; auto ro = (bp::RoundingOption)s.irange(0, 4); auto co = (bp::CornerOption)s.irange(0, 2); bp::resize(a, r, ro, co); bp::resize(b, r, ro, co); break; }
    case 3: bp::grow_and(a, d); bp::grow_and(b, d); break;
    case 4: { int n = s.irange(1, 5); bp::scale_up(a, n); bp::scale_up(b, n); break; } case 5: bp::scale_down(a, 2); bp::scale_down(b, 2); break; case 6: bp::scale(a, 1.5); bp::scale(b, 1.5); break;
    case 7: { bp::axis_transformation t((bp::axis_transformation::ATR)s.irange(0, 7)); bp::transform(a, t); bp::transform(b, t); break; }
    case 8: bp::self_intersect(a); bp::self_intersect(b); break; case 9: bp::self_xor(a); bp::self_xor(b); break;
    case 10: if (s.coin()) { a += d; b += d; } else { a -= d; b -= d; } break;
    default: { S t = s.coin() ? a + d : a - (-d); bp::bloat(b, d); a = t; break; }
  }
  agree(a, b, "after the function", eqshapes(before, raws(a)));
  std::list<P4H> q; b.get(q); std::vector<QW> r; b.get(r); auto v = rawc(q); auto w = gen::rshapes_wh(r); CHECKM(eqshapes(v, w), "get into user polygons " << v << " library " << w);
}
template <class S, class S2> void pairs(Src& s, const char* name) {
  Lat l = plat(s); s.note(name); s.label(name); S a; QS b, qq; S2 q; Tri g(l.G), gq(l.G); fill2(s, l, false, a, b, g, 5, " a:"); fill2(s, l, false, q, qq, gq, 3, " b:"); g = g.norm(); gq = gq.norm(); s.nontrivial(!(g & gq).empty());
  using namespace op;
  int k = s.irange(0, 2);
  if (k == 0) { bp::interact(a, q); bp::interact(b, qq); agree(a, b, "interact"); }
  else if (k == 1) { ll A = s.range(0, 20) * l.m * l.m, B = s.range(0, 60) * l.m * l.m; int w = (int)(s.range(0, 4) * l.m), x = (int)(s.range(2, 10) * l.m), h = (int)(s.range(0, 4) * l.m), y = (int)(s.range(2, 10) * l.m); bp::keep(a, A, B, w, x, h, y); bp::keep(b, A, B, w, x, h, y); agree(a, b, "keep"); }
  else { int o = s.irange(0, 3); S r(a); switch (o) { case 0: r |= q; break; case 1: r &= q; break; case 2: r ^= q; break; default: r -= q; } denotes(l, r, combine(o, g, gq), "different user sets"); }
  QS t; bp::assign(t, q); CHECKM(t == qq, "assigned from a user set"); QS z; z.insert(items(q).begin(), items(q).end()); CHECKM(z == qq, "insert of a range of user polygons");
  // Manhattan user sets as operands of 45-degree ones
  Set90 m; PS mb; Tri gm(l.G); fill2(s, l, true, m, mb, gm, 2, " c:"); gm = gm.norm(); S r; int o = s.irange(0, 3);

  switch (o) { case 0: bp::assign(r, q | m); break; case 1: bp::assign(r, q & m); break; case 2: bp::assign(r, q ^ m); break; default: bp::assign(r, q - m); } denotes(l, r, combine(o, gq, gm), "45 and 90 user sets");
}
}  // namespace
PBT_TARGET(booleans_45, 120000, 2500000) { switch (s.irange(0, 2)) { case 0: booleans<Set45, QS>(s, false, "Set45"); break; case 1: booleans<std::vector<P4>, QS>(s, false, "vector<P4>"); break; default: booleans<std::list<P4H>, QS>(s, false, "list<P4H>"); } }
PBT_TARGET(functions_45, 100000, 2000000) { switch (s.irange(0, 2)) { case 0: functions<Set45>(s, "Set45"); break; case 1: functions<std::vector<P4> >(s, "vector<P4>"); break; default: functions<std::list<P4H> >(s, "list<P4H>"); } }
PBT_TARGET(pairs_45, 80000, 1500000) { switch (s.irange(0, 2)) { case 0: pairs<Set45, std::vector<P4> >(s, "Set45"); break; case 1: pairs<std::vector<P4>, std::list<P4H> >(s, "vector<P4>"); break; default: pairs<std::list<P4H>, Set45>(s, "list<P4H>"); } }
