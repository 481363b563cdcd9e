#include "sets.hpp"
namespace {
template <class S> void functions(Src& s, const char* name) {
  Lat l = plat(s); s.note(name); s.label(name); S a; GS b; Tri g(l.G); fill2(s, l, false, a, b, g, 4, " a:"); g = g.norm(); s.nontrivial(!g.empty()); auto before = raws(a);
  { std::vector<PG> ta; if (s.coin()) bp::get_trapezoids(ta, a); else bp::get_trapezoids(ta, a, s.coin() ? bp::HORIZONTAL : bp::VERTICAL); agree(ta, b, "trapezoids"); agree(a, b, "set after get_trapezoids", true); }
  int d = (int)(2 * s.range(0, 2 * l.m)); int k = s.irange(0, 8); s.notef([&](std::ostream& x) { x << " function " << k << " amount " << d; });
  using namespace op;
  switch (k) {
    case 0: bp::bloat(a, d); bp::bloat(b, d); break; case 1: bp::shrink(a, d); bp::shrink(b, d); break;
    case 2: { int r = s.coin() ? d : -d; bool arc = s.coin(); int n = s.irange(8, 24); bp::resize(a, r, arc, n); bp::resize(b, r, arc, n); break; }
    case 3: { int n = s.irange(1, 5); bp::scale_up(a, n); bp::scale_up(b, n); break; } case 4: bp::scale_down(a, 2); bp::scale_down(b, 2); break;
    case 5: { bp::axis_transformation t((bp::axis_transformation::ATR)s.irange(0, 7)); bp::transform(a, t); bp::transform(b, t); break; }
    case 6: if (s.coin()) { a += d; b += d; } else { a -= d; b -= d; } break;
    case 7: { double th = (double)s.range(0, 3 * l.m); size_t x = bp::simplify(a, th), y = bp::simplify(b, th); CHECK(x == y); break; }
    default: { S t = s.coin() ? a + d : a - (-d); bp::bloat(b, d); a = t; break; }
  }
  agree(a, b, "after the function", eqshapes(before, raws(a)));
  std::list<PGH> q; b.get(q); std::vector<GW> r; b.get(r); auto v = rawc(q); auto w = gen::rshapes_wh(r); CHECKM(eqshapes(v, w), "get into user polygons " << v << " library " << w);
}
template <class S, class S2> void pairs(Src& s, const char* name) {
  Lat l = plat(s); s.note(name); s.label(name); S a; GS b, qq; S2 q; Tri g(l.G), gq(l.G); fill2(s, l, false, a, b, g, 5, " a:"); fill2(s, l, false, q, qq, gq, 3, " b:"); g = g.norm(); gq = gq.norm(); s.nontrivial(!(g & gq).empty());
  using namespace op;
  int k = s.irange(0, 2);
  if (k == 0) { bp::interact(a, q); bp::interact(b, qq); agree(a, b, "interact"); }
  else if (k == 1) { ll A = s.range(0, 20) * l.m * l.m, B = s.range(0, 60) * l.m * l.m; int w = (int)(s.range(0, 4) * l.m), x = (int)(s.range(2, 10) * l.m), h = (int)(s.range(0, 4) * l.m), y = (int)(s.range(2, 10) * l.m); bp::keep(a, A, B, w, x, h, y); bp::keep(b, A, B, w, x, h, y); agree(a, b, "keep"); }
  else { int o = s.irange(0, 3); S r(a); switch (o) { case 0: r |= q; break; case 1: r &= q; break; case 2: r ^= q; break; default: r -= q; } denotes(l, r, combine(o, g, gq), "different user sets"); }
  GS t; bp::assign(t, q); CHECKM(t == qq, "assigned from a user set"); GS z; z.insert(items(q).begin(), items(q).end()); CHECKM(z == qq, "insert of a range of user polygons");
  Set90 m; PS mb; Tri gm(l.G); fill2(s, l, true, m, mb, gm, 2, " c:"); gm = gm.norm(); Set45 n; QS nb; Tri gn(l.G); fill2(s, l, false, n, nb, gn, 2, " d:"); gn = gn.norm(); S r; int o = s.irange(0, 3);
  switch (o) { case 0: bp::assign(r, q | m); break; case 1: bp::assign(r, m & q); break; case 2: bp::assign(r, q ^ m); break; default: bp::assign(r, q - m); } denotes(l, r, combine(o, gq, gm), "general and 90 user sets");
  switch (o) { case 0: bp::assign(r, n | q); break; case 1: bp::assign(r, q & n); break; case 2: bp::assign(r, n ^ q); break; default: bp::assign(r, q - n); } denotes(l, r, combine(o, gq, gn), "general and 45 user sets");
}
}  // namespace
PBT_TARGET(booleans_gen, 100000, 2000000) { switch (s.irange(0, 2)) { case 0: booleans<SetG, GS>(s, false, "SetG"); break; case 1: booleans<std::vector<PG>, GS>(s, false, "vector<PG>"); break; default: booleans<std::list<PGH>, GS>(s, false, "list<PGH>"); } }
PBT_TARGET(functions_gen, 60000, 1200000) { switch (s.irange(0, 2)) { case 0: functions<SetG>(s, "SetG"); break; case 1: functions<std::vector<PG> >(s, "vector<PG>"); break; default: functions<std::list<PGH> >(s, "list<PGH>"); } }
PBT_TARGET(pairs_gen, 60000, 1200000) { switch (s.irange(0, 2)) { case 0: pairs<SetG, std::vector<PG> >(s, "SetG"); break; case 1: pairs<std::vector<PG>, std::list<PGH> >(s, "vector<PG>"); break; default: pairs<std::list<PGH>, SetG>(s, "list<PGH>"); } }
