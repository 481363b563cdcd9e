#include "sets.hpp"
namespace {
template <class S> void functions(Src& s, const char* name) {
  Lat l = plat(s); s.note(name); s.label(name); S a; PS b; Tri g(l.G); fill2(s, l, true, a, b, g, 5, " a:"); g = g.norm(); s.nontrivial(!g.empty()); auto before = raws(a);
  ll u = l.m; auto amt = [&] { return (int)s.range(0, 3 * u); }; int d = amt(), e = amt(), f = amt(), h = amt(); bp::orientation_2d o = s.coin() ? bp::HORIZONTAL : bp::VERTICAL; bp::direction_2d dir((bp::direction_2d_enum)s.irange(0, 3)); int k = s.irange(0, 21);
  s.notef([&](std::ostream& x) { x << " function " << k << " amounts " << d << " " << e << " " << f << " " << h << " orient " << o.to_int() << " dir " << dir.to_int(); });
  using namespace op;
  switch (k) {
    case 0: bp::bloat(a, d); bp::bloat(b, d); break; case 1: bp::bloat(a, o, d); bp::bloat(b, o, d); break; case 2: bp::bloat(a, o, d, e); bp::bloat(b, o, d, e); break; case 3: bp::bloat(a, dir, d); bp::bloat(b, dir, d); break; case 4: bp::bloat(a, d, e, f, h); bp::bloat(b, d, e, f, h); break;
    case 5: bp::shrink(a, d); bp::shrink(b, d); break; case 6: bp::shrink(a, o, d); bp::shrink(b, o, d); break; case 7: bp::shrink(a, o, d, e); bp::shrink(b, o, d, e); break; case 8: bp::shrink(a, dir, d); bp::shrink(b, dir, d); break; case 9: bp::shrink(a, d, e, f, h); bp::shrink(b, d, e, f, h); break;
    case 10: bp::resize(a, d - e); bp::resize(b, d - e); break; case 11: bp::resize(a, d - e, e - f, f - h, h - d); bp::resize(b, d - e, e - f, f - h, h - d); break;
    case 12: bp::grow_and(a, d); bp::grow_and(b, d); break; case 13: bp::grow_and(a, o, d, e); bp::grow_and(b, o, d, e); break; case 14: bp::grow_and(a, dir, d); bp::grow_and(b, dir, d); break;
    case 15: { int n = s.irange(1, 5); bp::scale_up(a, n); bp::scale_up(b, n); break; } case 16: { int n = s.irange(1, 5); bp::scale_down(a, n); bp::scale_down(b, n); break; } case 17: { bp::scale(a, bp::anisotropic_scale_factor<double>(0.5, 1.5)); bp::scale(b, bp::anisotropic_scale_factor<double>(0.5, 1.5)); break; }
    case 18: if (s.coin()) { bp::move(a, o, d); bp::move(b, o, d); } else { bp::move(a, d, e); bp::move(b, d, e); } break;
    case 19: { bp::axis_transformation t((bp::axis_transformation::ATR)s.irange(0, 7)); bp::transform(a, t); bp::transform(b, t); break; }
    case 20: bp::self_intersect(a); bp::self_intersect(b); break;
    default: bp::self_xor(a); bp::self_xor(b); break;
  }
  agree(a, b, "after the function", eqshapes(before, raws(a)));
  // outputs in user types
  std::vector<Rect> ra; std::vector<RD> rb; 
  if (s.coin()) { bp::get_rectangles(ra, a, o); bp::get_rectangles(rb, b, o); } else { bp::get_max_rectangles(ra, a); bp::get_max_rectangles(rb, b); }
  auto v = rawc(ra); std::vector<Shape> w; for (auto& r : rb) w.push_back(Shape{ref::ring(R{bp::xl(r), bp::yl(r), bp::xh(r), bp::yh(r)}), {}}); CHECKM(eqshapes(v, w), "rectangles " << v << " library " << w);
  { std::list<Rect> q; bp::assign(q, b); PS t; for (auto& r : q) t.insert(r); CHECKM(t == b, "assigned to a list of user rectangles"); std::vector<Poly90> p; b.get(p); PS t2; for (auto& r : p) t2.insert(r); CHECKM(t2 == b, "get into user polygons"); }
}
template <class S, class S2> void pairs(Src& s, const char* name) {
  Lat l = plat(s); s.note(name); s.label(name); S a; PS b, c, qq; S2 q; Tri g(l.G), gq(l.G); fill2(s, l, true, a, b, g, 5, " a:"); fill2(s, l, true, q, qq, gq, 3, " b:"); g = g.norm(); gq = gq.norm(); s.nontrivial(!(g & gq).empty()); c = b;
  using namespace op;
  int k = s.irange(0, 3);
  if (k == 0) { bp::interact(a, q); bp::interact(b, qq); agree(a, b, "interact"); }
  else if (k == 1) { ll A = s.range(0, 20) * l.m * l.m, B = s.range(0, 60) * l.m * l.m; int w = (int)(s.range(0, 4) * l.m), x = (int)(s.range(2, 10) * l.m), h = (int)(s.range(0, 4) * l.m), y = (int)(s.range(2, 10) * l.m); bp::keep(a, A, B, w, x, h, y); bp::keep(b, A, B, w, x, h, y); agree(a, b, "keep"); }
  else if (k == 2) { int d = (int)s.range(0, 2 * l.m); if (s.coin()) { a += d; b += d; } else { a -= d; b -= d; } agree(a, b, "grown by operator", d == 0); S t = s.coin() ? a + d : a - d; (void)t; }
  else { using namespace op; int o = s.irange(0, 3); S r(a); switch (o) { case 0: r |= q; break; case 1: r &= q; break; case 2: r ^= q; break; default: r -= q; } denotes(l, r, combine(o, g, gq), "different user sets"); }
  // members of the library set
  PS t(s.coin() ? bp::HORIZONTAL : bp::VERTICAL); bp::assign(t, q); CHECKM(t == qq, "assigned from a user set"); PS z; z.insert(items(q).begin(), items(q).end()); CHECKM(z == qq, "insert of a range of user polygons");
}
}  // namespace
PBT_TARGET(booleans_90, 120000, 2500000) { switch (s.irange(0, 4)) { case 0: booleans<Set90, PS>(s, true, "Set90"); break; case 1: booleans<Set90V, PS>(s, true, "Set90V"); break; case 2: booleans<std::vector<Rect>, PS>(s, true, "vector<Rect>"); break; case 3: booleans<std::list<Poly90>, PS>(s, true, "list<Poly90>"); break; default: booleans<std::vector<Poly90H>, PS>(s, true, "vector<Poly90H>"); } }
PBT_TARGET(functions_90, 120000, 2500000) { switch (s.irange(0, 4)) { case 0: functions<Set90>(s, "Set90"); break; case 1: functions<Set90V>(s, "Set90V"); break; case 2: functions<std::vector<Rect> >(s, "vector<Rect>"); break; case 3: functions<std::list<Poly90> >(s, "list<Poly90>"); break; default: functions<std::vector<Poly90H> >(s, "vector<Poly90H>"); } }
PBT_TARGET(pairs_90, 80000, 1500000) { switch (s.irange(0, 4)) { case 0: pairs<Set90, Set90V>(s, "Set90"); break; case 1: pairs<Set90V, std::vector<Poly90H> >(s, "Set90V"); break; case 2: pairs<std::vector<Rect>, Set90>(s, "vector<Rect>"); break; case 3: pairs<std::list<Poly90>, std::vector<Rect> >(s, "list<Poly90>"); break; default: pairs<std::vector<Poly90H>, std::list<Poly90> >(s, "vector<Poly90H>"); } }
