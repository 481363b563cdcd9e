#include "arbset.hpp"
// Booleans of general sets in every spelling
PBT_TARGET(sets, 240000, 4000000) {
  Ctx c; start(s, c); int mode = s.irange(0, 5), o = s.irange(0, 3), o2 = s.irange(0, 3);
  s.notef([&](std::ostream& x) { x << "mode " << mode << " op " << OPN[o] << " op2 " << OPN[o2]; });
  Opd oa = OT<GS>::plan(s, c); s.note(" b:"); Opd ob = OT<GS>::plan(s, c), oc; oc.region = sum();
  if (mode == 3) { s.note(" c:"); oc = OT<GS>::plan(s, c); } if (mode == 5) { s.note(" c:"); oc = OT<GW>::plan(s, c); }
  bool exact = settle(s, c, s.coin()); if (c.skip) return;
  GS a = OT<GS>::build(oa, c.k), b = OT<GS>::build(ob, c.k);
  Ex want = boolean(o, oa.region, ob.region); s.nontrivial(overlap(s, c, oa.region, ob.region)); s.label(std::string("op") + OPN[o]);
  using namespace boost::polygon::operators;
  if (mode == 0) { GS out; switch (o) { case 0: bp::assign(out, a | b); break; case 1: bp::assign(out, a & b); break; case 2: bp::assign(out, a ^ b); break; default: bp::assign(out, a - b); } check_set(s, c, out, want, exact, "assign(out, a op b)"); }
  else if (mode == 1) { GS out; switch (o) { case 0: out = s.coin() ? GS(a | b) : GS(a + b); break; case 1: out = s.coin() ? GS(a & b) : GS(a * b); break; case 2: out = a ^ b; break; default: out = a - b; } check_set(s, c, out, want, exact, "out = a op b"); }
  else if (mode == 2) {
    GS out(a); bool alt = s.coin();
    switch (o) { case 0: if (alt) out |= b; else out += b; break; case 1: if (alt) out &= b; else out *= b; break; case 2: out ^= b; break; default: out -= b; }
    check_set(s, c, out, want, exact, "a op= b");
  } else if (mode == 3) {
    GS cc = OT<GS>::build(oc, c.k), out; Ex w2 = boolean(o2, want, oc.region);
#define THREE(X, Y) out = (a X b) Y cc
#define ROW(X) switch (o2) { case 0: THREE(X, |); break; case 1: THREE(X, &); break; case 2: THREE(X, ^); break; default: THREE(X, -); }
    switch (o) { case 0: ROW(|) break; case 1: ROW(&) break; case 2: ROW(^) break; default: ROW(-) }
    check_set(s, c, out, w2, exact, "(a op b) op2 c", 2 * SNAP);
  } else if (mode == 4) {
    GS out(a); Ex w = boolean(o, oa.region, oa.region);
    switch (o) { case 0: out |= out; break; case 1: out &= out; break; case 2: out ^= out; break; default: out -= out; }
    check_set(s, c, out, w, exact, "a op= a");
    GS q(a); switch (o) { case 0: q = q | b; break; case 1: q = q & b; break; case 2: q = q ^ b; break; default: q = q - b; }
    check_set(s, c, q, want, exact, "a = a op b");
  } else {
    GS out(a); GW w = OT<GW>::build(oc, c.k); Ex ww = boolean(o, oa.region, oc.region);
    switch (o) { case 0: out |= w; break; case 1: out &= w; break; case 2: out ^= w; break; default: out -= w; }
    check_set(s, c, out, ww, exact, "a op= polygon");
  }
  check_set(s, c, a, oa.region, exact, "left operand afterwards"); check_set(s, c, b, ob.region, exact, "right operand afterwards");
}
// operands of many shapes: deep overlaps, long edge lists (the intersection
// scan is divided at y cuts from about ten edges up)
PBT_TARGET(many, 12000, 300000) {
  Ctx c; start(s, c); int o = s.irange(0, 3), n = s.irange(3, 24); if (s.coin()) c.style = s.irange(2, 4);
  s.notef([&](std::ostream& x) { x << "a op" << OPN[o] << " b"; });
  Opd oa = plan(s, c, n / 2 + 1, n, ANY, true, "set:"); s.note(" b:"); Opd ob = plan(s, c, 1, n, ANY, true, "set:");
  bool exact = settle(s, c, s.coin()); if (c.skip) return;
  GS a = OT<GS>::build(oa, c.k), b = OT<GS>::build(ob, c.k), out; Ex want = boolean(o, oa.region, ob.region); s.nontrivial(overlap(s, c, oa.region, ob.region));
  using namespace boost::polygon::operators;
  switch (o) { case 0: out = a | b; break; case 1: out = a & b; break; case 2: out = a ^ b; break; default: out = a - b; }
  check_set(s, c, out, want, exact, "a op b");
}
// polygon_set_data of a polygon that touches its own edge, coordinates of 27 bits
PBT_KNOWN(large_touching) {
  World w; Ring r{P{-79380665,-79380665},P{-78429180,-78429180},P{-78429181,-78429179},P{-78429183,-78429178},P{-103700632,-78429178},P{-103700632,-91540635},P{-103700633,-91540637},P{-79380641,-79380641}};
  GS g; g.insert(bpolyd<int>(r)); std::vector<Ring> out = out_rings(g); P q{-80000000, -79365799};
  CHECK_EQ(winding(out, q), mem::winding(r, q) > 0 ? 1 : 0);
}
