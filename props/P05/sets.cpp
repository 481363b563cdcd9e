#include "common.hpp"
// Booleans of two or three 45-degree sets in every spelling
PBT_TARGET(sets, 250000, 6000000) {
  Lat l = lattice(s); Tri ga(l.G), gb(l.G), gc(l.G); QS a, b, c;
  int mode = s.irange(0, 5), o = s.irange(0, 3), o2 = s.irange(0, 3);
  s.notef([&](std::ostream& x) { x << "mode " << mode << " op " << OPN[o] << " op2 " << OPN[o2] << " G " << l.G << " m " << l.m << " a:"; });
  g_clean_negative = false;
  fill(s, l, a, ga); settle(s, a, ga, o == 0); s.note(" b:"); fill(s, l, b, gb); settle(s, b, gb, o == 0);
  Tri want = combine(o, ga, gb); QS ka(a), kb(b);
  s.nontrivial(!(ga & gb).empty() && ga != gb && !(ga.manhattan() && gb.manhattan())); s.label(std::string("op") + OPN[o]);
  s.label("manhattan operands", ga.manhattan() && gb.manhattan());
  using namespace op;
  if (mode == 0) { QS out; switch (o) { case 0: bp::assign(out, a | b); break; case 1: bp::assign(out, a & b); break; case 2: bp::assign(out, a ^ b); break; default: bp::assign(out, a - b); } check_region(l, out, want, "assign(out, a op b)"); }
  else if (mode == 1) { QS out; switch (o) { case 0: out = s.coin() ? QS(a | b) : QS(a + b); break; case 1: out = s.coin() ? QS(a & b) : QS(a * b); break; case 2: out = a ^ b; break; default: out = a - b; } check_region(l, out, want, "out = a op b"); }
  else if (mode == 2) {
    QS out(a); bool alt = s.coin();
    switch (o) { case 0: if (alt) out |= b; else out += b; break; case 1: if (alt) out &= b; else out *= b; break; case 2: out ^= b; break; default: out -= b; }
    check_region(l, out, want, "a op= b");
  } else if (mode == 3) {
    s.note(" c:"); fill(s, l, c, gc); settle(s, c, gc, o2 == 0); QS out;
    Tri w2 = combine(o2, want, gc);
#define THREE(X, Y) out = (a X b) Y c
#define ROW(X) switch (o2) { case 0: THREE(X, |); break; case 1: THREE(X, &); break; case 2: THREE(X, ^); break; default: THREE(X, -); }
    switch (o) { case 0: ROW(|) break; case 1: ROW(&) break; case 2: ROW(^) break; default: ROW(-) }
    check_region(l, out, w2, "(a op b) op2 c");
  } else if (mode == 4) {  // operands aliasing the result
    QS out(a); Tri w = combine(o, ga, ga);
    switch (o) { case 0: out |= out; break; case 1: out &= out; break; case 2: out ^= out; break; default: out -= out; }
    check_region(l, out, w, "a op= a");
    QS q(a); switch (o) { case 0: q = q | b; break; case 1: q = q & b; break; case 2: q = q ^ b; break; default: q = q - b; }
    check_region(l, q, want, "a = a op b");
  } else {  // assignment with other geometry on the right
    QS out(a); Tri t(l.G);
    QW w = make<QW>::go(s, l, t); Tri ww = combine(o, ga, t);
    switch (o) { case 0: out |= w; break; case 1: out &= w; break; case 2: out ^= w; break; default: out -= w; }
    check_region(l, out, ww, "a op= polygon");
  }
  check_region(l, a, ga, "left operand afterwards"); check_region(l, b, gb, "right operand afterwards");
}
