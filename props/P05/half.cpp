#include "half.hpp"
PBT_TARGET(half, 150000, 4000000) {
  HL l; l.G = s.irange(2, 7); l.ox = s.chance(1, 4) ? s.around(-500000000, 500000000) : s.around(-6, 6); l.oy = s.chance(1, 4) ? s.around(-500000000, 500000000) : s.around(-6, 6);
  Tri ga(l.G), gb(l.G), gc(l.G); QS a, b, c; int o = s.irange(0, 3), o2 = s.irange(0, 3);
  s.notef([&](std::ostream& x) { x << "op " << OPN[o] << " op2 " << OPN[o2] << " G " << l.G << " a:"; });
  hfill(s, l, a, ga, 3); hsettle(s, l, a, ga, o == 0); s.note(" b:"); hfill(s, l, b, gb, 3); hsettle(s, l, b, gb, o == 0);
  Tri want = combine(o, ga, gb); using namespace op; QS out;
  if (s.coin()) { switch (o) { case 0: out = a | b; break; case 1: out = a & b; break; case 2: out = a ^ b; break; default: out = a - b; } }
  else { out = a; switch (o) { case 0: out |= b; break; case 1: out &= b; break; case 2: out ^= b; break; default: out -= b; } }
  out.clean();
  s.nontrivial(out.has_error_data()); s.label("with error squares", out.has_error_data()); s.label(std::string("op") + OPN[o]);
  check_half(l, out, want, "a op b");
  if (s.coin()) {
    s.note(" c:"); hfill(s, l, c, gc, 2); hsettle(s, l, c, gc, o2 == 0);
    Tri w2 = combine(o2, want, gc);
    switch (o2) { case 0: out |= c; break; case 1: out &= c; break; case 2: out ^= c; break; default: out -= c; }
    out.clean();
    check_half(l, out, w2, "(a op b) op2 c");
  }
}
PBT_KNOWN(or_assign_counts_45) {
  QS a, b; a.insert(RD(0, 0, 1, 1), true); b.insert(RD(0, 0, 1, 1));
  a |= b; b.clean(); CHECK(a == b);
}
