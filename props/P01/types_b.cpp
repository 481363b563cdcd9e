#define PBT_TYPES_B
#include "types_common.hpp"
PBT_TARGET(types_b, 300000, 6000000) {
  switch (s.irange(0, 8)) {
    case 0: PAIR(PS, PD); break; case 1: PAIR(PS, WD); break; case 2: PAIR(WD, PS); break; case 3: PAIR(VW, PS); break;
    case 4: PAIR(PS, VP); break; case 5: PAIR(VR, PS); break; case 6: PAIR(LP, VW); break; case 7: PAIR(VP, WD); break;
    default: PAIR(RD, VW);
  }
}
// self assignment on containers and the algebraic spelling with containers as
// left value
template <class V> void selfcont(Src& s, const char* name) {
  Pool p = pool(s, 1000000000LL);
  Opd oa, ob; V a = make<V>::go(s, p, oa); PS b = make<PS>::go(s, p, ob);
  int o = s.irange(0, 3); bool alt = s.coin();
  s.notef([&](std::ostream& x) { x << name << ": " << oa.shapes << " " << OPN[o] << "= " << ob.shapes; });
  s.nontrivial(!(oa.reg & ob.reg).empty() && oa.reg != ob.reg);
  Reg want = combine(o, oa.reg, ob.reg);
  using namespace op;
  switch (o) { case 0: if (alt) a |= b; else a += b; break; case 1: if (alt) a &= b; else a *= b; break; case 2: a ^= b; break; default: a -= b; }
  PS out; bp::assign(out, a);
  check_region(out, want, name);
}
PBT_TARGET(self_containers, 200000, 4000000) {
  switch (s.irange(0, 2)) { case 0: selfcont<VR>(s, "vector<rectangle>"); break; case 1: selfcont<VP>(s, "vector<polygon_90>"); break; default: selfcont<VW>(s, "vector<polygon_90_with_holes>"); }
}
