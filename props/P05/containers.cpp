// assignment forms on containers of polygons, also on themselves
#include "common.hpp"
namespace {
template <class C, class B> void self(Src& s, int o, const char* name) {
  Lat l = lattice(s, 6); Tri ga(l.G), gb(l.G); s.notef([&](std::ostream& x) { x << name << " op " << OPN[o] << " a:"; });
  g_clean_negative = o == 0; C a = make<C>::go(s, l, ga); s.note(" b:"); B b = make<B>::go(s, l, gb); bool alt = s.coin(), own = s.chance(1, 8);
  Tri want = combine(o, ga, own ? ga : gb); s.nontrivial(!(ga & gb).empty() && ga != gb); s.label(name);
  using namespace op;
  auto go = [&](const auto& y) { switch (o) { case 0: if (alt) a |= y; else a += y; break; case 1: if (alt) a &= y; else a *= y; break; case 2: a ^= y; break; default: a -= y; } };
  if (own) go(a); else go(b);
  Tri got = tiles(l, gen::rshapes_wh(a), true, name); CHECKM(got == want, name << (own ? " (itself)" : "") << ": polygons denote " << got << " want " << want);
  QS out; out.insert(a.begin(), a.end()); check_region(l, out, want, name);
}
typedef std::vector<QW> VW; typedef std::list<QW> LQ; typedef std::vector<QD> VQ; typedef std::vector<RD> VR;
}
PBT_TARGET(containers, 60000, 1500000) {
  int o = s.irange(0, 3);
  switch (s.irange(0, 5)) {
    case 0: self<VW, QS>(s, o, "VW op= QS"); break; case 1: self<LQ, QW>(s, o, "LW op= QW"); break; case 2: self<VW, VQ>(s, o, "VW op= VQ"); break;
    case 3: self<VW, RD>(s, o, "VW op= RD"); break; case 4: self<LQ, PS>(s, o, "LW op= PS"); break; default: self<VW, LQ>(s, o, "VW op= LW");
  }
}
