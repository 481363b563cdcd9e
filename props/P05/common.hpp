#include "tri.hpp"
using namespace tri;
namespace bp = boost::polygon;
namespace op = boost::polygon::operators;
typedef bp::polygon_45_set_data<int> QS;
typedef bp::polygon_45_data<int> QD;
typedef bp::polygon_45_with_holes_data<int> QW;
typedef bp::polygon_90_set_data<int> PS;
typedef bp::rectangle_data<int> RD;
typedef bp::polygon_90_data<int> PD;
typedef bp::polygon_90_with_holes_data<int> WD;
inline Tri combine(int o, const Tri& a, const Tri& b) { switch (o) { case 0: return a | b; case 1: return a & b; case 2: return a ^ b; default: return a - b; } }
static const char* const OPN[] = {"|", "&", "^", "-"};
// Known finding or_assign_counts_45: | accumulates raw counts, so an operand
// with more subtractive than additive inserts somewhere is cleaned first.
inline bool neg(const Tri& t) { for (int v : t.c) if (v < 0) return true; return false; }
inline bool g_clean_negative = false;
template <class S> void settle(Src& s, S& p, Tri& g, bool or_) {
  if (or_ && neg(g)) { p.clean(); g = g.norm(); s.note("  clean"); s.label("excluded: known finding or_assign_counts_45"); }
}
// make<T>: a random value of operand type T and its region
template <class T> struct make;
template <> struct make<RD> { static RD go(Src& s, const Lat& l, Tri& g) { Shape h; h.outer = trect(s, l.G); g.add(h); s.notef([&](std::ostream& o) { o << "  rect " << l.at(h); }); Ring r = l.at(h.outer); return RD(r[0].x, r[0].y, r[2].x, r[2].y); } };
template <> struct make<QD> { static QD go(Src& s, const Lat& l, Tri& g) { Shape h = vary(s, any_shape(s, l.G, false)); g.add(h); s.notef([&](std::ostream& o) { o << "  poly " << l.at(h); }); return bpoly45<int>(l.at(h.outer)); } };
template <> struct make<QW> { static QW go(Src& s, const Lat& l, Tri& g) { Shape h = vary(s, any_shape(s, l.G, true)); g.add(h); s.notef([&](std::ostream& o) { o << "  pwh " << l.at(h); }); return bpwh45<int>(l.at(h)); } };
template <> struct make<PD> { static PD go(Src& s, const Lat& l, Tri& g) { Shape h = vary(s, manh(s, l.G, false)); g.add(h); s.notef([&](std::ostream& o) { o << "  poly90 " << l.at(h); }); return gen::bpoly90<int>(l.at(h.outer)); } };
template <> struct make<WD> { static WD go(Src& s, const Lat& l, Tri& g) { Shape h = vary(s, manh(s, l.G, true)); g.add(h); s.notef([&](std::ostream& o) { o << "  pwh90 " << l.at(h); }); return gen::bpwh90<int>(l.at(h)); } };
template <class T> struct make<std::vector<T>> { static std::vector<T> go(Src& s, const Lat& l, Tri& g) { std::vector<T> v; for (int i = s.count(0, 3); i > 0; --i) v.push_back(make<T>::go(s, l, g)); return v; } };
template <class T> struct make<std::list<T>> { static std::list<T> go(Src& s, const Lat& l, Tri& g) { std::list<T> v; for (int i = s.count(0, 3); i > 0; --i) v.push_back(make<T>::go(s, l, g)); return v; } };
template <> struct make<PS> { static PS go(Src& s, const Lat& l, Tri& g) {
  PS p(s.coin() ? bp::VERTICAL : bp::HORIZONTAL); s.note(p.orient() == bp::VERTICAL ? "  90 set, vertical" : "  90 set, horizontal");
  for (int i = s.count(0, 3); i > 0; --i) { bool hole = s.chance(1, 5); Tri t(l.G); if (s.coin()) p.insert(make<RD>::go(s, l, t), hole); else p.insert(make<WD>::go(s, l, t), hole); if (hole) { g -= t; s.note("   (as hole)"); } else g += t; }
  if (s.chance(1, 4)) { p.clean(); g = g.norm(); }
  settle(s, p, g, g_clean_negative);
  return p; } };
template <class T> void ins(Src& s, const Lat& l, QS& p, Tri& g, bool hole) { Tri t(l.G); p.insert(make<T>::go(s, l, t), hole); if (hole) { g -= t; s.note("   (as hole)"); } else g += t; }
inline void fill(Src& s, const Lat& l, QS& p, Tri& g, int maxn = 5) {
  for (int i = s.count(0, maxn); i > 0; --i) {
    bool hole = s.chance(1, 6);
    switch (s.weighted({3, 5, 4, 1, 1, 1, 1, 1})) {
      case 0: ins<RD>(s, l, p, g, hole); break; case 1: ins<QD>(s, l, p, g, hole); break; case 2: ins<QW>(s, l, p, g, hole); break;
      case 3: ins<PD>(s, l, p, g, hole); break; case 4: ins<WD>(s, l, p, g, hole); break; case 5: ins<PS>(s, l, p, g, hole); break;
      case 6: { std::vector<QD> v = make<std::vector<QD>>::go(s, l, g); p.insert(v.begin(), v.end()); break; }
      default: p.clean(); g = g.norm(); s.note("  clean"); break;
    }
  }
}
template <> struct make<QS> { static QS go(Src& s, const Lat& l, Tri& g) { QS p; fill(s, l, p, g); if (s.chance(1, 4)) { p.clean(); g = g.norm(); s.note("  clean"); } settle(s, p, g, g_clean_negative); return p; } };
template <class A, class B, int O> void pairop(Src& s, const char* name) {
  Lat l = lattice(s, 6); Tri ga(l.G), gb(l.G);
  s.notef([&](std::ostream& x) { x << name << " op " << OPN[O] << " a:"; });
  g_clean_negative = O == 0;
  A a = make<A>::go(s, l, ga); s.note(" b:"); B b = make<B>::go(s, l, gb);
  Tri want = combine(O, ga, gb); s.nontrivial(!(ga & gb).empty() && ga != gb); s.label(name);
  using namespace op;
  QS out;
  if (s.coin()) { switch (O) { case 0: out = a | b; break; case 1: out = a & b; break; case 2: out = a ^ b; break; default: out = a - b; } }
  else { std::vector<QW> v; switch (O) { case 0: bp::assign(v, a | b); break; case 1: bp::assign(v, a & b); break; case 2: bp::assign(v, a ^ b); break; default: bp::assign(v, a - b); }
    Tri got = tiles(l, gen::rshapes_wh(v), true, name); CHECKM(got == want, name << ": assigned polygons denote " << got << " want " << want); out.insert(v.begin(), v.end()); }
  check_region(l, out, want, name);
}
typedef std::vector<RD> VR; typedef std::vector<QD> VQ; typedef std::list<QW> LQ; typedef std::vector<PD> VP;
#define PAIR(A, B) pairop<A, B, OP_>(s, #A " op " #B)
#define PAIRS(NAME) PBT_TARGET(NAME, 60000, 1500000) { \
  switch (s.irange(0, 12)) { case 0: PAIR(QS, QD); break; case 1: PAIR(QD, QS); break; case 2: PAIR(QS, RD); break; case 3: PAIR(RD, QS); break; case 4: PAIR(QS, PS); break; case 5: PAIR(PS, QS); break; \
    case 6: PAIR(QW, QD); break; case 7: PAIR(QD, RD); break; case 8: PAIR(VQ, QS); break; case 9: PAIR(QW, LQ); break; case 10: PAIR(PD, QW); break; case 11: PAIR(VR, QW); break; default: PAIR(QD, WD); } }
