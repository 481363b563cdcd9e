#include "common.hpp"
// Booleans between all operand types of the concept, called on temporaries of
// that type.
struct Opd { std::vector<Shape> shapes; Reg reg; };
template <class T> struct make;
static Opd opd(const std::vector<Shape>& v) { return Opd{v, Reg::of(v)}; }
template <> struct make<RD> { static RD go(Src& s, const Pool& p, Opd& o) { R r = rect(s, p); Shape h; h.outer = ref::ring(r); o = opd({h}); return brect<int>(r); } };
template <> struct make<PD> { static PD go(Src& s, const Pool& p, Opd& o) { Shape h = shape(s, p, false); h.outer = vary(s, h.outer); o = opd({h}); return bpoly90<int>(h.outer); } };
template <> struct make<WD> { static WD go(Src& s, const Pool& p, Opd& o) { Shape h = shape(s, p, true); h.outer = vary(s, h.outer); o = opd({h}); return bpwh90<int>(h); } };
template <class T> struct make<std::vector<T>> { static std::vector<T> go(Src& s, const Pool& p, Opd& o) {
  std::vector<T> v; std::vector<Shape> sh; for (int i = s.count(0, 3); i > 0; --i) { Opd q; v.push_back(make<T>::go(s, p, q)); sh.push_back(q.shapes[0]); } o = opd(sh); return v; } };
template <class T> struct make<std::list<T>> { static std::list<T> go(Src& s, const Pool& p, Opd& o) { std::vector<T> v = make<std::vector<T>>::go(s, p, o); return std::list<T>(v.begin(), v.end()); } };
template <> struct make<PS> { static PS go(Src& s, const Pool& p, Opd& o) {
  PS r(orient(s)); std::vector<Shape> sh; for (int i = s.count(0, 3); i > 0; --i) { Opd q; r.insert(make<WD>::go(s, p, q)); sh.push_back(q.shapes[0]); } o = opd(sh); return r; } };

template <class A, class B> void pairop(Src& s, const char* name) {
  Pool p = pool(s, 1000000000LL);
  Opd oa, ob; A a = make<A>::go(s, p, oa); B b = make<B>::go(s, p, ob);
  int o = s.irange(0, 3);
  Reg want = combine(o, oa.reg, ob.reg);
  s.notef([&](std::ostream& x) { x << name << ": " << oa.shapes << " " << OPN[o] << " " << ob.shapes; });
  s.nontrivial(!(oa.reg & ob.reg).empty() && oa.reg != ob.reg);
  s.label(name);
  using namespace op;
  PS out;
  switch (o) { case 0: out = a | b; break; case 1: out = a & b; break; case 2: out = a ^ b; break; default: out = a - b; }
  check_region(out, want, name);
  CHECKM(bp::equivalence(a, b) == (oa.reg == ob.reg), name << ": equivalence");
}
#define PAIR(A, B) pairop<A, B>(s, #A " op " #B)
typedef std::vector<RD> VR; typedef std::vector<PD> VP; typedef std::vector<WD> VW; typedef std::list<PD> LP;
