#include "gen90.hpp"
using namespace gen;
namespace op = boost::polygon::operators;
typedef bp::polygon_90_set_data<int> PS;
typedef bp::rectangle_data<int> RD;
typedef bp::polygon_90_data<int> PD;
typedef bp::polygon_90_with_holes_data<int> WD;

inline Reg combine(int o, const Reg& a, const Reg& b) {
  switch (o) { case 0: return a | b; case 1: return a & b; case 2: return a ^ b; default: return a - b; }
}
static const char* const OPN[] = {"|", "&", "^", "-"};
inline bp::orientation_2d orient(Src& s) { return s.coin() ? bp::VERTICAL : bp::HORIZONTAL; }

// Full check that a set denotes the expected region, through every reading path
template <class Set> void check_region(const Set& ps, const Reg& want, const char* what) {
  Set c1(ps), c2(ps), c3(ps);
  std::vector<RD> v;
  bp::get_rectangles(v, c1);
  std::vector<R> r = rrects(v);
  CHECKM(disjoint(r), what << ": overlapping or empty rectangles " << r);
  CHECKM(Reg::of(r) == want, what << ": got " << Reg::of(r) << " want " << want);
  Reg raw = raw_region(ps);
  CHECKM(raw == want, what << ": raw data denotes " << raw << " want " << want);
  v.clear(); c2.get_rectangles(v, bp::VERTICAL); r = rrects(v);
  CHECKM(disjoint(r) && Reg::of(r) == want, what << ": vertical slicing got " << Reg::of(r) << " want " << want);
  v.clear(); c3.get_rectangles(v, bp::HORIZONTAL); r = rrects(v);
  CHECKM(disjoint(r) && Reg::of(r) == want, what << ": horizontal slicing got " << Reg::of(r) << " want " << want);
  CHECKM(bp::empty(ps) == want.empty(), what << ": empty()");
  PS d(ps.orient());
  for (auto& q : want.rects()) d.insert(brect<int>(q));
  CHECKM(ps == d && d == ps && !(ps != d), what << ": operator== with an equal region built from rectangles " << want);
}
// random content inserted into a set; reference edges kept in es
inline void fill(Src& s, const Pool& p, PS& ps, std::vector<Reg::E>& es, bool subtractive, int maxn = 5) {
  int n = s.count(1, s.chance(1, 12) ? 6 * maxn : maxn);
  for (int i = 0; i < n; ++i) {
    int k = s.weighted({4, 4, 3, 1, 1});
    bool hole = subtractive && s.chance(1, 6);
    int c = hole ? -1 : 1;
    if (k == 0) { R r = rect(s, p); ps.insert(brect<int>(r), hole); Reg::add_rect(es, r, c); s.notef([&](std::ostream& o) { o << "  insert " << r << (hole ? " hole" : ""); }); }
    else if (k == 1) { Shape h = shape(s, p, false); h.outer = vary(s, h.outer); ps.insert(bpoly90<int>(h.outer), hole); Reg::add_shape(es, h, c); s.notef([&](std::ostream& o) { o << "  insert poly " << h << (hole ? " hole" : ""); }); }
    else if (k == 2) { Shape h = shape(s, p, true); h.outer = vary(s, h.outer); for (auto& q : h.holes) q = vary(s, q); ps.insert(bpwh90<int>(h), hole); Reg::add_shape(es, h, c); s.notef([&](std::ostream& o) { o << "  insert pwh " << h << (hole ? " hole" : ""); }); }
    else if (k == 3) { std::vector<RD> v; for (int j = s.irange(0, 3); j >= 0; --j) { R r = rect(s, p); v.push_back(brect<int>(r)); Reg::add_rect(es, r, 1); s.notef([&](std::ostream& o) { o << "  insert range " << r; }); } ps.insert(v.begin(), v.end()); }
    else {
      // an intermediate scan turns the accumulated counts into a region
      ps.clean(); Reg g = Reg::from_edges(es); es.clear(); for (auto& r : g.rects()) Reg::add_rect(es, r, 1);
      s.note("  clean");
    }
  }
}
