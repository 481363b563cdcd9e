#include "arbset.hpp"
#include "pre.hpp"
#include <deque>
namespace {
// the operands of a random region; some sets come out of a boolean
GS region(Src& s, Ctx& c, Ex& want, bool& exact, ll& snap, int maxn, bool force = false) {
  start(s, c); int o = s.irange(0, 7); snap = SNAP;
  Opd a = plan(s, c, 1, maxn, ANY, true, "set:"), b; if (o < 4) { s.note(std::string(" op ") + OPN[o]); b = plan(s, c, 1, maxn, ANY, true, "set:"); }
  exact = settle(s, c, force || s.coin()); GS g; if (c.skip) return g;
  g = OT<GS>::build(a, c.k); want = a.region;
  using namespace boost::polygon::operators;
  if (o < 4) { GS h = OT<GS>::build(b, c.k); want = boolean(o, a.region, b.region); switch (o) { case 0: g |= h; break; case 1: g &= h; break; case 2: g ^= h; break; default: g -= h; } }
  return g;
}
bool closed(const GD& p) { return p.size() < 2 || *p.begin() == *(p.end() - 1); }
Ring ringof(const GD& p) { Ring r = gen::rring(p); if (r.size() > 1 && r.front() == r.back()) r.pop_back(); return r; }
template <class F> void at_points(Src& s, const Ctx& c, ll d, F f) {
  auto sg = segs(c.w.rings); for (int i = 0; i < 12 && !sg.empty(); ++i) { P q = sample(s, c, sg, d); if (!mem::near(c.w.rings, q, d)) f(q, c.w.windings(q)); }
}
// does a slice line of the trapezoids meet an edge within a unit of a vertex?
bool slivers(const GS& g, bool h) {
  GS k(g); if (h) k.transform(bp::axis_transformation(bp::axis_transformation::SWAP_XY)); k.clean();
  std::set<P> vs; for (auto& e : k) { vs.insert(P{e.first.first.x(), e.first.first.y()}); vs.insert(P{e.first.second.x(), e.first.second.y()}); }
  for (auto& e : k) { P a{e.first.first.x(), e.first.first.y()}, b{e.first.second.x(), e.first.second.y()};
    for (auto i = vs.upper_bound(P{a.x, std::numeric_limits<ll>::max()}); i != vs.end() && i->x < b.x; ++i) { mem::LL c = mem::cross(a, b, *i); if (c < 0) c = -c; if (c < b.x - a.x) return true; } }
  return false;
}
}  // namespace
// polygons with holes: structure, disjointness, coverage, round trip
PBT_TARGET(with_holes, 120000, 3000000) {
  Ctx c; Ex want; bool exact; ll snap; GS g = region(s, c, want, exact, snap, 5); if (c.skip) return;
  std::vector<GW> v; int m = s.irange(0, 2);
  if (m == 0) g.get(v); else if (m == 1) { std::list<GW> l; bp::assign(l, g); v.assign(l.begin(), l.end()); } else { GD junk = bpolyd<int>(Ring{P{0,0},P{1,0},P{0,1}}); GW w; bp::assign(w, junk); v.push_back(w); g.get(v); CHECKM(v.size() > 0 && v[0].size() >= 3, "get must append to the container"); v.erase(v.begin()); }
  std::vector<Shape> sh = gen::rshapes_wh(v);
  s.notef([&](std::ostream& o) { for (auto& h : sh) o << "out " << h << "\n"; });
  bool hole = false;
  for (auto& h : sh) {
    CHECKM(ref::area2(h.outer) > 0, "outer ring not counterclockwise: " << h);
    for (size_t i = 0; i + 1 < h.outer.size(); ++i) CHECKM(h.outer[i] != h.outer[i + 1], "repeated vertex in " << h);
    for (auto& r : h.holes) { hole = true; CHECKM(ref::area2(r) < 0, "hole not clockwise: " << h); }
  }
  for (auto& w : v) { CHECKM(bp::winding(w) == bp::COUNTERCLOCKWISE, "winding()"); }
  s.nontrivial(hole || sh.size() > 1); s.label("hole", hole);
  check_rings(s, c, rings_of(sh), want, exact, "polygons with holes", snap);
  for (auto& h : sh) {  // each polygon by itself: outer covers once, holes inside
    at_points(s, c, snap, [&](const P& q, const std::vector<int>&) { int a = mem::winding(h.outer, q), b = 0; for (auto& r : h.holes) b += mem::winding(r, q);
      CHECKM((a == 0 || a == 1) && (b == 0 || b == -1) && a + b >= 0, "polygon covers " << q << " " << a << " times, its holes " << b << ": " << h); });
    if (exact) { std::vector<Ring> rs{h.outer}; std::vector<int> gr{0}; for (auto& r : h.holes) { rs.push_back(r); gr.push_back(1); }
      cells(rs, gr, 2, [&](LD a, const std::vector<int>& w) { CHECKM(a < 0.01L || ((w[0] == 0 || w[0] == 1) && (w[1] == 0 || w[1] == -1) && w[0] + w[1] >= 0), "polygon with winding " << w[0] << " and hole winding " << w[1] << ": " << h); }); }
  }
  GS back; if (s.coin()) back.insert(v.begin(), v.end()); else for (auto& w : v) back.insert(w);
  check_set(s, c, back, want, exact, "polygons inserted again", 2 * snap);
  if (exact) { CHECKM(back == g && g == back && !(back != g), "the polygons inserted in a new set are not equal to the set"); CHECK(bp::equivalence(v, g)); }
}
// one component per polygon: edge-connected pieces are not split
PBT_TARGET(components, 50000, 1200000) {
  Ctx c; Ex want; bool exact; ll snap; GS g = region(s, c, want, exact, snap, 4, true); if (c.skip || !exact) { s.label("not exact"); return; }
  std::vector<GW> v; g.get(v); std::vector<Shape> sh = gen::rshapes_wh(v);
  // no boundary edge of the output may be shared in opposite directions by two outputs
  struct E { P a, b; int f; }; std::vector<E> es; std::set<P> pts; 
  for (auto& r : rings_of(sh)) for (auto& p : r) pts.insert(p);
  for (auto& r : rings_of(sh)) for (size_t i = 0; i < r.size(); ++i) es.push_back(E{r[i], r[(i + 1) % r.size()], 0});
  s.nontrivial(sh.size() > 1);
  for (size_t i = 0; i < es.size(); ++i) for (size_t j = i + 1; j < es.size(); ++j) {
    if (mem::cross(es[i].a, es[i].b, es[j].a) != 0 || mem::cross(es[i].a, es[i].b, es[j].b) != 0) continue;
    ll dx = es[i].b.x - es[i].a.x, dy = es[i].b.y - es[i].a.y; auto t = [&](const P& p) { return (__int128)(p.x - es[i].a.x) * dx + (__int128)(p.y - es[i].a.y) * dy; };
    __int128 a = t(es[j].a), b = t(es[j].b), l = (__int128)dx * dx + (__int128)dy * dy;
    CHECKM(std::max(a, b) <= 0 || std::min(a, b) >= l, "boundary edges " << es[i].a << es[i].b << " and " << es[j].a << es[j].b << " of the polygons overlap");
  }
}
// keyholed polygons
PBT_TARGET(keyholed, 80000, 2000000) {
  Ctx c; Ex want; bool exact; ll snap; GS g = region(s, c, want, exact, snap, 5); if (c.skip) return;
  std::vector<GD> v; int m = s.irange(0, 2); if (m == 0) { Pre<std::vector<GD>> pre(s, v, bpolyd<int>(Ring{P{3, 5}, P{14, 7}, P{2, 9}})); g.get(v); pre.done(); } else if (m == 1) bp::assign(v, g); else { std::deque<GD> d; g.get(d); v.assign(d.begin(), d.end()); }
  std::vector<Ring> rs; for (auto& p : v) { CHECKM(closed(p), "the last vertex is not a duplicate of the first"); rs.push_back(ringof(p)); }
  s.notef([&](std::ostream& o) { for (auto& h : rs) o << "out " << h << "\n"; });
  std::vector<GW> wh; g.get(wh); size_t holes = 0; for (auto& w : wh) holes += w.size_holes();
  s.nontrivial(holes > 0 || rs.size() > 1); s.label("hole", holes > 0);
  for (auto& r : rs) CHECKM(ref::area2(r) > 0, "not counterclockwise: " << r);
  if (exact) CHECKM(v.size() == wh.size(), "number of keyholed polygons " << v.size() << " and of polygons with holes " << wh.size());
  // the slits are vertical and end at rounded points of the edges above
  check_rings(s, c, rs, want, false, "keyholed polygons", snap + 1, true);
  at_points(s, c, snap + 1, [&](const P& q, const std::vector<int>&) { for (auto& r : rs) { int w = mem::winding(r, q); if (!mem::on_ring(r, q)) CHECKM(w == 0 || w == 1, "polygon covers " << q << " " << w << " times: " << r); } });
}
// trapezoids in both slicing orientations
PBT_TARGET(trapezoids, 100000, 2500000) {
  Ctx c; Ex want; bool exact; ll snap; GS g = region(s, c, want, exact, snap, 4); if (c.skip) return;
  std::vector<GD> v; bool h = s.coin(); int m = s.irange(0, 2); std::vector<Ring> rs;
  if (!exact && slivers(g, h)) { s.label("excluded: known finding sliver_slices"); return; }
  Pre<std::vector<GD>> pre(s, v, bpolyd<int>(Ring{P{3, 5}, P{14, 7}, P{2, 9}}));
  if (m == 0 && !h) g.get_trapezoids(v); else if (m == 0) g.get_trapezoids(v, bp::HORIZONTAL);
  else if (m == 1) { if (h) bp::get_trapezoids(v, g, bp::HORIZONTAL); else if (s.coin()) bp::get_trapezoids(v, g); else bp::get_trapezoids(v, g, bp::VERTICAL); }
  else { std::vector<GW> w; g.get_trapezoids(w, h ? bp::HORIZONTAL : bp::VERTICAL); for (auto& x : w) { CHECK(x.size_holes() == 0); GD p; p.set(x.begin(), x.end()); v.push_back(p); } }
  pre.done();
  for (auto& p : v) { rs.push_back(ringof(p)); if (ref::area2(rs.back()) < 0) std::reverse(rs.back().begin(), rs.back().end()); }  // winding is not promised
  s.notef([&](std::ostream& o) { for (auto& r : rs) o << "trapezoid " << r << "\n"; });
  s.nontrivial(rs.size() > 2);
  for (auto r : rs) {
    // rounding of slice points can flatten a trapezoid; extra vertices may lie on its slice lines
    if (h) for (auto& p : r) std::swap(p.x, p.y);
    std::set<ll> xs; for (auto& p : r) xs.insert(p.x); CHECKM(xs.size() == 2, "trapezoid vertices not on two slice lines: " << r);
  }
  int dec = 0;
  auto sg = segs(c.w.rings);
  for (int i = 0; i < 16 && !sg.empty(); ++i) {
    P q = sample(s, c, sg, snap); if (mem::near(c.w.rings, q, snap + 1)) continue; ++dec; if (h) { /* half-open along x only */ }
    bool w = c.w.in(want, q); int n = 0, on = 0; for (auto& r : rs) if (mem::on_ring(r, q)) ++on; else n += mem::winding(r, q);
    CHECKM(on == 0 ? n == (w ? 1 : 0) : (w && n == 0 && on == 2) , "point " << q << " is inside " << n << " trapezoids and on the border of " << on << ", expected " << w);
  }
  s.label("decisive points", dec > 0);
  if (exact) {  // rounding of slice points moves each trapezoid corner by at most half a unit
    LD a = 0, err = 0; for (auto& r : rs) { a += (LD)ref::area2(r) / 2; ll lo = r[0].x, hi = r[0].x, l2 = r[0].y, h2 = r[0].y; for (auto& p : r) { lo = std::min(lo, p.x); hi = std::max(hi, p.x); l2 = std::min(l2, p.y); h2 = std::max(h2, p.y); } err += h ? h2 - l2 : hi - lo; }
    Diff d = compare(c.w, want, {}); CHECKM(std::fabs((double)(a - d.want)) <= (double)err + 1, "trapezoids have area " << (double)a << ", region " << (double)d.want); s.label("exact");
  }
}
// slice points rounded onto another vertex tie a trapezoid to its neighbours
PBT_KNOWN(sliver_slices) {
  static const int e[][5] = {{-12,-9,-11,-10,1},{-12,-9,-11,-9,-1},{-11,-12,-7,-14,1},{-11,-12,-11,-11,1},{-11,-11,-11,-10,1},{-11,-10,-9,-10,-1},{-11,-10,-11,-9,-1},{-11,-9,-9,-9,1},{-11,-9,-9,-8,-1},{-9,-10,-6,-9,-1},{-9,-9,-7,-8,1},{-9,-8,-9,-3,1},{-9,-3,-7,-2,-1},{-7,-14,-6,-14,1},{-7,-8,-5,-8,1},{-7,-2,-2,-2,-1},{-6,-14,-5,-14,1},{-6,-9,-5,-8,-1},{-5,-14,-4,-14,1},{-5,-8,-4,-8,-1},{-5,-8,-5,-7,-1},{-5,-7,-5,-6,-1},{-5,-6,-4,-6,1},{-4,-14,-3,-13,1},{-4,-8,0,-7,-1},{-4,-8,-2,-7,1},{-4,-8,-3,-7,-1},{-4,-6,-3,-7,1},{-3,-13,-1,-12,1},{-2,-7,0,-7,1},{-2,-2,-1,-6,-1},{-1,-12,-1,-11,-1},{-1,-11,1,-8,1},{-1,-6,0,-7,-1},{0,-7,1,-8,-1}};
  GS g; for (auto& r : e) g.insert_clean(GS::element_type(GS::edge_type(bp::point_data<int>(r[0], r[1]), bp::point_data<int>(r[2], r[3])), r[4]));
  std::vector<GD> v; g.get_trapezoids(v); for (auto& p : v) { std::set<int> xs; for (auto q : p) xs.insert(q.x()); CHECK(xs.size() <= 2); }
}
