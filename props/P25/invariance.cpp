#include "vor.hpp"
#include <algorithm>
using namespace vor;
namespace {
// an edge by what lies around it, independent of indices and storage order
struct Edge { Site a, b, nx, pv; bool h0, h1; double x0, y0, x1, y1;
  auto tie() const { return std::make_tuple(a.a.x, a.a.y, a.b.x, a.b.y, b.a.x, b.a.y, b.b.x, b.b.y, h0, h1, x0, y0, x1, y1, nx.a.x, nx.a.y, nx.b.x, nx.b.y, pv.a.x, pv.a.y, pv.b.x, pv.b.y); }
  bool operator<(const Edge& o) const { return tie() < o.tie(); } bool operator==(const Edge& o) const { return tie() == o.tie(); } };
std::ostream& operator<<(std::ostream& o, const Edge& e) { o.precision(17); o << "edge between " << e.a << " and " << e.b; if (e.h0) o << " from " << e.x0 << "," << e.y0; if (e.h1) o << " to " << e.x1 << "," << e.y1; return o << " before " << e.nx << " after " << e.pv; }
std::vector<Edge> canon(const VD& vd, const std::vector<Site>& of) {
  std::vector<Edge> r; auto st = [&](E e) { return of[(size_t)(e->cell() - vd.cells().data())]; };
  for (auto& e : vd.edges()) { V v = e.vertex0(), w = e.vertex1(); r.push_back(Edge{st(&e), st(e.twin()), st(e.next()->twin()), st(e.prev()->twin()), v != NULL, w != NULL, v ? v->x() : 0, v ? v->y() : 0, w ? w->x() : 0, w ? w->y() : 0}); }
  std::sort(r.begin(), r.end()); return r;
}
void same(const char* what, const Input& in, const VD& vd, const std::vector<Edge>& want, size_t cells, size_t verts) {
  std::vector<Site> of = structure(in, vd); std::vector<Edge> got = canon(vd, of);
  CHECKM(of.size() == cells && vd.num_vertices() == verts, what << ": " << of.size() << " cells " << vd.num_vertices() << " vertices instead of " << cells << " and " << verts);
  if (got == want) return;
  for (size_t i = 0; i < got.size() || i < want.size(); ++i) CHECKM(i < got.size() && i < want.size() && got[i] == want[i], what << ": " << (i < got.size() ? got[i] : want[i]) << (i < want.size() ? " instead of " : " too many or too few ") << (i < want.size() ? want[i] : got[i]));
}
template <class T> void shuffle(Src& s, std::vector<T>& v) { for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[(size_t)s.draw(i)]); }
Input permuted(Src& s, const Input& in) {
  Input p = in; shuffle(s, p.pts); shuffle(s, p.segs); for (auto& q : p.segs) if (s.chance(1, 3)) std::swap(q.a, q.b);
  for (int i = s.irange(0, 2); i-- > 0;) { if (!p.pts.empty() && s.coin()) { P q = s.pick(p.pts); p.pts.insert(p.pts.begin() + (long)s.draw(p.pts.size() + 1), q); } else if (!p.segs.empty()) { const Seg& q = s.pick(p.segs); P e = s.coin() ? q.a : q.b; p.pts.push_back(e); } }
  return p;
}
void feed(Src& s, bp::default_voronoi_builder& b, const Input& in, size_t& i) {
  for (auto& q : in.pts) { if (s.coin()) CHECK_EQ(b.insert_point((int)q.x, (int)q.y), i); else CHECK_EQ(bp::insert(bpt(q), &b), i); ++i; }
  for (auto& q : in.segs) { if (s.coin()) CHECK_EQ(b.insert_segment((int)q.a.x, (int)q.a.y, (int)q.b.x, (int)q.b.y), i); else CHECK_EQ(bp::insert(bsg(q), &b), i); ++i; }
}
void order(Src& s, int mode, int maxn) {
  Input in = gen_input(s, mode, maxn, mode != 0); if (in.pts.empty() && in.segs.empty()) return;
  VD vd; build(in, vd, 0); std::vector<Site> of = structure(in, vd); std::vector<Edge> want = canon(vd, of); size_t nc = of.size(), nv = vd.num_vertices();
  { VD v2; build(in, v2, s.irange(1, 3)); same("another overload", in, v2, want, nc, nv); }
  Input p = permuted(s, in); { VD v2; build(p, v2, s.irange(0, 3)); same("another order", p, v2, want, nc, nv); }
  s.nontrivial(nv >= 2 && in.pts.size() + in.segs.size() >= 3);
}
void history(Src& s, int mode, int maxn) {
  bp::default_voronoi_builder b; Input cur; size_t idx = 0; int built = 0, cleared = 0; VD keep; size_t nvl = 0;
  std::vector<std::pair<bool, size_t> > seq;  // the inputs in order of insertion
  Input order_in;  // points and segments interleaved: remember what each index is
  std::vector<Site> by_index; std::vector<bool> rev;
  int n = s.irange(2, 8);
  Input all = gen_input(s, mode, maxn, mode != 0); size_t up = 0, us = 0;
  for (int k = 0; k < n; ++k) {
    int op = s.weighted({8, 8, 1});
    if (op == 0) { Input part; for (int i = s.irange(1, 4); i-- > 0;) { if (up < all.pts.size() && (us >= all.segs.size() || s.coin())) part.pts.push_back(all.pts[up++]); else if (us < all.segs.size()) part.segs.push_back(all.segs[us++]); }
      if (part.pts.empty() && part.segs.empty()) { part.pts = cur.pts; part.segs = cur.segs; }   // everything again
      feed(s, b, part, idx); for (auto& q : part.pts) { cur.pts.push_back(q); by_index.push_back(site(q)); rev.push_back(false); } for (auto& q : part.segs) { cur.segs.push_back(q); by_index.push_back(site(q)); rev.push_back(!plt(q.a, q.b)); } }
    else if (op == 1) {
      VD one; VD& vd = s.coin() ? one : keep; vd.clear(); b.construct(&vd); nvl = vd.num_vertices();
      ++built;
      // cells by the builder's own indices
      std::set<Site> want = sites(cur), got; std::vector<Site> of;
      for (auto& c : vd.cells()) { size_t i = c.source_index(); CHECKM(i < by_index.size(), "source index " << i << " of " << by_index.size()); Site q = by_index[i], t = q; bp::SourceCategory g = c.source_category();
        if (!q.seg()) CHECK(g == bp::SOURCE_CATEGORY_SINGLE_POINT);
        else if (g == bp::SOURCE_CATEGORY_SEGMENT_START_POINT) t = site(rev[i] ? q.b : q.a); else if (g == bp::SOURCE_CATEGORY_SEGMENT_END_POINT) t = site(rev[i] ? q.a : q.b);
        else CHECKM(g == (rev[i] ? bp::SOURCE_CATEGORY_REVERSE_SEGMENT : bp::SOURCE_CATEGORY_INITIAL_SEGMENT), "category " << (int)g << " of " << q);
        CHECKM(got.insert(t).second, "two cells of " << t); of.push_back(t); }
      CHECKM(got == want, "the diagram has " << got.size() << " cells for " << want.size() << " sites");
      std::vector<Edge> have = canon(vd, of); Input fresh = cur; if (s.coin()) shuffle(s, fresh.pts), shuffle(s, fresh.segs);
      VD v2; build(fresh, v2, s.irange(0, 3)); std::vector<Site> of2 = structure(fresh, v2); std::vector<Edge> wantE = canon(v2, of2);
      CHECKM(vd.num_vertices() == v2.num_vertices(), "construction " << built << ": " << vd.num_vertices() << " vertices instead of " << v2.num_vertices());
      for (size_t i = 0; i < have.size() || i < wantE.size(); ++i) CHECKM(i < have.size() && i < wantE.size() && have[i] == wantE[i], "construction " << built << " after " << cleared << " clears differs from a fresh one at " << (i < have.size() ? have[i] : wantE[i]));
    } else { b.clear(); ++cleared; idx = 0; cur = Input(); by_index.clear(); rev.clear(); if (s.coin()) up = us = 0; }
  }
  s.label("constructed twice", built >= 2); s.label("cleared", cleared > 0); s.nontrivial(built >= 2 && nvl >= 2);
}
void symmetry(Src& s, int mode, int maxn) {
  Input in; { // small coordinates
    Input g = gen_input(s, mode, maxn, true); ll x0 = 0, y0 = 0; bool f = true; ll m = 0;
    auto see = [&](const P& p) { if (f) { x0 = p.x; y0 = p.y; f = false; } m = std::max(m, std::max(std::abs(p.x - x0), std::abs(p.y - y0))); };
    for (auto& p : g.pts) see(p); for (auto& q : g.segs) { see(q.a); see(q.b); }
    if (f || m > 20000) return;
    in = g; auto mv = [&](P& p) { p.x -= x0; p.y -= y0; }; for (auto& p : in.pts) mv(p); for (auto& q : in.segs) { mv(q.a); mv(q.b); } }
  VD vd; build(in, vd, 0); std::vector<Site> of = structure(in, vd);
  // vertices that nearly coincide may be merged or not
  std::vector<std::pair<double, double> > vs; for (auto& v : vd.vertices()) vs.push_back(std::make_pair(v.x(), v.y())); std::sort(vs.begin(), vs.end());
  double ext = 1; for (auto& v : vs) ext = std::max(ext, std::max(std::fabs(v.first), std::fabs(v.second)));
  for (size_t i = 0; i < vs.size(); ++i) for (size_t j = i + 1; j < vs.size() && vs[j].first - vs[i].first < 1e-6; ++j) if (std::fabs(vs[j].second - vs[i].second) < 1e-6) { s.label("vertices nearly coincide"); return; }
  int t = s.irange(0, 7); bool sw = t & 1, fx = t & 2, fy = t & 4, mir = sw ^ fx ^ fy; ll k = s.chance(1, 3) ? s.range(2, 500) : 1, dx = 0, dy = 0; if (s.coin()) { dx = s.around(-(1 << 20), 1 << 20); dy = s.around(-(1 << 20), 1 << 20); }
  auto map = [&](P p) { if (sw) std::swap(p.x, p.y); if (fx) p.x = -p.x; if (fy) p.y = -p.y; return P{p.x * k + dx, p.y * k + dy}; };
  Input im = in; for (auto& p : im.pts) p = map(p); for (auto& q : im.segs) { q.a = map(q.a); q.b = map(q.b); }
  VD w; build(im, w, 0); std::vector<Site> ofw = structure(im, w); s.notef([&](std::ostream& o) { o << " mapped by " << t << " times " << k << " plus " << dx << "," << dy; });
  CHECKM(w.num_edges() == vd.num_edges() && w.num_vertices() == vd.num_vertices(), "the mapped diagram has " << w.num_edges() << " half-edges and " << w.num_vertices() << " vertices instead of " << vd.num_edges() << " and " << vd.num_vertices());
  auto ms = [&](const Site& q) { P a = map(q.a), b = map(q.b); return plt(a, b) ? Site{a, b} : Site{b, a}; };
  std::multimap<std::pair<Site, Site>, E> by; for (auto& e : w.edges()) by.insert(std::make_pair(std::make_pair(ofw[(size_t)(e.cell() - w.cells().data())], ofw[(size_t)(e.twin()->cell() - w.cells().data())]), &e));
  double tol0 = 1e-11 * (std::fabs((double)dx) + std::fabs((double)dy) + 20000.0 * k);
  auto close = [&](V a, V b) { if (!a || !b) return !a && !b; double x = a->x(), y = a->y(); if (sw) std::swap(x, y); if (fx) x = -x; if (fy) y = -y; x = x * k + dx; y = y * k + dy; double tol = tol0 + 1e-11 * (std::fabs(x) + std::fabs(y)); return std::fabs(x - b->x()) <= tol && std::fabs(y - b->y()) <= tol; };
  for (auto& e : vd.edges()) {
    Site a = of[(size_t)(e.cell() - vd.cells().data())], b = of[(size_t)(e.twin()->cell() - vd.cells().data())]; auto r = by.equal_range(std::make_pair(ms(a), ms(b))); bool ok = false;
    for (auto i = r.first; i != r.second; ++i) ok = ok || (mir ? close(e.vertex0(), i->second->vertex1()) && close(e.vertex1(), i->second->vertex0()) : close(e.vertex0(), i->second->vertex0()) && close(e.vertex1(), i->second->vertex1()));
    CHECKM(ok, "the edge between " << a << " and " << b << " has no counterpart in the mapped diagram");
  }
  s.nontrivial(vd.num_vertices() >= 2);
}
}
PBT_TARGET(order_points, 40000, 1000000) { order(s, 0, 14); }
PBT_TARGET(order_mixed, 60000, 1000000) { order(s, s.irange(1, 2), 8); }
PBT_TARGET(history_points, 40000, 1000000) { history(s, 0, 14); }
PBT_TARGET(history_mixed, 60000, 1000000) { history(s, s.irange(1, 2), 8); }
PBT_TARGET(symmetry_points, 80000, 2000000) { symmetry(s, 0, 14); }
PBT_TARGET(symmetry_mixed, 80000, 2000000) { symmetry(s, s.irange(1, 2), 8); }
