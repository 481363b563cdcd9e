// intersect_segments and envelope_segments against exact geometry of the pieces.
#include "arb.hpp"
#include <deque>
namespace {
namespace bp = boost::polygon; using ref::P; using ref::ll; using pbt::Src; typedef __int128 W; using arb::Seg; typedef long double LD;
typedef bp::segment_data<int> S; typedef bp::point_data<int> Pt;
struct Own { Pt a, b; };  // stores its ends reversed
}
namespace boost { namespace polygon {
template <> struct geometry_concept<Own> { typedef segment_concept type; };
template <> struct segment_traits<Own> { typedef int coordinate_type; typedef point_data<int> point_type; static point_type get(const Own& s, direction_1d d) { return d == LOW ? s.b : s.a; } };
template <> struct segment_mutable_traits<Own> { typedef int coordinate_type; typedef point_data<int> point_type; static void set(Own& s, direction_1d d, const point_type& p) { (d == LOW ? s.b : s.a) = p; } static Own construct(const point_type& l, const point_type& h) { Own o; o.a = h; o.b = l; return o; } };
} }
namespace {
P toP(const Pt& p) { return P{p.x(), p.y()}; }
std::ostream& operator<<(std::ostream& o, const Seg& s) { return o << s.a << "-" << s.b; }
std::vector<Seg> gen_segments(Src& s, ll lim) {
  std::vector<Seg> v; int m = s.weighted({5, 4, 2, 1}); ll half = m == 0 ? s.range(2, 10) : m == 1 ? s.range(10, 60) : m == 2 ? s.range(60, 5000) : s.range(5000, lim); ll cx = s.around(-(lim - half), lim - half), cy = s.around(-(lim - half), lim - half);
  bool many = s.chance(1, 12), tall = many && s.chance(2, 3); int n = many ? s.irange(30, 90) : s.count(1, 9); ll W0 = half, H = half; if (tall && half < lim / 30) H = half * s.range(3, 20);
  auto pt = [&]() { return P{cx + s.range(-W0, W0), cy + s.range(-H, H)}; };
  for (int i = 0; i < n; ++i) {
    Seg g; g.a = pt(); switch (s.weighted({5, 2, 2, 2, 2, tall ? 8 : 1})) {
      case 0: g.b = tall ? P{cx + s.range(-W0, W0), g.a.y + s.around(-half / 2, half / 2)} : pt(); break; case 1: g.b = P{g.a.x, tall ? g.a.y + s.around(-half / 2, half / 2) : cy + s.range(-H, H)}; break; case 2: g.b = P{cx + s.range(-W0, W0), g.a.y}; break;
      case 3: if (!v.empty()) { const Seg& o = v[s.draw(v.size())]; g.a = s.coin() ? o.a : o.b; } g.b = tall ? P{g.a.x + s.around(-half / 2, half / 2), g.a.y + s.around(-half / 2, half / 2)} : pt(); break;
      case 4: if (!v.empty()) { const Seg& o = v[s.draw(v.size())]; ll dx = o.b.x - o.a.x, dy = o.b.y - o.a.y, d = std::llabs(dx), e = std::llabs(dy); while (e) { ll t = d % e; d = e; e = t; } if (d == 0) d = 1; ll i0 = s.around(-d, 2 * d), i1 = s.around(-d, 2 * d); g.a = P{o.a.x + dx / d * i0, o.a.y + dy / d * i0}; g.b = P{o.a.x + dx / d * i1, o.a.y + dy / d * i1}; } else g.b = pt(); break;
      default: g.b = P{g.a.x + s.around(-2, 2), g.a.y + s.around(-2, 2)}; }
    auto clip = [&](P& p) { p.x = std::max(-lim, std::min(lim, p.x)); p.y = std::max(-lim, std::min(lim, p.y)); }; clip(g.a); clip(g.b); if (!s.chance(1, 12) && g.a == g.b) { g.b.x += g.b.x < lim ? 1 : -1; }
    v.push_back(g); if (s.chance(1, 12)) v.push_back(s.coin() ? g : Seg{g.b, g.a});
  }
  return v;
}
int sgn(W v) { return v < 0 ? -1 : v > 0; }
bool on(const Seg& s, const P& p) { return mem::on_segment(s.a, s.b, p); }
bool end(const Seg& s, const P& p) { return p == s.a || p == s.b; }
bool inside(W x, W d, ll v) { return x >= d * (v - 1) && x <= d * (v + 1); }  // within a unit
bool meets_pixel(const Seg& s, const P& p) {  // the closed unit square whose low corner is p
  if (std::max(s.a.x, s.b.x) < p.x || std::min(s.a.x, s.b.x) > p.x + 1 || std::max(s.a.y, s.b.y) < p.y || std::min(s.a.y, s.b.y) > p.y + 1) return false;
  int lo = 0, hi = 0; for (int i = 0; i < 4; ++i) { int g = sgn(mem::cross(s.a, s.b, P{p.x + (i & 1), p.y + i / 2})); lo += g < 0; hi += g > 0; } return lo < 4 && hi < 4;
}
// pieces may share end points or be equal; anything more is a fault
bool bad(const Seg& a, const Seg& b) {
  if ((a.a == b.a && a.b == b.b) || (a.a == b.b && a.b == b.a)) return false; if (std::max(a.a.x, a.b.x) < std::min(b.a.x, b.b.x) || std::max(b.a.x, b.b.x) < std::min(a.a.x, a.b.x)) return false;
  for (const P& p : {b.a, b.b}) if (on(a, p) && !end(a, p)) return true; for (const P& p : {a.a, a.b}) if (on(b, p) && !end(b, p)) return true;
  return sgn(mem::cross(a.a, a.b, b.a)) * sgn(mem::cross(a.a, a.b, b.b)) < 0 && sgn(mem::cross(b.a, b.b, a.a)) * sgn(mem::cross(b.a, b.b, a.b)) < 0;
}
template <class In, class Out> void run(Src& s, ll lim, bool planar) {
  std::vector<Seg> v = gen_segments(s, lim); s.notef([&](std::ostream& o) { for (auto& g : v) o << g << " "; }); s.label("at least 30", v.size() >= 30);
  std::vector<In> in; for (auto& g : v) in.push_back(bp::construct<In>(Pt((int)g.a.x, (int)g.a.y), Pt((int)g.b.x, (int)g.b.y)));
  typedef std::vector<std::pair<std::size_t, Out> > R; R r; bool keep = s.chance(1, 8); if (keep) r.push_back(std::make_pair((std::size_t)77, bp::construct<Out>(Pt(1, 2), Pt(3, 4)))); bp::intersect_segments(r, in.begin(), in.end());
  if (keep) { CHECKM(!r.empty() && r[0].first == 77 && bp::low(r[0].second) == Pt(1, 2), "the result's earlier content was changed"); r.erase(r.begin()); }
  std::vector<Out> plain; bp::intersect_segments(plain, in.begin(), in.end()); CHECKM(plain.size() == r.size(), "with indices " << r.size() << " pieces, without " << plain.size());
  for (size_t i = 0; i < r.size(); ++i) CHECKM(bp::equivalence(plain[i], r[i].second), "piece " << i << " differs with indices");
  std::vector<std::vector<Seg> > pc(v.size()); std::vector<Seg> all; for (auto& p : r) { CHECKM(p.first < v.size(), "index " << p.first << " of " << v.size()); Seg g{toP(bp::low(p.second)), toP(bp::high(p.second))}; CHECKM(g.a != g.b, "piece of no length of segment " << p.first); pc[p.first].push_back(g); all.push_back(g); }
  // candidate cut points: end points, and lattice roundings of crossings
  std::set<P> ends; for (auto& g : v) { ends.insert(g.a); ends.insert(g.b); } struct X { arb::Frac f; size_t i, j; bool in(const P& p) const { return inside(f.x, f.d, p.x) && inside(f.y, f.d, p.y); } }; std::vector<X> xs; int cuts = 0;
  for (size_t i = 0; i < v.size(); ++i) for (size_t j = i + 1; j < v.size(); ++j) { arb::Frac f; if (v[i].a == v[i].b || v[j].a == v[j].b) continue; if (arb::cross_at(v[i], v[j], f)) xs.push_back(X{f, i, j}); }
  for (size_t i = 0; i < v.size(); ++i) {
    const Seg& g = v[i]; if (g.a == g.b) { CHECKM(pc[i].empty(), "pieces of segment " << g << " of no length"); continue; }
    std::vector<Seg> q = pc[i]; CHECKM(!q.empty(), "segment " << g << " has no piece"); P at = g.a; std::set<P> seen; seen.insert(at);
    while (!q.empty()) { size_t k = 0; while (k < q.size() && q[k].a != at && q[k].b != at) ++k; CHECKM(k < q.size(), "pieces of " << g << " do not chain at " << at); at = q[k].a == at ? q[k].b : q[k].a; q.erase(q.begin() + k); CHECKM(seen.insert(at).second, "pieces of " << g << " visit " << at << " twice"); if (q.empty()) break;
      ++cuts; CHECKM(at != g.b, "pieces of " << g << " pass its end"); CHECKM(meets_pixel(g, at), "piece end " << at << " is not the corner of a unit square that " << g << " meets");
      bool found = ends.count(at) > 0; for (auto& x : xs) { if (found) break; found = x.in(at); } CHECKM(found, "segment " << g << " is cut at " << at << " where nothing meets"); }
    CHECKM(at == g.b, "pieces of " << g << " end at " << at);
    auto has = [&](const P& p) { for (auto& t : pc[i]) if (end(t, p)) return true; return false; };
    for (auto& p : ends) if (on(g, p)) CHECKM(has(p), "segment " << g << " is not cut at end point " << p);
  }
  for (auto& x : xs) { bool both = false; for (auto& a : pc[x.i]) for (const P& p : {a.a, a.b}) if (x.in(p)) for (auto& b : pc[x.j]) both = both || end(b, p); CHECKM(both, "segments " << v[x.i] << " and " << v[x.j] << " have no common cut at their crossing"); }
  if (planar) for (size_t i = 0; i < all.size(); ++i) for (size_t j = i + 1; j < all.size(); ++j) CHECKM(!bad(all[i], all[j]), "pieces " << all[i] << " and " << all[j] << " cross");
  s.nontrivial(cuts > 1);
  bp::rectangle_data<int> box(1, 2, 3, 4); CHECK(bp::envelope_segments(box, in.begin(), in.end())); P lo = v[0].a, hi = lo; for (auto& g : v) for (const P& p : {g.a, g.b}) { lo.x = std::min(lo.x, p.x); lo.y = std::min(lo.y, p.y); hi.x = std::max(hi.x, p.x); hi.y = std::max(hi.y, p.y); } CHECKM(bp::xl(box) == lo.x && bp::yl(box) == lo.y && bp::xh(box) == hi.x && bp::yh(box) == hi.y, "envelope is " << bp::xl(box) << "," << bp::yl(box) << "," << bp::xh(box) << "," << bp::yh(box));
  bp::rectangle_data<int> same(1, 2, 3, 4); CHECK(!bp::envelope_segments(same, in.end(), in.end()) && same == bp::rectangle_data<int>(1, 2, 3, 4)); R none; bp::intersect_segments(none, in.end(), in.end()); CHECK(none.empty());
}
}
PBT_TARGET(small, 60000, 1200000) { if (s.chance(1, 4)) run<Own, S>(s, 1 << 20, true); else if (s.chance(1, 4)) run<S, Own>(s, 1 << 20, true); else run<S, S>(s, 1 << 20, true); }
PBT_TARGET(large, 20000, 400000) { run<S, S>(s, 1LL << 30, false); }
