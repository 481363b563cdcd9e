#include "vor.hpp"
using namespace vor;
namespace {
void run(Src& s, int mode, int maxn) {
  Input in = gen_input(s, mode, maxn, mode != 0); if (in.pts.empty() && in.segs.empty()) return;
  VD vd; build(in, vd, s.irange(0, 3)); std::vector<Site> of = structure(in, vd);
  int deg = 0; for (auto& v : vd.vertices()) { int k = 0; E e = v.incident_edge(); do { ++k; e = e->rot_next(); } while (e != v.incident_edge()); deg += k > 3; }
  s.label("vertex of degree above 3", deg > 0); s.label("no vertices", vd.num_vertices() == 0); s.label("more than 30 cells", vd.num_cells() > 30);
  // colours are the user's and leave everything else alone
  if (s.chance(1, 4)) {
    unsigned long long m = (1ull << 59) - 1;
    auto col = [&](size_t i) { return (std::size_t)((i * 0x9E3779B97F4A7C15ull) & m); };
    size_t i = 0; for (auto& c : vd.cells()) c.color(col(i++)); for (auto& e : vd.edges()) e.color(col(i++)); for (auto& v : vd.vertices()) v.color(col(i++));
    i = 0; for (auto& c : vd.cells()) CHECK_EQ(c.color(), col(i++)); for (auto& e : vd.edges()) CHECK_EQ(e.color(), col(i++)); for (auto& v : vd.vertices()) CHECK_EQ(v.color(), col(i++));
    for (auto& c : vd.cells()) c.color(0); for (auto& e : vd.edges()) e.color(0); for (auto& v : vd.vertices()) v.color(0);
    CHECK(structure(in, vd) == of);
  }
  s.nontrivial(vd.num_vertices() >= 2);
}
}
PBT_TARGET(points, 150000, 4000000) { run(s, 0, 14); }
PBT_TARGET(segments, 150000, 4000000) { run(s, 1, 8); }
PBT_TARGET(mixed, 150000, 4000000) { run(s, 2, 8); }
// a circle event that ends within 64 ULPs of a site is taken for a coincident one
PBT_KNOWN(near_coincident_events) {
  Input in; in.segs = {Seg{P{I32MIN, -2147483647}, P{I32MIN, 2147483647}}, Seg{P{2147483647, 2147483647}, P{2147483647, I32MIN}}};
  VD vd; build(in, vd, 0); for (auto& e : vd.edges()) CHECK(e.next() && e.prev()); structure(in, vd);
}
