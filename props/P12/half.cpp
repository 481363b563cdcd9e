#include "../P05/half.hpp"
// edges on the integer grid that cross at half-integer points: exact except in the unit squares with such a crossing
PBT_TARGET(half45, 40000, 1000000) {
  HL l; l.G = s.irange(2, 7); l.ox = s.chance(1, 4) ? s.around(-500000000, 500000000) : s.around(-6, 6); l.oy = s.chance(1, 4) ? s.around(-500000000, 500000000) : s.around(-6, 6);
  int n = s.irange(1, 5), labels = s.irange(1, 4); bp::property_merge_45<int, int> m; std::vector<std::pair<int, Tri>> in;
  for (int i = 0; i < n; ++i) { int la = s.irange(0, labels - 1); s.notef([&](std::ostream& o) { o << "insert with label " << la; }); QS q; Tri g(l.G); hfill(s, l, q, g, 2);
    // inserting cleans a set, which may itself leave unit squares: start from what the cleaned set denotes
    q.clean(); g = check_half(l, q, g.norm(), "cleaned operand"); in.push_back({la, g}); m.insert(q, la); }
  std::map<std::set<int>, QS> res; m.merge(res);
  Tri mask(l.G); int crossed = 0; std::map<std::set<int>, Tri> want;
  for (int c = 0; c < l.G * l.G; ++c) { bool d1 = false, d2 = false; for (auto& r : in) { const int* t = &r.second.c[c * 4]; bool v[4] = {t[0] > 0, t[1] > 0, t[2] > 0, t[3] > 0}; d1 = d1 || v[S_] != v[W_] || v[E_] != v[N_]; d2 = d2 || v[S_] != v[E_] || v[W_] != v[N_]; }
    if (d1 && d2) { ++crossed; for (int k = 0; k < 4; ++k) mask.c[c * 4 + k] = 1; }
    for (int k = 0; k < 4; ++k) { std::set<int> key; for (auto& r : in) if (r.second.c[c * 4 + k] > 0) key.insert(r.first); auto i = want.insert(std::make_pair(key, Tri(l.G))).first; i->second.c[c * 4 + k] = 1; } }
  want.erase(std::set<int>()); s.nontrivial(crossed > 0 && want.size() > 1); s.label("crossings between grid points", crossed > 0);
  for (auto& r : res) { if (!want.count(r.first)) CHECKM(r.second.empty(), "key without area is keyed to a region"); }
  Lat lt = l.lat();
  for (auto& w : want) { Tri got(l.G); auto i = res.find(w.first); if (i != res.end()) { QS c(i->second); std::vector<QW> v; c.get(v); got = tiles(lt, gen::rshapes_wh(v), false, "region"); }
    for (size_t k = 0; k < got.c.size(); ++k) if (!mask.c[k]) CHECKM((got.c[k] > 0) == (w.second.c[k] > 0), "region " << got << " differs outside the crossed squares " << mask << " from " << w.second); }
}
