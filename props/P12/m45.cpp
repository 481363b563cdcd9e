#include "../P05/common.hpp"
namespace {
template <class K> std::string kstr(const K& k) { std::ostringstream o; o << "{"; for (auto& x : k) o << x << " "; o << "}"; return o.str(); }
template <class L> std::map<std::set<L>, Tri> overlay(int G, const std::map<L, Tri>& in) {
  std::map<std::set<L>, Tri> out; size_t n = (size_t)G * G * 4;
  for (size_t t = 0; t < n; ++t) { std::set<L> k; for (auto& l : in) if (l.second.c[t] > 0) k.insert(l.first); if (k.empty()) continue; auto i = out.find(k); if (i == out.end()) i = out.insert(std::make_pair(k, Tri(G))).first; i->second.c[t] = 1; }
  return out;
}
template <class L> struct Lab; template <> struct Lab<int> { static int of(int i) { return 5 - 2 * i; } }; template <> struct Lab<std::string> { static std::string of(int i) { return std::string(1, (char)('a' + i)) + "x"; } };
template <class Key, class L> void check_map(const Lat& l, const std::map<Key, QS>& got, const std::map<std::set<L>, Tri>& want) {
  for (auto& g : got) {
    std::set<L> k(g.first.begin(), g.first.end()); CHECKM(k.size() == g.first.size() && Key(k.begin(), k.end()) == g.first, "key " << kstr(g.first) << " is not a sorted set of labels");
    CHECKM(want.count(k) || g.second.empty(), "key " << kstr(k) << " has no area but is keyed to a region");
    CHECKM(want.count(k), "key " << kstr(k) << " has no area but is present");
  }
  for (auto& w : want) {
    auto i = got.find(Key(w.first.begin(), w.first.end())); CHECKM(i != got.end(), "key " << kstr(w.first) << " covers " << w.second << " but is missing");
    check_region(l, i->second, w.second, ("region of " + kstr(w.first)).c_str());
  }
}
template <class L, class Key> void run(Src& s) {
  Lat l = lattice(s, 6); int n = s.irange(1, 6), labels = s.irange(1, 5); bp::property_merge_45<int, L> m; std::map<L, Tri> reg; std::map<Key, QS> res; bool merged = false;
  for (int i = 0; i < n; ++i) {
    L la = Lab<L>::of(s.irange(0, labels - 1)); int k = s.weighted({2, 4, 4, 1, 1, 1, 1, 1, 6}); Tri r(l.G);
    s.notef([&](std::ostream& o) { o << "insert with label " << la; });
    switch (k) { case 0: m.insert(make<RD>::go(s, l, r), la); break; case 1: m.insert(make<QD>::go(s, l, r), la); break; case 2: m.insert(make<QW>::go(s, l, r), la); break; case 3: m.insert(make<PD>::go(s, l, r), la); break; case 4: m.insert(make<WD>::go(s, l, r), la); break;
      case 5: m.insert(make<PS>::go(s, l, r), la); break; case 6: m.insert(make<std::vector<QD>>::go(s, l, r), la); break; case 7: m.insert(make<std::list<QW>>::go(s, l, r), la); break;
      default: { QS q = make<QS>::go(s, l, r); m.insert(q, la); } }
    r = r.norm(); if (reg.count(la)) reg[la] = reg[la] | r; else reg.insert(std::make_pair(la, r));
    if (s.chance(1, 8)) { bp::property_merge_45<int, L> c(m), d; d = c; d.insert(RD(0, 0, 1, 1), Lab<L>::of(0)); m = c; s.note("  copy"); }
    if (s.chance(1, 8)) { s.note("  merge"); std::map<Key, QS> part; m.merge(part); check_map(l, part, overlay(l.G, reg)); merged = true; }
  }
  m.merge(res); auto w = overlay(l.G, reg); check_map(l, res, w);
  size_t multi = 0; for (auto& k : w) multi += k.first.size() > 1; s.nontrivial(multi && w.size() > 2); s.label("merged more than once", merged); s.label("same label twice", reg.size() < (size_t)n);
}
}
PBT_TARGET(m45, 40000, 1000000) { switch (s.irange(0, 3)) { case 0: run<int, std::set<int>>(s); break; case 1: run<int, std::vector<int>>(s); break; case 2: run<std::string, std::set<std::string>>(s); break; default: run<std::string, std::vector<std::string>>(s); } }
