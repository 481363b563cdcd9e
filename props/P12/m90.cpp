#include "../P01/common.hpp"
// label -> region; expected map keyed by sets of labels
namespace {
template <class L> std::map<std::set<L>, Reg> overlay(const std::map<L, Reg>& in) {
  std::map<std::set<L>, Reg> out; Reg all;
  for (auto& l : in) {
    std::map<std::set<L>, Reg> n;
    for (auto& k : out) { Reg a = k.second & l.second, b = k.second - l.second; std::set<L> q = k.first; if (!b.empty()) n[q] = b; q.insert(l.first); if (!a.empty()) n[q] = a; }
    Reg r = l.second - all; if (!r.empty()) n[std::set<L>{l.first}] = r;
    all = all | l.second; out.swap(n);
  }
  return out;
}
template <class L> struct Lab; template <> struct Lab<int> { static int of(int i) { return 7 - 3 * i; } }; template <> struct Lab<std::string> { static std::string of(int i) { return std::string(1, (char)('a' + i)) + "x"; } };
template <class K> std::string kstr(const K& k) { std::ostringstream o; o << "{"; for (auto& x : k) o << x << " "; o << "}"; return o.str(); }
template <class Key, class L> void check_map(const std::map<Key, PS>& got, const std::map<std::set<L>, Reg>& want) {
  for (auto& g : got) {
    std::set<L> k(g.first.begin(), g.first.end()); CHECKM(k.size() == g.first.size() && Key(k.begin(), k.end()) == g.first, "key " << kstr(g.first) << " is not a sorted set of labels");
    CHECKM(want.count(k), "key " << kstr(k) << " has no area but is keyed to " << raw_region(g.second));
  }
  for (auto& w : want) {
    auto i = got.find(Key(w.first.begin(), w.first.end())); CHECKM(i != got.end(), "key " << kstr(w.first) << " covers " << w.second << " but is missing");
    check_region(i->second, w.second, ("region of " + kstr(w.first)).c_str());
  }
}
template <class L, class Key> void run(Src& s) {
  Pool p = pool(s, 1000000000LL, 7); int n = s.irange(1, 7), labels = s.irange(1, 5); bp::property_merge_90<int, L> m; std::map<L, std::vector<Reg>> parts; std::map<L, Reg> reg; std::map<Key, PS> res; bool merged = false;
  auto want = [&] { return overlay(reg); };
  for (int i = 0; i < n; ++i) {
    int li = s.irange(0, labels - 1); L l = Lab<L>::of(li); int k = s.weighted({3, 3, 3, 4}); Reg r;
    s.notef([&](std::ostream& o) { o << "insert with label " << l << " kind " << k; });
    if (k == 0) { R q = rect(s, p); r = Reg::of(q); m.insert(brect<int>(q), l); }
    else if (k == 1) { Shape h = shape(s, p, false); h.outer = vary(s, h.outer); r = Reg::of(h); m.insert(bpoly90<int>(h.outer), l); }
    else if (k == 2) { Shape h = shape(s, p, true); h.outer = vary(s, h.outer); for (auto& q : h.holes) q = vary(s, q); r = Reg::of(h); m.insert(bpwh90<int>(h), l); }
    else { PS ps(orient(s)); std::vector<Reg::E> es; fill(s, p, ps, es, s.coin(), 4); if (s.chance(1, 4)) ps.clean(); r = Reg::from_edges(es); PS before(ps); m.insert(ps, l); CHECK(ps == before); }
    s.notef([&](std::ostream& o) { o << "  region " << r; });
    if (reg.count(l)) reg[l] = reg[l] | r; else reg[l] = r;
    if (s.chance(1, 8)) { bp::property_merge_90<int, L> c(m), d; d = c; d.insert(RD(0, 0, 1, 1), Lab<L>::of(0)); m = c; s.note("  copy"); }
    if (s.chance(1, 8)) { s.note("  merge"); std::map<Key, PS> part; m.merge(part); check_map(part, want()); merged = true; }
  }
  m.merge(res); auto w = want(); check_map(res, w);
  size_t multi = 0; for (auto& k : w) multi += k.first.size() > 1; s.nontrivial(multi && w.size() > 2); s.label("merged more than once", merged); s.label("same label twice", reg.size() < (size_t)n);
}
}
PBT_TARGET(m90, 60000, 1500000) { switch (s.irange(0, 3)) { case 0: run<int, std::set<int>>(s); break; case 1: run<int, std::vector<int>>(s); break; case 2: run<std::string, std::set<std::string>>(s); break; default: run<std::string, std::vector<std::string>>(s); } }
