#include "../../lib/arbset.hpp"
namespace {
template <class K> std::string kstr(const K& k) { std::ostringstream o; o << "{"; for (auto& x : k) o << x << " "; o << "}"; return o.str(); }
template <class Key> void run(Src& s) {
  Ctx c; start(s, c); int n = s.irange(1, s.chance(1, 6) ? 14 : 5), labels = s.irange(1, 4);
  std::vector<std::pair<int, Item>> ins; std::map<int, Ex> reg;
  for (int i = 0; i < n; ++i) { int la = 9 - 4 * s.irange(0, labels - 1); Item t; t.hole = t.clean = false; t.as = s.irange(0, 2); t.h = gen_shape(s, c, t.as == 0 ? NOHOLE : t.as == 1 ? ANY : RECT); s.notef([&](std::ostream& o) { o << "label " << la; }); note(s, "shape", t);
    ins.push_back({la, t}); Ex e = c.w.region(t.h); if (reg.count(la)) reg[la] = add(reg[la], e); else reg[la] = e; }
  bool exact = settle(s, c, s.chance(2, 3)); if (c.skip) return;
  bp::property_merge<int, int> pm0; bp::property_merge<int, int, Key> m; std::map<Key, GS> res;
  for (auto& i : ins) { Shape h = mem::scaled(i.second.h, c.k); switch (i.second.as) { case 0: m.insert(bpolyd<int>(h.outer), i.first); break; case 1: m.insert(bpwhd<int>(h), i.first); break; default: m.insert(to_rect(h.outer), i.first); } }
  if (s.chance(1, 6)) { bp::property_merge<int, int, Key> d(m); m.clear(); std::map<Key, GS> none; m.merge(none); CHECKM(none.empty(), "merge after clear"); m = d; s.note("  copy"); }
  m.merge(res);
  std::vector<int> ls; for (auto& r : reg) ls.push_back(r.first);
  std::set<std::set<int>> areas; std::map<std::set<int>, LD> ar;
  { std::vector<int> gr; for (size_t i = 0; i < c.w.rings.size(); ++i) gr.push_back((int)i); cells(c.w.rings, gr, (int)gr.size(), [&](LD a, const std::vector<int>& w) { std::set<int> k; for (auto& r : reg) if (eval(r.second, w) > 0) k.insert(r.first); if (!k.empty()) ar[k] += a; }); }
  for (auto& g : res) { std::set<int> k(g.first.begin(), g.first.end()); CHECKM(k.size() == g.first.size() && Key(k.begin(), k.end()) == g.first, "key " << kstr(g.first) << " is not a sorted set of labels"); CHECKM(!k.empty(), "empty key"); for (int l : k) CHECKM(reg.count(l), "unknown label " << l); }
  std::map<std::set<int>, std::vector<Ring>> out; for (auto& g : res) out[std::set<int>(g.first.begin(), g.first.end())] = out_rings(g.second);
  LD eps = extent_eps(c.w.rings); size_t multi = 0;
  for (int b = 1; b < 1 << ls.size(); ++b) {
    Ex e; std::set<int> k; for (size_t j = 0; j < ls.size(); ++j) if (b >> j & 1) { e = k.empty() ? norm(reg[ls[j]]) : boolean(1, e, reg[ls[j]]); k.insert(ls[j]); }
    for (size_t j = 0; j < ls.size(); ++j) if (!(b >> j & 1)) e = boolean(3, e, reg[ls[j]]);
    if (exact) { CHECKM(out.count(k) == (ar.count(k) && ar[k] > eps) || (ar.count(k) && ar[k] <= eps), "key " << kstr(k) << (out.count(k) ? " has no area but is present" : " is missing"));
      if (out.count(k) && !(ar.count(k))) continue; }
    std::vector<Ring> none; check_rings(s, c, out.count(k) ? out[k] : none, e, exact, ("region of " + kstr(k)).c_str(), SNAP); multi += k.size() > 1 && out.count(k);
  }
  s.nontrivial(multi && out.size() > 2); s.label("same label twice", reg.size() < (size_t)n);
}
}
PBT_TARGET(general, 20000, 600000) { if (s.coin()) run<std::set<int>>(s); else run<std::vector<int>>(s); }
