// connectivity: node ids, graph formats and the expected graph
typedef std::vector<std::set<int>> VGr; typedef std::map<int, std::set<int>> MGr;
inline std::string gstr(const VGr& g) { std::ostringstream o; for (size_t i = 0; i < g.size(); ++i) { o << i << ":"; for (int j : g[i]) o << " " << j; o << "; "; } return o.str(); }
template <class CE> void check_graph(pbt::Src& s, CE& ce, const VGr& want) {
  VGr g(want.size()); MGr m; bool vec = s.coin();
  for (int k = 0; k < 2; ++k) { if (vec == (k == 0)) ce.extract(g); else ce.extract(m); }
  CHECKM(g == want, "graph " << gstr(g) << " expected " << gstr(want) << (vec ? "" : " (after a first extraction)"));
  VGr w(want.size()); for (auto& e : m) { CHECKM(e.first >= 0 && (size_t)e.first < w.size(), "node " << e.first); w[e.first] = e.second; }
  CHECKM(w == want, "map graph " << gstr(w) << " expected " << gstr(want) << (vec ? " (after a first extraction)" : ""));
}
template <class T, class F> VGr expect(const std::vector<T>& v, F touch) {
  VGr w(v.size()); for (size_t i = 0; i < v.size(); ++i) for (size_t j = 0; j < i; ++j) if (touch(v[i], v[j])) { w[i].insert((int)j); w[j].insert((int)i); } return w;
}
inline void stats(pbt::Src& s, const VGr& w) { size_t e = 0; for (auto& n : w) e += n.size(); e /= 2; s.nontrivial(e > 0 && e < w.size() * (w.size() - 1) / 2); s.label("complete graph", w.size() > 1 && e == w.size() * (w.size() - 1) / 2); s.label("no edges", e == 0); }
