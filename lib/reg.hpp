// Reference model of Manhattan regions, independent of boost::polygon.
// A region is a list of vertical strips, each a sorted list of disjoint
// non-touching y intervals; kept canonical so that == is point-set equality.
#ifndef VERIF_REG_HPP
#define VERIF_REG_HPP
#include <algorithm>
#include <ostream>
#include <utility>
#include <vector>
namespace ref {
typedef long long ll;
struct P { ll x, y; bool operator==(const P& o) const { return x == o.x && y == o.y; } bool operator!=(const P& o) const { return !(*this == o); }
  bool operator<(const P& o) const { return x < o.x || (x == o.x && y < o.y); } };
struct R { ll x0, y0, x1, y1; bool operator==(const R& o) const { return x0 == o.x0 && y0 == o.y0 && x1 == o.x1 && y1 == o.y1; }
  bool operator<(const R& o) const { return x0 != o.x0 ? x0 < o.x0 : y0 != o.y0 ? y0 < o.y0 : x1 != o.x1 ? x1 < o.x1 : y1 < o.y1; } };
typedef std::vector<P> Ring;
struct Shape { Ring outer; std::vector<Ring> holes; };
inline std::ostream& operator<<(std::ostream& o, const P& p) { return o << '(' << p.x << ',' << p.y << ')'; }
inline std::ostream& operator<<(std::ostream& o, const R& r) { return o << '[' << r.x0 << ',' << r.y0 << ' ' << r.x1 << ',' << r.y1 << ']'; }
inline std::ostream& operator<<(std::ostream& o, const Ring& r) { for (auto& p : r) o << p; return o; }
inline std::ostream& operator<<(std::ostream& o, const Shape& s) { o << s.outer; for (auto& h : s.holes) o << " hole " << h; return o; }
template <class T> std::ostream& operator<<(std::ostream& o, const std::vector<T>& v) { o << '{'; for (size_t i = 0; i < v.size(); ++i) o << (i ? " ; " : "") << v[i]; return o << '}'; }

inline Ring ring(const R& r) { return Ring{{r.x0, r.y0}, {r.x1, r.y0}, {r.x1, r.y1}, {r.x0, r.y1}}; }
// twice the signed area (positive: counterclockwise)
inline __int128 area2(const Ring& r) {
  __int128 a = 0;
  for (size_t i = 0, n = r.size(); i < n; ++i) { const P &p = r[i], &q = r[(i + 1) % n]; a += (__int128)p.x * q.y - (__int128)q.x * p.y; }
  return a;
}

typedef std::vector<std::pair<ll, ll>> Iv;
class Reg {
 public:
  std::vector<ll> xs;          // strip i is [xs[i], xs[i+1])
  std::vector<Iv> st;          // size xs.size()-1 (or 0)
  bool operator==(const Reg& o) const { return xs == o.xs && st == o.st; }
  bool operator!=(const Reg& o) const { return !(*this == o); }
  bool empty() const { return st.empty(); }

  struct E { ll x0, x1, y; int c; };  // horizontal edge, count added above it
  static void add_ring(std::vector<E>& es, const Ring& r, int sign) {
    for (size_t i = 0, n = r.size(); i < n; ++i) {
      const P &p = r[i], &q = r[(i + 1) % n];
      if (p.x < q.x) es.push_back(E{p.x, q.x, p.y, sign});
      else if (p.x > q.x) es.push_back(E{q.x, p.x, p.y, -sign});
    }
  }
  static void add_rect(std::vector<E>& es, const R& r, int c = 1) {
    if (r.x0 >= r.x1 || r.y0 >= r.y1) return;
    es.push_back(E{r.x0, r.x1, r.y0, c}); es.push_back(E{r.x0, r.x1, r.y1, -c});
  }
  static void add_shape(std::vector<E>& es, const Shape& s, int c = 1) {
    add_ring(es, s.outer, area2(s.outer) >= 0 ? c : -c);
    for (auto& h : s.holes) add_ring(es, h, area2(h) >= 0 ? -c : c);
  }
  template <class F> static Reg from_edges(const std::vector<E>& es, F keep) {
    std::vector<ll> xs;
    for (auto& e : es) { xs.push_back(e.x0); xs.push_back(e.x1); }
    std::sort(xs.begin(), xs.end()); xs.erase(std::unique(xs.begin(), xs.end()), xs.end());
    Reg r; if (xs.empty()) return r;
    std::vector<Iv> st(xs.size() - 1);
    for (size_t i = 0; i + 1 < xs.size(); ++i) {
      std::vector<std::pair<ll, int>> ev;
      for (auto& e : es) if (e.x0 <= xs[i] && e.x1 >= xs[i + 1]) ev.push_back(std::make_pair(e.y, e.c));
      std::sort(ev.begin(), ev.end());
      int c = 0; ll start = 0; bool in = keep(0);
      for (size_t k = 0; k < ev.size();) {
        ll y = ev[k].first; while (k < ev.size() && ev[k].first == y) c += ev[k++].second;
        bool now = keep(c);
        if (now && !in) start = y;
        if (!now && in) st[i].push_back(std::make_pair(start, y));
        in = now;
      }
    }
    r.xs = xs; r.st = st; r.canon();
    return r;
  }
  static Reg from_edges(const std::vector<E>& es) { return from_edges(es, [](int c) { return c > 0; }); }
  static Reg of(const std::vector<R>& rs) { std::vector<E> es; for (auto& r : rs) add_rect(es, r); return from_edges(es); }
  static Reg of(const R& r) { return of(std::vector<R>(1, r)); }
  static Reg of(const std::vector<Shape>& v) { std::vector<E> es; for (auto& s : v) add_shape(es, s); return from_edges(es); }
  static Reg of(const Shape& v) { return of(std::vector<Shape>(1, v)); }

  void canon() {
    std::vector<ll> nx; std::vector<Iv> ns;
    for (size_t i = 0; i < st.size(); ++i) {
      if (xs[i] == xs[i + 1]) continue;
      if (!ns.empty() && ns.back() == st[i]) continue;
      nx.push_back(xs[i]); ns.push_back(st[i]);
    }
    // trim empties
    ll end = xs.empty() ? 0 : xs.back();
    if (!ns.empty() && ns.back().empty()) { end = nx.back(); ns.pop_back(); nx.pop_back(); }
    if (!ns.empty() && ns.front().empty()) { ns.erase(ns.begin()); nx.erase(nx.begin()); }
    if (ns.empty()) { xs.clear(); st.clear(); return; }
    nx.push_back(end);
    xs.swap(nx); st.swap(ns);
  }
  // maximal strips as disjoint rectangles
  std::vector<R> rects() const {
    std::vector<R> v;
    for (size_t i = 0; i < st.size(); ++i) for (auto& p : st[i]) v.push_back(R{xs[i], p.first, xs[i + 1], p.second});
    return v;
  }
  __int128 area() const { __int128 a = 0; for (auto& r : rects()) a += (__int128)(r.x1 - r.x0) * (r.y1 - r.y0); return a; }
  bool contains_open(ll x, ll y, ll sx = 1, ll sy = 1) const;  // unused
  R extents() const {
    R e{0, 0, 0, 0}; bool f = true;
    for (auto& r : rects()) { if (f) { e = r; f = false; } else { e.x0 = std::min(e.x0, r.x0); e.y0 = std::min(e.y0, r.y0); e.x1 = std::max(e.x1, r.x1); e.y1 = std::max(e.y1, r.y1); } }
    return e;
  }
  // f: combination of the two memberships
  template <class F> static Reg combine(const Reg& a, const Reg& b, F f) {
    std::vector<E> es;
    // encode a as +1, b as +1000
    for (auto& r : a.rects()) add_rect(es, r, 1);
    for (auto& r : b.rects()) add_rect(es, r, 1000);
    return from_edges(es, [&](int c) { return f(c % 1000 > 0, c >= 1000); });
  }
  friend Reg operator|(const Reg& a, const Reg& b) { return combine(a, b, [](bool p, bool q) { return p || q; }); }
  friend Reg operator&(const Reg& a, const Reg& b) { return combine(a, b, [](bool p, bool q) { return p && q; }); }
  friend Reg operator^(const Reg& a, const Reg& b) { return combine(a, b, [](bool p, bool q) { return p != q; }); }
  friend Reg operator-(const Reg& a, const Reg& b) { return combine(a, b, [](bool p, bool q) { return p && !q; }); }
  // Minkowski sum with the rectangle [-w,e]x[-s,n]
  Reg bloat(ll w, ll e, ll s, ll n) const {
    std::vector<R> v = rects();
    for (auto& r : v) { r.x0 -= w; r.x1 += e; r.y0 -= s; r.y1 += n; }
    return of(v);
  }
  // complement of the bloated complement: interior edges move by the given
  // distances (w: a left edge moves right by w, and so on)
  Reg shrink(ll w, ll e, ll s, ll n) const {
    if (empty()) return *this;
    R x = extents(); ll m = 2 + w + e + s + n; R u{x.x0 - m, x.y0 - m, x.x1 + m, x.y1 + m};
    Reg c = Reg::of(u) - *this;
    // a left edge of *this is a right edge of the complement
    return *this - c.bloat(e, w, n, s);
  }
  template <class F> Reg map(F f) const {  // f: axis-parallel point map
    std::vector<R> v = rects();
    for (auto& r : v) { P a = f(P{r.x0, r.y0}), b = f(P{r.x1, r.y1}); r = R{std::min(a.x, b.x), std::min(a.y, b.y), std::max(a.x, b.x), std::max(a.y, b.y)}; }
    return of(v);
  }
};
inline std::ostream& operator<<(std::ostream& o, const Reg& r) { return o << r.rects(); }
inline std::ostream& operator<<(std::ostream& o, __int128 v) { return o << (double)v; }

// Connected components of a region's cells.  corner=false: shared edges only;
// corner=true: touching at a corner connects too.
inline std::vector<std::vector<R>> components(const std::vector<R>& v, bool corner) {
  size_t n = v.size(); std::vector<int> id(n); for (size_t i = 0; i < n; ++i) id[i] = (int)i;
  std::function<int(int)> find; 
  for (size_t i = 0; i < n; ++i) for (size_t j = i + 1; j < n; ++j) {
    ll ox = std::min(v[i].x1, v[j].x1) - std::max(v[i].x0, v[j].x0), oy = std::min(v[i].y1, v[j].y1) - std::max(v[i].y0, v[j].y0);
    bool t = ox >= 0 && oy >= 0 && (corner || ox > 0 || oy > 0);
    if (t && id[i] != id[j]) { int a = id[i], b = id[j]; for (auto& k : id) if (k == b) k = a; }
  }
  std::vector<std::vector<R>> out; std::vector<int> seen(n, -1);
  for (size_t i = 0; i < n; ++i) { if (seen[id[i]] < 0) { seen[id[i]] = (int)out.size(); out.push_back(std::vector<R>()); } out[seen[id[i]]].push_back(v[i]); }
  return out;
}
}  // namespace ref
#endif
