#include "common.hpp"
// Operands on the integer grid whose edges may cross at half-integer points:
// the result equals the exact region except inside the reported 1x1 squares.
// Raster: unit squares cut by both diagonals (lattice unit = half a unit).
namespace {
struct HL { ll ox, oy; int G; Lat lat() const { Lat l; l.ox = ox; l.oy = oy; l.m = 1; l.k = 2; l.G = G; return l; }
  Ring at(const Ring& r) const { Ring o; for (auto& p : r) o.push_back(P{ox + p.x / 2, oy + p.y / 2}); return o; }
  Shape at(const Shape& s) const { Shape o; o.outer = at(s.outer); for (auto& h : s.holes) o.holes.push_back(at(h)); return o; } };
// grow by half squares; a square is never cut by both diagonals
Shape half_blob(Src& s, int G, bool holes) {
  Tri t(G); std::vector<int> cut(G * G, -1); std::vector<int> q; int n = s.count(1, 24);
  int sq = (int)s.draw(G * G);
  for (int i = 0; i < n; ++i) {
    if (!q.empty()) {
      int from = q[q.size() - 1 - s.draw(std::min<size_t>(q.size(), 4))]; std::vector<int> nb;
      t.neighbours(from, [&](int k) { if (t.c[k] <= 0) nb.push_back(k); });
      if (nb.empty()) continue;
      int k = nb[s.draw(nb.size())]; sq = k >> 2;
      int d = cut[sq] < 0 ? s.irange(0, 2) : cut[sq]; 
      // d 0: diagonal SW-NE (halves SE={S,E}, NW={N,W}); 1: NW-SE (halves {S,W},{N,E}); 2: whole
      cut[sq] = d; int tri = k & 3; int m[2];
      if (d == 2) { for (int j = 0; j < 4; ++j) if (t.c[sq * 4 + j] <= 0) { t.c[sq * 4 + j] = 1; q.push_back(sq * 4 + j); } continue; }
      if (d == 0) { m[0] = tri == S_ || tri == E_ ? S_ : N_; m[1] = m[0] == S_ ? E_ : W_; } else { m[0] = tri == S_ || tri == W_ ? S_ : N_; m[1] = m[0] == S_ ? W_ : E_; }
      for (int j = 0; j < 2; ++j) { t.c[sq * 4 + m[j]] = 1; q.push_back(sq * 4 + m[j]); }
    } else {
      int d = s.irange(0, 4); static const int M[5][4] = {{0, 1, 2, 3}, {0, 1, 0, 1}, {2, 3, 2, 3}, {0, 3, 0, 3}, {2, 1, 2, 1}};
      cut[sq] = d == 0 ? 2 : d < 3 ? 0 : 1;
      for (int j = 0; j < 4; ++j) if (t.c[sq * 4 + M[d][j]] <= 0) { t.c[sq * 4 + M[d][j]] = 1; q.push_back(sq * 4 + M[d][j]); }
    }
  }
  std::vector<Ring> o, in; t.trace(o, in); Shape r; r.outer = o[0]; if (holes) r.holes = in; return r;
}
Shape hshape(Src& s, int G) {
  int k = s.weighted({2, 3, 4}); Shape r;
  if (k == 0) r.outer = trect(s, G); else if (k == 1) r.outer = octagon(s, G); else r = half_blob(s, G, true);
  return r;
}
void hfill(Src& s, const HL& l, QS& p, Tri& g, int maxn) {
  for (int i = s.count(1, maxn); i > 0; --i) {
    Shape h = vary(s, hshape(s, l.G)); bool hole = s.chance(1, 8);
    s.notef([&](std::ostream& o) { o << "  " << (hole ? "(as hole) " : "") << l.at(h); });
    Tri t(l.G); t.add(h); if (hole) g -= t; else g += t;
    p.insert(bpwh45<int>(l.at(h)), hole);
  }
}
Tri check_half(const HL& h, const QS& ps, const Tri& want, const char* what) {
  Lat l = h.lat(); QS c1(ps), er; ps.get_error_data(er);
  CHECKM(ps.has_error_data() == (ps.error_count() > 0), what << ": has_error_data");
  std::vector<RD> dummy; std::vector<QW> w; c1.get(w);
  std::vector<Shape> sw = gen::rshapes_wh(w);
  Tri got = tiles(l, sw, false, what);
  // error squares, from the raw vertices: the lowest corner of each
  std::vector<P> pts; for (auto& v : er) pts.push_back(P{(ll)v.pt.x(), (ll)v.pt.y()});
  CHECKM(pts.size() == 4 * ps.error_count(), what << ": error_count " << ps.error_count());
  Tri mask(h.G);
  for (size_t i = 0; i + 3 < pts.size(); i += 4) {
    ll x0 = pts[i].x, y0 = pts[i].y, x1 = x0, y1 = y0;
    for (int k = 1; k < 4; ++k) { x0 = std::min(x0, pts[i + k].x); x1 = std::max(x1, pts[i + k].x); y0 = std::min(y0, pts[i + k].y); y1 = std::max(y1, pts[i + k].y); }
    CHECKM(x1 - x0 == 1 && y1 - y0 == 1, what << ": an error square is [" << x0 << "," << y0 << " " << x1 << "," << y1 << "]");
    ll a = x0 - h.ox, b = y0 - h.oy;
    if (a >= 0 && b >= 0 && a < h.G && b < h.G) for (int k = 0; k < 4; ++k) mask.c[mask.id((int)a, (int)b, k)] = 1;
  }
  for (size_t k = 0; k < got.c.size(); ++k) if (mask.c[k] == 0)
    CHECKM((got.c[k] > 0) == (want.c[k] > 0), what << ": result " << got << " differs outside the error squares " << mask << " from " << want);
  return got.norm();
}
// an operator view carries no error squares of its operands: start from what the cleaned operand denotes
void hsettle(Src& s, const HL& l, QS& p, Tri& g, bool or_) {
  if (!or_ || !neg(g)) return;
  p.clean(); s.note("  clean"); Tri n = g.norm(); g = check_half(l, p, n, "cleaned operand");
}
}  // namespace
