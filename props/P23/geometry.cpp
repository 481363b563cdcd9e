#include "vor.hpp"
using namespace vor;
namespace {
typedef __float128 Q;
Q qsqrt(Q v) { if (v <= 0) return 0; Q r = std::sqrt((LD)v); for (int i = 0; i < 3; ++i) r = (r + v / r) / 2; return r; }
Q qabs(Q v) { return v < 0 ? -v : v; }
const LD EPS = 1.0L / (1LL << 52);  // one ULP of a double at 1
// The point equidistant from three sites near (x,y), by Newton's method in 113 bit arithmetic.
// False if it is not well determined there.
bool refine(const Site* t, Q& x, Q& y) {
  Q r = dist(t[0], (LD)x, (LD)y); bool ep[3] = {false, false, false}; int par[3] = {-1, -1, -1}; bool side[3];
  for (int i = 0; i < 3; ++i) { for (int j = 0; j < 3; ++j) if (endpoint_of(t[i], t[j])) { ep[i] = true; if (par[i] < 0) par[i] = j; }
    side[i] = t[i].seg() && ((LD)(t[i].b.x - t[i].a.x) * ((LD)y - t[i].a.y) - (LD)(t[i].b.y - t[i].a.y) * ((LD)x - t[i].a.x)) < 0; }
  // an end point and two of its own segments: the end point itself
  for (int i = 0; i < 3; ++i) if (ep[i]) { bool all = true; for (int j = 0; j < 3; ++j) if (j != i) all = all && endpoint_of(t[i], t[j]); if (all) { const Site& u = t[(i + 1) % 3]; const Site& v = t[(i + 2) % 3]; if ((LL)(u.b.x - u.a.x) * (v.b.y - v.a.y) == (LL)(u.b.y - u.a.y) * (v.b.x - v.a.x)) return false; x = t[i].a.x; y = t[i].a.y; return true; } }
  for (int it = 0; it < 12; ++it) {
    Q J[3][4];
    for (int i = 0; i < 3; ++i) {
      const Site& q = t[i];
      if (ep[i]) { const Site& g = t[par[i]]; Q dx = g.b.x - g.a.x, dy = g.b.y - g.a.y, len = qsqrt(dx * dx + dy * dy); J[i][0] = dx / len; J[i][1] = dy / len; J[i][2] = 0; J[i][3] = -((x - q.a.x) * dx + (y - q.a.y) * dy) / len; }
      else if (q.seg()) { Q dx = q.b.x - q.a.x, dy = q.b.y - q.a.y, len = qsqrt(dx * dx + dy * dy), sg = side[i] ? -1 : 1; J[i][0] = -dy * sg / len; J[i][1] = dx * sg / len; J[i][2] = -1; J[i][3] = -((dx * (y - q.a.y) - dy * (x - q.a.x)) * sg / len - r); }
      else { Q dx = x - q.a.x, dy = y - q.a.y, d = qsqrt(dx * dx + dy * dy); if (d == 0) return false; J[i][0] = dx / d; J[i][1] = dy / d; J[i][2] = -1; J[i][3] = -(d - r); }
    }
    for (int c = 0; c < 3; ++c) {  // Gaussian elimination
      int p = c; for (int i = c + 1; i < 3; ++i) if (qabs(J[i][c]) > qabs(J[p][c])) p = i;
      if (qabs(J[p][c]) < (Q)1e-22) return false;
      for (int k = 0; k < 4; ++k) std::swap(J[p][k], J[c][k]);
      for (int i = 0; i < 3; ++i) if (i != c) { Q f = J[i][c] / J[c][c]; for (int k = c; k < 4; ++k) J[i][k] -= f * J[c][k]; }
    }
    Q sx = J[0][3] / J[0][0], sy = J[1][3] / J[1][1], sr = J[2][3] / J[2][2]; x += sx; y += sy; r += sr;
    Q m = qabs(x) + qabs(y) + qabs(r);
    if (qabs(sx) + qabs(sy) + qabs(sr) <= m * (Q)1e-29) return r >= 0;
  }
  return false;
}
struct Geo {
  Src& s; const Input& in; const VD& vd; const std::vector<Site>& of; std::set<Site> all;
  Geo(Src& s_, const Input& i, const VD& v, const std::vector<Site>& o) : s(s_), in(i), vd(v), of(o), all(sites(i)) {}
  const Site& st(E e) const { return of[(size_t)(e->cell() - vd.cells().data())]; }
  LD nearest(LD x, LD y) const { LD m = -1; for (auto& q : all) if (!(q.seg() && false)) { LD d = dist(q, x, y); if (m < 0 || d < m) m = d; } return m; }
  void vertices() {
    for (auto& v : vd.vertices()) {
      LD x = v.x(), y = v.y(); CHECKM(std::isfinite(v.x()) && std::isfinite(v.y()), "vertex " << v.x() << " " << v.y());
      std::vector<Site> ar; E e = v.incident_edge(); do { ar.push_back(st(e)); e = e->rot_next(); } while (e != v.incident_edge());
      LD d0 = dist(ar[0], x, y), m = nearest(x, y); int deg = (int)ar.size();
      LD ulps = 64 + 128 * (deg - 3), tol = 2 * ulps * EPS * (std::fabs(x) + std::fabs(y) + d0);
      for (auto& q : ar) { LD d = dist(q, x, y); CHECKM(std::fabs(d - d0) <= tol, "vertex (" << (double)x << "," << (double)y << ") is " << (double)d0 << " from " << ar[0] << " and " << (double)d << " from " << q);
        if (q.seg() && deg == 3) { LD t = along(q, x, y), l = dist(q.a, q.b.x, q.b.y); CHECKM(t * l >= -tol && (t - 1) * l <= tol, "vertex (" << (double)x << "," << (double)y << ") of the cell of " << q << " is beyond its end"); } }
      CHECKM(m >= d0 - tol, "vertex (" << (double)x << "," << (double)y << ") at distance " << (double)d0 << " from " << ar[0] << " has a site " << (double)(d0 - m) << " nearer, tolerance " << (double)tol);
      if (deg == 3) { Q qx = v.x(), qy = v.y(); if (refine(&ar[0], qx, qy)) {
          LD ex = std::fabs((LD)((Q)v.x() - qx)), ey = std::fabs((LD)((Q)v.y() - qy)), s0 = std::fabs(x) + std::fabs(y) + d0;
          if (ex + ey < 1e-6L * s0) {  // otherwise another solution
            CHECKM(ex <= 64 * EPS * std::fabs((LD)qx) + 1e-27L * s0 && ey <= 64 * EPS * std::fabs((LD)qy) + 1e-27L * s0, "vertex " << v.x() << " " << v.y() << " of " << ar[0] << " " << ar[1] << " " << ar[2] << " is " << (double)(ex / EPS / std::fabs((LD)qx)) << " and " << (double)(ey / EPS / std::fabs((LD)qy)) << " ULPs from " << (double)qx << " " << (double)qy);
            s.label("exact vertex checked"); } else s.label("other solution"); } else s.label("vertex not refined"); }
    }
  }
  // a point that should be nearest to both (1e-9 relative) with the cell of e on its left
  void on_edge(E e, LD x, LD y, LD dx, LD dy, LD scale) {
    const Site &a = st(e), &b = st(e->twin()); LD da = dist(a, x, y), db = dist(b, x, y), m = nearest(x, y), tol = 1e-12L * (std::fabs(x) + std::fabs(y) + da + scale);
    CHECKM(std::fabs(da - db) <= tol && m >= da - tol, "point (" << (double)x << "," << (double)y << ") on the edge between " << a << " and " << b << " is " << (double)da << " and " << (double)db << " from them and " << (double)m << " from another site");
    LD l = std::sqrt(dx * dx + dy * dy); if (l == 0) return; LD h = std::max((LD)1e-3 * std::min(l, (LD)1 + da), 0.0L); if (h < 1e4L * tol) return;
    LD nx = -dy / l * h, ny = dx / l * h;
    if (e->is_secondary()) { // the end point's side and the segment's side
      const Site& g = a.seg() ? a : b; const Site& p = a.seg() ? b : a; LD t = along(g, x + nx, y + ny); bool in_seg = p.a == g.a ? t > 0 : t < 1; CHECKM(in_seg == a.seg(), "the edge between " << a << " and " << b << " has the wrong side on its left"); return; }
    LD la = dist(a, x + nx, y + ny), lb = dist(b, x + nx, y + ny); if (std::fabs(la - lb) > 100 * tol) CHECKM(la < lb, "the edge between " << a << " and " << b << " has the wrong cell on its left near (" << (double)x << "," << (double)y << ")");
  }
  void edges() {
    for (auto& e0 : vd.edges()) {
      E e = &e0; const Site &a = st(e), &b = st(e->twin()); V v0 = e->vertex0(), v1 = e->vertex1();
      if (e->is_curved()) {
        const Site& g = a.seg() ? a : b; const Site& p = a.seg() ? b : a; LD len = dist(g.a, g.b.x, g.b.y), ux = (g.b.x - g.a.x) / len, uy = (g.b.y - g.a.y) / len;
        LD pu = (p.a.x - g.a.x) * ux + (p.a.y - g.a.y) * uy, pn = -(p.a.x - g.a.x) * uy + (p.a.y - g.a.y) * ux;
        LD u0 = ((LD)v0->x() - g.a.x) * ux + ((LD)v0->y() - g.a.y) * uy, u1 = ((LD)v1->x() - g.a.x) * ux + ((LD)v1->y() - g.a.y) * uy; if (std::fabs(u1 - u0) < 1e-10L * (std::fabs(u0) + std::fabs(u1) + std::fabs((LD)v0->x()) + std::fabs((LD)v0->y()))) continue;
        for (int i = 1; i < 4; ++i) { LD u = u0 + (u1 - u0) * i / 4, n = ((u - pu) * (u - pu) + pn * pn) / (2 * pn), sl = (u - pu) / pn, sg = u1 > u0 ? 1 : -1;
          LD tx = sg * (ux - sl * uy), ty = sg * (uy + sl * ux), w = std::fabs(u1 - u0) / std::sqrt(tx * tx + ty * ty) / (1 + std::fabs(sl)); on_edge(e, g.a.x + u * ux - n * uy, g.a.y + u * uy + n * ux, tx * w, ty * w, std::fabs((LD)g.a.x) + std::fabs((LD)g.a.y) + std::fabs(sl) * (std::fabs(u0) + std::fabs(u1)) * 1e-2L); }
        continue;
      }
      LD dx, dy;
      if (v0 && v1) { dx = (LD)v1->x() - v0->x(); dy = (LD)v1->y() - v0->y(); LD sc = std::fabs((LD)v0->x()) + std::fabs((LD)v1->x()) + std::fabs((LD)v0->y()) + std::fabs((LD)v1->y()); if (std::fabs(dx) + std::fabs(dy) < 1e-10L * sc) continue; for (int i = 1; i < 4; ++i) on_edge(e, v0->x() + dx * i / 4, v0->y() + dy * i / 4, dx, dy, sc); continue; }
      LD mx, my, ox, oy;  // a point of the line, from the site on the right to the one on the left
      if (e->is_secondary()) { const Site& g = a.seg() ? a : b; const Site& p = a.seg() ? b : a; ox = g.b.x - g.a.x; oy = g.b.y - g.a.y; if ((p.a == g.a) != a.seg()) { ox = -ox; oy = -oy; } mx = p.a.x; my = p.a.y; }
      else { ox = a.a.x - b.a.x; oy = a.a.y - b.a.y; mx = ((LD)a.a.x + b.a.x) / 2; my = ((LD)a.a.y + b.a.y) / 2; }
      dx = oy; dy = -ox; LD sc = std::fabs(mx) + std::fabs(my);
      // the vertex projected on the line
      auto proj = [&](V v) { return (((LD)v->x() - mx) * dx + ((LD)v->y() - my) * dy) / (dx * dx + dy * dy); };
      static const LD T[] = {0.01L, 1, 1000}; if (v0) sc += std::fabs((LD)v0->x()) + std::fabs((LD)v0->y()); if (v1) sc += std::fabs((LD)v1->x()) + std::fabs((LD)v1->y());
      for (LD t : T) { LD u = v0 ? proj(v0) + t : v1 ? proj(v1) - t : (t - 1); on_edge(e, mx + dx * u, my + dy * u, dx, dy, sc + (std::fabs(dx) + std::fabs(dy)) * t); if (!v0 && !v1) on_edge(e, mx - dx * t, my - dy * t, dx, dy, sc + (std::fabs(dx) + std::fabs(dy)) * t); }
    }
  }
  // from every cell that does not belong to the nearest site of q some neighbouring cell is nearer
  void query(LD x, LD y) {
    LD m = nearest(x, y), tol = 1e-14L * (std::fabs(x) + std::fabs(y) + m + 1);
    for (auto& c : vd.cells()) {
      if (c.is_degenerate()) continue;
      const Site& a = of[(size_t)(&c - vd.cells().data())]; LD d = dist(a, x, y); if (d <= m + 100 * tol) continue;
      bool own = false; if (!a.seg()) for (auto& q : all) if (endpoint_of(a, q)) { LD t = along(q, x, y); if (!(q.a == a.a)) t = 1 - t; own = own || t > -1e-9L; } if (own) continue;  // a segment ending here is nearer
      if (a.seg()) { LD t = along(a, x, y); if (t <= 1e-9L || t >= 1 - 1e-9L) continue; }
      LD best = d; E e = c.incident_edge(); do { best = std::min(best, dist(st(e->twin()), x, y)); e = e->next(); } while (e != c.incident_edge());
      CHECKM(best < d + tol && (best < d || a.seg()), "point (" << (double)x << "," << (double)y << ") is " << (double)d << " from " << a << ", no neighbouring cell's site is nearer, but a site at distance " << (double)m << " is");
    }
  }
  void queries() {
    LD x0 = 0, x1 = 0, y0 = 0, y1 = 0; bool f = true; for (auto& q : all) { LD xs[] = {(LD)q.a.x, (LD)q.b.x}, ys[] = {(LD)q.a.y, (LD)q.b.y}; for (int i = 0; i < 2; ++i) { if (f || xs[i] < x0) x0 = xs[i]; if (f || xs[i] > x1) x1 = xs[i]; if (f || ys[i] < y0) y0 = ys[i]; if (f || ys[i] > y1) y1 = ys[i]; f = false; } }
    LD w = x1 - x0 + 1, h = y1 - y0 + 1;
    for (int i = 0; i < 6; ++i) { LD m = i == 5 ? 4 : 0.25L; query(x0 - m * w + (w + 2 * m * w) * s.irange(0, 1024) / 1024, y0 - m * h + (h + 2 * m * h) * s.irange(0, 1024) / 1024); }
    if (!vd.vertices().empty()) for (int i = 0; i < 3; ++i) { auto& v = vd.vertices()[(size_t)s.draw(vd.num_vertices())]; query(v.x(), v.y()); }
  }
};
void run(Src& s, int mode, int maxn) {
  Input in = gen_input(s, mode, maxn, true); if (in.pts.empty() && in.segs.empty()) return;
  VD vd; build(in, vd, 0); std::vector<Site> of = structure(in, vd); Geo g(s, in, vd, of);
  g.vertices(); g.edges(); g.queries();
  s.label("more than 30 cells", vd.num_cells() > 30); s.nontrivial(vd.num_vertices() >= 2);
}
}
PBT_TARGET(points, 120000, 2000000) { run(s, 0, 14); }
PBT_TARGET(segments, 120000, 2000000) { run(s, 1, 8); }
PBT_TARGET(mixed, 120000, 2000000) { run(s, 2, 8); }
// a circle event that ends within 64 ULPs of a site is taken for a coincident one
PBT_KNOWN(near_coincident_events) {
  Input in; in.pts = {P{1005987451, 143712493}, P{1005987451, 143712492}, P{718562465, 431137479}, P{431137479, 143712493}};
  VD vd; build(in, vd, 0); std::vector<Site> of = structure(in, vd); std::vector<unsigned char> d; pbt::Src s(0); Geo(s, in, vd, of).vertices();
}
