#include "arb.hpp"
using namespace arb;
namespace bp = boost::polygon;
namespace op = boost::polygon::operators;
typedef bp::polygon_set_data<int> GS;
typedef bp::polygon_data<int> GD;
typedef bp::polygon_with_holes_data<int> GW;
typedef bp::polygon_45_set_data<int> QS;
typedef bp::polygon_45_data<int> QD;
typedef bp::polygon_90_set_data<int> PS;
typedef bp::rectangle_data<int> RD;
typedef bp::polygon_90_with_holes_data<int> WD;
typedef std::vector<GD> VG; typedef std::list<GW> LG; typedef std::vector<RD> VR;
static const char* const OPN[] = {"|", "&", "^", "-"};
struct Item { Shape h; bool hole, clean; int as; };
struct Opd { std::vector<Item> items; Ex region; };  // rings are registered in the World in item order
struct Ctx { World w; Frame f; int style; ll k = 1; bool skip = false; };
inline void note(Src& s, const char* what, const Item& i) { s.notef([&](std::ostream& o) { o << "  " << what << " " << i.h << (i.hole ? " (as hole)" : "") << (i.clean ? " then clean" : ""); }); }
// traits of operand types: how many items, what shapes
template <class T> struct OT;
enum { ANY, NOHOLE, RECT, OCTA };
inline Shape gen_shape(Src& s, Ctx& c, int cls) {
  Shape h;
  auto box = [&] { Ring r = any_ring(s, c.f, 4); if (r.size() != 4) r = ref::ring(ref::R{c.f.lo, c.f.lo, c.f.lo + 1, c.f.lo + 1}); return r; };
  if (cls == RECT) h.outer = box();
  else if (cls == OCTA) { for (int i = 0; i < 4; ++i) { h.outer = sixteen(s, c.f, false, 0x5555); if (usable(h.outer)) break; } if (!usable(h.outer)) h.outer = box(); }
  else h = any_shape(s, c.f, c.style, cls == ANY);
  return vary(s, h);
}
inline Opd plan(Src& s, Ctx& c, int lo, int hi, int cls, bool setlike, const char* what) {
  Opd o; o.region = sum(); int n = lo == hi ? lo : s.count(lo, hi);
  for (int i = 0; i < n; ++i) {
    Item t; t.as = setlike ? (int)s.draw(6) : 0; t.hole = setlike && s.chance(1, 6); t.clean = setlike && s.chance(1, 8);
    int k = cls; if (setlike && cls == ANY) { if (t.as == 3) k = RECT; else if (t.as == 4) k = OCTA; else if (t.as == 0) k = NOHOLE; }
    t.h = gen_shape(s, c, k); note(s, what, t);
    o.items.push_back(t); o.region = add(o.region, c.w.region(t.h), t.hole ? -1 : 1); if (t.clean) o.region = norm(o.region);
  }
  return o;
}
inline RD to_rect(const Ring& r) { ll a = r[0].x, b = a, c = r[0].y, d = c; for (auto& p : r) { a = std::min(a, p.x); b = std::max(b, p.x); c = std::min(c, p.y); d = std::max(d, p.y); } return RD((int)a, (int)c, (int)b, (int)d); }
inline Shape at(const Item& i, ll k) { return mem::scaled(i.h, k); }
template <> struct OT<GS> { static Opd plan(Src& s, Ctx& c) { return ::plan(s, c, 0, 4, ANY, true, "set:"); }
  static GS build(const Opd& o, ll k) { GS g; for (auto& i : o.items) { Shape h = at(i, k);
    switch (i.as) { case 0: g.insert(bpolyd<int>(h.outer), i.hole); break; case 3: g.insert(to_rect(h.outer), i.hole); break; case 4: { QS q; q.insert(gen::bpoly<QD, int>(h.outer)); g.insert(q, i.hole); break; }
      case 5: { VG v; v.push_back(bpolyd<int>(h.outer)); g.insert(v.begin(), v.end(), i.hole); for (auto& x : h.holes) g.insert(bpolyd<int>(x), !i.hole); break; } default: g.insert(bpwhd<int>(h), i.hole); }
    if (i.clean) g.clean(); } return g; } };
template <> struct OT<GD> { static Opd plan(Src& s, Ctx& c) { return ::plan(s, c, 1, 1, NOHOLE, false, "polygon:"); } static GD build(const Opd& o, ll k) { return bpolyd<int>(at(o.items[0], k).outer); } };
template <> struct OT<GW> { static Opd plan(Src& s, Ctx& c) { return ::plan(s, c, 1, 1, ANY, false, "polygon with holes:"); } static GW build(const Opd& o, ll k) { return bpwhd<int>(at(o.items[0], k)); } };
template <> struct OT<RD> { static Opd plan(Src& s, Ctx& c) { return ::plan(s, c, 1, 1, RECT, false, "rectangle:"); } static RD build(const Opd& o, ll k) { return to_rect(at(o.items[0], k).outer); } };
template <> struct OT<QD> { static Opd plan(Src& s, Ctx& c) { return ::plan(s, c, 1, 1, OCTA, false, "polygon 45:"); } static QD build(const Opd& o, ll k) { return gen::bpoly<QD, int>(at(o.items[0], k).outer); } };
template <> struct OT<VG> { static Opd plan(Src& s, Ctx& c) { return ::plan(s, c, 0, 3, NOHOLE, false, "vector of polygons:"); } static VG build(const Opd& o, ll k) { VG v; for (auto& i : o.items) v.push_back(bpolyd<int>(at(i, k).outer)); return v; } };
template <> struct OT<LG> { static Opd plan(Src& s, Ctx& c) { return ::plan(s, c, 0, 3, ANY, false, "list of polygons with holes:"); } static LG build(const Opd& o, ll k) { LG v; for (auto& i : o.items) v.push_back(bpwhd<int>(at(i, k))); return v; } };
template <> struct OT<VR> { static Opd plan(Src& s, Ctx& c) { return ::plan(s, c, 0, 3, RECT, false, "vector of rectangles:"); } static VR build(const Opd& o, ll k) { VR v; for (auto& i : o.items) v.push_back(to_rect(at(i, k).outer)); return v; } };
template <> struct OT<PS> { static Opd plan(Src& s, Ctx& c) { return ::plan(s, c, 0, 3, RECT, false, "90 set:"); } static PS build(const Opd& o, ll k) { PS v(o.items.size() & 1 ? bp::HORIZONTAL : bp::VERTICAL); for (auto& i : o.items) v.insert(to_rect(at(i, k).outer)); return v; } };
template <> struct OT<QS> { static Opd plan(Src& s, Ctx& c) { return ::plan(s, c, 0, 1, OCTA, false, "45 set:"); } static QS build(const Opd& o, ll k) { QS v; for (auto& i : o.items) v.insert(gen::bpoly<QD, int>(at(i, k).outer)); return v; } };
// chooses the scale; true when the case is exact: every crossing of input edges
// is integral and no vertex or crossing is within 2 of an edge it is not on
// (closer ones are snapped onto the edge)
inline bool separated(const std::vector<Seg>& sg) {
  std::set<P> pts = crossing_points(sg);
  for (auto& q : pts) for (auto& t : sg) if (!mem::on_segment(t.a, t.b, q) && mem::near(t.a, t.b, q, 2)) return false;
  return true;
}
// no vertex or crossing within d of an edge that does not make it
inline bool generic(const std::vector<Seg>& sg, ll d) {
  for (auto& u : sg) for (const P* q : {&u.a, &u.b}) for (auto& t : sg) if (*q != t.a && *q != t.b && mem::near(t.a, t.b, *q, d)) return false;
  for (auto& u : sg) for (const P* q : {&u.a, &u.b}) for (auto& t : sg) for (const P* r : {&t.a, &t.b}) if (*q != *r && std::llabs(q->x - r->x) <= d && std::llabs(q->y - r->y) <= d) return false;
  Frac f;
  for (auto& p : candidate_pairs(sg)) { const Seg &u = sg[p.first], &v = sg[p.second]; bool shared = u.a == v.a || u.a == v.b || u.b == v.a || u.b == v.b;
    if (!cross_at(u, v, f)) { if (shared && ((u.a == v.a && u.b == v.b) || (u.a == v.b && u.b == v.a))) return false; continue; }
    if (shared) continue;
    P q{(ll)((LD)f.x / (LD)f.d), (ll)((LD)f.y / (LD)f.d)};
    for (size_t i = 0; i < sg.size(); ++i) if ((int)i != p.first && (int)i != p.second && mem::near(sg[i].a, sg[i].b, q, d)) return false;
    for (const P* e : {&u.a, &u.b, &v.a, &v.b}) if (std::llabs(e->x - q.x) <= d && std::llabs(e->y - q.y) <= d) return false; }
  return true;
}
inline bool settle(Src& s, Ctx& c, bool want_exact, ll top = 500000LL) {
  auto sg = segs(c.w.rings); ll big = 1; for (auto& r : c.w.rings) for (auto& p : r) big = std::max(big, std::max(std::llabs(p.x), std::llabs(p.y)));
  ll lim = top / big, m = lim == 0 ? 0 : crossing_lcm(sg, lim); bool exact = false;
  auto put = [&](ll k) { for (auto& t : sg) { t.a.x *= k; t.a.y *= k; t.b.x *= k; t.b.y *= k; } c.k *= k; };
  if (want_exact && m) { put(m); for (ll f : {1LL, 4LL, 16LL, 256LL}) if (c.k <= lim / f) { put(f); if (separated(sg)) { exact = true; break; } } }
  else exact = m == 1 && big <= top && separated(sg);
  if (big > 500000 && !generic(sg, 4)) { c.skip = true; s.label("excluded: known finding large_touching"); }
  for (auto& r : c.w.rings) r = mem::scaled(r, c.k);
  s.notef([&](std::ostream& o) { o << "scale " << c.k << (exact ? " (all crossings integral)" : ""); });
  return exact;
}
inline P sample(Src& s, const Ctx& c, const std::vector<Seg>& sg, ll d) {
  const Seg& t = sg[s.draw(sg.size())]; int m = s.weighted({3, 3, 2});
  if (m == 2) { ll lo = (c.f.lo - 2) * c.k, hi = (c.f.hi + 2) * c.k; return P{s.range(lo, hi), s.range(lo, hi)}; }
  P p = m == 0 ? t.a : P{t.a.x + (ll)((LD)(t.b.x - t.a.x) * s.draw(64) / 64), t.a.y + (ll)((LD)(t.b.y - t.a.y) * s.draw(64) / 64)};
  return P{p.x + s.around(-3 * d, 3 * d), p.y + s.around(-3 * d, 3 * d)};
}
enum { SNAP = 2 };
inline std::vector<Ring> out_rings(const GS& g) { GS c(g); std::vector<GW> v; c.get(v); return rings_of(gen::rshapes_wh(v)); }
inline void check_rings(Src& s, const Ctx& c, const std::vector<Ring>& out, const Ex& want, bool exact, const char* what, ll snap = SNAP, bool slits = false) {
  auto sg = segs(c.w.rings); int dec = 0;
  for (int i = 0; i < 12 && !sg.empty(); ++i) {
    P q = sample(s, c, sg, snap); if (mem::near(c.w.rings, q, snap)) continue; ++dec;
    bool w = c.w.in(want, q); bool on = false; for (auto& r : out) on = on || mem::on_ring(r, q);
    CHECKM(slits || !on, what << ": output boundary passes through " << q << ", farther than " << snap << " from every input edge; output " << out);
    int g = winding(out, q);
    CHECKM(g == (w ? 1 : 0), what << ": point " << q << " is covered " << g << " times, expected " << w << "; output " << out);
  }
  s.label("decisive points", dec > 0);
  if (exact) {
    Diff d = compare(c.w, want, out); LD eps = extent_eps(c.w.rings);
    CHECKM(d.wrong <= eps, what << ": wrong on area " << (double)d.wrong << " of region of area " << (double)d.want << "; output " << out);
    std::set<P> ok = crossing_points(sg);
    for (auto& r : out) for (auto& p : r) CHECKM(ok.count(p), what << ": output vertex " << p << " is neither an input vertex nor a crossing; output " << out);
    s.label("exact");
  }
}
inline void check_set(Src& s, const Ctx& c, const GS& g, const Ex& want, bool exact, const char* what, ll snap = SNAP) { check_rings(s, c, out_rings(g), want, exact, what, snap); }
inline void start(Src& s, Ctx& c) { c.f = frame(s); c.style = s.weighted({3, 2, 1, 1, 1, 1}) - 1; }
inline bool overlap(Src& s, const Ctx& c, const Ex& a, const Ex& b) {  // cheap non-triviality probe: some vertex pair box overlap
  auto sg = segs(c.w.rings); Frac f; int n = 0; (void)s; (void)a; (void)b; for (auto& p : candidate_pairs(sg)) n += cross_at(sg[p.first], sg[p.second], f);
  return n > (int)sg.size();  // more than consecutive edges meeting at vertices
}
template <class A, class B, int O> void pairop(Src& s, const char* name) {
  Ctx c; start(s, c); s.notef([&](std::ostream& x) { x << name << " op " << OPN[O]; });
  Opd oa = OT<A>::plan(s, c), ob = OT<B>::plan(s, c); bool exact = settle(s, c, s.coin()); if (c.skip) return;
  A a = OT<A>::build(oa, c.k); B b = OT<B>::build(ob, c.k);
  Ex want = boolean(O, oa.region, ob.region); s.nontrivial(overlap(s, c, oa.region, ob.region)); s.label(name);
  using namespace boost::polygon::operators;
  int form = s.irange(0, 2);
  if (form == 0) { GS out; switch (O) { case 0: out = a | b; break; case 1: out = a & b; break; case 2: out = a ^ b; break; default: out = a - b; } check_set(s, c, out, want, exact, name); }
  else if (form == 1) { GS out; switch (O) { case 0: bp::assign(out, a + b); break; case 1: bp::assign(out, a * b); break; case 2: bp::assign(out, a ^ b); break; default: bp::assign(out, a - b); } check_set(s, c, out, want, exact, name); }
  else { std::vector<GW> v; switch (O) { case 0: bp::assign(v, a | b); break; case 1: bp::assign(v, a & b); break; case 2: bp::assign(v, a ^ b); break; default: bp::assign(v, a - b); } check_rings(s, c, rings_of(gen::rshapes_wh(v)), want, exact, name); }
}
#define PAIR(A, B) pairop<A, B, OP_>(s, #A " op " #B)
#define PAIRS(NAME) PBT_TARGET(NAME, 80000, 1500000) { \
  switch (s.irange(0, 13)) { case 0: PAIR(GS, GS); break; case 1: PAIR(GS, GD); break; case 2: PAIR(GD, GS); break; case 3: PAIR(GD, GD); break; case 4: PAIR(GW, GD); break; case 5: PAIR(GW, GW); break; \
    case 6: PAIR(VG, LG); break; case 7: PAIR(GS, RD); break; case 8: PAIR(RD, GD); break; case 9: PAIR(GS, PS); break; case 10: PAIR(PS, GW); break; case 11: PAIR(QS, GS); break; case 12: PAIR(GD, QD); break; default: PAIR(VR, LG); } }
