#include "pbt.hpp"
#include <boost/polygon/voronoi.hpp>
#include <boost/multiprecision/cpp_int.hpp>
#include <boost/multiprecision/cpp_bin_float.hpp>
#include <cmath>
#include <cstring>
namespace bp = boost::polygon; namespace bd = boost::polygon::detail; namespace mp = boost::multiprecision;
using pbt::Src; typedef long long ll; typedef mp::cpp_int Z;
namespace {
typedef mp::number<mp::cpp_bin_float<640, mp::digit_base_10, void, std::int32_t>, mp::et_off> R;
typedef mp::number<mp::cpp_bin_float<120, mp::digit_base_10, void, std::int32_t>, mp::et_off> R1;
// integers with long carry chains: 32-bit digits that are mostly 0, 1, all ones or arbitrary
std::vector<uint32_t> digits(Src& s, int maxn) {
  int n = s.irange(0, maxn); std::vector<uint32_t> d; for (int i = 0; i < n; ++i) switch (s.weighted({3, 3, 2, 1, 3})) { case 0: d.push_back(0); break; case 1: d.push_back(0xFFFFFFFFu); break; case 2: d.push_back(1); break; case 3: d.push_back(0x80000000u); break; default: d.push_back((uint32_t)s.draw(1ull << 32)); }
  if (n && d[0] == 0) d[0] = s.coin() ? 1 : (uint32_t)(1 + s.draw(0xFFFFFFFFull)); return d;  // most significant first
}
Z val(const std::vector<uint32_t>& d, bool plus) { Z z = 0; for (uint32_t c : d) z = (z << 32) + c; return plus ? z : -z; }
template <size_t N> Z val(const bd::extended_int<N>& e) { Z z = 0; for (size_t i = e.size(); i-- > 0;) z = (z << 32) + e.chunks()[i]; return e.count() < 0 ? -z : z; }
int sg(const Z& z) { return z < 0 ? -1 : z > 0 ? 1 : 0; }
R1 ldexp1(const R1& v, int e) { return mp::ldexp(v, e); }
template <size_t N> void agrees(const char* what, const bd::extended_int<N>& e, const Z& z) {
  CHECKM(val(e) == z, what << " is " << val(e) << " instead of " << z);
  CHECKM(e.is_pos() == (z > 0) && e.is_neg() == (z < 0) && e.is_zero() == (z == 0) && bd::is_pos(e) == (z > 0) && bd::is_neg(e) == (z < 0) && bd::is_zero(e) == (z == 0), what << ": sign of " << z);
  Z a = abs(z); bd::extended_int<N> c; c = (bp::detail::int32)0; std::vector<uint32_t> d; for (Z t = a; t != 0; t >>= 32) d.insert(d.begin(), (uint32_t)(t & 0xFFFFFFFFu)); bd::extended_int<N> f(d, z >= 0); CHECKM(e == f && !(e != f) && !(e < f) && !(f < e) && e <= f && e >= f, what << ": " << z << " does not equal itself built from digits");
  std::pair<double, int> p = e.p(); R1 got = ldexp1(R1(p.first), p.second), want(z); CHECKM(mp::abs(got - want) <= mp::abs(want) * mp::ldexp(R1(1), -52), what << ": p() of " << z << " is " << p.first << " times 2^" << p.second);
  if (a != 0 && msb(a) < 1000) { double v = e.d(); CHECKM(mp::abs(R1(v) - want) <= mp::abs(want) * mp::ldexp(R1(1), -52), what << ": d() of " << z << " is " << v); }
  double w = bd::type_converter_fpt()(e); if (a == 0) CHECK(w == 0 && p.first == 0);
}
template <size_t N> void ints(Src& s, int maxn) {
  typedef bd::extended_int<N> X; auto da = digits(s, maxn), db = digits(s, maxn); bool pa = s.chance(2, 3), pb = s.chance(2, 3);
  if (s.chance(1, 6)) { db = da; if (!db.empty() && s.coin()) db.back() ^= 1u << s.irange(0, 31); if (!db.empty() && db[0] == 0) db[0] = 1; }
  Z a = val(da, pa), b = val(db, pb); X x(da, pa), y(db, pb); Z lim = Z(1) << (32 * (int)N);
  s.notef([&](std::ostream& o) { o << "size " << N << " a " << a << " b " << b; });
  agrees("a", x, a); agrees("-a", -x, -a); { X t = x; t.neg(); agrees("neg", t, -a); }
  if (abs(a + b) < lim) agrees("a+b", x + y, a + b); if (abs(a - b) < lim) { agrees("a-b", x - y, a - b); agrees("b-a", y - x, b - a); } if (abs(a * b) < lim) agrees("a*b", x * y, a * b);
  CHECKM((x < y) == (a < b) && (x > y) == (a > b) && (x <= y) == (a <= b) && (x >= y) == (a >= b) && (x == y) == (a == b) && (x != y) == (a != b), "comparison of " << a << " and " << b);
  if (abs(a + b) < lim) { X t = x + y; Z d = a + b - b; if (abs(d) < lim) { X u = t - y; CHECKM(u == x && !(u < x) && !(x < u), "(a+b)-b does not equal a"); } }
  ll m = s.chance(1, 2) ? s.around(-(1LL << 40), 1LL << 40) : (ll)s.draw(~0ull); int k = s.coin() ? (int)s.around(-100, 100) : (int)s.draw(1ull << 32); if (m == (ll)(1ull << 63)) m = 0; if (k == (int)(1u << 31)) k = 0;
  { X t((bd::int32)k); agrees("from int32", t, Z(k)); t = x; t = (bd::int32)k; agrees("= int32", t, Z(k)); if (abs(a * k) < lim) agrees("times int32", x * (bd::int32)k, a * k); }
  if (N >= 2) { X t((bd::int64)m); agrees("from int64", t, Z(m)); t = x; t = (bd::int64)m; agrees("= int64", t, Z(m)); if (abs(a * m) < lim) agrees("times int64", x * (bd::int64)m, a * m); }
  { bd::extended_int<N + 8> t(x); agrees("widened", t, a); bd::extended_int<N + 8> u; u = x; agrees("= narrower", u, a); X v(t); agrees("narrowed", v, a); }
  { X t; t.add(x, y); if (abs(a + b) < lim) agrees("add", t, a + b); t.dif(x, y); if (abs(a - b) < lim) agrees("dif", t, a - b); t.mul(x, y); if (abs(a * b) < lim) agrees("mul", t, a * b); }
  { bd::efpt64 e = bd::type_converter_efpt()(x); CHECK(bd::is_zero(e) == (a == 0) && bd::is_pos(e) == (a > 0) && bd::is_neg(e) == (a < 0)); bd::efpt64 q = e / bd::efpt64(1.0, (int)(a == 0 ? 0 : msb(abs(a)))); R1 w(a); if (a != 0) w = mp::ldexp(w, -(int)msb(abs(a))); CHECK(mp::abs(R1(q.d()) - w) <= mp::abs(w) * mp::ldexp(R1(1), -52)); }
  s.nontrivial(da.size() >= 2 && db.size() >= 2);
}
// long chains of sums, differences and products
void chain(Src& s) {
  typedef bd::extended_int<64> X; std::vector<X> x; std::vector<Z> z; auto d = digits(s, 3); x.push_back(X(d)); z.push_back(val(d, true)); d = digits(s, 3); x.push_back(X(d, false)); z.push_back(val(d, false)); Z lim = Z(1) << 2000; int big = 0;
  for (int i = s.irange(2, 14); i-- > 0;) { size_t p = (size_t)s.draw(x.size()), q = (size_t)s.draw(x.size()); switch (s.irange(0, 3)) {
      case 0: x.push_back(x[p] + x[q]); z.push_back(z[p] + z[q]); break; case 1: x.push_back(x[p] - x[q]); z.push_back(z[p] - z[q]); break;
      case 2: if (abs(z[p] * z[q]) >= lim) continue; x.push_back(x[p] * x[q]); z.push_back(z[p] * z[q]); break;
      default: { int k = s.irange(-4, 4); x.push_back(x[p] * (bd::int32)k); z.push_back(z[p] * k); } }
    agrees("chain", x.back(), z.back()); if (abs(z.back()) > (Z(1) << 96)) ++big;
    for (size_t j = 0; j < x.size(); ++j) CHECKM((x[j] < x.back()) == (z[j] < z.back()) && (x[j] == x.back()) == (z[j] == z.back()), "comparison of " << z[j] << " and " << z.back()); }
  s.nontrivial(big >= 2);
}
double mant(Src& s) { switch (s.irange(0, 4)) { case 0: return 0; case 1: return s.irange(-8, 8); case 2: return std::ldexp(1.0, s.irange(-20, 20)) * (s.coin() ? 1 : -1); case 3: return std::ldexp((double)(ll)s.draw(1ull << 53), -s.irange(0, 53)) * (s.coin() ? 1 : -1); default: { ll b = 1ll << 52; return std::ldexp((double)(b + s.irange(-2, 2)), -s.irange(40, 60)) * (s.coin() ? 1 : -1); } } }
void efpt(Src& s) {
  typedef bd::efpt64 F; struct T { F f; R1 v; R1 err; }; std::vector<T> t;
  auto mk = [&]() { double m = mant(s); int e = s.chance(1, 2) ? s.irange(-60, 60) : (int)s.around(-20000, 20000); if (s.coin()) return T{F(m, e), mp::ldexp(R1(m), e), 0}; return T{F(m), R1(m), 0}; };
  t.push_back(mk()); t.push_back(mk()); int ops = 0; R1 EPS = mp::ldexp(R1(1), -53);
  auto check = [&](const char* what, const F& f, const R1& v) {   // one rounding
    CHECKM(bd::is_zero(f) == (v == 0) && bd::is_pos(f) == (v > 0) && bd::is_neg(f) == (v < 0) && f.is_zero() == (v == 0) && f.is_pos() == (v > 0) && f.is_neg() == (v < 0), what << ": sign of " << (double)(v > 0) - (double)(v < 0));
    if (v == 0) return R1(0); int e = (int)mp::ilogb(v); F g = e > 0 ? f / F(1.0, e) : f * F(1.0, -e); R1 got = mp::ldexp(R1(g.d()), e); CHECKM(mp::abs(got - v) <= mp::abs(v) * EPS * 2, what << " is " << g.d() << "*2^" << e << " instead of " << (double)mp::ldexp(v, -e) << "*2^" << e); if (e > -1000 && e < 1000) CHECK_EQ(f.d(), std::ldexp(g.d(), e)); return got; };
  for (int i = s.irange(2, 8); i-- > 0;) {
    T a = t[(size_t)s.draw(t.size())], b = s.chance(1, 4) ? mk() : t[(size_t)s.draw(t.size())]; F f(0.0); R1 v; const char* what; bool as = s.coin(); F g = a.f;
    switch (s.irange(0, 5)) {
      case 0: v = a.v + b.v; g += b.f; f = a.f + b.f; what = "sum"; break; case 1: v = a.v - b.v; g -= b.f; f = a.f - b.f; what = "difference"; break; case 2: v = a.v * b.v; g *= b.f; f = a.f * b.f; what = "product"; break;
      case 3: if (b.v == 0) continue; v = a.v / b.v; g /= b.f; f = a.f / b.f; what = "quotient"; break; case 4: v = -a.v; f = -a.f; g = f; what = "negation"; break;
      default: if (a.v < 0) { a.v = -a.v; a.f = -a.f; } v = mp::sqrt(a.v); f = s.coin() ? a.f.sqrt() : bd::get_sqrt(a.f); g = f; what = "square root"; }
    R1 r = check(what, as ? g : f, v); if (r != 0 && std::abs((int)mp::ilogb(r)) > 100000000) continue; t.push_back(T{as ? g : f, r, 0}); ++ops; }
  s.nontrivial(ops >= 2);
}
// robust_fpt: the real value of the expression lies within the stated relative error
void fpt(Src& s) {
  typedef bd::robust_fpt<double> F; struct T { F f; R1 v; }; std::vector<T> t; R1 EPS = mp::ldexp(R1(1), -53);
  auto mk = [&]() { double m = s.coin() ? mant(s) : (double)s.around(-(1LL << 53), 1LL << 53); if (s.coin()) { int e = s.irange(0, 5); R1 v(m); v *= 1 + EPS * e * s.irange(-4, 4) / 4; return T{F(m, (double)e), v}; } return T{F(m), R1(m)}; };
  t.push_back(mk()); t.push_back(mk()); t.push_back(mk()); int good = 0;
  for (int i = s.irange(1, 8); i-- > 0;) {
    T a = t[(size_t)s.draw(t.size())], b = t[(size_t)s.draw(t.size())]; F f, g = a.f; R1 v; const char* what;
    switch (s.irange(0, 5)) {
      case 0: v = a.v + b.v; f = a.f + b.f; g += b.f; what = "sum"; break; case 1: v = a.v - b.v; f = a.f - b.f; g -= b.f; what = "difference"; break; case 2: v = a.v * b.v; f = a.f * b.f; g *= b.f; what = "product"; break;
      case 3: if (b.f.fpv() == 0 || b.v == 0) continue; v = a.v / b.v; f = a.f / b.f; g /= b.f; what = "quotient"; break; case 4: v = -a.v; f = -a.f; g = f; what = "negation"; break;
      default: if (a.f.fpv() < 0) { a.f = -a.f; a.v = -a.v; } if (a.v < 0) continue; v = mp::sqrt(a.v); f = s.coin() ? a.f.sqrt() : bd::get_sqrt(a.f); g = f; what = "square root"; }
    if (std::isfinite(f.re()) && std::isfinite(f.fpv())) CHECKM(f.fpv() == g.fpv() && std::fabs(f.re() - g.re()) <= 1e-12 * std::fabs(f.re()), what << " and its assignment form differ");
    CHECK(bd::is_pos(f) == (f.fpv() > 0) && bd::is_neg(f) == (f.fpv() < 0) && bd::is_zero(f) == (f.fpv() == 0) && (f.ulp() == f.re() || f.re() != f.re()));
    if (!std::isfinite(f.re()) || !std::isfinite(f.fpv()) || f.fpv() == 0 || std::fabs(f.fpv()) < 1e-280 || std::fabs(f.fpv()) > 1e280 || f.re() > 1e9) continue;
    CHECKM(mp::abs(R1(f.fpv()) - v) <= R1(f.re()) * EPS * mp::abs(R1(f.fpv())) * (1 + 1e-5), what << " " << f.fpv() << " has error " << (double)(mp::abs(R1(f.fpv()) - v) / mp::abs(R1(f.fpv())) / EPS) << " EPS, stated " << f.re());
    t.push_back(T{f, v}); if (f.re() > 0) ++good; }
  s.nontrivial(good >= 2);
}
void dif(Src& s) {
  typedef bd::robust_dif<ll> D; ll v0 = s.around(-50, 50), v; D d = s.coin() ? D(v0) : D(std::max(v0, 0ll) + 7, std::max(-v0, 0ll) + 7); v = v0; { D e; CHECK(e.pos() == 0 && e.neg() == 0 && e.dif() == 0); } int ops = 0;
  for (int i = s.irange(1, 8); i-- > 0;) {
    ll k = s.around(-20, 20), w = s.around(-20, 20); D o = s.coin() ? D(w) : D(std::max(w, 0ll) + 3, std::max(-w, 0ll) + 3), b = d; ll vb = v; bool as = s.coin();
    if (d.pos() > (1ll << 40) || d.neg() > (1ll << 40)) break; ++ops;
    switch (s.irange(0, 10)) {
      case 0: v += w; if (as) d += o; else d = d + o; break; case 1: v -= w; if (as) d -= o; else d = d - o; break; case 2: v *= w; if (as) d *= o; else d = d * o; break;
      case 3: v += k; if (as) d += k; else d = s.coin() ? d + k : k + d; break; case 4: v -= k; if (as) d -= k; else d = d - k; break; case 5: v = k - v; d = k - d; break; case 6: v *= k; if (as) d *= k; else d = s.coin() ? d * k : k * d; break;
      case 7: v = -v; d = -d; break; case 8: v = w - v; d = o - d; break;
      default: { if (k == 0) k = 1; d *= (k < 0 ? -k : k); v *= (k < 0 ? -k : k); ll p = d.pos(), n = d.neg(); if (as) d /= k; else d = d / k; v /= k; } }
    CHECKM(d.pos() >= 0 && d.neg() >= 0, "parts " << d.pos() << " and " << d.neg() << " of a robust_dif"); CHECKM(d.dif() == v && d.pos() - d.neg() == v, "robust_dif is " << d.dif() << " instead of " << v << " (from " << vb << " k " << k << " w " << w << ")"); }
  s.nontrivial(ops >= 3);
}
double next(double v, ll n) { ll b; std::memcpy(&b, &v, 8); if (b < 0) b = (ll)(0x8000000000000000ull - (unsigned long long)b); b += n; if (b < 0) b = (ll)(0x8000000000000000ull - (unsigned long long)b); std::memcpy(&v, &b, 8); return v; }
void ulp(Src& s) {
  typedef bd::ulp_comparison<double> U; U u; double a = mant(s) * std::ldexp(1.0, (int)s.around(-1000, 900)); ll n = s.coin() ? s.around(-200, 200) : s.around(-(1ll << 50), 1ll << 50); double b = next(a, n); if (!std::isfinite(b)) return; if (s.chance(1, 10) && b == 0) b = -b; unsigned m = s.coin() ? (unsigned)(n < 0 ? -n : n) + (unsigned)s.irange(-1, 1) : (unsigned)s.draw(200); if (s.coin()) m &= 0x3ff;
  ll an = n < 0 ? -n : n; int want = an <= (ll)m ? U::EQUAL : n > 0 ? U::LESS : U::MORE; int got = u(a, b, m); CHECKM(got == want, "ulp_comparison(" << a << ", " << n << " ULPs above, " << m << ") is " << got);
  s.nontrivial(an == (ll)m || an == (ll)m + 1);
}
struct conv { bd::efpt64 operator()(const bd::extended_int<64>& e) const { return bd::type_converter_efpt()(e); } };
void roots(Src& s) {
  typedef bd::extended_int<64> X; int n = s.irange(1, 4); X A[4], B[4]; Z za[4], zb[4]; int mode = s.irange(0, 3);
  auto make = [&](const Z& z) { std::vector<uint32_t> d; for (Z t = abs(z); t != 0; t >>= 32) d.insert(d.begin(), (uint32_t)(t & 0xFFFFFFFFu)); return X(d, z >= 0); };
  auto rnd = [&](int bits) { int w = s.irange(0, bits); Z z = 0; for (int i = 0; i < w; i += 32) z = (z << 32) + (uint32_t)s.draw(1ull << 32); return Z(z & ((Z(1) << w) - 1)); };
  Z g = rnd(60) + 1;
  for (int i = 0; i < n; ++i) {
    za[i] = mode == 0 ? Z(s.irange(-10, 10)) : rnd(80); zb[i] = mode == 0 ? Z(s.irange(0, 20)) : rnd(100); if (mode && s.coin()) za[i] = -za[i];
    if (mode == 2) { Z k = rnd(20); zb[i] = g * k * k; za[i] = s.irange(-6, 6); }                                     // commensurable roots: exact cancellation
    if (mode == 3 && i) { za[i] = -za[i - 1]; zb[i] = zb[i - 1] + s.irange(-1, 1); if (zb[i] < 0) zb[i] = 0; }  // near cancellation
  }
  R v = 0; for (int i = 0; i < n; ++i) { A[i] = make(za[i]); B[i] = make(zb[i]); v += R(za[i]) * mp::sqrt(R(zb[i])); }
  R mx = 0; for (int i = 0; i < n; ++i) { R t = mp::abs(R(za[i])) * mp::sqrt(R(zb[i])); if (t > mx) mx = t; }
  if (mp::abs(v) <= mp::ldexp(mx, -2050)) v = 0;
  s.notef([&](std::ostream& o) { for (int i = 0; i < n; ++i) o << (i ? " + " : "") << za[i] << "*sqrt(" << zb[i] << ")"; });
  bd::robust_sqrt_expr<X, bd::efpt64, conv> ev; bd::efpt64 r = n == 1 ? ev.eval1(A, B) : n == 2 ? ev.eval2(A, B) : n == 3 ? ev.eval3(A, B) : ev.eval4(A, B); static const int ERR[] = {0, 4, 7, 16, 25};
  CHECKM(r.is_zero() == (v == 0) && r.is_pos() == (v > 0), "sign of the sum of " << n << " roots");
  if (v != 0) { int e = (int)mp::ilogb(v); bd::efpt64 q = r / bd::efpt64(1.0, e); R w = mp::ldexp(v, -e); R err = mp::abs(R(q.d()) - w) / mp::abs(w); CHECKM(err <= mp::ldexp(R(ERR[n]), -52), "sum of " << n << " roots is " << q.d() << " instead of " << (double)w << " times 2^" << e << ", relative error " << (double)mp::ldexp(err, 53) << " EPS"); }
  for (int i = 0; i < n; ++i) CHECK(val(A[i]) == za[i] && val(B[i]) == zb[i]);
  s.label("exact cancellation", n > 1 && v == 0 && mx != 0); s.label("near cancellation", v != 0 && mp::abs(v) < mp::ldexp(mx, -30)); s.nontrivial(n >= 2 && mx != 0);
}
typedef bd::voronoi_predicates<bd::voronoi_ctype_traits<bd::int32> > VP;
ll c32(Src& s) { switch (s.irange(0, 5)) { case 0: return 2147483647ll - s.irange(0, 3); case 1: return -2147483648ll + s.irange(0, 3); case 2: return s.irange(-4, 4); default: return s.range(-2147483648ll, 2147483647ll); } }
void orient(Src& s) {
  typedef VP::orientation_test OT; struct Pt { ll x_, y_; ll x() const { return x_; } ll y() const { return y_; } }; typedef bd::point_2d<bd::int32> PT;
  ll x[3], y[3]; for (int i = 0; i < 3; ++i) { x[i] = c32(s); y[i] = c32(s); }
  if (s.coin()) { ll dx = s.range(-(1 << 15), 1 << 15), dy = s.range(-(1 << 15), 1 << 15); x[0] = s.range(-(1 << 30), 1 << 30); y[0] = s.range(-(1 << 30), 1 << 30); ll k1 = s.range(-(1 << 14), 1 << 14), k2 = s.range(-(1 << 14), 1 << 14); x[1] = x[0] + dx * k1; y[1] = y[0] + dy * k1; x[2] = x[0] + dx * k2 + s.irange(-1, 1); y[2] = y[0] + dy * k2 + s.irange(-1, 1); }
  Z d1x = Z(x[0]) - x[1], d1y = Z(y[0]) - y[1], d2x = Z(x[1]) - x[2], d2y = Z(y[1]) - y[2], cr = d1x * d2y - d1y * d2x; int want = cr == 0 ? OT::COLLINEAR : cr < 0 ? OT::RIGHT : OT::LEFT;
  PT p[3]; for (int i = 0; i < 3; ++i) p[i] = PT((int)x[i], (int)y[i]); s.notef([&](std::ostream& o) { for (int i = 0; i < 3; ++i) o << " (" << x[i] << "," << y[i] << ")"; });
  CHECKM(OT::eval(p[0], p[1], p[2]) == want, "orientation is " << (int)OT::eval(p[0], p[1], p[2]) << " instead of " << want);
  CHECK(OT::eval((ll)d1x, (ll)d1y, (ll)d2x, (ll)d2y) == want);
  double r = VP::robust_cross_product((ll)d1x, (ll)d1y, (ll)d2x, (ll)d2y); CHECKM(OT::eval(r) == want && mp::abs(R1(r) - R1(cr)) <= mp::abs(R1(cr)) * mp::ldexp(R1(1), -52), "robust_cross_product is " << r << " instead of " << cr);
  VP::point_comparison_predicate<PT> lt; CHECK(lt(p[0], p[1]) == (x[0] != x[1] ? x[0] < x[1] : y[0] < y[1])); CHECK_EQ(p[0] == p[1], (x[0] == x[1] && y[0] == y[1])); CHECK_EQ(p[0] != p[1], !(p[0] == p[1]));
  s.nontrivial(abs(cr) < (Z(1) << 40));
}
}
PBT_TARGET(extended_int_64, 40000, 1000000) { ints<64>(s, 20); }
PBT_TARGET(extended_int_small, 60000, 1000000) { switch (s.irange(0, 2)) { case 0: ints<2>(s, 2); break; case 1: ints<4>(s, 4); break; default: ints<7>(s, 6); } }
PBT_TARGET(extended_int_chains, 20000, 600000) { chain(s); }
PBT_TARGET(extended_exponent, 40000, 1000000) { efpt(s); }
PBT_TARGET(robust_fpt, 40000, 1000000) { fpt(s); }
PBT_TARGET(robust_dif, 200000, 1000000) { dif(s); }
PBT_TARGET(ulp_comparison, 200000, 1000000) { ulp(s); }
PBT_TARGET(robust_sqrt_expr, 20000, 500000) { roots(s); }
PBT_TARGET(orientation, 200000, 2000000) { orient(s); }
