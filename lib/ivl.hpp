// Interval model on wide integers, shared by the interval and rectangle checks.
#ifndef VERIF_IVL_HPP
#define VERIF_IVL_HPP
#include "pbt.hpp"
#include <boost/polygon/polygon.hpp>
#include <climits>
#include <algorithm>
namespace bp = boost::polygon;
using pbt::Src; typedef long long ll; typedef __int128 W;
namespace {
// a user model that counts construction order and keeps its ends in other members
template <class T> struct Own { T from, to; };
struct Ivl { W l, h; };
std::ostream& operator<<(std::ostream& o, const Ivl& v) { return o << "[" << (ll)v.l << "," << (ll)v.h << "]"; }
template <class T> struct Kind;  // model units per coordinate unit and the range of generated coordinates
template <> struct Kind<int> { static const int unit = 1; static const bool real = false; static W lo() { return INT_MIN; } static W hi() { return INT_MAX; } static const char* name() { return "int"; } };
template <> struct Kind<ll> { static const int unit = 1; static const bool real = false; static W lo() { return -(1LL << 61); } static W hi() { return 1LL << 61; } static const char* name() { return "long long"; } };
template <> struct Kind<double> { static const int unit = 4; static const bool real = true; static W lo() { return -(1LL << 48); } static W hi() { return 1LL << 48; } static const char* name() { return "double"; } };
template <> struct Kind<float> { static const int unit = 4; static const bool real = true; static W lo() { return -(1 << 18); } static W hi() { return 1 << 18; } static const char* name() { return "float"; } };
template <class T> T un(W v) { return (T)v / (T)Kind<T>::unit; }
template <> int un<int>(W v) { return (int)v; }
template <> ll un<ll>(W v) { return (ll)v; }
template <class T> W re(T v) { return (W)(v * Kind<T>::unit); }
template <> W re<int>(int v) { return v; }
template <> W re<ll>(ll v) { return v; }
template <class T> W red(ll v) { return v; }
template <class T> bool fits(W v) { return v >= Kind<T>::lo() && v <= Kind<T>::hi(); }
template <class T> bool fits(const Ivl& v) { return fits<T>(v.l) && fits<T>(v.h); }
}
namespace boost { namespace polygon {
template <class T> struct geometry_concept<Own<T> > { typedef interval_concept type; };
template <class T> struct interval_traits<Own<T> > { typedef T coordinate_type; static T get(const Own<T>& i, direction_1d d) { return d == HIGH ? i.to : i.from; } };
template <class T> struct interval_mutable_traits<Own<T> > { typedef T coordinate_type; static void set(Own<T>& i, direction_1d d, T v) { if (d == HIGH) i.to = v; else i.from = v; } static Own<T> construct(T l, T h) { Own<T> r = {l, h}; return r; } };
} }
namespace {
template <class T> W coord(Src& s, int mode) {
  W v; switch (mode) {
    case 0: v = s.around(-4, 4); break;
    case 1: v = s.around(-100, 100); break;
    case 2: v = s.around((ll)Kind<T>::lo(), (ll)Kind<T>::hi()); break;
    default: switch (s.irange(0, 3)) { case 0: v = s.around(-2, 2); break; case 1: v = Kind<T>::lo() + s.range(0, 2); break; case 2: v = Kind<T>::hi() - s.range(0, 2); break; default: v = (Kind<T>::hi() / 2) + s.around(-2, 2); } }
  if (Kind<T>::real) v = v * 2; if (!fits<T>(v)) v = v / 2 / 2 * 2; return v;
}
template <class T> Ivl ivl(Src& s, int mode) { W a = coord<T>(s, mode), b = s.chance(1, 6) ? a : coord<T>(s, mode); return Ivl{std::min(a, b), std::max(a, b)}; }
bool operator==(const Ivl& a, const Ivl& b) { return a.l == b.l && a.h == b.h; }
bool operator!=(const Ivl& a, const Ivl& b) { return !(a == b); }
}
#endif
