// Small property-based-testing engine: choice-sequence generators, forked
// workers, integrated shrinking, replay files.  See DESIGN.md, "Engine".
//
// A target is a function of a choice source (pbt::Src).  Every random decision
// of a case is one draw() from the source, so a case *is* the sequence of its
// draws; shrinking and replay operate on that sequence, never on an RNG.
#ifndef VERIF_PBT_HPP
#define VERIF_PBT_HPP
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include <type_traits>

namespace pbt {

struct Failure { std::string msg; };

inline uint64_t mix64(uint64_t z) {
  z += 0x9e3779b97f4a7c15ull;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}

class Src {
 public:
  // random mode
  explicit Src(uint64_t seed) : replay_(false), verbose(false), nontrivial_(false), st_(seed) {}
  // replay mode: choices beyond the end read as 0, the simplest choice
  explicit Src(const std::vector<uint64_t>& c) : replay_(true), verbose(false), nontrivial_(false), st_(0), ch_(c) {}

  // uniform in [0,n); n==0 means the full 64 bit range
  uint64_t draw(uint64_t n) {
    if (n == 1) return 0;
    uint64_t v;
    if (replay_) {
      v = pos_ < ch_.size() ? ch_[pos_] : 0;
      ++pos_;
#ifdef PBT_LIBFUZZER
      if (n && v >= n) v %= n;  // fuzzer bytes: every value means something
#else
      if (n && v >= n) v = n - 1;
#endif
    } else {
      st_ += 0x9e3779b97f4a7c15ull;
      v = mix64(st_);
      if (n) v = (uint64_t)(((unsigned __int128)v * n) >> 64);
    }
    used_.push_back(v);
    if (rec && used_.size() < rec_cap) { rec[used_.size()] = v; rec[0] = used_.size(); }
    return v;
  }
  // [lo,hi]; shrinks towards lo
  long long range(long long lo, long long hi) {
    if (hi <= lo) return lo;
    uint64_t span = (uint64_t)hi - (uint64_t)lo;
    return (long long)((uint64_t)lo + draw(span == ~0ull ? 0 : span + 1));
  }
  int irange(int lo, int hi) { return (int)range(lo, hi); }
  // [lo,hi] shrinking towards 0 when 0 is inside: 0,1,-1,2,-2,...
  long long around(long long lo, long long hi) {
    if (lo > 0 || hi < 0) return range(lo, hi);
    uint64_t span = (uint64_t)hi - (uint64_t)lo;
    uint64_t v = draw(span == ~0ull ? 0 : span + 1);
    uint64_t neg = (uint64_t)0 - (uint64_t)lo, pos = (uint64_t)hi;
    uint64_t m = neg < pos ? neg : pos;
    if (v == 0) return 0;
    uint64_t k = (v + 1) / 2;
    if (v <= 2 * m) return (v & 1) ? (long long)k : -(long long)k;
    uint64_t rest = v - 2 * m;
    return pos > neg ? (long long)(m + rest) : -(long long)(m + rest);
  }
  bool coin() { return draw(2) != 0; }
  // true with probability num/den, shrinks to false
  bool chance(unsigned num, unsigned den) { return draw(den) >= den - num; }
  // small counts: geometric-like in [lo,hi], biased to small
  int count(int lo, int hi) {
    int span = hi - lo;
    if (span <= 0) return lo;
    int k = irange(0, 2);
    int cap = k == 0 ? (span + 3) / 4 : k == 1 ? (span + 1) / 2 : span;
    return lo + irange(0, cap);
  }
  template <class T> const T& pick(const std::vector<T>& v) { return v[(size_t)draw(v.size())]; }
  int weighted(std::initializer_list<int> w) {
    int tot = 0; for (int x : w) tot += x;
    int r = (int)draw(tot), i = 0;
    for (int x : w) { if (r < x) return i; r -= x; ++i; }
    return i - 1;
  }
  // Non-triviality, labels, description
  void nontrivial(bool b = true) { if (b) nontrivial_ = true; }
  void label(const char* l) { labels_[l] = 1; }
  void label(const std::string& l, bool cond = true) { if (cond) labels_[l] = 1; }
  void note(const std::string& s) { if (verbose) { notes_ += s; notes_ += '\n'; if (live) { fputs((s + "\n").c_str(), stderr); } } }
  template <class F> void notef(F f) { if (verbose) { std::ostringstream o; f(o); note(o.str()); } }

  const std::vector<uint64_t>& used() const { return used_; }
  bool is_nontrivial() const { return nontrivial_; }
  const std::map<std::string, int>& labels() const { return labels_; }
  const std::string& notes() const { return notes_; }
  uint64_t hash() const {
    uint64_t h = 0x1234;
    for (uint64_t v : used_) h = mix64(h ^ v);
    return h;
  }
 private:
  bool replay_;
 public:
  bool verbose;
  bool live = false;  // print notes at once (replay of crashes)
  // crash-proof recording of the choices (shared memory), set by the driver
  uint64_t* rec = 0;
  size_t rec_cap = 0;
 private:
  bool nontrivial_;
  uint64_t st_;
  std::vector<uint64_t> ch_;
  size_t pos_ = 0;
  std::vector<uint64_t> used_;
  std::map<std::string, int> labels_;
  std::string notes_;
};

typedef void (*TargetFn)(Src&);
struct Target {
  const char* name;
  TargetFn fn;
  long quick;    // cases, quick tier
  long thorough; // cases, thorough tier
};
std::vector<Target>& registry();
struct Reg { Reg(const char* n, TargetFn f, long q, long t) { registry().push_back(Target{n, f, q, t}); } };

// A known finding: a fixed input that fails on the unchanged tree.  Run with
// --known; never part of the search.
struct Known { const char* name; void (*fn)(); };
std::vector<Known>& known_registry();
struct KReg { KReg(const char* n, void (*f)()) { known_registry().push_back(Known{n, f}); } };

inline void fail(const std::string& m) { throw Failure{m}; }

template <class T> struct is_pairlike : std::false_type {};
}  // namespace pbt

#ifndef PBT_PREFIX  // lets one property rerun the targets of another
#define PBT_PREFIX ""
#define PBT_DIV 1
#endif
#define PBT_TARGET(NAME, QUICK, THOROUGH)                                   \
  static void pbt_t_##NAME(pbt::Src& s);                                    \
  static pbt::Reg pbt_r_##NAME(PBT_PREFIX #NAME, &pbt_t_##NAME, (QUICK) / PBT_DIV, (THOROUGH) / PBT_DIV); \
  static void pbt_t_##NAME(pbt::Src& s)

#define PBT_KNOWN(NAME)                                                     \
  static void pbt_k_##NAME();                                               \
  static pbt::KReg pbt_kr_##NAME(#NAME, &pbt_k_##NAME);                     \
  static void pbt_k_##NAME()

#define PBT_STR2(x) #x
#define PBT_STR(x) PBT_STR2(x)
#define CHECK(cond) do { if (!(cond)) pbt::fail(std::string("check failed: " #cond " at " __FILE__ ":" PBT_STR(__LINE__))); } while (0)
#define CHECKM(cond, streamexpr) do { if (!(cond)) { std::ostringstream pbt_o_; pbt_o_ << "check failed: " #cond " at " __FILE__ ":" PBT_STR(__LINE__) ": " << streamexpr; pbt::fail(pbt_o_.str()); } } while (0)
#define CHECK_EQ(a, b) do { auto pbt_a_ = (a); auto pbt_b_ = (b); if (!(pbt_a_ == pbt_b_)) { std::ostringstream pbt_o_; pbt_o_ << "check failed: " #a " == " #b " at " __FILE__ ":" PBT_STR(__LINE__) ": got " << pbt_a_ << ", expected " << pbt_b_; pbt::fail(pbt_o_.str()); } } while (0)

#endif
