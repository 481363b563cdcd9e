// Driver of the PBT engine: forked workers, crash/hang detection, shrinking,
// replay, statistics.  With -DPBT_LIBFUZZER the same targets become a
// libFuzzer target (bytes -> choice sequence).
#include "pbt.hpp"
#include <algorithm>
#include <unordered_set>
#include <csignal>
#include <ctime>
#include <fstream>
#include <iostream>
#include <new>
#include <exception>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>

namespace pbt {
std::vector<Target>& registry() { static std::vector<Target> r; return r; }

std::vector<Known>& known_registry() { static std::vector<Known> r; return r; }

static uint64_t strhash(const char* s) { uint64_t h = 7; for (; *s; ++s) h = mix64(h ^ (unsigned char)*s); return h; }

static bool run_one(const Target& t, Src& s, std::string& msg) {
  try { t.fn(s); return true; }
  catch (const Failure& f) { msg = f.msg; }
  catch (const std::exception& e) { msg = std::string("uncaught exception: ") + e.what(); }
  catch (const char* e) { msg = std::string("uncaught exception: ") + e; }
  catch (const std::string& e) { msg = std::string("uncaught exception: ") + e; }
  catch (...) { msg = "uncaught exception of unknown type"; }
  return false;
}
}  // namespace pbt

using namespace pbt;

#ifdef PBT_LIBFUZZER
static const Target* g_t = 0;
extern "C" int LLVMFuzzerInitialize(int*, char***) {
  if (getenv("PBT_LIST")) { for (auto& t : registry()) printf("%s\n", t.name); exit(0); }
  const char* n = getenv("PBT_TARGET_NAME");
  for (auto& t : registry()) if (!n || !strcmp(n, t.name)) { g_t = &t; break; }
  if (!g_t) { fprintf(stderr, "no target\n"); exit(2); }
  if (const char* dir = getenv("PBT_SEED_CORPUS")) {  // the initial corpus: random cases that are not trivial
    uint64_t seed = strtoull(getenv("PBT_SEED"), 0, 10); int want = 300;
    for (long i = 0; i < 3000 && want > 0; ++i) {
      Src s(mix64(mix64(seed * 0x100000001b3ull ^ strhash(g_t->name)) + 77 + (uint64_t)i)); std::string msg;
      if (!run_one(*g_t, s, msg) || !s.is_nontrivial()) continue;
      --want; std::ofstream f(std::string(dir) + "/s" + std::to_string(i), std::ios::binary);
      for (uint64_t v : s.used()) {
        if (v < 192) { f.put((char)v); continue; }
        int k = 1; while (k < 8 && (v >> (8 * k))) ++k;
        f.put((char)(191 + k)); for (int j = 0; j < k; ++j) f.put((char)(v >> (8 * j)));
      }
    }
    exit(0);
  }
  return 0;
}
// Each choice is encoded as a variable length number: 1 byte <192, otherwise
// (b-192)%8+1 following bytes, little endian.
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* d, size_t n) {
  std::vector<uint64_t> c;
  for (size_t i = 0; i < n;) {
    uint8_t b = d[i++];
    if (b < 192) { c.push_back(b); continue; }
    unsigned k = (b - 192) % 8 + 1; uint64_t v = 0;
    for (unsigned j = 0; j < k && i < n; ++j) v |= (uint64_t)d[i++] << (8 * j);
    c.push_back(v);
  }
  Src s(c);
  std::string msg;
  static uint64_t* rec = 0; static const size_t CAP = 1 << 16;
  if (!rec) if (const char* out = getenv("PBT_CHOICES_OUT")) {  // the choices as taken, also when the case crashes or hangs
    int fd = open(out, O_RDWR | O_CREAT | O_TRUNC, 0600); if (fd < 0 || ftruncate(fd, CAP * 8)) exit(2);
    rec = (uint64_t*)mmap(0, CAP * 8, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  }
  if (rec) { rec[0] = 0; s.rec = rec; s.rec_cap = CAP; }
  if (!run_one(*g_t, s, msg)) {
    fprintf(stderr, "PBT-FAILURE %s\n", msg.c_str());
    __builtin_trap();
  }
  return 0;
}
#else

struct Shared {
  volatile int target;
  volatile long index;
  volatile int failed;
  volatile long done;
  char msg[4096];
};

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
static double g_cpu_limit = 60;

static void arm(double secs) {
  itimerval v; memset(&v, 0, sizeof v);
  v.it_value.tv_sec = (long)secs; v.it_value.tv_usec = (long)((secs - (long)secs) * 1e6);
  setitimer(ITIMER_VIRTUAL, &v, 0);
}

static uint64_t case_seed(const Target& t, uint64_t seed, long i) {
  return mix64(mix64(seed * 0x100000001b3ull ^ strhash(t.name)) + (uint64_t)i * 0xd1342543de82ef95ull);
}

struct Outcome { bool ok; std::string msg; std::vector<uint64_t> used; std::string notes; };

static void limits() {
#if !defined(__SANITIZE_ADDRESS__) && !(defined(__has_feature))
  rlimit r; r.rlim_cur = r.rlim_max = 6ull << 30; setrlimit(RLIMIT_AS, &r);
#endif
  rlimit c; c.rlim_cur = c.rlim_max = 0; setrlimit(RLIMIT_CORE, &c);
}

static std::string sigdesc(int st) {
  if (WIFSIGNALED(st)) {
    int sg = WTERMSIG(st);
    if (sg == SIGVTALRM) return "no termination: CPU limit per case exceeded";
    return std::string("killed by signal ") + std::to_string(sg) + " (" + strsignal(sg) + ")";
  }
  return "exit status " + std::to_string(WEXITSTATUS(st));
}

// run one case in a child
static Outcome run_child(const Target& t, Src proto, bool verbose, double cpu, const char* errfile = "/dev/null") {
  int p[2];
  static const size_t CAP = 1 << 20;
  static uint64_t* rec = (uint64_t*)mmap(0, CAP * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  rec[0] = 0;
  Outcome o; o.ok = false;
  if (pipe(p)) { perror("pipe"); exit(2); }
  fflush(stdout); fflush(stderr);
  pid_t pid = fork();
  if (pid < 0) { perror("fork"); exit(2); }
  if (pid == 0) {
    close(p[0]);
    int e = open(errfile, O_WRONLY | O_CREAT | O_TRUNC, 0644); if (e >= 0) { dup2(e, 2); dup2(e, 1); }
    limits();
    proto.verbose = verbose; proto.live = verbose && strcmp(errfile, "/dev/stderr") == 0; proto.rec = rec; proto.rec_cap = CAP;
    arm(cpu);
    std::string msg;
    bool ok = run_one(t, proto, msg);
    std::ostringstream out;
    out << (ok ? 1 : 0) << ' ' << proto.used().size();
    for (auto v : proto.used()) out << ' ' << v;
    out << ' ' << msg.size() << '\n' << msg << proto.notes();
    std::string str = out.str();
    size_t off = 0;
    while (off < str.size()) { ssize_t k = write(p[1], str.data() + off, str.size() - off); if (k <= 0) break; off += k; }
    _exit(0);
  }
  close(p[1]);
  std::string buf; char tmp[65536]; ssize_t k;
  while ((k = read(p[0], tmp, sizeof tmp)) > 0) buf.append(tmp, k);
  close(p[0]);
  int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  if (!WIFEXITED(st) || WEXITSTATUS(st) != 0 || buf.empty()) { o.ok = false; o.msg = sigdesc(st); o.used.assign(rec + 1, rec + 1 + rec[0]); return o; }
  std::istringstream in(buf);
  int ok; size_t n, ml; in >> ok >> n; o.used.resize(n); for (auto& v : o.used) in >> v;
  in >> ml; in.get();
  o.msg.resize(ml); if (ml) in.read(&o.msg[0], ml);
  std::ostringstream rest; rest << in.rdbuf(); o.notes = rest.str();
  o.ok = ok != 0;
  return o;
}

// shrink a failing choice sequence
static std::vector<uint64_t> shrink(const Target& t, std::vector<uint64_t> c, double budget, bool slow, long& attempts) {
  double end = now() + budget;
  double cpu = slow ? 3 : g_cpu_limit;
  auto fails = [&](const std::vector<uint64_t>& x, std::vector<uint64_t>& canon) -> bool {
    ++attempts;
    Outcome o = run_child(t, Src(x), false, cpu);
    canon = o.used.empty() ? x : o.used;
    while (!canon.empty() && canon.back() == 0) canon.pop_back();
    return !o.ok;
  };
  std::vector<uint64_t> canon;
  bool improved = true;
  auto better = [](const std::vector<uint64_t>& a, const std::vector<uint64_t>& b) {
    if (a.size() != b.size()) return a.size() < b.size();
    return std::lexicographical_compare(a.begin(), a.end(), b.begin(), b.end());
  };
  while (improved && now() < end) {
    improved = false;
    // delete chunks
    for (size_t len : {64u, 32u, 16u, 8u, 6u, 4u, 3u, 2u, 1u}) {
      if (len > c.size()) continue;
      for (size_t i = c.size() - len + 1; i-- > 0;) {
        if (now() > end) return c;
        if (i + len > c.size()) continue;
        std::vector<uint64_t> d(c);
        d.erase(d.begin() + i, d.begin() + i + len);
        if (fails(d, canon) ) {
          if (better(canon, c)) { c = canon; improved = true; }
          continue;
        }
        // also: delete and decrement the preceding count-like choice
        for (size_t back = 1; back <= 3 && back <= i; ++back) if (d[i - back] > 0 && d[i - back] < 64) {
          std::vector<uint64_t> e(d); e[i - back]--;
          if (now() > end) return c;
          if (fails(e, canon)) { if (better(canon, c)) { c = canon; improved = true; } break; }
        }
      }
    }
    // zero and lower values
    for (size_t i = 0; i < c.size(); ++i) {
      if (c[i] == 0) continue;
      if (now() > end) return c;
      std::vector<uint64_t> d(c); d[i] = 0;
      if (fails(d, canon) && better(canon, c)) { c = canon; improved = true; continue; }
      uint64_t lo = 0, hi = i < c.size() ? c[i] : 0;
      while (i < c.size() && lo + 1 < hi && now() < end) {
        uint64_t mid = lo + (hi - lo) / 2;
        d = c; d[i] = mid;
        if (fails(d, canon) && better(canon, c)) { c = canon; improved = true; hi = mid; } else lo = mid;
      }
      for (uint64_t k = 1; k <= 2 && i < c.size(); ++k) if (c[i] >= k && now() < end) {
        d = c; d[i] -= k;
        if (fails(d, canon) && better(canon, c)) { c = canon; improved = true; }
      }
    }
  }
  return c;
}

static std::string jesc(const std::string& s) {
  std::string o; char b[8];
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
    else if (ch == '\n') o += "\\n";
    else if (ch < 32 || ch > 126) { snprintf(b, sizeof b, "\\u%04x", ch); o += b; }
    else o += ch;
  }
  return o;
}

static bool load_replay(const std::string& f, std::string& target, std::vector<uint64_t>& c) {
  std::ifstream in(f); std::string line; bool have = false;
  while (std::getline(in, line)) {
    std::istringstream l(line); std::string k; l >> k;
    if (k == "target") l >> target;
    else if (k == "choices") { uint64_t v; while (l >> v) c.push_back(v); have = true; }
  }
  return have && !target.empty();
}
static const Target* find_target(const std::string& n) { for (auto& t : registry()) if (n == t.name) return &t; return 0; }

int main(int argc, char** argv) {
  uint64_t seed = 1; bool thorough = false; int jobs = 8; std::string stats, out = "out", replay, only, prop = "X";
  double wall = 500, scale = 1; bool list = false, known = false;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto nx = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--seed") seed = strtoull(nx().c_str(), 0, 10);
    else if (a == "--thorough") thorough = true;
    else if (a == "--jobs") jobs = atoi(nx().c_str());
    else if (a == "--stats") stats = nx();
    else if (a == "--outdir") out = nx();
    else if (a == "--replay") replay = nx();
    else if (a == "--only") only = nx();
    else if (a == "--prop") prop = nx();
    else if (a == "--wall") wall = atof(nx().c_str());
    else if (a == "--scale") scale = atof(nx().c_str());
    else if (a == "--cpu") g_cpu_limit = atof(nx().c_str());
    else if (a == "--list") list = true;
    else if (a == "--known") known = true;
    else { fprintf(stderr, "bad arg %s\n", a.c_str()); return 2; }
  }
  std::sort(registry().begin(), registry().end(), [](const Target& a, const Target& b) { return strcmp(a.name, b.name) < 0; });
  if (list) { for (auto& t : registry()) printf("%s\n", t.name); return 0; }
  if (known) {  // one line per known finding: STILL or GONE
    for (auto& k : known_registry()) {
      fflush(stdout);
      pid_t pid = fork();
      if (pid == 0) {
        int e = open("/dev/null", O_WRONLY); dup2(e, 2); dup2(e, 1); limits(); arm(20);
        try { k.fn(); } catch (...) { _exit(1); }
        _exit(0);
      }
      int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
      printf("%s %s\n", WIFEXITED(st) && WEXITSTATUS(st) == 0 ? "GONE" : "STILL", k.name);
    }
    return 0;
  }
  if (!replay.empty()) {
    std::string tn; std::vector<uint64_t> c;
    if (!load_replay(replay, tn, c)) { fprintf(stderr, "cannot read %s\n", replay.c_str()); return 2; }
    const Target* t = find_target(tn);
    if (!t) { fprintf(stderr, "unknown target %s\n", tn.c_str()); return 2; }
    Outcome o = run_child(*t, Src(c), true, g_cpu_limit, "/dev/stderr");
    if (o.ok) { printf("PASS %s\n", tn.c_str()); return 0; }
    printf("FAIL %s: %s\n", tn.c_str(), o.msg.c_str());
    return 1;
  }
  std::vector<Target> ts;
  for (auto& t : registry()) if (only.empty() || only == t.name) ts.push_back(t);
  if (ts.empty()) { fprintf(stderr, "no targets\n"); return 2; }
  double t0 = now();
  std::string tmpdir = out + "/tmp." + prop + "." + std::to_string(getpid());
  if (system(("mkdir -p " + tmpdir).c_str())) return 2;

  Shared* sh = (Shared*)mmap(0, sizeof(Shared) * jobs, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  memset((void*)sh, 0, sizeof(Shared) * jobs);
  fflush(stdout);
  std::vector<pid_t> pids(jobs);
  int gen = 0;
  auto spawn = [&](int w, size_t startk, long starti) {
    int g = gen++;
    pid_t pid = fork();
    if (pid != 0) return pid;
    int e = open((tmpdir + "/err." + std::to_string(w)).c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if (e >= 0) { dup2(e, 2); dup2(e, 1); }
    limits();
    std::ofstream f(tmpdir + "/w." + std::to_string(g));
    std::map<std::string, long> labels;
    for (size_t k = startk; k < ts.size(); ++k) {
      long n = (long)((thorough ? ts[k].thorough : ts[k].quick) * scale), ev = 0, nt = 0; if (n < 1) n = 1;
      std::unordered_set<uint64_t> hs; std::vector<std::string> samples; labels.clear();
      bool cut = false;
      for (long i = (k == startk && starti >= 0) ? starti : w; i < n; i += jobs) {
        if ((ev & 15) == 0 && now() - t0 > wall) { cut = true; break; }
        Src s(case_seed(ts[k], seed, i));
        sh[w].target = (int)k; sh[w].index = i;
        if (samples.size() < 1) s.verbose = true;
        arm(g_cpu_limit);
        std::string msg;
        bool ok = run_one(ts[k], s, msg);
        if (!ok) {
          snprintf(sh[w].msg, sizeof sh[w].msg, "%s", msg.c_str());
          sh[w].failed = 1; _exit(3);
        }
        ++ev; sh[w].done = sh[w].done + 1;
        if (s.is_nontrivial()) {
          ++nt;
          if (hs.size() < 400000) hs.insert(s.hash());
          if (s.verbose && samples.size() < 1) samples.push_back(s.notes().substr(0, 1500));
        }
        for (auto& l : s.labels()) labels[l.first]++;
      }
      arm(0);
      f << "T " << ts[k].name << ' ' << ev << ' ' << nt << ' ' << (cut ? 1 : 0) << "\n";
      for (auto h : hs) f << "H " << h << "\n";
      for (auto& l : labels) f << "L " << l.second << ' ' << l.first << "\n";
      for (auto& s : samples) f << "S " << jesc(s) << "\n";
    }
    f.close();
    _exit(0);
  };
  for (int w = 0; w < jobs; ++w) pids[w] = spawn(w, 0, -1);
  int bad = -1; std::string badmsg; int left = jobs, unconfirmed = 0;
  while (left > 0) {
    int st; pid_t p = waitpid(-1, &st, 0);
    if (p < 0) { if (errno == EINTR) continue; break; }
    int w = std::find(pids.begin(), pids.end(), p) - pids.begin();
    if (w >= jobs) continue;
    pids[w] = -1; --left;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
    badmsg = sh[w].failed ? std::string(sh[w].msg) : sigdesc(st);
    // confirm: the case must fail three times out of three when re-run alone
    const Target& t = ts[sh[w].target]; long idx = sh[w].index;
    int conf = 0;
    while (conf < 3 && !run_child(t, Src(case_seed(t, seed, idx)), false, g_cpu_limit).ok) ++conf;
    if (conf == 3) {
      bad = w;
      for (auto q : pids) if (q > 0) kill(q, SIGKILL);
      while (waitpid(-1, &st, 0) > 0) {}
      break;
    }
    printf("note: failure of target %s case %ld did not reproduce, ignored: %s\n", t.name, idx, badmsg.c_str());
    if (++unconfirmed > 20) continue;
    sh[w].failed = 0;
    fflush(stdout);
    pids[w] = spawn(w, sh[w].target, idx + jobs); ++left;
  }
  struct TS { long ev = 0, nt = 0; int cut = 0; std::map<std::string, long> lab; std::vector<std::string> samp; size_t distinct = 0; };
  std::map<std::string, TS> agg; long EV = 0, NT = 0, DI = 0; bool cut = false;
  {
    std::map<std::string, std::unordered_set<uint64_t>> hs;
    for (int w = 0; w < gen; ++w) {
      std::ifstream f(tmpdir + "/w." + std::to_string(w)); std::string line, cur;
      while (std::getline(f, line)) {
        std::istringstream l(line); char c; l >> c;
        if (c == 'T') { long a, b; int d; l >> cur >> a >> b >> d; agg[cur].ev += a; agg[cur].nt += b; agg[cur].cut |= d; }
        else if (c == 'H') { uint64_t h; l >> h; hs[cur].insert(h); }
        else if (c == 'L') { long n; std::string r; l >> n; l.get(); std::getline(l, r); agg[cur].lab[r] += n; }
        else if (c == 'S') { if (agg[cur].samp.size() < 2) agg[cur].samp.push_back(line.substr(2)); }
      }
    }
    for (auto& a : agg) { a.second.distinct = hs[a.first].size(); }
    if (bad >= 0) for (int w = 0; w < jobs; ++w) EV += sh[w].done; else for (auto& a : agg) EV += a.second.ev;
    for (auto& a : agg) { NT += a.second.nt; DI += a.second.distinct; cut |= a.second.cut != 0; }
  }
  int rc = 0; std::string rfile, vmsg;
  if (bad >= 0) {
    const Target& t = ts[sh[bad].target]; long idx = sh[bad].index;
    Outcome o = run_child(t, Src(case_seed(t, seed, idx)), false, g_cpu_limit);
    std::vector<uint64_t> ch = o.used;
    {
      long attempts = 0;
      rfile = out + "/" + prop + "." + t.name + ".replay";
      bool slow = o.msg.find("no termination") != std::string::npos;
      ch = shrink(t, ch, getenv("PBT_NOSHRINK") ? 0 : thorough ? 120 : 40, slow, attempts);
      std::ofstream rf(rfile);
      rf << "# property " << prop << " seed " << seed << " case " << idx << "\n";
      rf << "target " << t.name << "\n";
      Outcome q = run_child(t, Src(ch), true, g_cpu_limit);
      vmsg = q.ok ? badmsg : q.msg;
      rf << "choices"; for (auto v : ch) rf << ' ' << v; rf << "\n";
      std::istringstream nn(q.notes); std::string nl; while (std::getline(nn, nl)) rf << "# " << nl << "\n";
      std::istringstream mm(vmsg); std::string l; while (std::getline(mm, l)) rf << "# message: " << l << "\n";
      rf << "# shrink attempts " << attempts << "\n";
      rf.close();
      std::cout << "target " << t.name << " case " << idx << ": " << vmsg << "\n";
      std::ifstream rr(rfile); std::cout << rr.rdbuf();
      std::cout << "VIOLATION property=" << prop << " replay=" << rfile << std::endl;
      rc = 1;
    }
  }
  if (!stats.empty()) {
    std::ofstream f(stats);
    f << "{\"evaluations\":" << EV << ",\"nontrivial\":" << NT << ",\"distinct_nontrivial\":" << DI << ",\"cut\":" << (cut ? "true" : "false")
      << ",\"violations\":" << rc << ",\"wall_s\":" << now() - t0 << ",\"targets\":{";
    bool c1 = false;
    for (auto& a : agg) {
      f << (c1 ? "," : "") << "\"" << a.first << "\":{\"evaluations\":" << a.second.ev << ",\"nontrivial\":" << a.second.nt << ",\"distinct_nontrivial\":" << a.second.distinct << ",\"labels\":{";
      c1 = true; bool c2 = false;
      for (auto& l : a.second.lab) { f << (c2 ? "," : "") << "\"" << jesc(l.first) << "\":" << l.second; c2 = true; }
      f << "},\"samples\":["; c2 = false;
      for (auto& s : a.second.samp) { f << (c2 ? "," : "") << "\"" << s << "\""; c2 = true; }
      f << "]}";
    }
    f << "}}\n";
  }
  if (system(("rm -rf " + tmpdir).c_str())) {}
  return rc;
}
#endif
