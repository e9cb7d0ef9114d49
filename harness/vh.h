// Common machinery of the runtime monitors: seeded cases, verdict recording,
// coverage counting, crash attribution and watchdogs.
//
// A harness is a list of families.  A family is a function run on many cases; case
// (seed, family, index) determines every random choice, so any case can be replayed
// alone.  A case may record violations (fail), events the monitor observed (count),
// and the structural signature of what it exercised (sig).
#ifndef VH_H_
#define VH_H_

#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>

#include <algorithm>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <limits>
#include <map>
#include <mutex>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>

namespace vh {

inline uint64_t Mix(uint64_t x) {
  x += 0x9e3779b97f4a7c15ull;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
  return x ^ (x >> 31);
}
inline uint64_t HashStr(const std::string& s) {
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
  return Mix(h);
}
inline uint64_t Combine(uint64_t a, uint64_t b) { return Mix(a ^ (b + 0x9e3779b97f4a7c15ull + (a << 6) + (a >> 2))); }

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(Mix(seed)) {}
  uint64_t u64() {
    s += 0x9e3779b97f4a7c15ull;
    uint64_t z = s;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  double uni() { return (u64() >> 11) * 0x1.0p-53; }
  double uni(double a, double b) { return a + (b - a) * uni(); }
  // inclusive
  int range(int lo, int hi) { return lo + static_cast<int>(u64() % static_cast<uint64_t>(hi - lo + 1)); }
  bool chance(double p) { return uni() < p; }
  double normal() {
    double u = 0;
    while (u < 1e-300) u = uni();
    return std::sqrt(-2 * std::log(u)) * std::cos(6.283185307179586 * uni());
  }
  double sign() { return (u64() & 1) ? 1.0 : -1.0; }
  // magnitude 10^[lo,hi], random sign
  double mag(double lo, double hi) { return sign() * std::pow(10.0, uni(lo, hi)); }
  template <typename C>
  auto& pick(C& c) { return c[range(0, static_cast<int>(c.size()) - 1)]; }
  template <typename T>
  T of(std::initializer_list<T> l) { return *(l.begin() + range(0, static_cast<int>(l.size()) - 1)); }
  template <typename V>
  void shuffle(V& v) {
    for (int i = static_cast<int>(v.size()) - 1; i > 0; --i) std::swap(v[i], v[range(0, i)]);
  }
  // A point for numerical code: mostly moderate, sometimes special.
  double any() {
    switch (range(0, 9)) {
      case 0: return 0.0;
      case 1: return of({1.0, -1.0, 0.5, -0.5, 2.0, -2.0});
      case 2: return mag(-8, -3);
      case 3: return mag(1, 4);
      default: return uni(-3, 3);
    }
  }
};

inline std::string Fmt(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
inline std::string Fmt(const char* fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  va_list ap2;
  va_copy(ap2, ap);
  int n = std::vsnprintf(nullptr, 0, fmt, ap);
  va_end(ap);
  std::string s(n, 0);
  std::vsnprintf(s.data(), n + 1, fmt, ap2);
  va_end(ap2);
  return s;
}

inline std::string Esc(const std::string& s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c > 126) o += Fmt("\\u%04x", c);
    else o += c;
  }
  return o;
}

struct Violation {
  std::string key, family, msg;
  uint64_t index;
};

struct Global {
  std::mutex mu;
  std::map<std::string, uint64_t> counts;
  std::unordered_set<uint64_t> sigs;
  std::map<std::string, uint64_t> cases;
  std::vector<Violation> violations;
  std::map<std::string, int> per_key;
  std::vector<std::string> samples;
  uint64_t seed = 1;
  uint64_t nviol = 0;
};
inline Global& G() {
  static Global* g = new Global;
  return *g;
}

class Case {
 public:
  Case(const char* fam, uint64_t idx, bool verbose)
      : rng(Combine(Combine(G().seed, HashStr(fam)), idx)), family(fam), index(idx), verbose_(verbose) {}
  Rng rng;
  const char* family;
  uint64_t index;
  bool bad = false;

  // Records a violation. key names what was violated, not the random input.
  void fail(const std::string& key, const char* fmt, ...) __attribute__((format(printf, 3, 4))) {
    va_list ap;
    va_start(ap, fmt);
    char buf[4096];
    std::vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    bad = true;
    std::lock_guard<std::mutex> l(G().mu);
    ++G().nviol;
    if (verbose_) std::fprintf(stderr, "FAIL %s: %s\n  case: %s\n", key.c_str(), buf, note_.c_str());
    if (G().per_key[key]++ < 3 && G().violations.size() < 200) {
      G().violations.push_back({key, family, std::string(buf) + " | " + note_, index});
      std::fprintf(stderr, "VH-VIOL {\"key\":\"%s\",\"family\":\"%s\",\"index\":%llu,\"msg\":\"%s\"}\n", Esc(key).c_str(), family,
                   (unsigned long long)index, Esc(std::string(buf) + " | " + note_).c_str());
    }
  }
  // Returns ok; records a violation when it is false.
  bool expect(bool ok, const std::string& key, const char* fmt, ...) __attribute__((format(printf, 4, 5))) {
    if (ok) return true;
    va_list ap;
    va_start(ap, fmt);
    char buf[4096];
    std::vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    fail(key, "%s", buf);
    return false;
  }
  void count(const std::string& what, uint64_t n = 1) {
    std::lock_guard<std::mutex> l(G().mu);
    G().counts[what] += n;
  }
  void sig(uint64_t h) { std::lock_guard<std::mutex> l(G().mu); G().sigs.insert(Combine(HashStr(family), h)); }
  void sig(const std::string& s) { sig(HashStr(s)); }
  // Describes the case, for reports and samples.
  void note(const char* fmt, ...) __attribute__((format(printf, 2, 3))) {
    va_list ap;
    va_start(ap, fmt);
    char buf[2048];
    std::vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    if (note_.size() < 3000) {
      if (!note_.empty()) note_ += "; ";
      note_ += buf;
    }
  }
  const std::string& notes() const { return note_; }
  bool verbose() const { return verbose_; }

 private:
  std::string note_;
  bool verbose_;
};

struct Family {
  const char* name;
  void (*fn)(Case&);
  double weight;  // cases per unit of scale
};

// ---- numeric comparison helpers ----
inline bool Bits(double a, double b) { return std::memcmp(&a, &b, sizeof a) == 0; }
inline bool SameOrNaN(double a, double b) { return (std::isnan(a) && std::isnan(b)) || a == b; }
// |a-b| <= tol*scale, both finite
inline bool Near(double a, double b, double tol) {
  if (!std::isfinite(a) || !std::isfinite(b)) return SameOrNaN(a, b);
  return std::fabs(a - b) <= tol;
}
template <typename A, typename B>
bool NearM(const A& a, const B& b, double tol) {
  if (a.rows() != b.rows() || a.cols() != b.cols()) return false;
  for (int i = 0; i < a.rows(); ++i)
    for (int j = 0; j < a.cols(); ++j)
      if (!(std::fabs(a(i, j) - b(i, j)) <= tol)) return false;
  return true;
}
template <typename M>
std::string Str(const M& m) {
  std::string s = "[";
  for (int i = 0; i < m.rows() && i < 12; ++i) {
    for (int j = 0; j < m.cols() && j < 12; ++j) s += Fmt("%s%.9g", j ? " " : (i ? "; " : ""), static_cast<double>(m(i, j)));
  }
  return s + "]";
}
inline std::string Str(const std::vector<double>& v) {
  std::string s = "[";
  for (size_t i = 0; i < v.size() && i < 16; ++i) s += Fmt("%s%.17g", i ? " " : "", v[i]);
  return s + "]";
}

// ---- main ----
struct Progress {
  volatile uint64_t ordinal;
  volatile uint64_t index;
  volatile uint64_t in_case;
  char family[64];
};
inline Progress*& P() {
  static Progress* p = nullptr;
  return p;
}
inline void OnCpu(int) {
  static const char m[] = "VH-TIMEOUT cpu\n";
  (void)!write(2, m, sizeof m - 1);
  _exit(97);
}
inline void OnWall(int) {
  static const char m[] = "VH-TIMEOUT wall\n";
  (void)!write(2, m, sizeof m - 1);
  _exit(98);
}
inline void Arm(int cpu_s, int wall_s) {
  struct itimerval t;
  std::memset(&t, 0, sizeof t);
  t.it_value.tv_sec = cpu_s;
  setitimer(ITIMER_PROF, &t, nullptr);
  alarm(wall_s);
}

inline int Main(int argc, char** argv, const std::vector<Family>& fams) {
  std::string out, prog, only;
  double scale = 1;
  uint64_t shard = 0, shards = 1, start = 0;
  int64_t single = -1;
  int cpu = 120, wall = 400;
  bool list = false;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto next = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--seed") G().seed = std::strtoull(next().c_str(), nullptr, 10);
    else if (a == "--scale") scale = std::atof(next().c_str());
    else if (a == "--shard") shard = std::strtoull(next().c_str(), nullptr, 10);
    else if (a == "--shards") shards = std::strtoull(next().c_str(), nullptr, 10);
    else if (a == "--start") start = std::strtoull(next().c_str(), nullptr, 10);
    else if (a == "--family") only = next();
    else if (a == "--index") single = std::atoll(next().c_str());
    else if (a == "--out") out = next();
    else if (a == "--progress") prog = next();
    else if (a == "--cpu") cpu = std::atoi(next().c_str());
    else if (a == "--wall") wall = std::atoi(next().c_str());
    else if (a == "--list") list = true;
    else { std::fprintf(stderr, "bad argument %s\n", a.c_str()); return 3; }
  }
  if (list) {
    for (auto& f : fams) std::printf("%s %g\n", f.name, f.weight);
    return 0;
  }
  static Progress local;
  P() = &local;
  if (!prog.empty()) {
    int fd = open(prog.c_str(), O_RDWR | O_CREAT, 0644);
    if (fd < 0 || ftruncate(fd, sizeof(Progress)) != 0) return 3;
    void* m = mmap(nullptr, sizeof(Progress), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    if (m == MAP_FAILED) return 3;
    P() = static_cast<Progress*>(m);
  }
  signal(SIGPROF, OnCpu);
  signal(SIGALRM, OnWall);
  const bool verbose = single >= 0;
  uint64_t ordinal = 0;
  bool found = false;
  for (auto& f : fams) {
    if (!only.empty() && only != f.name) continue;
    uint64_t n = static_cast<uint64_t>(std::ceil(f.weight * scale));
    if (single >= 0) n = single + 1;
    for (uint64_t i = (single >= 0 ? single : 0); i < n; ++i, ++ordinal) {
      if (single < 0 && (ordinal % shards != shard || ordinal < start)) continue;
      found = true;
      Case c(f.name, i, verbose);
      P()->ordinal = ordinal;
      P()->index = i;
      std::strncpy(P()->family, f.name, sizeof(P()->family) - 1);
      P()->in_case = 1;
      Arm(cpu, wall);
      f.fn(c);
      Arm(0, 0);
      P()->in_case = 0;
      std::lock_guard<std::mutex> l(G().mu);
      uint64_t k = ++G().cases[f.name];
      if (k <= 1 && !c.notes().empty()) {
        G().samples.push_back(Fmt("%s#%llu: ", f.name, (unsigned long long)i) + c.notes().substr(0, 400));
      }
      if (verbose) std::fprintf(stderr, "case %s#%llu %s: %s\n", f.name, (unsigned long long)i, c.bad ? "VIOLATED" : "ok", c.notes().c_str());
    }
  }
  if (!out.empty()) {
    FILE* fp = std::fopen((out + ".tmp").c_str(), "w");
    if (!fp) return 3;
    std::fprintf(fp, "{\"cases\":{");
    bool first = true;
    for (auto& kv : G().cases) { std::fprintf(fp, "%s\"%s\":%llu", first ? "" : ",", kv.first.c_str(), (unsigned long long)kv.second); first = false; }
    std::fprintf(fp, "},\"counts\":{");
    first = true;
    for (auto& kv : G().counts) { std::fprintf(fp, "%s\"%s\":%llu", first ? "" : ",", Esc(kv.first).c_str(), (unsigned long long)kv.second); first = false; }
    std::fprintf(fp, "},\"sigs\":[");
    first = true;
    for (auto s : G().sigs) { std::fprintf(fp, "%s\"%llx\"", first ? "" : ",", (unsigned long long)s); first = false; }
    std::fprintf(fp, "],\"samples\":[");
    first = true;
    for (auto& s : G().samples) { std::fprintf(fp, "%s\"%s\"", first ? "" : ",", Esc(s).c_str()); first = false; }
    std::fprintf(fp, "],\"nviol\":%llu}\n", (unsigned long long)G().nviol);
    std::fclose(fp);
    std::rename((out + ".tmp").c_str(), out.c_str());
  }
  if (!found) return 4;
  return G().nviol ? 1 : 0;
}

}  // namespace vh

#define VH_MAIN(...)                                   \
  int main(int argc, char** argv) {                    \
    return vh::Main(argc, argv, std::vector<vh::Family>{__VA_ARGS__}); \
  }
#endif
