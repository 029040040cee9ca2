// Shared helpers of the harnesses: PRNG, reporting, scratch directories.
#ifndef VT_COMMON_H
#define VT_COMMON_H

#include <unistd.h>

#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <set>
#include <string>
#include <vector>

namespace vt {

// splitmix64-seeded xoshiro256**; deterministic across compilers.
class Rng {
 public:
  explicit Rng(uint64_t seed = 1) { reseed(seed); }
  static uint64_t mix(uint64_t &x) {
    uint64_t z = (x += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  void reseed(uint64_t seed) {
    uint64_t x = seed;
    for (auto &v : s_) v = mix(x);
  }
  uint64_t next() {
    const uint64_t result = rotl(s_[1] * 5, 7) * 9;
    const uint64_t t = s_[1] << 17;
    s_[2] ^= s_[0];
    s_[3] ^= s_[1];
    s_[1] ^= s_[2];
    s_[0] ^= s_[3];
    s_[2] ^= t;
    s_[3] = rotl(s_[3], 45);
    return result;
  }
  // [0,n)
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  // [a,b]
  int64_t range(int64_t a, int64_t b) {
    return a + int64_t(below(uint64_t(b - a + 1)));
  }
  double uniform() { return double(next() >> 11) * (1.0 / 9007199254740992.0); }
  double uniform(double a, double b) { return a + (b - a) * uniform(); }
  double gauss() {
    double u = uniform(), v = uniform();
    if (u < 1e-300) u = 1e-300;
    return std::sqrt(-2.0 * std::log(u)) * std::cos(2.0 * M_PI * v);
  }
  bool chance(double p) { return uniform() < p; }
  template <typename T>
  const T &pick(const std::vector<T> &v) {
    return v[below(v.size())];
  }
  template <typename T>
  void shuffle(std::vector<T> &v) {
    for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[below(i)]);
  }

 private:
  static uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
  uint64_t s_[4];
};

inline uint64_t hash64(const void *data, size_t n, uint64_t h = 1469598103934665603ull) {
  const unsigned char *p = static_cast<const unsigned char *>(data);
  for (size_t i = 0; i != n; ++i) {
    h ^= p[i];
    h *= 1099511628211ull;
  }
  return h;
}
inline uint64_t hashStr(const std::string &s) { return hash64(s.data(), s.size()); }
inline uint64_t caseSeed(uint64_t seed, uint64_t index) {
  uint64_t x = seed * 0x9e3779b97f4a7c15ull + index * 0xbf58476d1ce4e5b9ull + 12345;
  return Rng::mix(x);
}

// ---- Reporting -----------------------------------------------------------
// Protocol on the harness' result file (fd passed by --out, default stdout):
//   BEGIN <case> <description>
//   FAIL <case> <key> <text>
//   END <case> <nontrivial 0/1> <signature-hash> <checks>
//   STAT <name> <value>      (summed by the driver)
//   SAMPLE <json-ish text>
struct Report {
  FILE *out = stdout;
  std::string curCase;
  uint64_t fails = 0, failsInCase = 0;
  uint64_t checks = 0;
  bool nontrivial = true;
  std::string sig;
  std::map<std::string, double> stats;

  void begin(uint64_t index, const std::string &desc) {
    curCase = std::to_string(index);
    failsInCase = 0;
    checks = 0;
    nontrivial = true;
    sig = desc;
    std::fprintf(out, "BEGIN %s %s\n", curCase.c_str(), desc.c_str());
    std::fflush(out);
  }
  void fail(const std::string &key, const char *fmt, ...)
      __attribute__((format(printf, 3, 4))) {
    ++fails;
    if (++failsInCase > 12) return;
    char buf[1600];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    for (char *c = buf; *c; ++c)
      if (*c == '\n') *c = ' ';
    std::fprintf(out, "FAIL %s %s %s\n", curCase.c_str(), key.c_str(), buf);
    std::fflush(out);
  }
  void end() {
    std::fprintf(out, "END %s %d %016llx %llu\n", curCase.c_str(), nontrivial ? 1 : 0,
                 (unsigned long long)hashStr(sig), (unsigned long long)checks);
    std::fflush(out);
  }
  void stat(const std::string &name, double v) { stats[name] += v; }
  void sample(const std::string &text) {
    std::fprintf(out, "SAMPLE %s\n", text.c_str());
    std::fflush(out);
  }
  void finish() {
    for (auto &s : stats) std::fprintf(out, "STAT %s %.17g\n", s.first.c_str(), s.second);
    std::fprintf(out, "FINISHED\n");
    std::fflush(out);
  }
};

inline std::string strf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
inline std::string strf(const char *fmt, ...) {
  char buf[2048];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  return buf;
}

}  // namespace vt
#endif
