// A small property-based testing engine.
//
// A case is a sequence of choices (integers).  Generators draw every random
// decision through Src, therefore a case can be recorded, replayed, shrunk
// (deleting / lowering choices) and also be driven by a coverage guided fuzzer.
// 0 is always the simplest choice.
#ifndef PBT_HPP
#define PBT_HPP
#include <cmath>
#include <cstdint>
#include <cstring>
#include <functional>
#include <limits>
#include <ostream>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace pbt {

constexpr uint32_t CAP = 1u << 15;

struct Recording { // lives in shared memory, a crash of the worker keeps it
  uint32_t n;
  uint32_t overflow;
  uint64_t c[CAP];
};

struct Failure {
  std::string msg;
};

class Src {
public:
  explicit Src(Recording *r) : rec(r) {}
  void seed(uint64_t s) {
    mode = 0;
    state = s;
    reset();
  }
  void replay(const std::vector<uint64_t> &in_) {
    mode = 1;
    in = in_;
    pos = 0;
    reset();
  }
  void bytes(const uint8_t *d, size_t n) {
    mode = 2;
    data = d;
    dataN = n;
    pos = 0;
    reset();
  }
  // a value of [0, n)
  uint64_t below(uint64_t n) {
    if (n <= 1)
      return 0;
    uint64_t v = 0;
    if (mode == 0) {
      v = next() % n;
    } else if (mode == 1) {
      v = pos < in.size() ? in[pos] : 0;
      pos++;
      if (v >= n)
        v %= n;
    } else {
      int k = n <= 256 ? 1 : n <= 65536 ? 2 : n <= (1ull << 32) ? 4 : 8;
      for (int i = 0; i < k; i++)
        v = (v << 8) | (pos < dataN ? data[pos] : 0), pos++;
      v %= n;
    }
    if (rec->n < CAP)
      rec->c[rec->n++] = v;
    else
      rec->overflow = 1;
    return v;
  }
  // [lo, hi], shrinks to lo
  int64_t range(int64_t lo, int64_t hi) {
    return lo + static_cast<int64_t>(below(static_cast<uint64_t>(hi - lo) + 1));
  }
  // true with probability num/den, shrinks to false
  bool chance(uint64_t num, uint64_t den) { return below(den) >= den - num; }
  template <class C> auto pick(const C &c) {
    return *(std::begin(c) + below(std::size(c)));
  }
  template <class T> T pick(std::initializer_list<T> c) {
    return *(c.begin() + below(c.size()));
  }
  bool exhausted() const { return mode == 2 && pos >= dataN; }

private:
  void reset() {
    rec->n = 0;
    rec->overflow = 0;
  }
  uint64_t next() { // splitmix64
    uint64_t z = (state += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  Recording *rec;
  int mode = 0;
  uint64_t state = 0;
  std::vector<uint64_t> in;
  size_t pos = 0;
  const uint8_t *data = nullptr;
  size_t dataN = 0;
};

class NullBuf : public std::streambuf {
  int overflow(int c) override { return c; }
  std::streamsize xsputn(const char *, std::streamsize n) override { return n; }
};

class Ctx {
public:
  Src &s;
  bool verbose;
  bool nontriv = false;
  std::ostringstream text;
  void (*labelFn)(const char *) = nullptr;
  Ctx(Src &s_, bool v) : s(s_), verbose(v) {}
  // description of the case, only produced for samples and replays
  template <class F> void log(F &&f) {
    if (verbose) {
      f(static_cast<std::ostream &>(text));
      if (onLog) // a crash must not lose the description
        onLog(text.str());
    }
  }
  std::function<void(const std::string &)> onLog;
  void nontrivial(bool b = true) { nontriv = nontriv || b; }
  void label(const char *l) {
    if (labelFn)
      labelFn(l);
  }
  [[noreturn]] void fail(const std::string &m) { throw Failure{m}; }
  void require(bool b, const std::string &m) {
    if (!b)
      throw Failure{m};
  }
};

using Fn = std::function<void(Ctx &)>;
struct Sub {
  std::string name;
  Fn fn;
  double weight; // relative number of cases
  bool leak;     // additionally check that replays do not leak memory
};
std::vector<Sub> &registry();
struct Reg {
  Reg(const std::string &n, double w, Fn f, bool leak = false) {
    registry().push_back({n, std::move(f), w, leak});
  }
};

} // namespace pbt

#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
#define PBT_SUB(name, weight, fn)                                              \
  static pbt::Reg PBT_CAT(pbtReg_, __COUNTER__)(name, weight, fn)
#define PBT_SUB_LEAK(name, weight, fn)                                         \
  static pbt::Reg PBT_CAT(pbtReg_, __COUNTER__)(name, weight, fn, true)

#endif
