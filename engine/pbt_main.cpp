// Driver of the engine, see pbt.hpp.
//   main run    --seed S --cases N --workers W --out stats.json --replay-out F
//               [--max-s T]
//   main replay FILE [--quiet]
//   main list
// exit codes: 0 nothing found, 1 failure found (replay file is written),
//             3 failure which could not be reproduced, 2 usage / internal error
#include "pbt.hpp"
#include <algorithm>
#include <atomic>
#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <map>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>

extern "C" int
__sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *,
                                                   size_t),
                                          void (*)(const volatile void *))
    __attribute__((weak));

// while shrinking the report of the sanitizer is not needed (it is slow)
static bool quickCrash = false;
extern "C" void __asan_on_error() {
  if (quickCrash)
    _exit(77);
}
extern "C" void __ubsan_on_report() {
  if (quickCrash)
    _exit(77);
}

namespace pbt {
std::vector<Sub> &registry() {
  static std::vector<Sub> r;
  return r;
}
} // namespace pbt
using namespace pbt;

static double now() {
  return std::chrono::duration<double>(
             std::chrono::steady_clock::now().time_since_epoch())
      .count();
}

static std::atomic<long> liveAllocs{0};
static void onMalloc(const volatile void *, size_t) { liveAllocs++; }
static void onFree(const volatile void *p) {
  if (p)
    liveAllocs--;
}

struct Slot {
  volatile uint64_t beat; // number of the case started by this process
  volatile double started;
  volatile int32_t sub;
  volatile uint64_t idx;
  volatile int32_t state; // 0 running, 1 failed by oracle, 2 done
  volatile uint64_t done;
  char msg[8192];
  Recording rec;
};

static Slot *newSlot() {
  void *p = mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE,
                 MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) {
    perror("mmap");
    exit(2);
  }
  return static_cast<Slot *>(p);
}

static uint64_t hash64(uint64_t h, uint64_t v) {
  h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull;
  return h ^ (h >> 33);
}
static uint64_t hashStr(const std::string &s) {
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s)
    h = (h ^ c) * 1099511628211ull;
  return h;
}

static std::map<std::string, uint64_t> labels;
static std::string labelPrefix;
static void addLabel(const char *l) { labels[labelPrefix + l]++; }

static void setMsg(Slot *sl, const std::string &m) {
  size_t n = std::min(m.size(), sizeof(sl->msg) - 1);
  memcpy(sl->msg, m.data(), n);
  sl->msg[n] = 0;
}

// runs one case. returns true if it passed
static bool runOne(const Sub &sub, Slot *sl, Ctx &c) {
  try {
    sub.fn(c);
    return true;
  } catch (const Failure &f) {
    setMsg(sl, f.msg);
  } catch (const std::exception &e) {
    setMsg(sl, std::string("unexpected exception: ") + e.what());
  } catch (...) {
    setMsg(sl, "unexpected exception of unknown type");
  }
  return false;
}

// leaks: after two warm ups every further run of the same case has to free
// everything it allocated
static bool leakCheck(const Sub &sub, Slot *sl) {
  if (!__sanitizer_install_malloc_and_free_hooks)
    return true;
  std::vector<uint64_t> ch(sl->rec.c, sl->rec.c + sl->rec.n);
  long before[4];
  for (int k = 0; k < 4; k++) {
    before[k] = liveAllocs;
    {
      Src s(&sl->rec);
      s.replay(ch);
      Ctx c(s, false);
      if (!runOne(sub, sl, c))
        return false;
    }
  }
  long g1 = before[2] - before[1], g2 = before[3] - before[2],
       g3 = liveAllocs - before[3];
  if (g1 > 0 && g2 > 0 && g3 > 0) {
    setMsg(sl, "memory leak: each execution of the case leaves " +
                   std::to_string(g3) + " allocation(s) behind");
    return false;
  }
  return true;
}

static bool runCase(const Sub &sub, Slot *sl, Src &s, bool verbose,
                    std::string *text, bool *nontriv) {
  bool ok;
  {
    Ctx c(s, verbose);
    c.labelFn = text ? nullptr : addLabel;
    ok = runOne(sub, sl, c);
    if (text)
      *text = c.text.str();
    if (nontriv)
      *nontriv = c.nontriv;
  }
  if (ok && sub.leak)
    ok = leakCheck(sub, sl);
  return ok;
}

struct Opt {
  uint64_t seed = 1, cases = 1000;
  int workers = 8;
  std::string out, replayOut, workdir = ".";
  double maxS = 300, caseTimeout = 20;
  int attempts = 1; // how often a case is repeated if it depends on the schedule
};

static uint64_t caseSeed(uint64_t seed, const std::string &name, uint64_t i) {
  return hash64(hash64(hashStr(name), seed), i);
}
static uint64_t casesOf(const Opt &o, const Sub &s) {
  return std::max<uint64_t>(1, static_cast<uint64_t>(o.cases * s.weight));
}

static void redirectErr(const std::string &file) {
  int fd = open(file.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
  if (fd >= 0) {
    dup2(fd, 2);
    close(fd);
  }
  static NullBuf nb; // warnings of the library
  std::cerr.rdbuf(&nb);
}

static std::string esc(const std::string &s) {
  std::string r;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      r += '\\';
      r += c;
    } else if (c == '\n')
      r += "\\n";
    else if (c == '\t')
      r += "\\t";
    else if (c < 32 || c >= 127) {
      char b[8];
      snprintf(b, 8, "\\u%04x", c);
      r += b;
    } else
      r += c;
  }
  return r;
}

// the cases of worker w; limitSub/limitIdx: stop after this case
static int worker(const Opt &o, int w, Slot *sl, int limitSub,
                  uint64_t limitIdx) {
  auto &reg = registry();
  double t0 = now();
  std::unordered_set<uint64_t> distinct;
  std::vector<std::pair<std::string, std::string>> samples;
  std::map<std::string, uint64_t> perSub;
  uint64_t evals = 0, nont = 0;
  // several rounds: every part gets its share if the time is up before the end
  constexpr uint64_t ROUNDS = 8;
  std::vector<bool> sampled(reg.size(), false);
  for (size_t ri = 0; ri < ROUNDS * reg.size(); ri++) {
    size_t si = ri % reg.size();
    uint64_t n = casesOf(o, reg[si]);
    uint64_t per = (n / o.workers + ROUNDS) / ROUNDS; // cases of a worker in a round
    uint64_t from = per * (ri / reg.size()), to = from + per;
    labelPrefix = reg[si].name + ": ";
    for (uint64_t i = w + from * o.workers; i < n && i < w + to * o.workers; i += o.workers) {
      if (limitSub < 0 && now() - t0 > o.maxS)
        break;
      sl->sub = static_cast<int>(si);
      sl->idx = i;
      sl->started = now();
      sl->beat = sl->beat + 1;
      Src s(&sl->rec);
      s.seed(caseSeed(o.seed, reg[si].name, i));
      bool nt = false;
      if (!runCase(reg[si], sl, s, false, nullptr, &nt)) {
        sl->state = 1;
        return 10;
      }
      evals++;
      perSub[reg[si].name]++;
      if (nt) {
        nont++;
        uint64_t h = hashStr(reg[si].name);
        for (uint32_t k = 0; k < sl->rec.n; k++)
          h = hash64(h, sl->rec.c[k]);
        distinct.insert(h);
        if (!sampled[si] && w == 0 && limitSub < 0 && (i > 0 || n <= 8)) {
          sampled[si] = true;
          std::vector<uint64_t> ch(sl->rec.c, sl->rec.c + sl->rec.n);
          Src s2(&sl->rec);
          s2.replay(ch);
          std::string text;
          runCase(reg[si], sl, s2, true, &text, nullptr);
          samples.push_back({reg[si].name, text});
        }
      }
      if (static_cast<int>(si) == limitSub && i == limitIdx)
        return 0;
    }
  }
  sl->started = 0;
  std::ofstream f(o.workdir + "/stats." + std::to_string(w));
  f << "evals " << evals << "\n" << "nont " << nont << "\n";
  for (auto &p : perSub)
    f << "sub " << p.second << " " << p.first << "\n";
  for (auto &p : labels)
    f << "label " << p.second << " " << p.first << "\n";
  for (auto h : distinct)
    f << "h " << h << "\n";
  for (auto &p : samples)
    f << "sample " << esc(p.first + ": " + p.second) << "\n";
  f.close();
  sl->state = 2;
  return 0;
}

enum Result { PASS, FAIL, CRASH, HANG };

static std::string readFile(const std::string &f, size_t max = 6000) {
  std::ifstream i(f, std::ios::binary);
  std::stringstream ss;
  ss << i.rdbuf();
  std::string s = ss.str();
  if (s.size() > max)
    s = s.substr(0, max);
  return s;
}

// replays one case in a child process
static double cpuOf(pid_t p);
static Result runChild(const Opt &o, const Sub &sub,
                       const std::vector<uint64_t> &ch, Slot *sl, bool verbose,
                       std::string *text, bool quick = false) {
  std::string err = o.workdir + "/replay.err", txt = o.workdir + "/replay.txt";
  sl->state = 0;
  sl->msg[0] = 0;
  pid_t p = fork();
  if (p == 0) {
    redirectErr(err);
    quickCrash = quick;
    Src s(&sl->rec);
    s.replay(ch);
    std::string t;
    bool ok;
    {
      Ctx c(s, verbose);
      if (verbose) {
        std::ofstream(txt) << "";
        c.onLog = [&](const std::string &t) { std::ofstream(txt) << t; };
      }
      ok = runOne(sub, sl, c);
    }
    if (ok && sub.leak)
      ok = leakCheck(sub, sl);
    if (!ok)
      sl->state = 1;
    _exit(ok ? 0 : 10);
  }
  double t0 = now();
  int st = 0;
  while (true) {
    pid_t r = waitpid(p, &st, WNOHANG);
    if (r == p)
      break;
    if (now() - t0 > o.caseTimeout && (cpuOf(p) > o.caseTimeout || now() - t0 > 4 * o.caseTimeout)) {
      kill(p, SIGKILL);
      waitpid(p, &st, 0);
      setMsg(sl, "the case does not terminate");
      return HANG;
    }
    usleep(300);
  }
  if (text)
    *text = readFile(txt);
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0)
    return PASS;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 10 && sl->state == 1)
    return FAIL;
  setMsg(sl, "crash: " + readFile(err, 4000));
  return CRASH;
}

static bool writeReplay(const Opt &o, const Sub &sub,
                        const std::vector<uint64_t> &ch, const char *kind,
                        const std::string &msg, const std::string &text) {
  std::ofstream f(o.replayOut);
  f << "sub=" << sub.name << "\nseed=" << o.seed << "\nkind=" << kind
    << "\nchoices=";
  for (size_t i = 0; i < ch.size(); i++)
    f << (i ? "," : "") << ch[i];
  f << "\n# message: ";
  for (char c : msg)
    f << (c == '\n' ? std::string("\n#   ") : std::string(1, c));
  f << "\n# case: ";
  for (char c : text)
    f << (c == '\n' ? std::string("\n#   ") : std::string(1, c));
  f << "\n";
  return f.good();
}

static const char *kindName(Result r) {
  return r == FAIL ? "oracle" : r == CRASH ? "crash" : r == HANG ? "hang" : "pass";
}

// the case is repeated if its result depends on the schedule
static Result runCase(Opt &o, const Sub &sub, const std::vector<uint64_t> &ch, Slot *sl, bool verbose,
                      std::string *text, int attempts, bool quickly = false) {
  Result r = PASS;
  for (int k = 0; k < attempts && r == PASS; k++)
    r = runChild(o, sub, ch, sl, verbose, text, quickly);
  return r;
}

// CPU time of a process: a busy machine makes a case slow, but does not let it hang
static double cpuOf(pid_t p) {
  clockid_t id;
  timespec t;
  if (clock_getcpuclockid(p, &id) != 0 || clock_gettime(id, &t) != 0)
    return 1e9;
  return (double)t.tv_sec + 1e-9 * (double)t.tv_nsec;
}

static int report(Opt &o, int si, std::vector<uint64_t> ch, int w, uint64_t idx, const std::string &seen) {
  auto &sub = registry()[si];
  Slot *sl = newSlot();
  Result r0 = runCase(o, sub, ch, sl, false, nullptr, o.attempts);
  printf("candidate failure in %s (%s, %zu choices): %.300s\n", sub.name.c_str(),
         kindName(r0), ch.size(), sl->msg);
  fflush(stdout);
  if (r0 == PASS) {
    // depends on the cases before: repeat the whole worker
    int again = 0;
    for (int k = 0; k < 2; k++) {
      Slot *s2 = newSlot();
      pid_t p = fork();
      if (p == 0) {
        redirectErr(o.workdir + "/prefix.err");
        _exit(worker(o, w, s2, si, idx));
      }
      int st;
      double t0 = now();
      bool to = false;
      while (waitpid(p, &st, WNOHANG) != p) {
        if (now() - t0 > 300) {
          kill(p, SIGKILL);
          waitpid(p, &st, 0);
          to = true;
          break;
        }
        usleep(1000);
      }
      if (!to && !(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
        again++;
        setMsg(sl, std::string(s2->state == 1 ? s2->msg
                               : readFile(o.workdir + "/prefix.err", 4000).c_str()));
      }
    }
    if (again < 2) {
      // neither a wrong result nor the report of a sanitizer comes from a busy machine
      if (seen.empty())
        return 3;
      printf("seen once: %.2000s\n", seen.c_str());
      setMsg(sl, seen);
    }
    std::ofstream f(o.replayOut);
    f << "sub=" << sub.name << "\nseed=" << o.seed << "\nkind=prefix\nworker="
      << w << "\nworkers=" << o.workers << "\ncases=" << o.cases
      << "\nidx=" << idx << "\n# message: " << sl->msg << "\n";
    return 1;
  }
  // shrink
  double t0 = now();
  int tries = 0;
  double saved = o.caseTimeout;
  if (r0 == HANG)
    o.caseTimeout = 5;
  double budget = r0 == HANG ? 40 : 25;
  auto fails = [&](const std::vector<uint64_t> &c) {
    tries++;
    return runCase(o, sub, c, sl, false, nullptr, o.attempts > 1 ? 3 : 1, true) == r0;
  };
  auto ok = [&]() { return now() - t0 < budget && tries < 4000; };
  bool progress = true;
  while (progress && ok()) {
    progress = false;
    while (!ch.empty() && ch.back() == 0) // missing choices are 0
      ch.pop_back();
    for (size_t len = std::max<size_t>(1, ch.size() / 2); len >= 1 && ok();
         len /= 2) {
      for (size_t i = 0; i + len <= ch.size() && ok();) {
        auto c = ch;
        c.erase(c.begin() + i, c.begin() + i + len);
        if (fails(c)) {
          ch = c;
          progress = true;
        } else
          i += len;
      }
    }
    for (size_t i = 0; i < ch.size() && ok(); i++) {
      if (ch[i] == 0)
        continue;
      auto c = ch;
      c[i] = 0;
      if (fails(c)) {
        ch = c;
        progress = true;
        continue;
      }
      uint64_t lo = 0, hi = ch[i]; // hi fails
      while (hi - lo > 1 && ok()) {
        uint64_t mid = lo + (hi - lo) / 2;
        c = ch;
        c[i] = mid;
        if (fails(c)) {
          hi = mid;
          ch = c;
          progress = true;
        } else
          lo = mid;
      }
    }
  }
  o.caseTimeout = saved;
  std::string text, msg;
  int reproduced = 0;
  Result r = PASS;
  for (int k = 0; k < 3; k++) {
    Result x = runCase(o, sub, ch, sl, true, &text, o.attempts);
    if (x != PASS) {
      reproduced++;
      r = x;
      msg = sl->msg;
    }
  }
  printf("shrunk to %zu choices with %d replays, reproduced %d/3\n", ch.size(),
         tries, reproduced);
  if (reproduced < 3 && !(reproduced > 0 && o.attempts > 1)) {
    if (seen.empty())
      return 3;
    printf("seen once: %.2000s\n", seen.c_str());
    msg = seen;
    if (r == PASS)
      r = r0;
  }
  writeReplay(o, sub, ch, kindName(r), msg, text);
  printf("%s\n", msg.c_str());
  printf("case: %s\n", text.c_str());
  return 1;
}

static int doRun(Opt &o) {
  std::vector<Slot *> slots;
  std::vector<pid_t> pids;
  double t0 = now();
  for (int w = 0; w < o.workers; w++) {
    slots.push_back(newSlot());
    pid_t p = fork();
    if (p == 0) {
      redirectErr(o.workdir + "/err." + std::to_string(w));
      _exit(worker(o, w, slots[w], -1, 0));
    }
    pids.push_back(p);
  }
  int alive = o.workers, failed = -1;
  std::vector<uint64_t> beat(o.workers, 0);
  std::vector<double> started(o.workers, 0), cpu(o.workers, 0); // CPU time at the begin of a case
  while (alive > 0 && failed < 0) {
    int st;
    pid_t p = waitpid(-1, &st, WNOHANG);
    if (p > 0) {
      for (int w = 0; w < o.workers; w++)
        if (pids[w] == p) {
          pids[w] = -1;
          alive--;
          if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0))
            failed = w;
        }
      continue;
    }
    double t = now();
    for (int w = 0; w < o.workers; w++)
      if (pids[w] > 0 && slots[w]->started > 0 && slots[w]->started != started[w] &&
          t - slots[w]->started > 1) {
        started[w] = slots[w]->started;
        cpu[w] = cpuOf(pids[w]);
      }
    for (int w = 0; w < o.workers; w++)
      if (pids[w] > 0 && slots[w]->started > 0 && t - slots[w]->started > o.caseTimeout * 2 &&
          (cpuOf(pids[w]) - cpu[w] > o.caseTimeout * 1.5 || t - slots[w]->started > o.caseTimeout * 8)) {
        kill(pids[w], SIGKILL);
        waitpid(pids[w], &st, 0);
        pids[w] = -1;
        alive--;
        failed = w;
        break;
      }
    usleep(2000);
  }
  for (int w = 0; w < o.workers; w++)
    if (pids[w] > 0) {
      kill(pids[w], SIGKILL);
      int st;
      waitpid(pids[w], &st, 0);
    }
  if (failed >= 0) {
    Slot *sl = slots[failed];
    std::vector<uint64_t> ch(sl->rec.c, sl->rec.c + sl->rec.n);
    std::string seen = readFile(o.workdir + "/err." + std::to_string(failed), 3000);
    if (seen.find("Sanitizer: data race") == std::string::npos && seen.find("ERROR: AddressSanitizer: heap-") == std::string::npos &&
        seen.find("ERROR: AddressSanitizer: stack-") == std::string::npos)
      seen.clear();
    if (sl->state == 1)
      seen = sl->msg;
    int rc = report(o, sl->sub, ch, failed, sl->idx, seen);
    if (rc == 3)
      printf("failure of worker %d (%s) could not be reproduced: %.2000s\n%s\n",
             failed, registry()[sl->sub].name.c_str(), sl->msg,
             readFile(o.workdir + "/err." + std::to_string(failed), 3000).c_str());
    return rc;
  }
  // merge
  uint64_t evals = 0, nont = 0;
  std::map<std::string, uint64_t> sub, lab;
  std::unordered_set<uint64_t> dist;
  std::vector<std::string> samples;
  for (int w = 0; w < o.workers; w++) {
    std::ifstream f(o.workdir + "/stats." + std::to_string(w));
    std::string line;
    while (std::getline(f, line)) {
      std::stringstream ss(line);
      std::string k;
      ss >> k;
      uint64_t n;
      if (k == "evals") {
        ss >> n;
        evals += n;
      } else if (k == "nont") {
        ss >> n;
        nont += n;
      } else if (k == "h") {
        ss >> n;
        dist.insert(n);
      } else if (k == "sub" || k == "label") {
        ss >> n;
        std::string rest;
        std::getline(ss, rest);
        (k == "sub" ? sub : lab)[rest.substr(1)] += n;
      } else if (k == "sample")
        samples.push_back(line.substr(7));
    }
  }
  std::ofstream f(o.out);
  f << "{\"evaluations\":" << evals << ",\"nontrivial\":" << nont
    << ",\"distinct_nontrivial\":" << dist.size() << ",\"wall_s\":" << now() - t0
    << ",\"subs\":{";
  bool first = true;
  for (auto &p : sub) {
    f << (first ? "" : ",") << "\"" << esc(p.first) << "\":" << p.second;
    first = false;
  }
  f << "},\"labels\":{";
  first = true;
  for (auto &p : lab) {
    f << (first ? "" : ",") << "\"" << esc(p.first) << "\":" << p.second;
    first = false;
  }
  f << "},\"samples\":[";
  first = true;
  for (auto &p : samples) {
    f << (first ? "" : ",") << "\"" << p << "\"";
    first = false;
  }
  f << "]}\n";
  return 0;
}

static int doReplay(Opt &o, const std::string &file) {
  std::ifstream f(file);
  std::string line, name, kind;
  std::vector<uint64_t> ch;
  uint64_t idx = 0;
  int w = 0;
  while (std::getline(f, line)) {
    if (line.rfind("sub=", 0) == 0)
      name = line.substr(4);
    else if (line.rfind("seed=", 0) == 0)
      o.seed = std::stoull(line.substr(5));
    else if (line.rfind("kind=", 0) == 0)
      kind = line.substr(5);
    else if (line.rfind("worker=", 0) == 0)
      w = std::stoi(line.substr(7));
    else if (line.rfind("workers=", 0) == 0)
      o.workers = std::stoi(line.substr(8));
    else if (line.rfind("cases=", 0) == 0)
      o.cases = std::stoull(line.substr(6));
    else if (line.rfind("idx=", 0) == 0)
      idx = std::stoull(line.substr(4));
    else if (line.rfind("choices=", 0) == 0) {
      std::stringstream ss(line.substr(8));
      std::string t;
      while (std::getline(ss, t, ','))
        ch.push_back(std::stoull(t));
    }
  }
  for (size_t i = 0; i < registry().size(); i++)
    if (registry()[i].name == name) {
      Slot *sl = newSlot();
      if (kind == "prefix") {
        pid_t p = fork();
        if (p == 0)
          _exit(worker(o, w, sl, i, idx));
        int st;
        waitpid(p, &st, 0);
        printf("status %d: %s\n", st, sl->msg);
        return st ? 1 : 0;
      }
      std::string text;
      Result r = runCase(o, registry()[i], ch, sl, true, &text, o.attempts);
      printf("%s: %s\n%s\ncase: %s\n", name.c_str(), kindName(r),
             r == PASS ? "" : sl->msg, text.c_str());
      return r == PASS ? 0 : 1;
    }
  fprintf(stderr, "unknown sub check %s\n", name.c_str());
  return 2;
}

#ifdef PBT_LIBFUZZER
static Slot *fz;
extern "C" int LLVMFuzzerInitialize(int *, char ***) {
  fz = newSlot();
  static NullBuf nb;
  if (!getenv("PBT_KEEP_ERR"))
    std::cerr.rdbuf(&nb);
  std::stable_sort(registry().begin(), registry().end(),
                   [](const Sub &a, const Sub &b) { return a.name < b.name; });
  return 0;
}
static int fzSub = 0;
extern "C" void __sanitizer_set_death_callback(void (*)(void));
static void dump() {
  const char *o = getenv("PBT_FUZZ_OUT");
  if (!o)
    return;
  FILE *f = fopen(o, "w");
  if (!f)
    return;
  fprintf(f, "sub=%s\nseed=%s\nkind=fuzz\nchoices=", registry()[fzSub].name.c_str(),
          getenv("VERIF_SEED") ? getenv("VERIF_SEED") : "1");
  for (uint32_t i = 0; i < fz->rec.n; i++)
    fprintf(f, "%s%llu", i ? "," : "", (unsigned long long)fz->rec.c[i]);
  fprintf(f, "\n# message: %s\n", fz->msg);
  fclose(f);
}
extern "C" int LLVMFuzzerTestOneInput(const uint8_t *d, size_t n) {
  static bool init = false;
  if (!init) {
    init = true;
    __sanitizer_set_death_callback(dump);
  }
  if (n < 3)
    return -1;
  fzSub = ((d[0] << 8) | d[1]) % registry().size();
  fz->msg[0] = 0;
  Src s(&fz->rec);
  s.bytes(d + 2, n - 2);
  Ctx c(s, false);
  if (!runOne(registry()[fzSub], fz, c)) {
    dump();
    fprintf(stderr, "ORACLE FAILURE %s: %s\n", registry()[fzSub].name.c_str(),
            fz->msg);
    __builtin_trap();
  }
  return 0;
}
#else
int main(int argc, char **argv) {
  Opt o;
  if (argc < 2) {
    fprintf(stderr, "usage\n");
    return 2;
  }
  std::string cmd = argv[1], file;
  for (int i = 2; i < argc; i++) {
    std::string a = argv[i];
    auto nxt = [&]() { return std::string(argv[++i]); };
    if (a == "--seed")
      o.seed = std::stoull(nxt());
    else if (a == "--cases")
      o.cases = std::stoull(nxt());
    else if (a == "--workers")
      o.workers = std::stoi(nxt());
    else if (a == "--out")
      o.out = nxt();
    else if (a == "--replay-out")
      o.replayOut = nxt();
    else if (a == "--workdir")
      o.workdir = nxt();
    else if (a == "--max-s")
      o.maxS = std::stod(nxt());
    else if (a == "--attempts")
      o.attempts = std::stoi(nxt());
    else if (a == "--only") {
      std::string p = nxt();
      auto &r = registry();
      r.erase(std::remove_if(r.begin(), r.end(),
                             [&](const Sub &s) {
                               return s.name.find(p) == std::string::npos;
                             }),
              r.end());
    } else
      file = a;
  }
  if (__sanitizer_install_malloc_and_free_hooks)
    __sanitizer_install_malloc_and_free_hooks(onMalloc, onFree);
  // the order of the translation units must not matter
  std::stable_sort(registry().begin(), registry().end(),
                   [](const Sub &a, const Sub &b) { return a.name < b.name; });
  if (cmd == "run")
    return doRun(o);
  if (cmd == "replay")
    return doReplay(o, file);
  if (cmd == "list") {
    for (auto &s : registry())
      printf("%s %g\n", s.name.c_str(), s.weight);
    return 0;
  }
  return 2;
}
#endif
