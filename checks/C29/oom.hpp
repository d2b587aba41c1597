// histories in which chosen allocations fail
#include "../C19/world.hpp"
#include <new>

extern long oomCountdown; // < 0: nothing fails, n: the allocation n from now on
extern long oomFailed;    // number of failed allocations
extern bool oomArrays;    // only the memory of elements fails

struct OomStmt {
  Stmt s;
  bool kept; // the target keeps its content if the statement fails
};

struct Result {
  bool oom = false, refused = false;
};
inline Result runFailing(const Stmt &t, World &w, const Par &p, long k) {
  Result r;
  oomCountdown = k;
  try {
    t.fn(w, p);
  } catch (const std::bad_alloc &) {
    r.oom = true;
  } catch (const std::exception &) {
    r.refused = true;
  }
  oomCountdown = -1;
  return r;
}

template <size_t N> void runOom(Ctx &c, const OomStmt (&st)[N]) {
  Src &s = c.s;
  World w(s);
  auto start = [&](auto &x, Ty t) {
    using T = std::remove_cvref_t<decltype(x[0])>;
    if (s.chance(1, 8))
      return;
    if (s.chance(1, 4)) {
      auto y = make<T>(genMat(s, genDim(s, 4), genDim(s, 4), t, SMALL));
      x = y;
    } else {
      auto y = make<T>(genVec(s, genSize(s, 30), t, SMALL));
      x = y;
    }
  };
  start(w.d0, Ty::D);
  start(w.d1, Ty::D);
  start(w.d2, Ty::D);
  start(w.i0, Ty::I);
  start(w.i1, Ty::I);
  start(w.b0, Ty::B);
  int steps = 0, failed = 0;
  while (steps < 30 && s.below(14)) {
    steps++;
    const OomStmt &os = st[s.below(N)];
    const Stmt &t = os.s;
    oomArrays = s.below(4); // otherwise also a text cannot be allocated
    const bool kept = os.kept && oomArrays;
    Par p = genPar(s, w);
    long k = s.chance(1, 3) ? -1 : (long)s.below(oomArrays ? 4 : s.chance(1, 2) ? 12 : 100);
    bool again = s.chance(1, 2);
    Snaps before = snaps(w);
    c.log([&](auto &o) {
      o << t.text << " {k0=" << p.k0 << " k1=" << p.k1 << " n0=" << p.n0 << " n1=" << p.n1 << " p0=" << p.p0 << " p1=" << p.p1 << " q0=" << p.q0 << " t0=" << p.t0;
      if (k >= 0)
        o << ", " << (oomArrays ? "array" : "allocation") << " " << k + 1 << " fails";
      o << "}";
    });
    long nf = oomFailed;
    Result r = runFailing(t, w, p, k);
    failed += r.oom;
    c.log([&](auto &o) { o << (r.oom ? " (no memory); " : r.refused ? " (refused); " : "; "); });
    std::string text = std::string(t.text) + (r.oom ? " (no memory)" : r.refused ? " (refused)" : "");
    if (oomFailed != nf && !r.oom)
      c.fail(text + ": the failed allocation was not reported");
    if (oomFailed == nf && r.oom && k < 0)
      c.fail(text + ": an impossible amount of memory is requested");
    checkWorld(c, w, before, r.oom && kept ? "nothing" : t.target, text);
    if (r.oom && os.kept && again) { // the same statement with enough memory
      before = snaps(w);
      Result r2 = runFailing(t, w, p, -1);
      c.log([&](auto &o) { o << "again" << (r2.refused ? " (refused); " : "; "); });
      if (r2.oom)
        c.fail(text + ": an impossible amount of memory is requested");
      checkWorld(c, w, before, t.target, std::string(t.text) + " once more");
    }
    half(w);
  }
  if (failed)
    c.label("failed allocations");
  if (failed > 2)
    c.label("more than two failed allocations");
  c.nontrivial(failed > 0);
}
