// several threads execute statements on variables of their own
#include "../C19/world.hpp"
#include <atomic>
#include <thread>

inline const sexp *sharedVec, *sharedMat; // read by all threads

inline double derivative(const Par &p) {
  etr::AllVars<2, 0, 0, 1> av(0, 0);
  using A = decltype(av);
  etr::Vec<double, etr::VarPointer<A, 0, 0>, etr::VariableTypeTrait> a(av);
  etr::Vec<double, etr::VarPointer<A, 1, 0>, etr::VariableTypeTrait> b(av);
  a = etr::coca<0>(av, p.k0, 2.5);
  b = a * a + etr::sinus(a);
  etr::get_derivs(b);
  sexp r = etr::get_derivs(b);
  return r[0];
}
struct Plan {
  const Stmt *t;
  Par p;
};
template <size_t N> void runThreads(Ctx &c, const Stmt (&st)[N]) {
  Src &s = c.s;
  const int K = 2 + (int)s.below(3);
  sexp sv = make<double>(genVec(s, genSize(s, 30), Ty::D, SMALL));
  sexp sm = make<double>(genMat(s, genDim(s, 4), genDim(s, 4), Ty::D, SMALL));
  sharedVec = &sv;
  sharedMat = &sm;
  const Snap<double> sv0 = snap(sv), sm0 = snap(sm);
  std::vector<std::unique_ptr<World>> alone, together;
  std::vector<std::vector<Plan>> plan(K);
  std::vector<std::vector<bool>> refused(K);
  int steps = 0;
  // often all threads execute the same few statements
  std::vector<size_t> common;
  for (int i = 0; i < 3; i++)
    common.push_back(s.below(N));
  for (int k = 0; k < K; k++) {
    // both worlds get the same content
    uint64_t nw = s.below(1u << 20);
    auto build = [&]() {
      pbt::Recording *rec = new pbt::Recording();
      Src own(rec);
      own.seed(nw);
      auto w = std::make_unique<World>(own);
      auto start = [&](auto &x, Ty t) {
        using T = std::remove_cvref_t<decltype(x[0])>;
        if (own.chance(1, 8))
          return;
        if (own.chance(1, 4)) {
          auto y = make<T>(genMat(own, genDim(own, 4), genDim(own, 4), t, SMALL));
          x = y;
        } else {
          auto y = make<T>(genVec(own, genSize(own, 30), t, SMALL));
          x = y;
        }
      };
      start(w->d0, Ty::D);
      start(w->d1, Ty::D);
      start(w->d2, Ty::D);
      start(w->i0, Ty::I);
      start(w->i1, Ty::I);
      start(w->b0, Ty::B);
      delete rec;
      return w;
    };
    alone.push_back(build());
    together.push_back(build());
    // first alone
    World &w = *alone.back();
    for (int i = 0; i < 15 && s.below(12); i++) {
      Plan q{&st[s.below(3) ? common[s.below(3)] : s.below(N)], genPar(s, w)};
      c.log([&](auto &o) {
        o << "[thread " << k << "] " << q.t->text << " {k0=" << q.p.k0 << " k1=" << q.p.k1 << " n0=" << q.p.n0 << " n1=" << q.p.n1 << " p0=" << q.p.p0 << " p1=" << q.p.p1 << " q0=" << q.p.q0 << " t0=" << q.p.t0 << "}; ";
      });
      refused[k].push_back(throws([&]() { q.t->fn(w, q.p); }));
      half(w);
      plan[k].push_back(q);
      steps++;
    }
  }
  // then at the same time
  std::vector<std::string> bad(K);
  std::vector<std::thread> th;
  for (int k = 0; k < K; k++)
    th.emplace_back([&, k]() {
      World &w = *together[k];
      for (size_t i = 0; i < plan[k].size(); i++) {
        const Plan &q = plan[k][i];
        bool r = throws([&]() { q.t->fn(w, q.p); });
        half(w);
        if (r != refused[k][i] && bad[k].empty())
          bad[k] = std::string(q.t->text) + (r ? " is refused" : " is accepted") + " while other threads are running";
      }
    });
  for (auto &t : th)
    t.join();
  for (int k = 0; k < K; k++) {
    std::string n = "thread " + std::to_string(k);
    if (!bad[k].empty())
      c.fail(n + ": " + bad[k]);
    Snaps a = snaps(*alone[k]), b = snaps(*together[k]);
    if (!sameSnap(a.d0, b.d0) || !sameSnap(a.d1, b.d1) || !sameSnap(a.d2, b.d2) || !sameSnap(a.i0, b.i0) || !sameSnap(a.i1, b.i1) || !sameSnap(a.b, b.b) || !sameSnap(a.w0, b.w0) || !sameSnap(a.w1, b.w1))
      c.fail(n + ": the variables have another content if other threads are running");
  }
  if (!sameSnap(sv0, snap(sv)) || !sameSnap(sm0, snap(sm)))
    c.fail("an object which was only read has changed");
  int busy = 0;
  for (int k = 0; k < K; k++)
    busy += plan[k].size() > 1;
  c.nontrivial(busy > 1);
  if (steps > 20)
    c.label("more than 20 statements");
}
