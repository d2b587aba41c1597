// storage objects against plain arrays while chosen allocations fail
#include "../C23/store.inc"
#include <new>
extern long oomCountdown, oomFailed;
extern bool oomArrays;
namespace {
template <class T> void failing(Ctx &c) {
  Src &s = c.s;
  constexpr int N = 3;
  std::unique_ptr<Store<T>> b[N];
  Model m[N];
  for (int i = 0; i < N; i++) {
    b[i] = std::make_unique<Store<T>>();
    if (s.below(4)) {
      size_t z = genSize(s, 60);
      b[i]->resize(z);
      m[i].all(z, 0);
      for (size_t p = 0; p < z; p++) {
        T v = val<T>(s);
        (*b[i])[p] = v;
        m[i].v[p] = (double)v;
      }
    }
  }
  oomArrays = true;
  int steps = 1 + (int)s.below(30), lost = 0;
  for (int k = 0; k < steps; k++) {
    int i = (int)s.below(N), j = (int)s.below(N);
    Store<T> &x = *b[i];
    Model &q = m[i];
    Model after = q; // if there is enough memory
    std::string n = "s" + std::to_string(i), n2 = "s" + std::to_string(j), t;
    auto size = [&]() -> size_t {
      if (s.below(3) == 0) {
        int64_t base = s.below(2) ? (int64_t)x.capacity : (int64_t)q.size();
        return (size_t)std::max<int64_t>(1, base + s.range(-2, 2));
      }
      return genSize(s, 150);
    };
    int op = (int)s.below(8);
    bool fail = s.below(2);
    bool gone = false, refused = false;
    auto run = [&](auto &&f) {
      oomCountdown = fail ? 0 : -1;
      try {
        f();
      } catch (const std::bad_alloc &) {
        gone = true;
      } catch (const std::exception &) {
        refused = true;
      }
      oomCountdown = -1;
    };
    switch (op) {
    case 0: {
      size_t z = size();
      t = n + ".resize(" + std::to_string(z) + ")";
      if (!x.allocated || z > x.capacity)
        after.all(z, 0);
      else
        after.keep(z);
      run([&]() { x.resize(z); });
      break;
    }
    case 1: {
      size_t z = size();
      t = n + ".realloc(" + std::to_string(z) + ")";
      after.keep(z);
      for (size_t p = q.size(); p < z; p++)
        after.v[p] = 0;
      run([&]() { x.realloc(z); });
      break;
    }
    case 2:
    case 3: { // one after the other: the first ones can succeed
      int z = s.below(2) ? 1 : 1 + (int)s.below(40);
      t = n + ": append " + std::to_string(z);
      for (int k2 = 0; k2 < z && !gone; k2++) {
        T v = val<T>(s);
        run([&]() { x.push_back(v); });
        if (!gone) {
          q.v.push_back((double)v);
          if (q.size() < 1000)
            compare(c, x, q, t);
        }
      }
      after = q;
      break;
    }
    case 4:
      if (i == j)
        continue;
      t = n + " = " + n2;
      after = m[j];
      run([&]() { x = std::as_const(*b[j]); });
      break;
    case 5: {
      if (i == j)
        continue;
      t = n + " = copy of " + n2;
      after = m[j];
      std::unique_ptr<Store<T>> y;
      run([&]() {
        long cd = oomCountdown;
        oomCountdown = -1;
        void *mem = ::operator new(sizeof(Store<T>));
        oomCountdown = cd;
        try {
          y.reset(::new (mem) Store<T>(std::as_const(*b[j])));
        } catch (...) {
          ::operator delete(mem);
          throw;
        }
      });
      if (!gone)
        b[i] = std::move(y);
      break;
    }
    case 6: {
      size_t z = size();
      T v = val<T>(s);
      t = n + ".init(" + std::to_string(z) + ") and fill(" + num((double)v) + ")";
      after.all(z, (double)v);
      run([&]() {
        x.init(z);
        x.fill(v);
      });
      break;
    }
    case 7: {
      if constexpr (std::is_same_v<T, std::size_t>)
        continue;
      else {
        if (!q.size())
          continue;
        MV src = genVec(s, q.size(), tyOf<T>(), SMALL);
        t = n + ".fill(" + str(src) + ")";
        auto o = make<T>(src);
        for (size_t p = 0; p < src.size(); p++)
          after.v[p] = conv(src.v[p], tyOf<T>());
        run([&]() { x.fill(etr::coca(o)); });
      }
      break;
    }
    }
    if (gone)
      t += " (no memory)";
    c.log([&](auto &o) { o << t << "; "; });
    if (refused)
      c.fail(t + " is refused");
    if (gone && !fail)
      c.fail(t + ": an impossible amount of memory is requested");
    lost += gone;
    if (!gone)
      q = after;
    for (size_t p = 0; p < q.size(); p++) // nobody has defined them yet
      if (!q.v[p]) {
        T v = val<T>(s);
        x[p] = v;
        q.v[p] = (double)v;
      }
    for (int a = 0; a < N; a++)
      compare(c, *b[a], m[a], t + ": s" + std::to_string(a));
  }
  oomArrays = false;
  c.nontrivial(lost > 0);
}
PBT_SUB_LEAK("storage double", 1, failing<double>);
PBT_SUB_LEAK("storage int", 0.5, failing<int>);
PBT_SUB_LEAK("storage bool", 0.5, failing<bool>);
PBT_SUB_LEAK("storage size_t", 0.3, failing<std::size_t>);
} // namespace
