// storage which only borrows its memory
#include "etr_pch.hpp"
#include "etrgen.hpp"
#include <memory>
using namespace gen;
namespace {
using B = etr::Borrow<double>;
struct M {
  int mem = -1; // which memory
  size_t sz = 0, cap = 0;
  bool im = false;
  size_t nr = 0, nc = 0;
};
void history(Ctx &c) {
  Src &s = c.s;
  constexpr int N = 3, K = 2;
  std::vector<double> raw[K], model[K];
  constexpr size_t G = 3;
  constexpr double GUARD = -555.5;
  for (int k = 0; k < K; k++) {
    size_t n = genSize(s, 60);
    raw[k].assign(n + 2 * G, GUARD);
    for (size_t i = 0; i < n; i++)
      raw[k][G + i] = genSmall(s);
    model[k] = raw[k];
  }
  std::unique_ptr<B> b[N];
  M m[N];
  for (int i = 0; i < N; i++)
    b[i] = std::make_unique<B>();
  int steps = 1 + (int)s.below(24), changed = 0;
  for (int k = 0; k < steps; k++) {
    int i = (int)s.below(N), j = (int)s.below(N);
    B &x = *b[i];
    M &q = m[i];
    std::string n = "b" + std::to_string(i), t;
    auto place = [&](size_t p) -> double & { return model[q.mem][G + p]; };
    int op = (int)s.below(13);
    if (q.mem < 0 && op > 3)
      op = (int)s.below(2);
    switch (op) {
    case 0:
    case 1: {
      int w = (int)s.below(K);
      size_t all = raw[w].size() - 2 * G, z = s.below(3) ? all : 1 + s.below(all);
      t = n + " borrows " + std::to_string(z) + " of memory " + std::to_string(w);
      if (op == 0)
        x.init(raw[w].data() + G, z);
      else
        b[i] = std::make_unique<B>(raw[w].data() + G, z);
      bool im = op == 0 ? q.im : false;
      q = M{w, z, z, im, im ? q.nr : 0, im ? q.nc : 0};
      break;
    }
    case 2:
      if (m[j].mem < 0 || i == j)
        continue;
      t = n + " = copy of b" + std::to_string(j);
      if (s.below(2))
        b[i] = std::make_unique<B>(std::as_const(*b[j]));
      else
        x = std::as_const(*b[j]);
      q = m[j];
      break;
    case 3:
      if (m[j].mem < 0 || i == j)
        continue;
      t = n + " = moved b" + std::to_string(j);
      b[i] = std::make_unique<B>(std::move(*b[j]));
      q = m[j];
      m[j] = M();
      b[j] = std::make_unique<B>();
      break;
    case 4:
    case 5: {
      size_t z = 1 + s.below(q.cap + 3);
      t = n + ".resize(" + std::to_string(z) + ")";
      bool r = throws([&]() { x.resize(z); });
      if (r != (z > q.cap))
        c.fail(t + (r ? " is refused" : " is accepted") + " with capacity " + std::to_string(q.cap));
      if (!r)
        q.sz = z;
      break;
    }
    case 6:
    case 7: {
      size_t p = s.below(q.sz);
      double v = genSmall(s);
      t = n + "[" + std::to_string(p) + "] = " + num(v);
      if (op == 6)
        x[p] = v;
      else
        x.set(p, v);
      place(p) = v;
      changed++;
      break;
    }
    case 8: {
      size_t p = s.below(3) ? q.sz + s.pick({0, 1, 2, 1000}) : (size_t)-1;
      t = n + "[" + std::to_string(p) + "]";
      bool r = throws([&]() { x[p] = 1.0; }) && throws([&]() { x.set(p, 1.0); }) && throws([&]() { (void)std::as_const(x)[p]; });
      if (!r)
        c.fail(t + ": a position outside is accepted");
      break;
    }
    case 9: {
      if (s.below(2)) {
        double v = genSmall(s);
        t = n + ".fill(" + num(v) + ")";
        switch (s.below(3)) {
        case 0: x.fill(v); break;
        case 1: x.fill(double(v)); break;
        default: x.fill(std::as_const(v));
        }
        for (size_t p = 0; p < q.sz; p++)
          place(p) = v;
      } else {
        int v = (int)s.below(9) - 4;
        t = n + ".fill(" + std::to_string(v) + ")";
        if (s.below(2))
          x.fill(v);
        else
          x.fill(int(v));
        for (size_t p = 0; p < q.sz; p++)
          place(p) = v;
      }
      changed++;
      break;
    }
    case 10: {
      bool wrong = s.below(5) == 0;
      MV src = genVec(s, wrong ? q.sz + 1 : q.sz, s.below(2) ? Ty::I : Ty::D, SMALL);
      t = n + ".fill(" + str(src) + ")";
      bool r;
      if (src.ty == Ty::I) {
        auto o = make<int>(src);
        r = s.below(2) ? throws([&]() { x.fill(o); }) : throws([&]() { x.fill(etr::coca(o)); });
      } else {
        auto o = make<double>(src);
        r = s.below(2) ? throws([&]() { x.fill(o); }) : throws([&]() { x.fill(etr::coca(o)); });
      }
      if (r != wrong)
        c.fail(t + (r ? " is refused" : " is accepted with another length"));
      if (!r)
        for (size_t p = 0; p < q.sz; p++)
          place(p) = src.v[p];
      changed++;
      break;
    }
    case 11: {
      t = n + ": loop";
      size_t p = 0;
      for (auto &e : x) {
        if (p >= q.sz || !(e == place(p)))
          c.fail(t + ": wrong element");
        e = place(p) = e + 1;
        p++;
      }
      if (p != q.sz)
        c.fail(t + ": not all elements are visited");
      if (!(x.back() == place(q.sz - 1)) || x.data() != raw[q.mem].data() + G)
        c.fail(n + ".back() or data()");
      changed++;
      break;
    }
    case 12: {
      q.im = s.below(2);
      q.nr = q.im ? 1 + s.below(5) : 0;
      q.nc = q.im ? 1 + s.below(5) : 0;
      t = n + ".setMatrix";
      x.setMatrix(q.im, q.nr, q.nc);
      break;
    }
    }
    c.log([&](auto &o) { o << t << "; "; });
    for (int w = 0; w < K; w++)
      for (size_t p = 0; p < raw[w].size(); p++)
        if (!(raw[w][p] == model[w][p]))
          c.fail(t + ": memory " + std::to_string(w) + " at " + std::to_string((long)p - (long)G) + " is " + num(raw[w][p]) + " instead of " + num(model[w][p]));
    for (int a = 0; a < N; a++) {
      B &y = *b[a];
      M &r = m[a];
      std::string w = t + ": b" + std::to_string(a);
      if (y.size() != r.sz || y.capacity != r.cap)
        c.fail(w + ": size or capacity");
      if (r.mem >= 0 && (!y.allocated || y.p != raw[r.mem].data() + G))
        c.fail(w + ": is not at the borrowed memory");
      for (size_t p = 0; p < r.sz; p++)
        if (!(std::as_const(y)[p] == model[r.mem][G + p]))
          c.fail(w + ": wrong element");
      if (r.mem >= 0 && (y.im() != r.im || (r.im && (y.nr() != r.nr || y.nc() != r.nc))))
        c.fail(w + ": the dimensions are wrong");
    }
  }
  for (int a = 0; a < N; a++) { // the elements as they are written
    std::ostringstream o;
    o << *b[a];
    std::istringstream in(o.str());
    std::string w;
    size_t i = 0;
    while (in >> w) {
      char *end = nullptr;
      double x = std::strtod(w.c_str(), &end);
      if (*end || end == w.c_str())
        continue;
      if (i >= m[a].sz || std::fabs(x - model[m[a].mem][G + i]) > 1e-5 * std::fabs(x))
        c.fail("output of b" + std::to_string(a) + ": " + o.str());
      i++;
    }
    if (i != m[a].sz)
      c.fail("output of b" + std::to_string(a) + " with " + std::to_string(m[a].sz) + " elements: " + o.str());
  }
  c.nontrivial(changed > 1);
}
PBT_SUB_LEAK("borrow", 1.5, history);
} // namespace
