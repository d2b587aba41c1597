// model based histories of the storage classes against plain arrays
#include "etr_pch.hpp"
#include "etrgen.hpp"
#include <memory>
#include <optional>
#if defined(__SANITIZE_ADDRESS__)
extern "C" void *__asan_region_is_poisoned(void *beg, size_t size);
#endif
using namespace gen;

namespace {
// the contents which nobody has defined are not read: nullopt
struct Model {
  std::vector<std::optional<double>> v;
  bool im = false;
  size_t nr = 0, nc = 0;
  bool known = true; // moved-from objects are only used again after they got a content
  size_t size() const { return v.size(); }
  void keep(size_t n) { v.resize(n); }
  void all(size_t n, double x) { v.assign(n, x); }
};
std::string text(const Model &m) {
  std::ostringstream o;
  o << "[";
  for (size_t i = 0; i < m.v.size() && i < 12; i++)
    o << (i ? " " : "") << (m.v[i] ? num(*m.v[i]) : "?");
  if (m.v.size() > 12)
    o << " ... (" << m.v.size() << ")";
  o << "]";
  return o.str();
}
template <class T> using Store = etr::BaseStore<T>;

template <class S> void compare(Ctx &c, const S &b, const Model &m, const std::string &what) {
  using T = std::remove_cvref_t<decltype(*b.data())>;
  if (!m.known)
    return;
  if (b.size() != m.size())
    c.fail(what + ": size " + std::to_string(b.size()) + " instead of " + std::to_string(m.size()));
  for (size_t i = 0; i < m.size(); i++)
    if (m.v[i] && (double)b[i] != *m.v[i])
      c.fail(what + ": element " + std::to_string(i) + " is " + num((double)b[i]) + " instead of " + num(*m.v[i]) + " of " + text(m));
  if (b.capacity < b.size())
    c.fail(what + ": the capacity " + std::to_string(b.capacity) + " is smaller than the size " + std::to_string(b.size()));
#if defined(__SANITIZE_ADDRESS__)
  if (b.capacity && b.p && __asan_region_is_poisoned(b.p, b.capacity * sizeof(T)))
    c.fail(what + ": the memory is smaller than the capacity " + std::to_string(b.capacity));
#endif
  if (m.size() && (!b.allocated || !b.p))
    c.fail(what + ": elements without memory");
  if (b.im() != m.im || (m.im && (b.nr() != m.nr || b.nc() != m.nc)))
    c.fail(what + ": the dimensions are wrong");
}
// the elements as they are written
template <class S> void written(Ctx &c, const S &b, const Model &m, const std::string &what) {
  if (!m.known)
    return;
  for (auto &e : m.v)
    if (!e)
      return;
  std::ostringstream o;
  o << b;
  std::istringstream in(o.str());
  std::string w;
  size_t i = 0;
  while (in >> w) {
    char *end = nullptr;
    double x = std::strtod(w.c_str(), &end);
    if (*end || end == w.c_str())
      continue; // a name or a bracket
    if (i >= m.size() || std::fabs(x - *m.v[i]) > 1e-5 * std::fabs(x))
      c.fail(what + ": " + w + " is written at position " + std::to_string(i + 1) + " of " + text(m));
    i++;
  }
  if (i != m.size())
    c.fail(what + ": " + std::to_string(i) + " elements of " + text(m) + " are written");
}
template <class T> T val(Src &s) {
  if constexpr (std::is_same_v<T, bool>)
    return s.below(2);
  else if constexpr (std::is_same_v<T, std::size_t>)
    return s.below(1000);
  else if constexpr (std::is_same_v<T, int>)
    return (int)s.range(-1000, 1000);
  else
    return genSmall(s);
}
template <class T> void history(Ctx &c) {
  Src &s = c.s;
  constexpr int N = 3;
  std::unique_ptr<Store<T>> b[N];
  Model m[N];
  auto size = [&](int i) -> size_t { // sizes near the present size and capacity are frequent
    if (s.below(3) == 0) {
      int64_t base = s.below(2) && b[i] ? (int64_t)b[i]->capacity : (int64_t)m[i].size();
      return (size_t)std::max<int64_t>(1, base + s.range(-2, 2));
    }
    return genSize(s, 150);
  };
  auto reset = [&](Model &x, Model y) { x = std::move(y); };
  for (int i = 0; i < N; i++)
    b[i] = std::make_unique<Store<T>>();
  int steps = 1 + (int)s.below(24), grown = 0, moved = 0;
  for (int k = 0; k < steps; k++) {
    int i = (int)s.below(N), j = (int)s.below(N);
    Store<T> &x = *b[i];
    Model &q = m[i];
    std::string n = "s" + std::to_string(i), n2 = "s" + std::to_string(j), t;
    size_t oldCap = x.capacity;
    int op = (int)s.below(24);
    if (!q.known && op != 0 && op != 1 && op != 2)
      op = 2; // it needs a content first
    switch (op) {
    case 0: { // a new object
      int how = (int)s.below(3);
      size_t z = genSize(s, 150);
      Model y;
      if (how == 0) {
        t = n + " = new store";
        b[i] = std::make_unique<Store<T>>();
      } else {
        y.all(z, 0);
        t = n + " = new store of " + std::to_string(z);
        if (how == 1)
          b[i] = std::make_unique<Store<T>>(z);
        else
          b[i] = std::make_unique<Store<T>>((int)z);
      }
      reset(q, y);
      break;
    }
    case 1: { // copy construction
      if (!m[j].known || i == j)
        continue;
      t = n + " = copy of " + n2;
      b[i] = std::make_unique<Store<T>>(std::as_const(*b[j]));
      reset(q, m[j]);
      break;
    }
    case 2: // copy assignment
      if (!m[j].known || (i != j && !q.known && s.below(2)))
        continue;
      if (s.below(4) == 0 && i != j) { // from a temporary
        t = n + " = temporary copy of " + n2;
        Store<T> tmp(*b[j]);
        x = tmp;
      } else {
        t = n + " = " + n2;
        x = std::as_const(*b[j]);
      }
      reset(q, m[j]);
      break;
    case 3: { // resize
      size_t z = size(i);
      t = n + ".resize(" + std::to_string(z) + ")";
      bool over = !x.allocated || z > x.capacity;
      x.resize(z);
      if (over)
        q.all(z, 0); // new memory
      else
        q.keep(z);
      break;
    }
    case 4: { // init: the content is undefined
      size_t z = size(i);
      t = n + ".init(" + std::to_string(z) + ")";
      x.init(z);
      q.v.assign(z, std::nullopt);
      if (s.below(3)) {
        T v = val<T>(s);
        t += " and fill(" + num((double)v) + ")";
        switch (s.below(3)) {
        case 0: x.fill(v); break;
        case 1: x.fill(T(v)); break;
        default: x.fill(std::as_const(v));
        }
        q.all(z, (double)v);
      }
      break;
    }
    case 5: { // fill with a number
      T v = val<T>(s);
      if (s.below(2)) {
        t = n + ".fill(" + num((double)v) + ")";
        switch (s.below(3)) {
        case 0: x.fill(v); break;
        case 1: x.fill(T(v)); break;
        default: x.fill(std::as_const(v));
        }
        q.all(q.size(), (double)v);
      } else {
        double d = genSmall(s);
        if constexpr (std::is_same_v<T, std::size_t>)
          d = std::fabs(d);
        t = n + ".fill(" + num(d) + ")";
        if (s.below(2))
          x.fill(d);
        else
          x.fill(double(d));
        q.all(q.size(), std::is_same_v<T, double> ? d : std::is_same_v<T, bool> ? (double)(d != 0) : std::trunc(d));
      }
      break;
    }
    case 6: { // fill with objects
      if constexpr (!std::is_same_v<T, std::size_t>) {
        if (!q.size())
          continue;
        int how = (int)s.below(5);
        bool wrong = s.below(6) == 0;
        size_t z = wrong ? q.size() + 1 + s.below(3) : q.size();
        MV src = genVec(s, z, how == 1 ? Ty::I : how == 2 ? Ty::B : tyOf<T>(), SMALL);
        t = n + ".fill(" + std::to_string(how) + ": " + str(src) + ")";
        auto run = [&](auto &&f) {
          bool refused = throws(f);
          if (refused != wrong)
            c.fail(t + (refused ? " is refused" : " is accepted with another length"));
        };
        if (how == 1) {
          auto o = make<int>(src);
          run([&]() { x.fill(o); });
        } else if (how == 2) {
          auto o = make<bool>(src);
          run([&]() { x.fill(o); });
        } else if (how == 3) { // the memory of a result is taken
          auto o = make<T>(src);
          run([&]() { x.fill(etr::coca(o)); });
        } else if (how == 4) {
          if constexpr (!std::is_same_v<T, double>)
            continue;
          else {
          auto o = make<T>(src);
          std::vector<double> pos;
          for (size_t k2 = 0; k2 < z; k2++)
            pos.push_back(1.0 + k2);
          auto iv = make<double>(ref::vec(pos));
          run([&]() { x.fill(etr::subset(o, iv)); });
          }
        } else {
          auto o = make<T>(src);
          run([&]() { x.fill(o); });
          if (!wrong) { // independent of the source
            o[0] = T();
          }
        }
        if (!wrong) {
          for (size_t k2 = 0; k2 < z; k2++)
            q.v[k2] = conv(src.v[k2], tyOf<T>());
        }
      }
      break;
    }
    case 7:
    case 8: { // reallocation keeps the content
      size_t z = size(i);
      t = n + ".realloc(" + std::to_string(z) + ")";
      x.realloc(z);
      size_t old = q.size();
      q.keep(z);
      for (size_t k2 = old; k2 < z; k2++)
        q.v[k2] = 0;
      break;
    }
    case 9:
    case 10:
    case 11:
    case 12:
    case 13: { // append one or several elements
      int z = s.below(3) ? 1 : 1 + (int)s.below(40);
      t = n + ": append " + std::to_string(z);
      for (int k2 = 0; k2 < z; k2++) {
        T v = val<T>(s);
        x.push_back(v);
        q.v.push_back((double)v);
        if (x.capacity < x.size())
          c.fail(t + ": the capacity is smaller than the size");
      }
      break;
    }
    case 14: { // exchange the memory
      if (i == j || !m[j].known)
        continue;
      t = n + ".moveit(" + n2 + ")";
      const T *p1 = x.p, *p2 = b[j]->p;
      x.moveit(*b[j]);
      if (x.p != p2 || b[j]->p != p1)
        c.fail(t + ": the memory is not handed over");
      std::swap(q.v, m[j].v); // the dimensions stay
      moved++;
      break;
    }
    case 15: { // move construction
      if (i == j || !m[j].known)
        continue;
      t = n + " = moved " + n2;
      const T *p2 = b[j]->p;
      b[i] = std::make_unique<Store<T>>(std::move(*b[j]));
      if (b[i]->p != p2)
        c.fail(t + ": the memory is not handed over");
      reset(q, m[j]);
      m[j] = Model();
      m[j].known = false;
      moved++;
      break;
    }
    case 16:
    case 17:
    case 18: { // change one element
      if (!q.size())
        continue;
      size_t p = s.below(q.size());
      T v = val<T>(s);
      t = n + "[" + std::to_string(p) + "] = " + num((double)v);
      x[p] = v;
      q.v[p] = (double)v;
      break;
    }
    case 19: { // a position which does not exist
      size_t p = q.size() + s.pick({0, 1, 7, 1000000});
      if (s.below(4) == 0)
        p = (size_t)-1;
      t = n + "[" + std::to_string(p) + "]";
      bool r1 = throws([&]() { x[p] = T(1); });
      bool r2 = throws([&]() { (void)std::as_const(x)[p]; });
      if (!r1 || !r2)
        c.fail(t + ": a position outside is accepted");
      break;
    }
    case 20: { // visit the elements
      t = n + ": loop";
      size_t k2 = 0;
      for (auto &e : x) {
        if (k2 >= q.size())
          c.fail(t + ": too many elements");
        if (q.v[k2] && (double)e != *q.v[k2])
          c.fail(t + ": wrong element");
        T v = val<T>(s);
        e = v;
        q.v[k2] = (double)v;
        k2++;
      }
      if (k2 != q.size())
        c.fail(t + ": not all elements are visited");
      break;
    }
    case 21: { // first and last
      if (!q.size() || !q.v[0] || !q.v[q.size() - 1])
        continue;
      t = n + ".back()";
      if ((double)x.back() != *q.v[q.size() - 1])
        c.fail(t + " is " + num((double)x.back()) + " instead of " + num(*q.v[q.size() - 1]));
      T v = val<T>(s);
      x.back() = v;
      q.v[q.size() - 1] = (double)v;
      if (x.data()[0] != x[0])
        c.fail("data()");
      break;
    }
    case 22: { // dimensions are only stored
      bool im = s.below(2);
      size_t r = im ? 1 + s.below(5) : 0, cc = im ? 1 + s.below(5) : 0;
      t = n + ".setMatrix";
      if (s.below(2)) {
        x.setMatrix(im, r, cc);
      } else {
        etr::MatrixParameter mp;
        mp.setMatrix(im, r, cc);
        x.setMatrix(mp);
      }
      q.im = im;
      q.nr = r;
      q.nc = cc;
      break;
    }
    case 23: { // size 0 is refused
      t = n + ".resize(0)";
      if (!throws([&]() { x.resize(0); }))
        c.fail(t + " is accepted");
      if (!throws([&]() { Store<T> y(size_t(0)); }) || !throws([&]() { Store<T> y(int(0)); }))
        c.fail("a store of size 0 is accepted");
      break;
    }
    }
    if (b[i]->capacity > oldCap && oldCap)
      grown++;
    c.log([&](auto &o) { o << t << "; "; });
    for (int a = 0; a < N; a++)
      compare(c, *b[a], m[a], t + ": s" + std::to_string(a));
  }
  for (int a = 0; a < N; a++)
    written(c, *b[a], m[a], "output of s" + std::to_string(a));
  if (grown)
    c.label("memory grown");
  if (moved)
    c.label("memory handed over");
  c.nontrivial(steps > 3 && (grown || moved));
}
} // namespace
