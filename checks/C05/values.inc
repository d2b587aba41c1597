// value semantics: random histories over numeric, integer and logical variables
#include "etr_pch.hpp"
#include "idxgen.hpp"
#include <memory>
using namespace gen;

template <class T> struct Var {
  etr::Vec<T> x;
  MV m;
  bool set = false;
};
struct World {
  Var<double> d[3];
  Var<int> i[2];
  Var<bool> b[2];
  // f(variable)
  template <class F> void visit(int k, F &&f) {
    if (k < 3)
      f(d[k]);
    else if (k < 5)
      f(i[k - 3]);
    else
      f(b[k - 5]);
  }
};
static const char *vn[] = {"d0", "d1", "d2", "i0", "i1", "b0", "b1"};

template <class T> static void byValue(etr::Vec<T> p, const T &v) {
  p[0] = v;
  p = etr::coca(v, v, v);
}
template <class T> static void byRef(etr::Vec<T> &p, const T &v) { p = etr::coca(p, v); }
template <class T> static etr::Vec<T> returned(const etr::Vec<T> &p, const T &v) {
  etr::Vec<T> l;
  l = p;
  l[0] = v;
  return l;
}
template <class T> static etr::Vec<T> through(etr::Vec<T> p) { return p; }

inline bool limited(const MV &m) {
  for (double x : m.v)
    if (!(std::fabs(x) < 1e9))
      return false;
  return true;
}

// one step; returns the text of the step or an empty string
template <class T> std::string step(Ctx &c, World &w, int ia, Var<T> &a) {
  Src &s = c.s;
  const Ty ty = tyOf<T>();
  std::string text, n = vn[ia];
  auto done = [&](MV m) {
    a.m = convTo(m, ty);
    a.m.scalar = false;
    a.set = true;
  };
  int op = (int)s.below(40);
  int ib = (int)s.below(7);
  // the size often is near the present capacity
  auto size = [&]() -> size_t {
    if (a.set && s.below(3) == 0) {
      size_t cur = a.m.size();
      return std::max<int64_t>(1, (int64_t)cur + s.range(-3, 3) + (s.below(2) ? (int64_t)(cur * 0.15) : 0));
    }
    return genSize(s, 150);
  };
  if (op < 6 || !a.set) {
    switch (op % 6) {
    case 0: {
      double v = genOf(s, ty, SMALL);
      a.x = static_cast<T>(v);
      done(ref::vec({v}));
      return n + " = " + num(v);
    }
    case 1: {
      double v = genSmall(s);
      a.x = v;
      done(ref::vec({v}));
      return n + " = double " + num(v);
    }
    case 2: {
      MV m = genVec(s, size(), ty, REAL);
      if (!limited(m))
        return "";
      auto t = make<T>(m);
      a.x = t;
      t[0] = T(1); // the assigned object is independent
      t = T(0);
      done(m);
      return n + " = vector of " + std::to_string(m.size());
    }
    case 3: {
      MV m = genMat(s, genDim(s, 5), genDim(s, 5), ty, SMALL);
      auto t = make<T>(m);
      a.x = t;
      t[0] = T(1);
      done(m);
      return n + " = matrix " + str(m);
    }
    case 4: {
      MV m = genVec(s, 3, ty, SMALL);
      a.x = etr::coca(T(m.v[0]), T(m.v[1]), T(m.v[2]));
      done(m);
      return n + " = coca" + str(m);
    }
    case 5: {
      int p = (int)s.below(9) - 4, q = (int)s.below(9) - 4;
      MV m;
      for (int k = p; p <= q ? k <= q : k >= q; k += p <= q ? 1 : -1)
        m.v.push_back(k);
      a.x = etr::colon(p, q);
      done(m);
      return n + " = " + std::to_string(p) + ":" + std::to_string(q);
    }
    }
  }
  if (op < 20) { // with another variable (perhaps the same)
    std::string r;
    w.visit(ib, [&](auto &b) {
      using U = std::remove_cvref_t<decltype(b.x[0])>;
      if (!b.set)
        return;
      std::string nb = vn[ib];
      switch (op) {
      case 6:
      case 7:
        if (!limited(b.m))
          return;
        a.x = b.x;
        done(b.m);
        r = n + " = " + nb;
        return;
      case 8: {
        if (a.m.size() + b.m.size() > 2000 || !limited(b.m))
          return;
        MV m = a.m;
        m.im = false;
        m.v.insert(m.v.end(), b.m.v.begin(), b.m.v.end());
        a.x = etr::coca(a.x, b.x);
        done(m);
        r = n + " = coca(" + n + ", " + nb + ")";
        return;
      }
      case 9:
      case 10: { // a = a + b, the longer one determines the length
        if ((a.m.im && b.m.size() > a.m.size()) || (b.m.im && a.m.size() > b.m.size()) ||
            (a.m.im && b.m.im && (a.m.nr != b.m.nr || a.m.nc != b.m.nc)))
          return;
        MV m = apply2(op == 9 ? ADD : MUL, a.m, b.m);
        if (!limited(m))
          return;
        if (op == 9)
          a.x = a.x + b.x;
        else
          a.x = b.x * a.x;
        done(m);
        r = n + " = " + n + (op == 9 ? " + " : " * ") + nb;
        return;
      }
      case 11: { // a = b(index)
        if (!limited(b.m))
          return;
        IdxOpt o;
        o.needOne = true;
        withIndex(s, s.pick({I_INT, I_VDBL, I_TRUE, I_VBOOL, I_COLON}), b.m.size(), o, [&](auto &&i, const Sel &sel) {
          MV m = select(b.m, sel.pos);
          a.x = etr::subset(b.x, i);
          done(m);
          r = n + " = " + nb + "(" + sel.text + ")";
        });
        return;
      }
      case 12: { // subset of a calculation with both
        if ((a.m.im || b.m.im))
          return;
        MV m = apply2(SUB, a.m, b.m);
        if (!limited(m))
          return;
        size_t k = 1 + s.below(m.size());
        a.x = etr::subset(a.x - b.x, +(int)k);
        done(ref::vec({m.v[k - 1]}));
        r = n + " = (" + n + " - " + nb + ")(" + std::to_string(k) + ")";
        return;
      }
      case 13: { // copy constructor
        etr::Vec<U> t(b.x);
        MV mt = b.m;
        expectVec(c, t, mt, "copy of " + nb);
        t[0] = U(1);
        mt.v[0] = 1;
        expectVec(c, b.x, b.m, nb + " after a change of its copy");
        if (s.below(2)) { // change the original, the copy stays
          b.x[b.m.size() - 1] = U(0);
          b.m.v.back() = 0;
          expectVec(c, t, mt, "copy after a change of the original");
        }
        if (!limited(mt))
          return;
        a.x = t;
        done(mt);
        r = n + " = changed copy of " + nb;
        return;
      }
      case 14: { // function parameters
        byValue<U>(b.x, U(1));
        r = "byValue(" + nb + ")";
        return;
      }
      case 15: {
        if (b.m.size() > 1000)
          return;
        byRef<U>(b.x, U(1));
        b.m.im = false;
        b.m.v.push_back(1);
        r = "byRef(" + nb + ")";
        return;
      }
      case 16: {
        if (!limited(b.m))
          return;
        a.x = returned<U>(b.x, U(0));
        MV m = b.m;
        m.v[0] = 0;
        done(m);
        r = n + " = returned(" + nb + ")";
        return;
      }
      case 17: { // a container of copies
        struct Holder {
          int k;
          etr::Vec<U> x;
        };
        std::vector<Holder> v;
        for (int k = 0; k < 3; k++) {
          v.push_back(Holder{k, b.x});
          v[k].x[0] = U(k % 2);
        }
        for (int k = 0; k < 3; k++) {
          MV m = b.m;
          m.v[0] = conv(k % 2, tyOf<U>());
          expectVec(c, v[k].x, m, "element of a container of copies");
        }
        v[0] = v[1];
        v.pop_back();
        MV m = b.m;
        m.v[0] = 1;
        expectVec(c, v[0].x, m, "element of a container of copies");
        r = "container of " + nb;
        return;
      }
      case 18: { // a = b twice, in a chain
        if (!limited(b.m))
          return;
        etr::Vec<T> t;
        t = a.x = b.x;
        done(b.m);
        expectVec(c, t, a.m, "chained assignment");
        r = n + " = " + nb + " (chain)";
        return;
      }
      case 19: { // an assignment in the other direction
        if (!limited(a.m))
          return;
        const auto &ca = a.x; // constant source
        b.x = ca;
        MV m = convTo(a.m, tyOf<U>());
        b.m = m;
        r = nb + " = constant " + n;
        return;
      }
      }
    });
    return r;
  }
  switch (op) {
  default:
  case 20:
  case 21: {
    size_t k = s.below(a.m.size());
    double v = genOf(s, ty, SMALL);
    a.x[k] = static_cast<T>(v);
    a.m.v[k] = v;
    return n + "[" + std::to_string(k) + "] = " + num(v);
  }
  case 22: {
    size_t k = s.below(a.m.size());
    double v = genOf(s, ty, SMALL);
    etr::at(a.x, +(int)(k + 1)) = static_cast<T>(v);
    a.m.v[k] = v;
    return "at(" + n + ", " + std::to_string(k + 1) + ") = " + num(v);
  }
  case 23: {
    double v = genOf(s, ty, SMALL);
    IdxOpt o;
    withIndex(s, s.pick({I_INT, I_VDBL, I_TRUE}), a.m.size(), o, [&](auto &&i, const Sel &sel) {
      etr::subset(a.x, i) = static_cast<T>(v);
      for (size_t p : sel.pos)
        a.m.v[p] = v;
      text = n + "(" + sel.text + ") = " + num(v);
    });
    return text;
  }
  case 24:
    a.x = a.x;
    return n + " = " + n;
  case 25: { // reversed
    MV m = ref::vec(std::vector<double>(a.m.v.rbegin(), a.m.v.rend()));
    a.x = etr::subset(a.x, etr::colon(+(int)m.size(), 1));
    done(m);
    return n + " = reversed " + n;
  }
  case 26: { // exchange of two variables of the same type
    auto *p = &a;
    if constexpr (std::is_same_v<T, double>)
      p = &w.d[s.below(3)];
    else if constexpr (std::is_same_v<T, int>)
      p = &w.i[s.below(2)];
    else
      p = &w.b[s.below(2)];
    if (!p->set)
      return "";
    if (s.below(2)) {
      std::swap(a.x, p->x);
      text = "std::swap(" + n + ", another one)";
    } else {
      etr::Vec<T> t;
      t = a.x;
      a.x = p->x;
      p->x = t;
      text = "exchange of " + n + " with another one";
    }
    std::swap(a.m, p->m);
    return text;
  }
  case 27: {
    T v = T(s.below(2));
    a.x.fill(v);
    for (auto &q : a.m.v)
      q = v;
    return n + ".fill";
  }
  case 28: { // moved from and assigned again
    etr::Vec<T> t(std::move(a.x));
    expectVec(c, t, a.m, "moved " + n);
    a.x = t;
    expectVec(c, t, a.m, "moved " + n);
    return n + " moved away and back";
  }
  case 29: {
    a.x = through<T>(a.x);
    return n + " = through(" + n + ")";
  }
  case 30: {
    auto t = std::make_unique<etr::Vec<T>>(a.x);
    MV m = a.m;
    a.x = T(1);
    done(ref::vec({1.0}));
    expectVec(c, *t, m, "copy of " + n);
    a.x = *t;
    t.reset();
    done(m);
    return n + " released copy";
  }
  case 31: { // initialisation with objects
    etr::Vec<T> t = a.x;
    MV m = a.m;
    if (m.size() < 500) {
      t = etr::coca(t, t);
      m.im = false;
      m.v.insert(m.v.end(), a.m.v.begin(), a.m.v.end());
    }
    expectVec(c, t, m, "coca(t, t)");
    return "t = " + n;
  }
  case 32: {
    if (a.m.size() > 1000)
      return "";
    int k = 1 + (int)s.below(3);
    MV m;
    for (int q = 0; q < k; q++)
      m.v.insert(m.v.end(), a.m.v.begin(), a.m.v.end());
    a.x = etr::rep(a.x, +k);
    done(m);
    return n + " = rep(" + n + ", " + std::to_string(k) + ")";
  }
  case 33: { // through a matrix
    size_t R = a.m.size(), C = 1;
    for (size_t d = 2; d <= 5; d++)
      if (a.m.size() % d == 0 && s.below(2)) {
        C = d;
        R = a.m.size() / d;
      }
    MV m = mat(a.m.v, R, C);
    auto t = a.x;
    a.x = etr::matrix(std::move(t), size_t{R}, size_t{C});
    done(m);
    return n + " = matrix(" + n + ", " + std::to_string(R) + ", " + std::to_string(C) + ")";
  }
  case 34: { // part of itself: x(i) = x(j)
    size_t k = 1 + s.below(a.m.size());
    std::vector<double> i, j;
    for (size_t q = 0; q < k; q++) {
      i.push_back(1.0 + s.below(a.m.size()));
      j.push_back(1.0 + s.below(a.m.size()));
    }
    auto iv = make<double>(ref::vec(i));
    auto jv = make<double>(ref::vec(j));
    etr::subset(a.x, iv) = etr::subset(a.x, jv);
    MV old = a.m;
    for (size_t q = 0; q < k; q++)
      a.m.v[i[q] - 1] = old.v[j[q] - 1];
    return n + "(" + posText(i) + ") = " + n + "(" + posText(j) + ")";
  }
  case 35: { // a failing assignment changes nothing
    auto iv = make<double>(ref::vec({1.0, 1.0}));
    if (!throws([&]() { etr::subset(a.x, iv) = etr::coca(T(1), T(0), T(1)); }))
      c.fail("3 elements can be assigned to 2");
    return n + "(1, 1) = coca(1, 0, 1) refused";
  }
  case 36: { // two times the same variable
    MV m = apply2(MUL, a.m, a.m);
    if (!limited(m))
      return "";
    a.x = a.x * a.x;
    done(m);
    return n + " = " + n + " * " + n;
  }
  case 37: { // growing one by one
    if (a.m.size() > 300)
      return "";
    int k = 1 + (int)s.below(6);
    for (int q = 0; q < k; q++) {
      a.x = etr::coca(a.x, T(q % 2));
      a.m.v.push_back(conv(q % 2, ty));
    }
    a.m.im = false;
    return n + " grows by " + std::to_string(k);
  }
  case 38: { // a const copy
    const etr::Vec<T> t = a.x;
    MV m = a.m;
    a.x[0] = T(0);
    a.m.v[0] = 0;
    expectVec(c, t, m, "constant copy");
    etr::Vec<T> u;
    u = t;
    expectVec(c, u, m, "copy of the constant copy");
    return n + "[0] = 0 beside of a constant copy";
  }
  case 39: {
    etr::Vec<T> t(etr::coca(a.x, a.x));
    MV m = a.m;
    m.im = false;
    m.v.insert(m.v.end(), a.m.v.begin(), a.m.v.end());
    expectVec(c, t, m, "variable created from a function result");
    if (m.v.size() < 600) { // grow it
      t = etr::coca(t, T(1));
      m.v.push_back(1);
      expectVec(c, t, m, "variable created from a function result, appended");
    }
    return "t(coca(" + n + ", " + n + "))";
  }
  }
}
