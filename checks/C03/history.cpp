// the dimensions of variables through histories of assignments
#include "etr_pch.hpp"
#include "idxgen.hpp"
using namespace gen;

template <class T> struct Var {
  etr::Vec<T> x;
  MV m;
  bool set = false;
};

template <class V> static void checkDims(Ctx &c, V &x, const MV &m, const std::string &what) {
  expectVec(c, x, m, what);
  if (m.im) {
    auto d = etr::dim(x);
    c.require(d.size() == 2 && d[0] == (int)m.nr && d[1] == (int)m.nc, what + ": dim()");
    // column by column
    for (size_t r = 0; r < m.nr; r++)
      for (size_t k = 0; k < m.nc; k++)
        if (!same(etr::at(x, +(int)(r + 1), +(int)(k + 1)), m.v[k * m.nr + r]))
          c.fail(what + ": row " + std::to_string(r + 1) + " column " + std::to_string(k + 1));
  } else {
    string msg;
    c.require(throws([&]() { etr::dim(x); }), what + ": dim() of a vector has to be refused");
  }
}

template <class T> static void history(Ctx &c) {
  Src &s = c.s;
  overflow() = false;
  std::vector<Var<T>> v(3);
  int steps = 1 + (int)s.below(10);
  bool toMat = false, toVec = false;
  const Ty ty = tyOf<T>();
  for (int k = 0; k < steps; k++) {
    auto &a = v[s.below(3)];
    auto &b = v[s.below(3)];
    bool was = a.set && a.m.im;
    std::string what;
    int R = (int)genDim(s), C = (int)genDim(s);
    size_t keep = a.set ? a.m.size() : 0;
    int op = (int)s.below(17);
    if (op >= 6 && !b.set)
      op = (int)s.below(6);
    switch (op) {
    case 0: { // vector, often with the number of elements of the old content
      size_t n = keep && s.below(2) ? keep : genSize(s, 60);
      MV m = genVec(s, n, ty, SMALL);
      auto t = make<T>(m);
      what = "x = vector of " + std::to_string(n);
      a.x = t;
      a.m = m;
      break;
    }
    case 1: { // matrix
      if (keep && s.below(2)) {
        R = (int)keep;
        C = 1;
        for (int d = 2; d <= 7; d++)
          if (keep % d == 0 && s.below(2)) {
            R = d;
            C = (int)keep / d;
          }
      }
      MV m = genMat(s, R, C, ty, SMALL);
      auto t = make<T>(m);
      what = "x = " + std::to_string(R) + "x" + std::to_string(C);
      a.x = t;
      a.m = m;
      break;
    }
    case 2: {
      T d = (T)s.below(2);
      a.x = d;
      a.m = ref::vec({(double)d}, ty);
      what = "x = scalar";
      break;
    }
    case 3: {
      MV m = genMat(s, R, C, ty, SMALL);
      auto t = make<T>(ref::vec(m.v, ty));
      a.x = etr::matrix(std::move(t), +R, +C);
      a.m = m;
      what = "x = matrix(v, r, c)";
      break;
    }
    case 4: {
      a.x = etr::coca(T(1), T(0), T(1));
      a.m = ref::vec({1, 0, 1}, ty);
      what = "x = coca()";
      break;
    }
    case 5: {
      a.x = etr::matrix(T(1), +R, +C);
      a.m = mat(std::vector<double>(R * C, 1.0), R, C, ty);
      what = "x = matrix(1, r, c)";
      break;
    }
    case 6:
    case 7:
      a.x = b.x;
      a.m = b.m;
      what = "x = y";
      break;
    case 8: {
      a.x = b.x * T(1);
      a.m = b.m;
      what = "x = y * 1";
      break;
    }
    case 9: {
      if (ty == Ty::B)
        continue;
      a.x = -b.x;
      a.m = apply1(NEG, b.m);
      what = "x = -y";
      break;
    }
    case 10: { // y(i)
      IdxOpt o;
      o.needOne = true;
      withIndex(s, s.pick({I_INT, I_VDBL, I_TRUE, I_VBOOL}), b.m.size(), o, [&](auto &&i, const Sel &sel) {
        MV m = select(b.m, sel.pos);
        a.x = etr::subset(b.x, i);
        a.m = m;
        what = "x = y(" + sel.text + ")";
      });
      break;
    }
    case 11: { // y(i, j)
      if (!b.m.im)
        continue;
      IdxOpt o;
      o.needOne = true;
      withIndex(s, s.pick({I_TRUE, I_INT, I_VDBL, I_COLON}), b.m.nr, o, [&](auto &&i, const Sel &si) {
        if constexpr (std::is_same_v<std::remove_cvref_t<decltype(i)>, bool> ||
                      std::is_same_v<std::remove_cvref_t<decltype(i)>, int> ||
                      std::is_same_v<std::remove_cvref_t<decltype(i)>, sexp>)
          withIndex(s, s.pick({I_TRUE, I_INT, I_VDBL}), b.m.nc, o, [&](auto &&j, const Sel &sj) {
            if constexpr (std::is_same_v<std::remove_cvref_t<decltype(j)>, bool> ||
                          std::is_same_v<std::remove_cvref_t<decltype(j)>, int> ||
                          std::is_same_v<std::remove_cvref_t<decltype(j)>, sexp>) {
              MV m = select(b.m, si, sj);
              a.x = etr::subset(b.x, i, j);
              a.m = m;
              what = "x = y(" + si.text + ", " + sj.text + ")";
            }
          });
      });
      break;
    }
    case 12: { // two variables with fitting shapes
      auto &d = v[s.below(3)];
      if (!d.set || ty == Ty::B)
        continue;
      if (b.m.im && d.m.im ? (b.m.nr != d.m.nr || b.m.nc != d.m.nc)
                           : (b.m.im && d.m.size() > b.m.size()) || (d.m.im && b.m.size() > d.m.size()))
        continue;
      MV m = convTo(apply2(ADD, b.m, d.m), ty);
      for (double q : m.v)
        if (std::fabs(q) > 1e9)
          return;
      a.x = b.x + d.x;
      a.m = m;
      what = "x = y + z";
      break;
    }
    case 13: {
      etr::Vec<T> t(b.x); // copy
      a.x = std::move(t);
      a.m = b.m;
      what = "x = move(copy of y)";
      break;
    }
    case 14: {
      auto f = [](etr::Vec<T> p) { return p; };
      a.x = f(b.x);
      a.m = b.m;
      what = "x = f(y)";
      break;
    }
    case 15: { // changing elements does not change the dimensions
      if (!a.set)
        continue;
      size_t p = s.below(a.m.size());
      etr::subset(a.x, +(int)(p + 1)) = T(1);
      a.m.v[p] = 1;
      what = "x(i) = 1";
      break;
    }
    case 16: {
      if (!a.set)
        continue;
      bool all = true;
      etr::subset(a.x, all) = T(0);
      for (auto &q : a.m.v)
        q = 0;
      what = "x(true) = 0";
      break;
    }
    }
    if (what.empty())
      continue;
    a.m.ty = ty;
    a.m.scalar = false;
    a.set = true;
    c.log([&](auto &o) { o << what << "; "; });
    if (was && !a.m.im)
      toVec = true;
    if (!was && a.m.im && keep)
      toMat = true;
    c.label(what.substr(0, 7).c_str());
    for (auto &q : v)
      if (q.set)
        checkDims(c, q.x, q.m, "after " + what);
  }
  if (toMat)
    c.label("vector turned into matrix");
  if (toVec)
    c.label("matrix turned into vector");
  c.nontrivial(toMat || toVec);
}
PBT_SUB("history_num", 1, history<double>);
PBT_SUB("history_int", 0.5, history<int>);
PBT_SUB("history_log", 0.5, history<bool>);
