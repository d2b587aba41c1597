#include "helper.inc"
template <class T, int KIND> static void object(Ctx &c) {
  Src &s = c.s;
  const Ty ty = tyOf<T>();
  bool im = KIND < 2 && s.chance(1, 3);
  MV m = im ? genMat(s, genDim(s, 6), genDim(s, 6), ty, SMALL) : genVec(s, genSize(s), ty, SMALL);
  if (ty == Ty::D)
    for (double &x : m.v)
      if (s.chance(1, 2))
        x = special(s);
  MV na = mapTo(m, [](double x) { return x != x; });
  MV inf = mapTo(m, [](double x) { return x > 1.7976931348623157e308 || x < -1.7976931348623157e308; });
  c.log([&](auto &o) { o << str(m); });
  bool any = false;
  for (size_t i = 0; i < m.size(); i++)
    any = any || na.v[i] || inf.v[i];
  c.nontrivial(any || m.size() > 3);
  if (any)
    c.label("NaN or infinite");
  if (im)
    c.label("matrix");
  std::vector<double> mem = m.v;
  auto run = [&](auto &x) {
    c.require((size_t)etr::length(x) == m.size(), "length is " + num(etr::length(x)));
    expectVec(c, etr::isNA(x), na, "isNA", false);
    expectVec(c, etr::isInf(x), inf, "isInf", false);
    using E = std::remove_cvref_t<decltype(etr::isNA(x)[0])>;
    c.require(std::is_same_v<E, bool>, "isNA returns logicals");
    string msg;
    if (im) {
      auto d = etr::dim(x);
      c.require(d.size() == 2 && d[0] == (int)m.nr && d[1] == (int)m.nc && !d.im(), "dim");
    } else if (!throws([&]() { auto d = etr::dim(x); (void)d; }))
      c.fail("dim of a vector is not refused");
    etr::Vec<bool> r;
    r = etr::isNA(x);
    expectVec(c, r, na, "r = isNA(x)", false);
    r = etr::isInf(x);
    expectVec(c, r, inf, "r = isInf(x)", false);
    // as index
    MV sel;
    for (size_t i = 0; i < m.size(); i++)
      if (na.v[i])
        sel.v.push_back(m.v[i]);
    bool done = false;
    if constexpr (KIND == 0) if (sel.size() > 0) {
      done = true;
      expectVec(c, etr::subset(x, etr::isNA(x)), sel, "x(isNA(x))");
      MV w = m;
      for (size_t i = 0; i < m.size(); i++)
        if (na.v[i])
          w.v[i] = 0.0;
      etr::subset(x, etr::isNA(x)) = T(0);
      expectVec(c, x, w, "x(isNA(x)) = 0");
      x[0] = (T)1;
      w.v[0] = 1;
      c.require(!etr::isNA(x)[0] && !etr::isInf(x)[0], "isNA after a change");
    }
    if (!done) {
      expectVec(c, x, m, "reading changes nothing");
      MV n2 = na;
      n2.v.insert(n2.v.end(), inf.v.begin(), inf.v.end());
      expectVec(c, etr::coca(etr::isNA(x), etr::isInf(x)), n2, "coca(isNA, isInf)");
    }
  };
  if constexpr (KIND == 0) {
    auto x = make<T>(m);
    run(x);
  } else if constexpr (KIND == 1) { // temporaries
    auto mk = [&]() { return make<T>(m); };
    c.require((size_t)etr::length(mk()) == m.size(), "length of a temporary");
    expectVec(c, etr::isNA(mk()), na, "isNA of a temporary", false);
    expectVec(c, etr::isInf(mk()), inf, "isInf of a temporary", false);
    const auto x = make<T>(m);
    run(x);
  } else {
    if constexpr (std::is_same_v<T, double>) {
      BorrowPtr x(mem.data(), mem.size());
      run(x);
    }
  }
}
PBT_SUB("num", 1, (object<double, 0>));
PBT_SUB("int", 0.5, (object<int, 0>));
PBT_SUB("log", 0.5, (object<bool, 0>));
PBT_SUB("num_const", 0.5, (object<double, 1>));
PBT_SUB("int_const", 0.5, (object<int, 1>));
PBT_SUB("borrow", 0.5, (object<double, 2>));

static void scalars(Ctx &c) {
  Src &s = c.s;
  double x = special(s);
  int i = (int)genOf(s, Ty::I, SMALL);
  bool b = s.below(2);
  c.log([&](auto &o) { o << num(x) << " " << i << " " << b; });
  c.nontrivial();
  c.require(etr::isNA(x) == (x != x), "isNA(double)");
  c.require(etr::isInf(x) == (x > 1.7976931348623157e308 || x < -1.7976931348623157e308), "isInf(double)");
  c.require(!etr::isNA(i) && !etr::isInf(i) && !etr::isNA(b) && !etr::isInf(b), "isNA(int)");
  c.require(etr::length(x) == 1 && etr::length(i) == 1 && etr::length(b) == 1, "length of a scalar");
  if (!throws([&]() { etr::dim(x); }) || !throws([&]() { etr::dim(i); }) || !throws([&]() { etr::dim(b); }))
    c.fail("dim of a scalar is not refused");
}
PBT_SUB("scalars", 0.3, scalars);
// histories: length, dim follow the variable
static void history(Ctx &c) {
  Src &s = c.s;
  sexp x;
  MV m;
  int steps = 1 + (int)s.below(8);
  c.nontrivial(steps > 1);
  for (int k = 0; k < steps; k++) {
    switch (s.below(5)) {
    case 0: {
      m = genVec(s, genSize(s), Ty::D, SMALL);
      auto t = make<double>(m);
      x = t;
      break;
    }
    case 1: {
      m = genMat(s, genDim(s, 5), genDim(s, 5), Ty::D, SMALL);
      auto t = make<double>(m);
      x = t;
      break;
    }
    case 2:
      m = ref::vec({special(s)});
      x = m.v[0];
      break;
    case 3:
      if (k == 0 || m.size() > 500)
        continue;
      m.v.push_back(special(s));
      x = etr::coca(x, m.v.back());
      m.im = false;
      break;
    case 4: {
      if (k == 0 || m.size() == 0)
        continue;
      size_t p = s.below(m.size());
      m.v[p] = special(s);
      etr::at(x, (int)p + 1) = m.v[p];
      break;
    }
    }
    if (m.size() == 0)
      continue;
    c.log([&](auto &o) { o << str(m) << "; "; });
    c.require((size_t)etr::length(x) == m.size(), "length");
    expectVec(c, etr::isNA(x), mapTo(m, [](double q) { return q != q; }), "isNA", false);
    expectVec(c, etr::isInf(x), mapTo(m, [](double q) { return std::fabs(q) > 1.7976931348623157e308; }), "isInf", false);
    if (m.im) {
      auto d = etr::dim(x);
      c.require(d[0] == (int)m.nr && d[1] == (int)m.nc, "dim");
    } else if (!throws([&]() { etr::dim(x); }))
      c.fail("dim of a vector is not refused");
  }
}
PBT_SUB("history", 1, history);
