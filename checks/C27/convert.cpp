// conversions between R objects and objects of the library
#include "etr_pch.hpp"
#include "robj.hpp"

namespace {
template <class T> constexpr Ty tyOf() {
  return std::is_same_v<T, double> ? Ty::D : std::is_same_v<T, int> ? Ty::I : Ty::B;
}
// R object -> variable: a copy, independent of the object; previous content of any kind
template <class T> void fromR(Ctx &c) {
  Src &s = c.s;
  Fresh fresh;
  constexpr Ty ty = tyOf<T>();
  etr::Vec<T> x;
  bool had = s.below(2);
  MV before;
  if (had) {
    before = genObj(s, ty, 30);
    x = makeVec<T>(before);
  }
  Ty other = s.chance(1, 8) ? (ty == Ty::D ? Ty::I : Ty::D) : ty;
  MV m = genObj(s, other, 60, other == Ty::D ? SPECIAL : SMALL);
  SEXP o = makeR(m);
  c.log([&](auto &out) { out << "x (" << (had ? str(before) : "empty") << ") = R object " << str(m) << "\n"; });
  bool refused = throws([&]() { x = o; });
  if (refused != (other != ty))
    c.fail(refused ? "an R object of the same type is refused" : "an R object of another type is accepted");
  if (refused) {
    if (had)
      expectVec(c, x, before, "after the refusal");
    MV n = genObj(s, ty, 20);
    x = makeVec<T>(n);
    expectVec(c, x, n, "assignment after the refusal");
    return;
  }
  expectVec(c, x, m, "x");
  size_t i = s.below(m.size());
  double v = ty == Ty::B ? !(m.v[i] != 0) : 7;
  x[i] = static_cast<T>(v);
  expectR(c, o, m, "the R object after a change of the variable");
  MV m2 = m;
  m2.v[i] = v;
  // growing and calculating afterwards
  if (s.below(2)) { // within what the previous content needed, too
    size_t k = s.below(2) ? 1 + s.below(40) : std::max(m.size(), before.size());
    std::vector<double> w;
    x.d.resize(k);
    x.d.setMatrix(false, 0, 0);
    for (size_t j = 0; j < k; j++) {
      w.push_back(ty == Ty::B ? (double)(j % 3 == 1) : (double)(j + 1));
      x.d[j] = static_cast<T>(w.back());
    }
    expectVec(c, x, vec(w, ty), "resized to " + std::to_string(k));
    x = etr::coca(x, x);
    w.insert(w.end(), w.begin(), w.begin() + k);
    expectVec(c, x, vec(w, ty), "coca(x, x) of the resized variable");
    expectR(c, o, m, "the R object after resizing the variable");
    return;
  }
  x = etr::coca(x, x);
  MV m3 = vec(m2.v, ty);
  m3.v.insert(m3.v.end(), m2.v.begin(), m2.v.end());
  expectVec(c, x, m3, "coca(x, x)");
  balanced(c, 0, "assignment");
  c.nontrivial(m.size() > 1);
}
template <class T> void toR(Ctx &c) {
  Src &s = c.s;
  Fresh fresh;
  constexpr Ty ty = tyOf<T>();
  MV m = genObj(s, ty, 60, ty == Ty::D ? SPECIAL : SMALL);
  auto x = makeVec<T>(m);
  int how = (int)s.below(3);
  c.log([&](auto &out) { out << "cpp2R of kind " << how << " " << str(m) << "\n"; });
  size_t depth = s.below(3);
  for (size_t i = 0; i < depth; i++)
    PROTECT(makeR(genVec(s, 2)));
  SEXP o = how == 0 ? etr::cpp2R(x) : how == 1 ? etr::cpp2R(std::move(x)) : etr::cpp2R(static_cast<const etr::Vec<T> &>(x));
  balanced(c, depth, "cpp2R");
  R_PreserveObject(o);
  expectR(c, o, m, "cpp2R(x)");
  if (how != 1) {
    expectVec(c, x, m, "x after cpp2R");
    size_t i = s.below(m.size());
    x[i] = static_cast<T>(ty == Ty::B ? !(m.v[i] != 0) : 7);
    expectR(c, o, m, "the R object after a change of the variable");
  }
  c.nontrivial(m.size() > 1);
}
void otherToR(Ctx &c) { // function results, calculations, subsets, scalars
  Src &s = c.s;
  Fresh fresh;
  SEXP o = nullptr;
  MV want;
  MV m = genObj(s, Ty::D, 40);
  auto x = makeVec<double>(m);
  int how = (int)s.below(16);
  c.log([&](auto &out) { out << "cpp2R of " << how << " " << str(m) << "\n"; });
  switch (how) {
  case 0:
    o = etr::cpp2R(etr::coca(x, 1.5));
    want = vec(m.v);
    want.v.push_back(1.5);
    break;
  case 1:
    o = etr::cpp2R(x * 2.0);
    want = apply2(MUL, m, scal(2));
    break;
  case 2:
    o = etr::cpp2R(x > 1.0);
    want = apply2(GT, m, scal(1));
    break;
  case 3:
    o = etr::cpp2R(-x);
    want = apply1(NEG, m);
    break;
  case 4: {
    size_t i = s.below(m.size());
    o = etr::cpp2R(etr::subset(x, (int)i + 1));
    want = vec({m.v[i]});
    break;
  }
  case 5:
    o = etr::cpp2R(etr::colon(1, 5));
    want = vec({1, 2, 3, 4, 5}, Ty::I);
    break;
  case 6: {
    int v = (int)s.below(1000) - 500;
    o = etr::cpp2R(v);
    want = vec({(double)v}, Ty::I);
    break;
  }
  case 7: {
    bool v = s.below(2);
    o = etr::cpp2R(v);
    want = vec({(double)v}, Ty::B);
    break;
  }
  case 8: {
    double v = genReal(s);
    o = etr::cpp2R(v);
    want = vec({v});
    break;
  }
  case 9: {
    SEXP k = makeR(m);
    WrapperSEXP w(k);
    o = etr::cpp2R(w);
    want = m;
    if (o == k)
      c.fail("the result is the borrowed object itself");
    break;
  }
  case 10: case 11: case 12: { // created vectors have their own type
    int n = 1 + (int)s.below(9);
    Ty ty = how == 10 ? Ty::I : how == 11 ? Ty::B : Ty::D;
    auto call = [&](auto &&k) { return how == 10 ? etr::cpp2R(etr::vector_integer(k)) : how == 11 ? etr::cpp2R(etr::vector_logical(k)) : etr::cpp2R(etr::vector_numeric(k)); };
    if (s.below(2))
      o = call(n);
    else if (s.below(2))
      o = call((double)n);
    else {
      auto kn = makeVec<double>(vec({(double)n}));
      o = call(kn);
    }
    want = vec(std::vector<double>(n, 0.0), ty);
    break;
  }
  case 13: { // integer and logical objects and what is calculated from them
    size_t R = 1 + s.below(5), C = 1 + s.below(5);
    MV mi = mat(std::vector<double>(R * C, 0), R, C, Ty::I), mb = mat(std::vector<double>(R * C, 0), R, C, Ty::B);
    for (size_t i = 0; i < R * C; i++) {
      mi.v[i] = (double)s.below(2001) - 1000;
      mb.v[i] = (double)s.below(2);
    }
    auto xi = makeVec<int>(mi);
    auto xb = makeVec<bool>(mb);
    switch (s.below(9)) {
    case 0: o = etr::cpp2R(xi + 1); want = apply2(ADD, mi, scal(1, Ty::I)); break;
    case 1: o = etr::cpp2R(-xi); want = apply1(NEG, mi); break;
    case 2: o = etr::cpp2R(xi / 2); want = apply2(DIV, mi, scal(2, Ty::I)); break;
    case 3: o = etr::cpp2R(xi < 3); want = apply2(LT, mi, scal(3, Ty::I)); break;
    case 4: o = etr::cpp2R(etr::rep(xi, 2)); want = vec(mi.v, Ty::I); want.v.insert(want.v.end(), mi.v.begin(), mi.v.end()); break;
    case 5: o = etr::cpp2R(etr::rep(xb, 2)); want = vec(mb.v, Ty::B); want.v.insert(want.v.end(), mb.v.begin(), mb.v.end()); break;
    case 6: o = etr::cpp2R(etr::coca(xb, xb)); want = vec(mb.v, Ty::B); want.v.insert(want.v.end(), mb.v.begin(), mb.v.end()); break;
    case 7: o = etr::cpp2R(etr::dim(xi)); want = vec({(double)R, (double)C}, Ty::I); break;
    default: o = etr::cpp2R(etr::isNA(xi)); want = vec(std::vector<double>(R * C, 0), Ty::B); break;
    }
    break;
  }
  case 14:
    if (etr::cpp2R() != R_NilValue)
      c.fail("cpp2R() is not NULL");
    return;
  default: {
    std::string t;
    for (size_t i = s.below(9); i > 0; i--)
      t += (char)('a' + s.below(26));
    SEXP k = s.below(2) ? etr::cpp2R(t) : etr::cpp2R(t.c_str());
    if (k->type != STRSXP || k->str != t)
      c.fail("string " + t + " is " + k->str);
    return;
  }
  }
  balanced(c, 0, "cpp2R");
  R_PreserveObject(o);
  expectR(c, o, want, "cpp2R");
  c.nontrivial(want.size() > 1);
}
// Rcpp and Armadillo objects
template <class NV> NV fillN(const MV &m, NV x) {
  for (size_t i = 0; i < m.size(); i++)
    x[i] = m.v[i];
  return x;
}
template <class NV> void expectN(Ctx &c, const NV &x, const MV &want, const std::string &what) {
  MV m;
  for (size_t i = 0; i < (size_t)x.size(); i++)
    m.v.push_back(x[i]);
  expectMV(c, m, want, what, false);
}
void rcpp(Ctx &c) {
  Src &s = c.s;
  Fresh fresh;
  bool matrix = s.below(2);
  MV m = matrix ? genMat(s, genDim(s), genDim(s), Ty::D, SPECIAL) : genVec(s, genSize(s, 60), Ty::D, SPECIAL);
  bool arma = s.below(2), assign = s.below(2);
  c.log([&](auto &out) { out << (arma ? "arma " : "Rcpp ") << (assign ? "assigned " : "constructed ") << str(m) << "\n"; });
  sexp x;
  MV before = genObj(s, Ty::D, 20);
  x = makeVec<double>(before);
  if (matrix && arma) {
    auto o = fillN(m, arma::mat(m.nr, m.nc));
    if (assign)
      x = o;
    else {
      sexp y(o);
      x = y;
    }
  } else if (matrix) {
    auto o = fillN(m, Rcpp::NumericMatrix((int)m.nr, (int)m.nc));
    if (assign)
      x = o;
    else {
      sexp y(o);
      x = y;
    }
  } else if (arma) {
    auto o = fillN(m, arma::vec(m.size()));
    if (assign)
      x = o;
    else {
      sexp y(o);
      x = y;
    }
  } else {
    auto o = fillN(m, Rcpp::NumericVector((int)m.size()));
    if (assign)
      x = o;
    else {
      sexp y(o);
      x = y;
    }
  }
  expectVec(c, x, m, "conversion to a variable");
  // and back, of another variable
  Rcpp::NumericVector nv = static_cast<Rcpp::NumericVector>(x);
  expectN(c, nv, m, "NumericVector");
  arma::vec av = x.operator arma::vec();
  expectN(c, av, m, "arma::vec");
  if (matrix) {
    Rcpp::NumericMatrix nm = x.operator Rcpp::NumericMatrix();
    expectN(c, nm, m, "NumericMatrix");
    arma::mat am = x.operator arma::mat();
    expectN(c, am, m, "arma::mat");
    if (nm.nrow() != (int)m.nr || nm.ncol() != (int)m.nc || am.n_rows != m.nr || am.n_cols != m.nc)
      c.fail("wrong dimensions of the converted matrix");
  } else if (!throws([&]() { x.operator arma::mat(); }) || !throws([&]() { x.operator Rcpp::NumericMatrix(); }))
    c.fail("a vector is converted to a matrix");
  nv[0] = -99.5;
  expectVec(c, x, m, "the variable after a change of the converted object");
  c.nontrivial(m.size() > 1);
}
} // namespace
PBT_SUB("fromR_numeric", 1, fromR<double>);
PBT_SUB("fromR_integer", 1, fromR<int>);
PBT_SUB("fromR_logical", 1, fromR<bool>);
PBT_SUB("toR_numeric", 1, toR<double>);
PBT_SUB("toR_integer", 1, toR<int>);
PBT_SUB("toR_logical", 1, toR<bool>);
PBT_SUB("results", 1, otherToR);
PBT_SUB("rcpp_arma", 1, rcpp);
