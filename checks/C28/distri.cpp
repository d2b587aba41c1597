// vectorised distribution functions: every element against a single call
#include "etr_pch.hpp"
#include "refmodel.hpp"
using namespace ref;

namespace {
sexp make(const MV &m) {
  sexp x(etr::SI{m.size()});
  for (size_t i = 0; i < m.size(); i++)
    x[i] = m.v[i];
  return x;
}
struct Fresh {
  Fresh() { rstub::reset(); }
  ~Fresh() { rstub::reset(); }
};
MV arg(Src &s, bool flag = false, bool nonzero = false) {
  size_t n = s.below(3) == 0 ? 1 : genSize(s, 40);
  MV m = genVec(s, n, flag ? Ty::B : Ty::D, SMALL);
  if (nonzero)
    for (double &x : m.v)
      if (x == 0)
        x = 2;
  m.ty = Ty::D;
  return m;
}
const char *NAME[] = {"unif", "norm", "lnorm", "gamma"};
double d1(int k, double x, double a, double b, int lg) {
  return k == 0 ? R::dunif(x, a, b, lg) : k == 1 ? R::dnorm(x, a, b, lg) : k == 2 ? R::dlnorm(x, a, b, lg) : R::dgamma(x, a, b, lg);
}
double p1(int k, double x, double a, double b, int lo, int lg) {
  return k == 0   ? R::punif(x, a, b, lo, lg)
         : k == 1 ? R::pnorm(x, a, b, lo, lg)
         : k == 2 ? R::plnorm(x, a, b, lo, lg)
                  : R::pgamma(x, a, b, lo, lg);
}
double q1(int k, double x, double a, double b, int lo, int lg) {
  return k == 0   ? R::qunif(x, a, b, lo, lg)
         : k == 1 ? R::qnorm(x, a, b, lo, lg)
         : k == 2 ? R::qlnorm(x, a, b, lo, lg)
                  : R::qgamma(x, a, b, lo, lg);
}
double r1(int k, double a, double b) { return k == 0 ? R::runif(a, b) : k == 1 ? R::rnorm(a, b) : k == 2 ? R::rlnorm(a, b) : R::rgamma(a, b); }
sexp D(int k, const sexp &x, const sexp &a, const sexp &b, const sexp &lg) {
  return k == 0 ? etr::dunif_etr(x, a, b, lg) : k == 1 ? etr::dnorm_etr(x, a, b, lg) : k == 2 ? etr::dlnorm_etr(x, a, b, lg) : etr::dgamma_etr(x, a, b, lg);
}
sexp P(int k, const sexp &x, const sexp &a, const sexp &b, const sexp &lo, const sexp &lg) {
  return k == 0   ? etr::punif_etr(x, a, b, lo, lg)
         : k == 1 ? etr::pnorm_etr(x, a, b, lo, lg)
         : k == 2 ? etr::plnorm_etr(x, a, b, lo, lg)
                  : etr::pgamma_etr(x, a, b, lo, lg);
}
sexp Q(int k, const sexp &x, const sexp &a, const sexp &b, const sexp &lo, const sexp &lg) {
  return k == 0   ? etr::qunif_etr(x, a, b, lo, lg)
         : k == 1 ? etr::qnorm_etr(x, a, b, lo, lg)
         : k == 2 ? etr::qlnorm_etr(x, a, b, lo, lg)
                  : etr::qgamma_etr(x, a, b, lo, lg);
}
sexp RR(int k, const sexp &x, const sexp &a, const sexp &b) {
  return k == 0 ? etr::runif_etr(x, a, b) : k == 1 ? etr::rnorm_etr(x, a, b) : k == 2 ? etr::rlnorm_etr(x, a, b) : etr::rgamma_etr(x, a, b);
}
double second(int k, double b) { return k == 3 ? 1.0 / b : b; } // gamma: R wants the scale

void rng(Ctx &c, const std::string &what) {
  if (rstub::st().rng_state != 0)
    c.fail(what + ": GetRNGstate and PutRNGstate are not balanced");
  if (rstub::st().drawn_outside)
    c.fail(what + ": a number is drawn without the state of the generator");
}
template <int K> void density(Ctx &c) {
  Src &s = c.s;
  Fresh fresh;
  int kind = (int)s.below(3); // d, p, q
  MV mx = arg(s), ma = arg(s), mb = arg(s, false, K == 3), mlo = arg(s, true), mlg = arg(s, true);
  size_t rest = std::max({mx.size(), ma.size(), mb.size(), mlg.size()});
  if (mlo.size() > rest) // the tail is no reason for a longer result
    mlo.v.resize(rest);
  std::string what = std::string(kind == 0 ? "d" : kind == 1 ? "p" : "q") + NAME[K];
  c.log([&](auto &o) { o << what << "(" << str(mx) << ", " << str(ma) << ", " << str(mb) << ", " << str(mlo) << ", " << str(mlg) << ")\n"; });
  size_t n = std::max({mx.size(), ma.size(), mb.size(), mlg.size(), kind ? mlo.size() : 1});
  MV want;
  auto at = [](const MV &m, size_t i) { return m.v[i % m.size()]; };
  for (size_t i = 0; i < n; i++) {
    double x = at(mx, i), a = at(ma, i), b = second(K, at(mb, i));
    int lo = (int)at(mlo, i), lg = (int)at(mlg, i);
    want.v.push_back(kind == 0 ? d1(K, x, a, b, lg) : kind == 1 ? p1(K, x, a, b, lo, lg) : q1(K, x, a, b, lo, lg));
  }
  sexp x = make(mx), a = make(ma), b = make(mb), lo = make(mlo), lg = make(mlg), res;
  if (kind == 0)
    res = D(K, x, a, b, lg);
  else if (kind == 1)
    res = P(K, x, a, b, lo, lg);
  else
    res = Q(K, x, a, b, lo, lg);
  expectVec(c, res, want, what);
  expectVec(c, x, mx, what + ": first argument afterwards");
  expectVec(c, a, ma, what + ": second argument afterwards");
  expectVec(c, b, mb, what + ": third argument afterwards");
  rng(c, what);
  c.nontrivial(n > 1);
}
template <int K> void random(Ctx &c) {
  Src &s = c.s;
  Fresh fresh;
  MV mx;
  bool one = s.chance(2, 3);
  size_t n;
  if (one) {
    int64_t v = s.chance(1, 12) ? -(int64_t)s.below(4) : (int64_t)(1 + s.below(40));
    double part = s.below(2) ? 0 : (double)s.below(100) / 100; // the whole part counts
    mx = vec({(double)v + part});
    n = v < 1 ? 0 : (size_t)v;
  } else {
    mx = arg(s);
    if (mx.size() == 1)
      mx.v.push_back(1);
    n = mx.size();
  }
  MV ma = arg(s), mb = arg(s, false, K == 3);
  std::string what = std::string("r") + NAME[K];
  c.log([&](auto &o) { o << what << "(" << str(mx) << ", " << str(ma) << ", " << str(mb) << ")\n"; });
  sexp x = make(mx), a = make(ma), b = make(mb), res;
  bool refused = throws([&]() { res = RR(K, x, a, b); });
  if (refused != (n == 0))
    c.fail(what + (refused ? " is refused" : " accepts less than one number"));
  rng(c, what);
  if (refused)
    return;
  if (rstub::st().draws != (long)n)
    c.fail(what + ": " + std::to_string(rstub::st().draws) + " numbers are drawn instead of " + std::to_string(n));
  rstub::reset();
  MV want;
  GetRNGstate();
  for (size_t i = 0; i < n; i++)
    want.v.push_back(r1(K, ma.v[i % ma.size()], second(K, mb.v[i % mb.size()])));
  PutRNGstate();
  expectVec(c, res, want, what);
  c.nontrivial(n > 1);
}
} // namespace
PBT_SUB("uniform", 1, density<0>);
PBT_SUB("normal", 1, density<1>);
PBT_SUB("lognormal", 1, density<2>);
PBT_SUB("gamma", 1, density<3>);
PBT_SUB("random_uniform", 1, random<0>);
PBT_SUB("random_normal", 1, random<1>);
PBT_SUB("random_lognormal", 1, random<2>);
PBT_SUB("random_gamma", 1, random<3>);
