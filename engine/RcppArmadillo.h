// A stand-in for the part of R, Rcpp and Armadillo which a translated program
// uses together with ETR. Objects live in memory with exact bounds (so that
// AddressSanitizer sees every access outside of an object), the collector is
// run at each allocation, and the distribution functions return a value which
// depends on every argument.
#ifndef RSTUB_H
#define RSTUB_H
#include <algorithm>
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <iostream>
#include <limits>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

// ---------------------------------------------------------------- R objects
typedef unsigned int SEXPTYPE;
typedef std::ptrdiff_t R_xlen_t;
typedef unsigned char Rbyte;
typedef enum { FALSE = 0, TRUE } Rboolean;
constexpr SEXPTYPE NILSXP = 0, LGLSXP = 10, INTSXP = 13, REALSXP = 14,
                   STRSXP = 16;

struct SEXPREC {
  SEXPTYPE type = NILSXP;
  R_xlen_t len = 0;
  bool matrix = false;
  int nrow = 0, ncol = 0;
  void *mem = nullptr;
  std::string str;
};
typedef SEXPREC *SEXP;

namespace rstub {
struct State {
  std::vector<SEXP> all;         // allocated by R
  std::vector<SEXP> stack;       // protected
  std::vector<SEXP> preserved;   // referenced by R itself (arguments)
  long rng_state = 0;            // GetRNGstate - PutRNGstate
  long draws = 0;                // random numbers which were drawn
  bool drawn_outside = false;    // drawn without the state of the generator
  bool unbalanced = false;
};
inline State &st() {
  static State s;
  return s;
}
inline void release(SEXP s) {
  std::free(s->mem);
  delete s;
}
inline void gc() {
  State &s = st();
  std::vector<SEXP> keep;
  for (SEXP x : s.all) {
    if (std::find(s.stack.begin(), s.stack.end(), x) != s.stack.end() ||
        std::find(s.preserved.begin(), s.preserved.end(), x) !=
            s.preserved.end())
      keep.push_back(x);
    else
      release(x);
  }
  s.all = keep;
}
inline void reset() {
  st().stack.clear();
  st().preserved.clear();
  gc();
  st() = State();
}
inline std::size_t width(SEXPTYPE t) { return t == REALSXP ? 8 : 4; }
inline SEXP make(SEXPTYPE t, R_xlen_t n) {
  gc();
  SEXP s = new SEXPREC;
  s->type = t;
  s->len = n;
  if (t == REALSXP || t == INTSXP || t == LGLSXP) {
    s->mem = std::malloc(static_cast<std::size_t>(n) * width(t));
    if (n > 0) std::memset(s->mem, 0xA5, static_cast<std::size_t>(n) * width(t));
  }
  st().all.push_back(s);
  return s;
}
inline SEXP nil() {
  static SEXPREC n;
  return &n;
}
} // namespace rstub

#define R_NilValue (rstub::nil())
#define R_NaN (std::numeric_limits<double>::quiet_NaN())
#define R_PosInf (std::numeric_limits<double>::infinity())
#define R_NegInf (-std::numeric_limits<double>::infinity())
#define NA_REAL (std::numeric_limits<double>::quiet_NaN())
#define NA_INTEGER (std::numeric_limits<int>::min())
#define NA_LOGICAL NA_INTEGER

inline SEXP Rf_protect(SEXP s) {
  rstub::st().stack.push_back(s);
  return s;
}
inline void Rf_unprotect(int n) {
  auto &k = rstub::st().stack;
  for (int i = 0; i < n; i++) {
    if (k.empty()) {
      rstub::st().unbalanced = true;
      return;
    }
    k.pop_back();
  }
}
#define PROTECT(s) Rf_protect(s)
#define UNPROTECT(n) Rf_unprotect(n)
inline void R_PreserveObject(SEXP s) { rstub::st().preserved.push_back(s); }
inline void R_ReleaseObject(SEXP s) {
  auto &p = rstub::st().preserved;
  auto i = std::find(p.begin(), p.end(), s);
  if (i != p.end()) p.erase(i);
}
inline int TYPEOF(SEXP s) { return static_cast<int>(s->type); }
inline SEXP Rf_allocVector(SEXPTYPE t, R_xlen_t n) { return rstub::make(t, n); }
inline SEXP Rf_allocMatrix(SEXPTYPE t, int r, int c) {
  SEXP s = rstub::make(t, static_cast<R_xlen_t>(r) * c);
  s->matrix = true;
  s->nrow = r;
  s->ncol = c;
  return s;
}
inline void *rstub_data(SEXP s, SEXPTYPE a, SEXPTYPE b) {
  if (s->type != a && s->type != b) throw std::runtime_error("wrong type of R object");
  return s->mem;
}
inline double *REAL(SEXP s) { return static_cast<double *>(rstub_data(s, REALSXP, REALSXP)); }
inline int *INTEGER(SEXP s) { return static_cast<int *>(rstub_data(s, INTSXP, LGLSXP)); }
inline int *LOGICAL(SEXP s) { return static_cast<int *>(rstub_data(s, LGLSXP, LGLSXP)); }
inline const double *REAL_RO(SEXP s) { return REAL(s); }
inline const int *INTEGER_RO(SEXP s) { return INTEGER(s); }
inline const int *LOGICAL_RO(SEXP s) { return LOGICAL(s); }
inline int Rf_length(SEXP s) { return static_cast<int>(s->len); }
inline int LENGTH(SEXP s) { return static_cast<int>(s->len); }
inline R_xlen_t Rf_xlength(SEXP s) { return s->len; }
inline R_xlen_t XLENGTH(SEXP s) { return s->len; }
inline int Rf_nrows(SEXP s) { return s->matrix ? s->nrow : static_cast<int>(s->len); }
inline int Rf_ncols(SEXP s) { return s->matrix ? s->ncol : 1; }
inline Rboolean Rf_isReal(SEXP s) { return s->type == REALSXP ? TRUE : FALSE; }
inline Rboolean Rf_isInteger(SEXP s) { return s->type == INTSXP ? TRUE : FALSE; }
inline Rboolean Rf_isLogical(SEXP s) { return s->type == LGLSXP ? TRUE : FALSE; }
inline Rboolean Rf_isNumeric(SEXP s) {
  return s->type == REALSXP || s->type == INTSXP || s->type == LGLSXP ? TRUE : FALSE;
}
inline Rboolean Rf_isMatrix(SEXP s) { return s->matrix ? TRUE : FALSE; }
inline Rboolean Rf_isNull(SEXP s) { return s->type == NILSXP ? TRUE : FALSE; }
inline SEXP Rf_ScalarReal(double v) {
  SEXP s = rstub::make(REALSXP, 1);
  REAL(s)[0] = v;
  return s;
}
inline SEXP Rf_ScalarInteger(int v) {
  SEXP s = rstub::make(INTSXP, 1);
  INTEGER(s)[0] = v;
  return s;
}
inline SEXP Rf_ScalarLogical(int v) {
  SEXP s = rstub::make(LGLSXP, 1);
  LOGICAL(s)[0] = v == NA_LOGICAL ? v : v != 0;
  return s;
}
inline SEXP Rf_mkString(const char *c) {
  SEXP s = rstub::make(STRSXP, 1);
  s->str = c;
  return s;
}
inline void Rprintf(const char *, ...) {}

// ------------------------------------------------------------ random numbers
inline void GetRNGstate() { rstub::st().rng_state++; }
inline void PutRNGstate() { rstub::st().rng_state--; }

namespace R {
inline double rstub_f(double id, double a, double b, double c, double d, double e) {
  return id + 1.25 * a + 100.0 * b - 3.5 * c + 17.0 * (d != 0) + 1000.0 * (e != 0);
}
inline double rstub_r(double id, double a, double b) {
  auto &s = rstub::st();
  if (s.rng_state <= 0) s.drawn_outside = true;
  s.draws++;
  return id + 0.001 * static_cast<double>(s.draws) + 10.0 * a + 1000.0 * b;
}
#define RSTUB_DIST(NAME, ID)                                                     \
  inline double d##NAME(double x, double a, double b, int lg) {                  \
    return rstub_f(ID + 1, x, a, b, 0, lg);                                      \
  }                                                                              \
  inline double p##NAME(double x, double a, double b, int lower, int lg) {       \
    return rstub_f(ID + 2, x, a, b, lower, lg);                                  \
  }                                                                              \
  inline double q##NAME(double x, double a, double b, int lower, int lg) {       \
    return rstub_f(ID + 3, x, a, b, lower, lg);                                  \
  }                                                                              \
  inline double r##NAME(double a, double b) { return rstub_r(ID + 4, a, b); }
RSTUB_DIST(unif, 1e6)
RSTUB_DIST(norm, 2e6)
RSTUB_DIST(lnorm, 3e6)
RSTUB_DIST(gamma, 4e6)
#undef RSTUB_DIST
} // namespace R

// ----------------------------------------------------------------- Rcpp, arma
namespace Rcpp {
inline std::ostream &Rcout = std::cout;
inline std::ostream &Rcerr = std::cerr;
class exception : public std::runtime_error {
public:
  explicit exception(const char *c, bool = true) : std::runtime_error(c) {}
};
[[noreturn]] inline void stop(const std::string &s) { throw exception(s.c_str()); }
inline std::size_t &warnings() { // number of warnings
  static std::size_t n = 0;
  return n;
}
inline void warning(const std::string &) { ++warnings(); }

template <bool Matrix> class Num {
protected:
  std::shared_ptr<double[]> p;
  R_xlen_t n = 0;
  int r = 0, c = 0;
  void alloc(R_xlen_t size) {
    n = size;
    p = std::shared_ptr<double[]>(new double[static_cast<std::size_t>(size)]());
  }

public:
  R_xlen_t size() const { return n; }
  R_xlen_t length() const { return n; }
  double &operator[](R_xlen_t i) { return p.get()[i]; }
  const double &operator[](R_xlen_t i) const { return p.get()[i]; }
  double *begin() const { return p.get(); }
  double *end() const { return p.get() + n; }
};
class NumericVector : public Num<false> {
public:
  NumericVector() { alloc(0); }
  explicit NumericVector(R_xlen_t size) { alloc(size); }
  explicit NumericVector(std::size_t size) { alloc(static_cast<R_xlen_t>(size)); }
  explicit NumericVector(int size) { alloc(size); }
};
class NumericMatrix : public Num<true> {
public:
  NumericMatrix() { alloc(0); }
  NumericMatrix(int rows, int cols) {
    r = rows;
    c = cols;
    alloc(static_cast<R_xlen_t>(rows) * cols);
  }
  int nrow() const { return r; }
  int ncol() const { return c; }
  int rows() const { return r; }
  int cols() const { return c; }
};
} // namespace Rcpp

namespace arma {
typedef unsigned long long uword;
class mat {
protected:
  std::vector<double> v;

public:
  uword n_rows = 0, n_cols = 0, n_elem = 0;
  mat() {}
  mat(uword r, uword c) : v(r * c), n_rows(r), n_cols(c), n_elem(r * c) {}
  uword size() const { return n_elem; }
  double &operator[](uword i) { return v.data()[i]; }
  const double &operator[](uword i) const { return v.data()[i]; }
  double *memptr() { return v.data(); }
  const double *memptr() const { return v.data(); }
};
class vec : public mat {
public:
  vec() {}
  explicit vec(uword n) : mat(n, 1) {}
};
} // namespace arma
#endif
