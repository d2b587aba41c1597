// objects with more elements than there is memory for: each operation either
// requests the memory of all elements or refuses. It never succeeds with less
#include "../C23/store.inc"
#include <new>
extern bool oomRecord; // large requests fail and are recorded
extern std::size_t oomLargest;
namespace {
constexpr std::size_t G = std::size_t(1) << 31;
std::size_t hugeSize(Src &s) {
  switch (s.below(6)) {
  case 0:
    return G + s.below(1000);
  case 1:
    return std::size_t(1867377440) + s.below(G - 1867377440); // 1.15 times it is beyond 2^31
  case 2:
    return (std::size_t(1) << (32 + s.below(32))) + s.below(5);
  case 3:
    return (std::size_t)0 - 1 - s.below(5);
  case 4: // 1.15 times it is about 2^64
    return (std::size_t)16040820931052656640ull + s.below(1ull << 40);
  default:
    return G + s.below((std::size_t)0 - 1 - G);
  }
}
// the expected number of elements, 0: it does not fit into a number
template <class F> void huge(Ctx &c, const std::string &what, std::size_t n, std::size_t bytes, F &&f) {
  oomRecord = true;
  oomLargest = 0;
  std::string how = "completed";
  bool memory = false;
  try {
    f();
  } catch (const std::bad_array_new_length &) {
    how = "refused";
  } catch (const std::bad_alloc &) {
    how = "no memory";
    memory = true;
  } catch (const std::exception &e) {
    how = std::string("refused: ") + e.what();
  }
  oomRecord = false;
  c.log([&](auto &o) { o << what << " -> " << how << ", requested " << oomLargest << " bytes; "; });
  if (how == "completed")
    c.fail(what + " is carried out with " + std::to_string(oomLargest) + " bytes");
  if (memory && n && oomLargest / bytes < n)
    c.fail(what + " requests only " + std::to_string(oomLargest) + " bytes");
  if (!memory && n && n < (std::size_t(1) << 50))
    c.fail(what + " is " + how + " but there could be enough memory");
}
template <class T> void hugeStore(Ctx &c) {
  Src &s = c.s;
  Store<T> x;
  std::size_t k = s.below(5);
  if (k)
    x.resize(k);
  for (std::size_t i = 0; i < k; i++)
    x[i] = (T)(i % 2);
  for (int j = 0; j < 3; j++) {
    std::size_t n = hugeSize(s);
    switch (s.below(3)) {
    case 0:
      huge(c, "resize(" + std::to_string(n) + ")", n, sizeof(T), [&] { x.resize(n); });
      break;
    case 1:
      huge(c, "realloc(" + std::to_string(n) + ")", n, sizeof(T), [&] { x.realloc(n); });
      break;
    default:
      huge(c, "Store(" + std::to_string(n) + ")", n, sizeof(T), [&] { Store<T> y(n); });
    }
    c.require(x.size() == k, "the storage has another size afterwards");
    for (std::size_t i = 0; i < k; i++)
      c.require(x[i] == (T)(i % 2), "the storage has other elements afterwards");
    c.nontrivial();
  }
}
void hugeVec(Ctx &c) {
  Src &s = c.s;
  sexp x = etr::coca(1.0, 2.0, 3.0);
  etr::Vec<int> xi = etr::coca(1, 2, 3);
  etr::Vec<bool> xb = etr::coca(true, false, true);
  sexp four = etr::coca(1.0, 2.0, 3.0, 4.0);
  std::size_t n = hugeSize(s);
  double d = (double)n;
  std::size_t nd = d < 1e18 ? (std::size_t)d : 0;
  std::string N = std::to_string(n), ND = std::to_string(d);
  switch (s.below(13)) {
  case 0:
    huge(c, "x = vector_numeric(" + N + ")", n, 8, [&] { x = etr::vector_numeric(n); });
    break;
  case 1:
    huge(c, "x = vector_numeric(" + ND + ")", nd, 8, [&] { x = etr::vector_numeric(d); });
    break;
  case 2:
    huge(c, "x = vector_integer(" + N + ")", n, 4, [&] { xi = etr::vector_integer(n); });
    break;
  case 3:
    huge(c, "x = vector_integer(" + ND + ")", nd, 4, [&] { xi = etr::vector_integer(d); });
    break;
  case 4:
    huge(c, "x = vector_logical(" + N + ")", n, 1, [&] { xb = etr::vector_logical(n); });
    break;
  case 5:
    huge(c, "x = vector_logical(" + ND + ")", nd, 1, [&] { xb = etr::vector_logical(d); });
    break;
  case 6:
    huge(c, "x = rep(1.5, " + N + ")", n, 8, [&] { x = etr::rep(1.5, n); });
    break;
  case 7:
    huge(c, "x = rep(1.5, " + ND + ")", nd, 8, [&] { x = etr::rep(1.5, d); });
    break;
  case 8: // four elements each
    huge(c, "x = rep(four, " + N + ")", n < (std::size_t(1) << 50) ? 4 * n : 0, 8, [&] { x = etr::rep(four, n); });
    break;
  case 9:
    huge(c, "x = 1:" + ND, nd, 8, [&] { x = etr::colon(1.0, d); });
    break;
  case 10:
    huge(c, "x = -1:-" + ND, nd, 8, [&] { x = etr::colon(-1.0, -d); });
    break;
  case 11: {
    std::size_t cols = s.below(2) ? hugeSize(s) : 1 + s.below(16);
    unsigned __int128 all = (unsigned __int128)n * cols;
    huge(c, "x = matrix(1.5, " + N + ", " + std::to_string(cols) + ")", all < ((unsigned __int128)1 << 50) ? (std::size_t)all : 0, 8,
         [&] { x = etr::matrix(1.5, (std::size_t)n, (std::size_t)cols); });
    break;
  }
  default: {
    std::size_t rows = s.below(2) ? hugeSize(s) : 1 + s.below(16);
    unsigned __int128 all = (unsigned __int128)n * rows;
    double dr = (double)rows;
    huge(c, "x = matrix(1.5, " + std::to_string(dr) + ", " + ND + ")", all < ((unsigned __int128)1 << 50) && nd ? (std::size_t)dr * nd : 0, 8,
         [&] { x = etr::matrix(1.5, (double)dr, (double)d); });
  }
  }
  c.require(x.size() == 3 && x[0] == 1 && x[1] == 2 && x[2] == 3, "the numeric variable has changed");
  c.require(xi.size() == 3 && xi[0] == 1 && xi[1] == 2 && xi[2] == 3, "the integer variable has changed");
  c.require(xb.size() == 3 && xb[0] == 1 && xb[1] == 0 && xb[2] == 1, "the logical variable has changed");
  c.nontrivial();
}
} // namespace
PBT_SUB_LEAK("huge storage double", 0.2, hugeStore<double>);
PBT_SUB_LEAK("huge storage int", 0.1, hugeStore<int>);
PBT_SUB_LEAK("huge storage bool", 0.1, hugeStore<bool>);
PBT_SUB_LEAK("huge vectors", 0.6, hugeVec);
