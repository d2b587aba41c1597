// Generated indices: every kind of index together with the selected positions.
#ifndef IDXGEN_HPP
#define IDXGEN_HPP
#include "etrgen.hpp"

namespace gen {

enum IKind {
  I_TRUE,
  I_INT,
  I_DBL,
  I_VINT,
  I_VDBL,
  I_VBOOL,
  I_COCAI,
  I_COCAD,
  I_COCAB,
  I_COLON,
  I_OP,
  I_COMP,
  I_SUB,
  I_BORROW,
  I_REP,
  I_COUNT
};
inline const char *ikindName(int k) {
  static const char *n[] = {"true", "int", "double", "int variable", "numeric variable",
                            "logical variable", "coca(int)", "coca(double)",
                            "coca(bool)", "colon", "calculation", "comparison",
                            "subset", "borrowed", "rep"};
  return n[k];
}

struct Sel {
  std::vector<size_t> pos; // selected positions starting at 0
  bool scalar = false;     // a number
  std::string text;
};
inline std::string posText(const std::vector<double> &v) {
  std::ostringstream o;
  for (size_t i = 0; i < v.size(); i++)
    o << (i ? "," : "") << v[i];
  return o.str();
}

struct IdxOpt {
  bool logicalSurplus = false;
  size_t maxLen = 8;
  bool needOne = false;  // a logical index has to select at least one element
  size_t exactLen = 0;   // number of positions (if the kind can do it)
  int64_t bad = 0;       // != 0: one position is replaced by this one
};

inline std::vector<double> genPos(Src &s, size_t n, const IdxOpt &o, bool frac) {
  std::vector<double> v;
  size_t len = o.exactLen ? o.exactLen : 1 + s.below(std::max<size_t>(1, o.maxLen));
  for (size_t i = 0; i < len; i++) {
    double x = 1.0 + static_cast<double>(s.below(n));
    if (frac && s.chance(1, 5))
      x += s.pick({0.25, 0.5, 0.75, 0.999});
    v.push_back(x);
  }
  if (o.bad != 0)
    v[s.below(len)] = static_cast<double>(o.bad == INT64_MIN ? 0 : o.bad);
  return v;
}
inline std::vector<double> genMask(Src &s, size_t n, const IdxOpt &o) {
  // a shorter logical index is recycled
  size_t len = s.chance(1, 3) ? 1 + s.below(n) : n;
  std::vector<double> v;
  for (size_t i = 0; i < len; i++)
    v.push_back(static_cast<double>(s.below(2)));
  if (o.needOne) {
    bool any = false;
    for (double x : v)
      any = any || x;
    if (!any)
      v[s.below(len)] = 1.0;
  }
  return v;
}
inline std::vector<size_t> selPos(const std::vector<double> &v) {
  std::vector<size_t> r;
  for (double x : v)
    r.push_back(static_cast<size_t>(x) - 1);
  return r;
}
inline std::vector<size_t> selMask(const std::vector<double> &v, size_t n) {
  std::vector<size_t> r;
  for (size_t i = 0; i < n; i++)
    if (v[i % v.size()])
      r.push_back(i);
  return r;
}
inline bool isLogicalIdx(int k) { return k == I_VBOOL || k == I_COCAB || k == I_COMP; }
inline bool isPositional(int k) { return !(isLogicalIdx(k) || k == I_TRUE); }

// calls f(index, Sel); n is the number of elements (rows, columns) which exist
template <int K, class F> void index1(Src &s, size_t n, const IdxOpt &o, F &&f) {
  Sel sel;
  if constexpr (K == I_TRUE) {
    for (size_t i = 0; i < n; i++)
      sel.pos.push_back(i);
    sel.text = "true";
    bool b = true;
    f(b, sel);
  } else if constexpr (K == I_INT) {
    int i = static_cast<int>(1 + s.below(n));
    if (o.bad)
      i = static_cast<int>(o.bad == INT64_MIN ? 0 : o.bad);
    sel.pos = {static_cast<size_t>(i) - 1};
    sel.scalar = true;
    sel.text = std::to_string(i);
    f(i, sel);
  } else if constexpr (K == I_DBL) {
    double i = 1.0 + static_cast<double>(s.below(n));
    if (s.chance(1, 4))
      i += s.pick({0.25, 0.5, 0.75, 0.999});
    if (o.bad)
      i = static_cast<double>(o.bad == INT64_MIN ? 0 : o.bad);
    sel.pos = {static_cast<size_t>(i) - 1};
    sel.scalar = true;
    sel.text = num(i);
    f(i, sel);
  } else if constexpr (K == I_VINT) {
    auto v = genPos(s, n, o, false);
    sel.pos = selPos(v);
    sel.text = "int[" + posText(v) + "]";
    auto x = make<int>(vec(v));
    f(x, sel);
  } else if constexpr (K == I_VDBL) {
    auto v = genPos(s, n, o, true);
    sel.pos = selPos(v);
    sel.text = "[" + posText(v) + "]";
    auto x = make<double>(vec(v));
    f(x, sel);
  } else if constexpr (K == I_VBOOL) {
    auto v = genMask(s, n, o);
    sel.pos = selMask(v, n);
    sel.text = "bool[" + posText(v) + "]";
    auto x = make<bool>(vec(v));
    f(x, sel);
  } else if constexpr (K == I_COCAI) {
    IdxOpt o2 = o;
    if (!o.exactLen)
      o2.exactLen = 3;
    auto v = genPos(s, n, o2, false);
    sel.pos = selPos(v);
    sel.text = "coca(int " + posText(v) + ")";
    if (v.size() == 3) {
      f(etr::coca(static_cast<int>(v[0]), static_cast<int>(v[1]),
                  static_cast<int>(v[2])),
        sel);
    } else {
      auto x = make<int>(vec(v));
      f(etr::coca(x), sel);
    }
  } else if constexpr (K == I_COCAD) {
    auto v = genPos(s, n, o, true);
    sel.pos = selPos(v);
    sel.text = "coca(" + posText(v) + ")";
    auto x = make<double>(vec(v));
    f(etr::coca(x), sel);
  } else if constexpr (K == I_COCAB) {
    auto v = genMask(s, n, o);
    sel.pos = selMask(v, n);
    sel.text = "coca(bool " + posText(v) + ")";
    auto x = make<bool>(vec(v));
    f(etr::coca(x), sel);
  } else if constexpr (K == I_COLON) {
    int a = static_cast<int>(1 + s.below(n)), b = static_cast<int>(1 + s.below(n));
    if (o.exactLen) {
      a = static_cast<int>(1 + s.below(n - std::min(n, o.exactLen) + 1));
      b = a + static_cast<int>(o.exactLen) - 1;
    }
    if (o.bad)
      b = static_cast<int>(o.bad == INT64_MIN ? 0 : o.bad);
    for (int i = a; a <= b ? i <= b : i >= b; i += a <= b ? 1 : -1)
      sel.pos.push_back(static_cast<size_t>(i) - 1);
    sel.text = std::to_string(a) + ":" + std::to_string(b);
    f(etr::colon(a, b), sel);
  } else if constexpr (K == I_OP) {
    auto v = genPos(s, n, o, false);
    sel.pos = selPos(v);
    sel.text = "calculation[" + posText(v) + "]";
    for (auto &x : v)
      x -= 1.0;
    auto x = make<double>(vec(v));
    f(x + 1.0, sel);
  } else if constexpr (K == I_COMP) {
    auto v = genMask(s, n, o);
    sel.pos = selMask(v, n);
    sel.text = "comparison[" + posText(v) + "]";
    auto x = make<double>(vec(v));
    double half = 0.5;
    f(x > half, sel);
  } else if constexpr (K == I_SUB) {
    auto v = genPos(s, n, o, false);
    sel.pos = selPos(v);
    sel.text = "subset[" + posText(v) + "]";
    std::vector<double> r(v.rbegin(), v.rend()), q;
    for (size_t i = r.size(); i >= 1; i--)
      q.push_back(static_cast<double>(i));
    auto x = make<double>(vec(r));
    auto y = make<double>(vec(q));
    f(etr::subset(x, y), sel);
  } else if constexpr (K == I_BORROW) {
    auto v = genPos(s, n, o, true);
    sel.pos = selPos(v);
    sel.text = "borrowed[" + posText(v) + "]";
    std::vector<double> mem = v;
    BorrowPtr x(mem.data(), mem.size());
    f(x, sel);
  } else if constexpr (K == I_REP) {
    IdxOpt o2 = o;
    o2.exactLen = 1;
    auto v = genPos(s, n, o2, false);
    int k = static_cast<int>(o.exactLen ? o.exactLen : 1 + s.below(3));
    for (int i = 0; i < k; i++)
      sel.pos.push_back(static_cast<size_t>(v[0]) - 1);
    sel.text = "rep(" + posText(v) + "," + std::to_string(k) + ")";
    f(etr::rep(static_cast<int>(v[0]), +k), sel);
  }
}

template <class F>
void withIndex(Src &s, int k, size_t n, const IdxOpt &o, F &&f) {
  switch (k) {
#define ETR_I(x)                                                               \
  case x:                                                                      \
    index1<x>(s, n, o, f);                                                     \
    break;
    ETR_I(I_TRUE)
    ETR_I(I_INT)
    ETR_I(I_DBL)
    ETR_I(I_VINT)
    ETR_I(I_VDBL)
    ETR_I(I_VBOOL)
    ETR_I(I_COCAI)
    ETR_I(I_COCAD)
    ETR_I(I_COCAB)
    ETR_I(I_COLON)
    ETR_I(I_OP)
    ETR_I(I_COMP)
    ETR_I(I_SUB)
    ETR_I(I_BORROW)
    ETR_I(I_REP)
#undef ETR_I
  }
}

inline MV select(const MV &x, const std::vector<size_t> &pos) {
  MV r;
  r.ty = x.ty;
  for (size_t p : pos)
    r.v.push_back(x.v.at(p));
  return r;
}
// the result of a matrix subset
inline MV select(const MV &x, const Sel &r, const Sel &c) {
  MV m;
  m.ty = x.ty;
  for (size_t j : c.pos)
    for (size_t i : r.pos)
      m.v.push_back(x.v.at(j * x.nr + i));
  m.im = !(r.scalar || c.scalar);
  m.nr = m.im ? r.pos.size() : 0;
  m.nc = m.im ? c.pos.size() : 0;
  return m;
}

} // namespace gen
#endif
