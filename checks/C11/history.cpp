// histories on borrowed memory: several borrowers in one array, between guard zones
#include "etr_pch.hpp"
#include "idxgen.hpp"
#include <memory>
using namespace gen;

namespace {
constexpr double GUARD = -777.125;
struct Lender { // the raw memory and its model
  std::vector<double> raw, model;
  size_t guard = 4;
};
struct Bor {
  std::unique_ptr<BorrowPtr> x;
  size_t off = 0, cap = 0, sz = 0; // place in the memory
  bool im = false;
  size_t nr = 0, nc = 0;
};
MV valueOf(const Lender &l, const Bor &b) {
  MV m = ref::vec(std::vector<double>(l.model.begin() + b.off, l.model.begin() + b.off + b.sz));
  m.im = b.im;
  m.nr = b.nr;
  m.nc = b.nc;
  return m;
}
void checkAll(Ctx &c, const Lender &l, std::vector<Bor> &bs, const std::string &what) {
  for (size_t i = 0; i < l.raw.size(); i++)
    if (!(l.raw[i] == l.model[i]))
      c.fail(what + ": the memory at " + std::to_string((long)i - (long)l.guard) + " is " + num(l.raw[i]) +
             " instead of " + num(l.model[i]));
  for (auto &b : bs)
    expectVec(c, *b.x, valueOf(l, b), what + ": borrowed object");
}
std::string at(size_t i) { return "b" + std::to_string(i); }

void byRef(BorrowPtr &p, double v) { p[0] = v; }

template <int MODE> void history(Ctx &c) {
  Src &s = c.s;
  overflow() = false;
  Lender l;
  // the borrowed parts: disjoint and adjacent, one borrower may share
  std::vector<Bor> bs;
  size_t total = l.guard;
  int nb = 1 + (int)s.below(3);
  std::vector<std::pair<size_t, size_t>> parts;
  for (int i = 0; i < nb; i++) {
    size_t n = MODE == 1 && i > 0 ? parts[0].second : genSize(s, 40);
    if (MODE == 2)
      n = 1 + s.below(6);
    parts.push_back({total, n});
    total += n;
  }
  l.raw.assign(total + l.guard, GUARD);
  l.raw.shrink_to_fit();
  for (auto &p : parts)
    for (size_t i = 0; i < p.second; i++)
      l.raw[p.first + i] = genSmall(s);
  l.model = l.raw;
  const double *base = l.raw.data();
  for (auto &p : parts) {
    Bor b;
    b.off = p.first;
    b.cap = b.sz = p.second;
    if (s.chance(1, 4)) { // borrowed as a matrix
      b.im = true;
      b.nr = p.second;
      b.nc = 1;
      for (size_t d = 2; d <= 7; d++)
        if (p.second % d == 0 && s.below(2)) {
          b.nr = d;
          b.nc = p.second / d;
        }
      b.x = std::make_unique<BorrowPtr>(l.raw.data() + p.first, size_t{b.nr}, size_t{b.nc});
    } else
      b.x = std::make_unique<BorrowPtr>(l.raw.data() + p.first, p.second);
    bs.push_back(std::move(b));
  }
  checkAll(c, l, bs, "borrowing");
  int steps = 1 + (int)s.below(14), refusedN = 0, done = 0;
  for (int k = 0; k < steps; k++) {
    size_t ia = s.below(bs.size()), ib = s.below(bs.size());
    Bor &a = bs[ia], &b = bs[ib];
    MV ma = valueOf(l, a), mb = valueOf(l, b);
    std::string t;
    auto put = [&](const MV &m) { // an assignment of m has happened
      for (size_t i = 0; i < m.size(); i++)
        l.model[a.off + i] = m.v[i];
      a.sz = m.size();
      a.im = m.im;
      a.nr = m.nr;
      a.nc = m.nc;
    };
    // assigns something of the value m
    auto assign = [&](const MV &m, auto &&f) {
      bool over = m.size() > a.cap;
      bool refused = throws(f);
      if (over && !refused)
        c.fail(t + ": " + std::to_string(m.size()) + " elements are accepted for " + std::to_string(a.cap) + " borrowed ones");
      if (!over && refused)
        c.fail(t + ": is refused");
      if (refused) {
        refusedN++;
        c.label("too many elements");
      } else
        put(m);
    };
    auto small = [](const MV &m) {
      for (double x : m.v)
        if (!(std::fabs(x) < 1e9))
          return false;
      return true;
    };
    // number of elements: often fitting, sometimes one more or less
    auto size = [&]() -> size_t {
      switch (s.below(6)) {
      case 0:
        return a.cap;
      case 1:
        return a.sz + s.below(a.cap - a.sz + 1);
      case 2:
        return a.cap + 1;
      case 3:
        return a.cap + 1 + s.below(a.cap + 4);
      case 4:
        return std::max<size_t>(1, a.sz - s.below(a.sz));
      default:
        return a.sz;
      }
    };
    switch (s.below(24)) {
    case 0: {
      MV m = genVec(s, size(), Ty::D, SMALL);
      auto x = make<double>(m);
      t = at(ia) + " = vector of " + std::to_string(m.size());
      assign(m, [&]() { *a.x = x; });
      break;
    }
    case 1: {
      MV m = genVec(s, size(), Ty::I, SMALL);
      auto x = make<int>(m);
      t = at(ia) + " = integers, " + std::to_string(m.size());
      m.ty = Ty::D;
      assign(m, [&]() { *a.x = x; });
      break;
    }
    case 2: {
      MV m = genVec(s, size(), Ty::B, SMALL);
      auto x = make<bool>(m);
      t = at(ia) + " = logicals, " + std::to_string(m.size());
      m.ty = Ty::D;
      assign(m, [&]() { *a.x = x; });
      break;
    }
    case 3: {
      MV m;
      int n = (int)size();
      for (int i = 1; i <= n; i++)
        m.v.push_back(i);
      t = at(ia) + " = 1:" + std::to_string(n);
      assign(m, [&]() { *a.x = etr::colon(1, n); });
      break;
    }
    case 4: {
      double v = genSmall(s);
      t = at(ia) + " = " + num(v);
      *a.x = v;
      put(ref::vec({v}));
      break;
    }
    case 5: {
      int v = (int)s.below(9) - 4;
      t = at(ia) + " = int " + std::to_string(v);
      *a.x = v;
      put(ref::vec({(double)v}));
      break;
    }
    case 6: { // calculation with itself
      double v = genSmall(s);
      t = at(ia) + " = " + at(ia) + " + " + num(v);
      MV m = apply2(ADD, ma, scal(v));
      assign(m, [&]() { *a.x = *a.x + v; });
      break;
    }
    case 7: { // calculation with another one (perhaps the same)
      MV m = apply2(SUB, ma, mb);
      if (!small(m) || (ma.im && mb.size() > ma.size()) || (mb.im && ma.size() > mb.size()) ||
          (ma.im && mb.im && (ma.nr != mb.nr || ma.nc != mb.nc)))
        continue;
      t = at(ia) + " = " + at(ia) + " - " + at(ib);
      assign(m, [&]() { *a.x = *a.x - *b.x; });
      break;
    }
    case 8: { // reversed
      t = at(ia) + " reversed";
      MV m = ref::vec(std::vector<double>(ma.v.rbegin(), ma.v.rend()));
      assign(m, [&]() { *a.x = etr::subset(*a.x, etr::colon(+(int)m.size(), 1)); });
      break;
    }
    case 9: { // function results
      t = at(ia) + " = coca(" + at(ia) + ", " + at(ib) + ")";
      MV m = ref::vec(ma.v);
      m.v.insert(m.v.end(), mb.v.begin(), mb.v.end());
      assign(m, [&]() { *a.x = etr::coca(*a.x, *b.x); });
      break;
    }
    case 10: { // matrix
      size_t n = size();
      size_t R = n, C = 1;
      for (size_t d = 2; d <= 5; d++)
        if (n % d == 0 && s.below(2)) {
          R = n / d;
          C = d;
        }
      MV m = genMat(s, R, C, Ty::D, SMALL);
      auto x = make<double>(m);
      t = at(ia) + " = matrix " + std::to_string(R) + "x" + std::to_string(C);
      assign(m, [&]() { *a.x = x; });
      break;
    }
    case 11: { // element
      size_t i = s.below(a.sz);
      double v = genSmall(s);
      t = at(ia) + "[" + std::to_string(i) + "] = " + num(v);
      if (s.below(2))
        (*a.x)[i] = v;
      else
        etr::at(*a.x, +(int)(i + 1)) = v;
      l.model[a.off + i] = v;
      break;
    }
    case 12:
    case 13: { // subset write with a scalar
      double v = genSmall(s);
      IdxOpt o;
      withIndex(s, s.pick({I_INT, I_VDBL, I_TRUE, I_COLON, I_VBOOL}), a.sz, o, [&](auto &&i, const Sel &sel) {
        t = at(ia) + "(" + sel.text + ") = " + num(v);
        if (sel.pos.empty()) {
          t = "";
          return;
        }
        etr::subset(*a.x, i) = v;
        for (size_t p : sel.pos)
          l.model[a.off + p] = v;
      });
      break;
    }
    case 14: { // subset write with elements of another one
      size_t n = 1 + s.below(std::min(a.sz, b.sz));
      std::vector<double> pi, pj;
      for (size_t i = 0; i < n; i++) {
        pi.push_back(1.0 + s.below(a.sz));
        pj.push_back(1.0 + s.below(b.sz));
      }
      auto vi = make<double>(ref::vec(pi)), vj = make<double>(ref::vec(pj));
      t = at(ia) + "(" + posText(pi) + ") = " + at(ib) + "(" + posText(pj) + ")";
      etr::subset(*a.x, vi) = etr::subset(*b.x, vj);
      for (size_t i = 0; i < n; i++)
        l.model[a.off + (size_t)pi[i] - 1] = mb.v[(size_t)pj[i] - 1];
      break;
    }
    case 15: { // the owner changes his memory
      size_t i = s.below(a.cap);
      double v = genSmall(s);
      t = "memory[" + std::to_string(i) + "] of " + at(ia) + " = " + num(v);
      l.raw[a.off + i] = v;
      l.model[a.off + i] = v;
      break;
    }
    case 16: { // a position outside is refused
      int64_t p = s.pick({(int64_t)a.sz + 1, (int64_t)0, (int64_t)-1, (int64_t)a.cap + 1, (int64_t)a.cap + 3});
      if (p == 0 && false)
        continue;
      t = at(ia) + "(" + std::to_string(p) + ") is refused";
      int pi = (int)p;
      if (!throws([&]() { etr::subset(*a.x, pi) = 5.0; }))
        c.fail(t + ": was accepted");
      refusedN++;
      c.label("position outside");
      break;
    }
    case 17: { // a copy works on the same memory
      BorrowPtr q(*a.x);
      if (s.below(2)) { // also on the part which is not used at the moment
        size_t n = a.sz + s.below(a.cap - a.sz + 1) + (s.chance(1, 6) ? a.cap : 0);
        MV m = genVec(s, n, Ty::D, SMALL);
        auto x = make<double>(m);
        t = "copy of " + at(ia) + " = vector of " + std::to_string(n);
        bool refused = throws([&]() { q = x; });
        c.require(refused == (n > a.cap), t + (refused ? ": is refused" : ": is accepted"));
        if (!refused) {
          expectVec(c, q, m, t);
          for (size_t i = 0; i < n; i++)
            l.model[a.off + i] = m.v[i];
        } else
          expectVec(c, q, ma, t);
        break;
      }
      size_t i = s.below(a.sz);
      double v = genSmall(s);
      t = "copy of " + at(ia) + "[" + std::to_string(i) + "] = " + num(v);
      expectVec(c, q, ma, t);
      q[i] = v;
      l.model[a.off + i] = v;
      break;
    }
    case 18: { // values leave: an own variable is independent
      sexp y;
      y = *a.x;
      expectVec(c, y, ma, "variable = " + at(ia));
      y[0] = 1e5;
      y = etr::coca(y, y, y);
      t = "variable = " + at(ia);
      break;
    }
    case 19: { // by reference
      double v = genSmall(s);
      byRef(*a.x, v);
      l.model[a.off] = v;
      t = "byRef(" + at(ia) + ")";
      break;
    }
    case 20: { // assignment between borrowers
      t = at(ia) + " = " + at(ib);
      assign(mb, [&]() { *a.x = *b.x; });
      break;
    }
    case 21: { // fill
      double v = genSmall(s);
      t = at(ia) + ".fill(" + num(v) + ")";
      a.x->fill(v);
      for (size_t i = 0; i < a.sz; i++)
        l.model[a.off + i] = v;
      break;
    }
    case 22: { // loop
      double v = genSmall(s);
      t = "for (x of " + at(ia) + ") x = x + " + num(v);
      for (auto &q : *a.x)
        q = q + v;
      for (size_t i = 0; i < a.sz; i++)
        l.model[a.off + i] = l.model[a.off + i] + v;
      break;
    }
    case 23: { // borrowed again at the same or at another place
      t = at(ia) + " borrows again";
      a.x.reset();
      size_t sk = s.below(a.cap);
      size_t n = a.cap - sk;
      a.x = std::make_unique<BorrowPtr>(l.raw.data() + a.off + sk, n);
      a.off += sk;
      a.cap = a.sz = n;
      a.im = false;
      a.nr = a.nc = 0;
      break;
    }
    }
    if (t.empty())
      continue;
    c.log([&](auto &o) { o << t << "; "; });
    done++;
    for (double x : l.model)
      if (!(std::fabs(x) < 1e9))
        return;
    checkAll(c, l, bs, "after " + t);
  }
  bs.clear(); // nothing is released
  for (size_t i = 0; i < l.raw.size(); i++)
    if (!(l.raw[i] == l.model[i]))
      c.fail("the memory changes at the end");
  c.require(base == l.raw.data(), "memory");
  c.nontrivial(done >= 2);
  if (refusedN)
    c.label("refused operations");
}

// borrowed operands in calculations and functions: the same as an own variable
void sameAsOwn(Ctx &c) {
  Src &s = c.s;
  overflow() = false;
  MV m = genVec(s, genSize(s, 60), Ty::D, REAL), n = genVec(s, genSize(s, 60), Ty::D, REAL);
  std::vector<double> mem = m.v, mem2 = n.v;
  BorrowPtr x(mem.data(), mem.size()), y(mem2.data(), mem2.size());
  auto own = make<double>(n);
  c.log([&](auto &o) { o << "borrowed " << str(m) << " and " << str(n); });
  c.nontrivial(m.size() > 1);
  expectVec(c, x + y, apply2(ADD, m, n), "b + b");
  expectVec(c, x * own, apply2(MUL, m, n), "b * own");
  expectVec(c, own / x, apply2(DIV, n, m), "own / b");
  expectVec(c, x - 2.5, apply2(SUB, m, scal(2.5)), "b - 2.5");
  expectVec(c, 2.5 - x, apply2(SUB, scal(2.5), m), "2.5 - b");
  expectVec(c, -x, apply1(NEG, m), "-b");
  expectVec(c, etr::sinus(x), apply1(SIN, m), "sinus(b)");
  expectVec(c, etr::exp(-(x * x)), apply1(EXP, apply1(NEG, apply2(MUL, m, m))), "exp(-(b*b))");
  MV r = ref::vec(m.v);
  r.v.insert(r.v.end(), n.v.begin(), n.v.end());
  expectVec(c, etr::coca(x, y), r, "coca(b, b)");
  c.require((size_t)etr::length(x) == m.size(), "length(b)");
  sexp z;
  z = x;
  expectVec(c, z, m, "own = b");
  z = x + y * own;
  MV w = apply2(ADD, m, apply2(MUL, n, n));
  expectVec(c, z, w, "own = b + b * own");
  if (x.size() > 1) { // as index
    MV big = genVec(s, 5, Ty::D, SMALL);
    auto bg = make<double>(big);
    std::vector<double> pos;
    for (size_t i = 0; i < 4; i++)
      pos.push_back(1.0 + s.below(5));
    std::vector<double> mp = pos;
    BorrowPtr ix(mp.data(), mp.size());
    expectVec(c, etr::subset(bg, ix), at1(big, ref::vec(pos)), "own(b)");
    c.require(mp == pos, "an index is changed");
  }
  for (size_t i = 0; i < mem.size(); i++)
    c.require(std::memcmp(&mem[i], &m.v[i], 8) == 0, "reading changes the memory");
  for (size_t i = 0; i < mem2.size(); i++)
    c.require(std::memcmp(&mem2[i], &n.v[i], 8) == 0, "reading changes the memory");
}
} // namespace
PBT_SUB_LEAK("history", 1, history<0>);
PBT_SUB_LEAK("same_size", 1, history<1>);
PBT_SUB_LEAK("small", 1, history<2>);
PBT_SUB("same_as_own", 0.5, sameAsOwn);
