// histories on objects which borrow R objects
#include "etr_pch.hpp"
#include "robj.hpp"
#include <memory>

namespace {
struct W {
  std::unique_ptr<WrapperSEXP> x;
  int obj = -1; // the borrowed R object or -1 (own memory)
  MV m;         // content
};
void step(Ctx &c, Src &s, std::vector<RO> &os, std::vector<W> &ws, sexp &var, MV &mvar, int &done, int &refusedN) {
  size_t ia = s.below(ws.size());
  W &a = ws[ia];
  MV ma = a.m;
  W &b = ws[s.below(ws.size())];
  MV mb = b.m;
  std::string t = "w" + std::to_string(ia);
  // the value of an assignment is stored in place as long as there is room
  auto assign = [&](MV m, auto &&f) {
    c.log([&](auto &o) { o << t << "  (" << str(m) << ")\n"; });
    if (throws(f))
      c.fail(t + ": is refused");
    m.ty = Ty::D;
    m.scalar = false;
    if (a.obj >= 0) {
      RO &o = os[(size_t)a.obj];
      if (m.size() <= o.m.size()) {
        for (size_t i = 0; i < m.size(); i++)
          o.m.v[i] = m.v[i];
      } else {
        a.obj = -1; // more elements than borrowed: own memory
        c.label("own memory");
      }
    }
    a.m = m;
    done++;
  };
  auto size = [&]() -> size_t {
    switch (s.below(5)) {
    case 0:
      return ma.size();
    case 1:
      return 1 + s.below(ma.size());
    case 2:
      return ma.size() + 1;
    case 3:
      return ma.size() + 1 + s.below(ma.size() + 4);
    default:
      return genSize(s, 40);
    }
  };
  auto changed = [&](size_t i, double v) { // element i of a was changed
    a.m.v[i] = v;
    if (a.obj >= 0)
      os[(size_t)a.obj].m.v[i] = v;
    done++;
  };
  auto small = [](const MV &m) {
    for (double x : m.v)
      if (!(std::fabs(x) < 1e9))
        return false;
    return true;
  };
  switch (s.below(20)) {
  case 0: {
    MV m = genVec(s, size(), Ty::D, SMALL);
    auto x = makeVec<double>(m);
    t += " = vector";
    assign(m, [&]() { *a.x = x; });
    break;
  }
  case 1: {
    MV m = genVec(s, size(), Ty::I, SMALL);
    auto x = makeVec<int>(m);
    t += " = integer vector";
    assign(m, [&]() { *a.x = x; });
    break;
  }
  case 2: {
    MV m = genVec(s, size(), Ty::B, SMALL);
    auto x = makeVec<bool>(m);
    t += " = logical vector";
    assign(m, [&]() { *a.x = x; });
    break;
  }
  case 3: {
    double v = genSmall(s);
    t += " = " + num(v);
    assign(scal(v), [&]() { *a.x = v; });
    break;
  }
  case 4: {
    int v = (int)s.below(100) - 50;
    t += " = " + std::to_string(v);
    assign(scal(v), [&]() { *a.x = v; });
    break;
  }
  case 5: {
    MV m = genMat(s, genDim(s, 4), genDim(s, 4), Ty::D, SMALL);
    auto x = makeVec<double>(m);
    t += " = matrix";
    assign(m, [&]() { *a.x = x; });
    break;
  }
  case 6: {
    double v = genSmall(s);
    if (!small(ma))
      break;
    t += " = itself + " + num(v);
    assign(apply2(ADD, ma, scal(v)), [&]() { *a.x = *a.x + v; });
    break;
  }
  case 7: {
    if (!small(ma) || !small(mb) || ma.size() > 200 || mb.size() > 200)
      break;
    t += " = itself - other";
    assign(apply2(SUB, ma, mb), [&]() { *a.x = *a.x - *b.x; });
    break;
  }
  case 8: {
    t += " = coca(itself, 1.5)";
    if (ma.size() > 300)
      break;
    MV m = vec(ma.v);
    m.v.push_back(1.5);
    assign(m, [&]() { *a.x = etr::coca(*a.x, 1.5); });
    break;
  }
  case 9: {
    int n = 1 + (int)s.below(30);
    t += " = colon(1, " + std::to_string(n) + ")";
    MV m;
    for (int i = 1; i <= n; i++)
      m.v.push_back(i);
    assign(m, [&]() { *a.x = etr::colon(1, n); });
    break;
  }
  case 10: {
    t += " = other";
    if (&a == &b)
      break;
    assign(mb, [&]() { *a.x = *b.x; });
    break;
  }
  case 11: {
    t += " = variable";
    assign(mvar, [&]() { *a.x = var; });
    break;
  }
  case 12: { // element
    size_t i = s.below(ma.size());
    double v = genSmall(s);
    int how = (int)s.below(3);
    t += " element " + std::to_string(i + 1) + " = " + num(v);
    c.log([&](auto &o) { o << t << "\n"; });
    if (how == 0)
      (*a.x)[i] = v;
    else if (how == 1)
      etr::at(*a.x, (int)i + 1) = v;
    else
      etr::subset(*a.x, (int)i + 1) = v;
    changed(i, v);
    break;
  }
  case 13: { // subset
    std::vector<size_t> idx;
    size_t n = 1 + s.below(4);
    MV mi;
    for (size_t i = 0; i < n; i++) {
      idx.push_back(s.below(ma.size()));
      mi.v.push_back((double)idx.back() + 1);
    }
    MV mv = genVec(s, n, Ty::D, SMALL);
    auto vi = makeVec<int>(mi);
    auto vv = makeVec<double>(mv);
    t += " subset " + str(mi) + " = " + str(mv);
    c.log([&](auto &o) { o << t << "\n"; });
    etr::subset(*a.x, vi) = vv;
    for (size_t i = 0; i < n; i++)
      changed(idx[i], mv.v[i]);
    break;
  }
  case 14: { // the owner changes the object
    size_t k = s.below(os.size());
    if (os[k].m.ty != Ty::D)
      break;
    size_t i = s.below(os[k].m.size());
    double v = genSmall(s);
    t = "R changes object " + std::to_string(k);
    c.log([&](auto &o) { o << t << "\n"; });
    ::REAL(os[k].s)[i] = v;
    os[k].m.v[i] = v;
    for (auto &w : ws)
      if (w.obj == (int)k && i < w.m.size())
        w.m.v[i] = v;
    done++;
    break;
  }
  case 15: { // borrow another object
    size_t k = s.below(os.size());
    for (auto &w : ws)
      if (w.obj == (int)k)
        return;
    t += " borrows object " + std::to_string(k);
    c.log([&](auto &o) { o << t << "\n"; });
    bool refused = throws([&]() { *a.x = os[k].s; });
    if (refused != (os[k].m.ty != Ty::D))
      c.fail(t + (refused ? ": is refused" : ": another type is accepted"));
    if (refused)
      refusedN++;
    else {
      a.obj = (int)k;
      a.m = os[k].m;
      done++;
    }
    break;
  }
  case 16: {
    t = "variable = w" + std::to_string(ia);
    c.log([&](auto &o) { o << t << "\n"; });
    var = *a.x;
    mvar = ma;
    done++;
    break;
  }
  case 17: { // the variable becomes a copy of an R object
    size_t k = s.below(os.size());
    t = "variable = object " + std::to_string(k);
    c.log([&](auto &o) { o << t << "\n"; });
    bool refused = throws([&]() { var = os[k].s; });
    if (refused != (os[k].m.ty != Ty::D))
      c.fail(t + (refused ? ": is refused" : ": another type is accepted"));
    if (!refused)
      mvar = os[k].m;
    else
      refusedN++;
    break;
  }
  case 18: { // outside of the object
    t += " outside";
    c.log([&](auto &o) { o << t << "\n"; });
    size_t n = ma.size();
    if (!throws([&]() { etr::at(*a.x, (int)n + 1) = 1.0; }) || !throws([&]() { (*a.x)[n] = 1.0; }) ||
        !throws([&]() {
          sexp y;
          y = etr::subset(*a.x, (int)n + 1);
        }))
      c.fail(t + ": is accepted");
    refusedN++;
    break;
  }
  default: { // loop
    t += " loop";
    c.log([&](auto &o) { o << t << "\n"; });
    for (auto &e : *a.x)
      e += 1.0;
    for (size_t i = 0; i < ma.size(); i++)
      changed(i, ma.v[i] + 1.0);
    break;
  }
  }
}
void history(Ctx &c) {
  Src &s = c.s;
  Fresh fresh;
  overflow() = false;
  std::vector<RO> os;
  size_t n = 2 + s.below(3);
  for (size_t i = 0; i < n; i++) {
    RO o;
    o.m = genObj(s, i < 2 || s.chance(3, 4) ? Ty::D : s.below(2) ? Ty::I : Ty::B);
    o.s = makeR(o.m);
    os.push_back(o);
    c.log([&](auto &out) { out << "object " << i << ": " << str(o.m) << "\n"; });
  }
  std::vector<W> ws(1 + s.below(2));
  for (size_t i = 0; i < ws.size(); i++) {
    ws[i].x = std::make_unique<WrapperSEXP>(os[i].s);
    ws[i].obj = (int)i;
    ws[i].m = os[i].m;
  }
  sexp var;
  MV mvar = genObj(s, Ty::D, 30);
  var = makeVec<double>(mvar);
  int steps = 1 + (int)s.below(12), done = 0, refusedN = 0;
  for (int k = 0; k <= steps; k++) {
    if (k)
      step(c, s, os, ws, var, mvar, done, refusedN);
    std::string what = "after step " + std::to_string(k);
    for (size_t i = 0; i < os.size(); i++)
      expectR(c, os[i].s, os[i].m, what + ": R object " + std::to_string(i));
    for (size_t i = 0; i < ws.size(); i++)
      expectVec(c, *ws[i].x, ws[i].m, what + ": object w" + std::to_string(i));
    expectVec(c, var, mvar, what + ": variable");
    balanced(c, 0, what);
  }
  c.nontrivial(done >= 2);
}
} // namespace
PBT_SUB_LEAK("history", 3, history);
