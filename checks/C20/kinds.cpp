// every kind of object
#include "printing.hpp"
static void kinds(Ctx &c) {
  Src &s = c.s;
  overflow() = false;
  int k = (int)s.below(K_COUNT);
  Shape sh = vecShape(genSize(s));
  if (canBeMatrix(k) && s.chance(1, 2))
    sh = matShape(genDim(s, 7), genDim(s, 7));
  int cls = s.pick({SMALL, REAL, SPECIAL, REAL});
  withOperand(s, k, sh, cls, [&](auto &&x, const MV &m) {
    c.log([&](auto &o) { o << "print(" << kindName(k) << " " << str(m) << ")"; });
    c.nontrivial(m.size() > 1 || m.scalar);
    c.label(kindName(k));
    if (m.im)
      c.label("matrix");
    if (overflow())
      return;
    printCase(c, x, m, kindName(k));
  });
}
// subsets of all types
static void subsets(Ctx &c) {
  Src &s = c.s;
  Ty t = s.pick({Ty::D, Ty::I, Ty::B});
  MV m = genVec(s, genSize(s, 60), t, REAL);
  std::vector<double> pos;
  size_t n = 1 + s.below(12);
  for (size_t i = 0; i < n; i++)
    pos.push_back(1.0 + s.below(m.size()));
  auto iv = make<double>(ref::vec(pos));
  MV want = at1(m, ref::vec(pos));
  c.log([&](auto &o) { o << "print of subset " << str(ref::vec(pos)) << " of " << str(m); });
  c.nontrivial(n > 1);
  auto run = [&](auto x) {
    auto sub = etr::subset(x, iv);
    printCase(c, sub, want, "subset");
    expectVec(c, x, m, "the variable of a printed subset");
  };
  if (t == Ty::D)
    run(make<double>(m));
  else if (t == Ty::I)
    run(make<int>(m));
  else
    run(make<bool>(m));
}
// a sequence of outputs
static void sequence(Ctx &c) {
  Src &s = c.s;
  Precision p(s);
  int n = 1 + (int)s.below(5);
  std::vector<std::function<void()>> todo;
  std::vector<std::vector<double>> rows; // expected lines
  std::vector<bool> logical;
  std::vector<std::string> names;
  std::string text;
  std::string out = printed([&]() {
    for (int i = 0; i < n; i++) {
      MV m;
      switch (s.below(7)) {
      case 0: {
        double d = genReal(s);
        etr::print(d);
        m = ref::vec({d});
        text += "double ";
        break;
      }
      case 1: {
        int d = (int)s.below(2000) - 1000;
        etr::print(d);
        m = ref::vec({(double)d});
        text += "int ";
        break;
      }
      case 2: { // a logical value has no line end
        etr::print();
        text += "empty line ";
        continue;
      }
      case 3: {
        m = genMat(s, genDim(s, 4), genDim(s, 4), Ty::D, REAL);
        auto x = make<double>(m);
        etr::print(x);
        text += "matrix ";
        break;
      }
      case 4: {
        m = genMat(s, genDim(s, 4), genDim(s, 4), Ty::B, REAL);
        auto x = make<bool>(m);
        etr::print(x);
        text += "logical matrix ";
        break;
      }
      case 5: {
        m = genVec(s, 1 + s.below(6), Ty::I, REAL);
        auto x = make<int>(m);
        etr::print(x);
        text += "integer ";
        break;
      }
      case 6: {
        bool b = s.below(2);
        etr::print(b);
        m = ref::vec({(double)b}, Ty::B);
        text += "bool ";
        break;
      }
      }
      if (m.im)
        for (size_t r = 0; r < m.nr; r++) {
          std::vector<double> l;
          for (size_t q = 0; q < m.nc; q++)
            l.push_back(m.v[q * m.nr + r]);
          rows.push_back(l);
          logical.push_back(m.ty == Ty::B);
        }
      else {
        rows.push_back(m.v);
        logical.push_back(m.ty == Ty::B);
      }
    }
  });
  c.log([&](auto &o) { o << "print sequence: " << text; });
  auto l = lines(out);
  c.nontrivial(n > 1);
  if (formatChanged())
    c.fail("printing " + text + ": the format of the stream was changed");
  if (l.size() != rows.size())
    c.fail("printing " + text + ": " + std::to_string(l.size()) + " lines instead of " + std::to_string(rows.size()) + ":\n" + out);
  for (size_t i = 0; i < l.size(); i++) {
    if (l[i].size() != rows[i].size())
      c.fail("printing " + text + ": line " + std::to_string(i + 1) + " has a wrong number of elements:\n" + out);
    for (size_t j = 0; j < l[i].size(); j++)
      if (!readElem(l[i][j], rows[i][j], p.prec, logical[i]))
        c.fail("printing " + text + ": line " + std::to_string(i + 1) + " has " + l[i][j] + " instead of " + num(rows[i][j]) + ":\n" + out);
  }
}
// a text is printed as it is
static void texts(Ctx &c) {
  Src &s = c.s;
  std::string t;
  size_t n = s.below(40);
  for (size_t i = 0; i < n; i++)
    t += (char)(33 + s.below(94));
  std::string out = printed([&]() { etr::print(t.c_str()); });
  c.log([&](auto &o) { o << "print of the text " << t; });
  c.nontrivial(n > 1);
  if (out.substr(0, t.size()) != t || out.find_first_not_of(" \n", t.size()) != std::string::npos || out.back() != '\n')
    c.fail("the text " + t + " is printed as " + out);
}
// variables with derivatives
static void derivs(Ctx &c) {
  Src &s = c.s;
  Precision p(s);
  bool mat = s.below(2);
  Start st = genStart(s, mat);
  AV av(0, 0);
  auto x0 = make<double>(st.m[0]), x1 = make<double>(st.m[1]), x2 = make<double>(st.m[2]);
  av.initBuffer(x0, x1, x2);
  std::vector<double> mem0 = st.m[3].v, mem1 = st.m[4].v;
  BorrowPtr y0(mem0.data(), mem0.size()), y1(mem1.data(), mem1.size());
  av.initBorrow(y0, y1);
  DERIV_VARS;
  auto one = [&](auto &v, const MV &m, const char *n) {
    std::string out = printed([&]() { etr::print(v, av); });
    expectText(c, out, m, p.prec, std::string("print of ") + n);
  };
  c.log([&](auto &o) { o << "print of variables with derivatives " << str(st.m[0]) << " " << str(st.m[3]); });
  c.nontrivial();
  one(a0, st.m[0], "a0");
  one(a1, st.m[1], "a1");
  one(a2, st.m[2], "a2");
  one(b0, st.m[3], "b0");
  one(b1, st.m[4], "b1");
}
PBT_SUB("kinds", 2, kinds);
PBT_SUB("subsets", 1, subsets);
PBT_SUB("sequence", 1, sequence);
PBT_SUB("texts", 0.2, texts);
PBT_SUB("derivs", 0.5, derivs);
