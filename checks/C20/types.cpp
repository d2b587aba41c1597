// the types of objects and expressions
#include "printing.hpp"
#include <cxxabi.h>
static std::string nameOf(const std::type_info &t) {
  int st = 0;
  char *p = abi::__cxa_demangle(t.name(), nullptr, nullptr, &st);
  std::string r(p ? p : t.name());
  std::free(p);
  return r;
}
// one part of the name per line, indented with the depth of the brackets
static void expectTree(Ctx &c, const std::string &out, const std::string &name, const std::string &what) {
  std::string joined;
  std::istringstream in(out);
  std::string line;
  long depth = 0;
  while (std::getline(in, line)) {
    size_t tabs = 0;
    while (tabs < line.size() && line[tabs] == '\t')
      tabs++;
    std::string rest = line.substr(tabs);
    if (!rest.empty() && (long)tabs != depth)
      c.fail(what + ": '" + rest + "' has the indentation " + std::to_string(tabs) + " instead of " + std::to_string(depth));
    for (char ch : rest)
      depth += ch == '<' ? 1 : ch == '>' ? -1 : 0;
    joined += rest;
  }
  if (joined != name)
    c.fail(what + " shows " + joined + " instead of " + name);
}
template <class X> static void typeCase(Ctx &c, X &x, const std::string &what) {
  using T = std::remove_cvref_t<X>;
  const std::string name = nameOf(typeid(T));
  std::string a = printed([&]() { etr::printType(x); });
  if (a != name + "\n")
    c.fail("printType of " + what + " shows " + a + " instead of " + name);
  a = printed([&]() { etr::printT<T>(); });
  if (a != name + "\n")
    c.fail("printT of " + what + " shows " + a + " instead of " + name);
  expectTree(c, printed([&]() { etr::printAST(x); }), name, "printAST of " + what);
  expectTree(c, printed([&]() { etr::printTAST<T>(); }), name, "printTAST of " + what);
}
static void types(Ctx &c) {
  Src &s = c.s;
  overflow() = false;
  int k = (int)s.below(K_COUNT);
  Shape sh = vecShape(genSize(s));
  if (canBeMatrix(k) && s.chance(1, 2))
    sh = matShape(genDim(s, 5), genDim(s, 5));
  int how = (int)s.below(5);
  withOperand(s, k, sh, SMALL, [&](auto &&x, const MV &m) {
    c.log([&](auto &o) { o << "type of " << kindName(k) << " " << str(m) << ", use " << how; });
    c.nontrivial(m.size() > 1 || m.scalar);
    c.label(kindName(k));
    if (overflow())
      return;
    using X = std::remove_cvref_t<decltype(x)>;
    if constexpr (std::is_arithmetic_v<X>) {
      typeCase(c, x, kindName(k));
    } else {
      MV before = m;
      sexp v = etr::coca(1.5);
      switch (how) {
      case 0:
        typeCase(c, x, kindName(k));
        break;
      case 1: {
        auto e = x + x * 2.0;
        typeCase(c, e, std::string(kindName(k)) + " in a calculation");
        break;
      }
      case 2: {
        auto e = -(x < 2);
        typeCase(c, e, std::string(kindName(k)) + " in a comparison");
        break;
      }
      case 3: {
        auto e = etr::sinus(x - v) / (v * x);
        typeCase(c, e, std::string(kindName(k)) + " in a function");
        break;
      }
      default: {
        auto e = etr::coca(1, 2.5);
        typeCase(c, e, "coca");
        int i = 3;
        typeCase(c, i, "int");
      }
      }
      expectVec(c, x, before, "an object whose type was printed");
    }
  });
}
PBT_SUB("types", 0.3, types);
