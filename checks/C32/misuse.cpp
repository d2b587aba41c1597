// programs with one misuse are refused by the compiler, the same programs without it are accepted
#include "etr_pch.hpp"
#include "etrgen.hpp"
#include <fstream>
#include <sys/wait.h>
#include <unistd.h>
using namespace gen;
using std::string;
const char *plainDir();
const char *compiler();

namespace {
const char *HEAD = R"(#include "plain.hpp"
using etr::subset; using etr::coca; using etr::colon; using etr::rep; using etr::matrix; using etr::at;
using etr::cmr; using etr::li; using etr::length; using etr::dim; using etr::isNA; using etr::print;
void program(sexp &v, sexp &u, sexp &m, sexp &n, etr::Vec<int> &w, etr::Vec<int> &o, etr::Vec<bool> &l, BorrowPtr &b,
             const sexp &cv, const sexp &cm, const etr::Vec<int> &cw, const etr::Vec<bool> &cl, const BorrowPtr &cb,
             double x, int k, bool q, const double cx, sexp &r, std::string s, std::vector<double> z) {
)";
struct Text { // writes expressions
  Src &s;
  string pick(std::initializer_list<const char *> l) { return *(l.begin() + s.below(l.size())); }
  string var() { return pick({"v", "u", "m", "n", "w", "o", "l", "b"}); }
  string constant() { return pick({"cv", "cm", "cw", "cl", "cb"}); }
  string constMat() { return "cm"; }
  string mat() { return pick({"m", "n"}); }
  string num() { return pick({"1", "2", "k", "1.5", "2.", "x", "cx"}); }
  string scalar() { return s.below(5) == 0 ? pick({"true", "q"}) : num(); }
  string index() {
    switch (s.below(4)) {
    case 0:
      return pick({"1", "2", "k", "1.", "x", "true", "q"});
    case 1:
      return pick({"v", "w", "l", "b"});
    case 2:
      return pick({"coca(1, 2)", "coca(1., 2.)", "colon(1, 2)", "v == 1.", "w < 2", "w + 1", "v * 1."});
    default:
      return "subset(" + pick({"v", "w", "l"}) + ", " + pick({"1", "2.", "k", "true"}) + ")";
    }
  }
  string part() { // of a variable
    return s.below(2) ? "subset(" + var() + ", " + index() + ")" : "subset(" + mat() + ", " + index() + ", " + index() + ")";
  }
  string place() { // something which can be changed
    switch (s.below(5)) {
    case 0:
      return part();
    case 1:
      return "at(" + var() + ", " + pick({"1", "k", "1.", "x"}) + ")";
    case 2:
      return "at(" + mat() + ", " + pick({"1", "k", "1.", "x"}) + ", " + pick({"1", "k", "1.", "x"}) + ")";
    default:
      return var();
    }
  }
  string call() { // result of a function
    switch (s.below(9)) {
    case 0:
      return "coca(" + scalar() + ", " + num() + ")";
    case 1:
      return "coca(" + pick({"v", "w", "cv"}) + ", " + num() + ")";
    case 2:
      return "colon(" + num() + ", " + num() + ")";
    case 3:
      return "rep(" + var() + ", " + pick({"2", "k", "2."}) + ")";
    case 4:
      return "matrix(" + pick({"1.", "2", "1.5", "colon(1, 4)"}) + ", 2, 2)";
    case 5:
      return pick({"etr::vector_numeric(", "etr::vector_integer(", "etr::vector_logical("}) + pick({"2", "k", "3"}) + ")";
    case 6:
      return "dim(" + pick({"m", "n", "cm"}) + ")";
    case 7:
      return "isNA(" + var() + ")";
    default:
      return "li(x, v, u)";
    }
  }
  string fn() {
    return pick({"etr::sinus", "etr::cosinus", "etr::exp", "etr::ln", "etr::sqroot", "etr::tangens", "etr::sinush", "-"});
  }
  string operand(int depth) {
    switch (s.below(depth > 0 ? 6 : 3)) {
    case 0:
      return var();
    case 1:
      return constant();
    case 2:
      return part();
    case 3:
      return call();
    default:
      return calc(depth - 1);
    }
  }
  string calc(int depth) { // never a plain object
    string a = operand(depth);
    switch (s.below(4)) {
    case 0:
      return fn() + "(" + a + ")";
    case 1:
      return "(" + a + pick({" < ", " == ", " != ", " >= ", " > ", " <= "}) + (s.below(2) ? operand(depth) : num()) + ")";
    case 2:
      return "(" + num() + pick({" + ", " - ", " * ", " / "}) + a + ")";
    default:
      return "(" + a + pick({" + ", " - ", " * ", " / "}) + (s.below(2) ? operand(depth) : num()) + ")";
    }
  }
  string value(int depth = 2) {
    switch (s.below(4)) {
    case 0:
      return scalar();
    case 1:
      return operand(depth);
    default:
      return calc(depth);
    }
  }
  string temporary() {
    switch (s.below(3)) {
    case 0:
      return call();
    default:
      return calc((int)s.below(2));
    }
  }
  string alien() { return pick({"\"a\"", "s", "z", "std::string(\"b\")", "std::vector<int>()", "nullptr"}); }
  string alienVar() { return pick({"s", "z"}); }
  string statement() { // a legal one
    switch (s.below(4)) {
    case 0:
      return place() + " = " + scalar() + ";";
    case 1:
      return "print(" + operand(1) + ");";
    default:
      return var() + " = " + value() + ";";
    }
  }
};
struct Pair {
  string bad, good, kind;
};
Pair misuse(Text &t) {
  Src &s = t.s;
  Pair p;
  switch (s.below(13)) {
  case 0: {
    string r = t.value(1);
    p.kind = "assignment to a calculation";
    p.bad = t.calc((int)s.below(3)) + " = " + r + ";";
    p.good = t.var() + " = " + r + ";";
    break;
  }
  case 1: {
    string r = t.value(1);
    p.kind = "assignment to the result of a function";
    p.bad = t.call() + " = " + r + ";";
    p.good = t.var() + " = " + r + ";";
    break;
  }
  case 2: {
    string r = t.value(1), i = t.index(), j = t.index();
    p.kind = "assignment to a part of a temporary";
    if (s.below(2)) {
      p.bad = "subset(" + t.temporary() + ", " + i + ") = " + r + ";";
      p.good = "subset(" + t.var() + ", " + i + ") = " + r + ";";
    } else {
      p.bad = "subset(" + t.pick({"(m + 1.)", "(m * n)", "(-n)", "matrix(1., 2, 2)", "(m < n)", "etr::sinus(m)"}) + ", " + i + ", " + j + ") = " + r + ";";
      p.good = "subset(" + t.mat() + ", " + i + ", " + j + ") = " + r + ";";
    }
    break;
  }
  case 3: {
    string r = t.value(1);
    p.kind = "assignment to a constant";
    p.bad = t.constant() + " = " + r + ";";
    p.good = t.var() + " = " + r + ";";
    break;
  }
  case 4: {
    string r = t.scalar(), i = t.pick({"1", "k", "1.", "x"}), j = t.pick({"1", "k", "1.", "x"});
    p.kind = "change of an element of a constant or temporary";
    switch (s.below(6)) {
    case 0:
      p.bad = "at(cm, " + i + ", " + j + ") = " + r + ";";
      p.good = "at(m, " + i + ", " + j + ") = " + r + ";";
      break;
    case 1:
      p.bad = "for (auto &e : " + t.constant() + ") e = " + r + ";";
      p.good = "for (auto &e : " + t.var() + ") e = " + r + ";";
      break;
    case 2:
      p.bad = "at(" + t.temporary() + ", " + i + ") = " + r + ";";
      p.good = "at(" + t.var() + ", " + i + ") = " + r + ";";
      break;
    case 3:
      p.bad = t.constant() + ".back() = " + r + ";";
      p.good = t.var() + ".back() = " + r + ";";
      break;
    default:
      p.bad = "at(" + t.constant() + ", " + i + ") = " + r + ";";
      p.good = "at(" + t.var() + ", " + i + ") = " + r + ";";
    }
    break;
  }
  case 5: {
    string r = t.scalar(), i = t.index(), j = t.index();
    p.kind = "assignment to a part of a constant";
    if (s.below(2)) {
      p.bad = "subset(" + t.constant() + ", " + i + ") = " + r + ";";
      p.good = "subset(" + t.var() + ", " + i + ") = " + r + ";";
    } else {
      p.bad = "subset(cm, " + i + ", " + j + ") = " + r + ";";
      p.good = "subset(m, " + i + ", " + j + ") = " + r + ";";
    }
    break;
  }
  case 6: {
    string i = t.index(), j = t.index(), sc = t.pick({"x", "k", "q", "cx"});
    p.kind = "part of a number";
    if (s.below(2)) {
      p.bad = "r = subset(" + sc + ", " + i + ");";
      p.good = "r = subset(" + t.var() + ", " + i + ");";
    } else {
      p.bad = "r = subset(" + sc + ", " + i + ", " + j + ");";
      p.good = "r = subset(" + t.mat() + ", " + i + ", " + j + ");";
    }
    break;
  }
  case 7: {
    string bad = t.alien(), i = t.index(), j = t.index(), v = t.var(), m = t.mat();
    p.kind = "index without numbers";
    const bool write = s.below(2);
    auto use = [&](const string &x) { return write ? x + " = 1.;" : "r = " + x + ";"; };
    switch (s.below(3)) {
    case 0:
      p.bad = use("subset(" + v + ", " + bad + ")");
      p.good = use("subset(" + v + ", " + i + ")");
      break;
    case 1:
      p.bad = use("subset(" + m + ", " + bad + ", " + j + ")");
      p.good = use("subset(" + m + ", " + i + ", " + j + ")");
      break;
    default:
      p.bad = use("subset(" + m + ", " + i + ", " + bad + ")");
      p.good = use("subset(" + m + ", " + i + ", " + j + ")");
    }
    break;
  }
  case 8: {
    string bad = s.below(2) ? t.alien() : t.pick({"v", "w", "l", "coca(1, 2)", "(v + 1.)"}), v = t.var();
    p.kind = "at with a position which is no number";
    p.bad = "at(" + v + ", " + bad + ") = 1;";
    p.good = "at(" + v + ", " + t.pick({"1", "k", "1.", "x"}) + ") = 1;";
    break;
  }
  case 9: {
    string bad = t.pick({"w", "o", "l", "cw", "cl", "x", "k", "q", "coca(1, 2)", "subset(w, v)", "subset(l, w)"});
    string good1 = t.pick({"v", "u", "b", "cv", "m"}), good2 = t.pick({"v", "u", "b", "cv", "m"}), time = t.pick({"x", "1.5", "v", "subset(v, 1)"});
    p.kind = "interpolation with something else than numeric vectors";
    if (s.below(2))
      p.bad = "r = cmr(" + time + ", " + bad + ", " + good2 + ");";
    else
      p.bad = "r = cmr(" + time + ", " + good1 + ", " + bad + ");";
    p.good = "r = cmr(" + time + ", " + good1 + ", " + good2 + ");";
    break;
  }
  case 10: {
    string bad = t.alien(), v = t.value(1);
    p.kind = "variable with something else than numbers";
    string name = t.var();
    switch (s.below(3)) {
    case 0:
      p.bad = name + " = " + bad + ";";
      p.good = name + " = " + v + ";";
      break;
    case 1:
      p.bad = "sexp y = " + bad + ";";
      p.good = "sexp y = " + t.pick({"1.5", "x", "v", "coca(1, 2)", "v + w", "w < 1", "matrix(1., 2, 2)"}) + ";";
      break;
    default:
      p.bad = "subset(v, " + t.index() + ") = " + bad + ";";
      p.good = "subset(v, " + t.index() + ") = " + v + ";";
    }
    break;
  }
  case 11: {
    string bad = t.alien(), o = t.operand(1), op = t.pick({" + ", " - ", " * ", " / ", " < ", " == ", " != ", " >= "});
    p.kind = "calculation with something else than numbers";
    switch (s.below(3)) {
    case 0:
      p.bad = "r = " + bad + op + o + ";";
      p.good = "r = " + t.num() + op + o + ";";
      break;
    case 1:
      p.bad = "r = " + o + op + bad + ";";
      p.good = "r = " + o + op + t.num() + ";";
      break;
    default:
      string f = t.pick({"etr::sinus", "etr::cosinus", "etr::exp", "etr::ln", "etr::sqroot", "etr::tangens", "etr::sinush"});
      p.bad = "r = " + f + "(" + t.alienVar() + ");";
      p.good = "r = " + f + "(" + t.operand(1) + ");";
    }
    break;
  }
  default: {
    string bad = t.alien(), n = t.num();
    p.kind = "function with an argument which is no number";
    switch (s.below(7)) {
    case 0:
      p.bad = "r = coca(" + n + ", " + bad + ");";
      p.good = "r = coca(" + n + ", " + t.num() + ");";
      break;
    case 1:
      p.bad = "r = coca(" + bad + ", v);";
      p.good = "r = coca(" + t.num() + ", v);";
      break;
    case 2:
      p.bad = "r = colon(" + bad + ", " + n + ");";
      p.good = "r = colon(" + t.num() + ", " + n + ");";
      break;
    case 3:
      p.bad = "r = colon(" + n + ", " + bad + ");";
      p.good = "r = colon(" + n + ", " + t.num() + ");";
      break;
    case 4: {
      string f = t.pick({"etr::vector_numeric(", "etr::vector_integer(", "etr::vector_logical("});
      p.bad = "r = " + f + bad + ");";
      p.good = "r = " + f + n + ");";
      break;
    }
    case 5: {
      string f = t.pick({"length(", "isNA(", "etr::isInf("});
      p.bad = "r = " + f + bad + ");";
      p.good = "r = " + f + (s.below(3) ? t.var() : t.constant()) + ");";
      break;
    }
    default:
      p.bad = "r = matrix(" + t.pick({"std::string(\"b\")", "std::vector<int>()", "nullptr"}) + ", 2, 2);";
      p.good = "r = matrix(" + t.pick({"1.", "2", "colon(1, 4)", "v + 1."}) + ", 2, 2);";
    }
  }
  }
  return p;
}
// 0: accepted, 1: refused, 2: no answer
int compile(const string &body, string &messages) {
  string base = string(plainDir()) + "/p" + std::to_string(getpid());
  {
    std::ofstream f(base + ".cpp");
    f << HEAD << body << "}\n";
  }
  string cmd = string("cd ") + plainDir() + " && timeout 120 " + compiler() + " -std=c++20 -w -fsyntax-only -I. " + base + ".cpp > " + base + ".log 2>&1";
  int r = 2;
  for (int attempt = 0; attempt < 2 && r == 2; attempt++) {
    int st = std::system(cmd.c_str());
    std::ifstream in(base + ".log");
    messages.assign(std::istreambuf_iterator<char>(in), {});
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0)
      r = 0;
    else if (WIFEXITED(st) && WEXITSTATUS(st) == 1 && messages.find("error:") != string::npos && messages.find("internal compiler error") == string::npos &&
             messages.find("Killed") == string::npos && messages.find("memory exhausted") == string::npos)
      r = 1;
  }
  std::remove((base + ".cpp").c_str());
  std::remove((base + ".log").c_str());
  return r;
}
string firstError(const string &m) {
  std::istringstream in(m);
  string l, r;
  int n = 0;
  while (std::getline(in, l) && n < 3)
    if (l.find("error:") != string::npos) {
      r += l.substr(0, 300) + "\n";
      n++;
    }
  return r;
}
void programs(Ctx &c) {
  Src &s = c.s;
  Text t{s};
  int before = (int)s.below(4), after = (int)s.below(3);
  Pair p = misuse(t);
  string a, z;
  for (int i = 0; i < before; i++)
    a += "  " + t.statement() + "\n";
  for (int i = 0; i < after; i++)
    z += "  " + t.statement() + "\n";
  c.log([&](auto &o) { o << p.kind << ":\n" << a << "  " << p.bad << " // legal is: " << p.good << "\n" << z; });
  string m;
  int good = compile(a + "  " + p.good + "\n" + z, m);
  if (good == 1)
    c.fail("the legal program\n" + a + "  " + p.good + "\n" + z + "is refused:\n" + firstError(m));
  int bad = compile(a + "  " + p.bad + "\n" + z, m);
  if (bad == 0)
    c.fail(p.kind + ": the program\n" + a + "  " + p.bad + "\n" + z + "is accepted by the compiler");
  c.label(p.kind.c_str());
  c.nontrivial(good == 0 && bad == 1);
}
PBT_SUB("programs", 1, programs);
} // namespace
