// variables in containers of the standard library
#include "etr_pch.hpp"
#include "etrgen.hpp"
#include <array>
#include <map>
#include <memory>
#include <optional>
#include <tuple>
#include <variant>
using namespace gen;
namespace {
template <class T> struct World {
  using V = etr::Vec<T>;
  std::vector<V> v;
  std::vector<MV> m;
  std::map<int, V> mp;
  std::map<int, MV> mm;
  std::optional<V> o;
  std::optional<MV> om;
  std::array<V, 2> a;
  std::array<MV, 2> am;
  std::shared_ptr<V> p;
  MV pm;
};
template <class T> MV some(Src &s) {
  constexpr Ty ty = tyOf<T>();
  return s.chance(1, 3) ? genMat(s, genDim(s, 4), genDim(s, 4), ty, SMALL) : genVec(s, genSize(s, 20), ty, SMALL);
}
template <class T> void history(Ctx &c) {
  Src &s = c.s;
  constexpr Ty ty = tyOf<T>();
  using V = etr::Vec<T>;
  World<T> w;
  for (int i = 0; i < 2; i++) {
    w.am[i] = some<T>(s);
    w.a[i] = make<T>(w.am[i]);
  }
  w.pm = some<T>(s);
  w.p = std::make_shared<V>(make<T>(w.pm));
  auto check = [&](World<T> &w, const std::string &what) {
    c.require(w.v.size() == w.m.size(), what + ": number of variables");
    for (size_t i = 0; i < w.v.size(); i++)
      expectVec(c, w.v[i], w.m[i], what + ": vector " + std::to_string(i));
    for (auto &e : w.mm)
      expectVec(c, w.mp[e.first], e.second, what + ": map");
    if (w.o)
      expectVec(c, *w.o, *w.om, what + ": optional");
    for (int i = 0; i < 2; i++)
      expectVec(c, w.a[i], w.am[i], what + ": array");
    expectVec(c, *w.p, w.pm, what + ": pointer");
  };
  // a variable of the world and its model
  auto any = [&](World<T> &w) -> std::pair<V *, MV *> {
    switch (s.below(4)) {
    case 0:
      if (!w.v.empty()) {
        size_t i = s.below(w.v.size());
        return {&w.v[i], &w.m[i]};
      }
      return {w.p.get(), &w.pm};
    case 1:
      if (!w.mm.empty()) {
        auto it = w.mm.begin();
        std::advance(it, s.below(w.mm.size()));
        return {&w.mp[it->first], &it->second};
      }
      return {w.p.get(), &w.pm};
    case 2:
      if (w.o)
        return {&*w.o, &*w.om};
      return {w.p.get(), &w.pm};
    default: {
      size_t i = s.below(2);
      return {&w.a[i], &w.am[i]};
    }
    }
  };
  int steps = 2 + (int)s.below(14);
  for (int k = 0; k < steps; k++) {
    std::string what;
    switch (s.below(13)) {
    case 0: {
      auto r = any(w);
      V copy = *r.first; // the memory of the vector may move
      MV cm = *r.second;
      w.v.push_back(copy);
      w.m.push_back(cm);
      what = "push_back";
      break;
    }
    case 1: {
      MV n = some<T>(s);
      const auto x = make<T>(n);
      w.v.push_back(x);
      w.m.push_back(n);
      what = "push_back of a temporary " + str(n);
      break;
    }
    case 2:
      if (!w.v.empty()) {
        w.v.push_back(w.v[0]); // an element of the same vector
        w.m.push_back(MV(w.m[0]));
      }
      what = "push_back of the first";
      break;
    case 3:
      if (!w.v.empty()) {
        w.v.pop_back();
        w.m.pop_back();
      }
      what = "pop_back";
      break;
    case 4: {
      size_t n = s.below(8);
      std::vector<V> fresh(n); // variables without memory
      for (size_t i = 0; i < n; i++) {
        w.m.push_back(some<T>(s));
        fresh[i] = make<T>(w.m.back());
        w.v.push_back(fresh[i]);
      }
      what = std::to_string(n) + " new ones";
      break;
    }
    case 5: {
      auto r = any(w);
      int key = (int)s.below(4);
      V copy(*r.first);
      MV cm = *r.second;
      w.mp[key] = copy;
      w.mm[key] = cm;
      what = "map";
      break;
    }
    case 6: {
      auto r = any(w);
      V copy(*r.first);
      MV cm = *r.second;
      w.o = copy;
      w.om = cm;
      what = "optional";
      break;
    }
    case 7: {
      auto r = any(w), q = any(w);
      *r.first = *q.first;
      MV t = *q.second;
      *r.second = t;
      what = "assignment";
      break;
    }
    case 8: {
      auto r = any(w);
      size_t i = s.below(r.second->size());
      (*r.first)[i] = T(1);
      r.second->v[i] = 1;
      what = "element";
      break;
    }
    case 9: { // the copy of a function and a lambda
      auto r = any(w);
      auto f = [](V x) {
        x[0] = T(0);
        return x;
      };
      auto g = [x = *r.first]() mutable {
        x[x.size() - 1] = T(1);
        return x;
      };
      MV fm = *r.second, gm = *r.second;
      fm.v[0] = 0;
      gm.v.back() = 1;
      expectVec(c, f(*r.first), fm, "function with a copy");
      expectVec(c, g(), gm, "lambda with a copy");
      expectVec(c, g(), gm, "lambda with a copy");
      what = "functions";
      break;
    }
    case 10: {
      auto r = any(w);
      auto t = std::make_tuple(*r.first, 1);
      std::get<0>(t)[0] = T(1);
      std::variant<int, V> va = *r.first;
      std::get<V>(va)[0] = T(0);
      what = "tuple and variant";
      break;
    }
    case 11: {
      World<T> w2 = w; // everything, the pointer is shared
      w2.p = std::make_shared<V>(*w.p);
      check(w2, "copy of all containers");
      auto r = any(w2);
      MV n = some<T>(s);
      *r.first = make<T>(n);
      *r.second = n;
      check(w2, "change of the copy");
      if (s.below(2)) {
        check(w, "after the copy changed");
        w = std::move(w2);
      }
      what = "copied";
      break;
    }
    default: {
      auto r = any(w);
      *r.first = etr::coca(*r.first, T(1));
      MV n = ref::vec(r.second->v, ty);
      n.v.push_back(1);
      *r.second = n;
      what = "growing";
    }
    }
    c.log([&](auto &o) { o << what << "; "; });
    check(w, what);
  }
  c.nontrivial(steps > 3);
}
} // namespace
PBT_SUB("containers double", 0.2, history<double>);
PBT_SUB("containers int", 0.1, history<int>);
PBT_SUB("containers bool", 0.1, history<bool>);
