#ifndef PAIRS_HPP
#define PAIRS_HPP
// one binary operation over all pairs of kinds of operands
#include "etr_pch.hpp"
#include "etrgen.hpp"
using namespace gen;

template <int OP, class L, class R> auto binary(const L &l, const R &r) {
  if constexpr (OP == ADD)
    return l + r;
  else if constexpr (OP == SUB)
    return l - r;
  else if constexpr (OP == MUL)
    return l * r;
  else if constexpr (OP == DIV)
    return l / r;
  else if constexpr (OP == POW)
    return l ^ r;
  else if constexpr (OP == EQ)
    return l == r;
  else if constexpr (OP == NE)
    return l != r;
  else if constexpr (OP == LT)
    return l < r;
  else if constexpr (OP == LE)
    return l <= r;
  else if constexpr (OP == GT)
    return l > r;
  else if constexpr (OP == GE)
    return l >= r;
}

// the shapes of two operands which can be calculated with each other
static void genShapes(Src &s, int kl, int kr, Shape &l, Shape &r) {
  bool ml = canBeMatrix(kl), mr = canBeMatrix(kr);
  switch (s.below(8)) {
  default: { // vectors of arbitrary length
    l = vecShape(genSize(s));
    r = vecShape(s.chance(1, 4) ? l.n : genSize(s));
    return;
  }
  case 4:
  case 5: // both matrices
    if (ml || mr) {
      size_t R = genDim(s, 5), C = genDim(s, 5);
      l = ml ? matShape(R, C) : vecShape(1 + s.below(R * C));
      r = mr ? matShape(R, C) : vecShape(1 + s.below(R * C));
      return;
    }
    break;
  case 6: // matrix and vector
    if (ml) {
      size_t R = genDim(s, 6), C = genDim(s, 6);
      l = matShape(R, C);
      r = vecShape(1 + s.below(R * C));
      return;
    }
    break;
  case 7:
    if (mr) {
      size_t R = genDim(s, 6), C = genDim(s, 6);
      r = matShape(R, C);
      l = vecShape(1 + s.below(R * C));
      return;
    }
    break;
  }
  l = vecShape(genSize(s));
  r = vecShape(genSize(s));
}

// the range of int
static bool inDomain(const MV &want) {
  if (want.ty != Ty::D)
    for (double x : want.v)
      if (std::fabs(x) > 1e9)
        return false;
  return true;
}

#endif
