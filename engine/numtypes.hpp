// a number as an object of the other number types of C++
#ifndef NUMTYPES_HPP
#define NUMTYPES_HPP
#include "etrgen.hpp"
namespace gen {
inline const char *ntName(int k) {
  static const char *n[] = {"short", "long", "long long", "signed char", "float", "size_t", "unsigned"};
  return n[k];
}
enum { NT_SIGNED = 5, NT_ALL = 7 };
// a kind of number which can hold v; v has to be small
inline int ntKind(Src &s, double v, bool unsignedToo = true) {
  bool whole = v == std::trunc(v);
  if (!whole)
    return 4;
  int k = (int)s.below(unsignedToo && v >= 0 ? NT_ALL : NT_SIGNED);
  if (k == 3 && (v > 127 || v < -128))
    k = 0;
  return k;
}
template <class F> void ntCall(int k, double v, F &&f) {
  switch (k) {
  case 0: return f(static_cast<short>(v));
  case 1: return f(static_cast<long>(v));
  case 2: return f(static_cast<long long>(v));
  case 3: return f(static_cast<signed char>(v));
  case 4: return f(static_cast<float>(v));
  case 5: return f(static_cast<std::size_t>(v));
  default: return f(static_cast<unsigned>(v));
  }
}
} // namespace gen
#endif
