// dim of results, subsets and calculations
#include "helper.inc"
template <int K> static void dims(Ctx &c) {
  Src &s = c.s;
  overflow() = false;
  Shape sh = s.chance(3, 4) ? matShape(1 + s.below(8), 1 + s.below(8)) : vecShape(1 + s.below(10));
  operand<K>(s, sh, SMALL, [&](auto &x, const MV &m) {
    c.log([&](auto &o) { o << "dim(" << kindName(K) << " " << str(m) << ")"; });
    c.nontrivial(m.im);
    if (m.im) {
      auto d = etr::dim(x);
      c.require(d.size() == 2 && d[0] == (int)m.nr && d[1] == (int)m.nc, "dim");
      etr::Vec<int> y;
      y = etr::dim(x);
      c.require(y.size() == 2 && y[0] == (int)m.nr && y[1] == (int)m.nc, "y = dim");
    } else if (!throws([&]() { auto d = etr::dim(x); (void)d; }))
      c.fail("dim of a vector is not refused");
  });
}
PBT_SUB("dim_num", 0.3, dims<K_NUM>);
PBT_SUB("dim_int", 0.3, dims<K_INTVEC>);
PBT_SUB("dim_log", 0.3, dims<K_BOOLVEC>);
PBT_SUB("dim_coca", 0.3, dims<K_COCA>);
PBT_SUB("dim_colon", 0.3, dims<K_COLON>);
PBT_SUB("dim_subset", 0.3, dims<K_SUBSET>);
PBT_SUB("dim_op", 0.3, dims<K_BINOP>);
PBT_SUB("dim_un", 0.3, dims<K_UNOP>);
PBT_SUB("dim_comp", 0.3, dims<K_COMP>);
PBT_SUB("dim_subop", 0.3, dims<K_SUBOP>);
