#include "conv.inc"
PBT_SUB("constructed_di", 0.5, (constructed<double, int>));
PBT_SUB("constructed_db", 0.5, (constructed<double, bool>));
PBT_SUB("constructed_id", 0.5, (constructed<int, double>));
PBT_SUB("constructed_ib", 0.5, (constructed<int, bool>));
PBT_SUB("constructed_bd", 0.5, (constructed<bool, double>));
PBT_SUB("constructed_bi", 0.5, (constructed<bool, int>));
PBT_SUB("constructed_dd", 0.5, (constructed<double, double>));
PBT_SUB("scalars_double", 1, scalars<double>);
PBT_SUB("scalars_int", 1, scalars<int>);
PBT_SUB("scalars_bool", 1, scalars<bool>);
