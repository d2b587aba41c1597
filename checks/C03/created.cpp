// variables created in every possible way and changed afterwards
#include "etr_pch.hpp"
#include "ctors.hpp"
using namespace gen;
PBT_SUB("created_num", 0.5, newVariable<double>);
PBT_SUB("created_int", 0.5, newVariable<int>);
PBT_SUB("created_log", 0.5, newVariable<bool>);
