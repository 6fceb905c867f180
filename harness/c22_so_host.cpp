// FLAGS: -DASYNCPP_SO_COMPAT -DASYNCPP_SO_COMPAT_IMPL -Dasyncpp=asyncpp_so -Dhc=hc_so -Dc22=c22_so
// C22: shared object compatibility mode, the unit that provides the definitions
#define MC_PREFIX "so_"
#include "c22_unit.h"
namespace c22 { C22_UNIT(unit1); }
MC_SCENARIO(units_seq, 0, 0, 0, 0, 0) { c22::units(false); }
MC_SCENARIO(units_mt, 3, 5, 0, 1, 0) { c22::units(true); }
MC_SCENARIO(units_dispatcher, 3, 5, 0, 0, 0) { c22::units_dispatcher(); }
