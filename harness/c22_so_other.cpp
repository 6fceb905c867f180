// FLAGS: -DASYNCPP_SO_COMPAT -Dasyncpp=asyncpp_so -Dhc=hc_so -Dc22=c22_so
// C22: shared object compatibility mode, another unit
#include "c22_unit.h"
namespace c22 { C22_UNIT(unit2); }
