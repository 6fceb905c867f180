// C22: another translation unit
#include "c22_unit.h"
namespace c22 { C22_UNIT(unit2); }
