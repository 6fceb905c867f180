// FLAGS: -DASYNCPP_FIBER_USE_UCONTEXT=1 -Dasyncpp=asyncpp_uc -Dhc=hc_uc
// C22: the same scenarios with the ucontext based implementation
#define MC_PREFIX "uc_"
#include "c22_fiber.cpp"
