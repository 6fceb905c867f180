// FLAGS: -DSAVE_TLS_STACK_PROTECTOR -fstack-protector-all -DNDEBUG -Dasyncpp=asyncpp_sg -Dhc=hc_sg
// C22: the scenarios without threads with a stack protector value per fiber
#define MC_PREFIX "sg_"
#define C22_SINGLE
#include "c22_fiber.cpp"
