#include "mc.h"
#include <unistd.h>
int main(int argc, char** argv) { int r = mcrt_main(argc, argv); fflush(stdout); fflush(stderr); _exit(r); }
