#define GROUPS "endec"
#define MAXOPS 8
#define NTHREADS 4
#ifndef BUDGET
#define BUDGET 60
#endif
#define SCRIBBLE 100000
#include "num.h"
CheckDef the_check = {"C14", num_gen, num_exec, describe_ops, nullptr, 0, nullptr, NUM_RULE};
