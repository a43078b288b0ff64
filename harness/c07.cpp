#define GROUPS "arith"
#define MAXOPS 4
#ifndef BUDGET
#define BUDGET 120
#endif
#define SCRIBBLE 200000
#include "num.h"
CheckDef the_check = {"C07", num_gen, num_exec, describe_ops, nullptr, 0, nullptr, NUM_RULE};
