#define GROUPS "cts"
#ifndef MAXOPS
#define MAXOPS 3
#endif
#ifndef BUDGET
#define BUDGET 600
#endif
#define SCRIBBLE 1000000
#include "num.h"
CheckDef the_check = {"C10", num_gen, num_exec, describe_ops, nullptr, 0, nullptr, NUM_RULE};
