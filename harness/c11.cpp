#define GROUPS "boot"
#ifndef MAXOPS
#define MAXOPS 2
#endif
#ifndef BUDGET
#define BUDGET 200
#endif
#define SCRIBBLE 4000000
#include "num.h"
CheckDef the_check = {"C11", num_gen, num_exec, describe_ops, nullptr, 0, nullptr, NUM_RULE};
