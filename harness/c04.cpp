#define GROUPS "enc"
#define MAXOPS 4
#ifndef BUDGET
#define BUDGET 200
#endif
#define SCRIBBLE 200000
#include "num.h"
CheckDef the_check = {"C04", num_gen, num_exec, describe_ops, nullptr, 0, nullptr, NUM_RULE};
