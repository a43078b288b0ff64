#define GROUPS "ks"
#define MAXOPS 5
#ifndef BUDGET
#define BUDGET 100
#endif
#define SCRIBBLE 200000
#include "num.h"
CheckDef the_check = {"C06", num_gen, num_exec, describe_ops, nullptr, 0, nullptr, NUM_RULE};
