#define GROUPS "poly"
#ifndef MAXOPS
#define MAXOPS 2
#endif
#ifndef BUDGET
#define BUDGET 500
#endif
#define SCRIBBLE 600000
#include "num.h"
CheckDef the_check = {"C09", num_gen, num_exec, describe_ops, nullptr, 0, nullptr, NUM_RULE};
