#define GROUPS "lt"
#define MAXOPS 3
#ifndef BUDGET
#define BUDGET 400
#endif
#define SCRIBBLE 300000
#include "num.h"
CheckDef the_check = {"C08", num_gen, num_exec, describe_ops, nullptr, 0, nullptr, NUM_RULE};
