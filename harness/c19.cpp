#define GROUPS "lt,diag"
#define MAXOPS 4
#define NTHREADS 3
#ifndef BUDGET
#define BUDGET 400
#endif
#define SCRIBBLE 300000
#include "num.h"
CheckDef the_check = {"C19", num_gen, num_exec, describe_ops, nullptr, 0, nullptr, NUM_RULE};
