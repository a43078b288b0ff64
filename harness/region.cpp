#include "op.h"
// The caller is itself inside an OpenMP region: what the library opens is then nested.
void in_region(LibOp& op) {
#pragma omp parallel
  {
#pragma omp single
    op.run();
  }
}
