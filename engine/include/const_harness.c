// Exposes the inline letter translation of the current tree to the symbolic execution.
#include "plasma.h"
#include "plasma_core_blas.h"

int vp_lapack_const(int c) { return lapack_const(c); }
