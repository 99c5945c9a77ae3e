// the optimisation routines of the library, for the native runs only
#pragma once
#ifdef VC_NATIVE
#define c__1 c__1_lbfgsb
#include "/repo/src/ldt_math/optimization/lbfgsb/lbfgsb.c"
#undef c__1
#define c__1 c__1_linesearch
#include "/repo/src/ldt_math/optimization/lbfgsb/linesearch.c"
#undef c__1
#define c__1 c__1_linpack
#include "/repo/src/ldt_math/optimization/lbfgsb/linpack.c"
#undef c__1
#include "/repo/src/ldt_math/optimization/lbfgsb/miniCBLAS.c"
#include "/repo/src/ldt_math/optimization/lbfgsb/print.c"
#define c__1 c__1_subalgorithms
#include "/repo/src/ldt_math/optimization/lbfgsb/subalgorithms.c"
#undef c__1
#include "/repo/src/ldt_math/optimization/lbfgsb/timer.c"
#endif
