// Contract vocabulary shared by the deductive verifier (engine/ldtvc.py, which
// gives these functions their logical meaning) and by the native build of the
// same contract (engine/native.cpp, which reads the values from a tape).
#pragma once
#include <cmath>
#include <cstddef>
#include <limits>
extern "C" {
// ---- arbitrary inputs (universally quantified by the verifier)
int    vc_int(int lo, int hi);                // any int in [lo,hi]
int    vc_size(int lo, int hi);               // same; native runs stay near lo
double vc_real(void);                         // any finite real
double vc_posreal(void);                      // any real > 0
double vc_real_nan(void);                     // any finite real or NaN
double vc_real_ext(void);                     // any finite real, NaN, +inf or -inf
bool   vc_bool(void);
double *vc_array(int n);                      // n >= 0 arbitrary finite reals
double *vc_array_nan(int n);                  // n arbitrary reals, some may be NaN
double *vc_array_pos(int n);                  // n arbitrary positive reals
double *vc_array_class(int n, int hi);        // n values that are missing or integers in [0,hi]
int    *vc_iarray(int n, int lo, int hi);     // n arbitrary ints in [lo,hi]
// ---- logic
void   vc_assume(bool c);
void   vc_ensure(bool c, const char *name);   // a named proof obligation
void   vc_cover(const char *name);            // must be reachable
bool   vc_same(double a, double b);           // equal as reals, or both NaN (native: within rounding)
bool   vc_le(double a, double b);             // a <= b (native: within rounding)
bool   vc_symbolic(void);                     // true in the verifier
// ---- proof hints (no effect on what is proved)
void   vc_bounded(void);                      // unroll every loop; labelled bounded
int    vc_pin(int x, int lo, int hi);         // x, one case for every value in [lo,hi] (x must lie there)
void   vc_ctx(const void *p);                 // context object handed to cand_* functions
void   vc_ghost(int idx);                     // index followed by array frame invariants
void   vc_frame(void);                        // infer which parts of arrays loops leave unchanged
void   vc_check_overflow(void);               // also prove absence of signed overflow
}
#define ENSURE(c) vc_ensure((c), #c)
#define NOINLINE __attribute__((noinline))
#ifdef VC_NATIVE
void vc_register(const char *, void (*)());
#define HARNESS(n)                                                             \
  static void h_##n();                                                         \
  namespace { struct reg_##n { reg_##n() { vc_register(#n, h_##n); } } r_##n; } \
  static void h_##n()
#else
#define HARNESS(n) extern "C" NOINLINE void h_##n()
#endif
// spec function: pure, possibly recursive; the verifier unfolds it on demand
#define SPEC extern "C" NOINLINE __attribute__((used))
// loop-invariant candidate: evaluated over loop-carried values
#define CAND extern "C" NOINLINE __attribute__((used))
template <class F> static inline bool vc_throws(F f) {
  try { f(); } catch (...) { return true; }
  return false;
}
