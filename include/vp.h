// Harness API. Under the symbolic engine these are intercepted; natively (replay) they are
// implemented by native_rt.cpp, which reads the values found by the solver.
#pragma once
#include <cstdint>
extern "C"
{
    int vp_int(int lo, int hi, const char* name);              // any int in [lo,hi]
    int64_t vp_long(int64_t lo, int64_t hi, const char* name); // any 64-bit integer in [lo,hi]
    int vp_bool(const char* name);                             // 0 or 1
    double vp_real(int bits, const char* name);                // any integer-valued double, |x| <= 2^bits (solved over the reals)
    void vp_assume(bool c);
    void vp_assert(bool c, const char* id);
    void vp_close(double a, double b, double tol, const char* id); // assert |a-b| <= tol
    void vp_cover(const char* id);
    void vp_observe_i(int64_t v);
    void vp_observe_f(double v);
    int64_t vp_concretize(int64_t v); // fork over every feasible value
    bool vp_fork(bool c);             // fork over both truth values
    void vp_select(int mode);         // conditional values: 0 kept, 1 resolved when the path condition decides them, 2 fork
    void vp_expect_throw(int on);
    void vp_end();
    void vp_main();
}
// boolean connectives that do not branch
static inline bool AND(bool a, bool b) { return a & b; }
static inline bool OR(bool a, bool b) { return a | b; }
static inline bool IMP(bool a, bool b) { return (!a) | b; }
static inline bool IFF(bool a, bool b) { return a == b; }
