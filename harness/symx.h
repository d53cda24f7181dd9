// Harness API. In the symbolic executor these calls are intercepted; natively
// (replay) they are implemented by replay.cpp on top of recorded values.
#pragma once
extern "C" {
double sx_real(const char *name, int a, int b, int c);      // any real
double sx_real_pos(const char *name, int a, int b, int c);  // any positive real
int sx_int(const char *name, int a, int lo, int hi);        // symbolic integer in [lo,hi]
int sx_choose(const char *name, int a, int lo, int hi);     // symbolic integer, path forked on its value
int sx_cfg(const char *name, int def);                       // configuration of this run (command line)
int sx_conc(int x);                                         // fork on the value of x
void sx_assume(bool c);
void sx_assume_eq(double a, double b);                      // up to rounding when replayed
void sx_assert(bool c, const char *label, int tag);
void sx_assert_eq(double a, double b, const char *label, int tag);
void sx_assert_le(double a, double b, const char *label, int tag);
void sx_assert_eqi(long a, long b, const char *label, int tag);
void sx_reach(const char *label);
void sx_observe(const char *name, int i, double v);
void sx_info(const char *key, const char *value);
void sx_strict_div(int on);
void sx_numeric(int on);                                     // sin, sqrt... of constants as floating point values
int sx_rank();
int sx_size();
void sx_run_ranks(int n, void (*fn)());
void sx_barrier();
void sx_fail(const char *what);
void sx_print(const char *what, long v);
void sx_printd(const char *what, double v);
int sx_symbolic();
void sx_diff_rule(double y, double x, double dydx);            // symbolic only: declares dy/dx between inputs
double sx_diff(double f, double x);                         // symbolic only: derivative with respect to an input
void sx_main(); // defined by the harness
}
#ifdef __cplusplus
// derivative of f at the input x: exact in the symbolic run, by differences natively
template<class F> double hx_diff(F f, double x)
{
    if (sx_symbolic()) return sx_diff(f(x), x);
    // central differences, extrapolated
    double h = 1e-2, t[5][5];
    if (x < 0 ? -x > 1 : x > 1) h *= x < 0 ? -x : x;
    for (int i = 0; i < 5; ++i, h /= 2)
    {
        t[i][0] = (f(x + h) - f(x - h)) / (2 * h);
        double p = 1;
        for (int j = 1; j <= i; ++j) { p *= 4; t[i][j] = t[i][j - 1] + (t[i][j - 1] - t[i - 1][j - 1]) / (p - 1); }
    }
    return t[4][4];
}
#endif
