// Interface between harnesses and the symbolic executor / the native replay runtime.
#pragma once
#include <cstddef>
extern "C"
{
    double sym_real(const char* name, int i, double lo, double hi); // arbitrary real in [lo, hi]
    int sym_int(const char* name, int i, int lo, int hi);           // arbitrary integer in [lo, hi]
    double sym_double(const char* name, int i);                     // arbitrary double (float mode): any bit pattern
    int sym_split(int v);                                           // the value, after a case split over the feasible ones
    void sym_assume(bool c);
    void sym_prefer(bool c);                                        // wanted (not required) of the witnesses that are replayed: well-conditioned values
    void sym_check(bool c, const char* msg);
    void sym_eq(double a, double b, const char* msg);               // equal (replay: up to rounding)
    void sym_bits(double a, double b, const char* msg);             // the same bits (a NaN: any NaN)
    void sym_same(double a, double b, const char* msg);             // equal, exactly also in the replay
    void sym_near(double a, double b, double tol, const char* msg);
    void sym_le(double a, double b, const char* msg);
    void sym_out(const char* name, int i, double v);
    void sym_reach(const char* msg);
    void sym_scale(double s);                                       // replay: magnitude of the terms the compared values are made of
    void sym_stop();
    int sym_symbolic();                                             // 0 native, 1 real mode, 2 float mode
}
#define ENTRY extern "C" __attribute__((used, noinline)) void
