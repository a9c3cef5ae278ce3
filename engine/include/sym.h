// Harness API.  Linked either with the symbolic runtime (engine/rt/symrt.cpp)
// or with the plain replay driver (engine/rt/replay.cpp).
#pragma once
#include <cstdint>
extern "C" {
// symbolic inputs
int64_t sym_int(const char* name, int64_t lo, int64_t hi);
double sym_grid(const char* name, double lo, double hi, int k);// multiple of 2^-k
double sym_double(const char* name);                           // any bit pattern
float sym_float(const char* name);
bool sym_bool(const char* name);
// forks over the whole range: the returned value is concrete on every path
int64_t sym_choice(const char* name, int64_t lo, int64_t hi);
void sym_assume(bool c);
void sym_assert(bool c, const char* label);
// like sym_assert, but a failure is attributed to a known finding
void sym_assert_kf(bool c, const char* label, bool in_class, const char* kf);
void sym_reach(const char* label);
int64_t sym_concrete(int64_t v);// fork on the value
double sym_concrete_d(double v);
// 0: quick, 1: thorough
int sym_tier();
// no more branching/solving on this path from here on
void sym_stop();
}
// one-off concrete preparation, run before any path
void sym_setup();
// one path
void sym_main();
// the labels every run must reach (nullptr terminated), guards vacuity
extern const char* const sym_labels[];
