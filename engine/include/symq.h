// Symbolic rationals for harnesses: with the symbolic runtime a rational made
// here stands for every value; in the replay build it is an ordinary number.
#pragma once
#include "sym.h"
#include <boost/multiprecision/gmp.hpp>
extern "C" {
void symq_var(mpq_ptr out, const char* name, int nonzero);
void symq_assert_eq(mpq_srcptr a, mpq_srcptr b, const char* label);
void symq_assert_eq_kf(mpq_srcptr a, mpq_srcptr b, const char* label, bool in_class, const char* kf);
// zero tests on polynomials of at most `terms` terms are explored both ways,
// at most `flips` of them on one path, at most `special` of them vanishing on
// one path; others take the side of generic values
void symq_policy(int terms, int flips, int special);
}
using Q = boost::multiprecision::mpq_rational;
static inline Q sym_rat(const char* name, bool nonzero = true)
{
    Q q;
    symq_var(q.backend().data(), name, nonzero);
    return q;
}
static inline void sym_eq(const Q& a, const Q& b, const char* label)
{
    symq_assert_eq(a.backend().data(), b.backend().data(), label);
}
static inline void sym_eq_kf(const Q& a, const Q& b, const char* label, bool in, const char* kf)
{
    symq_assert_eq_kf(a.backend().data(), b.backend().data(), label, in, kf);
}
