// Dyadic numbers: order, equality, rebase and conversion agree with the exact
// rational k/2^n.
#include "sym.h"
#include <roughpy/intervals/dyadic.h>
using namespace rpy::intervals;

const char* const sym_labels[] = {"cmp", "req_true", "req_false", "rebase_true", "rebase_false", "steps", nullptr};
void sym_setup() {}

static int64_t at(int64_t k, int n, int m) { return k << (m - n); }// value * 2^m, m >= n

static void compare()
{
    int n1 = (int) sym_choice("n1", -3, 5), n2 = (int) sym_choice("n2", -3, 5);
    int64_t B = int64_t(1) << 22;
    int k1 = (int) sym_int("k1", -B, B), k2 = (int) sym_int("k2", -B, B);
    Dyadic a(k1, n1), b(k2, n2);
    int m = n1 > n2 ? n1 : n2;
    int64_t x = at(k1, n1, m), y = at(k2, n2, m);
    sym_reach("cmp");
    sym_assert((a < b) == (x < y), "lt");
    sym_assert((a <= b) == (x <= y), "le");
    sym_assert((a > b) == (x > y), "gt");
    sym_assert((a >= b) == (x >= y), "ge");
    sym_assert(dyadic_equals(a, b) == (k1 == k2 && n1 == n2), "dyadic_equals");
}

static void equality()
{
    int n1 = (int) sym_choice("n1", -3, 5), n2 = (int) sym_choice("n2", -3, 5);
    int64_t B = 2000;
    int k1 = (int) sym_int("k1", -B, B), k2 = (int) sym_int("k2", -B, B);
    Dyadic a(k1, n1), b(k2, n2);
    int m = n1 > n2 ? n1 : n2;
    int64_t x = at(k1, n1, m), y = at(k2, n2, m);
    bool r = rational_equals(a, b);
    sym_reach(r ? "req_true" : "req_false");
    sym_assert(r == (x == y), "rational_equals");
}

static void rebase()
{
    int n = (int) sym_choice("n", -8, 8), res = (int) sym_choice("res", -16, 16);
    int64_t B = int64_t(1) << (res > n ? 30 - (res - n) : 30);
    int k = (int) sym_int("k", -(B - 1), B - 1);
    Dyadic a(k, n);
    bool r = a.rebase(res);
    sym_reach(r ? "rebase_true" : "rebase_false");
    int q = a.power();
    // the value is kept, whatever the answer
    int lo = q < n ? q : n, hi = q < n ? n : q;
    (void) lo;
    if (k == 0) {
        sym_assert(a.multiplier() == 0, "rebase_zero");
        sym_assert(r && q == res, "rebase_zero_power");
        return;
    }
    sym_assert(hi - n <= 32 && hi - q <= 32, "rebase_power_range");
    sym_assert(at(k, n, hi) == at(a.multiplier(), q, hi), "rebase_value");
    bool representable = res >= n || (k & ((int64_t(1) << (n - res)) - 1)) == 0;
    sym_assert(r == representable, "rebase_answer");
    sym_assert(!r || q == res, "rebase_power");
    // when the resolution is too coarse, the coarsest that works is chosen
    if (!r) { sym_assert(q > res && q <= n && (a.multiplier() & 1), "rebase_coarsest"); }
}

static void steps()
{
    int n = (int) sym_choice("n", -4, 8);
    int64_t B = int64_t(1) << 28;
    int k = (int) sym_int("k", -B, B), d = (int) sym_int("d", -B, B);
    Dyadic a(k, n), b(k, n), c(k, n), e(k, n), f(k, n);
    ++a;
    --b;
    c.move_forward(d);
    Dyadic e0 = e++, f0 = f--;
    sym_reach("steps");
    sym_assert(a.multiplier() == k + 1 && a.power() == n, "inc");
    sym_assert(b.multiplier() == k - 1 && b.power() == n, "dec");
    sym_assert(c.multiplier() == k + d && c.power() == n, "move_forward");
    sym_assert(e0.multiplier() == k && e.multiplier() == k + 1 && e.power() == n, "post_inc");
    sym_assert(f0.multiplier() == k && f.multiplier() == k - 1 && f.power() == n, "post_dec");
    // conversion is exact: value * 2^n == k
    double v = (double) Dyadic(k, n);
    double s = n >= 0 ? v * double(1 << n) : v / double(1 << -n);
    sym_assert(s == double(k), "to_double");
}

void sym_main()
{
    switch (sym_choice("part", 0, 3)) {
        case 0: compare(); break;
        case 1: equality(); break;
        case 2: rebase(); break;
        default: steps(); break;
    }
}
