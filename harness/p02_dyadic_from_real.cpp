// A dyadic interval built from a real number or a dyadic at a resolution is
// the unique one of that length and type which contains it.
#include "sym.h"
#include <roughpy/intervals/dyadic_interval.h>
using namespace rpy::intervals;

const char* const sym_labels[] = {"real_clopen", "real_opencl", "dy_exact", "dy_round", "ends", nullptr};
void sym_setup() {}

static double p2(int n)
{
    double r = 1;
    for (; n > 0; --n) r *= 2;
    for (; n < 0; ++n) r /= 2;
    return r;
}

void sym_main()
{
    int part = (int) sym_choice("part", 0, 2);
    IntervalType ty = sym_choice("opencl", 0, 1) ? IntervalType::Opencl : IntervalType::Clopen;
    bool cl = ty == IntervalType::Clopen;
    if (part == 0) {
        int res = (int) sym_choice("res", -4, 12);
        double v = sym_grid("v", -1024, 1024, 16);
        DyadicInterval d(v, res, ty);
        sym_reach(cl ? "real_clopen" : "real_opencl");
        sym_assert(d.power() == res && d.type() == ty, "real_shape");
        double len = p2(-res), inc = double(d.multiplier()) * len;
        double lo = cl ? inc : inc - len, hi = cl ? inc + len : inc;
        sym_assert(cl ? (lo <= v && v < hi) : (lo < v && v <= hi), "real_contains");
        sym_assert(d.contains_point(v), "real_contains_point");
        // any other point: contains_point is set membership
        double w = sym_grid("w", -1024, 1024, 4);
        sym_assert(d.contains_point(w) == (cl ? (lo <= w && w < hi) : (lo < w && w <= hi)), "membership");
    } else if (part == 1) {
        int n = (int) sym_choice("n", -3, 9), res = (int) sym_choice("res", -6, 12);
        int64_t B = (1 << 16) - 1;
        int k = (int) sym_int("k", -B, B);
        DyadicInterval d(Dyadic(k, n), res, ty);
        sym_assert(d.power() == res && d.type() == ty, "dy_shape");
        int64_t m = d.multiplier();
        if (res >= n) {
            sym_reach("dy_exact");
            sym_assert(m == (int64_t(k) << (res - n)), "dy_exact_value");
        } else {
            sym_reach("dy_round");
            int64_t s = int64_t(1) << (n - res);
            // included end m*s (in units 2^-n); contains k
            if (cl) sym_assert(m * s <= k && k < (m + 1) * s, "dy_contains_clopen");
            else sym_assert((m - 1) * s < k && k <= m * s, "dy_contains_opencl");
        }
    } else {
        int n = (int) sym_choice("n", -4, 10);
        int64_t B = 1 << 24;
        int k = (int) sym_int("k", -B, B);
        DyadicInterval d(k, n, ty);
        double len = p2(-n), inc = double(k) * len;
        double lo = cl ? inc : inc - len, hi = cl ? inc + len : inc;
        sym_reach("ends");
        sym_assert(d.inf() == lo && d.sup() == hi, "inf_sup");
        sym_assert(d.included_end() == (cl ? lo : hi) && d.excluded_end() == (cl ? hi : lo), "inc_exc");
        sym_assert((double) d.dinf() == lo && (double) d.dsup() == hi, "dinf_dsup");
        sym_assert((double) d.dincluded_end() == (cl ? lo : hi), "dinc");
        sym_assert((double) d.dexcluded_end() == (cl ? hi : lo), "dexc");
        sym_assert(d.dinf().power() == n && d.dsup().power() == n, "dpower");
        DyadicInterval u(Dyadic(k, n), ty);
        sym_assert(u.multiplier() == k && u.power() == n && u.type() == ty, "ctor_dyadic");
        sym_assert(u == d && !(u != d), "equal");
    }
}
