// to_dyadic_intervals: an ordered exact cover of the rounded interval by
// dyadic intervals of the requested type, none of which can be merged.
#include "sym.h"
#include <roughpy/intervals/dyadic_interval.h>
#include <roughpy/intervals/real_interval.h>
#include <cmath>
using namespace rpy::intervals;

const char* const sym_labels[] = {"clopen", "opencl", "empty", "many", nullptr};
void sym_setup() {}

static void check(const Interval& in, double a, double b, int tol, IntervalType ty)
{
    bool cl = ty == IntervalType::Clopen;
    std::vector<DyadicInterval> v = to_dyadic_intervals(in, tol, ty);
    sym_reach(cl ? "clopen" : "opencl");
    double s = double(1 << tol);
    double ra = cl ? std::floor(a * s) : std::ceil(a * s), rb = cl ? std::floor(b * s) : std::ceil(b * s);
    double at = ra;
    bool types = true, chain = true, fine = true, canon = true;
    if (v.empty()) sym_reach("empty");
    if (v.size() > 3) sym_reach("many");
    for (size_t i = 0; i < v.size(); ++i) {
        types &= v[i].type() == ty;
        fine &= v[i].power() <= tol;
        double lo = v[i].inf() * s, hi = v[i].sup() * s;
        chain &= lo == at && hi > lo;
        at = hi;
        if (i && v[i].power() == v[i - 1].power()) {
            DyadicInterval p(v[i - 1]);
            p.flip_interval();
            canon &= p.multiplier() != v[i].multiplier();
        }
    }
    sym_assert(types, "type");
    sym_assert(fine, "resolution");
    sym_assert(chain, "ordered_contiguous");
    sym_assert(at == rb, "cover");
    sym_assert(canon, "canonical");
}

void sym_main()
{
    IntervalType ty = sym_choice("opencl", 0, 1) ? IntervalType::Opencl : IntervalType::Clopen;
    IntervalType src = sym_choice("src_opencl", 0, 1) ? IntervalType::Opencl : IntervalType::Clopen;
    int top = sym_tier() ? 5 : 3;
    int tol = (int) sym_choice("tol", 0, top);
    double B = tol <= 1 ? 4 : tol <= 3 ? 2 : 1;
    double a = sym_grid("a", -B, B, tol + 2), b = sym_grid("b", -B, B, tol + 2);
    sym_assume(a <= b);
    RealInterval r(a, b, src);
    check(r, a, b, tol, ty);
}
