// Intervals behave as the half-open sets they denote: membership, containment,
// intersection test, intersection, union, equality.
#include "sym.h"
#include <roughpy/intervals/interval.h>
#include <roughpy/intervals/real_interval.h>
using namespace rpy::intervals;

const char* const sym_labels[] = {"member", "meet", "nomeet", "inter", "disjoint", "union", "contains", "equal", "assoc", nullptr};
void sym_setup() {}

static bool in(bool cl, double lo, double hi, double p) { return cl ? lo <= p && p < hi : lo < p && p <= hi; }

void sym_main()
{
    int part = (int) sym_choice("part", 0, 4);
    bool c1 = !sym_choice("opencl1", 0, 1), c2 = !sym_choice("opencl2", 0, 1);
    auto t1 = c1 ? IntervalType::Clopen : IntervalType::Opencl, t2 = c2 ? IntervalType::Clopen : IntervalType::Opencl;
    double a = sym_grid("a", -64, 64, 8), b = sym_grid("b", -64, 64, 8);
    double lo1 = a < b ? a : b, hi1 = a < b ? b : a;
    RealInterval I(a, b, t1);// either order of the ends
    sym_assert(I.inf() == lo1 && I.sup() == hi1 && I.type() == t1, "ctor");
    double p = sym_grid("p", -64, 64, 9);
    if (part == 0) {
        sym_reach("member");
        sym_assert(I.contains_point(p) == in(c1, lo1, hi1, p), "contains_point");
        sym_assert(I.included_end() == (c1 ? lo1 : hi1), "included_end");
        sym_assert(I.excluded_end() == (c1 ? hi1 : lo1), "excluded_end");
        RealInterval J(I), K(I, t2);
        sym_assert(J == I && K.type() == t2 && K.inf() == lo1 && K.sup() == hi1, "copy");
        return;
    }
    double lo2 = sym_grid("c", -64, 64, 8), hi2 = sym_grid("d", -64, 64, 8);
    sym_assume(lo1 < hi1 && lo2 < hi2);// not degenerate
    RealInterval J(lo2, hi2, t2);
    double mlo = lo1 > lo2 ? lo1 : lo2, mhi = hi1 < hi2 ? hi1 : hi2;
    if (part == 1) {
        bool m = I.intersects_with(J);
        sym_reach(m ? "meet" : "nomeet");
        if (!m) {
            sym_assert(!(in(c1, lo1, hi1, p) && in(c2, lo2, hi2, p)), "no_common_point");
        } else {
            // one of these witnesses is common
            double mid = (mlo + mhi) / 2;
            bool w = (in(c1, lo1, hi1, mlo) && in(c2, lo2, hi2, mlo)) || (in(c1, lo1, hi1, mhi) && in(c2, lo2, hi2, mhi))
                    || (in(c1, lo1, hi1, mid) && in(c2, lo2, hi2, mid));
            sym_assert(w, "common_point");
        }
        sym_assert(m == J.intersects_with(I), "meet_symmetric");
    } else if (part == 2) {
        sym_assume(c1 == c2);
        RealInterval K = intersection(I, J);
        bool meet = mlo < mhi;
        sym_reach(meet ? "inter" : "disjoint");
        if (meet) {
            sym_assert(K.inf() == mlo && K.sup() == mhi, "intersection_ends");
            sym_assert(K.contains_point(p) == (in(c1, lo1, hi1, p) && in(c2, lo2, hi2, p)), "intersection_set");
        } else {
            // recorded finding: [0, 1) is returned, whatever the arguments
            sym_assert_kf(K.inf() == K.sup(), "disjoint_is_degenerate",
                          K.inf() == 0 && K.sup() == 1 && K.type() == IntervalType::Clopen, "K1");
        }
        RealInterval U = interval_union(I, J);
        sym_reach("union");
        sym_assert(U.inf() == (lo1 < lo2 ? lo1 : lo2) && U.sup() == (hi1 > hi2 ? hi1 : hi2), "union_ends");
        if (in(c1, lo1, hi1, p) || in(c2, lo2, hi2, p)) sym_assert(U.contains_point(p), "union_contains");
    } else if (part == 3) {
        sym_assume(c1 == c2);
        bool c = I.contains(J);
        sym_reach("contains");
        sym_assert(c == (lo1 <= lo2 && hi2 <= hi1), "contains");
        if (c) sym_assert(!in(c2, lo2, hi2, p) || in(c1, lo1, hi1, p), "contains_set");
    } else {
        bool e = I == J;
        sym_reach("equal");
        sym_assert(e == (c1 == c2 && lo1 == lo2 && hi1 == hi2), "equality");
        sym_assert((I != J) == !e, "inequality");
        sym_reach("assoc");
        sym_assert(I.is_associated(J) == in(c1, lo1, hi1, c2 ? lo2 : hi2), "is_associated");
    }
}
