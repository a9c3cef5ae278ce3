// A partition is a list of adjacent pieces tiling its base interval; insertion,
// refinement and merging keep that and have exactly the expected cut points.
#include "sym.h"
#include <algorithm>
#include <roughpy/intervals/partition.h>
using namespace rpy;
using namespace rpy::intervals;

const char* const sym_labels[] = {"ctor", "insert", "rejected", "refine", "merge_overlap", "merge_disjoint", "merge_touch", nullptr};
void sym_setup() {}

static void tiles(const Partition& P, double lo, double hi, IntervalType t)
{
    double at = lo;
    bool ok = true, ty = true;
    double m = hi - lo;
    for (dimn_t i = 0; i < P.size(); ++i) {
        RealInterval r = P[i];
        ok &= r.inf() == at && r.sup() > r.inf();
        ty &= r.type() == t;
        double l = r.sup() - r.inf();
        if (l < m) m = l;
        at = r.sup();
    }
    sym_assert(ok && at == hi, "pieces_tile");
    sym_assert(ty, "piece_type");
    if (ok) sym_assert(P.mesh() == m, "mesh");
    sym_assert(P.inf() == lo && P.sup() == hi && P.type() == t, "base");
}
static bool has(const Partition& P, double x)
{
    bool r = false;
    for (auto y : P.intermediates()) r |= y == x;
    return r;
}

void sym_main()
{
    int part = (int) sym_choice("part", 0, 3);
    auto t = sym_choice("opencl", 0, 1) ? IntervalType::Opencl : IntervalType::Clopen;
    double lo = sym_grid("lo", -4, 4, 2), hi = sym_grid("hi", -4, 4, 2);
    sym_assume(lo < hi);
    if (part == 0) {
        // any points; those outside, and the ends, are dropped
        int n = (int) sym_choice("n", 0, 3);
        double x[3];
        for (int i = 0; i < n; ++i) {
            x[i] = sym_grid("x", -6, 6, 2);
            for (int j = 0; j < i; ++j) sym_assume(x[i] != x[j]);
        }
        Partition P(RealInterval(lo, hi, t), Slice<param_t>(x, n));
        sym_reach("ctor");
        int cnt = 0;
        for (int i = 0; i < n; ++i) {
            bool inside = lo < x[i] && x[i] < hi;
            cnt += inside;
            sym_assert(has(P, x[i]) == inside, "ctor_points");
        }
        sym_assert((int) P.size() == cnt + 1, "ctor_size");
        tiles(P, lo, hi, t);
        return;
    }
    int n = (int) sym_choice("n", 0, 2);
    std::vector<double> x;
    double prev = lo;
    for (int i = 0; i < n; ++i) {
        x.push_back(sym_grid("x", -4, 4, 2));
        sym_assume(prev < x[i] && x[i] < hi);
        prev = x[i];
    }
    Partition P(RealInterval(lo, hi, t), std::vector<double>(x));
    if (part == 1) {
        double y = sym_grid("y", -6, 6, 3);
        sym_assume(y != lo && y != hi);
        for (double q : x) sym_assume(y != q);
        bool inside = lo < y && y < hi, threw = false;
        try {
            P.insert_intermediate(y);
        } catch (std::invalid_argument&) {
            threw = true;
        }
        sym_reach(threw ? "rejected" : "insert");
        sym_assert(threw == !inside, "insert_rejects_outside");
        sym_assert((int) P.size() == n + 1 + inside, "insert_size");
        sym_assert(has(P, y) == inside, "insert_point");
        for (double q : x) sym_assert(has(P, q), "insert_keeps");
        tiles(P, lo, hi, t);
    } else if (part == 2) {
        Partition R = P.refine_midpoints();
        sym_reach("refine");
        sym_assert(R.size() == 2 * P.size(), "refine_size");
        bool ok = true;
        for (dimn_t i = 0; i < P.size(); ++i) {
            ok &= R[2 * i].inf() == P[i].inf() && R[2 * i + 1].sup() == P[i].sup();
            ok &= R[2 * i].sup() == R[2 * i + 1].inf() && R[2 * i].sup() - P[i].inf() == P[i].sup() - R[2 * i].sup();
        }
        sym_assert(ok, "refine_midpoints");
        tiles(R, lo, hi, t);
    } else {
        double lo2 = sym_grid("lo2", -4, 4, 2), hi2 = sym_grid("hi2", -4, 4, 2);
        sym_assume(lo2 < hi2);
        int n2 = (int) sym_choice("n2", 0, sym_tier() ? 2 : n == 2 ? 1 : 2);
        std::vector<double> z;
        double pv = lo2;
        for (int i = 0; i < n2; ++i) {
            z.push_back(sym_grid("z", -4, 4, 2));
            sym_assume(pv < z[i] && z[i] < hi2);
            pv = z[i];
        }
        Partition Q(RealInterval(lo2, hi2, t), std::vector<double>(z));
        Partition M = P.merge(Q);
        sym_reach(hi < lo2 || hi2 < lo ? "merge_disjoint" : hi == lo2 || hi2 == lo ? "merge_touch" : "merge_overlap");
        double mlo = lo < lo2 ? lo : lo2, mhi = hi > hi2 ? hi : hi2;
        // the cut points: all end points and intermediates of both
        std::vector<double> want(x);
        want.insert(want.end(), z.begin(), z.end());
        for (double e : {lo, hi, lo2, hi2}) want.push_back(e);
        std::sort(want.begin(), want.end());
        want.erase(std::unique(want.begin(), want.end()), want.end());
        sym_assert(M.size() + 1 == want.size(), "merge_size");
        if (M.size() + 1 != want.size()) return;
        bool ok = true;
        for (size_t i = 0; i + 1 < want.size(); ++i) ok &= M[i].inf() == want[i] && M[i].sup() == want[i + 1];
        sym_assert(ok, "merge_points");
        tiles(M, mlo, mhi, t);
    }
}
