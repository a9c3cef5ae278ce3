// Segmentation by a predicate "contains none of the bad points": the segments
// found are ordered, disjoint, inside, good, and cover every good dyadic piece
// up to the depth.
#include "sym.h"
#include <roughpy/intervals/dyadic_interval.h>
#include <roughpy/intervals/segmentation.h>
using namespace rpy::intervals;

const char* const sym_labels[] = {"whole", "split", "nothing", "window", nullptr};
void sym_setup() {}

void sym_main()
{
    int kind = (int) sym_choice("kind", 0, 1);
    int depth = (int) sym_choice("depth", 1, sym_tier() ? 5 : 3);
    // the original interval [a, a + 2^s)
    int s = (int) sym_choice("scale", -1, 1);
    double len = s < 0 ? 0.5 : s == 0 ? 1 : 2;
    double a = sym_choice("a", -1, 1) * 0.75;
    RealInterval I(a, a + len);
    double x = a + len * sym_grid("x", -0.25, 1.25, depth + 1), y = a + len * sym_grid("y", -0.25, 1.25, depth + 1);
    auto pred = [=](double lo, double hi) {
        if (kind == 0) return !(lo <= x && x < hi) && !(lo <= y && y < hi);// avoids x and y
        return x <= lo && hi <= y;                                        // inside the window
    };
    auto f = [&](const Interval& i) { return pred(i.inf(), i.sup()); };
    std::vector<RealInterval> v = segment(I, f, depth);
    if (pred(a, a + len)) {
        sym_reach("whole");
        sym_assert(v.size() == 1 && v[0] == I, "whole_interval");
        return;
    }
    if (v.empty()) sym_reach("nothing");
    sym_reach(kind ? "window" : "split");
    bool good = true, inside = true, order = true;
    for (size_t i = 0; i < v.size(); ++i) {
        good &= pred(v[i].inf(), v[i].sup());
        inside &= a <= v[i].inf() && v[i].inf() < v[i].sup() && v[i].sup() <= a + len;
        if (i) order &= v[i - 1].sup() <= v[i].inf();
    }
    sym_assert(good, "good");
    sym_assert(inside, "inside");
    sym_assert(order, "ordered_disjoint");
    int n = 1 << depth;
    for (int d = 0; d < n; ++d) {
        double lo = a + len * d / n, hi = a + len * (d + 1) / n;
        bool cov = false;
        for (auto& r : v) cov |= r.inf() <= lo && hi <= r.sup();
        sym_assert(cov || !pred(lo, hi), "covers_good_pieces");
    }
}
