// Log signature of a stream of Lie increments over dyadic intervals: the
// product of the exponentials of the increments inside, in order.
#include "strm.h"
const char* const sym_labels[] = {"leaf", "coarse", "several queries", "empty", nullptr};
void sym_setup() {}
void sym_main()
{
    symq_policy(0, 0, 0);
    Alg A(2, 2);
    LieRef R(A);
    const int RES = 1;
    int n = (int) sym_choice("count", 1, sym_tier() ? 3 : 2);
    int sp = (int) sym_choice("sparse", 0, 1);
    int op = (int) sym_choice("opencl", 0, 1);
    IntervalType it = op ? IntervalType::Opencl : IntervalType::Clopen;
    std::vector<double> t;
    std::vector<Vec> e;
    std::vector<pair<param_t, Lie>> data;
    for (int i = 0; i < n; ++i) {
        std::string s = std::to_string(i);
        t.push_back(sym_grid(("t" + s).c_str(), -1, 2, 3));
        for (int j = 0; j < i; ++j) sym_assume(t[j] != t[i]);
        Vec l = R.sym("l" + s, R.shape(0));
        data.emplace_back(t[i], mkL(A, l, sp));
        e.push_back(A.exp(R.expand(l)));
    }
    LieIncrementStream s(std::move(data), smd(A, -1, 2, RES, vtype(sp), it), std::make_shared<StreamSchema>(2));
    auto want = [&](double a, double b) {
        // in order of time
        std::vector<int> in;
        for (int i = 0; i < n; ++i)
            if (op ? (a < t[i] && t[i] <= b) : (a <= t[i] && t[i] < b)) {
                size_t p = 0;
                while (p < in.size() && t[in[p]] < t[i]) ++p;
                in.insert(in.begin() + p, i);
            }
        Vec r = A.one();
        for (int i : in) r = A.mul(r, e[i]);
        return std::make_pair(r, (int) in.size());
    };
    int qs = (int) sym_choice("queries", 1, 2);
    for (int q = 0; q < qs; ++q) {
        int pw = (int) sym_choice(q ? "p1" : "p0", 0, RES);
        int k = (int) sym_choice(q ? "k1" : "k0", pw ? -2 : -1, pw ? 3 : 1);
        DyadicInterval D(intervals::Dyadic(k, pw), it);
        double a = D.inf(), b = D.sup();
        auto w = want(a, b);
        Lie x = s.log_signature(D, RES, *A.ctx);
        log_is(A, R, x, w.first, q ? "several queries" : pw == RES ? "leaf" : "coarse");
        if (pw == RES) sym_assert(s.empty(D) == (w.second == 0), "empty");
    }
}
