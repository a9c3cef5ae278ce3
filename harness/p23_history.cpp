// A stream answers each query as if it were the first one.
#include "strm.h"
const char* const sym_labels[] = {"first query", "later query", "signature", nullptr};
void sym_setup() {}
static double rnd(double x, int res)
{
    int64_t s = (int64_t) 1 << res;
    // x is a multiple of 1/8 in a small range: floor(x * s) by comparison
    int64_t k = -16;
    while (double(k + 1) <= x * double(s)) ++k;
    return double(k) / double(s);
}
void sym_main()
{
    symq_policy(0, 0, 0);
    static const int DEP[] = {2, 1, 3};
    Alg A(2, 2);
    const int RES = 1;
    int sp = (int) sym_choice("sparse", 0, 1);
    int n = 2;
    std::vector<double> t;
    std::vector<Vec> l;
    std::vector<pair<param_t, Lie>> data;
    LieRef R(A);
    for (int i = 0; i < n; ++i) {
        std::string s = std::to_string(i);
        t.push_back(sym_grid(("t" + s).c_str(), 0, 1, 2));
        if (i) sym_assume(t[i - 1] < t[i]);
        l.push_back(R.sym("l" + s, R.shape(0)));
        data.emplace_back(t[i], mkL(A, l[i], sp));
    }
    Stream s(LieIncrementStream(std::move(data), smd(A, 0, 2, RES, vtype(sp)), std::make_shared<StreamSchema>(2)));
    for (int q = 0; q < 2; ++q) {
        Alg B(2, DEP[sym_choice(q ? "d1" : "d0", 0, 2)]);
        LieRef RB(B);
        int res = (int) sym_choice(q ? "r1" : "r0", RES - 1, RES);
        bool all = q || sym_tier();// the first query of the quick check: [0,1/2) or [0,2)
        int lo = all ? (int) sym_choice(q ? "lo1" : "lo0", 0, 2) : 0, hi = all ? (int) sym_choice(q ? "hi1" : "hi0", 1, 4) : sym_bool("wide") ? 4 : 1;
        if (lo >= hi) { sym_assume(false); return; }
        double a = lo * 0.5, b = hi * 0.5;
        double ra = rnd(a, res), rb = rnd(b, res);
        Vec w = B.one();
        for (int i = 0; i < n; ++i)
            if (ra <= t[i] && t[i] < rb) {
                // the Lie element of depth 2 seen in B
                Vec v = R.expand(l[i]), c = B.zero();
                for (int j = 0; j < A.n(); ++j)
                    if (A.deg(j) <= B.d) c[B.at.at(A.words[j])] = v[j];
                w = B.mul(w, B.exp(c));
            }
        Lie x = s.log_signature(RealInterval(a, b), res, *B.ctx);
        log_is(B, RB, x, w, q ? "later query" : "first query");
        // what the caller does with the answer is the caller's business
        if (x.context()) x.smul_inplace(rpy::scalars::Scalar(Q(3)));
        FreeTensor sg = s.signature(RealInterval(a, b), res, *B.ctx);
        eqv(rd(B, sg), w, "signature");
    }
}
