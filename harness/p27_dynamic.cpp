// A stream whose increments are made up on demand: whatever was asked before,
// the answers fit together.
#include "strm.h"
#include <cmath>
#include <roughpy/streams/brownian_stream.h>
#include <roughpy/streams/dynamically_constructed_stream.h>
const char* const sym_labels[] = {"repeatable", "Chen's relation", "first level", "interval", "signature", "variance", "increment", "one number for each dimension", nullptr};
void sym_setup() {}
// where the increments come from
struct Source {
    const Alg& A;
    const LieRef& R;
    int sp;
    mutable int made = 0;
    Vec next() const
    {
        std::string n = "g" + std::to_string(made++);
        Vec v = R.zero();
        for (int j = 0; j < R.m; ++j)
            if (R.dg[j] == 1) v[j] = sym_rat((n + "." + std::to_string(j)).c_str());
        return v;
    }
};
struct Dyn : DynamicallyConstructedStream {
    Source src;
    Dyn(const Alg& a, const LieRef& r, int s, int res)
        : DynamicallyConstructedStream(smd(a, -4, 4, res, vtype(s)), std::make_shared<StreamSchema>(2)), src{a, r, s}
    {}
    Lie fresh() const { return mkL(src.A, src.next(), src.sp); }
    Lie log_signature_impl(const intervals::Interval&, const Context&) const override { return fresh(); }
    pair<Lie, Lie> compute_child_lie_increments(DyadicInterval, DyadicInterval, const Lie& parent) const override
    {
        Lie mean = parent.smul(scalars::Scalar(Q(1) / 2)), g = fresh();
        return {mean.add(g), mean.sub(g)};
    }
};
// The numbers a Brownian stream draws, and the law it draws them from.
struct Rng : scalars::RandomGenerator {
    Source src;
    mutable Vec last;
    mutable double mean = 0, sd = 0;
    mutable int calls = 0;
    Rng(const Alg& a, const LieRef& r, int s) : RandomGenerator(a.ct), src{a, r, s} {}
    void set_seed(Slice<scalars::seed_int_t>) override {}
    void set_state(string_view) override {}
    std::vector<scalars::seed_int_t> get_seed() const override { return {}; }
    std::string get_type() const override { return {}; }
    std::string get_state() const override { return {}; }
    scalars::ScalarArray uniform_random_scalar(const scalars::ScalarArray&, const scalars::ScalarArray&, dimn_t) const override { return {}; }
    scalars::ScalarArray normal_random(scalars::Scalar loc, scalars::Scalar scale, dimn_t count) const override
    {
        sym_assert(count == 2, "one number for each dimension");
        ++calls;
        mean = scalars::scalar_cast<double>(loc), sd = scalars::scalar_cast<double>(scale);
        last = src.next();
        scalars::ScalarArray r(p_type, count);
        for (dimn_t i = 0; i < count; ++i) r[i] = scalars::Scalar(p_type, last[i]);
        return r;
    }
};
struct Bm : BrownianStream {
    const Alg& A;
    const LieRef& R;
    const Rng& g;
    Bm(const Alg& a, const LieRef& r, int s, int res, std::unique_ptr<Rng> p)
        : BrownianStream(std::move(p), smd(a, -4, 4, res, vtype(s))), A(a), R(r), g(static_cast<const Rng&>(generator()))
    {}
    void law(double variance, int before) const
    {
        sym_assert(g.calls == before + 1 && g.mean == 0 && g.sd >= 0 && std::fabs(g.sd * g.sd - variance) < 1e-12 * variance, "variance");
    }
    Lie make_new_root_increment(DyadicInterval di) const override
    {
        int c = g.calls;
        Lie r = BrownianStream::make_new_root_increment(di);
        law(di.sup() - di.inf(), c);
        eqv(rdL(A, r), g.last, "increment");
        return r;
    }
    Lie make_neighbour_root_increment(DyadicInterval di) const override
    {
        int c = g.calls;
        Lie r = BrownianStream::make_neighbour_root_increment(di);
        law(di.sup() - di.inf(), c);
        eqv(rdL(A, r), g.last, "increment");
        return r;
    }
    pair<Lie, Lie> compute_child_lie_increments(DyadicInterval l, DyadicInterval r, const Lie& parent) const override
    {
        int c = g.calls;
        auto p = BrownianStream::compute_child_lie_increments(l, r, parent);
        // given their sum, either half is the mean plus or minus a normal
        // variable with half the variance of one half
        law((l.sup() - l.inf()) / 2, c);
        Vec x = rdL(A, p.first), y = rdL(A, p.second), w = rdL(A, parent);
        for (size_t j = 0; j < x.size(); ++j) {
            sym_eq(x[j] + y[j], w[j], "increment");
            sym_eq(x[j] - y[j], g.last[j] * Q(2), "increment");
        }
        return p;
    }
};
void sym_main()
{
    symq_policy(0, 0, 0);
    const int T = sym_tier();
    Alg A(2, 2);
    LieRef R(A);
    const int RES = 2;
    int sp = (int) sym_choice("sparse", 0, 1);
    std::unique_ptr<DynamicallyConstructedStream> s;
    const int bm = (int) sym_choice("Brownian", 0, 1);
    if (bm) s = std::make_unique<Bm>(A, R, sp, RES, std::make_unique<Rng>(A, R, sp));
    else s = std::make_unique<Dyn>(A, R, sp, RES);
    const DynamicallyConstructedStream& S = *s;
    auto pick = [&](const char* n, int maxp) {
        std::string m = n;
        int p = (int) sym_choice((m + "p").c_str(), -1, maxp);
        int lo = p < 0 ? -1 : p == 0 ? -1 : 0, hi = p < 0 ? 0 : p == 0 ? 1 : p == 1 ? 1 : 3;
        return DyadicInterval(intervals::Dyadic((int) sym_choice((m + "k").c_str(), lo, hi), p));
    };
    auto E = [&](const DyadicInterval& D, int res) { return A.exp(R.expand(rdL(A, S.log_signature(D, res, *A.ctx)))); };
    int nq = (int) sym_choice("history", 0, 2 + T - bm);
    struct Seen {
        DyadicInterval D;
        int res;
        Vec x;
    };
    std::vector<Seen> seen;
    for (int q = 0; q < nq; ++q) {
        std::string n = "q" + std::to_string(q);
        DyadicInterval D = pick(n.c_str(), 2);
        int res = (int) sym_choice((n + "res").c_str(), D.power() > 1 ? RES : 1, RES);
        seen.push_back({D, res, E(D, res)});
    }
    DyadicInterval P = pick("P", 1), L = P, Rt = P;
    L.shrink_interval_left(), Rt.shrink_interval_right();
    int order = (int) sym_choice("order", 0, nq < 2 + T ? 2 : 0);
    Vec x, l, r;
    if (order == 0) x = E(P, RES), l = E(L, RES), r = E(Rt, RES);
    if (order == 1) l = E(L, RES), r = E(Rt, RES), x = E(P, RES);
    if (order == 2) r = E(Rt, RES), x = E(P, RES), l = E(L, RES);
    eqv(x, A.mul(l, r), "Chen's relation");
    for (auto& d : seen) {
        Vec y = E(d.D, RES);
        // a coarser answer may be refined, but the path does not move
        if (d.res == RES) eqv(y, d.x, "repeatable");
        else
            for (int j = 1; j <= A.w; ++j) sym_eq(y[j], d.x[j], "first level");
    }
    eqv(E(P, RES), x, "repeatable");
    // over an interval, in any context
    RealInterval J(P.inf(), P.sup());
    int dep = nq < 2 ? (int) sym_choice("ctx", 1, 3) : A.d;
    Alg B(2, dep);
    LieRef BR(B);
    Vec v = rd(B, static_cast<const StreamInterface&>(S).signature(J, *B.ctx));
    if (dep <= A.d)
        for (size_t j = 0; j < v.size(); ++j) sym_eq(v[j], x[j], "interval");
    eqv(v, B.exp(BR.expand(rdL(B, static_cast<const StreamInterface&>(S).log_signature(J, *B.ctx)))), "signature");
}
