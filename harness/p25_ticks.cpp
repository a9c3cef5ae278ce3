// A stream of ticks: the log signature over an interval is that of the ticks
// inside it, in order of time.
#include "strm.h"
#include <roughpy/streams/stream_construction_helper.h>
#include <roughpy/streams/tick_stream.h>
const char* const sym_labels[] = {"dyadic query", "query through Stream", "empty", "other depth", "deeper context", nullptr};
void sym_setup() {}
static double fl(double x, int res)
{
    double g = 1 << res;
    int64_t k = -16;
    while (double(k + 1) <= x * g) ++k;
    return double(k) / g;
}
void sym_main()
{
    symq_policy(0, 0, 0);
    Alg A(2, 2);
    LieRef R(A);
    const int RES = 1;
    const bool T = sym_tier();
    int c0 = (int) sym_choice("first", 0, 1);
    int sp = T ? (int) sym_choice("sparse", 0, 1) : c0;
    auto schema = std::make_shared<StreamSchema>();
    schema->insert_increment("a");
    schema->insert_increment("b");
    StreamConstructionHelper help(A.ctx, schema, vtype(sp));
    int n = (int) sym_choice("count", 1, sym_tier() ? 3 : 2);
    std::vector<double> t;
    std::vector<Vec> e;
    for (int i = 0; i < n; ++i) {
        std::string s = std::to_string(i);
        t.push_back(sym_grid(("t" + s).c_str(), -0.75, 1, 2));
        int ch = i < 2 ? c0 ^ (i & 1) : (int) sym_choice("third", 0, 1);
        if (ch == 1 && sp) ch = 2;
        Q v = sym_rat(("v" + s).c_str());
        if (ch == 2) help.add_increment(t[i], string_view("b"), v);
        else help.add_increment(t[i], (dimn_t) ch, v);
        Vec l = R.zero();
        l[ch == 0 ? 0 : 1] = v;
        e.push_back(A.exp(R.expand(l)));
    }
    auto impl = std::make_shared<TickStream>(std::move(help), smd(A, -1, 2, RES, vtype(sp)), RES);
    auto want = [&](double a, double b) {
        std::vector<int> in;
        for (int i = 0; i < n; ++i)
            if (a <= t[i] && t[i] < b) {
                size_t p = 0;
                while (p < in.size() && t[in[p]] <= t[i]) ++p;// equal times: order of insertion
                in.insert(in.begin() + p, i);
            }
        Vec r = A.one();
        for (int i : in) r = A.mul(r, e[i]);
        return std::make_pair(r, (int) in.size());
    };
    int what = (int) sym_choice("query", 0, 2);
    if (what == 0) {
        int pw = (int) sym_choice("p", -1, RES);
        int k = (int) sym_choice("k", -2, T ? 3 : 1);
        DyadicInterval D(intervals::Dyadic(k, pw), IntervalType::Clopen);
        auto w = want(D.inf(), D.sup());
        const StreamInterface& si = *impl;
        log_is(A, R, si.log_signature(D, RES, *A.ctx), w.first, "dyadic query");
        sym_assert(si.empty(D) == (w.second == 0), "empty");
    }
    if (what == 1) {
        Stream s(std::static_pointer_cast<const StreamInterface>(impl));
        int lo = (int) sym_choice("lo", -4, T ? 4 : 1), hi = (int) sym_choice("hi", T ? -3 : 0, 5), res = T ? (int) sym_choice("res", 0, RES) : RES;
        if (lo >= hi) { sym_assume(false); return; }
        double a = lo * 0.25, b = hi * 0.25;
        log_is(A, R, s.log_signature(RealInterval(a, b), res, *A.ctx), want(fl(a, res), fl(b, res)).first, "query through Stream");
    }
    if (what == 2) {
        Stream s(std::static_pointer_cast<const StreamInterface>(impl));
        Alg B(2, sym_choice("depth", 0, 1) ? 3 : 1);
        LieRef RB(B);
        int lo = (int) sym_choice("lo", -2, 0), hi = (int) sym_choice("hi", 0, 3);
        if (lo >= hi) { sym_assume(false); return; }
        std::vector<int> in;
        for (int i = 0; i < n; ++i)
            if (lo * 0.5 <= t[i] && t[i] < hi * 0.5) in.push_back(i);
        if (in.size() == 2 && t[in[1]] < t[in[0]]) std::swap(in[0], in[1]);
        if (in.size() > 2) return;
        Vec r = B.one();
        for (int i : in) {
            Vec x = B.zero(), l = A.log(A.add(e[i], A.one(), -1));
            for (int j = 0; j < A.n(); ++j)
                if (A.deg(j) == 1) x[B.at.at(A.words[j])] = l[j];
            r = B.mul(r, B.exp(x));
        }
        // the tree of the stream only holds elements of its own context
        bool cls = B.d > 2 && in.size() > 1;
        Vec w = B.log(B.add(r, B.one(), -1));
        Lie x = s.log_signature(RealInterval(lo * 0.5, hi * 0.5), RES, *B.ctx);
        if (!x.context()) { eqv(w, B.zero(), "other depth"); return; }
        Vec g = RB.expand(rdL(B, x));
        for (int j = 0; j < B.n(); ++j) sym_eq_kf(g[j], w[j], B.d > 2 ? "deeper context" : "other depth", cls, "K3");
    }
}
