// Log signature of a piecewise abelian path: each piece contributes the
// fraction of it that lies in the query.
#include "strm.h"
#include <roughpy/streams/piecewise_abelian_stream.h>
#include <algorithm>
const char* const sym_labels[] = {"signature over an interval", "Chen's relation", "through Stream", nullptr};
void sym_setup() {}
void sym_main()
{
    symq_policy(0, 0, 0);
    Alg A(2, 2);
    LieRef R(A);
    int n = (int) sym_choice("count", 1, 2);
    int sp = (int) sym_choice("sparse", 0, 1);
    std::vector<double> lo, hi;
    std::vector<Vec> l;
    std::vector<PiecewiseAbelianStream::LiePiece> data;
    double at = 0;
    for (int i = 0; i < n; ++i) {
        std::string s = std::to_string(i);
        if (i) at += 0.5 * (double) sym_choice("gap", 0, 1);
        double len = 0.5 * (double) (1 << sym_choice(("len" + s).c_str(), 0, 2));
        lo.push_back(at);
        hi.push_back(at + len);
        at += len;
        l.push_back(R.sym("l" + s, R.shape(0)));
        data.emplace_back(RealInterval(lo[i], hi[i]), mkL(A, l[i], sp));
    }
    bool own = sym_choice("schema", 0, 1);
    auto impl = own ? std::make_shared<PiecewiseAbelianStream>(std::move(data), smd(A, 0, at, 1, vtype(sp)))
                    : std::make_shared<PiecewiseAbelianStream>(std::move(data), smd(A, 0, at, 1, vtype(sp)), std::make_shared<StreamSchema>(2));
    auto want = [&](double a, double b) {
        Vec r = A.one();
        for (int i = 0; i < n; ++i) {
            double x = std::max(a, lo[i]), y = std::min(b, hi[i]);
            if (x < y) r = A.mul(r, A.exp(A.scale(R.expand(l[i]), Q(y - x) / Q(hi[i] - lo[i]))));
        }
        return r;
    };
    double a = sym_grid("a", -0.5, 3, 2), b = sym_grid("b", 0, 4.5, 2);
    sym_assume(a < b);
    Vec w = want(a, b);
    Lie x = impl->StreamInterface::log_signature(RealInterval(a, b), *A.ctx);
    log_is(A, R, x, w, "signature over an interval");
    eqv(rd(A, impl->StreamInterface::signature(RealInterval(a, b), *A.ctx)), w, "signature over an interval");
    if (a == -0.25 || b == 3.25) {
        // every query is cut at the end points of the support
        Stream s(std::static_pointer_cast<const StreamInterface>(impl));
        int res = (int) sym_choice("res", 1, 2);
        double g = 1 << res;
        auto fl = [&](double v) {
            v = std::min(std::max(v, 0.0), at);
            int64_t k = 0;
            while (double(k + 1) <= v * g) ++k;
            return double(k) / g;
        };
        if (!(b < 0 || a > at)) log_is(A, R, s.log_signature(RealInterval(a, b), res, *A.ctx), want(fl(a), fl(b)), "through Stream");
        double m = 0.5;
        if (a < m && m < b)
            eqv(A.mul(rd(A, s.signature(RealInterval(a, m), res, *A.ctx)), rd(A, s.signature(RealInterval(m, b), res, *A.ctx))),
                rd(A, s.signature(RealInterval(a, b), res, *A.ctx)), "Chen's relation");
    }
}
