// A tensor valued stream: its value at a time is the initial value times the
// signature up to that time, in every part of it one asks for.  Restricted
// and simplified streams agree with the stream they come from.
#include "strm.h"
#include <roughpy/intervals/partition.h>
#include <roughpy/streams/piecewise_abelian_stream.h>
#include <roughpy/streams/value_stream.h>
#include <algorithm>
const char* const sym_labels[] = {"value", "initial value", "terminal value", "outside", "query", "query domain", "signature", "empty", "restricted", "restricted twice", "not restricted", "simplified", nullptr};
void sym_setup() {}
template <class F>
static bool throws(F f)
{
    try {
        f();
    } catch (std::exception&) {
        return true;
    }
    return false;
}
struct Src {
    const Alg& A;
    LieRef R;
    bool pieces;
    int n;
    std::vector<double> lo, hi;// of the pieces, or the times of the increments
    std::vector<Vec> l;
    std::shared_ptr<const StreamInterface> impl;
    Src(const Alg& a, int res, int maxn, double end) : A(a), R(a)
    {
        pieces = sym_choice("pieces", 0, 1);
        bool op = !pieces && sym_choice("opencl", 0, 1);
        int sp = (int) sym_choice("sparse", 0, 1);
        n = (int) sym_choice("count", 1, maxn);
        IntervalType it = op ? IntervalType::Opencl : IntervalType::Clopen;
        if (pieces) {
            std::vector<PiecewiseAbelianStream::LiePiece> data;
            double at = 0;
            for (int i = 0; i < n; ++i) {
                std::string s = std::to_string(i);
                double len = 0.5 * (double) (1 << sym_choice(("len" + s).c_str(), 0, 1));
                lo.push_back(at), hi.push_back(at + len), at += len;
                l.push_back(R.sym("l" + s, R.shape(0)));
                data.emplace_back(RealInterval(lo[i], hi[i]), mkL(A, l[i], sp));
            }
            impl = std::make_shared<PiecewiseAbelianStream>(std::move(data), smd(A, 0, end, res, vtype(sp)), std::make_shared<StreamSchema>(2));
        } else {
            std::vector<pair<param_t, Lie>> data;
            for (int i = 0; i < n; ++i) {
                std::string s = std::to_string(i);
                lo.push_back(sym_grid(("t" + s).c_str(), 0, end, 2));
                for (int j = 0; j < i; ++j) sym_assume(lo[j] < lo[i]);
                l.push_back(R.sym("l" + s, R.shape(0)));
                data.emplace_back(lo[i], mkL(A, l[i], sp));
            }
            impl = std::make_shared<LieIncrementStream>(std::move(data), smd(A, 0, end, res, vtype(sp), it), std::make_shared<StreamSchema>(2));
        }
    }
    // signature over the interval from a to b of the given type
    Vec sig(const Alg& B, double a, double b, bool op = false) const
    {
        Vec r = B.one();
        for (int i = 0; i < n; ++i) {
            Q f = 0;
            if (pieces) {
                double x = std::max(a, lo[i]), y = std::min(b, hi[i]);
                if (x < y) f = Q(y - x) / Q(hi[i] - lo[i]);
            } else if (op ? (a < lo[i] && lo[i] <= b) : (a <= lo[i] && lo[i] < b)) f = 1;
            if (f == 0) continue;
            Vec v = R.expand(l[i]), c = B.zero();
            for (int j = 0; j < A.n(); ++j)
                if (A.deg(j) <= B.d) c[B.at.at(A.words[j])] = v[j] * f;
            r = B.mul(r, B.exp(c));
        }
        return r;
    }
};
static Vec mulr(const Alg& B, const Vec& a, const Vec& b) { return B.mul(a, b); }
void sym_main()
{
    symq_policy(0, 0, 0);
    const int T = sym_tier();
    static const int DEP[] = {2, 1, 3};
    Alg A(2, 2);
    const int RES = 1;
    const double END = 2;
    Src S(A, RES, T ? 2 : 1, END);
    int what = (int) sym_choice("what", 0, 2);
    if (what == 0) {
        Alg B(2, DEP[sym_choice("depth", 0, 2)]);
        int isp = (int) sym_choice("initial_sparse", 0, 1);
        Vec v0 = B.zero();
        static const int SH[] = {1, 4};
        auto sup = support(SH[T ? sym_choice("initial_shape", 0, 1) : isp], B.n(), B.d, [&](int i) { return B.deg(i); });
        for (int i : sup) v0[i] = sym_rat(("v" + std::to_string(i)).c_str());
        int dl = (int) sym_choice("domain_lo", 0, 1), dh = T ? (int) sym_choice("domain_hi", 3, 4) : 4 - dl;
        double lo = dl * 0.5, hi = dh * 0.5;
        FreeTensor init = mkT(B, v0, isp);
        bool dop = S.pieces && sym_choice("domain_opencl", 0, 1);// only half-open to the right is supported for jumps
        auto vs = make_simple_tensor_valued_stream(S.impl, init, RealInterval(lo, hi, dop ? IntervalType::Opencl : IntervalType::Clopen));
        std::shared_ptr<const ValueStream<FreeTensor>> cur = vs;
        double clo = lo, chi = hi;
        auto check = [&](const char* lab) {
            sym_assert(cur->domain().inf() == clo && cur->domain().sup() == chi, "query domain");
            sym_assert(cur->increment_stream() == S.impl, "query domain");
            eqv(rd(B, cur->initial_value()), mulr(B, v0, S.sig(B, lo, clo, dop)), "initial value");
            eqv(rd(B, cur->terminal_value()), mulr(B, v0, S.sig(B, lo, chi, dop)), "terminal value");
            sym_assert(cur->terminal_value().storage_type() == init.storage_type(), "terminal value");
            double t = 0.5 * (double) sym_choice("t", -1, 5);
            bool out = throws([&] { FreeTensor x = cur->value_at(t); });
            sym_assert(out == (t < clo || t > chi), "outside");
            if (!out) eqv(rd(B, cur->value_at(t)), mulr(B, v0, S.sig(B, lo, t, dop)), lab);
        };
        int depth = (int) sym_choice("queries", 0, T ? 2 : 1);
        for (int q = 0; q < depth; ++q) {
            std::string s = std::to_string(q);
            double a = 0.5 * (double) sym_choice(("qlo" + s).c_str(), 0, T ? 4 : 2), b = 0.5 * (double) sym_choice(("qhi" + s).c_str(), T ? 1 : 2, T ? 5 : 4);
            if (a >= b) { sym_assume(false); return; }
            RealInterval I(a, b, dop ? IntervalType::Opencl : IntervalType::Clopen);
            if (b <= clo || a >= chi) {
                sym_assert(throws([&] { auto x = cur->query(I); }) || (b == clo || a == chi), "outside");
                return;
            }
            cur = cur->query(I);
            clo = std::max(clo, a), chi = std::min(chi, b);
        }
        if (depth == 0) {
            // the path the values follow
            double a = 0.5 * (double) sym_choice("a", 0, T ? 3 : 1), b = 0.5 * (double) sym_choice("b", T ? 1 : 3, 4);
            if (a < b) {
                RealInterval I(a, b, S.pieces && sym_choice("query_opencl", 0, 1) ? IntervalType::Opencl : IntervalType::Clopen);
                eqv(rd(B, cur->StreamInterface::signature(I, *B.ctx)), S.sig(B, a, b, I.type() == IntervalType::Opencl), "signature");
                // never empty where something happens inside the domain
                if (cur->empty(I)) eqv(S.sig(B, std::max(a, clo), std::max(std::min(b, chi), std::max(a, clo)), I.type() == IntervalType::Opencl), B.one(), "empty");
            }
        }
        check(depth == 0 ? "value" : "query");
    }
    if (what == 1) {
        Stream s(S.impl);
        double lo = 0.5 * (double) sym_choice("lo", 0, T ? 3 : 2), hi = 0.5 * (double) sym_choice("hi", T ? 1 : 3, T ? 5 : 4);
        if (lo >= hi) { sym_assume(false); return; }
        Stream r = s.restrict(RealInterval(lo, hi));
        double a = T ? 0.5 * (double) sym_choice("a", -1, 3) : sym_choice("a", 0, 1) ? 0.5 : -0.5, b = T ? 0.5 * (double) sym_choice("b", 0, 5) : sym_choice("b", 0, 1) ? 1.5 : 2.5;
        if (a >= b) { sym_assume(false); return; }
        auto cut = [&](double p, double q) { return p < q ? S.sig(A, p, q) : A.one(); };
        eqv(rd(A, r.signature(RealInterval(a, b), RES, *A.ctx)), cut(std::max({a, lo, 0.0}), std::min({b, hi, END})), "restricted");
        sym_assert(r.support().inf() >= lo && r.support().sup() <= hi, "restricted");
        eqv(rd(A, s.signature(RealInterval(a, b), RES, *A.ctx)), cut(std::max(a, 0.0), std::min(b, END)), "not restricted");
        double lo2 = 0.5 * (double) sym_choice("lo2", 0, T ? 2 : 1);
        Stream r2 = r.restrict(RealInterval(lo2, lo2 + 1));
        eqv(rd(A, r2.signature(RealInterval(a, b), RES, *A.ctx)), cut(std::max({a, lo, lo2, 0.0}), std::min({b, hi, lo2 + 1, END})), "restricted twice");
    }
    if (what == 2) {
        Stream s(S.impl);
        std::vector<double> cuts;
        for (int k = 1; k < 4; ++k)
            if (sym_choice(("cut" + std::to_string(k)).c_str(), 0, 1)) cuts.push_back(0.5 * k);
        intervals::Partition P(RealInterval(0, END), Slice<param_t>(cuts.data(), cuts.size()));
        Alg B(2, DEP[sym_choice("depth", 0, 2)]);
        Stream q = s.simplify(P, RES, *B.ctx);
        std::vector<double> pts{0};
        for (double c : cuts) pts.push_back(c);
        pts.push_back(END);
        for (size_t k = 1; k < pts.size(); ++k)
            if (pts[k] - pts[k - 1] == 1.5) { sym_assume(false); return; }// fractions of it are not exact
        int i = (int) sym_choice("from", 0, (int) pts.size() - 2), j = (int) sym_choice("to", i + 1, (int) pts.size() - 1);
        eqv(rd(B, q.signature(RealInterval(pts[i], pts[j]), RES, *B.ctx)), S.sig(B, pts[i], pts[j]), "simplified");
        sym_assert(&q.get_default_context() == &*B.ctx && q.support().inf() == 0 && q.support().sup() == END, "simplified");
    }
}
