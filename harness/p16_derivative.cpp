// Derivative of a signature in the direction of perturbations of the
// increments.
#include "lie.h"
const char* const sym_labels[] = {"single interval", "linear in the perturbation", "folded over intervals", "derivative of the product", "arguments unchanged", "empty list", nullptr};
void sym_setup() {}
// d/dt exp(x + t p) at t = 0, from the definition: sum over k of 1/k! of the
// sum over the position of the one factor p
static Vec dexp(const Alg& A, const Vec& x, const Vec& p)
{
    Vec r = A.zero(), pw = A.one(), d = A.zero();// x^k and its derivative
    Q f = 1;
    for (int k = 1; k <= A.d; ++k) {
        f /= k;
        Vec nd = A.add(A.mul(d, x), A.mul(pw, p));
        pw = A.mul(pw, x);
        d = nd;
        r = A.add(r, A.scale(d, f));
    }
    return r;
}
void sym_main()
{
    symq_policy(3, 400, 0);
    int sz = (int) sym_choice("size", 0, sym_tier() ? 3 : 2);
    static const int W[] = {2, 3, 2, 3}, D[] = {3, 2, 4, 3};
    Alg A(W[sz], D[sz]);
    LieRef R(A);
    VectorType vt = vtype((int) sym_choice("result_sparse", 0, 1));
    const bool few = sz == 2 && !sym_tier();
    int n = few ? 1 : (int) sym_choice("intervals", 0, 3);
    std::vector<Vec> xs, ps;
    std::vector<DerivativeComputeInfo> info;
    static const int H[] = {0, 1, 3, 8};
    for (int i = 0; i < n; ++i) {
        int full = (n == 1 && !few) || sym_tier();
        int hx = H[sym_choice("increment_shape", 0, full ? 3 : i == 0 ? 1 : 0)], hp = H[sym_choice("perturbation_shape", 0, full ? 3 : 1)];
        if (i == 2) hx = 1;
        Vec x = R.sym(std::string(1, 'x' + i), R.shape(hx)), p = R.sym(std::string("p") + std::to_string(i), R.shape(hp));
        xs.push_back(x), ps.push_back(p);
        int sx = (int) sym_choice("increment_sparse", 0, 1), sp = (int) sym_choice("perturbation_sparse", 0, 1);
        info.push_back({mkL(A, x, sx), mkL(A, p, sp)});
    }
    Vec got = rd(A, A.ctx->sig_derivative(info, vt));
    if (n == 0) eqv(got, A.zero(), "empty list");
    Vec fold = A.zero(), S = A.one(), dS = A.zero();
    for (int i = 0; i < n; ++i) {
        Vec x = R.expand(xs[i]), e = A.exp(x), de = dexp(A, x, R.expand(ps[i]));
        fold = A.add(A.mul(fold, e), de);
        dS = A.add(A.mul(dS, e), A.mul(S, de));
        S = A.mul(S, e);
    }
    if (n == 1) eqv(got, fold, "single interval");
    eqv(got, fold, "folded over intervals");
    if (n >= 1)
        for (int i = 0; i < A.n(); ++i) sym_eq_kf(got[i], dS[i], "derivative of the product", n > 1, "K2");
    if (n == 1 && ps.size()) {
        Q s = sym_rat("s");
        Vec p2 = ps[0];
        for (auto& q : p2) q *= s;
        std::vector<DerivativeComputeInfo> i2;
        i2.push_back({mkL(A, xs[0], 0), mkL(A, p2, 0)});
        eqv(rd(A, A.ctx->sig_derivative(i2, vt)), A.scale(got, s), "linear in the perturbation");
    }
    for (int i = 0; i < n; ++i) {
        eqv(rdL(A, info[i].logsig_of_interval), xs[i], "arguments unchanged");
        eqv(rdL(A, info[i].perturbation), ps[i], "arguments unchanged");
    }
}
