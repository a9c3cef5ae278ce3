// Exponential, logarithm, fused multiply-exponential and antipode of free
// tensors against the truncated power series on words.
#include "alg.h"
const char* const sym_labels[] = {"exp", "log", "log(exp(x))", "exp(log(1+x))", "fmexp", "antipode", "antipode(exp(x))*exp(x)", "exp(x)*exp(-x)",
                                  "exp(x) leaves x", nullptr};
void sym_setup() {}
void sym_main()
{
    symq_policy(3, 400, 0);
    int sz = (int) sym_choice("size", 0, sym_tier() ? 8 : 5);
    static const int W[] = {2, 3, 2, 1, 2, 2, 4, 2, 3}, D[] = {3, 2, 4, 5, 7, 8, 3, 5, 6};
    Alg A(W[sz], D[sz]);
    if (sym_tier() && sz < 2) symq_policy(3, 400, 1);
    int op = (int) sym_choice("op", 0, 4);
    if (A.n() > 100) op = 4;// only the antipode treats high degrees differently
    int sa = (int) sym_choice("sparse", 0, 1);
    int ha = sz == 5 ? 4 * (int) sym_choice("shape", 0, 2) : (int) sym_choice("shape", 0, 8);
    auto dg = [&](int i) { return A.deg(i); };
    Vec x = A.noconst(A.sym("x", support(ha, A.n(), A.d, dg)));
    if (sz >= 2 && !sym_tier())
        for (int i = 0; i < A.n(); ++i)
            if (A.deg(i) == 3 && i % 2) x[i] = 0;
    FreeTensor X = mkT(A, x, sa);
    switch (op) {
        case 0: {
            FreeTensor e = X.exp();
            eqv(rd(A, e), A.exp(x), "exp");
            eqv(rd(A, X), x, "exp(x) leaves x");
            break;
        }
        case 1: {
            Vec y = A.add(A.one(), x);
            FreeTensor Y = mkT(A, y, sa);
            FreeTensor l = Y.log();
            eqv(rd(A, l), A.log(x), "log");
            eqv(rd(A, Y), y, "log leaves x");
            break;
        }
        case 2: {
            FreeTensor e = X.exp();
            eqv(rd(A, e.log()), x, "log(exp(x))");
            FreeTensor Y = mkT(A, A.add(A.one(), x), sa);
            eqv(rd(A, Y.log().exp()), A.add(A.one(), x), "exp(log(1+x))");
            eqv(rd(A, e.mul(X.uminus().exp())), A.one(), "exp(x)*exp(-x)");
            eqv(rd(A, e.antipode()), A.antipode(A.exp(x)), "antipode of exp");
            // for a primitive (here: degree one) element the antipode inverts
            Vec p = A.zero();
            for (int i = 0; i < A.n(); ++i)
                if (A.deg(i) == 1) p[i] = x[i];
            FreeTensor g = mkT(A, p, sa).exp();
            eqv(rd(A, g.antipode().mul(g)), A.one(), "antipode(exp(x))*exp(x)");
            break;
        }
        case 3: {
            int sb = (int) sym_choice("other_sparse", 0, 1), hb = (int) sym_choice("other_shape", 0, 8);
            Vec a = A.sym("a", support(hb, A.n(), A.d, dg));
            if (A.n() > 20)
                for (int i = 0; i < A.n(); ++i)
                    if (i % 3 == 1) a[i] = 0;
            FreeTensor F = mkT(A, a, sb);
            // the argument may carry a constant term, which is ignored
            Vec xc = x;
            if (sym_choice("constant", 0, 1)) xc[0] = sym_rat("x.0");
            FreeTensor XC = mkT(A, xc, sa);
            F.fmexp(XC);
            eqv(rd(A, F), A.mul(a, A.exp(x)), "fmexp");
            eqv(rd(A, XC), xc, "fmexp leaves argument");
            break;
        }
        case 4: {
            Vec y = x;
            if (ha != 8) y[0] = sym_rat("x.0");
            FreeTensor Y = mkT(A, y, sa);
            eqv(rd(A, Y.antipode()), A.antipode(y), "antipode");
            eqv(rd(A, Y), y, "antipode leaves x");
            eqv(rd(A, Y.antipode().antipode()), y, "antipode twice");
            break;
        }
    }
}
