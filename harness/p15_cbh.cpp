// Campbell-Baker-Hausdorff product of several Lie elements.
#include "lie.h"
#include <roughpy/scalars/key_scalar_stream.h>
#include <roughpy/scalars/scalar_array.h>
const char* const sym_labels[] = {"cbh(left,right)", "cbh(list)", "cbh(pointers)", "cbh leaves arguments", "x*(-x)", "neutral", "associative",
                                  "signature of increments", "log signature of increments", "to_signature", nullptr};
void sym_setup() {}
void sym_main()
{
    symq_policy(3, 400, 0);
    int op = (int) sym_choice("op", 0, 5);
    int sz = (int) sym_choice("size", 0, sym_tier() ? 3 : 1);
    static const int W[] = {2, 3, 2, 3}, D[] = {3, 2, 4, 3};
    Alg A(W[sz], D[sz]);
    LieRef R(A);
    VectorType vt = vtype((int) sym_choice("result_sparse", 0, 1));
    int n = op == 0 || op == 3 ? 2 : op == 4 ? 3 : (int) sym_choice("count", 0, 3);
    std::vector<Vec> v;
    std::vector<Lie> l;
    Vec prod = A.one();
    for (int i = 0; i < n; ++i) {
        static const int H[] = {0, 1, 8, 3, 5};
        int h = H[sym_choice("shape", 0, i == 0 ? 4 : 2)];
        if (i > 1 && !sym_tier()) h = 1;
        Vec a = R.sym(std::string(1, 'a' + i), R.shape(h));
        if (sz >= 2 || i == 2)
            for (int j = 0; j < R.m; ++j)
                if (R.dg[j] >= 2 && j % 2) a[j] = 0;
        v.push_back(a);
        l.push_back(mkL(A, a, (int) sym_choice("sparse", 0, 1)));
        prod = A.mul(prod, A.exp(R.expand(a)));
    }
    Vec lg = A.log(A.add(prod, A.one(), -1));
    switch (op) {
        case 0: eqv(R.expand(rdL(A, A.ctx->cbh(l[0], l[1], vt))), lg, "cbh(left,right)"); break;
        case 1: {
            Lie r = A.ctx->cbh(l, vt);
            eqv(R.expand(rdL(A, r)), lg, "cbh(list)");
            break;
        }
        case 2: {
            std::vector<const Lie*> p;
            for (auto& x : l) p.push_back(&x);
            eqv(R.expand(rdL(A, A.ctx->cbh(Slice<const Lie*>(p.data(), p.size()), vt))), lg, "cbh(pointers)");
            break;
        }
        case 3: {
            Lie m = l[0].uminus();
            eqv(rdL(A, A.ctx->cbh(l[0], m, vt)), R.zero(), "x*(-x)");
            Lie z = mkL(A, R.zero(), (int) sym_choice("zero_sparse", 0, 1));
            eqv(rdL(A, A.ctx->cbh(l[0], z, vt)), v[0], "neutral");
            eqv(rdL(A, A.ctx->cbh(z, l[1], vt)), v[1], "neutral");
            break;
        }
        case 4: {
            Lie r = A.ctx->cbh(A.ctx->cbh(l[0], l[1], vt), l[2], vt), q = A.ctx->cbh(l[0], A.ctx->cbh(l[1], l[2], vt), vt);
            eqv(rdL(A, r), rdL(A, q), "associative");
            break;
        }
        case 5: {
            // the same product as the signature of a stream of increments
            scalars::KeyScalarStream s(A.ct);
            std::vector<std::vector<Q>> rows(n, std::vector<Q>(R.m));
            for (int i = 0; i < n; ++i)
                for (int j = 0; j < R.m; ++j) rows[i][j] = v[i][j];
            s.reserve_size(n);
            for (int i = 0; i < n; ++i) s.push_back(scalars::ScalarArray(A.ct, rows[i].data(), R.m));
            SignatureData d{std::move(s), vt};
            eqv(rd(A, A.ctx->signature(d)), prod, "signature of increments");
            eqv(R.expand(rdL(A, A.ctx->log_signature(d))), lg, "log signature of increments");
            if (n) {
                eqv(rd(A, A.ctx->to_signature(l[0])), A.exp(R.expand(v[0])), "to_signature");
            }
            break;
        }
    }
    for (int i = 0; i < n; ++i) eqv(rdL(A, l[i]), v[i], "cbh leaves arguments");
}
