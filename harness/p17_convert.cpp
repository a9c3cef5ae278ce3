// Moving algebra elements between contexts of different depth and between
// storages.
#include "lie.h"
const char* const sym_labels[] = {"converted tensor", "converted shuffle tensor", "converted Lie", "lie_to_tensor across contexts", "tensor_to_lie across contexts",
                                  "there and back", "argument unchanged", "storage", "cbh across contexts", "constructed from data", nullptr};
void sym_setup() {}
static Vec cut(const Alg& A, const Alg& B, const Vec& v)
{
    Vec r = B.zero();
    for (int i = 0; i < A.n(); ++i)
        if (A.deg(i) <= B.d) r[B.at.at(A.words[i])] = v[i];
    return r;
}
void sym_main()
{
    symq_policy(4, 400, 0);
    int op = (int) sym_choice("op", 0, 5);
    int sz = (int) sym_choice("size", 0, sym_tier() ? 4 : 1);
    static const int W[] = {2, 3, 2, 3, 1}, D[] = {3, 2, 4, 3, 4};
    int to = (int) sym_choice("other_depth", 0, 3);// relative: -1, 0, +1, +2
    Alg A(W[sz], D[sz]), B(W[sz], D[sz] + to - 1);
    LieRef R(A), RB(B);
    int sa = (int) sym_choice("sparse", 0, 1), ha = (int) sym_choice("shape", 0, 8);
    int want = (int) sym_choice("wanted", 0, 2);
    optional<VectorType> vt;
    if (want) vt = vtype(want - 1);
    int st = want ? want - 1 : sa;// expected storage
    auto dg = [&](int i) { return A.deg(i); };
    switch (op) {
        case 0: {
            Vec a = A.sym("a", support(ha, A.n(), A.d, dg));
            FreeTensor x = mkT(A, a, sa), y = B.ctx->convert(x, vt);
            eqv(rd(B, y), cut(A, B, a), "converted tensor");
            sym_assert(y.storage_type() == vtype(st) && y.context() == B.ctx, "storage");
            if (to >= 1) eqv(rd(A, A.ctx->convert(y, vtype(sa))), a, "there and back");
            y.add_inplace(mkT(B, cut(A, B, a), sa));
            y.mul_inplace(y);
            eqv(rd(B, y), B.scale(B.mul(cut(A, B, a), cut(A, B, a)), 4), "converted tensor");
            eqv(rd(A, x), a, "argument unchanged");
            break;
        }
        case 1: {
            Vec a = A.sym("a", support(ha, A.n(), A.d, dg));
            ShuffleTensor x = mkS(A, a, sa), y = B.ctx->convert(x, vt);
            eqv(rd(B, y), cut(A, B, a), "converted shuffle tensor");
            sym_assert(y.storage_type() == vtype(st) && y.context() == B.ctx, "storage");
            if (to >= 1) eqv(rd(A, A.ctx->convert(y, vtype(sa))), a, "there and back");
            eqv(rd(A, x), a, "argument unchanged");
            break;
        }
        case 2: {
            Vec a = R.sym("a", R.shape(ha));
            Lie x = mkL(A, a, sa), y = B.ctx->convert(x, vt);
            eqv(RB.expand(rdL(B, y)), cut(A, B, R.expand(a)), "converted Lie");
            sym_assert(y.storage_type() == vtype(st) && y.context() == B.ctx, "storage");
            if (to >= 1) eqv(rdL(A, A.ctx->convert(y, vtype(sa))), a, "there and back");
            y.mul_inplace(y);
            eqv(rdL(B, y), RB.zero(), "converted Lie");
            eqv(rdL(A, x), a, "argument unchanged");
            break;
        }
        case 3: {
            Vec a = R.sym("a", R.shape(ha));
            Lie x = mkL(A, a, sa);
            FreeTensor y = B.ctx->lie_to_tensor(x);
            eqv(rd(B, y), cut(A, B, R.expand(a)), "lie_to_tensor across contexts");
            sym_assert(y.context() == B.ctx, "storage");
            eqv(RB.expand(rdL(B, B.ctx->tensor_to_lie(A.ctx->lie_to_tensor(x)))), cut(A, B, R.expand(a)), "tensor_to_lie across contexts");
            eqv(rdL(A, x), a, "argument unchanged");
            break;
        }
        case 4: {
            Vec a = R.sym("a", R.shape(ha)), b = RB.sym("b", RB.shape(want * 2));
            Lie x = mkL(A, a, sa), y = mkL(B, b, sa);
            Vec pr = B.mul(B.exp(cut(A, B, R.expand(a))), B.exp(RB.expand(b)));
            eqv(RB.expand(rdL(B, B.ctx->cbh(x, y, vtype(st)))), B.log(B.add(pr, B.one(), -1)), "cbh across contexts");
            eqv(RB.expand(rdL(B, B.ctx->cbh(std::vector<Lie>{x, y}, vtype(st)))), B.log(B.add(pr, B.one(), -1)), "cbh across contexts");
            eqv(RB.expand(rdL(B, B.ctx->cbh(std::vector<Lie>{x}, vtype(st)))), cut(A, B, R.expand(a)), "cbh across contexts");
            break;
        }
        case 5: {
            // data for the depth of A given to the context of depth of B
            Vec a = A.sym("a", support(ha, A.n(), A.d, dg));
            bool keyed = want == 1;
            FreeTensor y = B.ctx->construct_free_tensor(vcd(A, a, vtype(sa), keyed));
            eqv(rd(B, y), cut(A, B, a), "constructed from data");
            ShuffleTensor z = B.ctx->construct_shuffle_tensor(vcd(A, a, vtype(sa), keyed));
            eqv(rd(B, z), cut(A, B, a), "constructed from data");
            FreeTensor u(B.ctx->construct(AlgebraType::FreeTensor, vcd(A, a, vtype(sa), keyed)));
            eqv(rd(B, u), cut(A, B, a), "constructed from data");
            Vec l = R.sym("l", R.shape(ha));
            Lie w = A.ctx->construct_lie(vcd(A, l, vtype(sa), keyed));
            eqv(rdL(A, w), l, "constructed from data");
            break;
        }
    }
}
