// Lie algebra arithmetic and the maps between Lie elements and tensors.
#include "lie.h"
const char* const sym_labels[] = {"add", "mul", "add_mul", "sub_mul", "mul_smul", "equality", "write element", "convert", "lie_to_tensor", "tensor_to_lie",
                                  "tensor_to_lie(lie_to_tensor(x))", "lie_to_tensor of a bracket", "antisymmetry", "jacobi", "exp of a Lie element has a Lie log", nullptr};
void sym_setup() {}
struct F {
    const Alg& A;
    const LieRef& R;
    Lie make(const Vec& v, int s) const { return mkL(A, v, s); }
    Vec read(const Lie& t) const { return rdL(A, t); }
    Vec mul(const Vec& a, const Vec& b) const { return R.bracket(a, b); }
    Vec zero() const { return R.zero(); }
    key_type key(int i) const { return (key_type) (i + 1); }
    Lie convert(const Lie& t, int s) const { return A.ctx->convert(t, vtype(s)); }
};
void sym_main()
{
    symq_policy(4, 400, 0);
    int op = (int) sym_choice("op", 0, NOPS + 3);
    int sz = op == NOPS + 3 ? 6 : (int) sym_choice("size", 0, sym_tier() ? 5 : 2);
    static const int W[] = {2, 3, 2, 3, 4, 1, 2}, D[] = {4, 2, 5, 3, 2, 3, 7};
    Alg A(W[sz], D[sz]);
    if (op == NOPS + 3) {
        // the rewriting of brackets of high degree, one pair of degrees at a time
        auto bs = A.ctx->get_lie_basis();
        int m = (int) bs.dimension();
        int da = (int) sym_choice("left_degree", 1, 3), db = (int) sym_choice("right_degree", da, 7 - da);
        Vec a(m), b(m);
        for (int i = 0; i < m; ++i) {
            if (bs.degree(i + 1) == da) a[i] = sym_rat(("a." + std::to_string(i)).c_str());
            if (bs.degree(i + 1) == db) b[i] = sym_rat(("b." + std::to_string(i)).c_str());
        }
        Lie x = mkL(A, a, 1), y = mkL(A, b, 1);
        FreeTensor tx = A.ctx->lie_to_tensor(x), ty = A.ctx->lie_to_tensor(y);
        eqv(rd(A, A.ctx->lie_to_tensor(x.mul(y))), rd(A, tx.mul(ty).sub(ty.mul(tx))), "lie_to_tensor of a bracket");
        return;
    }
    LieRef R(A);
    int sa = (int) sym_choice("left_sparse", 0, 1), sb = (int) sym_choice("right_sparse", 0, 1);
    // the deepest size only with a few shapes in the quick tier
    const bool few = sz == 2 && !sym_tier();
    if (few) sb = sa;
    int ha = few ? 3 * (int) sym_choice("left_shape", 0, 1) : (int) sym_choice("left_shape", 0, 8);
    int hb = few ? 0 : (int) sym_choice("right_shape", 0, sym_tier() ? 8 : 3);
    static const int HB[] = {0, 3, 5, 8};
    if (!sym_tier()) hb = HB[hb];
    Vec a = R.sym("a", R.shape(ha)), b = R.sym("b", R.shape(hb));
    if (op < NOPS) {
        int alias = (int) sym_choice("alias", 0, 1);
        Vec c = R.sym("c", R.shape((ha + hb) % 9));
        Q s = sym_rat("s");
        algebra_ops<Lie>(F{A, R}, op, sa, sb, alias, a, b, c, s);
        return;
    }
    Lie x = mkL(A, a, sa), y = mkL(A, b, sb);
    switch (op - NOPS) {
        case 0: {
            FreeTensor t = A.ctx->lie_to_tensor(x);
            eqv(rd(A, t), R.expand(a), "lie_to_tensor");
            eqv(rdL(A, A.ctx->tensor_to_lie(t)), a, "tensor_to_lie(lie_to_tensor(x))");
            FreeTensor u = mkT(A, R.expand(a), sb);
            eqv(rdL(A, A.ctx->tensor_to_lie(u)), a, "tensor_to_lie");
            eqv(rdL(A, A.ctx->tensor_to_lie(t.exp().log())), a, "exp of a Lie element has a Lie log");
            eqv(rdL(A, x), a, "lie_to_tensor leaves x");
            break;
        }
        case 1: {
            FreeTensor tx = A.ctx->lie_to_tensor(x), ty = A.ctx->lie_to_tensor(y);
            eqv(rd(A, A.ctx->lie_to_tensor(x.mul(y))), rd(A, tx.mul(ty).sub(ty.mul(tx))), "lie_to_tensor of a bracket");
            eqv(rdL(A, x.mul(y)), rdL(A, y.mul(x).uminus()), "antisymmetry");
            break;
        }
        case 2: {
            Vec c = R.sym("c", R.shape((int) sym_choice("third", 0, sym_tier() ? 8 : 2)));
            Lie z = mkL(A, c, sa);
            Lie j = x.mul(y.mul(z));
            j.add_mul(y, z.mul(x));
            j.add_inplace(z.mul(x.mul(y)));
            eqv(rdL(A, j), R.zero(), "jacobi");
            break;
        }
    }
}
