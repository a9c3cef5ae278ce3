// Free tensor arithmetic against concatenation of words.
#include "ops.h"
const char* const sym_labels[] = {"add", "mul", "sdiv", "add_inplace", "mul_inplace", "sdiv_inplace", "add_scal_mul", "sub_scal_div",
                                  "add_mul", "sub_mul", "mul_smul", "mul_sdiv", "equality", "write element", "convert", "0-=x*y", "composite", nullptr};
void sym_setup() {}
struct F {
    const Alg& A;
    FreeTensor make(const Vec& v, int s) const { return mkT(A, v, s); }
    Vec read(const FreeTensor& t) const { return rd(A, t); }
    Vec mul(const Vec& a, const Vec& b) const { return A.mul(a, b); }
    Vec zero() const { return A.zero(); }
    key_type key(int i) const { return (key_type) i; }
    FreeTensor convert(const FreeTensor& t, int s) const { return A.ctx->convert(t, vtype(s)); }
};
void sym_main()
{
    symq_policy(4, 400, sym_tier());
    int sz = (int) sym_choice("size", 0, sym_tier() ? 3 : 1);
    static const int W[] = {2, 3, 2, 1}, D[] = {3, 2, 4, 4};
    Alg A(W[sz], D[sz]);
    int op = (int) sym_choice("op", 0, NOPS - 1);
    int sa = (int) sym_choice("left_sparse", 0, 1), sb = (int) sym_choice("right_sparse", 0, 1);
    int ha = (int) sym_choice("left_shape", 0, 8), hb = (int) sym_choice("right_shape", 0, 8);
    int alias = (int) sym_choice("alias", 0, 1);
    auto dg = [&](int i) { return A.deg(i); };
    Vec a = A.sym("a", support(ha, A.n(), A.d, dg)), b = A.sym("b", support(hb, A.n(), A.d, dg)), c = A.sym("c", support((ha + hb) % 9, A.n(), A.d, dg));
    Q s = sym_rat("s");
    algebra_ops<FreeTensor>(F{A}, op, sa, sb, alias, a, b, c, s);
}
