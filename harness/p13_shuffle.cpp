// Shuffle tensor arithmetic, the half shuffle, the other products offered by
// the context and the adjoint of left multiplication.
#include "ops.h"
const char* const sym_labels[] = {"add", "mul", "add_mul", "sub_mul", "mul_smul", "equality", "write element", "convert",
                                  "shuffle_multiply", "half_shuffle_multiply", "half shuffles add up", "free_multiply", "adjoint_to_left_multiply_by",
                                  "adjoint pairing", "signature character", nullptr};
void sym_setup() {}
struct F {
    const Alg& A;
    ShuffleTensor make(const Vec& v, int s) const { return mkS(A, v, s); }
    Vec read(const ShuffleTensor& t) const { return rd(A, t); }
    Vec mul(const Vec& a, const Vec& b) const { return A.shuffle(a, b); }
    Vec zero() const { return A.zero(); }
    key_type key(int i) const { return (key_type) i; }
    ShuffleTensor convert(const ShuffleTensor& t, int s) const { return A.ctx->convert(t, vtype(s)); }
};
// u < v : the first letter comes from u
static Vec half(const Alg& A, const Vec& a, const Vec& b)
{
    Vec r = A.zero();
    for (int i = 1; i < A.n(); ++i)
        for (int j = 0; j < A.n(); ++j) {
            if (A.deg(i) + A.deg(j) > A.d) continue;
            std::map<int, int> m;
            Word c{A.words[i][0]};
            A.shuffles(A.words[i], 1, A.words[j], 0, c, m);
            Q t = a[i] * b[j];
            for (auto& [k, x] : m) r[k] += t * x;
        }
    return r;
}
// the word k is read as u.v; result[v] += m[u] a[u.v]
static Vec adj(const Alg& A, const Vec& m, const Vec& a)
{
    Vec r = A.zero();
    for (int k = 0; k < A.n(); ++k)
        for (size_t l = 0; l <= A.words[k].size(); ++l) {
            Word u(A.words[k].begin(), A.words[k].begin() + l), v(A.words[k].begin() + l, A.words[k].end());
            r[A.at.at(v)] += m[A.at.at(u)] * a[k];
        }
    return r;
}
static Q pairing(const Vec& a, const Vec& b)
{
    Q r;
    for (size_t i = 0; i < a.size(); ++i) r += a[i] * b[i];
    return r;
}
void sym_main()
{
    symq_policy(4, 400, 0);
    int op = (int) sym_choice("op", 0, NOPS + 4);
    int sz = (int) sym_choice("size", 0, sym_tier() ? 4 : 1);
    static const int W[] = {2, 3, 2, 1, 4}, D[] = {3, 2, 4, 5, 2};
    if (sz == 1 && op >= NOPS && !sym_tier()) sz = 0;
    Alg A(W[sz], D[sz]);
    int sa = (int) sym_choice("left_sparse", 0, 1), sb = (int) sym_choice("right_sparse", 0, 1);
    int ha = (int) sym_choice("left_shape", 0, 8), hb = (int) sym_choice("right_shape", 0, sym_tier() ? 8 : 3);
    static const int HB[] = {0, 3, 5, 8};
    if (!sym_tier()) hb = HB[hb];
    auto dg = [&](int i) { return A.deg(i); };
    Vec a = A.sym("a", support(ha, A.n(), A.d, dg)), b = A.sym("b", support(hb, A.n(), A.d, dg));
    if (op < NOPS) {
        int alias = (int) sym_choice("alias", 0, 1);
        Vec c = A.sym("c", support((ha + hb) % 9, A.n(), A.d, dg));
        Q s = sym_rat("s");
        algebra_ops<ShuffleTensor>(F{A}, op, sa, sb, alias, a, b, c, s);
        return;
    }
    // which classes the operands have
    int ta = (int) sym_choice("left_type", 0, 1), tb = (int) sym_choice("right_type", 0, 1);
    ShuffleTensor as = mkS(A, a, sa), bs = mkS(A, b, sb);
    FreeTensor af = mkT(A, a, sa), bf = mkT(A, b, sb);
    ConstRawUnspecifiedAlgebraType l = ta ? (ConstRawUnspecifiedAlgebraType) &*af : &*as, r = tb ? (ConstRawUnspecifiedAlgebraType) &*bf : &*bs;
    // the result has the class of the operand that it is like
    auto got = [&](UnspecifiedAlgebraType p, int free) {
        if (free) return rd(A, FreeTensor(std::move(p)));
        return rd(A, ShuffleTensor(std::move(p)));
    };
    switch (op - NOPS) {
        case 0: eqv(got(A.ctx->shuffle_multiply(l, r), ta), A.shuffle(a, b), "shuffle_multiply"); break;
        case 1: {
            eqv(got(A.ctx->half_shuffle_multiply(l, r), ta), half(A, a, b), "half_shuffle_multiply");
            // u<v + v<u is the shuffle, away from the constants
            Vec h1 = half(A, A.noconst(a), A.noconst(b)), h2 = half(A, A.noconst(b), A.noconst(a));
            eqv(A.add(h1, h2), A.shuffle(A.noconst(a), A.noconst(b)), "half shuffles add up");
            break;
        }
        case 2: eqv(got(A.ctx->free_multiply(l, r), ta), A.mul(a, b), "free_multiply"); break;
        case 3: {
            Vec x = got(A.ctx->adjoint_to_left_multiply_by(l, r), tb);
            eqv(x, adj(A, a, b), "adjoint_to_left_multiply_by");
            Vec t = A.sym("t", support((int) sym_choice("tested", 0, 3), A.n(), A.d, dg));
            sym_eq(pairing(x, t), pairing(b, rd(A, af.mul(mkT(A, t, 0)))), "adjoint pairing");
            break;
        }
        case 4: {
            // <S,u><S,v> = <S, u shuffle v> for the exponential S of a Lie element
            int dl = (int) sym_choice("lie_degree", 1, 2);
            if (ha || hb) return;
            Vec p = A.zero();
            Vec e = A.sym("p", A.degs(1, 1));
            for (int i = 0; i < A.n(); ++i) p[i] = e[i];
            if (dl == 2) {
                Vec q = A.zero(), x1 = A.zero(), x2 = A.zero();
                x1[1] = 1, x2[2 % A.n()] = 1;
                q = A.scale(A.comm(x1, x2), sym_rat("bracket"));
                p = A.add(p, q);
            }
            Vec S = rd(A, mkT(A, p, sa).exp());
            int i = (int) sym_choice("word", 0, A.n() - 1), j = (int) sym_choice("word2", 0, A.n() - 1);
            if (A.deg(i) + A.deg(j) > A.d) return;
            Vec u = A.zero(), v = A.zero();
            u[i] = v[j] = 1;
            Vec sh = rd(A, mkS(A, u, sa).mul(mkS(A, v, sb)));
            sym_eq(pairing(S, sh), S[i] * S[j], "signature character");
            break;
        }
    }
    eqv(rd(A, as), a, "operands unchanged");
    eqv(rd(A, af), a, "operands unchanged");
    eqv(rd(A, bs), b, "operands unchanged");
    eqv(rd(A, bf), b, "operands unchanged");
}
