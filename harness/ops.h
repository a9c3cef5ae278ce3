// The operations every algebra has, against a reference product.
#pragma once
#include "alg.h"
// F: n, make(vec, sparse), read(obj), mul(vec, vec), zero(), null(), convert
template <class T, class F>
void algebra_ops(const F& f, int op, int sa, int sb, int alias, const Vec& a, const Vec& b, const Vec& c, const Q& s)
{
    const Alg& A = f.A;
    T x = f.make(a, sa), y = f.make(b, sb);
    auto add = [&](const Vec& u, const Vec& v, int sg) {
        Vec r = u;
        for (size_t i = 0; i < r.size(); ++i)
            if (sg > 0) r[i] += v[i];
            else r[i] -= v[i];
        return r;
    };
    auto scale = [&](const Vec& u, const Q& k) {
        Vec r = u;
        for (auto& q : r) q *= k;
        return r;
    };
    auto S = sc(A, s);
    // with alias, the second operand is the same object as the first
    const T& Y = alias ? x : y;
    const Vec B = alias ? a : b;
    Vec inv = scale(a, 1);
    T z = f.make(c, sb);
    switch (op) {
        case 0: {
            T r = x.add(Y);
            eqv(f.read(r), add(a, B, 1), "add");
            r = x.sub(Y);
            eqv(f.read(r), add(a, B, -1), "sub");
            break;
        }
        case 1: eqv(f.read(x.mul(Y)), f.mul(a, B), "mul"); break;
        case 2:
            eqv(f.read(x.uminus()), scale(a, -1), "uminus");
            eqv(f.read(x.smul(S)), scale(a, s), "smul");
            eqv(f.read(x.sdiv(S)), scale(a, 1 / s), "sdiv");
            break;
        case 3:
            x.add_inplace(Y);
            eqv(f.read(x), add(a, B, 1), "add_inplace");
            break;
        case 4:
            x.sub_inplace(Y);
            eqv(f.read(x), add(a, B, -1), "sub_inplace");
            break;
        case 5:
            x.mul_inplace(Y);
            eqv(f.read(x), f.mul(a, B), "mul_inplace");
            break;
        case 6:
            x.smul_inplace(S);
            eqv(f.read(x), scale(a, s), "smul_inplace");
            x.sdiv_inplace(S);
            eqv(f.read(x), a, "sdiv_inplace");
            break;
        case 7:
            x.add_scal_mul(Y, S);
            eqv(f.read(x), add(a, scale(B, s), 1), "add_scal_mul");
            break;
        case 8:
            x.sub_scal_mul(Y, S);
            eqv(f.read(x), add(a, scale(B, s), -1), "sub_scal_mul");
            break;
        case 9:
            x.add_scal_div(Y, S);
            eqv(f.read(x), add(a, scale(B, 1 / s), 1), "add_scal_div");
            break;
        case 10:
            x.sub_scal_div(Y, S);
            eqv(f.read(x), add(a, scale(B, 1 / s), -1), "sub_scal_div");
            break;
        case 11:
            z.add_mul(x, Y);
            eqv(f.read(z), add(c, f.mul(a, B), 1), "add_mul");
            break;
        case 12:
            z.sub_mul(x, Y);
            eqv(f.read(z), add(c, f.mul(a, B), -1), "sub_mul");
            break;
        case 13:
            x.mul_smul(Y, S);
            eqv(f.read(x), scale(f.mul(a, B), s), "mul_smul");
            break;
        case 14:
            x.mul_sdiv(Y, S);
            eqv(f.read(x), scale(f.mul(a, B), 1 / s), "mul_sdiv");
            break;
        case 15: {
            // equality, zero test
            bool same = x == Y;
            bool want = true;
            for (size_t i = 0; i < a.size(); ++i)
                if (a[i] != B[i]) {
                    want = false;
                    break;
                }
            sym_assert(same == want, "equality");
            sym_assert((x != Y) == !want, "inequality");
            T d = x.sub(x);
            sym_assert(d == f.make(f.zero(), sa) && d == f.make(f.zero(), sb) && d == T(), "x-x is zero");
            break;
        }
        case 16: {
            // copies are independent; element access reads and writes
            T r = x;
            const T& cr = r;
            int k = (int) sym_choice("position", 0, (int) a.size() - 1);
            const T& cx = x;
            sym_eq(toQ(cx[f.key(k)]), a[k], "read element");
            r[f.key(k)] = S;
            Vec w = a;
            w[k] = s;
            eqv(f.read(r), w, "write element");
            sym_eq(toQ(r[f.key(k)]), s, "read back element");
            r[f.key(k)] += S;
            sym_eq(toQ(cr[f.key(k)]), s + s, "element += s");
            r[f.key(k)] *= S;
            sym_eq(toQ(cr[f.key(k)]), (s + s) * s, "element *= s");
            r[f.key(k)] -= sc(f.A, b[0]);
            sym_eq(toQ(cr[f.key(k)]), (s + s) * s - b[0], "element -= b");
            r[f.key(k)] /= S;
            sym_eq(toQ(cr[f.key(k)]), ((s + s) * s - b[0]) / s, "element /= s");
            {
                scalars::Scalar e(r[f.key(k)]);
                sym_eq(toQ(e), ((s + s) * s - b[0]) / s, "copy of an element reference");
            }
            eqv(f.read(x), a, "copy is independent");
            break;
        }
        case 17: {
            T r = f.convert(x, sb);
            sym_assert(r.storage_type() == vtype(sb), "converted storage");
            eqv(f.read(r), a, "convert");
            eqv(f.read(x), a, "convert leaves argument");
            r.add_inplace(x);
            eqv(f.read(r), scale(a, 2), "convert owns its data");
            eqv(f.read(x), a, "convert leaves argument");
            break;
        }
        case 18: {
            // a default-constructed object is zero
            T n0, n1;
            eqv(f.read(x.add(n0)), a, "x+0");
            eqv(f.read(n0.add(x)), a, "0+x");
            eqv(f.read(x.sub(n0)), a, "x-0");
            eqv(f.read(n0.sub(x)), scale(a, -1), "0-x");
            eqv(f.read(x.mul(n0)), f.zero(), "x*0");
            eqv(f.read(n0.mul(x)), f.zero(), "0*x");
            n0.add_scal_mul(x, S);
            eqv(f.read(n0), scale(a, s), "0+=x*s");
            n1.sub_mul(x, y);
            eqv(f.read(n1), scale(f.mul(a, b), -1), "0-=x*y");
            T n2, n3, n4, n5;
            n2.add_inplace(x);
            eqv(f.read(n2), a, "0+=x");
            n3.sub_inplace(x);
            eqv(f.read(n3), scale(a, -1), "0-=x");
            n4.mul_inplace(x);
            eqv(f.read(n4), f.zero(), "0*=x");
            T w = x;
            w.mul_inplace(n5);
            eqv(f.read(w), f.zero(), "x*=0");
            break;
        }
        case 19: {
            // other operands stay as they were
            if (alias) break;
            T r = x;
            r.mul_inplace(y);
            r.add_mul(x, y);
            r.sub_scal_mul(y, S);
            (void) x.mul(y);
            (void) x.add(y);
            (void) x.sub(y);
            eqv(f.read(x), a, "operands unchanged");
            eqv(f.read(y), b, "operands unchanged");
            eqv(f.read(r), add(scale(f.mul(a, b), 2), scale(b, s), -1), "composite");
            break;
        }
    }
}
static const int NOPS = 20;
