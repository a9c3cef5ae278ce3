// The two rings of polynomials over the rationals: the polynomial scalars (of
// libalgebra_lite) and the polynomials of the generic number types.
#include "symq.h"
#include <libalgebra_lite/polynomial.h>
#include <map>
#include <roughpy/scalars/scalar_types.h>
#include <string>
#include <vector>
#include "platform/src/generics/polynomial_type/polynomial.h"
using namespace rpy;
const char* const sym_labels[] = {"scalar add", "scalar sub", "scalar mul", "scalar multiple", "scalar quotient", "scalar fused", "scalar negation", "scalar equality",
                                  "scalar coefficient", "scalar degree", "scalar evaluation", "generic add", "generic sub", "generic mul", "generic quotient", "generic equality",
                                  "generic degree", "generic constant", "monomial product", "generic monomial product", "monomial order", "generic monomial order", "division by zero", nullptr};
typedef std::vector<int> Mon;// exponents of x1, x2, x3
typedef std::map<Mon, Q> P;
typedef scalars::rational_poly_scalar SP;
typedef lal::monomial SM;
typedef generics::Polynomial GP;
typedef generics::Monomial GM;
static SM::letter_type letter(int i) { return SM::letter_type('x', (lal::dimn_t) i); }
static SM sm(const Mon& m)
{
    SM r;
    for (int i = 0; i < 3; ++i)
        if (m[i]) r[letter(i + 1)] = m[i];
    return r;
}
static GM gm(const Mon& m)
{
    GM r;
    for (int i = 0; i < 3; ++i)
        if (m[i]) r.emplace(generics::Indeterminate('x', i + 1), m[i]);
    return r;
}
static Mon back(const SM& m)
{
    Mon r(3);
    for (auto& kv : m) r[(lal::dimn_t) kv.first - 1] += kv.second;
    return r;
}
static Mon back(const GM& m)
{
    Mon r(3);
    for (auto& kv : m) r[kv.first.index() - 1] += kv.second;
    return r;
}
static SP sp(const P& p)
{
    SP r;
    for (auto& kv : p) r += SP(sm(kv.first), kv.second);
    return r;
}
static GP gp(const P& p)
{
    GP r;
    for (auto& kv : p) {
        generics::dtl::RationalCoeff c;
        mpq_set(c.content, kv.second.backend().data());
        r.emplace(gm(kv.first), c);
    }
    return r;
}
// the terms, each monomial once, without zero coefficients
template <class It, class K, class V>
static P terms(It b, It e, K k, V v, const char* label)
{
    P r;
    for (; b != e; ++b) {
        auto m = back(k(b));
        sym_assert(!r.count(m), label);
        Q q = v(b);
        sym_assert(q != 0, label);
        r[m] = q;
    }
    return r;
}
static P read(const SP& p, const char* label)
{
    return terms(p.begin(), p.end(), [](auto& i) -> const SM& { return i.key(); }, [](auto& i) { return i.value(); }, label);
}
static P read(const GP& p, const char* label)
{
    return terms(p.begin(), p.end(), [](auto& i) -> const GM& { return i->first; },
                 [](auto& i) {
                     Q q;
                     mpq_set(q.backend().data(), i->second.content);
                     return q;
                 },
                 label);
}
static Q coef(const P& p, const Mon& m)
{
    auto i = p.find(m);
    return i == p.end() ? Q(0) : i->second;
}
static P add(const P& a, const P& b, int s)
{
    P r = a;
    for (auto& kv : b)
        if (s > 0) r[kv.first] += kv.second;
        else r[kv.first] -= kv.second;
    return r;
}
static Mon operator+(const Mon& a, const Mon& b) { return {a[0] + b[0], a[1] + b[1], a[2] + b[2]}; }
static P mul(const P& a, const P& b)
{
    P r;
    for (auto& x : a)
        for (auto& y : b) r[x.first + y.first] += x.second * y.second;
    return r;
}
static P scale(const P& a, const Q& s)
{
    P r;
    for (auto& x : a) r[x.first] = x.second * s;
    return r;
}
static int total(const Mon& m) { return m[0] + m[1] + m[2]; }
static int degree(const P& p)
{
    int d = 0;
    for (auto& kv : p)
        if (kv.second != 0) d = std::max(d, total(kv.first));
    return d;
}
static void eqp(const P& g, const P& w, const char* label)
{
    for (auto& kv : w) sym_eq(coef(g, kv.first), kv.second, label);
    for (auto& kv : g)
        if (!w.count(kv.first)) sym_eq(kv.second, Q(0), label);
}
static bool equal(const P& a, const P& b)
{
    for (auto& kv : a)
        if (kv.second != coef(b, kv.first)) return false;
    for (auto& kv : b)
        if (kv.second != coef(a, kv.first)) return false;
    return true;
}
static std::vector<std::vector<Mon>> SUP;
static P sym(const char* nm, int s)
{
    P p;
    int i = 0;
    for (auto& m : SUP[s]) p[m] = sym_rat((nm + std::to_string(i++)).c_str());
    return p;
}
struct At {
    std::vector<Q> v;
    Q operator[](const SM::letter_type& l) const { return v[(lal::dimn_t) l - 1]; }
};
static Q value(const P& p, const At& x)
{
    Q r;
    for (auto& kv : p) {
        Q t = kv.second;
        for (int i = 0; i < 3; ++i)
            for (int k = 0; k < kv.first[i]; ++k) t *= x.v[i];
        r += t;
    }
    return r;
}
static std::vector<Mon> MONS;
void sym_setup()
{
    Mon o{0, 0, 0}, x{1, 0, 0}, y{0, 1, 0}, z{0, 0, 1}, xx{2, 0, 0}, xy{1, 1, 0}, yy{0, 2, 0}, xyz{1, 1, 1}, x3{3, 0, 0}, yz2{0, 1, 2};
    SUP = {{}, {o}, {x}, {o, x}, {x, y}, {xx, xy, yy}, {o, y, xy}, {z, y, x}, {xyz, x3, o}, {yz2, z}};
    for (int a = 0; a < 3; ++a)
        for (int b = 0; b < 3; ++b)
            for (int c = 0; c < 3; ++c)
                if (a + b + c <= 3) MONS.push_back({a, b, c});
}
static bool before(const Mon& a, const Mon& b) { return total(a) < total(b); }
// a strict total order in which the degree comes first
template <class M, class F>
static void order(F mk, const char* label)
{
    const Mon &a = MONS[sym_choice("a", 0, MONS.size() - 1)], &b = MONS[sym_choice("b", 0, MONS.size() - 1)];
    M x = mk(a), y = mk(b);
    bool l = x < y, g = y < x, e = x == y;
    sym_reach(label);
    sym_assert(e == (a == b), label);
    sym_assert(l + g + e == 1, label);
    if (before(a, b)) sym_assert(l, label);
    if constexpr (std::is_same_v<M, GM>) {
        sym_assert((x <= y) == (l || e) && (x > y) == g && (x >= y) == (g || e) && (x != y) == !e, label);
        if (e) sym_assert(hash_value(x) == hash_value(y), label);
    }
    // transitivity
    for (auto& c : MONS) {
        M w = mk(c);
        if (l && y < w) sym_assert(x < w, label);
    }
}
template <class M, class F>
static void product(F mk, const char* label)
{
    const Mon &a = MONS[sym_choice("a", 0, MONS.size() - 1)], &b = MONS[sym_choice("b", 0, MONS.size() - 1)];
    M x = mk(a), y = mk(b);
    sym_reach(label);
    bool self = sym_choice("form", 0, 1);
    M r = self ? x : x * y;
    if (self) r *= y;
    sym_assert(back(r) == a + b, label);
    sym_assert(back(x) == a && back(y) == b, label);
    sym_assert(r.degree() == total(a) + total(b), label);
    int t = 0;
    for (int i = 0; i < 3; ++i) t += a[i] + b[i] > 0;
    sym_assert(r.type() == t && r == mk(a + b), label);
    x *= x;
    sym_assert(back(x) == a + a, label);
}
void sym_main()
{
    symq_policy(2, 400, sym_tier() ? 3 : 2);
    int part = (int) sym_choice("part", 0, 5);
    int n = (int) SUP.size() - 1;
    switch (part) {
        case 0: {
            int op = (int) sym_choice("op", 0, 9);
            P a = sym("a", (int) sym_choice("left", 0, n)), b;
            if (op != 3 && op != 4 && op != 6 && op != 9) b = sym("b", (int) sym_choice("right", 0, n));
            SP x = sp(a), y = sp(b);
            int form = (int) sym_choice("form", 0, 2);
            Q s = sym_rat("s");
            const char* L = sym_labels[op];
            // 2: the operand is used on both sides
            switch (op) {
                case 0:
                    if (form == 0) eqp(read(x + y, L), add(a, b, 1), L);
                    else if (form == 1) x += y, eqp(read(x, L), add(a, b, 1), L), x = sp(a);
                    else x += x, eqp(read(x, L), add(a, a, 1), L), x = sp(a);
                    break;
                case 1:
                    if (form == 0) eqp(read(x - y, L), add(a, b, -1), L);
                    else if (form == 1) x -= y, eqp(read(x, L), add(a, b, -1), L), x = sp(a);
                    else x -= x, eqp(read(x, L), P{}, L), x = sp(a);
                    break;
                case 2:
                    if (form == 0) eqp(read(x * y, L), mul(a, b), L);
                    else if (form == 1) x *= y, eqp(read(x, L), mul(a, b), L), x = sp(a);
                    else x *= x, eqp(read(x, L), mul(a, a), L), x = sp(a);
                    break;
                case 3:
                    if (form == 0) eqp(read(x * s, L), scale(a, s), L);
                    else if (form == 1) eqp(read(s * x, L), scale(a, s), L);
                    else x *= s, eqp(read(x, L), scale(a, s), L), x = sp(a);
                    break;
                case 4:
                    if (form == 0) eqp(read(x / s, L), scale(a, 1 / s), L);
                    else x /= s, eqp(read(x, L), scale(a, 1 / s), L), x = sp(a);
                    break;
                case 5: {
                    P c = sym("c", (int) sym_choice("third", 0, sym_tier() ? n : 3));
                    SP w = sp(c);
                    if (form == 0) w.add_mul(x, y), eqp(read(w, L), add(c, mul(a, b), 1), L);
                    else if (form == 1) w.sub_mul(x, y), eqp(read(w, L), add(c, mul(a, b), -1), L);
                    else w.mul_scal_prod(x, s), eqp(read(w, L), scale(mul(c, a), s), L);
                    break;
                }
                case 6: eqp(read(-x, L), scale(a, -1), L); break;
                case 7: {
                    // every coefficient of one side may be that of the other
                    bool want = equal(a, b);
                    sym_assert((x == y) == want && (x != y) == !want, L);
                    SP z = sp(a);
                    sym_assert(x == z && !(x != z), L);
                    break;
                }
                case 8: {
                    const Mon& m = MONS[sym_choice("m", 0, MONS.size() - 1)];
                    const SP& cx = x;
                    sym_eq(cx[sm(m)], coef(a, m), L);
                    P w = a;
                    if (form == 0) x[sm(m)] = s, w[m] = s;
                    else if (form == 1) x[sm(m)] += s, w[m] += s;
                    else x[sm(m)] = Q(0), w[m] = 0;
                    eqp(read(x, L), w, L);
                    x = sp(a);
                    break;
                }
                case 9:
                    sym_assert(x.degree() == degree(a), L);
                    sym_assert((int) x.size() == (int) a.size() && x.empty() == a.empty(), L);
                    break;
            }
            sym_reach(L);
            eqp(read(x, L), a, L), eqp(read(y, L), b, L);
            break;
        }
        case 1: {
            const char* L = "scalar evaluation";
            sym_reach(L);
            P a = sym("a", (int) sym_choice("left", 0, n));
            SP x = sp(a);
            At p{{sym_rat("x1", false), sym_rat("x2", false), sym_rat("x3", false)}};
            sym_eq(x(p), value(a, p), L);
            break;
        }
        case 2: {
            int op = (int) sym_choice("op", 0, 6);
            const char* L = sym_labels[11 + op];
            P a = sym("a", (int) sym_choice("left", 0, n)), b;
            if (op < 3 || op == 4) b = sym("b", (int) sym_choice("right", 0, n));
            GP x = gp(a), y = gp(b);
            bool self = op < 3 && sym_choice("self", 0, 1);
            Q s = sym_rat("s");
            generics::dtl::RationalCoeff c;
            mpq_set(c.content, s.backend().data());
            sym_reach(L);
            switch (op) {
                case 0: generics::poly_add_inplace(x, self ? x : y), eqp(read(x, L), add(a, self ? a : b, 1), L); break;
                case 1: generics::poly_sub_inplace(x, self ? x : y), eqp(read(x, L), self ? P{} : add(a, b, -1), L); break;
                case 2: generics::poly_mul_inplace(x, self ? x : y), eqp(read(x, L), mul(a, self ? a : b), L); break;
                case 3: generics::poly_div_inplace(x, c), eqp(read(x, L), scale(a, 1 / s), L); break;
                case 4: {
                    bool want = equal(a, b);
                    sym_assert(generics::poly_cmp_equal(x, y) == want && (x == y) == want, L);
                    sym_assert(generics::poly_cmp_equal(x, gp(a)), L);
                    sym_assert(generics::poly_cmp_is_zero(x) == a.empty(), L);
                    break;
                }
                case 5: sym_assert(x.degree() == degree(a), L); break;
                case 6: sym_assert(x.is_constant() == (degree(a) == 0), L); break;
            }
            eqp(read(y, L), b, L);
            break;
        }
        case 3: {
            int which = (int) sym_choice("which", 0, 1);
            if (which) product<GM>(gm, "generic monomial product");
            else product<SM>(sm, "monomial product");
            break;
        }
        case 4: {
            int which = (int) sym_choice("which", 0, 1);
            if (which) order<GM>(gm, "generic monomial order");
            else order<SM>(sm, "monomial order");
            break;
        }
        case 5: {
            const char* L = "division by zero";
            sym_reach(L);
            GP x = gp(sym("a", (int) sym_choice("left", 0, n)));
            bool thrown = false;
            try {
                generics::poly_div_inplace(x, generics::dtl::RationalCoeff());
            } catch (const std::exception&) {
                thrown = true;
            }
            sym_assert(thrown, L);
            break;
        }
    }
}
