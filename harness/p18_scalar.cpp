// Arithmetic, comparison and conversion of scalars of any pair of types: the
// exact result whenever the type of the result can hold it.
#include "symq.h"
#include <roughpy/scalars/scalar.h>
#include <roughpy/scalars/scalar_types.h>
#include <cmath>
#include <limits>
#include <string>
using namespace rpy;
using namespace rpy::scalars;
using devices::TypeCode;
using Poly = rational_poly_scalar;
const char* const sym_labels[] = {"integer result", "integer result type", "real result", "real result type", "rational result", "polynomial result", "operand changed", "reference keeps its type",
                                  "self", "equality", "symmetric", "not equal", "zero", "negation", "cast", "copies are independent", "assignment keeps the type", "null operand", "quotient", "division by zero",
                                  "unchanged by a refused operation", nullptr};
enum { I8, I32, I64, U8, U32, U64, F32, F64, RAT, POLY, I16, U16 };
void sym_setup() {}
static devices::monomial mon(int n)
{
    using L = devices::monomial::letter_type;
    return n ? devices::monomial(L('x', 1), n) : devices::monomial();
}

static devices::TypeInfo info(int t)
{
    switch (t) {
        case I8: return devices::type_info<int8_t>();
        case I32: return devices::type_info<int32_t>();
        case I64: return devices::type_info<int64_t>();
        case U8: return devices::type_info<uint8_t>();
        case U32: return devices::type_info<uint32_t>();
        case U64: return devices::type_info<uint64_t>();
        case F32: return devices::type_info<float>();
        case F64: return devices::type_info<double>();
        case RAT: return devices::type_info<rational_scalar_type>();
        case I16: return devices::type_info<int16_t>();
        case U16: return devices::type_info<uint16_t>();
        default: return devices::type_info<Poly>();
    }
}
static bool integral(int t) { return (t >= 0 && t <= U64) || t >= I16; }
static bool sgn(int t) { return t <= I64 || t == I16; }
static int bits(int t) { return t == I8 || t == U8 ? 8 : t >= I16 ? 16 : t == I32 || t == U32 ? 32 : 64; }
// a number of one of the types, and where it lives
struct Num {
    int t;
    int64_t i = 0;
    double d = 0;
    Q q;
    int mono = 0;// q times this monomial
    union {
        int8_t a;
        int32_t b;
        int64_t c;
        uint8_t e;
        uint32_t f;
        uint64_t g;
        float h;
        double k;
    };
    Poly p;
    explicit Num(int ty) : t(ty), c(0) {}
    void put()
    {
        switch (t) {
            case I8: a = (int8_t) i; break;
            case I32: b = (int32_t) i; break;
            case I64: c = i; break;
            case U8: e = (uint8_t) i; break;
            case U32: f = (uint32_t) i; break;
            case U64: g = (uint64_t) i; break;
            case F32: h = (float) d; break;
            case F64: k = d; break;
            case POLY: p = mono ? Poly(mon(mono), q) : Poly(q); break;
        }
    }
    void* ptr()
    {
        return t == RAT ? (void*) &q : t == POLY ? (void*) &p : (void*) &c;
    }
    Scalar value() const
    {
        switch (t) {
            case I8: return Scalar(a);
            case I32: return Scalar(b);
            case I64: return Scalar(c);
            case U8: return Scalar(e);
            case U32: return Scalar(f);
            case U64: return Scalar(g);
            case F32: return Scalar(h);
            case F64: return Scalar(k);
            case RAT: return Scalar(q);
            default: return Scalar(p);
        }
    }
    Scalar ref() { return Scalar(info(t), ptr()); }
    Scalar cref() const { return Scalar(info(t), (const void*) const_cast<Num*>(this)->ptr()); }
    double real() const { return t < F32 ? (double) i : d; }
    // exactly, for the numbers of sym_choice
    Q rat() const { return t < F32 ? Q((long) i) : t <= F64 ? Q((long) (d * 1024)) / 1024 : q; }
};
static int64_t geti(const void* p, int t)
{
    switch (t) {
        case I8: return *(const int8_t*) p;
        case I32: return *(const int32_t*) p;
        case I64: return *(const int64_t*) p;
        case U8: return *(const uint8_t*) p;
        case U32: return *(const uint32_t*) p;
        case I16: return *(const int16_t*) p;
        case U16: return *(const uint16_t*) p;
        default: return (int64_t) * (const uint64_t*) p;
    }
}
static int typ(const Scalar& s)
{
    for (int t = I8; t <= U16; ++t)
        if (s.type_info() == info(t)) return t;
    return -1;
}
static double getd(const Scalar& s, int t) { return t == F32 ? (double) s.as_type<float>() : s.as_type<double>(); }
static double num(const Scalar& s, int t) { return integral(t) ? (double) geti(s.pointer(), t) : getd(s, t); }
static Q coef(const Poly& p, int mono)
{
    for (auto& kv : p)
        if (kv.key() == mon(mono)) return kv.value();
    return Q(0);
}
// the coefficient of one monomial of a rational or polynomial scalar
static Q getq(const Scalar& s, int mono)
{
    if (s.fast_is_zero()) return Q(0);
    if (typ(s) == RAT) return mono ? Q(0) : s.as_type<Q>();
    return coef(s.as_type<Poly>(), mono);
}
template <class F>
static bool throws(F f)
{
    try {
        f();
    } catch (std::exception&) {
        return true;
    }
    return false;
}
static Scalar apply(int op, const Scalar& x, const Scalar& y)
{
    return op == 0 ? x + y : op == 1 ? x - y : op == 2 ? x * y : x / y;
}
static void inplace(int op, Scalar& x, const Scalar& y)
{
    if (op == 0) x += y;
    else if (op == 1) x -= y;
    else if (op == 2) x *= y;
    else x /= y;
}
// the forms of an operation: 0 values, 1 in place, 2 in place on a reference,
// 3 references; the right hand side a value or a reference
struct Res {
    Scalar s;
    int t;
    bool ref;
};
static Res run(int form, int op, Num& x, Num& y, int ref = -1)
{
    if (ref < 0) ref = (int) sym_choice("rhs ref", 0, 1);
    Scalar r = ref ? y.cref() : y.value();
    if (form == 0) {
        Scalar l = x.value();
        Scalar z = apply(op, l, r);
        return {z, typ(z), false};
    }
    if (form == 1) {
        Scalar l = x.value();
        inplace(op, l, r);
        return {l, typ(l), false};
    }
    if (form == 2) {
        Scalar l = x.ref();
        inplace(op, l, r);
        return {l, typ(l), true};
    }
    Scalar l = x.cref();
    Scalar z = apply(op, l, r);
    return {z, typ(z), false};
}
static bool fits(int64_t v, int t)
{
    switch (t) {
        case I8: return v >= -128 && v <= 127;
        case I32: return v >= INT32_MIN && v <= INT32_MAX;
        case I64: return true;
        case I16: return v >= -32768 && v <= 32767;
        case U16: return v >= 0 && v <= 65535;
        case U8: return v >= 0 && v <= 255;
        case U32: return v >= 0 && v <= UINT32_MAX;
        default: return v >= 0;
    }
}
static int64_t ranged(const char* n, int t)
{
    int64_t w = int64_t(1) << 40;
    if (t == I8) return sym_int(n, -128, 127);
    if (t == U8) return sym_int(n, 0, 255);
    if (t == I32) return sym_int(n, INT32_MIN, INT32_MAX);
    else if (t == U32) return sym_int(n, 0, UINT32_MAX);
    return sym_int(n, sgn(t) ? -w : 0, w);
}
static void ints()
{
    int tx = (int) sym_choice("tx", I8, U64), ty = (int) sym_choice("ty", I8, U64), op = (int) sym_choice("op", 0, 2), form = (int) sym_choice("form", 0, 3);
    Num x(tx), y(ty);
    x.i = ranged("x", tx);
    // products of two unknowns for the narrow types only
    static const int F[] = {0, 1, 2, 100, -1, -7};
    y.i = op == 2 && (bits(tx) > 8 || bits(ty) > 8) ? F[sym_choice("y", 0, sgn(ty) ? 5 : 3)] : ranged("y", ty);
    x.put();
    y.put();
    int64_t want = op == 0 ? x.i + y.i : op == 1 ? x.i - y.i : x.i * y.i;
    Res r = run(form, op, x, y);
    if (r.ref) {
        sym_assert(r.t == tx, "reference keeps its type");
        if (fits(want, tx) && fits(y.i, tx)) sym_assert(geti(x.ptr(), tx) == want, "integer result");
    } else {
        bool z = r.s.fast_is_zero();
        // nothing happens with zeros
        if (x.i != 0 && y.i != 0 && !z) {
            sym_assert(integral(r.t), "integer result type");
            // it can hold both, if anything can
            auto holds = [&](int a) { return sgn(r.t) == sgn(a) ? bits(r.t) >= bits(a) : sgn(r.t) && bits(r.t) > bits(a); };
            bool big = (tx == U64 && sgn(ty)) || (ty == U64 && sgn(tx));
            sym_assert(big || (holds(tx) && holds(ty)), "integer result type");
        }
        if (z) sym_assert(want == 0 || !fits(want, tx), "integer result");
        else if (fits(want, r.t)) sym_assert(geti(r.s.pointer(), r.t) == want, "integer result");
        sym_assert(geti(x.ptr(), tx) == x.i, "operand changed");
    }
    sym_assert(geti(y.ptr(), ty) == y.i, "operand changed");
}
static const double NUM[] = {0, 1, 3, 0.5, -0.25, -7};
static void number(Num& n, const char* name)
{
    int k = (int) sym_choice(name, 0, n.t >= F32 ? 5 : sgn(n.t) ? 3 : 2);
    double v = n.t < F32 && k == 3 ? -5 : NUM[k];
    if (n.t < F32) n.i = (int64_t) v;
    n.d = v;
    n.put();
}
static void reals()
{
    // at least one of them float or double; small enough for float to be exact
    int tx = (int) sym_choice("tx", I8, F64), ty = (int) sym_choice("ty", I8, F64), op = (int) sym_choice("op", 0, 2), form = (int) sym_choice("form", 0, 3);
    if (tx < F32 && (ty < F32 || form == 2)) {
        sym_assume(false);
        return;
    }
    Num x(tx), y(ty);
    // the sums of integers and floats are hard on the solver
    bool mixed = (tx == F32 && ty < F32) || (ty == F32 && tx < F32), full = sym_tier() > 0;
    auto give = [&](Num& n, const char* name) {
        if (n.t < F32) n.i = mixed ? sym_int(name, sgn(n.t) ? -8 : 0, 8) : full ? sym_int(name, sgn(n.t) ? -100 : 0, 100) : sym_int(name, sgn(n.t) ? -32 : 0, 32);
        else n.d = mixed ? sym_grid(name, -4, 4, 2) : full ? sym_grid(name, -64, 64, 3) : sym_grid(name, -8, 8, 2);
        n.put();
    };
    if (op == 2) {
        // one unknown factor; zeros (which may get a sign) are tried one by one
        number(y, "y");
        if (y.real() == 0 || sym_choice("zero", 0, 1)) number(x, "x");
        else {
            give(x, "x");
            if (x.real() == 0) {
                sym_assume(false);
                return;
            }
        }
    } else {
        give(x, "x");
        give(y, "y");
    }
    double want = op == 0 ? x.real() + y.real() : op == 1 ? x.real() - y.real() : x.real() * y.real();
    Res r = run(form, op, x, y, op < 2 && !full ? op : -1);
    if (r.ref) {
        sym_assert(r.t == tx, "reference keeps its type");
        if (tx >= F32) sym_assert((tx == F32 ? (double) x.h : x.k) == want, "real result");
    } else {
        if (r.s.fast_is_zero()) sym_assert(want == 0, "real result");
        else {
            if (x.real() != 0 && y.real() != 0) {
                sym_assert(r.t == F32 || r.t == F64, "real result type");
                sym_assert(r.t == F64 || (tx != F64 && ty != F64), "real result type");
            }
            sym_assert(num(r.s, r.t) == want, "real result");
        }
        if (tx >= F32) sym_assert((tx == F32 ? (double) x.h : x.k) == x.d, "operand changed");
    }
    if (ty >= F32) sym_assert((ty == F32 ? (double) y.h : y.k) == y.d, "operand changed");
}
static void exact(Num& n, const char* name)
{
    int z = (int) sym_choice((std::string("zero ") + name).c_str(), 0, 1);
    n.q = z ? Q(0) : sym_rat(name);
    if (n.t == POLY) n.mono = z ? 0 : (int) sym_choice((std::string("mono ") + name).c_str(), 0, 1);
    n.put();
}
static void rationals()
{
    int tx = (int) sym_choice("tx", I8, POLY), ty = (int) sym_choice("ty", I8, POLY), op = (int) sym_choice("op", 0, 2), form = (int) sym_choice("form", 0, 3);
    if (tx < RAT && ty < RAT) {
        sym_assume(false);
        return;
    }
    Num x(tx), y(ty);
    tx < RAT ? number(x, "x") : exact(x, "x");
    ty < RAT ? number(y, "y") : exact(y, "y");
    Q a = x.rat(), b = y.rat();
    Q w[3] = {0, 0, 0};
    if (op == 2) w[x.mono + y.mono] = a * b;
    else {
        w[x.mono] = a;
        w[y.mono] = op == 0 ? Q(w[y.mono] + b) : Q(w[y.mono] - b);
    }
    if (form == 2) {
        // a reference holds only what its type can
        if (tx < RAT || (tx == RAT && y.mono)) {
            sym_assume(false);
            return;
        }
        Res r = run(form, op, x, y);
        sym_assert(r.t == tx, "reference keeps its type");
        for (int m = 0; m < 3; ++m) sym_eq(tx == RAT ? (m ? Q(0) : x.q) : coef(x.p, m), w[m], tx == RAT ? "rational result" : "polynomial result");
        return;
    }
    Res r = run(form, op, x, y);
    bool poly = tx == POLY || ty == POLY;
    if (!r.s.fast_is_zero()) sym_assert(r.t == (poly ? POLY : RAT), poly ? "polynomial result" : "rational result");
    for (int m = 0; m < 3; ++m) sym_eq(getq(r.s, m), w[m], poly ? "polynomial result" : "rational result");
    if (tx >= RAT) sym_eq(tx == RAT ? x.q : coef(x.p, x.mono), a, "operand changed");
    if (ty >= RAT) sym_eq(ty == RAT ? y.q : coef(y.p, y.mono), b, "operand changed");
}
static void selfops()
{
    int t = (int) sym_choice("tx", I8, POLY), op = (int) sym_choice("op", 0, 2), ref = (int) sym_choice("ref", 0, 1);
    Num x(t);
    if (t < F32) x.i = sym_int("x", sgn(t) ? -11 : 0, 11);
    else if (t < RAT) x.d = sym_grid("x", -8, 8, 3);
    else exact(x, "x");
    x.put();
    Q a = x.q;
    int64_t i = x.i;
    double d = x.d;
    Scalar l = ref ? x.ref() : x.value();
    if (op == 0) l += l;
    else if (op == 1) l -= l;
    else l *= l;
    if (t < F32) {
        int64_t w = op == 0 ? 2 * i : op == 1 ? 0 : i * i;
        sym_assert((l.fast_is_zero() ? 0 : geti(l.pointer(), typ(l))) == w, "self");
    } else if (t < RAT) {
        double w = op == 0 ? 2 * d : op == 1 ? 0 : d * d;
        sym_assert((l.fast_is_zero() ? 0 : getd(l, typ(l))) == w, "self");
    } else
        for (int m = 0; m < 3; ++m) {
            Q w = op == 2 ? (m == 2 * x.mono ? Q(a * a) : Q(0)) : m == x.mono ? (op == 0 ? Q(a + a) : Q(0)) : Q(0);
            sym_eq(getq(l, m), w, "self");
        }
}
static void compare()
{
    int kind = (int) sym_choice("kind", 0, 3);
    int tx, ty;
    bool want;
    Num *px, *py;
    if (kind == 0) {
        tx = (int) sym_choice("tx", I8, U64);
        ty = (int) sym_choice("ty", I8, U64);
    } else if (kind == 1) {
        tx = (int) sym_choice("tx", I8, F64);
        ty = (int) sym_choice("ty", F32, F64);
    } else {
        tx = (int) sym_choice("tx", I8, POLY);
        ty = (int) sym_choice("ty", RAT, POLY);
    }
    Num x(tx), y(ty);
    auto full = [](int t, const char* n) {
        switch (t) {
            case I8: return sym_int(n, -128, 127);
            case U8: return sym_int(n, 0, 255);
            case I32: return sym_int(n, INT32_MIN, INT32_MAX);
            case U32: return sym_int(n, 0, UINT32_MAX);
            default: return sym_int(n, INT64_MIN, INT64_MAX);// modulo 2^64 for U64
        }
    };
    if (kind == 0) {
        static const int64_t E[] = {0, 1, -1, 127, -128, 255, 256, INT32_MAX, INT32_MIN, UINT32_MAX, int64_t(1) << 32, (int64_t(1) << 32) + 1};
        if (sgn(tx) == sgn(ty) && tx != ty) {
            // these are compared as rationals, whose integers are not symbolic
            x.i = E[sym_choice("x", 0, 11)];
            y.i = E[sym_choice("y", 0, 11)];
            if (!fits(x.i, tx) || !fits(y.i, ty)) {
                sym_assume(false);
                return;
            }
        } else {
            x.i = full(tx, "x");
            y.i = full(ty, "y");
        }
        x.put();
        y.put();
        want = x.i == y.i && !(x.i < 0 && (tx == U64) != (ty == U64));
    } else if (kind == 1) {
        auto real = [](Num& n, const char* name) {
            if (n.t == F32) n.h = sym_float(name);
            else n.k = sym_double(name);
        };
        real(y, "y");
        double b = ty == F32 ? (double) y.h : y.k;
        if (tx < F32) {
            x.i = full(tx, "x");
            x.put();
            if (std::isnan(b)) want = false;
            else if (tx == U64) want = b >= 0 && b < 18446744073709551616. && (double) (uint64_t) b == b && (uint64_t) b == (uint64_t) x.i;
            else want = b >= -9223372036854775808. && b < 9223372036854775808. && (double) (int64_t) b == b && (int64_t) b == x.i;
        } else {
            real(x, "x");
            want = (tx == F32 ? (double) x.h : x.k) == b;
        }
    } else if (kind == 2) {
        if (tx < RAT) number(x, "x");
        else exact(x, "x");
        exact(y, "y");
        Q a = x.rat(), b = y.rat();
        want = a == 0 ? b == 0 : (x.mono == y.mono && a == b);
    } else {
        if (tx < F32) {
            sym_assume(false);
            return;
        }
        static const double odd[] = {INFINITY, -INFINITY, NAN, -0.0};
        x.d = odd[sym_choice("odd", 0, 3)];
        if (tx < RAT) x.put();
        else x.q = 0, x.put();
        exact(y, "y");
        want = (tx >= RAT || x.d == 0) && y.rat() == 0;
    }
    Scalar l = sym_choice("lhs ref", 0, 1) ? x.cref() : x.value(), r = sym_choice("rhs ref", 0, 1) ? y.cref() : y.value();
    bool got = l == r;
    sym_assert(got == want, "equality");
    sym_assert((r == l) == got, "symmetric");
    sym_assert((l != r) == !got, "not equal");
}
static void unary()
{
    int t = (int) sym_choice("tx", I8, POLY), ref = (int) sym_choice("ref", 0, 1);
    Num x(t);
    if (t < F32) x.i = ranged("x", t);
    else if (t < RAT) x.d = sym_grid("x", -64, 64, 3);
    else exact(x, "x");
    x.put();
    int what = (int) sym_choice("what", 0, 3);
    Scalar s = ref ? x.cref() : x.value();
    if (what == 0) {
        bool zero = t < F32 ? x.i == 0 : t < RAT ? x.d == 0 : x.q == 0;
        sym_assert(s.is_zero() == zero, "zero");
        sym_assert((s == Scalar()) == zero && (Scalar() == s) == zero, "zero");
        if (t == F32) sym_assert(Scalar(-0.f).is_zero() && Scalar(-0.f) == Scalar(0.f), "zero");
        if (t == F64) sym_assert(Scalar(-0.).is_zero() && Scalar(-0.) == Scalar(0), "zero");
    } else if (what == 1) {
        Scalar m = -s;
        if (t >= RAT) sym_eq(getq(m, x.mono), Q(-x.q), "negation");
        else if (t >= F32) sym_assert((m.is_zero() ? 0 : getd(m, typ(m))) == -x.d, "negation");
        else if (fits(-x.i, t)) sym_assert((m.is_zero() ? 0 : geti(m.pointer(), typ(m))) == -x.i, "negation");
    } else if (what == 2) {
        // casts of what the target holds exactly
        if (t < F32) {
            if (fits(x.i, I8)) sym_assert(scalar_cast<int8_t>(s) == x.i, "cast");
            if (fits(x.i, I32)) sym_assert(scalar_cast<int32_t>(s) == x.i, "cast");
            if (fits(x.i, U32)) sym_assert(scalar_cast<uint32_t>(s) == x.i, "cast");
            sym_assert(scalar_cast<int64_t>(s) == x.i && scalar_cast<double>(s) == (double) x.i, "cast");
        } else if (t < RAT) {
            sym_assert(scalar_cast<double>(s) == x.d && scalar_cast<float>(s) == (float) x.d, "cast");
            sym_assert(scalar_cast<int32_t>(s) == (int32_t) x.d, "cast");
        } else if (t == RAT) {
            sym_eq(scalar_cast<Q>(s), x.q, "cast");
            sym_eq(coef(scalar_cast<Poly>(s), 0), x.q, "cast");
        } else {
            sym_eq(coef(scalar_cast<Poly>(s), x.mono), x.q, "cast");
            if (x.mono == 0) sym_eq(scalar_cast<Q>(s), x.q, "cast");
            else sym_assert(throws([&] { scalar_cast<Q>(s); }) && throws([&] { scalar_cast<double>(s); }), "cast");
        }
    } else {
        // a copy has nothing in common with the original; assignment to
        // something with a type converts
        Scalar c(s), e(c);
        Scalar f(3.0);
        c += Scalar(1);
        auto same = [&](const Scalar& z, const char* l) {
            if (t < F32) sym_assert((z.fast_is_zero() ? 0 : geti(z.pointer(), typ(z))) == x.i, l);
            else if (t < RAT) sym_assert((z.fast_is_zero() ? 0 : getd(z, typ(z))) == x.d, l);
            else sym_eq(getq(z, x.mono), x.q, l);
        };
        same(s, "copies are independent");
        same(e, "copies are independent");
        if (t < RAT) {
            f = s;
            sym_assert(typ(f) == F64 && f.as_type<double>() == x.real(), "assignment keeps the type");
            Scalar g(Q(7)), h(Q(7));
            g = Scalar(3);
            sym_assert(typ(g) == RAT, "assignment keeps the type");
            sym_eq(g.as_type<Q>(), Q(3), "assignment keeps the type");
            h = 0.5;
            sym_eq(h.as_type<Q>(), Q(1) / 2, "assignment keeps the type");
        } else {
            Scalar g(Poly(Q(5)));
            g = s;
            sym_assert(typ(g) == POLY, "assignment keeps the type");
            sym_eq(coef(g.as_type<Poly>(), x.mono), x.q, "assignment keeps the type");
            Scalar m(std::move(e)), n;
            n = std::move(m);
            same(n, "copies are independent");
        }
    }
}
static void nulls()
{
    int t = (int) sym_choice("tx", I8, POLY), op = (int) sym_choice("op", 0, 2), left = (int) sym_choice("left", 0, 1);
    Num x(t);
    if (t < F32) x.i = sym_int("x", sgn(t) ? -100 : 0, 100);
    else if (t < RAT) x.d = sym_grid("x", -64, 64, 3);
    else exact(x, "x");
    x.put();
    Scalar s = sym_choice("ref", 0, 1) ? x.cref() : x.value(), z;
    Scalar r = left ? apply(op, z, s) : apply(op, s, z);
    int k = op == 2 ? 0 : op == 1 && left ? -1 : 1;
    if (t >= RAT) sym_eq(getq(r, x.mono), Q(k * x.q), "null operand");
    else if (t >= F32) sym_assert((r.fast_is_zero() ? 0 : getd(r, typ(r))) == k * x.d, "null operand");
    else if (fits(k * x.i, t)) sym_assert((r.fast_is_zero() ? 0 : geti(r.pointer(), typ(r))) == k * x.i, "null operand");
}
static void quotients()
{
    int tx = (int) sym_choice("tx", I8, POLY), ty = (int) sym_choice("ty", I8, POLY), form = (int) sym_choice("form", 0, 3);
    Num x(tx), y(ty);
    static const double pw[] = {0, 1, 2, 0.5, -4};
    if (tx < RAT && ty < RAT) {
        if (tx < F32) x.i = sym_int("x", sgn(tx) ? -100 : 0, 100);
        else x.d = sym_grid("x", -64, 64, 3);
        double v = pw[sym_choice("y", 0, ty >= F32 ? 4 : 2)];
        y.d = v;
        y.i = (int64_t) v;
        x.put();
        y.put();
    } else {
        tx < RAT ? number(x, "x") : exact(x, "x");
        ty < RAT ? number(y, "y") : exact(y, "y");
    }
    bool yz = ty < F32 ? y.i == 0 : ty < RAT ? y.d == 0 : y.q == 0;
    if (yz) {
        sym_assert(throws([&] { run(form, 3, x, y); }), "division by zero");
        if (tx < F32) sym_assert(geti(x.ptr(), tx) == x.i, "unchanged by a refused operation");
        else if (tx < RAT) sym_assert((tx == F32 ? (double) x.h : x.k) == x.d, "unchanged by a refused operation");
        return;
    }
    // quotients of integers are left to the integer types, references to
    // integers cannot hold the quotient
    if (tx < F32 && (ty < F32 || form == 2)) {
        sym_assume(false);
        return;
    }
    if (form == 2 && (tx < RAT && ty >= RAT || (tx == RAT && ty == POLY))) {
        sym_assume(false);
        return;
    }
    double xr = x.real(), yr = y.real();
    Q a = tx < RAT && ty < RAT ? Q(0) : x.rat();// before it is divided in place
    Res r{Scalar(), 0, false};
    bool refused = false;
    try {
        r = run(form, 3, x, y, sym_tier() || tx >= RAT || ty >= RAT ? -1 : form & 1);
    } catch (std::exception&) {
        refused = true;
    }
    if (refused) {
        // only polynomials may be refused
        sym_assert(tx == POLY || ty == POLY, "quotient");
        return;
    }
    sym_assert(!(ty == POLY && y.mono), "quotient");
    if (tx < RAT && ty < RAT) sym_assert((r.s.fast_is_zero() ? 0 : r.ref ? (tx == F32 ? (double) x.h : x.k) : getd(r.s, r.t)) == xr / yr, "quotient");
    else {
        Q got = r.ref ? (tx == RAT ? x.q : coef(x.p, x.mono)) : getq(r.s, x.mono);
        sym_eq(got * y.rat(), a, "quotient");
    }
}
void sym_main()
{
    symq_policy(4, 2, 1);
    switch (sym_choice("part", 0, 7)) {
        case 0: return ints();
        case 1: return reals();
        case 2: return rationals();
        case 3: return selfops();
        case 4: return compare();
        case 5: return unary();
        case 6: return nulls();
        case 7: return quotients();
    }
}
