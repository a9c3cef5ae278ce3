// Arrays of scalars, with or without keys, and streams of them: what is put
// in is what is read back, whoever owns the memory.
#include "symq.h"
#include <memory>
#include <roughpy/scalars/key_scalar_array.h>
#include <roughpy/scalars/key_scalar_stream.h>
#include <roughpy/scalars/scalar.h>
#include <roughpy/scalars/scalar_array.h>
#include <roughpy/scalars/scalar_stream.h>
#include <roughpy/scalars/scalar_type.h>
#include <roughpy/scalars/scalar_types.h>
#include <vector>
using namespace rpy;
using namespace rpy::scalars;
const char* const sym_labels[] = {"size", "element", "type", "throws", "write", "others unchanged", "source unchanged", "copy", "move", "copy assigned", "move assigned", "assigned copy is independent",
                                  "self assignment", "slice", "borrow", "convert", "convert size", "keys", "keys kept", "assign keeps keys", "row", "row keys", "stream copy", "stream move", "stream assign", "fresh array is zero", "old target unchanged",
                                  nullptr};
void sym_setup() {}
enum { I32, I64, F32, F64, RAT, NT };
template <class F>
static bool throws(F f)
{
    try {
        f();
    } catch (std::exception&) {
        return true;
    }
    return false;
}
static devices::TypeInfo info(int t)
{
    switch (t) {
        case I32: return devices::type_info<int32_t>();
        case I64: return devices::type_info<int64_t>();
        case F32: return devices::type_info<float>();
        case F64: return devices::type_info<double>();
        default: return devices::type_info<rational_scalar_type>();
    }
}
static const ScalarType* tp(int t)
{
    switch (t) {
        case F32: return *scalar_type_of<float>();
        case F64: return *scalar_type_of<double>();
        default: return *scalar_type_of<Q>();
    }
}
struct Val {
    double d = 0;
    Q q;
};
static bool g_plain = false;// no symbolic machine numbers: they will become rationals
static int g_n = 0;
static Val val(int t)
{
    Val v;
    std::string n = "x" + std::to_string(g_n++);
    if (t == RAT) v.q = sym_rat(n.c_str());
    else if (g_plain) {
        v.d = 3 + 7 * g_n;
        v.q = Q((long) v.d);
    } else if (t <= I64) v.d = (double) sym_int(n.c_str(), -1000, 1000);
    else v.d = sym_grid(n.c_str(), -64, 64, 2);
    return v;
}
// memory holding values of one type
struct Mem {
    int t;
    std::vector<Val> v;
    std::vector<int32_t> a;
    std::vector<int64_t> b;
    std::vector<float> c;
    std::vector<double> d;
    std::vector<Q> e;
    Mem(int ty, int n) : t(ty)
    {
        for (int i = 0; i < n; ++i) {
            v.push_back(val(t));
            put(v.back());
        }
    }
    void put(const Val& x)
    {
        switch (t) {
            case I32: a.push_back((int32_t) x.d); break;
            case I64: b.push_back((int64_t) x.d); break;
            case F32: c.push_back((float) x.d); break;
            case F64: d.push_back(x.d); break;
            default: e.push_back(x.q);
        }
    }
    void* ptr() { return t == I32 ? (void*) a.data() : t == I64 ? (void*) b.data() : t == F32 ? (void*) c.data() : t == F64 ? (void*) d.data() : (void*) e.data(); }
};
static Scalar sc(int t, const Val& v)
{
    switch (t) {
        case I32: return Scalar((int32_t) v.d);
        case I64: return Scalar((int64_t) v.d);
        case F32: return Scalar((float) v.d);
        case F64: return Scalar(v.d);
        default: return Scalar(v.q);
    }
}
static void same(const void* p, int t, const Val& v, const char* label)
{
    switch (t) {
        case I32: sym_assert(*(const int32_t*) p == v.d, label); break;
        case I64: sym_assert((double) *(const int64_t*) p == v.d, label); break;
        case F32: sym_assert(*(const float*) p == v.d, label); break;
        case F64: sym_assert(*(const double*) p == v.d, label); break;
        default: sym_eq(*(const Q*) p, v.q, label);
    }
}
// the array holds exactly these values
static void holds(const ScalarArray& a, int t, const std::vector<Val>& v, const char* label)
{
    sym_assert(a.size() == v.size() && a.empty() == v.empty(), label);
    if (v.empty() || a.size() != v.size()) return;
    sym_assert(a.type_info() == info(t), "type");
    if (!(a.type_info() == info(t))) return;
    for (size_t i = 0; i < v.size(); ++i) {
        const Scalar s = a[i];
        same(s.pointer(), t, v[i], label);
    }
}
enum { OWNED, CONST_PTR, MUT_PTR, CONST_INFO, MUT_INFO, NK };
// an array of one of the kinds
static ScalarArray make(int kind, Mem& m)
{
    int t = m.t;
    dimn_t n = m.v.size();
    switch (kind) {
        case OWNED: {
            ScalarArray r(tp(t), n);
            for (dimn_t i = 0; i < n; ++i) r[i] = sc(t, m.v[i]);
            return r;
        }
        case CONST_PTR: return ScalarArray(tp(t), (const void*) m.ptr(), n);
        case MUT_PTR: return ScalarArray(tp(t), m.ptr(), n);
        case CONST_INFO: return ScalarArray(info(t), (const void*) m.ptr(), n);
        default: return ScalarArray(info(t), m.ptr(), n);
    }
}
static bool isconst(int k) { return k == CONST_PTR || k == CONST_INFO; }
static bool valid(int kind, int t) { return kind >= CONST_INFO || t >= F32; }
void sym_main()
{
    symq_policy(0, 0, 0);
    g_n = 0;
    g_plain = false;
    const int T = sym_tier();
    const int MAXN = T ? 4 : 3;
    int what = (int) sym_choice("what", 0, 8);
    if (what == 6) g_plain = true;
    int t = (int) sym_choice("type", what == 7 || what == 8 ? F64 : 0, NT - 1);
    int kind = (int) sym_choice("kind", 0, NK - 1);
    if (!valid(kind, t)) return;
    int n = what == 8 ? 1 : (int) sym_choice("size", 1, what == 2 || what == 3 || what == 7 ? MAXN - 1 : MAXN);
    Mem m(t, n);
    ScalarArray A = make(kind, m);
    if (what == 0) {
        holds(A, t, m.v, "element");
        sym_assert(A.is_owning() == (kind == OWNED) && A.is_const() == isconst(kind) && !A.is_null(), "size");
        sym_assert(throws([&] { const ScalarArray& c = A; Scalar s = c[n]; }) && throws([&] { const ScalarArray& c = A; Scalar s = c[n + 1]; }), "throws");
        int i = (int) sym_choice("at", 0, n - 1);
        Val w = val(t);
        bool refused = throws([&] { A[i] = sc(t, w); });
        sym_assert(refused == isconst(kind), "throws");
        auto e = m.v;
        if (!refused) {
            sym_assert(throws([&] { A[n] = sc(t, w); }), "throws");
            e[i] = w;
            same(A.pointer(), t, e[0], "write");
            sym_assert(A.mut_pointer() == A.pointer(), "write");
        } else
            sym_assert(throws([&] { A.mut_pointer(); }), "throws");
        holds(A, t, e, "others unchanged");
        // through slices of the elements
        if (t == RAT) {
            auto s = A.as_slice<Q>();
            sym_assert(s.size() == (dimn_t) n && s.data() == A.pointer(), "size");
        }
        ScalarArray null;
        sym_assert(null.is_null() && null.empty() && null.size() == 0, "size");
        if (t >= F32) {
            ScalarArray z(tp(t), n);
            if (t == RAT) holds(z, t, std::vector<Val>(n), "fresh array is zero");
            sym_assert(z.is_owning() && z.capacity() == n * info(t).bytes, "size");
            ScalarArray none(tp(t));
            sym_assert(none.empty() && none.type_info() == info(t), "size");
        } else {
            ScalarArray z(info(t), n);
            sym_assert(z.is_owning() && z.size() == (dimn_t) n && z.type_info() == info(t), "size");
            for (int k = 0; k < n; ++k) z[k] = sc(t, m.v[k]);
            holds(z, t, m.v, "element");
            ScalarArray none(info(t));
            sym_assert(none.empty() && none.type_info() == info(t), "size");
        }
    }
    if (what == 1) {
        ScalarArray B(A);
        holds(B, t, m.v, "copy");
        holds(A, t, m.v, "source unchanged");
        {
            ScalarArray C(std::move(A));
            holds(C, t, m.v, "move");
            ScalarArray D(C);
        }
        holds(B, t, m.v, "copy");
    }
    if (what == 2 || what == 3) {
        // assign over a target of any kind; 5: null
        int tk = (int) sym_choice("target", 0, NK);
        int tt = tk == NK ? t : T ? (int) sym_choice("target_type", 0, NT - 1)
                                : sym_choice("target_other_type", 0, 1) ? (t + 2) % NT
                                                                        : t;
        if (tk != NK && !valid(tk, tt)) return;
        int tn = tk == NK ? 1 : T ? (int) sym_choice("target_size", 1, 2) : 2;
        Mem o(tt, tn);
        ScalarArray B;
        if (tk != NK) B = make(tk, o);
        if (what == 2) {
            // types given by description only can be copied if they are plain
            bool plain = t != RAT || kind < CONST_INFO;
            bool refused = throws([&] { B = A; });
            sym_assert(refused == !plain, "throws");
            holds(A, t, m.v, "source unchanged");
            if (refused) return;
            holds(B, t, m.v, "copy assigned");
            holds(A, t, m.v, "source unchanged");
            // an owned copy: writing to either leaves the other alone
            Val w = val(t);
            bool wrote = !throws([&] { B[0] = sc(t, w); });
            if (wrote) {
                holds(A, t, m.v, "assigned copy is independent");
                auto e = m.v;
                e[0] = w;
                holds(B, t, e, "write");
            }
        } else {
            B = std::move(A);
            holds(B, t, m.v, "move assigned");
            sym_assert(B.is_owning() == (kind == OWNED) && B.is_const() == isconst(kind), "move assigned");
        }
        if (tk != OWNED && tk != NK)
            for (int i = 0; i < tn; ++i) same((char*) o.ptr() + i * info(tt).bytes, tt, o.v[i], "old target unchanged");
    }
    if (what == 4) {
        ScalarArray& alias = A;
        if (sym_choice("move", 0, 1)) A = std::move(alias);
        else A = alias;
        holds(A, t, m.v, "self assignment");
        // a null array
        ScalarArray null, other = make(kind, m);
        other = std::move(null);
        sym_assert(other.is_null() && other.size() == 0, "move assigned");
        ScalarArray null2, third = make(kind, m);
        third = null2;
        sym_assert(third.is_null(), "copy assigned");
    }
    if (what == 5) {
        int b = (int) sym_choice("begin", 0, n - 1), e = (int) sym_choice("end", b + 1, n + 1);
        bool mut = sym_choice("mutable", 0, 1);
        ScalarArray S;
        bool refused = throws([&] {
            if (mut) S = A[SliceIndex{(dimn_t) b, (dimn_t) e}];
            else {
                const ScalarArray& c = A;
                S = c[SliceIndex{(dimn_t) b, (dimn_t) e}];
            }
        });
        sym_assert(refused == (e > n || (mut && isconst(kind))), "throws");
        if (refused) return;
        std::vector<Val> part(m.v.begin() + b, m.v.begin() + e);
        holds(S, t, part, "slice");
        sym_assert(!S.is_owning() && S.is_const() == !mut, "slice");
        const ScalarArray bb = A.borrow();
        holds(bb, t, m.v, "borrow");
        sym_assert(bb.is_const() && bb.pointer() == A.pointer(), "borrow");
        sym_assert(throws([&] { A.borrow_mut(); }) == isconst(kind), "throws");
        if (!isconst(kind)) {
            auto bm = A.borrow_mut();
            Val w = val(t);
            if (mut) S[0] = sc(t, w);
            else bm[b] = sc(t, w);
            auto all = m.v;
            all[b] = w;
            holds(A, t, all, "write");
            holds(bb, t, all, "borrow");
            holds(bm, t, all, "borrow");
        } else
            sym_assert(throws([&] { S[0] = sc(t, m.v[0]); }), "throws");
    }
    if (what == 6) {
        // conversion into an array of another type
        int tt = (int) sym_choice("to", F32, NT - 1);
        if (t == RAT && tt != RAT) return;// rounding: see the scalar casts
        int tn = (int) sym_choice("target_size", 0, MAXN);
        ScalarArray B;
        if (tn > 0) B = tp(tt)->allocate(tn);
        bool refused = throws([&] { tp(tt)->convert_copy(B, A); });
        if (!refused) {
            sym_assert(B.size() >= (dimn_t) n, "convert size");
            sym_assert(B.type_info() == info(tt), "type");
            auto e = m.v;
            const ScalarArray& c = B;
            for (int i = 0; i < n && i < (int) B.size(); ++i) {
                const Scalar s = c[i];
                same(s.pointer(), tt, e[i], "convert");
            }
            // beyond what was copied nothing appears
            for (int i = n; tt == RAT && i < (int) B.size(); ++i) {
                const Scalar s = c[i];
                same(s.pointer(), tt, Val{}, "others unchanged");
            }
            holds(A, t, m.v, "source unchanged");
        } else
            sym_assert(tn < n, "throws");
    }
    if (what == 7) {
        if (t == RAT && kind >= CONST_INFO) return;// copies of those are refused, see above
        // with keys: 0 none, 1 borrowed, 2 owned
        int kk = (int) sym_choice("keys", 0, 2);
        std::vector<key_type> ks;
        for (int i = 0; i < n; ++i) ks.push_back((key_type) sym_int(("key" + std::to_string(i)).c_str(), 0, 1000));
        auto mk = [&](Mem& mm, int k) {
            if (kk == 1) return KeyScalarArray(make(k, mm), ks.data());
            KeyScalarArray r(make(k, mm));
            if (kk == 2) {
                r.allocate_keys();
                for (int i = 0; i < n; ++i) r.keys()[i] = ks[i];
            }
            return r;
        };
        auto hk = [&](const KeyScalarArray& a, const char* label) {
            holds(a, t, m.v, label);
            sym_assert(a.has_keys() == (kk > 0), label);
            if (kk && a.has_keys() && a.size() == (dimn_t) n)
                for (int i = 0; i < n; ++i) sym_assert(a.keys()[i] == ks[i], label);
        };
        KeyScalarArray K = mk(m, kind);
        hk(K, "keys");
        int op = (int) sym_choice("op", 0, 6);
        Mem o(t, 1);
        static const key_type other[] = {7};
        auto target = [&] {
            int tk = (int) sym_choice("target", 0, 3);
            if (tk == 0) return KeyScalarArray();
            if (tk == 1) return KeyScalarArray(make(MUT_PTR, o), other);
            KeyScalarArray r(make(tk == 2 ? OWNED : CONST_PTR, o));
            r.allocate_keys();
            r.keys()[0] = 5;
            return r;
        };
        if (op == 0) {
            KeyScalarArray C(K);
            hk(C, "keys kept");
            hk(K, "source unchanged");
        }
        if (op == 1) {
            KeyScalarArray C(std::move(K));
            hk(C, "keys kept");
        }
        if (op == 2) {
            KeyScalarArray C = target();
            C = K;
            hk(C, "assign keeps keys");
            hk(K, "source unchanged");
        }
        if (op == 3) {
            KeyScalarArray C = target();
            C = std::move(K);
            hk(C, "assign keeps keys");
        }
        if (op == 4) {
            // elements without keys replace everything
            KeyScalarArray C = target();
            if (sym_choice("move", 0, 1)) C = make(kind, m);
            else C = A;
            holds(C, t, m.v, "copy assigned");
            sym_assert(!C.has_keys(), "assign keeps keys");
        }
        if (op == 5) {
            KeyScalarArray C = std::move(K).copy_or_move();
            hk(C, "keys kept");
        }
        if (op == 6) {
            KeyScalarArray& alias = K;
            K = alias;
            hk(K, "self assignment");
            // keys of its own
            K.allocate_keys();
            for (int i = 0; i < n; ++i) K.keys()[i] = ks[i] + 1;
            holds(K, t, m.v, "keys");
            for (int i = 0; i < n; ++i) sym_assert(K.has_keys() && K.keys()[i] == ks[i] + 1, "keys");
        }
    }
    if (what == 8) {
        if (t == RAT && kind >= CONST_INFO) return;
        // a stream: rows of one block, or rows pushed one by one with or without keys
        std::vector<std::vector<Val>> rows;
        std::vector<int> keyed;
        static const key_type kk[] = {11, 12, 13, 14};
        KeyScalarStream S(tp(t));
        std::vector<std::unique_ptr<Mem>> keep;
        int nr = (int) sym_choice("rows", 1, T ? 3 : 2);
        for (int r = 0; r < nr; ++r) {
            keep.push_back(std::make_unique<Mem>(t, (int) sym_choice(("cols" + std::to_string(r)).c_str(), 1, 2)));
            keyed.push_back((int) sym_choice(("keyed" + std::to_string(r)).c_str(), 0, 1));
            rows.push_back(keep.back()->v);
            if (r % 2) S.push_back(make(kind, *keep.back()), keyed.back() ? kk + r : nullptr);
            else {
                ScalarArray row = make(kind, *keep.back());
                S.push_back(row, keyed.back() ? kk + r : nullptr);
            }
        }
        auto check = [&](const KeyScalarStream& s, const char* label) {
            sym_assert(s.row_count() == (dimn_t) nr && s.type() == tp(t), label);
            if (s.row_count() != (dimn_t) nr) return;
            dimn_t mx = 0;
            for (int r = 0; r < nr; ++r) {
                sym_assert(s.col_count(r) == rows[r].size(), label);
                mx = std::max<dimn_t>(mx, rows[r].size());
                KeyScalarArray row = s[r];
                holds(row, t, rows[r], label);
                sym_assert(row.has_keys() == (bool) keyed[r], "row keys");
                const KeyScalarArray& crow = row;
                if (keyed[r] && row.has_keys()) sym_assert(crow.keys() == kk + r, "row keys");
                const ScalarStream& base = s;
                for (size_t c = 0; c < rows[r].size(); ++c) {
                    const Scalar x = base[{(dimn_t) r, (dimn_t) c}];
                    same(x.pointer(), t, rows[r][c], label);
                }
            }
            sym_assert(s.max_row_size() == mx, label);
        };
        check(S, "row");
        int op = (int) sym_choice("op", 0, 4);
        KeyScalarStream other(tp(t));
        Mem o(t, 2);
        for (int i = 0, k = op == 2 || op == 3 ? (int) sym_choice("other_rows", 0, 1) * 4 : 0; i < k; ++i) other.push_back(make(MUT_PTR, o), i == 0 ? kk : nullptr);
        if (op == 0) {
            KeyScalarStream C(S);
            check(C, "stream copy");
        }
        if (op == 1) {
            KeyScalarStream C(std::move(S));
            check(C, "stream move");
            return;
        }
        if (op == 2) {
            other = S;
            check(other, "stream assign");
        }
        if (op == 3) {
            other = std::move(S);
            check(other, "stream assign");
            return;
        }
        if (op == 4) {
            KeyScalarStream& alias = S;
            S = alias;
            if (kind != OWNED && !isconst(kind)) {
                // rows of a block
                Mem blk(t, 6);
                int cols = (int) sym_choice("cols", 1, 3);
                ScalarStream B(make(kind, blk), {(dimn_t) (6 / cols), (dimn_t) cols});
                sym_assert(B.row_count() == (dimn_t) (6 / cols) && B.type() == tp(t), "row");
                for (int r = 0; r < 6 / cols; ++r) holds(B[r], t, std::vector<Val>(blk.v.begin() + r * cols, blk.v.begin() + (r + 1) * cols), "row");
                ScalarStream D;
                D = B;
                for (int r = 0; r < 6 / cols; ++r) holds(D[r], t, std::vector<Val>(blk.v.begin() + r * cols, blk.v.begin() + (r + 1) * cols), "stream assign");
            }
        }
        check(S, "row");
    }
}
