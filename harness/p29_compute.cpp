// The dense kernels of roughpy_compute, for every shape of the operands, with
// arbitrary rational coefficients.  Buffers are reached through iterators that
// refuse any access outside the part of the buffer that belongs to the view.
#include "words.h"
#include <cassert>
#include <memory>
#include <roughpy_compute/common/sparse_matrix.hpp>
#include <roughpy_compute/dense/basic/apply_sparse_linear_map.hpp>
#include <roughpy_compute/dense/basic/free_tensor_adjoint_left_mul.hpp>
#include <roughpy_compute/dense/basic/free_tensor_antipode.hpp>
#include <roughpy_compute/dense/basic/free_tensor_fma.hpp>
#include <roughpy_compute/dense/basic/free_tensor_inplace_mul.hpp>
#include <roughpy_compute/dense/basic/shuffle_tensor_adjoint_mul.hpp>
#include <roughpy_compute/dense/basic/shuffle_tensor_product.hpp>
#include <roughpy_compute/dense/basic/vector_addition.hpp>
#include <roughpy_compute/dense/basic/vector_inplace_addition.hpp>
#include <roughpy_compute/dense/basic/vector_inplace_scalar_multiply.hpp>
#include <roughpy_compute/dense/basic/vector_scalar_multiply.hpp>
#include <roughpy_compute/dense/intermediate/free_tensor_exp.hpp>
#include <roughpy_compute/dense/intermediate/free_tensor_fmexp.hpp>
#include <roughpy_compute/dense/intermediate/free_tensor_log.hpp>
namespace rc = rpy::compute;
const char* const sym_labels[] = {"ft_fma", "ft_inplace_mul", "ft_antipode", "ft_adj_lmul", "st_fma", "st_adj_mul", "ft_exp", "ft_log", "ft_fmexp", "vector_addition",
                                  "vector_inplace_addition", "vector_scalar_multiply", "vector_inplace_scalar_multiply", "apply_sparse_linear_map", nullptr};
// A scalar that is a literal type, as the kernels need: a small constant, or a
// pointer to an immutable rational.
static std::vector<std::unique_ptr<Q>>& pool()
{
    static auto* p = new std::vector<std::unique_ptr<Q>>;
    return *p;
}
struct E {
    long c = 0;
    const Q* p = nullptr;
    constexpr E() = default;
    constexpr E(int v) : c(v) {}
    constexpr E(long v) : c(v) {}
    E(const Q& q)
    {
        pool().push_back(std::make_unique<Q>(q));
        p = pool().back().get();
    }
    Q q() const { return p ? *p : Q(c); }
};
static E operator+(const E& a, const E& b) { return E(Q(a.q() + b.q())); }
static E operator-(const E& a, const E& b) { return E(Q(a.q() - b.q())); }
static E operator*(const E& a, const E& b) { return E(Q(a.q() * b.q())); }
static E operator/(const E& a, const E& b) { return E(Q(a.q() / b.q())); }
static E operator-(const E& a) { return E(Q(-a.q())); }
static E& operator+=(E& a, const E& b) { return a = a + b; }
static E& operator-=(E& a, const E& b) { return a = a - b; }
static E& operator*=(E& a, const E& b) { return a = a * b; }
static const char* LABEL;
struct Buf {
    std::vector<E> v;
    long off = 0;// logical position of v[0]
    E bad;
};
template <bool C>
struct It {
    using iterator_category = std::random_access_iterator_tag;
    using value_type = E;
    using difference_type = std::ptrdiff_t;
    using reference = std::conditional_t<C, const E&, E&>;
    using pointer = std::conditional_t<C, const E*, E*>;
    Buf* b = nullptr;
    difference_type i = 0;
    reference at(difference_type k) const
    {
        bool in = k >= b->off && k - b->off < (long) b->v.size();
        if (!in) {
            sym_assert(false, LABEL);
            return b->bad;
        }
        return b->v[k - b->off];
    }
    reference operator*() const { return at(i); }
    pointer operator->() const { return &at(i); }
    reference operator[](difference_type n) const { return at(i + n); }
    It& operator++() { return ++i, *this; }
    It& operator--() { return --i, *this; }
    It operator++(int) { return {b, i++}; }
    It operator--(int) { return {b, i--}; }
    It& operator+=(difference_type n) { return i += n, *this; }
    It& operator-=(difference_type n) { return i -= n, *this; }
    It operator+(difference_type n) const { return {b, i + n}; }
    It operator-(difference_type n) const { return {b, i - n}; }
    difference_type operator-(const It& o) const { return i - o.i; }
    bool operator==(const It& o) const { return i == o.i; }
    bool operator!=(const It& o) const { return i != o.i; }
    bool operator<(const It& o) const { return i < o.i; }
    bool operator<=(const It& o) const { return i <= o.i; }
    bool operator>(const It& o) const { return i > o.i; }
    bool operator>=(const It& o) const { return i >= o.i; }
};
// an operand: its degrees, its coefficients by word and the buffer behind it
struct Op {
    int lo, hi, stride;
    Vec v;
    Buf b;
    std::vector<long> db;
    // a strided operand has other data between its coefficients
    void put(const Words& A)
    {
        b = Buf{};
        b.off = db[lo] * stride;
        b.v.assign((db[hi + 1] - db[lo]) * stride - (stride - 1), E(77));
        for (long i = db[lo]; i < db[hi + 1]; ++i) b.v[(i - db[lo]) * stride] = E(v[i]);
    }
    bool has(long i) const { return i >= db[lo] && i < db[hi + 1]; }
    Vec got(const Words& A)
    {
        Vec r = A.zero();
        for (long i = db[lo]; i < db[hi + 1]; ++i) r[i] = b.v[(i - db[lo]) * stride].q();
        return r;
    }
    // the values between the coefficients are still there
    void clean() const
    {
        for (size_t k = 0; k < b.v.size(); ++k)
            if (k % stride) sym_assert(!b.v[k].p && b.v[k].c == 77, LABEL);
    }
};
static std::vector<std::ptrdiff_t> DB;
static Op mk(const Words& A, const char* name, int lo, int hi, int stride)
{
    Op o{lo, hi, stride};
    o.db.assign(DB.begin(), DB.end());
    o.v = A.zero();
    for (long i = DB[lo]; i < DB[hi + 1]; ++i) o.v[i] = sym_rat((std::string(name) + std::to_string(i)).c_str(), false);
    o.put(A);
    return o;
}
template <bool C, typename F>
static void view(const Words& A, Op& o, F&& f)
{
    rc::TensorBasis tb{{DB.data(), A.w, A.d}};
    if (o.stride == 1)
        f(rc::DenseTensorView<It<C>>(It<C>{&o.b, 0}, tb, o.lo, o.hi));
    else
        f(rc::DenseTensorView<rc::StridedDenseIterator<It<C>>>(rc::StridedDenseIterator<It<C>>(It<C>{&o.b, 0}, o.stride), tb, o.lo, o.hi));
}
template <typename F>
static void views(const Words& A, Op& out, Op& x, F&& f)
{
    view<false>(A, out, [&](auto o) { view<true>(A, x, [&](auto a) { f(o, a); }); });
}
template <typename F>
static void views(const Words& A, Op& out, Op& x, Op& y, F&& f)
{
    views(A, out, x, [&](auto o, auto a) { view<true>(A, y, [&](auto b) { f(o, a, b); }); });
}
static void result(const Words& A, Op& o, const Vec& want)
{
    Vec g = o.got(A);
    for (int i = 0; i < A.n(); ++i)
        if (o.has(i)) sym_eq(g[i], want[i], LABEL);
    o.clean();
}
static void same(const Words& A, Op& o)
{
    Vec g = o.got(A);
    for (int i = 0; i < A.n(); ++i)
        if (o.has(i)) sym_eq(g[i], o.v[i], LABEL);
    o.clean();
}
static Vec adjl(const Words& A, const Vec& m, const Vec& a)
{
    Vec r = A.zero();
    for (int k = 0; k < A.n(); ++k)
        for (size_t l = 0; l <= A.words[k].size(); ++l) {
            Word u(A.words[k].begin(), A.words[k].begin() + l), v(A.words[k].begin() + l, A.words[k].end());
            r[A.at.at(v)] += m[A.at.at(u)] * a[k];
        }
    return r;
}
// <x, adj(op) arg> = <op sh x, arg>
static Vec adjs(const Words& A, const Vec& m, const Vec& a)
{
    Vec r = A.zero();
    for (int i = 0; i < A.n(); ++i)
        for (int j = 0; j < A.n(); ++j) {
            if (A.deg(i) + A.deg(j) > A.d) continue;
            std::map<int, int> s;
            Word c;
            A.shuffles(A.words[i], 0, A.words[j], 0, c, s);
            for (auto& [k, x] : s) r[j] += m[i] * a[k] * x;
        }
    return r;
}
struct ByS {
    E s;
    E operator()(const E& x) const { return x * s; }
};
void sym_setup() {}
void sym_main()
{
    pool().clear();
    int T = sym_tier();
    int part = (int) sym_choice("part", 0, 13);
    LABEL = sym_labels[part];
    sym_reach(LABEL);
    static const int W[] = {2, 1, 3, 2}, D[] = {3, 4, 2, 4};
    int sz = (int) sym_choice("size", 0, T ? 3 : 2);
    Words A(W[sz], D[sz]);
    DB.assign(1, 0);
    for (int d = 0, n = 1, t = 0; d <= A.d; ++d, n *= A.w) DB.push_back(t += n);
    int stride = (int) sym_choice("stride", 1, 2), which = stride == 1 ? 0 : (int) sym_choice("strided", 1, 3);
    auto deg = [&](const char* nm, bool low, int i) {
        int hi = (int) sym_choice((std::string(nm) + "_max").c_str(), 0, A.d);
        int lo = low ? (int) sym_choice((std::string(nm) + "_min").c_str(), 0, T ? hi : std::min(hi, 2)) : 0;
        return mk(A, nm, lo, hi, which == 3 ? (i % 2 ? 3 : 2) : which == i + 1 ? 2 : 1);
    };
    E s(1);
    auto scaled = [&]() {
        bool op = sym_choice("op", 0, 1);
        if (op) s = E(sym_rat("s", false));
        return op;
    };
    switch (part) {
        case 0: {
            Op o = deg("o", true, 0), a = deg("a", true, 1), b = deg("b", true, 2);
            if (scaled())
                views(A, o, a, b, [&](auto x, auto y, auto z) { rc::basic::ft_fma(x, y, z, ByS{s}); });
            else
                views(A, o, a, b, [&](auto x, auto y, auto z) { rc::basic::ft_fma(x, y, z); });
            result(A, o, A.add(o.v, A.scale(A.mul(a.v, b.v), s.q())));
            same(A, a), same(A, b);
            break;
        }
        case 1: {
            Op o = deg("o", true, 0), b = deg("b", true, 1);
            if (scaled())
                views(A, o, b, [&](auto x, auto y) { rc::basic::ft_inplace_mul(x, y, ByS{s}); });
            else
                views(A, o, b, [&](auto x, auto y) { rc::basic::ft_inplace_mul(x, y); });
            result(A, o, A.scale(A.mul(o.v, b.v), s.q()));
            same(A, b);
            break;
        }
        case 2: {
            Op o = deg("o", true, 0), a = deg("a", true, 1);
            views(A, o, a, [&](auto x, auto y) { rc::basic::ft_antipode(x, y, rc::basic::BasicAntipodeConfig{}, rc::basic::DefaultSigner{}); });
            Vec w = A.zero();
            for (int i = 0; i < A.n(); ++i) {
                Word r(A.words[i].rbegin(), A.words[i].rend());
                int k = A.at.at(r);
                // degrees that only one of them has are left alone
                w[k] = a.has(i) ? (A.deg(i) % 2 ? Q(-a.v[i]) : a.v[i]) : o.v[k];
            }
            result(A, o, w);
            same(A, a);
            break;
        }
        case 3: {
            Op o = deg("o", true, 0), m = deg("m", true, 1), a = deg("a", true, 2);
            views(A, o, m, a, [&](auto x, auto y, auto z) { rc::basic::ft_adj_lmul(x, y, z); });
            result(A, o, A.add(o.v, adjl(A, m.v, a.v)));
            same(A, m), same(A, a);
            break;
        }
        case 4: {
            Op o = deg("o", false, 0), a = deg("a", false, 1), b = deg("b", false, 2);
            if (scaled())
                views(A, o, a, b, [&](auto x, auto y, auto z) { rc::basic::v1::st_fma(x, y, z, ByS{s}); });
            else
                views(A, o, a, b, [&](auto x, auto y, auto z) { rc::basic::v1::st_fma(x, y, z); });
            result(A, o, A.add(o.v, A.scale(A.shuffle(a.v, b.v), s.q())));
            same(A, a), same(A, b);
            break;
        }
        case 5: {
            Op o = deg("o", false, 0), m = deg("m", false, 1), a = deg("a", false, 2);
            views(A, o, m, a, [&](auto x, auto y, auto z) { rc::basic::st_adj_mul(x, y, z); });
            result(A, o, A.add(o.v, adjs(A, m.v, a.v)));
            same(A, m), same(A, a);
            break;
        }
        case 6: {
            Op o = deg("o", false, 0), a = deg("a", false, 1);
            views(A, o, a, [&](auto x, auto y) { rc::intermediate::ft_exp(x, y); });
            Vec x = A.noconst(a.v), r = A.one(), t = A.one();
            for (int k = 1; k <= A.d; ++k) t = A.scale(A.mul(t, x), Q(1) / k), r = A.add(r, t);
            result(A, o, r);
            same(A, a);
            break;
        }
        case 7: {
            Op o = deg("o", false, 0), a = deg("a", false, 1);
            views(A, o, a, [&](auto x, auto y) { rc::intermediate::ft_log(x, y); });
            Vec x = A.noconst(a.v), r = A.zero(), t = A.one();
            for (int k = 1; k <= A.d; ++k) t = A.mul(t, x), r = A.add(r, A.scale(t, Q(k % 2 ? 1 : -1) / k));
            result(A, o, r);
            same(A, a);
            break;
        }
        case 8: {
            Op o = deg("o", false, 0), m = deg("m", false, 1), a = deg("a", false, 2);
            views(A, o, m, a, [&](auto x, auto y, auto z) { rc::intermediate::ft_fmexp(x, y, z); });
            Vec x = A.noconst(a.v), r = m.v, t = m.v;
            for (int k = 1; k <= A.d; ++k) t = A.scale(A.mul(t, x), Q(1) / k), r = A.add(r, t);
            result(A, o, r);
            same(A, m), same(A, a);
            break;
        }
        case 9: {
            Op o = deg("o", false, 0), a = deg("a", false, 1), b = deg("b", false, 2);
            E sb(1);
            if (scaled()) {
                sb = E(sym_rat("t", false));
                views(A, o, a, b, [&](auto x, auto y, auto z) {
                    rc::basic::vector_addition((typename decltype(x)::Base&) x, (typename decltype(y)::Base&) y, (typename decltype(z)::Base&) z, ByS{s}, ByS{sb});
                });
            } else
                views(A, o, a, b, [&](auto x, auto y, auto z) {
                    rc::basic::vector_addition((typename decltype(x)::Base&) x, (typename decltype(y)::Base&) y, (typename decltype(z)::Base&) z);
                });
            // positions beyond both operands are left alone
            Vec w = A.add(A.scale(a.v, s.q()), A.scale(b.v, sb.q()));
            for (int i = 0; i < A.n(); ++i)
                if (!a.has(i) && !b.has(i)) w[i] = o.v[i];
            result(A, o, w);
            same(A, a), same(A, b);
            break;
        }
        case 10: {
            Op o = deg("o", false, 0), a = deg("a", false, 1);
            if (scaled())
                views(A, o, a, [&](auto x, auto y) { rc::basic::vector_inplace_addition((typename decltype(x)::Base&) x, (typename decltype(y)::Base&) y, ByS{s}); });
            else
                views(A, o, a, [&](auto x, auto y) { rc::basic::vector_inplace_addition((typename decltype(x)::Base&) x, (typename decltype(y)::Base&) y); });
            result(A, o, A.add(o.v, A.scale(a.v, s.q())));
            same(A, a);
            break;
        }
        case 11: {
            // only for contiguous data
            if (stride != 1) return;
            Op o = deg("o", false, 0), a = deg("a", false, 1);
            s = E(sym_rat("s", false));
            rc::TensorBasis tb{{DB.data(), A.w, A.d}};
            rc::DenseVectorView<E*, rc::TensorBasis> x(o.b.v.data(), tb, 0, o.hi);
            rc::DenseVectorView<E const*, rc::TensorBasis> y(a.b.v.data(), tb, 0, a.hi);
            rc::basic::vector_scalar_multiply(x, y, s);
            Vec w = A.scale(a.v, s.q());
            for (int i = 0; i < A.n(); ++i)
                if (!a.has(i)) w[i] = o.v[i];
            result(A, o, w);
            same(A, a);
            break;
        }
        case 12: {
            Op o = deg("o", false, 0);
            s = E(sym_rat("s", false));
            view<false>(A, o, [&](auto x) { rc::basic::vector_inplace_scalar_multiply((typename decltype(x)::Base&) x, s); });
            result(A, o, A.scale(o.v, s.q()));
            break;
        }
        case 13: {
            if (sz) return;
            // a 3 x 3 or 2 x 3 matrix with every pattern of non zeros
            int rows = (int) sym_choice("rows", 1, T ? 3 : 2), cols = (int) sym_choice("cols", 1, 3);
            bool csr = sym_choice("csr", 0, 1);
            int pat = (int) sym_choice("pattern", 0, (1 << (rows * cols)) - 1);
            std::vector<E> data;
            std::vector<std::ptrdiff_t> ind, off{0};
            std::vector<Vec> M(rows, Vec(cols));
            int n1 = csr ? rows : cols, n2 = csr ? cols : rows;
            for (int i = 0; i < n1; ++i) {
                for (int j = 0; j < n2; ++j) {
                    int r = csr ? i : j, c = csr ? j : i;
                    if (!(pat >> (r * cols + c) & 1)) continue;
                    M[r][c] = sym_rat(("m" + std::to_string(r) + std::to_string(c)).c_str(), false);
                    data.emplace_back(M[r][c]), ind.push_back(j);
                }
                off.push_back((std::ptrdiff_t) ind.size());
            }
            auto vec = [&](const char* nm, int n) {
                Vec v(n);
                for (int i = 0; i < n; ++i) v[i] = sym_rat((nm + std::to_string(i)).c_str(), false);
                return v;
            };
            Vec o = vec("o", rows), x = vec("x", cols);
            Buf bo, bx;
            int so = which == 1 || which == 3 ? 2 : 1, sx = which >= 2 ? 2 : 1;
            bo.v.assign(rows * so - (so - 1), E(77)), bx.v.assign(cols * sx - (sx - 1), E(77));
            for (int i = 0; i < rows; ++i) bo.v[i * so] = E(o[i]);
            for (int i = 0; i < cols; ++i) bx.v[i * sx] = E(x[i]);
            rc::DenseVectorFragment<rc::StridedDenseIterator<It<false>>> fo(rc::StridedDenseIterator<It<false>>(It<false>{&bo, 0}, so), rows);
            rc::DenseVectorFragment<rc::StridedDenseIterator<It<true>>> fx(rc::StridedDenseIterator<It<true>>(It<true>{&bx, 0}, sx), cols);
            using P = const std::ptrdiff_t*;
            bool sc = scaled();
            auto go = [&](auto m) {
                sym_assert(m.rows() == rows && m.cols() == cols && m.non_zeros() == (long) data.size(), LABEL);
                if (sc)
                    rc::basic::apply_sparse_linear_map(fo, m, fx, rc::ops::MultiplyBy<E>(s));
                else
                    rc::basic::apply_sparse_linear_map(fo, m, fx);
            };
            if (csr)
                go(rc::CompressedMatrix<const E*, P, P, rc::CompressedRow>(data.data(), ind.data(), data.size(), off.data(), rows, cols));
            else
                go(rc::CompressedMatrix<const E*, P, P, rc::CompressedCol>(data.data(), ind.data(), data.size(), off.data(), cols, rows));
            for (int i = 0; i < rows; ++i) {
                Q w = o[i];
                for (int j = 0; j < cols; ++j) w += s.q() * M[i][j] * x[j];
                sym_eq(bo.v[i * so].q(), w, LABEL);
            }
            break;
        }
    }
}
