// Algebra harness support: building and reading the real objects.
#pragma once
#include "words.h"
#include <roughpy/algebra/algebra_iterator.h>
#include <roughpy/algebra/context.h>
#include <roughpy/algebra/free_tensor.h>
#include <roughpy/algebra/lie.h>
#include <roughpy/algebra/shuffle_tensor.h>
#include <roughpy/scalars/key_scalar_array.h>
#include <roughpy/scalars/scalar.h>
#include <roughpy/scalars/scalar_types.h>
using namespace rpy;
using namespace rpy::algebra;
struct Alg : Words {
    context_pointer ctx;
    const scalars::ScalarType* ct;
    Alg(int w_, int d_) : Words(w_, d_)
    {
        ct = *scalars::scalar_type_of<Q>();
        ctx = get_context(w, d, ct);
    }
};

static inline Q toQ(const scalars::Scalar& s) { return scalars::scalar_cast<Q>(s); }

// data for construction: dense (all coefficients in order) or key/value pairs
static inline VectorConstructionData vcd(const Alg& A, const Vec& v, VectorType vt, bool keyed, int keyoff = 0)
{
    if (!keyed) {
        scalars::KeyScalarArray a(A.ct);
        a.allocate_scalars((idimn_t) v.size());
        for (size_t i = 0; i < v.size(); ++i) a.as_mut_slice<Q>()[i] = v[i];
        return VectorConstructionData{std::move(a), vt};
    }
    std::vector<int> idx;
    for (size_t i = 0; i < v.size(); ++i)
        if (v[i] != 0) idx.push_back((int) i);
    scalars::KeyScalarArray a(A.ct);
    if (!idx.empty()) {
        a.allocate_scalars((idimn_t) idx.size());
        a.allocate_keys((idimn_t) idx.size());
        for (size_t i = 0; i < idx.size(); ++i) {
            a.as_mut_slice<Q>()[i] = v[idx[i]];
            a.keys()[i] = (key_type) (idx[i] + keyoff);
        }
    }
    return VectorConstructionData{std::move(a), vt};
}
static inline VectorType vtype(int s) { return s ? VectorType::Sparse : VectorType::Dense; }
static inline FreeTensor mkT(const Alg& A, const Vec& v, int sparse) { return A.ctx->construct_free_tensor(vcd(A, v, vtype(sparse), sparse)); }
static inline ShuffleTensor mkS(const Alg& A, const Vec& v, int sparse) { return A.ctx->construct_shuffle_tensor(vcd(A, v, vtype(sparse), sparse)); }
static inline Lie mkL(const Alg& A, const Vec& v, int sparse) { return A.ctx->construct_lie(vcd(A, v, vtype(sparse), sparse)); }

// what iterating over an object shows, as coefficients by position
template <class T>
Vec readAll(const T& t, size_t n, int keyoff = 0)
{
    Vec r(n);
    bool sparse = t.storage_type() == VectorType::Sparse;
    for (auto&& it : t) {
        size_t k = (size_t) it->key() - keyoff;
        sym_assert(k < n, "key_in_range");
        if (k < n) {
            Q v = toQ(it->value());
            if (sparse) sym_assert(v != 0, "sparse object stores no zero");
            r[k] += v;
        }
    }
    return r;
}
static inline Vec rd(const Alg& A, const FreeTensor& t) { return readAll(t, A.words.size()); }
static inline Vec rd(const Alg& A, const ShuffleTensor& t) { return readAll(t, A.words.size()); }
static inline Vec rdL(const Alg& A, const Lie& t) { return readAll(t, A.ctx->lie_size(A.d), 1); }
static inline void eqv(const Vec& got, const Vec& want, const char* label)
{
    sym_assert(got.size() == want.size(), label);
    for (size_t i = 0; i < got.size() && i < want.size(); ++i) sym_eq(got[i], want[i], label);
}

static inline scalars::Scalar sc(const Alg& A, const Q& q) { return scalars::Scalar(A.ct, q); }
// shapes of support: which positions may be nonzero
template <class Deg>
std::vector<int> support(int shape, int n, int d, Deg deg)
{
    std::vector<int> r;
    for (int i = 0; i < n; ++i) {
        int g = deg(i);
        bool in = false;
        switch (shape) {
            case 0: in = true; break;
            case 1: in = g <= 1; break;            // lowest degrees only
            case 2: in = g >= 1; break;            // no constant term
            case 3: in = g == d; break;            // top degree only
            case 4: in = g == 0 || g == d; break;  // a gap
            case 5: in = i % 3 == 1; break;        // scattered
            case 6: in = g < d; break;             // not reaching the top
            case 7: in = i % 2 == 0; break;
            case 8: break;                         // zero
        }
        if (in) r.push_back(i);
    }
    return r;
}
