// Reference for Lie elements: the basis elements expanded into words as
// iterated commutators along the parents that the basis itself reports.
#pragma once
#include "ops.h"
struct LieRef {
    const Alg& A;
    int m = 0;
    std::vector<Vec> E;       // expansion of each basis element
    std::vector<int> dg;      // its degree
    std::vector<Vec> L;       // L[i]: row such that L.E = 1
    explicit LieRef(const Alg& A_) : A(A_)
    {
        auto b = A.ctx->get_lie_basis();
        m = (int) b.dimension();
        for (int k = 1; k <= m; ++k) {
            Vec v = A.zero();
            if (b.letter(k)) v[A.at.at(Word{(int) b.to_letter(k)})] = 1;
            else {
                auto p = b.parents(k);
                sym_assert(p.first && p.second && *p.first < (key_type) k && *p.second < (key_type) k && *p.first >= 1 && *p.second >= 1,
                           "parents come before");
                v = A.comm(E[*p.first - 1], E[*p.second - 1]);
            }
            E.push_back(v);
            int g = 0;
            for (int i = 0; i < A.n(); ++i)
                if (v[i] != 0) g = A.deg(i);
            dg.push_back(g);
        }
        invert();
    }
    // Gaussian elimination: rows are words, columns basis elements
    void invert()
    {
        int n = A.n();
        std::vector<Vec> M(n, Vec(m + n));
        for (int i = 0; i < n; ++i) {
            for (int j = 0; j < m; ++j) M[i][j] = E[j][i];
            M[i][m + i] = 1;
        }
        int r = 0;
        for (int j = 0; j < m; ++j) {
            int p = r;
            while (p < n && M[p][j] == 0) ++p;
            sym_assert(p < n, "basis is linearly independent");
            if (p >= n) return;
            std::swap(M[p], M[r]);
            Q f = 1 / M[r][j];
            for (auto& x : M[r])
                if (x != 0) x *= f;
            for (int i = 0; i < n; ++i)
                if (i != r && M[i][j] != 0) {
                    Q g = M[i][j];
                    for (int c = 0; c < m + n; ++c)
                        if (M[r][c] != 0) M[i][c] -= g * M[r][c];
                }
            ++r;
        }
        for (int j = 0; j < m; ++j) L.push_back(Vec(M[j].begin() + m, M[j].end()));
    }
    Vec expand(const Vec& l) const
    {
        Vec r = A.zero();
        for (int j = 0; j < m && j < (int) l.size(); ++j)
            for (int i = 0; i < A.n(); ++i)
                if (E[j][i] != 0) r[i] += l[j] * E[j][i];
        return r;
    }
    // the Lie element with the given expansion
    Vec coords(const Vec& t, const char* label) const
    {
        Vec r(m);
        for (int j = 0; j < m; ++j)
            for (int i = 0; i < A.n(); ++i)
                if (L[j][i] != 0) r[j] += L[j][i] * t[i];
        eqv(expand(r), t, label);// it is one
        return r;
    }
    Vec bracket(const Vec& a, const Vec& b) const { return coords(A.comm(expand(a), expand(b)), "bracket stays in the span"); }
    Vec zero() const { return Vec(m); }
    Vec sym(const std::string& nm, const std::vector<int>& idx, bool nonzero = true) const
    {
        Vec r = zero();
        for (int i : idx) r[i] = sym_rat((nm + "." + std::to_string(i + 1)).c_str(), nonzero);
        return r;
    }
    std::vector<int> shape(int h) const
    {
        return support(h, m, A.d, [&](int i) { return dg[i]; });
    }
};
