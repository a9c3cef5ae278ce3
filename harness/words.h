// A plain reference model of the truncated tensor algebra over the rationals.
#pragma once
#include "symq.h"
#include <map>
#include <string>
#include <vector>
typedef std::vector<int> Word;
typedef std::vector<Q> Vec;

struct Words {
    int w, d;
    std::vector<Word> words;// degree, then lexicographic
    std::map<Word, int> at;
    Words(int w_, int d_) : w(w_), d(d_)
    {
        std::vector<Word> cur{Word{}};
        for (int k = 0; k <= d; ++k) {
            std::vector<Word> nxt;
            for (auto& x : cur) {
                at[x] = (int) words.size();
                words.push_back(x);
                for (int l = 1; l <= w; ++l) {
                    Word y = x;
                    y.push_back(l);
                    nxt.push_back(y);
                }
            }
            cur = nxt;
        }
    }
    int n() const { return (int) words.size(); }
    int deg(int i) const { return (int) words[i].size(); }
    int start(int k) const
    {
        int s = 0;
        while (s < n() && deg(s) < k) ++s;
        return s;
    }
    Vec zero() const { return Vec(words.size()); }
    Vec one() const
    {
        Vec r = zero();
        r[0] = 1;
        return r;
    }
    Vec mul(const Vec& a, const Vec& b) const
    {
        Vec r = zero();
        for (int i = 0; i < n(); ++i)
            for (size_t k = 0; k <= words[i].size(); ++k) {
                Word l(words[i].begin(), words[i].begin() + k), q(words[i].begin() + k, words[i].end());
                r[i] += a[at.at(l)] * b[at.at(q)];
            }
        return r;
    }
    Vec add(const Vec& a, const Vec& b, int s = 1) const
    {
        Vec r = a;
        for (int i = 0; i < n(); ++i)
            if (s > 0) r[i] += b[i];
            else r[i] -= b[i];
        return r;
    }
    Vec scale(const Vec& a, const Q& k) const
    {
        Vec r = a;
        for (auto& x : r) x *= k;
        return r;
    }
    // the series sum_k c_k x^k for x without constant term
    template <class F>
    Vec series(const Vec& x, F c) const
    {
        Vec r = zero(), p = one();
        for (int k = 0; k <= d; ++k) {
            r = add(r, scale(p, c(k)));
            if (k < d) p = mul(p, x);
        }
        return r;
    }
    Vec noconst(const Vec& x) const
    {
        Vec r = x;
        r[0] = 0;
        return r;
    }
    Vec exp(const Vec& x) const
    {
        return series(noconst(x), [](int k) {
            Q f = 1;
            for (int i = 2; i <= k; ++i) f /= i;
            return f;
        });
    }
    // of 1 + x
    Vec log(const Vec& x) const
    {
        return series(noconst(x), [](int k) { return k == 0 ? Q(0) : Q(k % 2 ? 1 : -1) / k; });
    }
    Vec comm(const Vec& a, const Vec& b) const { return add(mul(a, b), mul(b, a), -1); }
    Vec antipode(const Vec& a) const
    {
        Vec r = zero();
        for (int i = 0; i < n(); ++i) {
            Word v(words[i].rbegin(), words[i].rend());
            if (v.size() % 2) r[at.at(v)] = -a[i];
            else r[at.at(v)] = a[i];
        }
        return r;
    }
    // all interleavings of two words, with multiplicity
    void shuffles(const Word& a, size_t i, const Word& b, size_t j, Word& cur, std::map<int, int>& out) const
    {
        if (i == a.size() && j == b.size()) {
            ++out[at.at(cur)];
            return;
        }
        if (i < a.size()) {
            cur.push_back(a[i]);
            shuffles(a, i + 1, b, j, cur, out);
            cur.pop_back();
        }
        if (j < b.size()) {
            cur.push_back(b[j]);
            shuffles(a, i, b, j + 1, cur, out);
            cur.pop_back();
        }
    }
    Vec shuffle(const Vec& a, const Vec& b) const
    {
        Vec r = zero();
        for (int i = 0; i < n(); ++i)
            for (int j = 0; j < n(); ++j) {
                if (deg(i) + deg(j) > d) continue;
                std::map<int, int> m;
                Word c;
                shuffles(words[i], 0, words[j], 0, c, m);
                Q t = a[i] * b[j];
                for (auto& [k, x] : m) r[k] += t * x;
            }
        return r;
    }
    // fresh symbolic coefficients for the chosen words
    Vec sym(const std::string& nm, const std::vector<int>& idx, bool nonzero = true) const
    {
        Vec r = zero();
        for (int i : idx) {
            std::string s = nm;
            for (int l : words[i]) s += "." + std::to_string(l);
            r[i] = sym_rat(s.c_str(), nonzero);
        }
        return r;
    }
    std::vector<int> range(int lo, int hi) const
    {
        std::vector<int> r;
        for (int i = lo; i < hi; ++i) r.push_back(i);
        return r;
    }
    std::vector<int> degs(int lo, int hi) const
    {
        std::vector<int> r;
        for (int i = 0; i < n(); ++i)
            if (deg(i) >= lo && deg(i) <= hi) r.push_back(i);
        return r;
    }
};

