// Keys of the tensor basis are the words of length at most the depth, in
// degree-lexicographic order.
#include "sym.h"
#include <sstream>
#include <libalgebra_lite/tensor_basis.h>
#include <libalgebra_lite/unpacked_tensor_word.h>
#include <roughpy/algebra/basis.h>
#include <roughpy/algebra/basis_impl.h>
#include <roughpy/algebra/basis_info.h>
#include <roughpy/algebra/tensor_basis.h>
#include "algebra/src/libalgebra_lite_internal/tensor_basis_info.h"
using namespace rpy;
using namespace rpy::algebra;
const char* const sym_labels[] = {"dimension", "sizes", "index round trip", "degree", "first letter", "parents", "child of parents", "letter", "child", "no child", "advance", "key order", "raw key",
                                  "raw parents", "reverse", "word letters", "pack", "word product", "word split", "next word", "word order", "string", "same basis", "next dimension", nullptr};
void sym_setup() {}
struct Ref {
    int w, d;
    std::vector<int64_t> pow, start;// start[n]: first index of degree n
    Ref(int w_, int d_) : w(w_), d(d_), pow{1}, start{0}
    {
        for (int n = 0; n <= d + 1; ++n) {
            start.push_back(start[n] + pow[n]);
            pow.push_back(pow[n] * w);
        }
    }
    int64_t size() const { return start[d + 1]; }
    // letters 1..w
    std::vector<int64_t> word(int64_t i, int n) const
    {
        int64_t r = i - start[n];
        std::vector<int64_t> o;
        for (int k = n - 1; k >= 0; --k) {
            o.push_back(r / pow[k] + 1);
            r %= pow[k];
        }
        return o;
    }
    int64_t index(const std::vector<int64_t>& x) const
    {
        int64_t r = 0;
        for (auto l : x) r = r * w + (l - 1);
        return start[x.size()] + r;
    }
};
void sym_main()
{
    const int T = sym_tier();
    int w = (int) sym_choice("width", 1, T ? 7 : 5);
    int d = (int) sym_choice("depth", 0, w == 1 ? 8 : w == 2 ? (T ? 11 : 7) : w == 3 ? (T ? 6 : 4) : w == 4 ? (T ? 5 : 4) : (T ? 4 : 3));
    lal::tensor_basis lb(w, d);
    TensorBasis tb(&lb);
    Ref R(w, d);
    sym_assert(tb.width() == w && tb.depth() == d && (int64_t) tb.dimension() == R.size(), "dimension");
    for (int n = 0; n <= d; ++n) {
        sym_assert((int64_t) tb.size(n) == R.start[n + 1] && (int64_t) tb.start_of_degree(n) == R.start[n] && (int64_t) lb.size_of_degree(n) == R.pow[n], "sizes");
        sym_assert((int64_t) lb.size(n) == R.start[n + 1] && (int64_t) lb.start_of_degree(n) == R.start[n], "sizes");
    }
    sym_assert((int64_t) lb.size(-1) == R.size() && (int64_t) tb.size(-1) == R.size(), "sizes");
    int what = (int) sym_choice("what", 0, 4);
    // a word: its degree, and its position among the words of that degree
    auto word_of_degree = [&](const char* nm, const char* dn, int max, int& n) {
        n = (int) sym_choice(dn, 0, max);
        return R.start[n] + sym_int(nm, 0, R.pow[n] - 1);
    };
    int n, m;
    int64_t i = word_of_degree("i", "degree", d, n);
    auto word = R.word(i, n);
    if (what == 0) {
        auto k = tb.index_to_key(i);
        sym_assert((int64_t) tb.key_to_index(k) == i && (int64_t) k == i, "index round trip");
        sym_assert(tb.degree(k) == n, "degree");
        sym_assert(tb.letter(k) == (n == 1), "letter");
        auto p = tb.parents(k);
        if (n == 0) {
            sym_assert(p.first && p.second && *p.first == 0 && *p.second == 0, "parents");
        } else {
            sym_assert((int64_t) tb.first_letter(k) == word[0], "first letter");
            if (n == 1) sym_assert((int64_t) tb.to_letter(k) == word[0] && (int64_t) tb.key_of_letter(word[0]) == i, "letter");
            std::vector<int64_t> rest(word.begin() + 1, word.end());
            sym_assert(p.first && (int64_t) *p.first == word[0] && p.second && (int64_t) *p.second == R.index(rest), "parents");
            sym_assert(tb.lparent(k) == p.first && tb.rparent(k) == p.second, "parents");
            auto c = tb.child(*p.first, *p.second);
            sym_assert(c && (int64_t) *c == i, "child of parents");
        }
    }
    if (what == 1) {
        int64_t j = word_of_degree("j", "degree_j", d, m);
        auto c = tb.child(i, j);
        if (n + m > d) sym_assert(!c, "no child");
        else sym_assert(c && (int64_t) *c == R.start[n + m] + (i - R.start[n]) * R.pow[m] + (j - R.start[m]), "child");
        auto ki = lb.index_to_key(i), kj = lb.index_to_key(j);
        sym_assert((ki < kj) == (i < j) && (ki == kj) == (i == j) && (ki <= kj) == (i <= j) && (ki != kj) == (i != j) && (ki > kj) == (i > j) && (ki >= kj) == (i >= j), "key order");
    }
    if (what == 2) {
        auto k = lb.index_to_key(i);
        sym_assert((int64_t) lb.key_to_index(k) == i && (int) k.degree() == n && lb.degree(k) == n && (int64_t) k.index() == i - R.start[n], "raw key");
        auto nx = k;
        lb.advance_key(nx);
        if (n < d || i + 1 < R.size()) sym_assert((int64_t) lb.key_to_index(nx) == i + 1, "advance");
        if (n > 0) {
            auto pr = lb.parents(k);
            sym_assert(pr.first == lb.lparent(k) && pr.second == lb.rparent(k) && (int64_t) lb.first_letter(k) == word[0], "raw parents");
            sym_assert((int64_t) lb.key_to_index(pr.first) == word[0] && (int) pr.second.degree() == n - 1, "raw parents");
        }
        auto rv = lb.reverse_key(k);
        std::vector<int64_t> back(word.rbegin(), word.rend());
        sym_assert((int) rv.degree() == n && (int64_t) lb.key_to_index(rv) == R.index(back) && lb.reverse_key(rv) == k, "reverse");
        using BT = lal::basis_trait<lal::tensor_basis>;
        auto nd = BT::get_next_dimension(lb, i);
        sym_assert((int64_t) nd.first == R.start[n + 1], "next dimension");
    }
    if (what == 3 && w > 1) {
        auto k = lb.index_to_key(i);
        lal::unpacked_tensor_word u(w, k);
        sym_assert(u.degree() == n && u.width() == w, "word letters");
        for (int t = 0; t < n; ++t) sym_assert((int64_t) u[t] == word[t] - 1, "word letters");
        std::vector<int64_t> back(word.rbegin(), word.rend());
        sym_assert(u.pack() == k && (int64_t) u.to_index() == i - R.start[n] && (int64_t) u.to_reverse_index() == R.index(back) - R.start[n], "pack");
        int cut = (int) sym_choice("cut", 0, d);
        if (cut <= n) {
            auto s = u.split(cut);
            sym_assert(s.first.degree() == cut && s.second.degree() == n - cut && s.first * s.second == u, "word split");
            for (int t = 0; t < cut; ++t) sym_assert((int64_t) s.first[t] == word[t] - 1, "word split");
        }
        int64_t j = word_of_degree("j", "degree_j", d < 2 ? d : 2, m);
        auto kj = lb.index_to_key(j);
        lal::unpacked_tensor_word v(w, kj);
        auto p = u * v;
        sym_assert(p.degree() == n + m && (int64_t) p.to_index() == (i - R.start[n]) * R.pow[m] + (j - R.start[m]), "word product");
        sym_assert((u == v) == (i == j) && (u != v) == (i != j), "word order");
        sym_assert((int) (u < v) + (int) (v < u) + (int) (u == v) == 1 && (u <= v) == !(v < u) && (u > v) == (v < u) && (u >= v) == !(u < v), "word order");
        if (n != m) sym_assert((u < v) == (n < m), "word order");
        auto q = u;
        ++q;
        sym_assert((int64_t) q.to_index() == (i + 1 == R.start[n + 1] ? 0 : i + 1 - R.start[n]) && q.degree() == n, "next word");
        auto r = u;
        r.reverse();
        sym_assert(r.to_index() == u.to_reverse_index(), "reverse");
    }
    if (what == 4 && d <= 4 && w <= 4) {
        int64_t c = sym_concrete(i);
        std::string s;
        for (auto l : R.word(c, n)) s += (s.empty() ? "" : ",") + std::to_string(l);
        sym_assert(tb.key_to_string(c) == s, "string");
        std::ostringstream os;
        lb.print_key(os, lb.index_to_key(c));
        sym_assert(os.str() == s, "string");
        lal::tensor_basis lb2(w, d);
        TensorBasis t2(&lb), t3(&lb2);
        sym_assert(t2 == tb && !(t2 != tb) && t3 != tb, "same basis");
    }
}
