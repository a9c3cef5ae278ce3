// Keys of the Lie basis are the elements of a Hall set.
#include "sym.h"
#include <functional>
#include <sstream>
#include <libalgebra_lite/hall_set.h>
#include <roughpy/algebra/basis.h>
#include <roughpy/algebra/basis_impl.h>
#include <roughpy/algebra/basis_info.h>
#include <roughpy/algebra/context.h>
#include <roughpy/algebra/lie_basis.h>
#include "algebra/src/hall_set_size.h"
#include "algebra/src/libalgebra_lite_internal/lie_basis_info.h"
using namespace rpy;
using namespace rpy::algebra;
const char* const sym_labels[] = {"dimension", "sizes", "index round trip", "degree", "letter", "parents ordered", "hall condition", "degrees add", "child of parents", "child exists", "no child",
                                  "advance", "key order", "string", "same basis", "count", "lie size", "tensor size", "next dimension", nullptr};
void sym_setup() {}
static int mobius(int n)
{
    int r = 1;
    for (int p = 2; p * p <= n; ++p)
        if (n % p == 0) {
            n /= p;
            if (n % p == 0) return 0;
            r = -r;
        }
    return n > 1 ? -r : r;
}
static uint64_t witt(uint64_t w, int n)
{
    uint64_t s = 0;
    for (int k = 1; k <= n; ++k)
        if (n % k == 0) {
            uint64_t p = 1;
            for (int j = 0; j < n / k; ++j) p *= w;
            if (mobius(k) > 0) s += p;
            if (mobius(k) < 0) s -= p;
        }
    return s / n;
}
struct Base : ContextBase {
    Base(deg_t w, deg_t d) : ContextBase(w, d, nullptr, nullptr) {}
};
void sym_main()
{
    const int T = sym_tier();
    int what = (int) sym_choice("what", 0, 4);
    int w = (int) sym_choice("width", 1, what == 4 ? (T ? 8 : 5) : T ? 5 : 4);
    if (what == 4) {
        // the closed formula, up to beyond the tabulated values
        int d = (int) sym_choice("depth", 0, w == 1 ? 60 : w == 2 ? 60 : w <= 4 ? 30 : 20);
        HallSetSizeHelper h(w, d);
        for (int n = 1; n <= d; ++n) sym_assert(h(n) == witt(w, n), "count");
        if (d > 20) return;
        Base B(w, d);
        sym_assert(B.width() == w && B.depth() == d, "lie size");
        uint64_t l = 0, t = 0, p = 1;
        for (int n = 0; n <= d; ++n) {
            if (n) l += witt(w, n);
            t += p;
            p *= w;
            sym_assert(B.lie_size(n) == l, "lie size");
            sym_assert(B.tensor_size(n) == t, "tensor size");
        }
        int64_t o = sym_int("other", -3, d + 3);
        if (o < 0 || o > d) sym_assert(B.lie_size(o) == l && B.tensor_size(o) == t, "lie size");
        return;
    }
    int d = (int) sym_choice("depth", 1, w == 1 ? 5 : what == 1 ? (w == 2 ? (T ? 8 : 6) : w == 3 ? (T ? 5 : 4) : T ? 3 : 2) : w == 2 ? (T ? 10 : 8) : w == 3 ? (T ? 6 : 5) : T ? 4 : 3);
    lal::hall_basis lb(w, d);
    LieBasis tb(&lb);
    std::vector<int64_t> start{0, 0};// start[n]: first index of degree n
    for (int n = 1; n <= d; ++n) start.push_back(start[n] + (int64_t) witt(w, n));
    const int64_t N = start[d + 1];
    sym_assert(tb.width() == w && tb.depth() == d && (int64_t) tb.dimension() == N, "dimension");
    for (int n = 1; n <= d; ++n) {
        sym_assert((int64_t) tb.size(n) == start[n + 1] && (int64_t) tb.start_of_degree(n) == start[n], "sizes");
        sym_assert((int64_t) lb.size(n) == start[n + 1] && (int64_t) lb.start_of_degree(n) == start[n] && (int64_t) lb.size_of_degree(n) == start[n + 1] - start[n], "sizes");
    }
    sym_assert((int64_t) tb.size(-1) == N && (int64_t) lb.size(-1) == N, "sizes");
    auto deg = [&](int64_t i) {
        int n = 1;
        while (n < d && i >= start[n + 1]) ++n;
        return n;
    };
    // an element: its degree, and its position within the degree
    auto element = [&](const char* nm, const char* dn, int& n) {
        n = (int) sym_choice(dn, 1, d);
        if (start[n + 1] == start[n]) sym_assume(false);
        return start[n] + sym_int(nm, 0, start[n + 1] == start[n] ? 0 : start[n + 1] - start[n] - 1);
    };
    int n, m;
    int64_t i = element("i", "degree", n);
    if (start[n + 1] == start[n]) return;
    if (what == 0) {
        auto k = tb.index_to_key(i);
        sym_assert((int64_t) tb.key_to_index(k) == i && (int64_t) k == i + 1, "index round trip");
        sym_assert(tb.degree(k) == n, "degree");
        sym_assert(tb.letter(k) == (n == 1), "letter");
        if (n == 1) sym_assert((int64_t) tb.to_letter(k) == i + 1 && (int64_t) tb.key_of_letter(i + 1) == (int64_t) k, "letter");
        if (n > 1) {
            auto p = tb.parents(k);
            int64_t a = *p.first, b = *p.second;
            sym_assert(a >= 1 && a < b && b <= N, "parents ordered");
            sym_assert(deg(a - 1) + deg(b - 1) == n, "degrees add");
            if (deg(b - 1) > 1) sym_assert((int64_t) *tb.parents(b).first <= a, "hall condition");
            auto c = tb.child(a, b);
            sym_assert(c && *c == k, "child of parents");
            sym_assert(*tb.lparent(k) == a && *tb.rparent(k) == b, "parents ordered");
        }
    }
    if (what == 1) {
        int64_t j = element("j", "degree_j", m);
        if (start[m + 1] == start[m]) return;
        auto c = tb.child(i + 1, j + 1);
        bool hall = i < j && n + m <= d && (m == 1 || (int64_t) *tb.parents(j + 1).first <= i + 1);
        if (hall) {
            sym_assert((bool) c, "child exists");
            auto p = tb.parents(*c);
            sym_assert((int64_t) *p.first == i + 1 && (int64_t) *p.second == j + 1, "child exists");
        } else sym_assert(!c, "no child");
    }
    if (what == 2) {
        auto k = lb.index_to_key(i);
        sym_assert((int64_t) lb.key_to_index(k) == i && lb.degree(k) == n && (int64_t) k.index() == i - start[n], "index round trip");
        auto nx = k;
        lb.advance_key(nx);
        if (i + 1 < N) sym_assert((int64_t) lb.key_to_index(nx) == i + 1, "advance");
        int64_t j = element("j", "degree_j", m);
        if (start[m + 1] == start[m]) return;
        auto kj = lb.index_to_key(j);
        sym_assert((k < kj) == (i < j) && (k == kj) == (i == j), "key order");
        using BT = lal::basis_trait<lal::hall_basis>;
        sym_assert((int64_t) BT::get_next_dimension(lb, i).first == start[n + 1], "next dimension");
    }
    if (what == 3) {
        int64_t c = sym_concrete(i);
        std::function<std::string(int64_t)> str = [&](int64_t k) -> std::string {
            if (k <= w) return std::to_string(k);
            auto p = tb.parents(k);
            return "[" + str(*p.first) + "," + str(*p.second) + "]";
        };
        sym_assert(tb.key_to_string(c + 1) == str(c + 1), "string");
        lal::hall_basis lb2(w, d);
        LieBasis t2(&lb), t3(&lb2);
        sym_assert(t2 == tb && !(t2 != tb) && t3 != tb, "same basis");
    }
}
