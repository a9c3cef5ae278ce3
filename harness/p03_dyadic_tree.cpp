// Dyadic intervals form a binary tree: halves, parents, siblings, containment
// and order agree with the sets they denote.
#include "sym.h"
#include <roughpy/intervals/dyadic_interval.h>
using namespace rpy::intervals;

const char* const sym_labels[] = {"shrink", "halves", "expand", "aligned", "not_aligned", "flip", "contains", "not_contains",
                                  "order", "shift", nullptr};
void sym_setup() {}

struct R {// [lo, lo+len) or (lo, lo+len] in units of 2^-12
    int64_t lo, hi;
};
static const int U = 14;
static R set_of(const DyadicInterval& d)
{
    int64_t len = int64_t(1) << (U - d.power());
    int64_t inc = int64_t(d.multiplier()) * len;
    return d.type() == IntervalType::Clopen ? R{inc, inc + len} : R{inc - len, inc};
}

void sym_main()
{
    int part = (int) sym_choice("part", 0, 6);
    IntervalType ty = sym_choice("opencl", 0, 1) ? IntervalType::Opencl : IntervalType::Clopen;
    bool cl = ty == IntervalType::Clopen;
    int n = (int) sym_choice("n", -4, 5);
    int64_t B = 1 << 16;
    int k = (int) sym_int("k", -B, B);
    DyadicInterval d(k, n, ty);
    R r = set_of(d);
    int64_t len = r.hi - r.lo;
    switch (part) {
        case 0: {
            int a = (int) sym_choice("arg", 0, 5);
            DyadicInterval e = d.shrink_to_contained_end(a);
            sym_reach("shrink");
            R s = set_of(e);
            sym_assert(e.power() == n + a && e.type() == ty, "contained_end_shape");
            sym_assert(cl ? s.lo == r.lo : s.hi == r.hi, "contained_end");
            DyadicInterval l = d;
            DyadicInterval& lr = l.shrink_interval_left(a);
            R t = set_of(l);
            sym_assert(&lr == &l && l.power() == n + a && l.type() == ty && t.lo == r.lo, "left");
            break;
        }
        case 1: {
            DyadicInterval c = d.shrink_to_contained_end(), o = d.shrink_to_omitted_end();
            R s = set_of(c), t = set_of(o);
            sym_reach("halves");
            sym_assert(c.power() == n + 1 && o.power() == n + 1 && c.type() == ty && o.type() == ty, "halves_shape");
            sym_assert(cl ? (s.lo == r.lo && s.hi == t.lo && t.hi == r.hi) : (t.lo == r.lo && t.hi == s.lo && s.hi == r.hi), "halves_partition");
            DyadicInterval q = d;
            q.shrink_interval_right();
            R w = set_of(q);
            sym_assert(q.power() == n + 1 && q.type() == ty && w.hi == r.hi && w.lo == r.lo + len / 2, "right");
            break;
        }
        case 2: {
            int a = (int) sym_choice("arg", 1, 4);
            DyadicInterval e = d;
            DyadicInterval& er = e.expand_interval(a);
            sym_reach("expand");
            R s = set_of(e);
            sym_assert(&er == &e && e.power() == n - a, "expand_power");
            sym_assert(e.type() == ty, "expand_type");
            sym_assert(s.lo <= r.lo && r.hi <= s.hi, "expand_contains");
            sym_assert(e.contains_dyadic(d), "expand_contains_dyadic");
            break;
        }
        case 3: {
            bool al = d.aligned();
            sym_reach(al ? "aligned" : "not_aligned");
            // shares its included end with its parent
            sym_assert(al == ((k & 1) == 0), "aligned");
            DyadicInterval f = d;
            DyadicInterval& fr = f.flip_interval();
            sym_reach("flip");
            R s = set_of(f);
            int64_t plen = 2 * len;
            // the sibling: the other half of the parent
            int64_t q = cl ? r.lo : r.hi;
            bool even = (k & 1) == 0;
            (void) q;
            sym_assert(&fr == &f && f.power() == n && f.type() == ty, "flip_shape");
            sym_assert(cl == even ? s.lo == r.hi : s.hi == r.lo, "flip_sibling");
            (void) plen;
            f.flip_interval();
            sym_assert(f.multiplier() == k, "flip_twice");
            break;
        }
        case 4: {
            IntervalType ty2 = sym_choice("opencl2", 0, 1) ? IntervalType::Opencl : IntervalType::Clopen;
            int n2 = (int) sym_choice("n2", -4, 6);
            int k2 = (int) sym_int("k2", -B, B);
            DyadicInterval e(k2, n2, ty2);
            bool c = d.contains_dyadic(e);
            sym_reach(c ? "contains" : "not_contains");
            R s = set_of(e);
            sym_assert(c == (ty == ty2 && r.lo <= s.lo && s.hi <= r.hi), "contains_dyadic");
            break;
        }
        case 5: {
            // a strict total order on the intervals of one type
            int n2 = (int) sym_choice("n2", -3, 3), n3 = (int) sym_choice("n3", -2, 2);
            if (n > 2 || n < -2) return;
            int k2 = (int) sym_int("k2", -B, B), k3 = (int) sym_int("k3", -B, B);
            DyadicInterval b(k2, n2, ty), c(k3, n3, ty);
            bool ab = d < b, ba = b < d, bc = b < c, ac = d < c;
            sym_reach("order");
            sym_assert(!(d < d), "irreflexive");
            sym_assert(!(ab && ba), "asymmetric");
            sym_assert((ab || ba) == !(k == k2 && n == n2), "total");
            sym_assert(!(ab && bc) || ac, "transitive");
            // consistent with position: disjoint intervals are ordered the way
            // one walks from included to excluded ends
            R s = set_of(b);
            if (r.hi <= s.lo) sym_assert(ab == cl && ba == !cl, "order_position");
            break;
        }
        default: {
            int64_t a = sym_int("arg", -1000, 1000);
            DyadicInterval f = d.shift_forward((int) a), g = d.shift_back((int) a);
            sym_reach("shift");
            R s = set_of(f), t = set_of(g);
            sym_assert(f.power() == n && f.type() == ty && g.power() == n && g.type() == ty, "shift_shape");
            int64_t x = s.lo - r.lo, y = t.lo - r.lo;
            sym_assert((x == a * len && y == -a * len) || (x == -a * len && y == a * len), "shift_by_length");
            sym_assert(f.shift_back((int) a) == d, "shift_inverse");
            DyadicInterval h = d;
            DyadicInterval& hr = h.advance();
            R w = set_of(h);
            sym_assert(&hr == &h && h.power() == n && h.type() == ty, "advance_shape");
            sym_assert(cl ? w.lo == r.hi : w.hi == r.lo, "advance_adjacent");
        }
    }
}
