// Runtime of the symbolic executor: expression pool, shadow memory, path
// condition, solver, and the path-exploration driver.
#include "sym.h"

#include <algorithm>
#include <array>
#include <cerrno>
#include <cmath>
#include <csetjmp>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <exception>
#include <map>
#include <memory>
#include <optional>
#include <poll.h>
#include <set>
#include <string>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <typeinfo>
#include <unistd.h>
#include <unordered_map>
#include <vector>
#include <malloc.h>
#include <z3++.h>

using i32 = int32_t;
using u32 = uint32_t;
using i64 = int64_t;
using u64 = uint64_t;
using i128 = __int128;
using u8 = uint8_t;

// ---------------------------------------------------------------- nodes ---
enum Op : uint16_t {
    CONST, VAR, ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, SHL, LSHR, ASHR, AND, OR,
    XOR, ZEXT, SEXT, TRUNC, EXTRACT, CONCAT, ITE, EQ, ULT, ULE, SLT, SLE, NOT,
    CTLZ, CTTZ, CTPOP, OVF,
    GRID,
    FFROMBITS, FADD, FSUB, FMUL, FDIV, FNEG, FABS, FSQRT, FRND, FEQ, FLT, FLE,
    FISNAN, FISINF, FTOSI, FTOUI, FSITO, FUITO, FEXT, FTRC, FBITS, G2F
};
static const char* opname[] = {
        "const", "var", "add", "sub", "mul", "udiv", "sdiv", "urem", "srem",
        "shl", "lshr", "ashr", "and", "or", "xor", "zext", "sext", "trunc",
        "extract", "concat", "ite", "eq", "ult", "ule", "slt", "sle", "not",
        "ctlz", "cttz", "ctpop", "ovf", "grid", "ffrombits", "fadd", "fsub",
        "fmul", "fdiv", "fneg", "fabs", "fsqrt", "frnd", "feq", "flt", "fle",
        "fisnan", "fisinf", "ftosi", "ftoui", "fsito", "fuito", "fext", "ftrc",
        "fbits", "g2f"};
enum Sort : u8 { BV, GR, FP };
struct Node {
    Op op;
    Sort s;
    u8 w;// BV: width; GR/FP: 32 or 64
    i32 a, b, c;
    i64 aux;// VAR: index; GRID: k; EXTRACT: low bit; ...
    u64 cv; // concrete value on the current path
    i64 lo, hi;
};
static std::vector<Node> N;
struct Key {
    u64 x, y;
    i64 aux;
    u64 cv;
    bool operator==(const Key& o) const
    {
        return x == o.x && y == o.y && aux == o.aux && cv == o.cv;
    }
};
struct KeyH {
    size_t operator()(const Key& k) const
    {
        u64 h = k.x * 0x9E3779B97F4A7C15ull ^ (k.y + 0x7F4A7C15ull) * 0xC2B2AE3D27D4EB4Full;
        h ^= (u64) k.aux * 0x165667B19E3779F9ull + k.cv * 0xD6E8FEB86659FD93ull;
        return h ^ (h >> 29);
    }
};
static std::unordered_map<Key, i32, KeyH> cons;

static inline u64 mask(int w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline i64 sx(u64 v, int w)
{
    if (w >= 64) return (i64) v;
    v &= mask(w);
    u64 m = 1ull << (w - 1);
    return (i64) ((v ^ m) - m);
}
static inline i64 smin_(int w) { return w >= 64 ? INT64_MIN : -(1ll << (w - 1)); }
static inline i64 smax_(int w) { return w >= 64 ? INT64_MAX : (1ll << (w - 1)) - 1; }

extern bool haveFP;
static i32 intern(Op op, Sort s, int w, i32 a, i32 b, i32 c, i64 aux, u64 cv, i64 lo, i64 hi)
{
    // the bits of a grid value are only compared with zero or read back
    // (see mkEq); anything else needs the floating point theory
    auto structural = [](Op o) { return o == ZEXT || o == EXTRACT || o == TRUNC || o == CONCAT; };
    if (!haveFP && !structural(op)) {
        for (i32 x : {a, b, c}) {
            for (int k = 0; x > 0 && k < 16 && structural(N[x].op); ++k) x = N[x].op == CONCAT && !(N[x].b > 0 && (structural(N[N[x].b].op) || N[N[x].b].op == FBITS)) ? N[x].a : N[x].op == CONCAT ? N[x].b : N[x].a;
            if (x > 0 && N[x].op == FBITS) haveFP = true;
        }
    }
    Key k{(u64) op | (u64) s << 16 | (u64) w << 24 | (u64) (u32) a << 32,
          (u64) (u32) b | (u64) (u32) c << 32, aux, op == CONST ? cv : 0};
    auto [it, fresh] = cons.try_emplace(k, (i32) N.size());
    if (fresh) N.push_back({op, s, (u8) w, a, b, c, aux, cv, lo, hi});
    return it->second;
}
static i32 kbv(int w, u64 v)
{
    v &= mask(w);
    i64 x = w == 1 ? (i64) v : sx(v, w);
    return intern(CONST, BV, w, 0, 0, 0, 0, v, x, x);
}
static i32 kfp(int w, u64 bits) { return intern(CONST, FP, w, 0, 0, 0, 0, bits, 0, 0); }
static inline bool isK(i32 n) { return N[n].op == CONST; }
static inline double asd(u64 v) { double d; memcpy(&d, &v, 8); return d; }
static inline u64 dbits(double d) { u64 v; memcpy(&v, &d, 8); return v; }
static inline float asf(u64 v) { u32 u = (u32) v; float d; memcpy(&d, &u, 4); return d; }
static inline u64 fbits(float d) { u32 v; memcpy(&v, &d, 4); return v; }

[[noreturn]] static void fatal(const char* m)
{
    fprintf(stderr, "symrt: %s\n", m);
    _exit(97);
}

// stats of this path
struct Stats {
    u64 branches = 0, q = 0, sat = 0, unsat = 0, unknown = 0, us = 0, conc = 0,
        mism = 0, nodes = 0, proved = 0, maxpc = 0, diverged = 0, formOnly = 0;
} st;
static std::map<std::string, u64> concKinds;

// ------------------------------------------------------------- builders ---
static i32 mkNot(i32 a);
static i32 mkEq(i32 a, i32 b);
static i32 mkIte(i32 c, i32 a, i32 b);

static bool fits(i128 lo, i128 hi, int w)
{
    return lo >= smin_(w) && hi <= smax_(w);
}
static i32 mkBV(Op op, int w, i32 a, i32 b, u64 cv, i128 lo, i128 hi)
{
    if (w == 1) {
        lo = 0;
        hi = 1;
    } else if (!fits(lo, hi, w)) {
        lo = smin_(w);
        hi = smax_(w);
    }
    cv &= mask(w);
    if (lo == hi) return kbv(w, (u64) lo);
    return intern(op, BV, w, a, b, 0, 0, cv, (i64) lo, (i64) hi);
}
static i32 mkAddSub(bool sub, int w, i32 a, i32 b)
{
    if (!sub && isK(a)) std::swap(a, b);
    const Node A = N[a], B = N[b];
    u64 cv = sub ? A.cv - B.cv : A.cv + B.cv;
    if (isK(a) && isK(b)) return kbv(w, cv);
    if (isK(b) && B.cv == 0) return a;
    if (sub && a == b) return kbv(w, 0);
    // (x + k1) + k2
    if (isK(b) && A.op == ADD && isK(A.b)) {
        u64 k = N[A.b].cv + (sub ? 0 - B.cv : B.cv);
        return mkAddSub(false, w, A.a, kbv(w, k));
    }
    if (sub && isK(b) && w > 1) return mkAddSub(false, w, a, kbv(w, 0 - B.cv));
    // x + y - x
    if (sub && A.op == ADD && A.a == b) return A.b;
    if (sub && A.op == ADD && A.b == b) return A.a;
    if (sub && B.op == ADD && B.a == a && isK(B.b))
        return kbv(w, 0 - N[B.b].cv);
    i128 lo, hi;
    if (sub) {
        lo = (i128) A.lo - B.hi;
        hi = (i128) A.hi - B.lo;
    } else {
        lo = (i128) A.lo + B.lo;
        hi = (i128) A.hi + B.hi;
    }
    return mkBV(sub ? SUB : ADD, w, a, b, cv, lo, hi);
}
static i32 mkShl(int w, i32 a, i32 b);
static i32 mkMul(int w, i32 a, i32 b)
{
    if (isK(a)) std::swap(a, b);
    const Node A = N[a], B = N[b];
    u64 cv = A.cv * B.cv;
    if (isK(a) && isK(b)) return kbv(w, cv);
    if (isK(b)) {
        if (B.cv == 0) return b;
        if (B.cv == 1) return a;
        if ((B.cv & (B.cv - 1)) == 0 && w > 1)
            return mkShl(w, a, kbv(w, (u64) __builtin_ctzll(B.cv)));
    }
    i128 c[4] = {(i128) A.lo * B.lo, (i128) A.lo * B.hi, (i128) A.hi * B.lo,
                 (i128) A.hi * B.hi};
    return mkBV(MUL, w, a, b, cv, *std::min_element(c, c + 4),
                *std::max_element(c, c + 4));
}
static inline u64 shmask(int w) { return w == 64 ? 63 : 31; }
static i32 mkShl(int w, i32 a, i32 b)
{
    const Node A = N[a], B = N[b];
    u64 s = B.cv & shmask(w);
    u64 cv = s >= (u64) w ? 0 : A.cv << s;
    if (isK(a) && isK(b)) return kbv(w, cv);
    if (isK(a) && A.cv == 0) return a;
    if (isK(b)) {
        if (s == 0) return a;
        if (A.op == SHL && isK(A.b)) {
            u64 t = N[A.b].cv + s;
            return t >= (u64) w ? kbv(w, 0) : mkShl(w, A.a, kbv(w, t));
        }
    }
    i128 lo = smin_(w), hi = smax_(w);
    if (B.lo >= 0 && B.hi < w) {
        i128 c[4] = {(i128) A.lo << B.lo, (i128) A.lo << B.hi,
                     (i128) A.hi << B.lo, (i128) A.hi << B.hi};
        lo = *std::min_element(c, c + 4);
        hi = *std::max_element(c, c + 4);
    }
    return mkBV(SHL, w, a, b, cv, lo, hi);
}
static i32 mkShr(bool ar, int w, i32 a, i32 b)
{
    const Node A = N[a], B = N[b];
    if (!ar && A.lo >= 0 && w > 1) ar = true;
    u64 s = B.cv & shmask(w);
    u64 cv = ar ? (u64) (sx(A.cv, w) >> std::min<u64>(s, w - 1)) & mask(w)
                : (s >= (u64) w ? 0 : (A.cv & mask(w)) >> s);
    if (isK(a) && isK(b)) return kbv(w, cv);
    if (isK(b) && s == 0) return a;
    // exact shift back
    if (isK(b) && ar && A.op == SHL && isK(A.b) && N[A.b].cv >= s) {
        const Node I = N[A.a];
        i128 l = (i128) I.lo << N[A.b].cv, h = (i128) I.hi << N[A.b].cv;
        if (fits(l, h, w)) return mkShl(w, A.a, kbv(w, N[A.b].cv - s));
    }
    i128 lo = smin_(w), hi = smax_(w);
    if (ar) {
        if (B.lo >= 0 && B.hi < w) {
            i128 c[4] = {(i128) A.lo >> B.lo, (i128) A.lo >> B.hi,
                         (i128) A.hi >> B.lo, (i128) A.hi >> B.hi};
            lo = *std::min_element(c, c + 4);
            hi = *std::max_element(c, c + 4);
        } else {
            lo = std::min<i64>(A.lo, A.lo < 0 ? A.lo : 0);
            hi = std::max<i64>(A.hi, A.hi > 0 ? A.hi : -1);
        }
    } else if (isK(b) && s > 0) {
        lo = 0;
        hi = (i128) (mask(w) >> s);
    }
    return mkBV(ar ? ASHR : LSHR, w, a, b, cv, lo, hi);
}
static i32 mkDiv(Op op, int w, i32 a, i32 b)
{
    const Node A = N[a], B = N[b];
    if ((op == UDIV || op == UREM) && A.lo >= 0 && B.lo >= 0)
        op = op == UDIV ? SDIV : SREM;
    u64 cv = 0;
    if ((B.cv & mask(w)) != 0) {
        switch (op) {
            case UDIV: cv = (A.cv & mask(w)) / (B.cv & mask(w)); break;
            case UREM: cv = (A.cv & mask(w)) % (B.cv & mask(w)); break;
            case SDIV: {
                i64 x = sx(A.cv, w), y = sx(B.cv, w);
                cv = y == -1 ? 0 - (u64) x : (u64) (x / y);
                break;
            }
            default: {
                i64 x = sx(A.cv, w), y = sx(B.cv, w);
                cv = y == -1 ? 0 : (u64) (x % y);
            }
        }
    }
    cv &= mask(w);
    if (isK(a) && isK(b)) return kbv(w, cv);
    if (isK(b) && B.cv == 1) return op == UDIV || op == SDIV ? a : kbv(w, 0);
    // exact: (x*k)/k for non-overflowing product or shift
    if (op == SDIV && isK(b) && sx(B.cv, w) > 1) {
        i64 k = sx(B.cv, w);
        if (A.op == MUL && isK(A.b) && sx(N[A.b].cv, w) == k) {
            const Node I = N[A.a];
            if (fits((i128) I.lo * k, (i128) I.hi * k, w)) return A.a;
        }
        if (A.op == SHL && isK(A.b) && (k & (k - 1)) == 0) {
            int t = __builtin_ctzll(k);
            const Node I = N[A.a];
            int sft = (int) N[A.b].cv;
            if (fits((i128) I.lo << sft, (i128) I.hi << sft, w) && sft >= t)
                return mkShl(w, A.a, kbv(w, sft - t));
        }
        if (A.lo >= 0 && (k & (k - 1)) == 0)
            return mkShr(true, w, a, kbv(w, __builtin_ctzll(k)));
    }
    i128 lo = smin_(w), hi = smax_(w);
    if (op == SDIV && (B.lo > 0 || B.hi < 0)) {
        i128 c[4] = {(i128) A.lo / B.lo, (i128) A.lo / B.hi, (i128) A.hi / B.lo,
                     (i128) A.hi / B.hi};
        lo = *std::min_element(c, c + 4);
        hi = *std::max_element(c, c + 4);
        if (A.lo <= 0 && A.hi >= 0) {
            lo = std::min<i128>(lo, 0);
            hi = std::max<i128>(hi, 0);
        }
        // |b| may be smallest inside the range only at its ends (same sign)
    } else if (op == SREM) {
        i128 m = std::max<i128>(B.lo < 0 ? -(i128) B.lo : B.lo,
                                B.hi < 0 ? -(i128) B.hi : B.hi) - 1;
        lo = A.lo < 0 ? std::max<i128>(-m, A.lo) : 0;
        hi = A.hi > 0 ? std::min<i128>(m, A.hi) : 0;
        if (B.lo <= 0 && B.hi >= 0) {
            lo = smin_(w);
            hi = smax_(w);
        }
    }
    return mkBV(op, w, a, b, cv, lo, hi);
}
static i32 mkLogic(Op op, int w, i32 a, i32 b)
{
    if (isK(a)) std::swap(a, b);
    const Node A = N[a], B = N[b];
    u64 cv = op == AND ? A.cv & B.cv : op == OR ? A.cv | B.cv : A.cv ^ B.cv;
    if (isK(a) && isK(b)) return kbv(w, cv);
    if (a == b) return op == XOR ? kbv(w, 0) : a;
    if (isK(b)) {
        u64 k = B.cv & mask(w);
        if (op == AND) {
            if (k == 0) return b;
            if (k == mask(w)) return a;
            // the range fixes the bits from t upwards
            int t = 64 - __builtin_clzll((u64) (A.lo ^ A.hi) | 1);
            if (t < w && (A.lo >> t) == (A.hi >> t)) {
                u64 low = ((u64) 1 << t) - 1, H = (u64) A.lo & ~low & mask(w);
                if ((k & low) == 0) return kbv(w, H & k);
                if ((k & low) == low)
                    return mkAddSub(false, w, a, kbv(w, (H & k) - H));
            }
            // bool-like
            if (A.lo >= 0 && k != 0) {
                u64 need = 1;
                while (need - 1 < (u64) A.hi) need <<= 1;
                if (((need - 1) & ~k) == 0) return a;
            }
        } else if (op == OR) {
            if (k == 0) return a;
            if (k == mask(w)) return b;
        } else {
            if (k == 0) return a;
            if (w == 1 && k == 1) return mkNot(a);
            if (k == mask(w)) return mkAddSub(true, w, kbv(w, ~0ull), a);
        }
        if (w > 1 && A.op == ITE && isK(A.b) && isK(A.c)) {
            auto f = [&](u64 x) {
                return op == AND ? x & k : op == OR ? x | k : x ^ k;
            };
            return mkIte(A.a, kbv(w, f(N[A.b].cv)), kbv(w, f(N[A.c].cv)));
        }
    }
    if (w == 1) {
        if (a > b) std::swap(a, b);
        if (N[a].op == NOT && N[a].a == b)
            return kbv(1, op == AND ? 0 : 1);
        if (N[b].op == NOT && N[b].a == a)
            return kbv(1, op == AND ? 0 : 1);
        return mkBV(op, w, a, b, cv, 0, 1);
    }
    // both 0/1-valued ites: lift to bool
    if (A.op == ITE && B.op == ITE && isK(A.b) && isK(A.c) && isK(B.b) && isK(B.c)
        && N[A.b].cv == 1 && N[A.c].cv == 0 && N[B.b].cv == 1 && N[B.c].cv == 0)
        return mkIte(mkLogic(op, 1, A.a, B.a), kbv(w, 1), kbv(w, 0));
    i128 lo = smin_(w), hi = smax_(w);
    auto up = [](i64 v) {
        u64 p = 1;
        while (p - 1 < (u64) v) p <<= 1;
        return (i128) (p - 1);
    };
    if (op == AND) {
        if (A.lo >= 0 && B.lo >= 0) {
            lo = 0;
            hi = std::min(A.hi, B.hi);
        } else if (A.lo >= 0) {
            lo = 0;
            hi = A.hi;
        } else if (B.lo >= 0) {
            lo = 0;
            hi = B.hi;
        }
    } else if (A.lo >= 0 && B.lo >= 0) {
        lo = 0;
        hi = std::max(up(A.hi), up(B.hi));
    }
    return mkBV(op, w, a, b, cv, lo, hi);
}
static i32 mkNot(i32 a)
{
    if (isK(a)) return kbv(1, N[a].cv ^ 1);
    if (N[a].op == NOT) return N[a].a;
    return intern(NOT, BV, 1, a, 0, 0, 0, N[a].cv ^ 1, 0, 1);
}
static i32 mkZext(i32 a, int w)
{
    const Node A = N[a];
    if (A.w == w) return a;
    if (isK(a)) return kbv(w, A.cv & mask(A.w));
    if (A.w == 1) return mkIte(a, kbv(w, 1), kbv(w, 0));
    if (A.op == ITE && isK(A.b) && isK(A.c))
        return mkIte(A.a, kbv(w, N[A.b].cv), kbv(w, N[A.c].cv));
    if (A.lo >= 0) {
        if (A.op == ZEXT || (A.op == SEXT)) return mkZext(A.a, w);
        return intern(SEXT, BV, w, a, 0, 0, 0, A.cv & mask(A.w), A.lo, A.hi);
    }
    return intern(ZEXT, BV, w, a, 0, 0, 0, A.cv & mask(A.w), 0, (i64) mask(A.w));
}
static i32 mkSext(i32 a, int w)
{
    const Node A = N[a];
    if (A.w == w) return a;
    if (A.w == 1) return mkIte(a, kbv(w, ~0ull), kbv(w, 0));
    if (isK(a)) return kbv(w, (u64) sx(A.cv, A.w));
    if (A.op == ITE && isK(A.b) && isK(A.c))
        return mkIte(A.a, kbv(w, (u64) sx(N[A.b].cv, A.w)),
                     kbv(w, (u64) sx(N[A.c].cv, A.w)));
    if (A.op == SEXT) return mkSext(A.a, w);
    return intern(SEXT, BV, w, a, 0, 0, 0, (u64) sx(A.cv, A.w) & mask(w), A.lo, A.hi);
}
static i32 mkTrunc(i32 a, int w)
{
    const Node A = N[a];
    if (A.w == w) return a;
    if (isK(a)) return kbv(w, A.cv);
    if (A.op == ITE && isK(A.b) && isK(A.c))
        return mkIte(A.a, kbv(w, N[A.b].cv), kbv(w, N[A.c].cv));
    if (w == 1) {
        if (A.op == ITE) return mkIte(A.a, mkTrunc(A.b, 1), mkTrunc(A.c, 1));
        return intern(TRUNC, BV, 1, a, 0, 0, 0, A.cv & 1, 0, 1);
    }
    if (A.op == ZEXT || A.op == SEXT) {
        if (N[A.a].w == w) return A.a;
        if (N[A.a].w > w) return mkTrunc(A.a, w);
        return A.op == ZEXT ? mkZext(A.a, w) : mkSext(A.a, w);
    }
    if (A.op == TRUNC) return mkTrunc(A.a, w);
    if (A.op == CONCAT && N[A.b].w == w) return A.b;
    if (A.op == CONCAT && N[A.b].w > w) return mkTrunc(A.b, w);
    bool f = fits(A.lo, A.hi, w);
    return intern(TRUNC, BV, w, a, 0, 0, 0, A.cv & mask(w), f ? A.lo : smin_(w),
                  f ? A.hi : smax_(w));
}
static i32 mkExtract(i32 a, int lowbit, int w)
{
    const Node A = N[a];
    if (lowbit == 0) return mkTrunc(a, w);
    if (isK(a)) return kbv(w, A.cv >> lowbit);
    if (A.op == CONCAT) {
        int bw = N[A.b].w;
        if (lowbit >= bw) return mkExtract(A.a, lowbit - bw, w);
        if (lowbit + w <= bw) return mkExtract(A.b, lowbit, w);
    }
    if ((A.op == SEXT) && A.lo >= 0 && lowbit >= N[A.a].w) return kbv(w, 0);
    if (A.op == ZEXT && lowbit >= N[A.a].w) return kbv(w, 0);
    if (A.op == ITE && isK(A.b) && isK(A.c))
        return mkIte(A.a, kbv(w, N[A.b].cv >> lowbit), kbv(w, N[A.c].cv >> lowbit));
    return intern(EXTRACT, BV, w, a, 0, 0, lowbit, (A.cv >> lowbit) & mask(w),
                  w == 1 ? 0 : smin_(w), w == 1 ? 1 : smax_(w));
}
static i32 mkConcat(i32 hi, i32 lo)
{
    const Node H = N[hi], L = N[lo];
    int w = H.w + L.w;
    u64 cv = (H.cv & mask(H.w)) << L.w | (L.cv & mask(L.w));
    if (isK(hi) && isK(lo)) return kbv(w, cv);
    if (isK(hi) && H.cv == 0) return mkZext(lo, w);
    // adjacent extracts
    i32 sa = H.op == EXTRACT ? H.a : -1;
    i64 hl = H.aux;
    if (sa >= 0) {
        if (L.op == EXTRACT && L.a == sa && L.aux + L.w == hl)
            return mkExtract(sa, (int) L.aux, w);
        if (L.op == TRUNC && L.a == sa && L.w == hl) return mkTrunc(sa, w);
    }
    // the same behind an extension or a longer concatenation
    auto adjacent = [&](const Node& E) {
        return E.op == EXTRACT && ((L.op == EXTRACT && L.a == E.a && L.aux + L.w == E.aux) || (L.op == TRUNC && L.a == E.a && L.w == E.aux));
    };
    if (H.op == ZEXT && adjacent(N[H.a])) return mkZext(mkConcat(H.a, lo), w);
    if (H.op == CONCAT && adjacent(N[H.b])) return mkConcat(H.a, mkConcat(H.b, lo));
    return intern(CONCAT, BV, w, hi, lo, 0, 0, cv, smin_(w), smax_(w));
}
static i32 mkIte(i32 c, i32 a, i32 b)
{
    if (isK(c)) return N[c].cv ? a : b;
    if (a == b) return a;
    const Node A = N[a], B = N[b];
    u64 cv = N[c].cv ? A.cv : B.cv;
    if (A.s == BV) {
        if (A.w == 1) {
            if (isK(a) && isK(b)) return A.cv ? c : mkNot(c);
            if (isK(a)) return A.cv ? mkLogic(OR, 1, c, b) : mkLogic(AND, 1, mkNot(c), b);
            if (isK(b)) return B.cv ? mkLogic(OR, 1, mkNot(c), a) : mkLogic(AND, 1, c, a);
        }
        if (N[c].op == NOT) return mkIte(N[c].a, b, a);
        return intern(ITE, BV, A.w, c, a, b, 0, cv, std::min(A.lo, B.lo),
                      std::max(A.hi, B.hi));
    }
    if (A.s == FP) return intern(ITE, FP, A.w, c, a, b, 0, cv, 0, 0);
    fatal("ite on grid");
}
static i32 mkEq(i32 a, i32 b)
{
    if (a == b) return kbv(1, 1);
    const Node A = N[a], B = N[b];
    bool cv = (A.cv & mask(A.w)) == (B.cv & mask(B.w));
    if (isK(a) && isK(b)) return kbv(1, cv);
    if (A.w > 1 && (A.hi < B.lo || B.hi < A.lo)) return kbv(1, 0);
    if (isK(a)) return mkEq(b, a);
    if (isK(b)) {
        if (A.w == 1) return B.cv ? a : mkNot(a);
        if (A.op == ITE && isK(A.b) && isK(A.c)) {
            bool x = N[A.b].cv == B.cv, y = N[A.c].cv == B.cv;
            return mkIte(A.a, kbv(1, x), kbv(1, y));
        }
        if (A.op == ADD && isK(A.b)) return mkEq(A.a, kbv(A.w, B.cv - N[A.b].cv));
        if (A.op == SUB && B.cv == 0) return mkEq(A.a, A.b);
        if (A.op == SEXT) {
            int w = N[A.a].w;
            if (fits(B.lo, B.lo, w) && w > 1) return mkEq(A.a, kbv(w, B.cv));
            return kbv(1, 0);
        }
        if (A.op == ZEXT) {
            int w = N[A.a].w;
            if ((u64) B.lo <= mask(w)) return mkEq(A.a, kbv(w, B.cv));
            return kbv(1, 0);
        }
        if (A.op == FBITS && N[A.a].op == G2F && B.cv == 0) return mkEq(N[A.a].a, kbv(64, 0));
    }
    if (a > b && !isK(b)) return mkEq(b, a);
    return intern(EQ, BV, 1, a, b, 0, 0, cv, 0, 1);
}
static i32 mkCmp(Op op, i32 a, i32 b)// ULT ULE SLT SLE
{
    const Node A = N[a], B = N[b];
    int w = A.w;
    if (w == 1) {
        // booleans: unsigned false<true, signed true(-1)<false(0)
        if (op == SLT) return mkCmp(ULT, b, a);
        if (op == SLE) return mkCmp(ULE, b, a);
        return op == ULT ? mkLogic(AND, 1, mkNot(a), b) : mkLogic(OR, 1, mkNot(a), b);
    }
    if (op == ULT && A.lo >= 0 && B.lo >= 0) op = SLT;
    if (op == ULE && A.lo >= 0 && B.lo >= 0) op = SLE;
    u64 x = A.cv & mask(w), y = B.cv & mask(w);
    bool cv = op == ULT ? x < y : op == ULE ? x <= y : op == SLT ? sx(x, w) < sx(y, w)
                                                             : sx(x, w) <= sx(y, w);
    if (isK(a) && isK(b)) return kbv(1, cv);
    if (a == b) return kbv(1, op == ULE || op == SLE);
    if (op == SLT || op == SLE) {
        if (op == SLT ? A.hi < B.lo : A.hi <= B.lo) return kbv(1, 1);
        if (op == SLT ? A.lo >= B.hi : A.lo > B.hi) return kbv(1, 0);
        // normal form: a <= b  as  not (b < a)
        if (op == SLE) return mkNot(mkCmp(SLT, b, a));
        if (isK(b) && A.op == ITE && isK(A.b) && isK(A.c))
            return mkIte(A.a, kbv(1, N[A.b].lo < B.lo), kbv(1, N[A.c].lo < B.lo));
        if (isK(a) && B.op == ITE && isK(B.b) && isK(B.c))
            return mkIte(B.a, kbv(1, A.lo < N[B.b].lo), kbv(1, A.lo < N[B.c].lo));
    } else if (op == ULE) {
        return mkNot(mkCmp(ULT, b, a));
    }
    return intern(op, BV, 1, a, b, 0, 0, cv, 0, 1);
}

// --- grid: exact dyadic doubles -----------------------------------------
static int mantOf(int w) { return w == 32 ? 24 : 53; }
static i32 mkGrid(int w, i32 n, int k)
{
    // normalise k>=0
    if (k < 0) {
        n = mkShl(64, n, kbv(64, (u64) -k));
        k = 0;
    }
    const Node& A = N[n];
    double d = std::ldexp((double) (i64) A.cv, -k);
    u64 cv = w == 64 ? dbits(d) : fbits((float) d);
    if (isK(n)) return kfp(w, cv);
    return intern(GRID, GR, w, n, 0, 0, k, cv, A.lo, A.hi);
}
// view a node (grid or fp const) as grid; returns false if not possible
static bool asGrid(i32 x, i32& n, int& k)
{
    const Node A = N[x];
    if (A.s == GR) {
        n = A.a;
        k = (int) A.aux;
        return true;
    }
    if (A.s == FP && A.op == CONST) {
        double d = A.w == 64 ? asd(A.cv) : (double) asf(A.cv);
        if (!std::isfinite(d) || std::fabs(d) > 4503599627370496.0) return false;
        int kk = 0;
        double e = d;
        while (e != std::floor(e)) {
            e *= 2;
            if (++kk > 60 || std::fabs(e) > 4503599627370496.0) return false;
        }
        n = kbv(64, (u64) (i64) e);
        k = kk;
        return true;
    }
    return false;
}
static bool gridFits(i32 n, int w)
{
    i64 lim = 1ll << mantOf(w);
    return N[n].lo >= -lim && N[n].hi <= lim;
}
static bool alignGrid(i32& na, int& ka, i32& nb, int& kb)
{
    int k = std::max(ka, kb);
    auto up = [&](i32& n, int& kk) {
        if (kk == k) return true;
        int s = k - kk;
        if (s > 61) return false;
        if (!fits((i128) N[n].lo << s, (i128) N[n].hi << s, 63)) return false;
        n = mkShl(64, n, kbv(64, s));
        kk = k;
        return true;
    };
    return up(na, ka) && up(nb, kb);
}
static i32 toFP(i32 x)
{
    const Node A = N[x];
    if (A.s == FP) return x;
    return intern(G2F, FP, A.w, A.a, 0, 0, A.aux, A.cv, 0, 0);
}
static u64 fconst(int w, double d) { return w == 64 ? dbits(d) : fbits((float) d); }
static double fval(const Node& A) { return A.w == 64 ? asd(A.cv) : asf(A.cv); }
static i32 mkFP(Op op, int w, i32 a, i32 b, i64 aux, u64 cv)
{
    if (isK(a) && (b == 0 || isK(b))) return kfp(w, cv);
    return intern(op, FP, w, a, b, 0, aux, cv, 0, 0);
}
static i32 mkFBool(Op op, i32 a, i32 b, bool cv)
{
    return intern(op, BV, 1, a, b, 0, 0, cv, 0, 1);
}

// ---------------------------------------------------------- path state ----
struct PCEnt {
    i32 cond;
    bool taken;
    const char* label;// assertion label or nullptr
    bool assume;
    u32 nv; // number of variables known at that point
    i32 tgt;// pinned node (value enumeration), or 0
    i32 q = -1;// constraint on symbolic rationals
};
static std::vector<PCEnt> PC;
static std::unordered_map<i32, bool> known;
struct VarInfo {
    std::string name;
    i32 node;
    u64 val;
};
static std::vector<VarInfo> vars;
static std::vector<u64> inputVals;
static bool stopped = false, active = false;
bool haveFP = false;
static sigjmp_buf runEnd;
static std::string crash;
[[noreturn]] static void tooLong()
{
    crash = "hang";
    siglongjmp(runEnd, 2);
}
static std::vector<std::pair<std::string, std::string>> viols;// label, kf
static std::map<std::string, std::array<u64, 3>> labels;// asserts: total,const,symbolic
static std::map<std::string, u64> reached;
static std::set<std::string> extCalls;

static void addPC(i32 c, bool taken, const char* label = nullptr, bool assume = false,
                  i32 tgt = 0)
{
    if (!active) return;
    if (isK(c)) {
        if ((bool) N[c].cv != taken) {
            ++st.mism;
            if (getenv("SYM_DEBUG")) fprintf(stderr, "mismatch at constant branch: %s\n", label ? label : "");
        }
        return;
    }
    if (N[c].op == NOT) {
        c = N[c].a;
        taken = !taken;
    }
    ++st.branches;
    if ((bool) (N[c].cv & 1) != taken) {
        ++st.mism;
        if (getenv("SYM_DEBUG")) fprintf(stderr, "mismatch at branch: node %d op %s\n", c, opname[N[c].op]);
        return;
    }
    auto [it, fresh] = known.try_emplace(c, taken);
    if (!fresh) return;
    if (stopped) return;
    if (PC.size() > 200000) return;
    if (PC.size() > 20000) tooLong();
    PC.push_back({c, taken, label, assume, (u32) vars.size(), tgt});
}

// type-code helpers
static inline bool tIsF(int ty) { return ty == 132 || ty == 164; }
static inline int tW(int ty) { return tIsF(ty) ? ty - 100 : ty; }
static i32 constOf(int ty, u64 v)
{
    return tIsF(ty) ? kfp(tW(ty), ty == 132 ? (v & 0xffffffffu) : v) : kbv(ty, v);
}
static inline i32 use(i32 s, int ty, u64 v) { return s ? s : constOf(ty, v); }
static inline i32 ret(i32 n) { return isK(n) ? 0 : n; }

static bool sameVal(const Node& A, u64 v)
{
    if (A.s == BV) return (A.cv & mask(A.w)) == (v & mask(A.w));
    if (A.w == 64) {
        double x = asd(A.cv), y = asd(v);
        return A.cv == v || x == y || (x != x && y != y);
    }
    float x = asf(A.cv), y = asf(v);
    return x == y || (x != x && y != y);
}
static i32 mkFBool(Op op, i32 a, i32 b, bool cv);
static i32 pinCond(i32 t, u64 v)
{
    const Node A = N[t];
    if (A.s == BV) return mkEq(t, kbv(A.w, v));
    double d = A.w == 64 ? asd(v) : (double) asf(v), e = fval(A);
    if (d != d) return mkFBool(FISNAN, t, 0, e != e);
    return mkFBool(FEQ, t, kfp(A.w, v), d == e);
}
// pin a node to its concrete value with an (explorable) branch
static void pin(i32 s, const char* why)
{
    if (!s || isK(s)) return;
    ++st.conc;
    ++concKinds[why];
    const Node A = N[s];
    i32 t = A.s == GR ? A.a : s;
    addPC(pinCond(t, N[t].cv), true, nullptr, false, N[t].w == 1 ? 0 : t);
}

// ------------------------------------------------------- shadow memory ----
struct Cell {
    u32 node;
    u8 idx, total, cb, pad;
};
static Cell** topTab[1 << 17];
static inline Cell* cell(u64 a, bool create)
{
    u64 t = (a >> 30) & 0x1ffff;
    if (!topTab[t]) {
        if (!create) return nullptr;
        topTab[t] = (Cell**) mmap(nullptr, sizeof(Cell*) << 18, PROT_READ | PROT_WRITE,
                                  MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    }
    Cell*& l = topTab[t][(a >> 12) & 0x3ffff];
    if (!l) {
        if (!create) return nullptr;
        l = (Cell*) mmap(nullptr, 4096 * sizeof(Cell), PROT_READ | PROT_WRITE,
                         MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    }
    return l + (a & 4095);
}
static void shClear(u64 a, u64 n)
{
    while (n) {
        u64 in = std::min<u64>(n, 4096 - (a & 4095));
        Cell* c = cell(a, false);
        if (c)
            for (u64 i = 0; i < in; ++i) c[i].node = 0;
        a += in;
        n -= in;
    }
}

struct Param {
    i32 s;
    u64 v;
    int ty;
    u64 bv;
};
static Param P[32];
static void* pendCallee;
static u32 pendMask;
static u64 retVal[4];
static void* fnTab[1 << 14];
static std::vector<void*> fnList;

extern "C" {
i32 __sym_pending = 0;
i32 __sym_ret[4] = {0, 0, 0, 0};

void __sym_begin_call(void* callee)
{
    pendMask = 0;
    pendCallee = callee;
}
void __sym_set_param(i32 i, i32 s, i64 v, i32 ty)
{
    if (!s) return;
    P[i] = {s, (u64) v, ty, 0};
    pendMask |= 1u << i;
    __sym_pending = 1;
}
void __sym_set_byval(i32 i, void* p)
{
    P[i] = {0, 0, -1, (u64) p};
    pendMask |= 1u << i;
    __sym_pending = 1;
}
void __sym_concretize(i32 s, i64 v, i32 ty, i32 kind);
static void pinPending(const char* why)
{
    for (int i = 0; i < 32; ++i)
        if (pendMask >> i & 1 && P[i].ty >= 0) pin(P[i].s, why);
    pendMask = 0;
    __sym_pending = 0;
}
i32 __sym_enter(void* self)
{
    if (active && !vars.empty()) {
        u64 h = ((u64) self >> 4) * 0x9E3779B97F4A7C15ull >> 50;
        if (fnTab[h] != self) {
            fnTab[h] = self;
            fnList.push_back(self);
        }
    }
    if (!__sym_pending) return 0;
    if (self != pendCallee) {
        pinPending("call-mismatch");
        return 0;
    }
    __sym_pending = 0;
    return 1;
}
void __sym_memcpy(void* d, void* s, i64 n);
void __sym_byval(i32 has, i32 i, void* p, i64 size)
{
    if (has && pendMask >> i & 1 && P[i].ty < 0)
        __sym_memcpy(p, (void*) P[i].bv, size);
    else
        shClear((u64) p, size);
}
i32 __sym_get_param(i32 has, i32 i, i64 v)
{
    if (!has || !(pendMask >> i & 1) || P[i].ty < 0) return 0;
    if (P[i].v != (u64) v) {
        ++st.mism;
        if (getenv("SYM_DEBUG")) fprintf(stderr, "mismatch of parameter %d\n", i);
        return 0;
    }
    return P[i].s;
}
void __sym_post_call(const char* name)
{
    if (!__sym_pending) return;
    bool any = false;
    for (int i = 0; i < 32; ++i)
        if (pendMask >> i & 1 && P[i].ty >= 0) any = true;
    if (any && active) extCalls.insert(name ? name : "<indirect>");
    pinPending("external-call");
}
void __sym_set_ret(i32 i, i32 s, i64 v)
{
    __sym_ret[i] = s;
    retVal[i] = (u64) v;
}
i32 __sym_get_ret(i32 i, i64 v, i32 ty)
{
    i32 s = __sym_ret[i];
    if (!s) return 0;
    __sym_ret[i] = 0;
    if (retVal[i] != (u64) v) return 0;
    const Node& A = N[s];
    bool f = tIsF(ty);
    if (f != (A.s != BV) || A.w != tW(ty)) return 0;
    return s;
}
void __sym_branch(i32 s, bool taken, i32)
{
    if (s) addPC(s, taken);
}
void __sym_switch(i32 s, i64 v, i32 ty, u64* cases, i32 n)
{
    if (!s) return;
    u64 x = (u64) v & mask(ty);
    for (int i = 0; i < n; ++i) {
        bool m = (cases[i] & mask(ty)) == x;
        addPC(mkEq(s, kbv(ty, cases[i])), m);
        if (m) return;
    }
}
static i32 fcmp(int pred, i32 a, i32 b)
{
    // pred: bit0 eq, bit1 gt, bit2 lt, bit3 unordered
    i32 na, nb;
    int ka, kb;
    if (asGrid(a, na, ka) && asGrid(b, nb, kb) && alignGrid(na, ka, nb, kb)) {
        int p = pred & 7;
        switch (p) {
            case 0: return kbv(1, 0);
            case 7: return kbv(1, 1);
            case 1: return mkEq(na, nb);
            case 2: return mkCmp(SLT, nb, na);
            case 3: return mkCmp(SLE, nb, na);
            case 4: return mkCmp(SLT, na, nb);
            case 5: return mkCmp(SLE, na, nb);
            case 6: return mkNot(mkEq(na, nb));
        }
    }
    // grid against an infinity or a huge constant: decided
    auto decided = [&](i32 g, i32 k, bool swap) -> int {
        if (N[g].s != GR || !isK(k)) return -1;
        double d = fval(N[k]);
        double glo = std::ldexp((double) N[g].lo, -(int) N[g].aux),
               ghi = std::ldexp((double) N[g].hi, -(int) N[g].aux);
        if (d != d) return pred >> 3 & 1;
        if (d > ghi) return pred >> (swap ? 1 : 2) & 1;// g < k
        if (d < glo) return pred >> (swap ? 2 : 1) & 1;
        return -1;
    };
    int dd = decided(a, b, false);
    if (dd < 0) dd = decided(b, a, true);
    if (dd >= 0) return kbv(1, dd);
    if (N[a].s == GR && N[b].s == GR) {
        // same grid expression with scaling beyond 63 bits: fall through to FP
    }
    a = toFP(a);
    b = toFP(b);
    haveFP = true;
    double x = fval(N[a]), y = fval(N[b]);
    auto nanOf = [&](i32 z) {
        double v = fval(N[z]);
        if (isK(z) || N[z].op == G2F) return kbv(1, v != v);
        return mkFBool(FISNAN, z, 0, v != v);
    };
    auto uno = [&] { return mkLogic(OR, 1, nanOf(a), nanOf(b)); };
    auto feq = [&] {
        if (isK(a) && isK(b)) return kbv(1, x == y);
        if (a == b) return mkNot(nanOf(a));
        return mkFBool(FEQ, std::min(a, b), std::max(a, b), x == y);
    };
    auto flt = [&](i32 p, i32 q, double u, double v) {
        if (isK(p) && isK(q)) return kbv(1, u < v);
        if (p == q) return kbv(1, 0);
        return mkFBool(FLT, p, q, u < v);
    };
    auto fle = [&](i32 p, i32 q, double u, double v) {
        if (isK(p) && isK(q)) return kbv(1, u <= v);
        if (p == q) return mkNot(nanOf(p));
        return mkFBool(FLE, p, q, u <= v);
    };
    switch (pred) {
        case 0: return kbv(1, 0);
        case 1: return feq();
        case 2: return flt(b, a, y, x);
        case 3: return fle(b, a, y, x);
        case 4: return flt(a, b, x, y);
        case 5: return fle(a, b, x, y);
        case 6: return mkLogic(AND, 1, mkNot(feq()), mkNot(uno()));
        case 7: return mkNot(uno());
        case 8: return uno();
        case 9: return mkLogic(OR, 1, feq(), uno());
        case 10: return mkNot(fle(a, b, x, y));
        case 11: return mkNot(flt(a, b, x, y));
        case 12: return mkNot(fle(b, a, y, x));
        case 13: return mkNot(flt(b, a, y, x));
        case 14: return mkNot(feq());
        default: return kbv(1, 1);
    }
}
i32 __sym_cmp(i32 pred, i32 ty, i32 sa, i64 va, i32 sb, i64 vb)
{
    if (!sa && !sb) return 0;
    i32 a = use(sa, ty, va), b = use(sb, ty, vb);
    if (tIsF(ty)) return ret(fcmp(pred, a, b));
    switch (pred) {
        case 32: return ret(mkEq(a, b));
        case 33: return ret(mkNot(mkEq(a, b)));
        case 34: return ret(mkCmp(ULT, b, a));
        case 35: return ret(mkCmp(ULE, b, a));
        case 36: return ret(mkCmp(ULT, a, b));
        case 37: return ret(mkCmp(ULE, a, b));
        case 38: return ret(mkCmp(SLT, b, a));
        case 39: return ret(mkCmp(SLE, b, a));
        case 40: return ret(mkCmp(SLT, a, b));
        default: return ret(mkCmp(SLE, a, b));
    }
}
static i32 iteAny(i32 c, i32 a, i32 b)
{
    if (isK(c)) return N[c].cv ? a : b;
    if (N[a].s == GR || N[b].s == GR) {
        i32 na, nb;
        int ka, kb;
        if (asGrid(a, na, ka) && asGrid(b, nb, kb) && alignGrid(na, ka, nb, kb))
            return mkGrid(N[a].w, mkIte(c, na, nb), ka);
        a = toFP(a);
        b = toFP(b);
        haveFP = true;
    }
    return mkIte(c, a, b);
}
i32 __sym_select(i32 sc, bool c, i32 sa, i64 va, i32 sb, i64 vb, i32 ty)
{
    if (!sc) return c ? sa : sb;
    i32 a = use(sa, ty, va), b = use(sb, ty, vb);
    if (tIsF(ty) && isK(a) && isK(b)) {
        // constants: prefer grid
        i32 na, nb;
        int ka, kb;
        if (asGrid(a, na, ka) && asGrid(b, nb, kb) && alignGrid(na, ka, nb, kb))
            return ret(mkGrid(tW(ty), mkIte(sc, na, nb), ka));
        // an infinite or NaN arm: fork instead of going to FP
        addPC(sc, c);
        return 0;
    }
    if (tIsF(ty)) {
        double x = fval(N[a]), y = fval(N[b]);
        if ((isK(a) && !std::isfinite(x)) || (isK(b) && !std::isfinite(y))) {
            addPC(sc, c);
            return c ? ret(a) : ret(b);
        }
    }
    return ret(iteAny(sc, a, b));
}
static i32 fbin(int op, int w, i32 a, i32 b)
{
    // op: LLVM FAdd 14, FSub 16, FMul 18, FDiv 21, FRem 24
    i32 na, nb;
    int ka, kb;
    bool g = asGrid(a, na, ka) && asGrid(b, nb, kb);
    if (g) {
        i32 r = -1;
        int k = 0;
        if ((op == 14 || op == 16) && alignGrid(na, ka, nb, kb)) {
            r = mkAddSub(op == 16, 64, na, nb);
            k = ka;
        } else if (op == 18) {
            i128 m = std::max(std::abs((double) N[na].lo), std::abs((double) N[na].hi));
            i128 m2 = std::max(std::abs((double) N[nb].lo), std::abs((double) N[nb].hi));
            if (isK(na) || isK(nb)) {
                // keep powers of two out of the integer product
                i32& kk = isK(na) ? na : nb;
                int& ek = isK(na) ? ka : kb;
                i64 v = (i64) N[kk].cv;
                while (v != 0 && (v & 1) == 0 && ek > -60) {
                    v /= 2;
                    --ek;
                }
                kk = kbv(64, (u64) v);
                m = std::max(std::abs((double) N[na].lo), std::abs((double) N[na].hi));
                m2 = std::max(std::abs((double) N[nb].lo), std::abs((double) N[nb].hi));
            }
            if (m * m2 < ((i128) 1 << 62)) {
                r = mkMul(64, na, nb);
                k = ka + kb;
            }
        } else if (op == 21 && isK(b)) {
            // division by a power of two
            i64 v = (i64) N[nb].cv;
            u64 av = (u64) (v < 0 ? -v : v);
            if (av && (av & (av - 1)) == 0) {
                int l = __builtin_ctzll(av);
                r = v < 0 ? mkAddSub(true, 64, kbv(64, 0), na) : na;
                k = ka - kb + l;
            }
        }
        if (r >= 0 && k < 0) {
            int s = -k;
            if (s < 62 && fits((i128) N[r].lo << s, (i128) N[r].hi << s, 63)) {
                r = mkShl(64, r, kbv(64, s));
                k = 0;
            } else {
                r = -1;
            }
        }
        if (r >= 0 && k <= 900 && gridFits(r, w)) return mkGrid(w, r, k);
    }
    double x = fval(N[a]), y = fval(N[b]);
    if (op == 24) {
        pin(a, "frem");
        pin(b, "frem");
        return kfp(w, fconst(w, std::fmod(x, y)));
    }
    u64 cv;
    if (w == 64)
        cv = dbits(op == 14 ? x + y : op == 16 ? x - y : op == 18 ? x * y : x / y);
    else {
        float p = asf(N[a].cv), q = asf(N[b].cv);
        cv = fbits(op == 14 ? p + q : op == 16 ? p - q : op == 18 ? p * q : p / q);
    }
    a = toFP(a);
    b = toFP(b);
    haveFP = true;
    Op o = op == 14 ? FADD : op == 16 ? FSUB : op == 18 ? FMUL : FDIV;
    if ((o == FADD || o == FMUL) && a > b) std::swap(a, b);
    return mkFP(o, w, a, b, 0, cv);
}
static i32 gridRnd(int w, i32 n, int k, int mode)// 0 floor 1 ceil 2 trunc 3 rint 4 round
{
    if (k == 0) return mkGrid(w, n, 0);
    if (k > 62) {
        return -1;
    }
    i32 kk = kbv(64, k);
    auto flo = [&](i32 x) { return mkShr(true, 64, x, kk); };
    i32 zero = kbv(64, 0);
    auto neg = [&](i32 x) { return mkAddSub(true, 64, zero, x); };
    switch (mode) {
        case 0: return mkGrid(w, flo(n), 0);
        case 1: return mkGrid(w, neg(flo(neg(n))), 0);
        case 2:
            return mkGrid(w, mkIte(mkCmp(SLT, n, zero), neg(flo(neg(n))), flo(n)), 0);
        case 4: {
            i32 h = kbv(64, 1ull << (k - 1));
            return mkGrid(w,
                          mkIte(mkCmp(SLT, n, zero),
                                neg(flo(mkAddSub(false, 64, neg(n), h))),
                                flo(mkAddSub(false, 64, n, h))),
                          0);
        }
        default: return -1;
    }
}
i32 __sym_un(i32 op, i32 ty, i32 s, i64 v)
{
    if (!s) return 0;
    const Node A = N[s];
    int w = tW(ty);
    if (!tIsF(ty)) {
        switch (op) {
            case 1001: {
                if (A.lo >= 0) return s;
                i32 z = kbv(w, 0);
                return ret(mkIte(mkCmp(SLT, s, z), mkAddSub(true, w, z, s), s));
            }
            case 1002: {
                u64 x = A.cv & mask(w);
                return ret(mkBV(CTLZ, w, s, 0, x ? __builtin_clzll(x) - (64 - w) : w, 0, w));
            }
            case 1003: {
                u64 x = A.cv & mask(w);
                return ret(mkBV(CTTZ, w, s, 0, x ? __builtin_ctzll(x) : w, 0, w));
            }
            case 1004:
                return ret(mkBV(CTPOP, w, s, 0, __builtin_popcountll(A.cv & mask(w)), 0, w));
            case 1005: {
                i32 r = mkExtract(s, 0, 8);
                for (int i = 1; i < w / 8; ++i) r = mkConcat(r, mkExtract(s, i * 8, 8));
                return ret(r);
            }
        }
        pin(s, "unary");
        return 0;
    }
    i32 n;
    int k;
    if (asGrid(s, n, k)) {
        i32 z = kbv(64, 0);
        i32 r = -1;
        switch (op) {
            case 1000: return ret(mkGrid(w, mkAddSub(true, 64, z, n), k));
            case 1015:
                if (N[n].lo >= 0) return s;
                return ret(mkGrid(w, mkIte(mkCmp(SLT, n, z), mkAddSub(true, 64, z, n), n), k));
            case 1010: r = gridRnd(w, n, k, 0); break;
            case 1011: r = gridRnd(w, n, k, 1); break;
            case 1012: r = gridRnd(w, n, k, 2); break;
            case 1013:
                if (k == 0) return s;
                break;
            case 1014: r = gridRnd(w, n, k, 4); break;
        }
        if (r >= 0) return ret(r);
        if (op == 1016) {
            pin(s, "sqrt");
            return 0;
        }
    }
    i32 f = toFP(s);
    haveFP = true;
    double x = fval(N[f]);
    double y = 0;
    switch (op) {
        case 1000: return mkFP(FNEG, w, f, 0, 0, w == 64 ? A.cv ^ (1ull << 63) : A.cv ^ 0x80000000u);
        case 1015: return mkFP(FABS, w, f, 0, 0, w == 64 ? A.cv & ~(1ull << 63) : A.cv & 0x7fffffffu);
        case 1016: y = std::sqrt(x); return mkFP(FSQRT, w, f, 0, 0, fconst(w, w == 64 ? y : std::sqrt((float) x)));
        case 1010: return mkFP(FRND, w, f, 0, 0, fconst(w, std::floor(x)));
        case 1011: return mkFP(FRND, w, f, 0, 1, fconst(w, std::ceil(x)));
        case 1012: return mkFP(FRND, w, f, 0, 2, fconst(w, std::trunc(x)));
        case 1013: return mkFP(FRND, w, f, 0, 3, fconst(w, std::nearbyint(x)));
        case 1014: return mkFP(FRND, w, f, 0, 4, fconst(w, std::round(x)));
    }
    pin(s, "funary");
    return 0;
}
i32 __sym_bin(i32 op, i32 ty, i32 sa, i64 va, i32 sb, i64 vb)
{
    if (!sa && !sb) return 0;
    int w = tW(ty);
    if (op == 1110) {// ldexp(x, int e)
        if (sb) pin(sb, "ldexp-exponent");
        if (!sa) return 0;
        i32 n;
        int k, e = (int) (i32) vb;
        if (asGrid(sa, n, k)) {
            k -= e;
            if (k < 0) {
                if (-k < 62 && fits((i128) N[n].lo << -k, (i128) N[n].hi << -k, 63)) {
                    n = mkShl(64, n, kbv(64, -k));
                    k = 0;
                } else {
                    pin(sa, "ldexp-range");
                    return 0;
                }
            }
            if (k <= 900 && gridFits(n, w)) return ret(mkGrid(w, n, k));
        }
        if (e >= -1000 && e <= 1000 && N[sa].s == FP) {
            double x = fval(N[sa]);
            haveFP = true;
            return ret(mkFP(FMUL, w, std::min(sa, kfp(w, fconst(w, std::ldexp(1.0, e)))),
                            std::max(sa, kfp(w, fconst(w, std::ldexp(1.0, e)))), 0,
                            fconst(w, std::ldexp(x, e))));
        }
        pin(sa, "ldexp");
        return 0;
    }
    if (op == 1114) {// is_fpclass(x, mask)
        if (N[sa].s == GR) {
            // finite; sign/zero classes via comparisons
            int m = (int) vb;
            i32 n = N[sa].a, z = kbv(64, 0), r = kbv(1, 0);
            if (m & 0x0060) r = mkLogic(OR, 1, r, mkEq(n, z));
            if (m & 0x0018) r = mkLogic(OR, 1, r, mkCmp(SLT, n, z));
            if (m & 0x0180) r = mkLogic(OR, 1, r, mkCmp(SLT, z, n));
            return ret(r);
        }
        double x = fval(N[sa]);
        haveFP = true;
        int m = (int) vb;
        i32 r = kbv(1, 0);
        i32 f = sa;
        if (m == 3) return ret(mkFBool(FISNAN, f, 0, x != x));
        if (m == 0x204) return ret(mkFBool(FISINF, f, 0, std::isinf(x)));
        if (m == 0x1f8)
            return ret(mkNot(mkLogic(OR, 1, mkFBool(FISNAN, f, 0, x != x),
                                     mkFBool(FISINF, f, 0, std::isinf(x)))));
        (void) r;
        pin(sa, "fpclass");
        return 0;
    }
    i32 a = use(sa, ty, va), b = use(sb, ty, vb);
    if (tIsF(ty)) {
        if (op == 14 || op == 16 || op == 18 || op == 21 || op == 24)
            return ret(fbin(op, w, a, b));
        if ((op == 1111 || op == 1112) && (N[a].s == GR || N[b].s == GR)) {
            i32 c = fcmp(4, a, b);
            return ret(op == 1111 ? iteAny(c, a, b) : iteAny(c, b, a));
        }
        pin(sa, "fbin");
        pin(sb, "fbin");
        return 0;
    }
    switch (op) {
        case 13: return ret(mkAddSub(false, w, a, b));
        case 15: return ret(mkAddSub(true, w, a, b));
        case 17: return ret(mkMul(w, a, b));
        case 19: return ret(mkDiv(UDIV, w, a, b));
        case 20: return ret(mkDiv(SDIV, w, a, b));
        case 22: return ret(mkDiv(UREM, w, a, b));
        case 23: return ret(mkDiv(SREM, w, a, b));
        case 25: return ret(mkShl(w, a, b));
        case 26: return ret(mkShr(false, w, a, b));
        case 27: return ret(mkShr(true, w, a, b));
        case 28: return ret(mkLogic(AND, w, a, b));
        case 29: return ret(mkLogic(OR, w, a, b));
        case 30: return ret(mkLogic(XOR, w, a, b));
        case 1100: return ret(mkIte(mkCmp(SLT, a, b), b, a));
        case 1101: return ret(mkIte(mkCmp(SLT, a, b), a, b));
        case 1102: return ret(mkIte(mkCmp(ULT, a, b), b, a));
        case 1103: return ret(mkIte(mkCmp(ULT, a, b), a, b));
        case 1104: return ret(mkIte(mkCmp(ULT, a, b), kbv(w, 0), mkAddSub(true, w, a, b)));
        case 1105: {
            i32 r = mkAddSub(false, w, a, b);
            return ret(mkIte(mkCmp(ULT, r, a), kbv(w, ~0ull), r));
        }
        case 1120: case 1121: case 1122: case 1123: case 1124: case 1125: {
            bool sg = (op % 2) == 0;
            int o = (op - 1120) / 2;
            i128 x = sg ? (i128) sx(N[a].cv, w) : (i128) (N[a].cv & mask(w));
            i128 y = sg ? (i128) sx(N[b].cv, w) : (i128) (N[b].cv & mask(w));
            bool cv;
            if (o == 2 && !sg) {
                unsigned __int128 p = (unsigned __int128) x * (unsigned __int128) y;
                cv = p > mask(w);
            } else {
                i128 r = o == 0 ? x + y : o == 1 ? x - y : x * y;
                cv = sg ? !(r >= smin_(w) && r <= smax_(w)) : (r < 0 || r > (i128) mask(w));
            }
            if (isK(a) && isK(b)) return 0;
            const Node A = N[a], B = N[b];
            i128 lo, hi;
            if (o == 0) { lo = (i128) A.lo + B.lo; hi = (i128) A.hi + B.hi; }
            else if (o == 1) { lo = (i128) A.lo - B.hi; hi = (i128) A.hi - B.lo; }
            else {
                i128 c[4] = {(i128) A.lo * B.lo, (i128) A.lo * B.hi, (i128) A.hi * B.lo, (i128) A.hi * B.hi};
                lo = *std::min_element(c, c + 4);
                hi = *std::max_element(c, c + 4);
            }
            if (sg && fits(lo, hi, w)) return 0;
            if (!sg && A.lo >= 0 && B.lo >= 0 && lo >= 0 && hi <= smax_(w)) return 0;
            if (!sg && o == 1) return ret(mkCmp(ULT, a, b));
            if (!sg && o == 0) return ret(mkCmp(ULT, mkAddSub(false, w, a, b), a));
            return intern(OVF, BV, 1, a, b, 0, op, cv, 0, 1);
        }
    }
    pin(sa, "bin");
    pin(sb, "bin");
    return 0;
}
i32 __sym_cast(i32 op, i32 from, i32 to, i32 s, i64 v)
{
    if (!s) return 0;
    const Node A = N[s];
    int w = tW(to);
    // Trunc 38 ZExt 39 SExt 40 FPToUI 41 FPToSI 42 UIToFP 43 SIToFP 44
    // FPTrunc 45 FPExt 46 PtrToInt 47 IntToPtr 48 BitCast 49 AddrSpaceCast 50
    switch (op) {
        case 38: return ret(mkTrunc(s, w));
        case 39: return ret(mkZext(s, w));
        case 40: return ret(mkSext(s, w));
        case 41:
        case 42: {
            if (A.s == GR) {
                i32 g = gridRnd(A.w, A.a, (int) A.aux, 2);
                if (g >= 0) {
                    i32 n;
                    int k;
                    if (asGrid(g, n, k)) {
                        if (w < 64 && !fits(N[n].lo, N[n].hi, w) && op == 42) {
                            pin(s, "fptoint-range");
                            return 0;
                        }
                        if (op == 41 && N[n].lo < 0) {
                            pin(s, "fptouint-range");
                            return 0;
                        }
                        return ret(mkTrunc(n, w));
                    }
                }
                pin(s, "fptoint");
                return 0;
            }
            double x = fval(A);
            haveFP = true;
            if (w > 1 && w <= 64) {
                u64 cv = op == 42 ? (u64) (i64) x : (u64) x;
                if (op == 42 && w < 64) cv = (u64) (i64) (i32) x;
                return intern(op == 42 ? FTOSI : FTOUI, BV, w, s, 0, 0, 0, cv & mask(w),
                              smin_(w), smax_(w));
            }
            pin(s, "fptoint");
            return 0;
        }
        case 43:
        case 44: {
            i32 n = op == 44 ? mkSext(s, 64) : mkZext(s, 64);
            if ((op == 44 || N[n].lo >= 0) && gridFits(n, w)) return ret(mkGrid(w, n, 0));
            haveFP = true;
            i64 x = (i64) N[n].cv;
            if (w == 64)
                return ret(mkFP(op == 44 ? FSITO : FUITO, w, n, 0, 0,
                                dbits(op == 44 ? (double) x : (double) (u64) x)));
            return ret(mkFP(op == 44 ? FSITO : FUITO, w, n, 0, 0,
                            fbits(op == 44 ? (float) x : (float) (u64) x)));
        }
        case 45: {
            if (A.s == GR) {
                if (gridFits(A.a, 32) && A.aux < 120) return ret(mkGrid(32, A.a, (int) A.aux));
            }
            haveFP = true;
            return ret(mkFP(FTRC, 32, toFP(s), 0, 0, fbits((float) fval(A))));
        }
        case 46: {
            if (A.s == GR) return ret(mkGrid(64, A.a, (int) A.aux));
            haveFP = true;
            return ret(mkFP(FEXT, 64, s, 0, 0, dbits((double) asf(A.cv))));
        }
        case 47:
        case 48: return ret(w == A.w ? s : w < A.w ? mkTrunc(s, w) : mkZext(s, w));
        case 49: {
            if (tIsF(from) == tIsF(to)) return s;
            if (tIsF(from)) {
                if (A.s == GR)
                    return ret(intern(FBITS, BV, w, toFP(s), 0, 0, 0, A.cv & mask(w), smin_(w), smax_(w)));
                if (A.op == FFROMBITS) return ret(A.a);
                haveFP = true;
                return intern(FBITS, BV, w, s, 0, 0, 0, A.cv & mask(w), smin_(w), smax_(w));
            }
            if (A.op == FBITS) {
                if (N[A.a].op == G2F) return ret(mkGrid(N[A.a].w, N[A.a].a, (int) N[A.a].aux));
                return ret(A.a);
            }
            haveFP = true;
            return mkFP(FFROMBITS, w, s, 0, 0, A.cv & mask(w));
        }
    }
    pin(s, "cast");
    return 0;
}
i32 __sym_funnel(i32 isL, i32 ty, i32 sa, i64 va, i32 sb, i64 vb, i64 c)
{
    if (!sa && !sb) return 0;
    i32 a = use(sa, ty, va), b = use(sb, ty, vb);
    int w = ty;
    u64 s = (u64) c % w;
    if (s == 0) return ret(isL ? a : b);
    if (!isL) s = w - s;
    return ret(mkConcat(mkTrunc(a, w - (int) s), mkExtract(b, w - (int) s, (int) s)));
}
void __sym_store(void* p, i32 bytes, i32 ty, i32 s, i64 v)
{
    if (!s) {
        shClear((u64) p, bytes);
        return;
    }
    i32 n = s;
    // i1 is stored as a byte
    if (ty < 8) n = mkZext(s, 8);
    else if (ty < 100 && ty != bytes * 8) n = mkZext(s, bytes * 8);
    for (int i = 0; i < bytes; ++i) {
        Cell* c = cell((u64) p + i, true);
        *c = {(u32) n, (u8) i, (u8) bytes, (u8) ((u64) v >> (8 * i)), 0};
    }
}
i32 __sym_load(void* p, i32 bytes, i32 ty, i64 val)
{
    Cell* c0 = cell((u64) p, false);
    bool cross = ((u64) p & 4095) + bytes > 4096;
    if (!cross) {
        if (!c0) return 0;
        bool any = false;
        for (int i = 0; i < bytes; ++i) any |= c0[i].node != 0;
        if (!any) return 0;
    }
    Cell cs[8];
    const u8* mem = (const u8*) p;
    bool whole = true, any = false;
    for (int i = 0; i < bytes; ++i) {
        Cell* c = cross ? cell((u64) p + i, false) : c0 + i;
        cs[i] = c ? *c : Cell{0, 0, 0, 0, 0};
        if (cs[i].node && cs[i].cb != mem[i]) {// overwritten behind our back
            cs[i].node = 0;
        }
        if (cs[i].node) any = true;
        if (!cs[i].node || cs[i].node != cs[0].node || cs[i].idx != i || cs[i].total != bytes)
            whole = false;
    }
    if (!any) return 0;
    i32 r;
    if (whole) {
        r = (i32) cs[0].node;
        const Node& A = N[r];
        bool f = tIsF(ty);
        if (f && A.s == BV) r = __sym_cast(49, bytes * 8, ty, r, 0);
        else if (!f && A.s != BV) r = __sym_cast(49, A.w == 64 ? 164 : 132, bytes * 8, r, 0);
        if (!r) return 0;
    } else {
        r = -1;
        for (int i = bytes - 1; i >= 0; --i) {
            i32 b;
            if (!cs[i].node) {
                b = kbv(8, mem[i]);
            } else {
                i32 n = (i32) cs[i].node;
                if (N[n].s != BV) {
                    i32 n2 = __sym_cast(49, N[n].w == 64 ? 164 : 132, cs[i].total * 8, n, 0);
                    b = n2 ? mkExtract(n2, cs[i].idx * 8, 8) : kbv(8, mem[i]);
                } else {
                    b = mkExtract(n, cs[i].idx * 8, 8);
                }
            }
            r = r < 0 ? b : mkConcat(r, b);
        }
        if (isK(r)) return 0;
        if (tIsF(ty)) r = __sym_cast(49, bytes * 8, ty, r, 0);
        if (!r) return 0;
    }
    if (!tIsF(ty) && ty != bytes * 8) r = mkTrunc(r, ty);
    if (!sameVal(N[r], (u64) val)) {
        ++st.mism;
        if (getenv("SYM_DEBUG")) fprintf(stderr, "mismatch of a load: op %s size %d\n", opname[N[r].op], (int) bytes);
        return 0;
    }
    return ret(r);
}
void __sym_clear(void* p, i64 n) { shClear((u64) p, (u64) n); }
void __sym_free(void* p)
{
    if (p) shClear((u64) p, malloc_usable_size(p));
}
void __sym_addr(i32 s, i64) { pin(s, "address"); }
void __sym_memcpy(void* d, void* s, i64 n)
{
    if (n <= 0 || d == s) return;
    u64 D = (u64) d, Sr = (u64) s;
    // quick test: any shadow in the source at all
    bool any = false;
    for (u64 a = Sr; a < Sr + n; a = (a | 4095) + 1) {
        Cell* c = cell(a, false);
        if (!c) continue;
        u64 e = std::min<u64>(4096 - (a & 4095), Sr + n - a);
        for (u64 i = 0; i < e; ++i)
            if (c[i].node) {
                any = true;
                break;
            }
        if (any) break;
    }
    if (!any) {
        shClear(D, n);
        return;
    }
    auto cp = [&](u64 i) {
        Cell* sc = cell(Sr + i, false);
        if (sc && sc->node && sc->cb == *(u8*) (Sr + i))
            *cell(D + i, true) = *sc;
        else {
            Cell* dc = cell(D + i, false);
            if (dc) dc->node = 0;
        }
    };
    if (D < Sr)
        for (u64 i = 0; i < (u64) n; ++i) cp(i);
    else
        for (u64 i = n; i-- > 0;) cp(i);
}
void __sym_memset(void* p, i32 s, i64 v, i64 n)
{
    if (!s) {
        shClear((u64) p, n);
        return;
    }
    i32 b = mkTrunc(s, 8);
    for (i64 i = 0; i < n; ++i) *cell((u64) p + i, true) = {(u32) b, 0, 1, (u8) v, 0};
}
static void pinBytes(void* p, u64 n, const char* why)
{
    for (u64 i = 0; i < n; ++i) {
        Cell* c = cell((u64) p + i, false);
        if (!c || !c->node || c->cb != ((u8*) p)[i]) continue;
        i32 nn = (i32) c->node;
        if (N[nn].s == BV)
            pin(mkExtract(nn, c->idx * 8, 8), why);
        else
            pin(nn, why);
    }
}
void __sym_memcmp(void* a, void* b, i64 n, i32 isstr)
{
    if (isstr) {
        u64 l = std::max(strnlen((char*) a, n), strnlen((char*) b, n));
        if ((u64) n > l + 1) n = l + 1;
    }
    pinBytes(a, n, "memcmp");
    pinBytes(b, n, "memcmp");
}
void __sym_strlen(void* p) { pinBytes(p, strlen((char*) p) + 1, "strlen"); }
void __sym_concretize(i32 s, i64, i32, i32 kind)
{
    static const char* kn[] = {"?", "indirectbr", "vector-cmp", "vector-select", "vector-elt",
                               "atomic", "wide-bin", "wide-cast", "unsupported", "vector-gep",
                               "vector-un", "memlen", "fma", "funnel", "intrinsic", "asm",
                               "alloc-size", "wide-arg"};
    pin(s, kind < 18 ? kn[kind] : "?");
}
i32 __sym_frexp(i32 s, i64 v, void* exp)
{
    shClear((u64) exp, 4);
    if (!s) return 0;
    i32 n;
    int k;
    if (!asGrid(s, n, k)) {
        pin(s, "frexp");
        return 0;
    }
    // fork on the exponent: |n| in [2^(b-1), 2^b)
    i64 x = (i64) N[n].cv;
    i32 z = kbv(64, 0);
    addPC(mkEq(n, z), x == 0);
    if (x == 0) return 0;
    u64 m = x < 0 ? 0 - (u64) x : (u64) x;
    int b = 64 - __builtin_clzll(m);
    i32 an = N[n].lo >= 0 ? n : mkIte(mkCmp(SLT, n, z), mkAddSub(true, 64, z, n), n);
    for (int j = 1; j <= b; ++j) addPC(mkCmp(SLT, an, kbv(64, 1ull << j)), j == b);
    return ret(mkGrid(164 == 164 ? 64 : 64, n, b));
}
}// extern C

// --------------------------------------------------------------- harness API
static i32 newVar(const char* name, int w, i64 lo, i64 hi, u64& val)
{
    size_t i = vars.size();
    bool have = i < inputVals.size();
    u64 v = have ? inputVals[i] : 0;
    if (w < 64 || !(lo == INT64_MIN && hi == INT64_MAX)) {
        i64 x = (i64) v;
        if (x < lo || x > hi) v = (u64) (lo <= 0 && hi >= 0 ? 0 : lo);
    }
    val = v;
    i32 n = intern(VAR, BV, w, 0, 0, 0, (i64) i, v & mask(w), lo, hi);
    vars.push_back({name, n, v});
    return n;
}
static void setRet(i32 n, u64 bits)
{
    __sym_ret[0] = n;
    retVal[0] = bits;
}
extern "C" {
int64_t sym_int(const char* name, int64_t lo, int64_t hi)
{
    if (__sym_pending) pinPending("harness");
    u64 v;
    i32 n = newVar(name, 64, lo, hi, v);
    if (lo == hi) setRet(0, v);
    else setRet(n, v);
    return (i64) v;
}
double sym_grid(const char* name, double lo, double hi, int k)
{
    if (__sym_pending) pinPending("harness");
    double s = std::ldexp(1.0, k);
    i64 l = (i64) (lo * s), h = (i64) (hi * s);
    u64 v;
    i32 n = newVar(name, 64, l, h, v);
    __sym_pending = 0;
    double d = (double) (i64) v / s;
    setRet(mkGrid(64, n, k), dbits(d));
    return d;
}
double sym_double(const char* name)
{
    u64 v;
    i32 n = newVar(name, 64, INT64_MIN, INT64_MAX, v);
    __sym_pending = 0;
    haveFP = true;
    setRet(mkFP(FFROMBITS, 64, n, 0, 0, v), v);
    return asd(v);
}
float sym_float(const char* name)
{
    u64 v;
    i32 n = newVar(name, 32, smin_(32), smax_(32), v);
    __sym_pending = 0;
    haveFP = true;
    setRet(mkFP(FFROMBITS, 32, n, 0, 0, v & 0xffffffffu), v & 0xffffffffu);
    return asf(v);
}
bool sym_bool(const char* name)
{
    u64 v;
    i32 n = newVar(name, 8, 0, 1, v);
    __sym_pending = 0;
    setRet(mkNot(mkEq(n, kbv(8, 0))), v & 1);
    return v & 1;
}
int64_t sym_choice(const char* name, int64_t lo, int64_t hi)
{
    if (__sym_pending) pinPending("harness");
    u64 v;
    i32 n = newVar(name, 64, lo, hi, v);
    // enumerate in order: a flip always has a next value
    if (lo != hi) addPC(pinCond(n, v), true, nullptr, false, n);
    setRet(0, v);
    return (i64) v;
}
static i32 takeArg(int i)
{
    i32 r = __sym_pending && (pendMask >> i & 1) ? P[i].s : 0;
    return r;
}
int64_t sym_concrete(int64_t v)
{
    i32 s = takeArg(0);
    __sym_pending = 0;
    pin(s, "harness");
    setRet(0, v);
    return v;
}
double sym_concrete_d(double v)
{
    i32 s = takeArg(0);
    __sym_pending = 0;
    pin(s, "harness");
    setRet(0, dbits(v));
    return v;
}
[[noreturn]] static void endRun() { siglongjmp(runEnd, 1); }
void sym_assume(bool c)
{
    i32 s = takeArg(0);
    __sym_pending = 0;
    if (s) addPC(s, c, nullptr, c);
    if (!c) {
        crash = "";
        endRun();
    }
}
static void doAssert(bool c, const char* label, const char* kf, i32 s)
{
    auto& l = labels[label];
    ++l[0];
    if (s) ++l[2];
    else ++l[1];
    if (!c) {
        viols.emplace_back(label, kf ? kf : "");
        if (s) addPC(s, c);
        return;
    }
    if (s) addPC(s, true, label);
}
void sym_assert(bool c, const char* label)
{
    i32 s = takeArg(0), sl = takeArg(1);
    __sym_pending = 0;
    pin(sl, "label");
    doAssert(c, label, nullptr, s);
}
void sym_assert_kf(bool c, const char* label, bool in, const char* kf)
{
    i32 s = takeArg(0), s1 = takeArg(1), s2 = takeArg(2), s3 = takeArg(3);
    __sym_pending = 0;
    pin(s1, "label");
    pin(s3, "label");
    // separate the known class from the rest, so that a failure outside it
    // is looked for on its own
    if (s2) addPC(s2, in);
    doAssert(c, label, in ? kf : nullptr, s);
}
void sym_reach(const char* label)
{
    if (__sym_pending) pinPending("label");
    ++reached[label];
}
void sym_stop() { stopped = true; __sym_pending = 0; }
int sym_tier() { const char* e = getenv("SYM_TIER"); return e ? atoi(e) : 0; }
}

#include "symq.inc"

// ---------------------------------------------------------------- to z3 ---
struct Tr {
    z3::context& c;
    std::vector<std::optional<z3::expr>> m;
    explicit Tr(z3::context& cc) : c(cc) {}
    static int need(i64 v)
    {
        int b = 1;
        while (!(v >= -(1ll << (b - 1)) && v <= (1ll << (b - 1)) - 1)) {
            ++b;
            if (b == 64) break;
        }
        return b;
    }
    static int ew(const Node& A)
    {
        int x = std::max(need(A.lo), need(A.hi));
        return std::min<int>(std::max(x, 1), A.w);
    }
    z3::expr bvk(i64 v, int w)
    {
        return w >= 64 ? c.bv_val((uint64_t) v, 64) : c.bv_val((uint64_t) v & mask(w), w);
    }
    z3::expr get(i32 n, int W)// BV node (w>1) at width W (low W bits)
    {
        const Node& A = N[n];
        if (A.op == CONST) return bvk(sx(A.cv, A.w), W);
        z3::expr e = *m[n];
        int w = (int) e.get_sort().bv_size();
        if (w == W) return e;
        if (w < W) return z3::sext(e, W - w);
        return e.extract(W - 1, 0);
    }
    z3::sort fs(int w) { return w == 64 ? c.fpa_sort(11, 53) : c.fpa_sort(8, 24); }
    z3::expr getF(i32 n)
    {
        const Node& A = N[n];
        if (A.op == CONST) return z3::expr(c, Z3_mk_fpa_to_fp_bv(c, c.bv_val((uint64_t) A.cv, A.w), fs(A.w)));
        return *m[n];
    }
    z3::expr getB(i32 n)
    {
        if (isK(n)) return c.bool_val(N[n].cv & 1);
        return *m[n];
    }
    z3::expr rm(int k)
    {
        switch (k) {
            case 0: return z3::expr(c, Z3_mk_fpa_rtn(c));
            case 1: return z3::expr(c, Z3_mk_fpa_rtp(c));
            case 2: return z3::expr(c, Z3_mk_fpa_rtz(c));
            case 4: return z3::expr(c, Z3_mk_fpa_rna(c));
            default: return z3::expr(c, Z3_mk_fpa_rne(c));
        }
    }
    z3::expr tr(i32 root)
    {
        if (m.size() < N.size()) m.resize(N.size());
        if (isK(root)) return c.bool_val(N[root].cv & 1);
        if (!m[root]) {
            std::vector<i32> stack{root}, todo;
            std::vector<bool>& seen = seen_;
            if (seen.size() < N.size()) seen.resize(N.size());
            while (!stack.empty()) {
                i32 x = stack.back();
                stack.pop_back();
                if (seen[x]) continue;
                seen[x] = true;
                if (m[x] || isK(x)) continue;
                todo.push_back(x);
                const Node& A = N[x];
                if (A.op == VAR) continue;
                int ar = A.op == ITE ? 3 : 2;
                i32 ch[3] = {A.a, A.b, A.c};
                bool unary = A.op == ZEXT || A.op == SEXT || A.op == TRUNC || A.op == EXTRACT
                        || A.op == NOT || A.op == CTLZ || A.op == CTTZ || A.op == CTPOP
                        || A.op == GRID || A.op == FFROMBITS || A.op == FNEG || A.op == FABS
                        || A.op == FSQRT || A.op == FRND || A.op == FISNAN || A.op == FISINF
                        || A.op == FTOSI || A.op == FTOUI || A.op == FSITO || A.op == FUITO
                        || A.op == FEXT || A.op == FTRC || A.op == FBITS || A.op == G2F;
                if (unary) ar = 1;
                for (int i = 0; i < ar; ++i) stack.push_back(ch[i]);
            }
            std::sort(todo.begin(), todo.end());
            for (i32 x : todo) m[x] = build(x);
        }
        return *m[root];
    }
    std::vector<bool> seen_;
    z3::expr build(i32 x)
    {
        const Node A = N[x];
        int W = A.s == BV && A.w > 1 ? ew(A) : 1;
        auto both = [&](int extra = 0) {
            int wa = ew(N[A.a]), wb = ew(N[A.b]);
            return std::min<int>(std::max(wa, wb) + extra, N[A.a].w);
        };
        switch (A.op) {
            case VAR: {
                std::string nm = "v" + std::to_string(A.aux);
                return c.bv_const(nm.c_str(), W);
            }
            case ADD: return get(A.a, W) + get(A.b, W);
            case SUB: return get(A.a, W) - get(A.b, W);
            case MUL: return get(A.a, W) * get(A.b, W);
            case AND:
                if (A.w == 1) return getB(A.a) && getB(A.b);
                return get(A.a, W) & get(A.b, W);
            case OR:
                if (A.w == 1) return getB(A.a) || getB(A.b);
                return get(A.a, W) | get(A.b, W);
            case XOR:
                if (A.w == 1) return getB(A.a) != getB(A.b);
                return get(A.a, W) ^ get(A.b, W);
            case SDIV: case SREM: case UDIV: case UREM: {
                bool sg = A.op == SDIV || A.op == SREM;
                int w2 = sg ? both(1) : A.w;
                z3::expr p = get(A.a, w2), q = get(A.b, w2);
                z3::expr r = A.op == SDIV ? p / q
                        : A.op == SREM ? z3::srem(p, q)
                        : A.op == UDIV ? z3::udiv(p, q) : z3::urem(p, q);
                return fit(r, W);
            }
            case SHL: {
                const Node& B = N[A.b];
                if (B.op == CONST) {
                    u64 s = B.cv & shmask(A.w);
                    if (s >= (u64) W) return bvk(0, W);
                    return z3::shl(get(A.a, W), bvk((i64) s, W));
                }
                int w2 = std::max(W, std::min<int>(A.w, 7));
                z3::expr s = amount(A.b, A.w, std::max(w2, 7));
                z3::expr r = z3::shl(get(A.a, std::max(w2, 7)), s);
                return fit(r, W);
            }
            case LSHR: case ASHR: {
                const Node& B = N[A.b];
                int w2 = A.op == ASHR ? ew(N[A.a]) : A.w;
                if (B.op == CONST) {
                    u64 s = B.cv & shmask(A.w);
                    if (A.op == ASHR)
                        return fit(z3::ashr(get(A.a, w2), bvk((i64) std::min<u64>(s, w2 - 1), w2)), W);
                    if (s >= (u64) w2) return bvk(0, W);
                    return fit(z3::lshr(get(A.a, w2), bvk((i64) s, w2)), W);
                }
                w2 = std::max(w2, 8);
                z3::expr s = amount(A.b, A.w, w2);
                if (A.op == ASHR) return fit(z3::ashr(get(A.a, w2), s), W);
                return fit(z3::lshr(get(A.a, w2), s), W);
            }
            case ZEXT: {
                int w1 = N[A.a].w;
                if (N[A.a].w == 1) break;
                return fit(z3::zext(get(A.a, w1), 1), W);
            }
            case SEXT: return get(A.a, W);
            case TRUNC:
                if (A.w == 1) return get(A.a, 1) == c.bv_val(1, 1);
                return get(A.a, W);
            case EXTRACT: {
                int hi = (int) A.aux + A.w - 1;
                z3::expr e = get(A.a, hi + 1).extract(hi, (unsigned) A.aux);
                if (A.w == 1) return e == c.bv_val(1, 1);
                return e;
            }
            case CONCAT: return z3::concat(full(A.a), full(A.b));
            case ITE:
                if (A.s == FP) return z3::ite(getB(A.a), getF(A.b), getF(A.c));
                if (A.w == 1) return z3::ite(getB(A.a), getB(A.b), getB(A.c));
                return z3::ite(getB(A.a), get(A.b, W), get(A.c, W));
            case EQ:
                if (N[A.a].w == 1) return getB(A.a) == getB(A.b);
                {
                    int w2 = both();
                    return get(A.a, w2) == get(A.b, w2);
                }
            case ULT: { int w2 = both(); return z3::ult(get(A.a, w2), get(A.b, w2)); }
            case ULE: { int w2 = both(); return z3::ule(get(A.a, w2), get(A.b, w2)); }
            case SLT: { int w2 = both(); return get(A.a, w2) < get(A.b, w2); }
            case SLE: { int w2 = both(); return get(A.a, w2) <= get(A.b, w2); }
            case NOT: return !getB(A.a);
            case CTLZ: {
                z3::expr a = get(A.a, A.w);
                z3::expr r = bvk(A.w, 8);
                for (int i = 0; i < A.w; ++i)
                    r = z3::ite(a.extract(i, i) == c.bv_val(1, 1), bvk(A.w - 1 - i, 8), r);
                return fit(r, W);
            }
            case CTTZ: {
                z3::expr a = get(A.a, A.w);
                z3::expr r = bvk(A.w, 8);
                for (int i = A.w; i-- > 0;)
                    r = z3::ite(a.extract(i, i) == c.bv_val(1, 1), bvk(i, 8), r);
                return fit(r, W);
            }
            case CTPOP: {
                z3::expr a = get(A.a, A.w);
                z3::expr r = bvk(0, 8);
                for (int i = 0; i < A.w; ++i) r = r + z3::zext(a.extract(i, i), 7);
                return fit(r, W);
            }
            case OVF: {
                bool sg = (A.aux % 2) == 0;
                int o = ((int) A.aux - 1120) / 2, w1 = N[A.a].w;
                z3::expr p = sg ? z3::sext(get(A.a, w1), w1) : z3::zext(get(A.a, w1), w1);
                z3::expr q = sg ? z3::sext(get(A.b, w1), w1) : z3::zext(get(A.b, w1), w1);
                z3::expr r = o == 0 ? p + q : o == 1 ? p - q : p * q;
                z3::expr t = r.extract(w1 - 1, 0);
                return r != (sg ? z3::sext(t, w1) : z3::zext(t, w1));
            }
            case GRID: return c.bool_val(true);// never used directly
            case G2F: {
                z3::expr n = get(A.a, std::max(2, ew(N[A.a])));
                z3::expr f(c, Z3_mk_fpa_to_fp_signed(c, rm(3), n, fs(A.w)));
                if (A.aux == 0) return f;
                z3::expr d = fpk(std::ldexp(1.0, (int) A.aux), A.w);
                return z3::expr(c, Z3_mk_fpa_div(c, rm(3), f, d));
            }
            case FFROMBITS: return z3::expr(c, Z3_mk_fpa_to_fp_bv(c, full(A.a), fs(A.w)));
            case FBITS: return z3::expr(c, Z3_mk_fpa_to_ieee_bv(c, getF(A.a)));
            case FADD: return z3::expr(c, Z3_mk_fpa_add(c, rm(3), getF(A.a), getF(A.b)));
            case FSUB: return z3::expr(c, Z3_mk_fpa_sub(c, rm(3), getF(A.a), getF(A.b)));
            case FMUL: return z3::expr(c, Z3_mk_fpa_mul(c, rm(3), getF(A.a), getF(A.b)));
            case FDIV: return z3::expr(c, Z3_mk_fpa_div(c, rm(3), getF(A.a), getF(A.b)));
            case FNEG: return z3::expr(c, Z3_mk_fpa_neg(c, getF(A.a)));
            case FABS: return z3::expr(c, Z3_mk_fpa_abs(c, getF(A.a)));
            case FSQRT: return z3::expr(c, Z3_mk_fpa_sqrt(c, rm(3), getF(A.a)));
            case FRND: return z3::expr(c, Z3_mk_fpa_round_to_integral(c, rm((int) A.aux), getF(A.a)));
            case FEQ: return z3::expr(c, Z3_mk_fpa_eq(c, getF(A.a), getF(A.b)));
            case FLT: return z3::expr(c, Z3_mk_fpa_lt(c, getF(A.a), getF(A.b)));
            case FLE: return z3::expr(c, Z3_mk_fpa_leq(c, getF(A.a), getF(A.b)));
            case FISNAN: return z3::expr(c, Z3_mk_fpa_is_nan(c, getF(A.a)));
            case FISINF: return z3::expr(c, Z3_mk_fpa_is_infinite(c, getF(A.a)));
            case FTOSI: return z3::expr(c, Z3_mk_fpa_to_sbv(c, rm(2), getF(A.a), A.w));
            case FTOUI: return z3::expr(c, Z3_mk_fpa_to_ubv(c, rm(2), getF(A.a), A.w));
            case FSITO: return z3::expr(c, Z3_mk_fpa_to_fp_signed(c, rm(3), get(A.a, std::max(2, ew(N[A.a]))), fs(A.w)));
            case FUITO: return z3::expr(c, Z3_mk_fpa_to_fp_unsigned(c, rm(3), get(A.a, N[A.a].w), fs(A.w)));
            case FEXT: case FTRC: return z3::expr(c, Z3_mk_fpa_to_fp_float(c, rm(3), getF(A.a), fs(A.w)));
            default: break;
        }
        fatal("untranslatable node");
    }
    z3::expr fpk(double d, int w)
    {
        u64 b = fconst(w, d);
        return z3::expr(c, Z3_mk_fpa_to_fp_bv(c, c.bv_val((uint64_t) b, w), fs(w)));
    }
    z3::expr full(i32 n)
    {
        if (N[n].w == 1) return z3::ite(getB(n), c.bv_val(1, 1), c.bv_val(0, 1));
        return get(n, N[n].w);
    }
    z3::expr amount(i32 b, int w, int W)
    {
        z3::expr s = get(b, W);
        const Node& B = N[b];
        if (B.lo >= 0 && B.hi < w) return s;
        return s & bvk((i64) shmask(w), W);
    }
    z3::expr fit(const z3::expr& e, int W)
    {
        int w = (int) e.get_sort().bv_size();
        if (w == W) return e;
        if (w < W) return z3::sext(e, W - w);
        return e.extract(W - 1, 0);
    }
};

// ---------------------------------------------------------------- driver --
static double now()
{
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return (double) t.tv_sec + 1e-9 * (double) t.tv_nsec;
}
struct Item {
    std::vector<u64> in;
    std::vector<u64> excl;// values of the pinned node at index `bound` already taken
    u32 bound = 0;
    u32 depth = 0;
};
struct Out {
    std::string s;
    template <class T>
    void put(const T& v) { s.append((const char*) &v, sizeof v); }
    void str(const std::string& v)
    {
        put((u32) v.size());
        s += v;
    }
};
struct In {
    const std::string& s;
    size_t p = 0;
    bool bad = false;
    template <class T>
    T get()
    {
        T v{};
        if (p + sizeof v > s.size()) {
            bad = true;
            return v;
        }
        memcpy(&v, s.data() + p, sizeof v);
        p += sizeof v;
        return v;
    }
    std::string str()
    {
        u32 n = get<u32>();
        if (bad || p + n > s.size()) {
            bad = true;
            return {};
        }
        std::string r = s.substr(p, n);
        p += n;
        return r;
    }
};
static int optQT = 10000, optPathSec = 20, optJobs = 8;
static double optTime = 600;
static u64 optMaxPaths = 1000000;
#include "symq_solve.inc"
extern "C" void __sanitizer_cov_trace_pc_guard_init(uint32_t* a, uint32_t* b)
{
    for (; a < b; ++a) *a = 1;
}
extern "C" void __sanitizer_cov_trace_pc_guard(uint32_t* g)
{
    if (!*g || !active) return;
    *g = 0;
    fnList.push_back(__builtin_return_address(0));
}

static void onCrash(int sig)
{
    crash = sig == SIGALRM ? "hang" : sig == SIGABRT ? "abort" : sig == SIGFPE ? "SIGFPE" : "SIGSEGV";
    siglongjmp(runEnd, 2);
}
static void onTerm()
{
    std::string w = "uncaught";
    if (auto e = std::current_exception()) {
        try {
            std::rethrow_exception(e);
        } catch (std::exception& x) {
            w += std::string(" ") + typeid(x).name() + ": " + x.what();
        } catch (...) {
        }
    }
    crash = w;
    siglongjmp(runEnd, 3);
}

static std::string runOne(const Item& it)
{
    Out o;
    inputVals = it.in;
    active = true;
    st = Stats();
    static char alt[1 << 16];
    stack_t ss{};
    ss.ss_sp = alt;
    ss.ss_size = sizeof alt;
    sigaltstack(&ss, nullptr);
    struct sigaction sa {};
    sa.sa_handler = onCrash;
    sa.sa_flags = SA_ONSTACK | SA_NODEFER;
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGALRM}) sigaction(s, &sa, nullptr);
    std::set_terminate(onTerm);
    alarm(optPathSec);
    if (sigsetjmp(runEnd, 1) == 0) {
        try {
            sym_main();
        } catch (std::exception& e) {
            crash = std::string("uncaught ") + typeid(e).name() + ": " + e.what();
        } catch (...) {
            crash = "uncaught exception";
        }
    }
    alarm(0);
    active = false;
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGALRM}) signal(s, SIG_DFL);
    for (char& c : crash)
        if ((unsigned char) c < 32) c = ' ';
    if (!crash.empty()) viols.emplace_back("crash:" + crash, "");
    std::vector<u64> myIn;
    for (auto& v : vars) myIn.push_back(v.val);
    if (PC.size() < it.bound) ++st.diverged;
    // a path that does not end: its first decisions are enough
    if (crash == "hang" && PC.size() > std::max<size_t>(it.bound, 200)) PC.resize(std::max<size_t>(it.bound, 200));
    st.nodes = N.size();
    st.maxpc = PC.size();

    // --- frame for the solver process
    Out f;
    f.put(it.bound);
    f.put(it.depth);
    f.put((u32) it.excl.size());
    for (u64 v : it.excl) f.put(v);
    f.put((u32) haveFP);
    f.put((u32) N.size());
    f.s.append((const char*) N.data(), N.size() * sizeof(Node));
    f.put((u32) vars.size());
    for (auto& v : vars) {
        f.put(v.node);
        f.put(v.val);
    }
    f.put((u32) PC.size());
    for (auto& p : PC) {
        f.put(p.cond);
        f.put((u8) p.taken);
        f.put((u8) p.assume);
        f.str(p.label ? p.label : "");
        f.put(p.nv);
        f.put(p.tgt);
        f.put(p.q);
    }
    sq::putFrame(f);
    o.put((u32) viols.size());
    for (auto& v : viols) {
        o.str(v.first);
        o.str(v.second);
    }
    o.put((u32) myIn.size());
    for (size_t i = 0; i < vars.size(); ++i) {
        o.str(vars[i].name);
        o.put(vars[i].val);
    }
    o.put((u32) labels.size());
    for (auto& l : labels) {
        o.str(l.first);
        for (u64 x : l.second) o.put(x);
    }
    o.put((u32) reached.size());
    for (auto& l : reached) {
        o.str(l.first);
        o.put(l.second);
    }
    o.put((u32) concKinds.size());
    for (auto& l : concKinds) {
        o.str(l.first);
        o.put(l.second);
    }
    o.put((u32) extCalls.size());
    for (auto& l : extCalls) o.str(l);
    o.put((u32) fnList.size());
    for (auto f : fnList) o.put((u64) f);
    f.put(st);
    f.str(o.s);
    return f.s;
}

// solve every open flip of one recorded path
static std::string solveFrame(const std::string& frame, z3::context& c)
{
    In f{frame};
    Item it;
    it.bound = f.get<u32>();
    it.depth = f.get<u32>();
    u32 n = f.get<u32>();
    for (u32 i = 0; i < n; ++i) it.excl.push_back(f.get<u64>());
    haveFP = f.get<u32>();
    n = f.get<u32>();
    N.resize(n);
    memcpy((void*) N.data(), frame.data() + f.p, n * sizeof(Node));
    f.p += n * sizeof(Node);
    cons.clear();
    vars.clear();
    n = f.get<u32>();
    std::vector<u64> myIn;
    for (u32 i = 0; i < n; ++i) {
        VarInfo v;
        v.node = f.get<i32>();
        v.val = f.get<u64>();
        vars.push_back(v);
        myIn.push_back(v.val);
    }
    PC.clear();
    n = f.get<u32>();
    std::deque<std::string> lab;
    for (u32 i = 0; i < n; ++i) {
        PCEnt p;
        p.cond = f.get<i32>();
        p.taken = f.get<u8>();
        p.assume = f.get<u8>();
        lab.push_back(f.str());
        p.label = lab.back().empty() ? nullptr : lab.back().c_str();
        p.nv = f.get<u32>();
        p.tgt = f.get<i32>();
        p.q = f.get<i32>();
        PC.push_back(p);
    }
    sq::getFrame(f);
    concKinds.clear();
    st = f.get<Stats>();
    std::string rest = f.str();
    // hash-consing must see the received nodes (exclusions create new ones)
    bool needCons = !it.excl.empty();
    if (needCons)
        for (size_t i = 0; i < N.size(); ++i) {
            const Node& A = N[i];
            cons.try_emplace(Key{(u64) A.op | (u64) A.s << 16 | (u64) A.w << 24 | (u64) (u32) A.a << 32,
                                 (u64) (u32) A.b | (u64) (u32) A.c << 32, A.aux,
                                 A.op == CONST ? A.cv : 0},
                             (i32) i);
        }
    std::vector<Item> next;
    std::vector<std::pair<std::string, std::string>> unk;
    {
        z3::params pr(c);
        pr.set("rlimit", (unsigned) optQT * 1000);
        z3::solver s = haveFP ? z3::tactic(c, "qffpbv").mk_solver() : z3::solver(c, "QF_BV");
        s.set(pr);
        Tr t(c);
        size_t vdone = 0;
        auto addVars = [&](size_t upto) {
            for (; vdone < upto && vdone < vars.size(); ++vdone) {
                const Node& A = N[vars[vdone].node];
                if (A.lo == smin_(A.w) && A.hi == smax_(A.w)) continue;
                // range constraint only where the encoding width does not
                // already imply it
                int W = Tr::ew(A);
                t.tr(vars[vdone].node);
                z3::expr e = *t.m[vars[vdone].node];
                if (A.lo > smin_(W)) s.add(e >= t.bvk(A.lo, W));
                if (A.hi < smax_(W)) s.add(e <= t.bvk(A.hi, W));
            }
        };
        std::vector<std::pair<u32, bool>> qprefix;
        std::vector<u32> qproved;
        for (size_t i = 0; i < PC.size(); ++i) {
            auto& p = PC[i];
            if (p.q >= 0) {
                const sq::QC& q = sq::qc[(size_t) p.q];
                if (p.label && q.P.zero()) {
                    qproved.push_back((u32) p.q);
                    continue;
                }
                if (i >= it.bound && !p.assume) {
                    ++st.q;
                    double t0 = now();
                    std::vector<sq::Rat> a;
                    int r = sq::solveFlip(c, qprefix, (u32) p.q, !p.taken, a);
                    if (r == 1) {
                        ++st.sat;
                        Item ni;
                        ni.in = myIn;
                        ni.bound = (u32) i + 1;
                        ni.depth = it.depth + 1;
                        for (size_t k = 0; k < sq::V.size() && k < a.size(); ++k)
                            if (sq::V[k].input >= 0) ni.in[(size_t) sq::V[k].input] = sq::enc(a[k].n, a[k].d);
                        next.push_back(std::move(ni));
                    } else if (r == 0) {
                        ++st.unsat;
                        if (p.label) ++st.proved;
                    } else {
                        ++st.unknown;
                        unk.emplace_back(p.label ? p.label : "branch", "rational");
                    }
                    st.us += (u64) ((now() - t0) * 1e6);
                    if (r == 0) continue;
                }
                if (!p.label) qprefix.push_back({(u32) p.q, p.taken});
                continue;
            }
            addVars(p.nv);
            z3::expr e = t.tr(p.cond);
            if (i >= it.bound && !p.assume) {
                ++st.q;
                double t0 = now();
                s.push();
                s.add(p.taken ? !e : e);
                bool first = i == it.bound && p.tgt;
                if (first)
                    for (u64 x : it.excl) {
                        i32 pc = pinCond(p.tgt, x);
                        s.add(!t.tr(pc));
                    }
                z3::check_result r;
                try {
                    r = s.check();
                } catch (z3::exception&) {
                    r = z3::unknown;
                }
                if (r == z3::sat) {
                    ++st.sat;
                    z3::model md = s.get_model();
                    Item ni;
                    ni.in = myIn;
                    ni.bound = (u32) i + 1;
                    if (p.tgt) {
                        ni.bound = (u32) i;
                        if (first) ni.excl = it.excl;
                        ni.excl.push_back(N[p.tgt].cv);
                    }
                    ni.depth = it.depth + 1;
                    for (size_t k = 0; k < p.nv; ++k) {
                        i32 vn = vars[k].node;
                        if (vn >= (i32) t.m.size() || !t.m[vn]) continue;
                        z3::expr ve = *t.m[vn];
                        z3::expr val = md.eval(ve, false);
                        if (!val.is_numeral()) continue;
                        uint64_t u = val.get_numeral_uint64();
                        ni.in[k] = (u64) sx(u, (int) ve.get_sort().bv_size());
                    }
                    next.push_back(std::move(ni));
                } else if (r == z3::unsat) {
                    ++st.unsat;
                    if (p.label) ++st.proved;
                } else {
                    ++st.unknown;
                    unk.emplace_back(p.label ? p.label : "branch", opname[N[p.cond].op]);
                }
                s.pop();
                st.us += (u64) ((now() - t0) * 1e6);
                // implied by the prefix: adding it would change nothing
                if (r == z3::unsat && !(first && !it.excl.empty())) continue;
            }
            s.add(p.taken ? e : !e);
        }
        if (!qproved.empty()) {
            double t0 = now();
            u64 form = 0, bad = 0;
            sq::confirm(c, qproved, st.proved, form, bad);
            st.formOnly += form;
            st.mism += bad;
            if (bad && getenv("SYM_DEBUG")) fprintf(stderr, "mismatch of a polynomial form\n");
            st.us += (u64) ((now() - t0) * 1e6);
        }
    }
    Out o;
    o.put(st);
    o.put((u32) next.size());
    for (auto& n : next) {
        o.put(n.bound);
        o.put(n.depth);
        o.put((u32) n.in.size());
        for (u64 v : n.in) o.put(v);
        o.put((u32) n.excl.size());
        for (u64 v : n.excl) o.put(v);
    }
    o.put((u32) unk.size());
    for (auto& u : unk) o.str(u.first + ":" + u.second);
    o.s += rest;
    o.put((u32) 0xC0FFEE);
    return o.s;
}
static bool writeAll(int fd, const std::string& r)
{
    size_t off = 0;
    while (off < r.size()) {
        ssize_t k = write(fd, r.data() + off, r.size() - off);
        if (k < 0 && errno == EINTR) continue;
        if (k <= 0) return false;
        off += (size_t) k;
    }
    return true;
}
static bool readAll(int fd, void* p, size_t n)
{
    char* q = (char*) p;
    while (n) {
        ssize_t k = read(fd, q, n);
        if (k < 0 && errno == EINTR) continue;
        if (k <= 0) return false;
        q += k;
        n -= (size_t) k;
    }
    return true;
}
static bool sendMsg(int fd, const std::string& r)
{
    u64 n = r.size();
    return writeAll(fd, std::string((const char*) &n, 8)) && writeAll(fd, r);
}
[[noreturn]] static void worker(int in, int out)
{
    std::unique_ptr<z3::context> c;
    u64 cnt = 0;
    for (;;) {
        u64 n;
        if (!readAll(in, &n, 8)) _exit(0);
        std::string f(n, 0);
        if (!readAll(in, f.data(), n)) _exit(0);
        if (!c || ++cnt % 300 == 0) c = std::make_unique<z3::context>();
        std::string r = solveFrame(f, *c);
        if (!sendMsg(out, r)) _exit(0);
    }
}
static std::string js(const std::string& s)
{
    std::string r = "\"";
    for (char ch : s) {
        if (ch == '"' || ch == '\\') r += '\\', r += ch;
        else if ((unsigned char) ch < 32) r += ' ';
        else r += ch;
    }
    return r + "\"";
}
int main(int argc, char** argv)
{
    auto env = [](const char* n, double d) {
        const char* e = getenv(n);
        return e ? atof(e) : d;
    };
    optQT = (int) env("SYM_QT", 10000);
    optTime = env("SYM_TIME", 600);
    optPathSec = (int) env("SYM_PATHSEC", 20);
    optJobs = (int) env("SYM_JOBS", 8);
    optMaxPaths = (u64) env("SYM_MAXPATHS", 1e7);
    int stopViol = (int) env("SYM_STOPVIOL", 8);
    const char* outf = getenv("SYM_OUT");
    const char* vdir = getenv("SYM_VIOL");
    bool verbose = getenv("SYM_V") != nullptr;
    N.push_back({CONST, BV, 1, 0, 0, 0, 0, 0, 0, 0});
    N.reserve(4096);
    prctl(PR_SET_THP_DISABLE, 1, 0, 0, 0);
    mallopt(M_MMAP_THRESHOLD, 1 << 30);
    mallopt(M_TRIM_THRESHOLD, 1 << 30);
    mallopt(M_TOP_PAD, 4 << 20);
    sym_setup();
    __sym_pending = 0;
    double t0 = now();
    std::deque<Item> work;
    if (argc > 1) {
        // single input
        Item it;
        FILE* f = fopen(argv[1], "r");
        char line[512];
        while (f && fgets(line, sizeof line, f)) {
            unsigned long long v;
            if (line[0] != '#' && sscanf(line, "%llx", &v) == 1) it.in.push_back(v);
        }
        work.push_back(it);
        optMaxPaths = 1;
    } else {
        work.push_back({});
    }
    struct Slot {
        pid_t solver = 0, runner = 0;
        int in = -1, out = -1;
        bool busy = false;
        Item it;
        double t = 0;
    };
    std::vector<Slot> slots((size_t) optJobs);
    signal(SIGPIPE, SIG_IGN);
    auto spawn = [&](Slot& k) {
        int a[2], b[2];
        if (pipe(a) || pipe(b)) fatal("pipe");
        pid_t pid = fork();
        if (pid < 0) fatal("fork");
        if (pid == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            for (auto& o : slots) {
                if (o.in >= 0) close(o.in);
                if (o.out >= 0) close(o.out);
            }
            close(a[1]);
            close(b[0]);
            worker(a[0], b[1]);
        }
        close(a[0]);
        close(b[1]);
        k.solver = pid;
        k.in = a[1];
        k.out = b[0];
    };
    for (auto& k : slots) spawn(k);
    int nbusy = 0;
    Stats tot;
    u64 paths = 0, engineErr = 0, maxDepth = 0;
    std::map<std::string, std::array<u64, 3>> L;
    std::map<std::string, u64> R, CK, UNK;
    std::set<std::string> EC;
    std::set<u64> FN;
    struct V {
        std::string label, kf, file;
        u64 n;
    };
    std::map<std::string, V> VS;
    bool timedOut = false;
    while (!work.empty() || nbusy) {
        if (now() - t0 > optTime || paths >= optMaxPaths) {
            if (!work.empty()) {
                timedOut = now() - t0 > optTime || argc <= 1;
                work.clear();
            }
            if (now() - t0 > optTime + 30) break;
        }
        int nv = 0;
        for (auto& v : VS)
            if (v.second.kf.empty()) ++nv;
        if (nv >= stopViol) {
            work.clear();
        }
        for (auto& k : slots) {
            if (k.busy || work.empty()) continue;
            k.it = std::move(work.front());
            work.pop_front();
            fflush(stdout);
            fflush(stderr);
            pid_t pid = fork();
            if (pid < 0) fatal("fork");
            if (pid == 0) {
                prctl(PR_SET_PDEATHSIG, SIGKILL);
                std::string r = runOne(k.it);
                signal(SIGPIPE, SIG_DFL);
                _exit(sendMsg(k.in, r) ? 0 : 3);
            }
            k.runner = pid;
            k.busy = true;
            k.t = now();
            ++nbusy;
            ++paths;
        }
        std::vector<pollfd> pf;
        for (auto& k : slots) pf.push_back({k.busy ? k.out : -1, POLLIN, 0});
        if (poll(pf.data(), pf.size(), 100) < 0 && errno != EINTR) fatal("poll");
        for (size_t i = slots.size(); i-- > 0;) {
            auto& k = slots[i];
            if (!k.busy) continue;
            std::string buf;
            int ws = 0;
            bool done = false, respawn = false;
            if (pf[i].revents) {
                u64 n;
                done = true;
                if (readAll(k.out, &n, 8)) {
                    buf.resize(n);
                    if (!readAll(k.out, buf.data(), n)) respawn = true;
                } else {
                    respawn = true;
                }
            } else if (k.runner) {
                if (waitpid(k.runner, &ws, WNOHANG) == k.runner) {
                    k.runner = 0;
                    if (ws != 0) {
                        done = true;
                        respawn = true;
                    }
                }
            }
            if (!done && now() - k.t > optPathSec + 120) {
                done = respawn = true;
            }
            if (!done) continue;
            if (k.runner) {
                if (respawn) kill(k.runner, SIGKILL);
                waitpid(k.runner, &ws, 0);
                k.runner = 0;
            }
            k.busy = false;
            --nbusy;
            if (respawn) {
                kill(k.solver, SIGKILL);
                int w2;
                waitpid(k.solver, &w2, 0);
                close(k.in);
                close(k.out);
                k.in = k.out = -1;
                buf.clear();
                spawn(k);
            }
            In in{buf};
            Stats s = in.get<Stats>();
            u32 nn = in.get<u32>();
            std::vector<Item> ni;
            for (u32 j = 0; j < nn && !in.bad; ++j) {
                Item q;
                q.bound = in.get<u32>();
                q.depth = in.get<u32>();
                u32 m = in.get<u32>();
                for (u32 x = 0; x < m && !in.bad; ++x) q.in.push_back(in.get<u64>());
                m = in.get<u32>();
                for (u32 x = 0; x < m && !in.bad; ++x) q.excl.push_back(in.get<u64>());
                ni.push_back(std::move(q));
            }
            std::vector<std::string> un;
            nn = in.get<u32>();
            for (u32 j = 0; j < nn && !in.bad; ++j) un.push_back(in.str());
            std::vector<std::pair<std::string, std::string>> vs;
            nn = in.get<u32>();
            for (u32 j = 0; j < nn && !in.bad; ++j) {
                std::string a = in.str(), b = in.str();
                vs.push_back({a, b});
            }
            std::vector<std::pair<std::string, u64>> vv;
            nn = in.get<u32>();
            for (u32 j = 0; j < nn && !in.bad; ++j) {
                std::string a = in.str();
                vv.push_back({a, in.get<u64>()});
            }
            std::map<std::string, std::array<u64, 3>> l;
            nn = in.get<u32>();
            for (u32 j = 0; j < nn && !in.bad; ++j) {
                std::string a = in.str();
                for (auto& x : l[a]) x = in.get<u64>();
            }
            auto getMap = [&](std::map<std::string, u64>& M) {
                u32 z = in.get<u32>();
                for (u32 j = 0; j < z && !in.bad; ++j) {
                    std::string a = in.str();
                    M[a] += in.get<u64>();
                }
            };
            std::map<std::string, u64> r, ck;
            getMap(r);
            getMap(ck);
            std::vector<std::string> ec;
            nn = in.get<u32>();
            for (u32 j = 0; j < nn && !in.bad; ++j) ec.push_back(in.str());
            std::vector<u64> fl;
            nn = in.get<u32>();
            for (u32 j = 0; j < nn && !in.bad; ++j) fl.push_back(in.get<u64>());
            bool ok = !in.bad && in.get<u32>() == 0xC0FFEE;
            if (!ok) {
                ++engineErr;
                fprintf(stderr, "symrt: path process failed (status %x)\n", ws);
                if (vdir) {
                    std::string fnm = std::string(vdir) + "/engine-error-" + std::to_string(engineErr) + ".in";
                    if (FILE* f = fopen(fnm.c_str(), "w")) {
                        for (u64 v : k.it.in) fprintf(f, "%llx\n", (unsigned long long) v);
                        fclose(f);
                    }
                }
            } else {
                tot.branches += s.branches;
                tot.q += s.q;
                tot.sat += s.sat;
                tot.unsat += s.unsat;
                tot.unknown += s.unknown;
                tot.us += s.us;
                tot.conc += s.conc;
                tot.mism += s.mism;
                tot.proved += s.proved;
                tot.diverged += s.diverged;
                tot.formOnly += s.formOnly;
                tot.nodes = std::max(tot.nodes, s.nodes);
                tot.maxpc = std::max(tot.maxpc, s.maxpc);
                maxDepth = std::max<u64>(maxDepth, k.it.depth);
                for (auto& q : ni) work.push_back(std::move(q));
                for (auto& [a, x] : l)
                    for (int z = 0; z < 3; ++z) L[a][z] += x[z];
                for (auto& [a, x] : r) R[a] += x;
                for (auto& [a, x] : ck) CK[a] += x;
                for (auto& u : un) ++UNK[u];
                EC.insert(ec.begin(), ec.end());
                FN.insert(fl.begin(), fl.end());
                for (auto& v : vs) {
                    auto& e = VS[v.first + "|" + v.second];
                    ++e.n;
                    if (e.n > 1) continue;
                    e.label = v.first;
                    e.kf = v.second;
                    std::string nm;
                    for (char ch : v.first.substr(0, 60)) nm += isalnum((unsigned char) ch) ? ch : '_';
                    e.file = nm + (v.second.empty() ? "" : "-kf") + ".in";
                    if (vdir) {
                        std::string fnm = std::string(vdir) + "/" + e.file;
                        if (FILE* f = fopen(fnm.c_str(), "w")) {
                            fprintf(f, "# %s %s\n", v.first.c_str(), v.second.c_str());
                            for (auto& q : vv)
                                fprintf(f, "%llx %s = %lld\n", (unsigned long long) q.second,
                                        q.first.c_str(), (long long) q.second);
                            fclose(f);
                        }
                    }
                    if (verbose) {
                        fprintf(stderr, "FAIL %s %s :", v.first.c_str(), v.second.c_str());
                        for (auto& q : vv) fprintf(stderr, " %s=%lld", q.first.c_str(), (long long) q.second);
                        fprintf(stderr, "\n");
                    }
                }
            }
        }
        if (verbose && paths % 200 == 0) fprintf(stderr, "paths %llu queue %zu t=%.1f\n", (unsigned long long) paths, work.size(), now() - t0);
    }
    if (nbusy) timedOut = true;
    for (auto& k : slots) {
        if (k.runner) kill(k.runner, SIGKILL);
        kill(k.solver, SIGKILL);
    }
    double wall = now() - t0;
    std::string o = "{";
    auto num = [&](const char* n, double v) {
        char b[128];
        snprintf(b, sizeof b, "\"%s\": %.17g, ", n, v);
        o += b;
    };
    num("paths", (double) paths);
    num("branches", (double) tot.branches);
    num("queries", (double) tot.q);
    num("sat", (double) tot.sat);
    num("unsat", (double) tot.unsat);
    num("unknown", (double) tot.unknown);
    num("solver_s", (double) tot.us * 1e-6);
    num("wall_s", wall);
    num("concretisations", (double) tot.conc);
    num("selfcheck_mismatches", (double) tot.mism);
    num("diverged", (double) tot.diverged);
    num("assert_queries_proved", (double) tot.proved);
    num("max_nodes", (double) tot.nodes);
    num("max_path_condition", (double) tot.maxpc);
    num("max_depth", (double) maxDepth);
    num("asserts_by_normal_form_only", (double) tot.formOnly);
    num("engine_errors", (double) engineErr);
    o += std::string("\"complete\": ") + (timedOut || engineErr ? "false" : "true") + ", ";
    o += "\"asserts\": {";
    bool first = true;
    for (auto& [a, x] : L) {
        char b[128];
        snprintf(b, sizeof b, ": [%llu, %llu, %llu]", (unsigned long long) x[0], (unsigned long long) x[1], (unsigned long long) x[2]);
        o += (first ? "" : ", ") + js(a) + b;
        first = false;
    }
    auto map1 = [&](const char* n, const std::map<std::string, u64>& M) {
        o += std::string("}, \"") + n + "\": {";
        bool f1 = true;
        for (auto& [a, x] : M) {
            o += (f1 ? "" : ", ") + js(a) + ": " + std::to_string(x);
            f1 = false;
        }
    };
    map1("reached", R);
    map1("concretised", CK);
    map1("unknown_at", UNK);
    o += "}, \"external_calls\": [";
    first = true;
    for (auto& e : EC) {
        o += (first ? "" : ", ") + js(e);
        first = false;
    }
    o += "], \"functions\": [";
    first = true;
    for (u64 f : FN) {
        char b[32];
        snprintf(b, sizeof b, "%s\"%llx\"", first ? "" : ", ", (unsigned long long) f);
        o += b;
        first = false;
    }
    o += "], \"missing_labels\": [";
    first = true;
    for (auto p = sym_labels; *p; ++p)
        if (!R.count(*p) && !L.count(*p)) {
            o += (first ? "" : ", ") + js(*p);
            first = false;
        }
    o += "], \"violations\": [";
    first = true;
    for (auto& [key, v] : VS) {
        o += std::string(first ? "" : ", ") + "{\"label\": " + js(v.label) + ", \"kf\": " + js(v.kf)
                + ", \"file\": " + js(v.file) + ", \"count\": " + std::to_string(v.n) + "}";
        first = false;
    }
    o += "]}\n";
    if (outf) {
        FILE* f = fopen(outf, "w");
        fputs(o.c_str(), f);
        fclose(f);
    } else {
        fputs(o.c_str(), stdout);
    }
    return 0;
}
