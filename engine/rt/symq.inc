// Symbolic rationals: every value carries its concrete value on this path and
// a polynomial with rational coefficients over the inputs (and over inverses
// of polynomials it was divided by).  Included by symrt.cpp.
#include <gmp.h>
#include <functional>
namespace sq {

// ------------------------------------------------------------- numbers ---
typedef unsigned __int128 u128;
static u128 gcd128(u128 a, u128 b)
{
    while (b) {
        if ((a >> 64) == 0 && (b >> 64) == 0) {
            u64 x = (u64) a, y = (u64) b;
            while (y) {
                u64 t = x % y;
                x = y;
                y = t;
            }
            return x;
        }
        u128 t = a % b;
        a = b;
        b = t;
    }
    return a;
}
struct Rat {
    i64 n = 0, d = 1;
    mpq_ptr b = nullptr;
    Rat() {}
    Rat(i64 x, i64 y = 1) { set128(x, y); }
    Rat(const Rat& o) : n(o.n), d(o.d)
    {
        if (o.b) {
            nb();
            mpq_set(b, o.b);
        }
    }
    Rat(Rat&& o) noexcept : n(o.n), d(o.d), b(o.b) { o.b = nullptr; }
    Rat& operator=(Rat o) noexcept
    {
        std::swap(n, o.n);
        std::swap(d, o.d);
        std::swap(b, o.b);
        return *this;
    }
    ~Rat()
    {
        if (b) {
            mpq_clear(b);
            delete b;
        }
    }
    void nb()
    {
        b = new __mpq_struct;
        mpq_init(b);
    }
    static void mpz128(mpz_ptr z, i128 x)
    {
        bool neg = x < 0;
        u128 a = neg ? (u128) 0 - (u128) x : (u128) x;
        mpz_set_ui(z, (u64) (a >> 64));
        mpz_mul_2exp(z, z, 64);
        mpz_t t;
        mpz_init_set_ui(t, (u64) a);
        mpz_add(z, z, t);
        mpz_clear(t);
        if (neg) mpz_neg(z, z);
    }
    void set128(i128 x, i128 y)
    {
        if (y < 0) x = -x, y = -y;
        u128 g = gcd128(x < 0 ? (u128) 0 - (u128) x : (u128) x, (u128) y);
        if (g > 1) x /= (i128) g, y /= (i128) g;
        if (x >= -INT64_MAX && x <= INT64_MAX && y <= INT64_MAX) {
            n = (i64) x;
            d = (i64) y;
        } else {
            nb();
            mpz128(mpq_numref(b), x);
            mpz128(mpq_denref(b), y);
        }
    }
    static Rat of(mpq_srcptr q)
    {
        Rat r;
        if (mpz_fits_slong_p(mpq_numref(q)) && mpz_fits_slong_p(mpq_denref(q)) && mpz_get_si(mpq_numref(q)) != INT64_MIN) {
            r.n = mpz_get_si(mpq_numref(q));
            r.d = mpz_get_si(mpq_denref(q));
        } else {
            r.nb();
            mpq_set(r.b, q);
        }
        return r;
    }
    void get(mpq_ptr q) const
    {
        if (b) mpq_set(q, b);
        else mpq_set_si(q, n, (u64) d);
    }
    bool zero() const { return !b && n == 0; }
    bool one() const { return !b && n == 1 && d == 1; }
    int sgn() const { return b ? mpq_sgn(b) : n < 0 ? -1 : n > 0; }
    template <class F>
    static Rat slow(const Rat& x, const Rat& y, F f)
    {
        mpq_t p, q;
        mpq_init(p);
        mpq_init(q);
        x.get(p);
        y.get(q);
        f(p, p, q);
        Rat r = of(p);
        mpq_clear(p);
        mpq_clear(q);
        return r;
    }
    friend Rat operator+(const Rat& x, const Rat& y)
    {
        if (x.b || y.b) return slow(x, y, mpq_add);
        Rat r;
        if (x.d == 1 && y.d == 1) {
            i64 s;
            if (!__builtin_add_overflow(x.n, y.n, &s) && s != INT64_MIN) {
                r.n = s;
                return r;
            }
        }
        i128 a = (i128) x.n * y.d, c = (i128) y.n * x.d, s;
        if (__builtin_add_overflow(a, c, &s)) return slow(x, y, mpq_add);
        r.set128(s, (i128) x.d * y.d);
        return r;
    }
    friend Rat operator*(const Rat& x, const Rat& y)
    {
        if (x.b || y.b) return slow(x, y, mpq_mul);
        Rat r;
        if (x.d == 1 && y.d == 1) {
            i64 s;
            if (!__builtin_mul_overflow(x.n, y.n, &s) && s != INT64_MIN) {
                r.n = s;
                return r;
            }
        }
        r.set128((i128) x.n * y.n, (i128) x.d * y.d);
        return r;
    }
    Rat operator-() const
    {
        Rat r = *this;
        if (r.b) mpq_neg(r.b, r.b);
        else r.n = -r.n;
        return r;
    }
    friend Rat operator-(const Rat& x, const Rat& y) { return x + (-y); }
    Rat inv() const
    {
        if (b) {
            mpq_t q;
            mpq_init(q);
            mpq_inv(q, b);
            Rat r = of(q);
            mpq_clear(q);
            return r;
        }
        Rat r;
        r.n = n < 0 ? -d : d;
        r.d = n < 0 ? -n : n;
        return r;
    }
    friend bool operator==(const Rat& x, const Rat& y)
    {
        if (!x.b && !y.b) return x.n == y.n && x.d == y.d;
        return x.b && y.b && mpq_equal(x.b, y.b);
    }
    std::string str() const
    {
        if (!b) return d == 1 ? std::to_string(n) : std::to_string(n) + "/" + std::to_string(d);
        char* s = mpq_get_str(nullptr, 10, b);
        std::string r = s;
        free(s);
        return r;
    }
};

// ----------------------------------------------------------- monomials ---
typedef std::vector<std::pair<u32, u32>> Mono;
static std::vector<Mono> monos{Mono{}};
static std::map<Mono, u32> monoId{{Mono{}, 0}};
static std::unordered_map<u64, u32> monoMul;
static u32 mono(const Mono& m)
{
    auto [it, fresh] = monoId.try_emplace(m, (u32) monos.size());
    if (fresh) monos.push_back(m);
    return it->second;
}
static u32 mmul(u32 a, u32 b)
{
    if (!a) return b;
    if (!b) return a;
    if (a > b) std::swap(a, b);
    u64 k = (u64) a << 32 | b;
    auto it = monoMul.find(k);
    if (it != monoMul.end()) return it->second;
    const Mono &x = monos[a], &y = monos[b];
    Mono r;
    size_t i = 0, j = 0;
    while (i < x.size() || j < y.size()) {
        if (j == y.size() || (i < x.size() && x[i].first < y[j].first)) r.push_back(x[i++]);
        else if (i == x.size() || y[j].first < x[i].first) r.push_back(y[j++]);
        else {
            r.push_back({x[i].first, x[i].second + y[j].second});
            ++i;
            ++j;
        }
    }
    u32 id = mono(r);
    monoMul[k] = id;
    return id;
}
static u32 mvar(u32 v, u32 e = 1) { return e ? mono({{v, e}}) : 0; }
static u32 degIn(u32 m, u32 v)
{
    for (auto& p : monos[m])
        if (p.first == v) return p.second;
    return 0;
}
static u32 mwithout(u32 m, u32 v)
{
    Mono r;
    for (auto& p : monos[m])
        if (p.first != v) r.push_back(p);
    return mono(r);
}

// --------------------------------------------------------- polynomials ---
struct Poly {
    std::vector<std::pair<u32, Rat>> t;// sorted by monomial id, no zeros
    bool konst() const { return t.empty() || (t.size() == 1 && t[0].first == 0); }
    bool zero() const { return t.empty(); }
    static Poly k(const Rat& r)
    {
        Poly p;
        if (!r.zero()) p.t.push_back({0, r});
        return p;
    }
};
static bool operator==(const Poly& a, const Poly& b) { return a.t == b.t; }
static Poly padd(const Poly& a, const Poly& b, bool sub)
{
    Poly r;
    r.t.reserve(a.t.size() + b.t.size());
    size_t i = 0, j = 0;
    while (i < a.t.size() || j < b.t.size()) {
        if (j == b.t.size() || (i < a.t.size() && a.t[i].first < b.t[j].first)) r.t.push_back(a.t[i++]);
        else if (i == a.t.size() || b.t[j].first < a.t[i].first) {
            r.t.push_back({b.t[j].first, sub ? -b.t[j].second : b.t[j].second});
            ++j;
        } else {
            Rat s = sub ? a.t[i].second - b.t[j].second : a.t[i].second + b.t[j].second;
            if (!s.zero()) r.t.push_back({a.t[i].first, std::move(s)});
            ++i;
            ++j;
        }
    }
    return r;
}
static Poly pscale(const Poly& a, const Rat& k)
{
    Poly r;
    if (k.zero()) return r;
    if (k.one()) return a;
    r.t.reserve(a.t.size());
    for (auto& x : a.t) r.t.push_back({x.first, x.second * k});
    return r;
}
static Poly collect(std::unordered_map<u32, Rat>& m)
{
    Poly r;
    r.t.reserve(m.size());
    for (auto& x : m)
        if (!x.second.zero()) r.t.push_back({x.first, std::move(x.second)});
    std::sort(r.t.begin(), r.t.end(), [](auto& x, auto& y) { return x.first < y.first; });
    return r;
}
static Poly pmul(const Poly& a, const Poly& b)
{
    if (a.zero() || b.zero()) return {};
    if (a.konst()) return pscale(b, a.t[0].second);
    if (b.konst()) return pscale(a, b.t[0].second);
    std::unordered_map<u32, Rat> m;
    m.reserve(std::min<size_t>(a.t.size() * b.t.size(), 1 << 16));
    for (auto& x : a.t)
        for (auto& y : b.t) {
            Rat& c = m[mmul(x.first, y.first)];
            c = c + x.second * y.second;
        }
    return collect(m);
}
static Poly ppow(const Poly& a, u32 e)
{
    Poly r = Poly::k(1);
    while (e--) r = pmul(r, a);
    return r;
}
static Rat rpow(const Rat& x, u32 e)
{
    Rat r(1);
    while (e--) r = r * x;
    return r;
}
static Rat evalP(const Poly& p, const std::vector<Rat>& v)
{
    Rat s;
    for (auto& x : p.t) {
        Rat m = x.second;
        for (auto& f : monos[x.first]) m = m * rpow(v[f.first], f.second);
        s = s + m;
    }
    return s;
}
static std::string key(const Poly& p)
{
    std::string s;
    for (auto& x : p.t) {
        s += std::to_string(x.first);
        s += ':';
        s += x.second.str();
        s += ' ';
    }
    return s;
}

// ----------------------------------------------------------- variables ---
struct Var {
    std::string name;
    int input = -1;// index in the path's inputs, -1: an inverse
    bool nz = false, nz0 = false;
    Poly inv;// the polynomial it inverts
};
static std::vector<Var> V;
static std::vector<Rat> val;// this path's values
struct Rule {
    u32 v;
    Poly p;
};
static std::vector<Rule> rules;
static bool hasVar(const Poly& p, u32 v)
{
    for (auto& x : p.t)
        if (degIn(x.first, v)) return true;
    return false;
}
// p with v replaced by q
static Poly subst(const Poly& p, u32 v, const Poly& q)
{
    Poly keep, out;
    std::map<u32, Poly> by;
    for (auto& x : p.t) {
        u32 e = degIn(x.first, v);
        if (!e) keep.t.push_back(x);
        else {
            Poly o;
            o.t.push_back({mwithout(x.first, v), x.second});
            by[e] = padd(by[e], o, false);
        }
    }
    out = keep;
    for (auto& [e, c] : by) out = padd(out, pmul(c, ppow(q, e)), false);
    return out;
}
static void varsOf(const Poly& p, std::set<u32>& s)
{
    for (auto& x : p.t)
        for (auto& f : monos[x.first]) s.insert(f.first);
}
// the same sign, without inverses and eliminated variables
static Poly normal(Poly p)
{
    for (int guard = 0; guard < 1000; ++guard) {
        std::set<u32> s;
        varsOf(p, s);
        bool again = false;
        for (size_t i = 0; i < rules.size(); ++i)
            if (s.count(rules[i].v)) {
                p = subst(p, rules[i].v, rules[i].p);
                again = true;
                break;
            }
        if (again) continue;
        u32 aux = 0;
        bool have = false;
        for (u32 v : s)
            if (V[v].input < 0) aux = v, have = true;
        if (!have) return p;
        u32 deg = 0;
        for (auto& x : p.t) deg = std::max(deg, degIn(x.first, aux));
        u32 D = deg + (deg & 1);
        std::vector<Poly> pw{Poly::k(1)};
        for (u32 i = 1; i <= D; ++i) pw.push_back(pmul(pw.back(), V[aux].inv));
        std::vector<Poly> by(deg + 1);
        for (auto& x : p.t) {
            Poly o;
            o.t.push_back({mwithout(x.first, aux), x.second});
            u32 e = degIn(x.first, aux);
            by[e] = padd(by[e], o, false);
        }
        Poly r;
        for (u32 e = 0; e <= deg; ++e) r = padd(r, pmul(by[e], pw[D - e]), false);
        p = r;
    }
    return p;
}

// -------------------------------------------------------------- values ---
struct DagN {
    u8 op;// 0 const 1 var 2 + 3 - 4 * 5 neg 6 inverse
    u32 a, b;
    Rat k;
};
static std::vector<DagN> dag{DagN{}};
static const size_t DAGMAX = 3000000;
struct QNode {
    u64 rc;
    Rat c;
    Poly p;
    u32 dag;
};
static const int MAGIC = 0x53594D51;
static mp_limb_t oneLimb = 1;
static bool is(mpq_srcptr q) { return q->_mp_num._mp_alloc == MAGIC && q->_mp_num._mp_d != nullptr; }
static QNode* node(mpq_srcptr q) { return (QNode*) q->_mp_num._mp_d; }
static u64 live = 0;
static void drop(QNode* n)
{
    if (--n->rc == 0) delete n;
}
static void release(mpq_ptr q)
{
    if (is(q)) drop(node(q));
    else if (q->_mp_num._mp_d || q->_mp_den._mp_d) mpq_clear(q);
}
static void put(mpq_ptr q, QNode* n)
{
    if (n->p.konst()) {
        if (is(q)) {
            drop(node(q));
            mpq_init(q);
        } else if (!q->_mp_den._mp_d) mpq_init(q);
        n->c.get(q);
        drop(n);
        return;
    }
    release(q);
    q->_mp_num._mp_alloc = MAGIC;
    q->_mp_num._mp_size = 1;
    q->_mp_num._mp_d = (mp_limb_t*) n;
    q->_mp_den._mp_alloc = 1;
    q->_mp_den._mp_size = 1;
    q->_mp_den._mp_d = &oneLimb;
}
static u32 mkDag(u8 op, u32 a, u32 b, const Rat& k = Rat())
{
    if (dag.size() >= DAGMAX || (op >= 2 && (!a || (op < 5 && !b)))) return 0;
    dag.push_back({op, a, b, k});
    return (u32) dag.size() - 1;
}
struct Arg {// a symbolic or an ordinary operand
    QNode tmp;
    const QNode* n;
    explicit Arg(mpq_srcptr q)
    {
        if (is(q)) n = node(q);
        else {
            tmp.c = Rat::of(q);
            tmp.p = Poly::k(tmp.c);
            tmp.dag = 0;
            n = &tmp;
        }
    }
    u32 d() const
    {
        if (n != &tmp) return n->dag;
        return mkDag(0, 0, 0, tmp.c);
    }
};
static QNode* mk(Rat c, Poly p, u32 d) { return new QNode{1, std::move(c), std::move(p), d}; }

// ---------------------------------------------------------- constraints ---
struct QC {
    u8 rel;// 0: P == 0, 1: P < 0
    Poly P;
    std::vector<std::pair<u32, u32>> dags;// assertion: the two sides
    u32 nrules, nvars;
};
static std::vector<QC> qc;
static std::unordered_map<std::string, int> decidedEq, decidedSgn;
static int polTerms = 4, polFlips = 400, flips = 0;
// zero tests that came out zero on this path (inputs being generic, each is a
// coincidence), and how many of them are explored on one path
static int polSpecial = 2, specials = 0;
static bool linearVar(const Poly& p, u32& v)
{
    // a variable with a constant coefficient
    for (auto& x : p.t) {
        const Mono& m = monos[x.first];
        if (m.size() != 1 || m[0].second != 1) continue;
        u32 c = m[0].first;
        u32 n = 0;
        for (auto& y : p.t)
            if (degIn(y.first, c)) ++n;
        if (n == 1) {
            v = c;
            return true;
        }
    }
    return false;
}
static void addQ(u8 rel, const Poly& P, bool taken, const char* label, bool assume, std::vector<std::pair<u32, u32>> dags)
{
    if (!active || stopped) return;
    qc.push_back({rel, P, std::move(dags), (u32) rules.size(), (u32) V.size()});
    ++st.branches;
    if (PC.size() > 20000) tooLong();
    PC.push_back({0, taken, label, assume, (u32) vars.size(), 0, (i32) qc.size() - 1});
    if (rel == 0 && taken && !label) {
        u32 v;
        if (linearVar(P, v)) {
            Rat k;
            Poly rest;
            for (auto& x : P.t)
                if (degIn(x.first, v)) k = x.second;
                else rest.t.push_back(x);
            rules.push_back({v, pscale(rest, -k.inv())});
            decidedEq.clear();
            decidedSgn.clear();
        }
    }
}
// divide out variables known not to vanish; make the leading coefficient +-1
static Poly strip(Poly p, bool odd)
{
    if (p.zero()) return p;
    std::map<u32, u32> g;
    bool first = true;
    for (auto& x : p.t) {
        std::map<u32, u32> h;
        for (auto& f : monos[x.first])
            if (V[f.first].nz && (first || g.count(f.first))) h[f.first] = first ? f.second : std::min(f.second, g[f.first]);
        g = h;
        first = false;
    }
    for (auto& [v, e0] : g) {
        u32 e = odd ? e0 : e0 & ~1u;
        if (!e) continue;
        std::unordered_map<u32, Rat> m;
        for (auto& x : p.t) {
            Mono q;
            for (auto& f : monos[x.first])
                if (f.first != v) q.push_back(f);
                else if (f.second > e) q.push_back({v, f.second - e});
            m[mono(q)] = x.second;
        }
        p = collect(m);
    }
    Rat l = p.t[0].second;
    if (!odd && l.sgn() < 0) l = -l;
    return pscale(p, l.inv());
}
static bool decideZero(const Poly& p0)
{
    Poly p = strip(normal(p0), true);
    if (p.zero()) return true;
    if (p.konst()) return false;
    if (p.t.size() == 1) {
        // a product vanishes when a factor does
        bool z = false;
        Mono m = monos[p.t[0].first];
        for (auto& f : m) {
            u32 v = f.first;
            std::string k = "v" + std::to_string(v);
            auto it = decidedEq.find(k);
            if (it != decidedEq.end()) {
                if (it->second) return true;
                continue;
            }
            z = val[v].zero();
            decidedEq[k] = z;
            Poly q;
            q.t.push_back({mvar(v), Rat(1)});
            bool flip = polTerms >= 1 && flips < polFlips && (z || specials < polSpecial);
            if (z) ++specials;
            if (flip) ++flips;
            else ++concKinds["zero test of a coefficient not explored"];
            addQ(0, q, z, nullptr, !flip, {});
            if (z) return true;
            V[v].nz = true;
        }
        return false;
    }
    std::string k = key(p);
    auto it = decidedEq.find(k);
    if (it != decidedEq.end()) return it->second;
    bool z = evalP(p, val).zero();
    bool flip = (int) p.t.size() <= polTerms && flips < polFlips && (z || specials < polSpecial);
    if (z) ++specials;
    if (flip) ++flips;
    else ++concKinds["zero test of a polynomial not explored"];
    addQ(0, p, z, nullptr, !flip, {});
    decidedEq[k] = z;
    return z;
}
static int decideSign(const Poly& p0)
{
    if (decideZero(p0)) return 0;
    Poly p = strip(normal(p0), false);
    if (p.konst()) return p.zero() ? 0 : p.t[0].second.sgn();
    // canonical up to a positive factor; look up the negation, too
    std::string k = key(p);
    auto it = decidedSgn.find(k);
    if (it != decidedSgn.end()) return it->second;
    int s = evalP(p, val).sgn();
    bool flip = (int) p.t.size() <= std::max(polTerms, 8) && flips < polFlips;
    if (flip) ++flips;
    else ++concKinds["sign test not explored"];
    addQ(1, p, s < 0, nullptr, !flip, {});
    decidedSgn[k] = s;
    decidedSgn[key(pscale(p, Rat(-1)))] = -s;
    return s;
}
static void pinTo(const Poly& p, const char* why)
{
    ++concKinds[why];
    ++st.conc;
    std::set<u32> s;
    Poly n = normal(p);
    varsOf(n, s);
    for (u32 v : s) {
        Poly q;
        q.t.push_back({mvar(v), Rat(1)});
        q = padd(q, Poly::k(val[v]), true);
        addQ(0, q, true, nullptr, true, {});
    }
}
static Rat defaultValue(size_t i)
{
    static const int pr[] = {101, 103, 107, 109, 113, 127, 131, 137, 139, 149, 151, 157, 163, 167, 173, 179, 181, 191, 193, 197, 199, 211, 223, 227, 229, 233, 239, 241, 251, 257, 263, 269, 271, 277, 281, 283, 293, 307, 311, 313, 317, 331, 337, 347, 349, 353, 359, 367, 373, 379, 383, 389, 397, 401, 409, 419, 421, 431, 433, 439, 443, 449, 457, 461, 463, 467, 479, 487, 491, 499, 503, 509, 521, 523, 541, 547, 557, 563, 569, 571};
    size_t n = sizeof pr / sizeof *pr;
    i64 v = pr[(i * 37 + 11) % n] + (i64) (i / n) * 600;
    return Rat(i % 3 == 1 ? -v : v, i % 5 == 3 ? 2 : 1);
}
static u64 enc(i64 n, i64 d) { return (u64) (uint32_t) (int32_t) n << 32 | (uint32_t) d; }
}// namespace sq

extern "C" {
using namespace sq;
int symq_is(mpq_srcptr q) { return is(q); }
void symq_own(mpq_ptr q)
{
    if (is(q)) {
        drop(node(q));
        mpq_init(q);
    }
}
void symq_clear(mpq_ptr q)
{
    if (is(q)) {
        drop(node(q));
        q->_mp_num._mp_d = nullptr;
        q->_mp_den._mp_d = nullptr;
    } else mpq_clear(q);
}
void symq_pin(mpq_srcptr q)
{
    if (!is(q)) return;
    QNode* n = node(q);
    pinTo(n->p, "rational turned into a number");
    mpq_ptr w = const_cast<mpq_ptr>(q);
    mpq_init(w);
    n->c.get(w);
    drop(n);
}
unsigned long symq_hash(mpq_srcptr q)
{
    if (!is(q)) return 0;
    return std::hash<std::string>()(key(normal(node(q)->p)));
}
void symq_set(mpq_ptr r, mpq_srcptr a)
{
    if (r == a) return;
    if (is(a)) {
        QNode* n = node(a);
        ++n->rc;
        release(r);
        *r = *a;
        return;
    }
    symq_own(r);
    mpq_set(r, a);
}
#define OWN(r) symq_own(r)
void symq_set_d(mpq_ptr r, double d) { OWN(r); mpq_set_d(r, d); }
void symq_set_si(mpq_ptr r, long n, unsigned long d) { OWN(r); mpq_set_si(r, n, d); }
void symq_set_ui(mpq_ptr r, unsigned long n, unsigned long d) { OWN(r); mpq_set_ui(r, n, d); }
void symq_set_z(mpq_ptr r, mpz_srcptr z) { OWN(r); mpq_set_z(r, z); }
int symq_set_str(mpq_ptr r, const char* s, int b) { OWN(r); return mpq_set_str(r, s, b); }
void symq_set_num(mpq_ptr r, mpz_srcptr z) { symq_pin(r); mpq_set_num(r, z); }
void symq_set_den(mpq_ptr r, mpz_srcptr z) { symq_pin(r); mpq_set_den(r, z); }
void symq_get_num(mpz_ptr z, mpq_srcptr q) { symq_pin(q); mpq_get_num(z, q); }
void symq_get_den(mpz_ptr z, mpq_srcptr q) { symq_pin(q); mpq_get_den(z, q); }
double symq_get_d(mpq_srcptr q) { symq_pin(q); return mpq_get_d(q); }
char* symq_get_str(char* s, int b, mpq_srcptr q) { symq_pin(q); return mpq_get_str(s, b, q); }
void symq_canonicalize(mpq_ptr q)
{
    if (!is(q)) mpq_canonicalize(q);
}
void symq_neg(mpq_ptr r, mpq_srcptr a)
{
    if (!is(a)) {
        OWN(r);
        mpq_neg(r, a);
        return;
    }
    const QNode* n = node(a);
    put(r, mk(-n->c, pscale(n->p, Rat(-1)), mkDag(5, n->dag, 0)));
}
void symq_abs(mpq_ptr r, mpq_srcptr a)
{
    if (!is(a)) {
        OWN(r);
        mpq_abs(r, a);
        return;
    }
    if (decideSign(node(a)->p) < 0) symq_neg(r, a);
    else symq_set(r, a);
}
static void op2(mpq_ptr r, mpq_srcptr a, mpq_srcptr b, int op)
{
    if (!is(a) && !is(b)) {
        auto f = op == 2 ? mpq_add : op == 3 ? mpq_sub : mpq_mul;
        if (is(r)) {
            drop(node(r));
            mpq_init(r);
        }
        f(r, a, b);
        return;
    }
    Arg x(a), y(b);
    u32 d = mkDag((u8) op, x.d(), y.d());
    QNode* n = op == 2 ? mk(x.n->c + y.n->c, padd(x.n->p, y.n->p, false), d)
             : op == 3 ? mk(x.n->c - y.n->c, padd(x.n->p, y.n->p, true), d)
                       : mk(x.n->c * y.n->c, pmul(x.n->p, y.n->p), d);
    put(r, n);
}
void symq_add(mpq_ptr r, mpq_srcptr a, mpq_srcptr b) { op2(r, a, b, 2); }
void symq_sub(mpq_ptr r, mpq_srcptr a, mpq_srcptr b) { op2(r, a, b, 3); }
void symq_mul(mpq_ptr r, mpq_srcptr a, mpq_srcptr b) { op2(r, a, b, 4); }
void symq_inv(mpq_ptr r, mpq_srcptr a)
{
    if (!is(a)) {
        OWN(r);
        mpq_inv(r, a);
        return;
    }
    const QNode* n = node(a);
    if (n->c.zero() || decideZero(n->p)) abort();// division by zero, as GMP does
    static std::map<std::string, u32> memo;
    std::string k = key(n->p);
    auto it = memo.find(k);
    u32 v;
    if (it != memo.end()) v = it->second;
    else {
        v = (u32) V.size();
        V.push_back({"1/(.)", -1, true, true, n->p});
        val.push_back(n->c.inv());
        memo[k] = v;
    }
    Poly p;
    p.t.push_back({mvar(v), Rat(1)});
    put(r, mk(n->c.inv(), p, mkDag(6, n->dag, 0)));
}
void symq_div(mpq_ptr r, mpq_srcptr a, mpq_srcptr b)
{
    if (!is(a) && !is(b)) {
        if (is(r)) {
            drop(node(r));
            mpq_init(r);
        }
        mpq_div(r, a, b);
        return;
    }
    mpq_t t;
    mpq_init(t);
    symq_inv(t, b);
    symq_mul(r, a, t);
    symq_clear(t);
}
static void shift(mpq_ptr r, mpq_srcptr a, mp_bitcnt_t k, bool down)
{
    if (!is(a)) {
        OWN(r);
        (down ? mpq_div_2exp : mpq_mul_2exp)(r, a, k);
        return;
    }
    mpq_t t;
    mpq_init(t);
    mpq_set_ui(t, 1, 1);
    (down ? mpq_div_2exp : mpq_mul_2exp)(t, t, k);
    symq_mul(r, a, t);
    mpq_clear(t);
}
void symq_mul_2exp(mpq_ptr r, mpq_srcptr a, mp_bitcnt_t k) { shift(r, a, k, false); }
void symq_div_2exp(mpq_ptr r, mpq_srcptr a, mp_bitcnt_t k) { shift(r, a, k, true); }
// a difference: a QNode, or a tagged sign when nothing symbolic is involved
static void* tag(int s) { return (void*) (intptr_t) ((s < 0 ? 0 : s > 0 ? 2 : 1) << 1 | 1); }
void* symq_diff(mpq_srcptr a, mpq_srcptr b)
{
    if (!is(a) && !is(b)) return tag(mpq_cmp(a, b));
    Arg x(a), y(b);
    return mk(x.n->c - y.n->c, padd(x.n->p, y.n->p, true), 0);
}
void* symq_diff_si(mpq_srcptr a, long n, unsigned long d)
{
    if (!is(a)) return tag(mpq_cmp_si(a, n, d));
    mpq_t t;
    mpq_init(t);
    mpq_set_si(t, n, d);
    mpq_canonicalize(t);
    void* r = symq_diff(a, t);
    mpq_clear(t);
    return r;
}
void* symq_diff_ui(mpq_srcptr a, unsigned long n, unsigned long d)
{
    if (!is(a)) return n == 0 ? tag(mpq_sgn(a)) : tag(mpq_cmp_ui(a, n, d));
    mpq_t t;
    mpq_init(t);
    mpq_set_ui(t, n, d);
    mpq_canonicalize(t);
    void* r = symq_diff(a, t);
    mpq_clear(t);
    return r;
}
void* symq_diff_z(mpq_srcptr a, mpz_srcptr z)
{
    mpq_t t;
    mpq_init(t);
    mpq_set_z(t, z);
    void* r = symq_diff(a, t);
    mpq_clear(t);
    return r;
}
void* symq_ref(void* d)
{
    if (!((intptr_t) d & 1)) ++((QNode*) d)->rc;
    return d;
}
void symq_unref(void* d)
{
    if (!((intptr_t) d & 1)) drop((QNode*) d);
}
int symq_iszero(void* d)
{
    if ((intptr_t) d & 1) return ((intptr_t) d >> 1) == 1;
    return decideZero(((QNode*) d)->p);
}
int symq_signof(void* d)
{
    if ((intptr_t) d & 1) return (int) ((intptr_t) d >> 1) - 1;
    return decideSign(((QNode*) d)->p);
}
int symq_equal(mpq_srcptr a, mpq_srcptr b)
{
    void* d = symq_diff(a, b);
    int r = symq_iszero(d);
    symq_unref(d);
    return r;
}
void symq_policy(int terms, int fl, int special)
{
    polSpecial = special;
    polTerms = terms;
    polFlips = fl;
}
void symq_var(mpq_ptr out, const char* name, int nonzero)
{
    if (__sym_pending) pinPending("harness");
    size_t idx = vars.size();
    u64 v;
    bool have = idx < inputVals.size();
    Rat r;
    if (have && (inputVals[idx] & 0xffffffffu)) {
        r = Rat((i64) (int32_t) (inputVals[idx] >> 32), (i64) (uint32_t) inputVals[idx]);
        // inputs are kept by position: this one may have belonged to another
        // variable on the path this one was flipped from
        if (nonzero && r.zero()) have = false;
    } else have = false;
    if (!have) {
        r = defaultValue(idx);
        if (inputVals.size() <= idx) inputVals.resize(idx + 1);
        inputVals[idx] = enc(r.n, r.d);
    }
    newVar(name, 64, INT64_MIN, INT64_MAX, v);
    __sym_pending = 0;
    u32 id = (u32) V.size();
    V.push_back({name, (int) idx, nonzero != 0, nonzero != 0, {}});
    val.push_back(r);
    Poly p;
    p.t.push_back({mvar(id), Rat(1)});
    put(out, mk(r, p, mkDag(1, id, 0)));
    if (nonzero && r.zero()) endRun();
}
void symq_assert_eq_kf(mpq_srcptr a, mpq_srcptr b, const char* label, bool in, const char* kf)
{
    __sym_pending = 0;
    auto& l = labels[label];
    ++l[0];
    if (!is(a) && !is(b)) {
        ++l[1];
        if (!mpq_equal(a, b)) viols.emplace_back(label, in ? kf : "");
        return;
    }
    Arg x(a), y(b);
    ++l[2];
    if (!(x.n->c == y.n->c)) {
        viols.emplace_back(label, in ? kf : "");
        return;
    }
    if (!(evalP(x.n->p, val) == x.n->c) || !(evalP(y.n->p, val) == y.n->c)) ++st.mism;
    Poly D = normal(padd(x.n->p, y.n->p, true));
    std::vector<std::pair<u32, u32>> dd;
    dd.push_back({x.d(), y.d()});
    addQ(0, D, true, label, false, dd);
}
void symq_assert_eq(mpq_srcptr a, mpq_srcptr b, const char* label) { symq_assert_eq_kf(a, b, label, false, ""); }
}
