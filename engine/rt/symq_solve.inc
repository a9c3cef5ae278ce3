// The solving side of symbolic rationals.  Included by symrt.cpp.
namespace sq {
static const size_t DAGLIM = 500;
static void putRat(Out& f, const Rat& r)
{
    if (r.b) {
        f.put((u8) 1);
        f.str(r.str());
    } else {
        f.put((u8) 0);
        f.put(r.n);
        f.put(r.d);
    }
}
static Rat getRat(In& f)
{
    Rat r;
    if (f.get<u8>()) {
        std::string s = f.str();
        mpq_t q;
        mpq_init(q);
        mpq_set_str(q, s.c_str(), 10);
        r = Rat::of(q);
        mpq_clear(q);
    } else {
        r.n = f.get<i64>();
        r.d = f.get<i64>();
    }
    return r;
}
static void putPoly(Out& f, const Poly& p)
{
    f.put((u32) p.t.size());
    for (auto& x : p.t) {
        const Mono& m = monos[x.first];
        f.put((u32) m.size());
        for (auto& v : m) {
            f.put(v.first);
            f.put(v.second);
        }
        putRat(f, x.second);
    }
}
static Poly getPoly(In& f)
{
    std::unordered_map<u32, Rat> c;
    u32 n = f.get<u32>();
    for (u32 i = 0; i < n && !f.bad; ++i) {
        Mono m;
        u32 k = f.get<u32>();
        for (u32 j = 0; j < k && !f.bad; ++j) {
            u32 a = f.get<u32>();
            m.push_back({a, f.get<u32>()});
        }
        c[mono(m)] = getRat(f);
    }
    return collect(c);
}
// the nodes below the given ones, children first; false if there are too many
static bool reach(const std::vector<u32>& roots, std::vector<u32>& order)
{
    std::unordered_map<u32, int> seen;
    std::vector<std::pair<u32, int>> stk;
    for (u32 r : roots) {
        if (!r) return false;
        stk.push_back({r, 0});
    }
    while (!stk.empty()) {
        auto& [n, s] = stk.back();
        if (s == 0) {
            if (seen.count(n)) {
                stk.pop_back();
                continue;
            }
            seen[n] = 1;
            if (seen.size() > DAGLIM) return false;
            s = 1;
            u32 a = dag[n].op >= 2 ? dag[n].a : 0, b = dag[n].op >= 2 && dag[n].op < 5 ? dag[n].b : 0;
            if (dag[n].op >= 2 && (!a || (dag[n].op < 5 && !b))) return false;
            if (a) stk.push_back({a, 0});
            if (b) stk.push_back({b, 0});
        } else {
            order.push_back(n);
            stk.pop_back();
        }
    }
    return true;
}
static void putFrame(Out& f)
{
    f.put((u32) V.size());
    for (size_t i = 0; i < V.size(); ++i) {
        f.put((i32) V[i].input);
        f.put((u8) V[i].nz0);
        putRat(f, val[i]);
    }
    f.put((u32) rules.size());
    for (auto& r : rules) {
        f.put(r.v);
        putPoly(f, r.p);
    }
    f.put((u32) qc.size());
    std::unordered_map<std::string, int> done;
    for (auto& q : qc) {
        f.put(q.rel);
        putPoly(f, q.P);
        f.put(q.nrules);
        f.put(q.nvars);
        std::vector<u32> order;
        bool ok = false;
        if (q.P.zero() && q.dags.size() == 1) ok = reach({q.dags[0].first, q.dags[0].second}, order);
        f.put((u8) ok);
        if (!ok) continue;
        std::unordered_map<u32, u32> loc;
        f.put((u32) order.size());
        for (u32 n : order) {
            u32 id = (u32) loc.size() + 1;
            loc[n] = id;
            f.put(dag[n].op);
            f.put(dag[n].op == 1 ? dag[n].a : dag[n].op >= 2 ? loc[dag[n].a] : 0);
            f.put(dag[n].op >= 2 && dag[n].op < 5 ? loc[dag[n].b] : 0);
            if (dag[n].op == 0) putRat(f, dag[n].k);
        }
        f.put(loc[q.dags[0].first]);
        f.put(loc[q.dags[0].second]);
    }
}
struct SDag {
    std::vector<DagN> n;
    u32 a = 0, b = 0;
};
static std::vector<SDag> sdag;
static void getFrame(In& f)
{
    monos.assign(1, Mono{});
    monoId.clear();
    monoId[Mono{}] = 0;
    monoMul.clear();
    V.clear();
    val.clear();
    rules.clear();
    qc.clear();
    sdag.clear();
    u32 n = f.get<u32>();
    for (u32 i = 0; i < n && !f.bad; ++i) {
        Var v;
        v.input = f.get<i32>();
        v.nz0 = f.get<u8>();
        V.push_back(v);
        val.push_back(getRat(f));
    }
    n = f.get<u32>();
    for (u32 i = 0; i < n && !f.bad; ++i) {
        Rule r;
        r.v = f.get<u32>();
        r.p = getPoly(f);
        rules.push_back(std::move(r));
    }
    n = f.get<u32>();
    for (u32 i = 0; i < n && !f.bad; ++i) {
        QC q;
        q.rel = f.get<u8>();
        q.P = getPoly(f);
        q.nrules = f.get<u32>();
        q.nvars = f.get<u32>();
        SDag s;
        if (f.get<u8>()) {
            u32 m = f.get<u32>();
            s.n.push_back(DagN{});
            for (u32 j = 0; j < m && !f.bad; ++j) {
                DagN d;
                d.op = f.get<u8>();
                d.a = f.get<u32>();
                d.b = f.get<u32>();
                if (d.op == 0) d.k = getRat(f);
                s.n.push_back(std::move(d));
            }
            s.a = f.get<u32>();
            s.b = f.get<u32>();
        }
        qc.push_back(std::move(q));
        sdag.push_back(std::move(s));
    }
}
static bool holds(const QC& q, bool taken, const std::vector<Rat>& v)
{
    Rat x = evalP(q.P, v);
    return (q.rel == 0 ? x.zero() : x.sgn() < 0) == taken;
}
static u64 rng = 0x9E3779B97F4A7C15ull;
static u64 rnd()
{
    rng ^= rng << 13;
    rng ^= rng >> 7;
    rng ^= rng << 17;
    return rng;
}
static Rat randRat()
{
    i64 n = (i64) (rnd() % 19) - 9;
    return Rat(n ? n : 5, 1 + (i64) (rnd() % 3));
}
static z3::expr zrat(z3::context& c, const Rat& r) { return c.real_val(r.str().c_str()); }
static z3::expr zpoly(z3::context& c, const Poly& p, std::vector<std::optional<z3::expr>>& zv)
{
    z3::expr_vector sum(c);
    for (auto& x : p.t) {
        z3::expr m = zrat(c, x.second);
        bool one = x.second.one();
        for (auto& f : monos[x.first]) {
            if (!zv[f.first]) zv[f.first] = c.real_const(("q" + std::to_string(f.first)).c_str());
            for (u32 e = 0; e < f.second; ++e) {
                m = one ? *zv[f.first] : m * *zv[f.first];
                one = false;
            }
        }
        sum.push_back(m);
    }
    if (sum.empty()) return c.real_val(0);
    return z3::sum(sum);
}
// 1: values found, 0: none exist, -1: undecided
static int solveFlip(z3::context& c, const std::vector<std::pair<u32, bool>>& prefix, u32 target, bool want, std::vector<Rat>& out)
{
    const QC& T = qc[target];
    std::set<u32> elim, tv;
    for (u32 i = 0; i < T.nrules && i < rules.size(); ++i) elim.insert(rules[i].v);
    varsOf(T.P, tv);
    if (T.P.zero()) return 0;
    std::vector<u32> inT(tv.begin(), tv.end()), lin;
    for (u32 v : inT) {
        u32 d = 0;
        for (auto& x : T.P.t) d = std::max(d, degIn(x.first, v));
        if (d == 1) lin.push_back(v);
    }
    bool needZero = T.rel == 0 && want;
    auto fits = [&](const Rat& r) { return !r.b && r.n >= -2000000000 && r.n <= 2000000000 && r.d <= 2000000000; };
    for (int attempt = 0; attempt < 60; ++attempt) {
        if (needZero && lin.empty()) break;
        std::vector<Rat> a = val;
        if (attempt > 0 || !needZero)
            for (u32 v : inT)
                if (attempt > 8 || rnd() % 2 == 0) a[v] = randRat();
        if (attempt > 20)
            for (u32 v = 0; v < V.size(); ++v)
                if (V[v].input >= 0 && !elim.count(v)) a[v] = randRat();
        if (needZero) {
            u32 v = lin[rnd() % lin.size()];
            Poly co, rest;
            for (auto& x : T.P.t)
                if (degIn(x.first, v)) co.t.push_back({mwithout(x.first, v), x.second});
                else rest.t.push_back(x);
            Rat k = evalP(co, a);
            if (k.zero()) continue;
            a[v] = -(evalP(rest, a) * k.inv());
        }
        for (u32 i = std::min<u32>(T.nrules, (u32) rules.size()); i-- > 0;) a[rules[i].v] = evalP(rules[i].p, a);
        bool ok = true;
        for (u32 v = 0; ok && v < T.nvars; ++v)
            if (V[v].input >= 0) ok = fits(a[v]) && !(V[v].nz0 && a[v].zero());
        ok = ok && holds(T, want, a);
        for (auto& p : prefix) {
            if (!ok) break;
            ok = holds(qc[p.first], p.second, a);
        }
        if (ok) {
            out = a;
            return 1;
        }
    }
    // ask the solver
    size_t terms = T.P.t.size();
    for (auto& p : prefix) terms += qc[p.first].P.t.size();
    if (terms > 3000) return -1;
    try {
        z3::params pr(c);
        pr.set("rlimit", (unsigned) optQT * 1000);
        z3::solver s(c, "QF_NRA");
        s.set(pr);
        std::vector<std::optional<z3::expr>> zv(V.size());
        auto add = [&](const QC& q, bool taken) {
            z3::expr e = zpoly(c, q.P, zv);
            z3::expr r = q.rel == 0 ? e == 0 : e < 0;
            s.add(taken ? r : !r);
        };
        add(T, want);
        for (auto& p : prefix) add(qc[p.first], p.second);
        for (u32 i = 0; i < T.nrules && i < rules.size(); ++i) {
            u32 v = rules[i].v;
            if (!zv[v]) zv[v] = c.real_const(("q" + std::to_string(v)).c_str());
            s.add(*zv[v] == zpoly(c, rules[i].p, zv));
        }
        for (u32 v = 0; v < V.size(); ++v)
            if (zv[v] && V[v].nz0) s.add(*zv[v] != 0);
        auto r = s.check();
        if (r == z3::unsat) return 0;
        if (r != z3::sat) return -1;
        z3::model md = s.get_model();
        out = val;
        for (u32 v = 0; v < V.size(); ++v) {
            if (!zv[v]) continue;
            z3::expr e = md.eval(*zv[v], true);
            i64 n, d;
            if (!e.is_numeral() || !Z3_get_numeral_small(c, e, (int64_t*) &n, (int64_t*) &d)) return -1;
            out[v] = Rat(n, d);
            if (!fits(out[v])) return -1;
        }
        return 1;
    } catch (z3::exception&) {
        return -1;
    }
}
// the two sides of assertions, put to the solver as they were computed
static void confirm(z3::context& c, const std::vector<u32>& ids, u64& proved, u64& formOnly, u64& bad)
{
    size_t i = 0;
    while (i < ids.size()) {
        z3::expr_vector any(c);
        std::vector<std::optional<z3::expr>> zv(V.size());
        z3::params pr(c);
        pr.set("rlimit", (unsigned) 20000000);
        u64 cnt = 0;
        size_t nodes = 0;
        z3::solver s(c, "QF_NRA");
        s.set(pr);
        for (; i < ids.size() && cnt < 24 && nodes < 1500; ++i) {
            const SDag& g = sdag[ids[i]];
            if (g.n.empty()) {
                ++formOnly;
                continue;
            }
            std::vector<z3::expr> e;
            for (size_t k = 0; k < g.n.size(); ++k) {
                const DagN& d = g.n[k];
                if (k == 0) {
                    e.push_back(c.real_val(0));
                    continue;
                }
                switch (d.op) {
                    case 0: e.push_back(zrat(c, d.k)); break;
                    case 1:
                        if (!zv[d.a]) zv[d.a] = c.real_const(("q" + std::to_string(d.a)).c_str());
                        e.push_back(*zv[d.a]);
                        break;
                    case 2: e.push_back(e[d.a] + e[d.b]); break;
                    case 3: e.push_back(e[d.a] - e[d.b]); break;
                    case 4: e.push_back(e[d.a] * e[d.b]); break;
                    case 5: e.push_back(-e[d.a]); break;
                    default: {
                        z3::expr w = c.real_const(("i" + std::to_string(any.size()) + "_" + std::to_string(k)).c_str());
                        s.add(w * e[d.a] == 1);
                        e.push_back(w);
                    }
                }
            }
            any.push_back(e[g.a] != e[g.b]);
            nodes += g.n.size();
            ++cnt;
        }
        if (!cnt) continue;
        try {
            // equalities this path assumes
            for (auto& r : rules) {
                if (!zv[r.v]) continue;
                s.add(*zv[r.v] == zpoly(c, r.p, zv));
            }
            z3::params sp(c);
            sp.set("som", true);
            s.add(z3::mk_or(any).simplify(sp));
            ++st.q;
            auto r = s.check();
            if (r == z3::unsat) {
                proved += cnt;
                ++st.unsat;
            } else if (r == z3::sat) {
                // the solver disagrees with the normal form
                bad += rules.empty() ? 1 : 0;
                formOnly += cnt;
                ++st.sat;
            } else {
                formOnly += cnt;
                ++concKinds["solver confirmation undecided (normal form only)"];
            }
        } catch (z3::exception&) {
            formOnly += cnt;
        }
    }
}
}// namespace sq
