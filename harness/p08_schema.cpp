// The correspondence channel/variant <-> stream dimension <-> label <-> key,
// and the construction helper that uses it.
#include "strm.h"
#include <roughpy/streams/channels.h>
#include <roughpy/streams/stream_construction_helper.h>
#include <roughpy/streams/tick_stream.h>
#include <set>
const char* const sym_labels[] = {"width", "channel to dimension", "variant to dimension", "dimension to channel", "label round trip", "labels distinct", "unknown label",
                                  "out of range throws", "time channel", "increment placed", "categorical placed", "value placed", "insert is idempotent", "type", "finalise", nullptr};
void sym_setup() {}
template <class F>
static bool throws(F f)
{
    try {
        f();
    } catch (std::exception&) {
        return true;
    }
    return false;
}
void sym_main()
{
    symq_policy(0, 0, 0);
    const int N = sym_tier() ? 4 : 3;
    int n = (int) sym_choice("channels", 1, N);
    auto sp = std::make_shared<StreamSchema>();
    StreamSchema& s = *sp;
    static const char* names[] = {"b", "2", "bb", "zz"};// one is a prefix of another, one is a number
    std::vector<int> ty, nv, base;
    int w = 0;
    for (int i = 0; i < n; ++i) {
        // 0 increment, 1 value, 2 lead-lag value, 3.. categorical with ty-2 variants
        int t = (int) sym_choice(("type" + std::to_string(i)).c_str(), 0, 5);
        ty.push_back(t);
        nv.push_back(t < 2 ? 1 : t == 2 ? 2 : t - 2);
        base.push_back(w);
        w += nv.back();
        if (t == 0) s.insert_increment(names[i]);
        else if (t <= 2) s.insert_value(names[i]).set_lead_lag(t == 2);
        else {
            auto& c = s.insert_categorical(names[i]);
            for (int v = 0; v < t - 2; ++v) c.add_variant(std::string(1, char('p' + v)));
        }
    }
    int chan(0);
    sym_assert((int) s.width_without_param() == w && (int) s.width() == w && (int) s.size() == n, "width");
    int what = (int) sym_choice("what", 0, 4);
    auto lab = [&](int c, int v) {
        std::string r = names[c];
        if (ty[c] == 2) r += v ? ":lag" : ":lead";
        if (ty[c] > 2) r += std::string(":") + char('p' + v);
        return r;
    };
    if (what == 0) {
        int64_t c = sym_int("channel", 0, n + 1), v = sym_int("variant", 0, 4), d = sym_int("dim", 0, w + 2);
        sym_assert(throws([&] { s.channel_to_stream_dim(c); }) == (c >= n), "out of range throws");
        if (c < n) {
            sym_assert((int64_t) s.channel_to_stream_dim(c) == base[c], "channel to dimension");
            sym_assert(throws([&] { s.channel_variant_to_stream_dim(c, v); }) == (v >= nv[c]), "out of range throws");
            if (v < nv[c]) sym_assert((int64_t) s.channel_variant_to_stream_dim(c, v) == base[c] + v, "variant to dimension");
        }
        sym_assert(throws([&] { s.stream_dim_to_channel(d); }) == (d >= w), "out of range throws");
        if (d < w) {
            auto p = s.stream_dim_to_channel(d);
            sym_assert(p.first < (dimn_t) n && p.second < (dimn_t) nv[p.first] && base[p.first] + (int64_t) p.second == d, "dimension to channel");
        }
    }
    if (what == 1) {
        std::set<std::string> seen;
        for (int c = 0; c < n; ++c) {
            sym_assert(s.label_of_channel_id(c) == names[c], "label round trip");
            for (int v = 0; v < nv[c]; ++v) {
                std::string l = lab(c, v);
                sym_assert(s.label_of_stream_dim(base[c] + v) == l && s.label_of_channel_variant(c, v) == l, "label round trip");
                sym_assert((int) s.label_to_stream_dim(l) == base[c] + v, "label round trip");
                sym_assert((int) s.label_to_lie_key(l) == base[c] + v + 1, "label round trip");
                sym_assert(seen.insert(s.label_of_stream_dim(base[c] + v)).second, "labels distinct");
            }
            sym_assert((int) s.label_to_stream_dim(names[c]) == base[c], "label round trip");
            sym_assert(s.find(string(names[c]))->first == names[c], "label round trip");
        }
        sym_assert(throws([&] { s.label_to_stream_dim("nosuch"); }) && throws([&] { s.label_to_stream_dim("bbc"); }), "unknown label");
        if (n < 3) sym_assert(throws([&] { s.label_to_stream_dim("bb"); }), "unknown label");
        for (int c = 0; c < n; ++c)
            if (ty[c] > 2) sym_assert(throws([&] { s.label_to_stream_dim(std::string(names[c]) + ":none"); }), "unknown label");
        // inserting an existing label changes nothing
        int c = (int) sym_choice("again", 0, n - 1);
        s.insert_increment(names[c]);
        sym_assert((int) s.size() == n && (int) s.width() == w, "insert is idempotent");
        s.parametrization()->add_as_channel();
        sym_assert((int) s.width() == w + 1 && (int) s.width_without_param() == w && (int) s.time_channel_to_lie_key() == w + 1, "time channel");
    }
    if (what == 4) {
        // finalising pads with unlabelled channels up to the requested width
        int64_t m = sym_int("final", 1, w + 2);
        bool refused = throws([&] { s.finalize((deg_t) m); });
        sym_assert(refused == (m < w), "finalise");
        if (!refused) {
            sym_assert(s.is_final() && (int64_t) s.width() == m, "finalise");
            for (int c = 0; c < n; ++c) sym_assert((int) s.label_to_stream_dim(names[c]) == base[c], "finalise");
            for (int d = 0; d < m; ++d) sym_assert((int) s.label_to_stream_dim(s.label_of_stream_dim(d)) == d, "finalise");
            sym_assert(throws([&] { s.insert_increment("new"); }), "finalise");
        }
        return;
    }
    if (what >= 2) {
        if (sym_choice("finalised", 0, 1)) s.finalize();
        int c = (int) sym_choice("chan", 0, n - 1);
        Alg A(w < 2 ? 2 : w, 1);
        if (w < 2) return;
        StreamConstructionHelper h(A.ctx, sp, VectorType::Dense);
        auto t = h.type_of(names[c]);
        sym_assert(t && *t == (ty[c] == 0 ? ChannelType::Increment : ty[c] <= 2 ? ChannelType::Value : ChannelType::Categorical), "type");
        bool byname = what == 3;
        Q q = sym_rat("q"), q2 = sym_rat("q2");
        std::vector<Vec> want;
        auto unit = [&](int d, const Q& x) {
            Vec v(w);
            v[d] = x;
            return v;
        };
        const char* label = "increment placed";
        if (ty[c] == 0) {
            if (byname) h.add_increment(1.0, string_view(names[c]), q);
            else h.add_increment(1.0, (dimn_t) c, q);
            want = {unit(base[c], q)};
        } else if (ty[c] > 2) {
            label = "categorical placed";
            int v = (int) sym_choice("var", 0, nv[c] - 1);
            int vn = (int) sym_choice("variant_by_name", 0, 1);
            string vl(1, char('p' + v));
            if (byname) {
                if (vn) h.add_categorical(1.0, string_view(names[c]), string_view(vl));
                else h.add_categorical(1.0, string_view(names[c]), (dimn_t) v);
            } else {
                if (vn) h.add_categorical(1.0, (dimn_t) c, string_view(vl));
                else h.add_categorical(1.0, (dimn_t) c, (dimn_t) v);
            }
            want = {unit(base[c] + v, 1)};
        } else {
            label = "value placed";
            for (int k = 0; k < 2; ++k) {
                const Q& x = k ? q2 : q;
                if (byname) h.add_value(1.0 + k, string_view(names[c]), x);
                else h.add_value(1.0 + k, (dimn_t) c, x);
                Q dx = k ? q2 - q : q;
                want.push_back(unit(base[c], dx));
                if (ty[c] == 2) want.push_back(unit(base[c] + 1, dx));
            }
        }
        auto got = h.finalise();
        sym_assert(got.size() == want.size(), label);
        int i = 0;
        for (auto& [tm, l] : got) {
            if (i < (int) want.size()) eqv(rdL(A, l), want[i], label);
            ++i;
        }
    }
}
