#include "facade.hpp"
#include "rt.hpp"

#include "tsetlini.hpp"
#include "tsetlini_params.hpp"
#include "tsetlini_state_json.hpp"
#include "tsetlini_types.hpp"
#include "basic_bit_vector.hpp"
#include "basic_bit_vector_companion.hpp"
#include "estimator_state.hpp"
#include "strong_type/strong_type.hpp"

#include <cmath>
#include <cstring>
#include <iostream>
#include <new>
#include <streambuf>

using namespace Tsetlini;

int facade_instrumented()
{
#ifdef SIM_INSTR
    return 1;
#else
    return 0;
#endif
}

char const * kind_name(int k)
{
    static char const * n[] = {"ClassifierClassic", "ClassifierBitwise", "RegressorClassic", "RegressorBitwise"};
    return n[k & 3];
}

static std::string num(float f)
{
    char b[64];
    snprintf(b, sizeof b, "%.9g", f);
    std::string s = b;
    if (s.find_first_of(".en") == std::string::npos) s += ".0";
    return s;
}

std::string Config::json() const
{
    std::string r = "{";
    r += is_classifier(kind) ? "\"number_of_clauses_per_label\":" : "\"number_of_regressor_clauses\":";
    r += std::to_string(clauses);
    r += ",\"number_of_states\":" + std::to_string(states);
    r += ",\"s\":" + num(s);
    r += ",\"threshold\":" + std::to_string(threshold);
    r += std::string(",\"weighted\":") + (weighted ? "true" : "false");
    r += ",\"max_weight\":" + std::to_string(max_weight);
    r += ",\"boost_true_positive_feedback\":" + std::to_string((int)boost);
    r += ",\"n_jobs\":" + std::to_string(n_jobs);
    r += std::string(",\"verbose\":") + (verbose ? "true" : "false");
    r += ",\"counting_type\":\"" + counting + "\"";
    r += ",\"clause_output_tile_size\":" + std::to_string(tile);
    if (!is_classifier(kind))
    {
        r += ",\"loss_fn\":\"" + loss + "\",\"loss_fn_C1\":" + num(c1);
        r += std::string(",\"box_muller\":") + (box_muller ? "true" : "false");
    }
    if (has_seed) r += ",\"random_state\":" + std::to_string(seed);
    return r + "}";
}

std::string Config::text() const { return std::string(kind_name(kind)) + " " + json(); }

std::string Outcome::text() const
{
    static char const * n[] = {"ok", "status", "bad_alloc", "exception"};
    std::string r = n[kind & 3];
    if (kind == O_STATUS) r += "(" + std::to_string(status) + ")";
    if (kind != O_OK) r += " '" + what.substr(0, 120) + "'";
    if (!ints.empty())
    {
        r += " [";
        for (std::size_t i = 0; i < ints.size() && i < 12; ++i) r += (i ? "," : "") + std::to_string(ints[i]);
        r += "]";
    }
    if (!rows.empty()) r += " rows=" + std::to_string(rows.size());
    if (real != 0) r += " real=" + std::to_string(real);
    return r;
}

namespace
{

thread_local bool g_fault_free = false;
int sut_mode() { return g_fault_free ? 1 : 2; }

template<typename Sample> Sample make_sample(Row const & r, Pad const & pad);
template<> aligned_vector_char make_sample<aligned_vector_char>(Row const & r, Pad const &)
{
    aligned_vector_char v(r.size());
    for (std::size_t i = 0; i < r.size(); ++i) v[i] = (char)r[i];
    return v;
}
template<> bit_vector_uint64 make_sample<bit_vector_uint64>(Row const & r, Pad const & pad)
{
    bit_vector_uint64 v(r.size());
    // either way of making a sample
    if (r.size() && r[0] && pad.blocks == 0) v = basic_bit_vectors::from_range<uint64_t>(r.begin(), r.end());
    else
    for (std::size_t i = 0; i < r.size(); ++i)
        if (r[i]) v.set(i); else v.clear(i);
    if (pad.blocks > 0)
    {
        v.m_vector.resize(v.m_vector.size() + pad.blocks);
        bit_vector_uint64 big(r.size(), std::move(v.m_vector));
        v = std::move(big);
    }
    std::size_t spare = v.m_vector.size() * v.block_bits - r.size();
    if (pad.dirt >= 0 && spare) v.set(r.size() + (std::size_t)pad.dirt % spare);
    return v;
}

template<typename Sample> std::vector<Sample> make_X(Data const & d)
{
    std::vector<Sample> X;
    X.reserve(d.X.size());
    for (std::size_t i = 0; i < d.X.size(); ++i) X.push_back(make_sample<Sample>(d.X[i], i < d.pad.size() ? d.pad[i] : Pad()));
    return X;
}

template<typename F> void guarded(Outcome & o, F f)
{
    try
    {
        f();
    }
    catch (std::bad_alloc const & e)
    {
        rt::Host h;
        o.kind = O_BADALLOC;
        o.what = e.what();
    }
    catch (std::exception const & e)
    {
        rt::Host h;
        o.kind = O_EXC;
        o.what = e.what();
    }
    catch (...)
    {
        rt::Host h;
        o.kind = O_EXC;
        o.what = "unknown exception";
    }
}

void from_status(Outcome & o, status_message_t const & s)
{
    if (s.first != StatusCode::S_OK) o.kind = O_STATUS;
    o.status = (int)s.first;
    o.what = s.second;
}

template<typename E, typename F> void from_either(Outcome & o, E & e, F f)
{
    if (e.isLeft) { from_status(o, e.leftValue); if (o.kind == O_OK) { o.kind = O_EXC; o.what = "error carrying status OK"; } }
    else f(e.rightValue);
}

std::string pval(param_value_t const & p)
{
    if (std::holds_alternative<int>(p)) return "i:" + std::to_string(std::get<int>(p));
    if (std::holds_alternative<seed_type>(p)) return "u:" + std::to_string(std::get<seed_type>(p));
    if (std::holds_alternative<real_type>(p)) { char b[40]; snprintf(b, sizeof b, "f:%.9g", (double)std::get<real_type>(p)); return b; }
    if (std::holds_alternative<bool>(p)) return std::get<bool>(p) ? "b:true" : "b:false";
    if (std::holds_alternative<std::string>(p)) return "s:" + std::get<std::string>(p);
    return "null";
}

template<int K> struct Tr;
template<> struct Tr<CC> { using Est = ClassifierClassic; using St = ClassifierStateClassic; using Sample = aligned_vector_char; };
template<> struct Tr<CB> { using Est = ClassifierBitwise; using St = ClassifierStateBitwise; using Sample = bit_vector_uint64; };
template<> struct Tr<RC> { using Est = RegressorClassic; using St = RegressorStateClassic; using Sample = aligned_vector_char; };
template<> struct Tr<RB> { using Est = RegressorBitwise; using St = RegressorStateBitwise; using Sample = bit_vector_uint64; };

template<typename M> auto snap_pol(Snapshot & s, M const & ta, int) -> decltype(ta.polarity, void())
{
    s.has_pol = true;
    s.prows = (int)ta.polarity.rows();
    s.pcols = (int)ta.polarity.cols();
    for (int r = 0; r < s.prows; ++r)
    {
        auto row = ta.polarity.row_data(r);
        auto const bits = sizeof(*row) * 8;
        for (int c = 0; c < s.pcols; ++c) s.pol.push_back((row[c / bits] >> (c % bits)) & 1);
        if (s.pcols % bits)
            if (row[s.pcols / bits] >> (s.pcols % bits)) s.pol_pad_clear = false;
    }
}
template<typename M> void snap_pol(Snapshot &, M const &, long) {}

// the include mask follows the automata
template<typename M> auto set_pol(M & ta, Snapshot const & s, int) -> decltype(ta.polarity, void())
{
    for (int r = 0; r < s.rows; ++r)
    {
        using block = std::decay_t<decltype(*ta.polarity.row_data(r))>;
        auto row = const_cast<block *>(ta.polarity.row_data(r));
        auto const bits = sizeof(block) * 8;
        for (int c = 0; c < s.cols; ++c)
        {
            auto const one = block(1) << (c % bits);
            if (s.ta[(std::size_t)r * s.cols + c] >= 0) row[c / bits] |= one; else row[c / bits] &= ~one;
        }
    }
}
template<typename M> void set_pol(M &, Snapshot const &, long) {}

template<typename G> uint64_t gen_hash(G const & g)
{
    uint64_t h = 1;
    auto const n = g.MTSZ * g.NS;
    for (std::size_t i = 0; i < (std::size_t)n; ++i)
    {
        uint32_t v = 0;
        static_assert(sizeof(g.RESp()[0]) == 4, "");
        memcpy(&v, &g.RESp()[i], 4);
        h = (h ^ v) * 0x100000001b3ull + (uint32_t)g.MTp()[i];
        h ^= h >> 29;
    }
    return h;
}

template<typename S> Snapshot snap_of(S const & st)
{
    Snapshot s;
    std::visit([&](auto const & m)
    {
        s.rows = (int)m.rows();
        s.cols = (int)m.cols();
        s.width = (int)sizeof(typename std::decay_t<decltype(m)>::value_type);
        s.ta.resize((std::size_t)s.rows * s.cols);
        for (int r = 0; r < s.rows; ++r)
        {
            auto p = m.row_data(r);
            for (int c = 0; c < s.cols; ++c) s.ta[(std::size_t)r * s.cols + c] = p[c];
        }
    }, st.ta_state.matrix);
    s.fitted = s.rows != 0;
    s.weights.assign(st.ta_state.weights.begin(), st.ta_state.weights.end());
    snap_pol(s, st.ta_state, 0);
    for (auto const & kv : st.m_params) s.params[kv.first] = pval(kv.second);
    if (s.fitted)
    {
        s.igen_index = st.igen.index;
        s.fgen_index = st.fgen.index;
        s.igen_hash = gen_hash(st.igen);
        s.fgen_hash = gen_hash(st.fgen);
        s.rng_hash = s.igen_hash * 31 + s.fgen_hash;
    }
    return s;
}

template<int K> struct StateT final : State
{
    using St = typename Tr<K>::St;
    std::unique_ptr<St, void (*)(St *)> p;
    explicit StateT(std::unique_ptr<St, void (*)(St *)> q) : p(std::move(q)) { kind = K; }
    ~StateT() { rt::Sut g(sut_mode()); p.reset(); }
    Outcome to_json(std::string & out) const override
    {
        Outcome o;
        guarded(o, [&]
        {
            rt::Sut g(sut_mode());
            std::string s = to_json_string(*p);
            rt::Host h;
            out.assign(s.data(), s.size());
        });
        return o;
    }
    Outcome from_json(std::string const & doc) override
    {
        Outcome o;
        std::unique_ptr<std::string> copy;
        {
            rt::Sut g(1);
            copy = std::make_unique<std::string>(doc.data(), doc.size());
        }
        guarded(o, [&]
        {
            rt::Sut g(sut_mode());
            from_json_string(*p, *copy);
        });
        return o;
    }
    Snapshot snap() const override { return snap_of(*p); }
    void inject(Snapshot const & s) override
    {
        std::visit([&](auto & m)
        {
            if ((int)m.rows() != s.rows || (int)m.cols() != s.cols) return;
            for (int r = 0; r < s.rows; ++r)
            {
                auto q = m.row_data(r);
                for (int c = 0; c < s.cols; ++c) q[c] = s.ta[(std::size_t)r * s.cols + c];
            }
        }, p->ta_state.matrix);
        for (std::size_t i = 0; i < p->ta_state.weights.size() && i < s.weights.size(); ++i) p->ta_state.weights[i] = s.weights[i];
        set_pol(p->ta_state, s, 0);
    }
    bool equal_to(State const & o) const override
    {
        if (o.kind != K) return false;
        rt::Sut g(1);
        return equal(*p, *static_cast<StateT const &>(o).p);
    }
};

template<int K> struct EstT final : Est
{
    using E = typename Tr<K>::Est;
    using Sample = typename Tr<K>::Sample;
    std::unique_ptr<E> e;
    explicit EstT(std::unique_ptr<E> q) : e(std::move(q)) { kind = K; }
    ~EstT() { rt::Sut g(sut_mode()); e.reset(); }

    struct Prep
    {
        std::vector<Sample> * X;
        std::vector<int> * y;
        bool own;
        explicit Prep(Data const & d) : own(not d.reuse)
        {
            rt::Sut g(1);
            if (own)
            {
                X = new std::vector<Sample>(make_X<Sample>(d));
                y = new std::vector<int>(d.y);
            }
            else
            {
                static std::vector<Sample> & keptX = *new std::vector<Sample>;
                static std::vector<int> & kepty = *new std::vector<int>;
                auto const rows = make_X<Sample>(d);
                keptX = rows;            // in place where the shapes agree
                kepty = d.y;
                X = &keptX;
                y = &kepty;
            }
        }
        ~Prep() { if (not own) return; rt::Sut g(1); delete X; delete y; }
    };
    struct Prep1
    {
        Sample * s;
        bool own;
        Prep1(Row const & r, Pad const & pad) : own(not pad.reuse)
        {
            rt::Sut g(1);
            if (own) s = new Sample(make_sample<Sample>(r, pad));
            else
            {
                static Sample & kept = *new Sample(make_sample<Sample>(r, pad));
                auto const now = make_sample<Sample>(r, pad);
                kept = now;
                s = &kept;
            }
        }
        ~Prep1() { if (not own) return; rt::Sut g(1); delete s; }
    };

    template<typename Call> Outcome train(Data const & d, Call call)
    {
        Outcome o;
        Prep p(d);
        guarded(o, [&]
        {
            rt::Sut g(sut_mode());
            status_message_t s = call(*p.X, *p.y);
            rt::Host h;
            from_status(o, s);
        });
        return o;
    }

    Outcome fit(Data const & d, int ml, int ep) override
    {
        return train(d, [&](auto const & X, auto const & y) -> status_message_t
        {
            if constexpr (is_cls())
            {
                if (ep < 0 || (ep == 100 && X.size() % 2)) return e->fit(X, y, max_number_of_labels_t{ml < 0 ? 0 : ml});
                if (X.size() % 3 == 0) return e->fit(X, y, number_of_epochs_t{(unsigned)ep}, max_number_of_labels_t{ml < 0 ? 0 : ml});
                return e->fit(X, y, max_number_of_labels_t{ml < 0 ? 0 : ml}, number_of_epochs_t{(unsigned)ep});
            }
            else
            {
                if (ep < 0 || (ep == 100 && X.size() % 2)) return e->fit(X, y);
                return e->fit(X, y, number_of_epochs_t{(unsigned)ep});
            }
        });
    }
    Outcome partial_fit(Data const & d, int ml, int ep) override
    {
        return train(d, [&](auto const & X, auto const & y) -> status_message_t
        {
            if constexpr (is_cls())
            {
                if (ep < 0 || (ep == 100 && X.size() % 2)) return e->partial_fit(X, y, max_number_of_labels_t{ml < 0 ? 0 : ml});
                if (X.size() % 3 == 0) return e->partial_fit(X, y, max_number_of_labels_t{ml < 0 ? 0 : ml}, number_of_epochs_t{(unsigned)ep});
                return e->partial_fit(X, y, number_of_epochs_t{(unsigned)ep}, max_number_of_labels_t{ml < 0 ? 0 : ml});
            }
            else
            {
                if (ep < 0 || (ep == 100 && X.size() % 2)) return e->partial_fit(X, y);
                return e->partial_fit(X, y, number_of_epochs_t{(unsigned)ep});
            }
        });
    }
    static constexpr bool is_cls() { return K == CC || K == CB; }

    Outcome predict1(Row const & r, Pad const & pad) const override
    {
        Prep1 p(r, pad);
        Outcome o;
        return run_q(o, [&] { return e->predict(*p.s); }, [&](auto const & v) { o.ints.assign(1, v); });
    }
    Outcome predictN(Data const & d) const override
    {
        Prep p(d);
        Outcome o;
        return run_q(o, [&] { return e->predict(*p.X); }, [&](auto const & v) { o.ints.assign(v.begin(), v.end()); });
    }
    template<typename Call, typename Take> Outcome run_q(Outcome & o, Call call, Take take) const
    {
        guarded(o, [&]
        {
            rt::Sut g(sut_mode());
            auto r = call();
            rt::Host h;
            from_either(o, r, take);
        });
        return o;
    }
    Outcome decide1(Row const & r, Pad const & pad) const override
    {
        Outcome o;
        if constexpr (is_cls())
        {
            Prep1 p(r, pad);
            run_q(o, [&] { return e->decision_function(*p.s); }, [&](auto const & v) { o.ints.assign(v.begin(), v.end()); });
        }
        else { (void)r; (void)pad; }
        return o;
    }
    Outcome decideN(Data const & d) const override
    {
        Outcome o;
        if constexpr (is_cls())
        {
            Prep p(d);
            run_q(o, [&] { return e->decision_function(*p.X); }, [&](auto const & v)
            {
                for (auto const & r : v) o.rows.emplace_back(r.begin(), r.end());
            });
        }
        else (void)d;
        return o;
    }
    Outcome evaluate(Data const & d) const override
    {
        Outcome o;
        if constexpr (is_cls())
        {
            Prep p(d);
            run_q(o, [&] { return e->evaluate(*p.X, *p.y); }, [&](auto const & v) { o.real = v; });
        }
        else (void)d;
        return o;
    }
    Outcome read_params(std::map<std::string, std::string> & out) const override
    {
        Outcome o;
        guarded(o, [&]
        {
            rt::Sut g(sut_mode());
            auto p = e->read_params();
            rt::Host h;
            out.clear();
            for (auto const & kv : p) out[kv.first] = pval(kv.second);
        });
        return o;
    }
    std::unique_ptr<State> clone(Outcome & o) const override
    {
        std::unique_ptr<State> r;
        guarded(o, [&]
        {
            rt::Sut g(sut_mode());
            auto p = e->clone_state();
            rt::Host h;
            r = std::make_unique<StateT<K>>(std::move(p));
        });
        return r;
    }
    std::unique_ptr<Est> move_out() override
    {
        rt::Sut g(sut_mode());
        auto q = std::make_unique<E>(std::move(*e));
        rt::Host h;
        return std::make_unique<EstT<K>>(std::move(q));
    }
    void move_from(Est & o) override
    {
        rt::Sut g(sut_mode());
        *e = std::move(*static_cast<EstT &>(o).e);
    }
};

template<int K, typename R> std::unique_ptr<Est> wrap(R & r, Outcome & o)
{
    std::unique_ptr<Est> out;
    using E = typename Tr<K>::Est;
    if (r.isLeft) { from_status(o, r.leftValue); return out; }
    rt::Sut g(sut_mode());
    auto q = std::make_unique<E>(std::move(r.rightValue));
    rt::Host h;
    out = std::make_unique<EstT<K>>(std::move(q));
    return out;
}

template<int K, typename F> std::unique_ptr<Est> build(Outcome & o, F f)
{
    std::unique_ptr<Est> out;
    guarded(o, [&]
    {
        rt::Sut g(sut_mode());
        auto r = f();
        rt::Host h;
        out = wrap<K>(r, o);
    });
    return out;
}

template<typename F> auto with_seed(Config const & c, F f)
{
    if (c.has_seed) return f(random_seed_t{c.seed});
    return f();
}

} // anon

void fault_free(bool on) { g_fault_free = on; }

std::unique_ptr<Est> make_est(Config const & c, Outcome & o)
{
    std::unique_ptr<std::string> cnt, loss;
    {
        rt::Sut g(1);
        cnt = std::make_unique<std::string>(c.counting.data(), c.counting.size());
        loss = std::make_unique<std::string>(c.loss.data(), c.loss.size());
    }
    auto cls = [&](auto mk)
    {
        return with_seed(c, [&](auto... seed)
        {
            return mk(
                number_of_physical_classifier_clauses_per_label_t{c.clauses}, number_of_states_t{c.states},
                specificity_t{c.s}, threshold_t{c.threshold}, weighted_flag_t{c.weighted}, max_weight_t{c.max_weight},
                boost_tpf_t{c.boost}, number_of_jobs_t{c.n_jobs}, verbosity_t{c.verbose},
                counting_type_t{*cnt}, clause_output_tile_size_t{c.tile}, seed...);
        });
    };
    auto reg = [&](auto mk)
    {
        return with_seed(c, [&](auto... seed)
        {
            return mk(
                number_of_physical_regressor_clauses_t{c.clauses}, number_of_states_t{c.states},
                specificity_t{c.s}, threshold_t{c.threshold}, weighted_flag_t{c.weighted}, max_weight_t{c.max_weight},
                boost_tpf_t{c.boost}, number_of_jobs_t{c.n_jobs}, verbosity_t{c.verbose},
                counting_type_t{*cnt}, clause_output_tile_size_t{c.tile},
                loss_fn_name_t{*loss}, loss_fn_C1_t{c.c1}, box_muller_flag_t{c.box_muller}, seed...);
        });
    };
    switch (c.kind)
    {
        case CC: return build<CC>(o, [&] { return cls([](auto... a) { return make_classifier_classic(a...); }); });
        case CB: return build<CB>(o, [&] { return cls([](auto... a) { return make_classifier_bitwise(a...); }); });
        case RC: return build<RC>(o, [&] { return reg([](auto... a) { return make_regressor_classic(a...); }); });
        default: return build<RB>(o, [&] { return reg([](auto... a) { return make_regressor_bitwise(a...); }); });
    }
}

std::unique_ptr<Est> make_est_json(int kind, std::string const & doc, Outcome & o)
{
    std::unique_ptr<std::string> s;
    {
        rt::Sut g(1);
        s = std::make_unique<std::string>(doc.data(), doc.size());
    }
    switch (kind)
    {
        case CC: return build<CC>(o, [&] { return make_classifier_classic_from_json(*s); });
        case CB: return build<CB>(o, [&] { return make_classifier_bitwise_from_json(*s); });
        case RC: return build<RC>(o, [&] { return make_regressor_classic_from_json(*s); });
        default: return build<RB>(o, [&] { return make_regressor_bitwise_from_json(*s); });
    }
}

template<int K> static std::unique_ptr<Est> from_state_k(State const & s, Outcome & o)
{
    std::unique_ptr<Est> out;
    guarded(o, [&]
    {
        rt::Sut g(sut_mode());
        auto q = std::make_unique<typename Tr<K>::Est>(*static_cast<StateT<K> const &>(s).p);
        rt::Host h;
        out = std::make_unique<EstT<K>>(std::move(q));
    });
    return out;
}

std::unique_ptr<Est> est_from_state(State const & s, Outcome & o)
{
    switch (s.kind)
    {
        case CC: return from_state_k<CC>(s, o);
        case CB: return from_state_k<CB>(s, o);
        case RC: return from_state_k<RC>(s, o);
        default: return from_state_k<RB>(s, o);
    }
}

// ------------------------------------------------------------ snapshot helpers
static uint64_t hmix(uint64_t h, uint64_t v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); return h * 0xff51afd7ed558ccdull ^ (h >> 31); }
uint64_t Snapshot::hash(bool with_params) const
{
    uint64_t h = hmix(rows, cols);
    for (int v : ta) h = hmix(h, (uint64_t)(int64_t)v);
    for (auto v : weights) h = hmix(h, v);
    for (auto v : pol) h = hmix(h, v);
    h = hmix(h, igen_index); h = hmix(h, fgen_index); h = hmix(h, rng_hash);
    if (with_params)
        for (auto const & kv : params)
        {
            for (char c : kv.first) h = hmix(h, (uint8_t)c);
            for (char c : kv.second) h = hmix(h, (uint8_t)c);
        }
    return h;
}
bool Snapshot::same_learned(Snapshot const & o) const
{
    return rows == o.rows && cols == o.cols && ta == o.ta && weights == o.weights && prows == o.prows && pcols == o.pcols && pol == o.pol;
}
bool Snapshot::operator==(Snapshot const & o) const
{
    return same_learned(o) && width == o.width && params == o.params && igen_index == o.igen_index && fgen_index == o.fgen_index
        && rng_hash == o.rng_hash && pol_pad_clear == o.pol_pad_clear;
}
std::string Snapshot::diff(Snapshot const & o) const
{
    std::string r;
    if (rows != o.rows || cols != o.cols) r += " shape " + std::to_string(rows) + "x" + std::to_string(cols) + " vs " + std::to_string(o.rows) + "x" + std::to_string(o.cols) + ";";
    else if (ta != o.ta)
        for (std::size_t i = 0; i < ta.size(); ++i)
            if (ta[i] != o.ta[i])
            {
                r += " automaton row " + std::to_string(i / cols) + " feature " + std::to_string(i % cols) + ": " + std::to_string(ta[i]) + " vs " + std::to_string(o.ta[i]) + ";";
                break;
            }
    if (weights != o.weights)
    {
        r += " weights";
        if (weights.size() != o.weights.size()) r += " size " + std::to_string(weights.size()) + " vs " + std::to_string(o.weights.size());
        else
            for (std::size_t i = 0; i < weights.size(); ++i)
                if (weights[i] != o.weights[i]) { r += "[" + std::to_string(i) + "] " + std::to_string(weights[i]) + " vs " + std::to_string(o.weights[i]); break; }
        r += ";";
    }
    if (pol != o.pol || prows != o.prows || pcols != o.pcols) r += " include mask;";
    if (width != o.width) r += " counter width " + std::to_string(width) + " vs " + std::to_string(o.width) + ";";
    if (igen_index != o.igen_index || fgen_index != o.fgen_index || rng_hash != o.rng_hash) r += " generator state;";
    if (params != o.params)
    {
        r += " params";
        for (auto const & kv : params)
        {
            auto it = o.params.find(kv.first);
            if (it == o.params.end()) r += " -" + kv.first;
            else if (it->second != kv.second) r += " " + kv.first + "=" + kv.second + " vs " + it->second;
        }
        for (auto const & kv : o.params) if (!params.count(kv.first)) r += " +" + kv.first;
        r += ";";
    }
    return r.empty() ? " (equal)" : r;
}

// ------------------------------------------------------------ log sink
namespace
{
struct Sink : std::streambuf
{
    SinkSpec spec;
    std::string text;
    long written = 0;
    uint64_t faults = 0;
    bool failing()
    {
        if (spec.mode == SINK_OK || spec.fail_after < 0) return false;
        if (written < spec.fail_after) return false;
        if (spec.restore_after >= 0 && (long)faults >= spec.restore_after) return false;
        return true;
    }
    int_type overflow(int_type c) override
    {
        char ch = (char)c;
        return xsputn(&ch, 1) == 1 ? c : traits_type::eof();
    }
    std::streamsize xsputn(char const * s, std::streamsize n) override
    {
        rt::Host h;
        if (failing())
        {
            ++faults;
            if (spec.mode == SINK_THROW) throw std::runtime_error("simulated sink failure");
            if (spec.mode == SINK_SHORT) { text.append(s, n / 2); written += n / 2; return n / 2; }
            return 0;
        }
        text.append(s, n);
        written += n;
        return n;
    }
    int sync() override { return failing() ? (++faults, -1) : 0; }
};
Sink & sink() { static Sink * s = new Sink; return *s; }
}
void sink_set(SinkSpec const & s)
{
    sink().spec = s;
    std::clog.exceptions(std::ios::goodbit);
    std::clog.rdbuf(&sink());
    std::clog.clear();
    std::clog.exceptions(s.exceptions ? (std::ios::badbit | std::ios::failbit) : std::ios::goodbit);
}
std::string sink_text() { return sink().text; }
uint64_t sink_faults() { return sink().faults; }
void sink_reset()
{
    sink().text.clear();
    sink().written = 0;
    sink().faults = 0;
    sink_set(SinkSpec());
}
