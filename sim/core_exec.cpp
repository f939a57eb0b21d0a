// Executor: runs one program of a scenario in forked simulated processes, with crashes,
// a durable document store, faults and the checks that are made while it runs.
#include "plan.hpp"
#include <algorithm>
#include <alloca.h>
#include <cerrno>
#include <csignal>
#include <execinfo.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

typedef std::string str;
static str S(long v) { return std::to_string(v); }

namespace
{
constexpr int NSLOT = 12, MAXREC = 20000, MAXPROBE = 160, MAXSW = 400000;
constexpr int ST_OK = 0, ST_VALUE = 2, ST_NOTFIT = 3;   // positions in the public enumeration, verified at start

struct DocEntry { int used, kind, cfg; uint32_t off, len, poff, plen; };
struct Ckpt { int valid, pc; DocEntry d[NSLOT]; uint32_t used; char store[6 << 20]; };
struct Probe { char name[40]; uint64_t n; };
struct Shm
{
    int violated;
    char cls[48], detail[1600];
    int cur_op;
    int nrec;
    Rec rec[MAXREC];
    int cur_ck;
    Ckpt ck[2];
    int pc;                      // where the crash happened
    uint64_t allocs[4096];       // per op id, from the fault-free program
    int allocs_valid;
    uint64_t hash;
    rt::Counters cnt;
    uint64_t entropy, cpuq, sinkf;
    int nprobe;
    Probe probe[MAXPROBE];
    int nsw;
    rt::SwitchEntry sw[MAXSW];
};
Shm * shm = nullptr;
int g_outfd = -1;
bool g_want_switches = false;
std::map<str, uint64_t> g_probes;
bool g_child = false;

void on_violation(str const & cls, str const & detail)
{
    if (!shm->violated)
    {
        shm->violated = 1;
        snprintf(shm->cls, sizeof shm->cls, "%s", cls.c_str());
        snprintf(shm->detail, sizeof shm->detail, "%s", detail.c_str());
        auto const & r = rt::recorded();
        shm->nsw = (int)std::min<std::size_t>(r.size(), MAXSW);
        for (int i = 0; i < shm->nsw; ++i) shm->sw[i] = r[i];
        shm->hash = rt::mix(shm->hash, rt::trace_hash());
    }
    _exit(66);
}

// ------------------------------------------------------------ world
struct SlotData
{
    std::unique_ptr<Est> e;
    std::unique_ptr<State> st;
    int st_cfg = 0;
    std::map<str, str> st_params0;
    int cfg = 0;
    bool have_params0 = false;
    std::map<str, str> params0;
    str doc, doc_prev;
    std::unique_ptr<State> origin;      // the state behind doc
    int doc_kind = -1, doc_cfg = 0;
    std::map<str, str> doc_params0;
};
SlotData W[NSLOT];
Scenario const * g_sc;
ProgSpec const * g_pr;
int g_prog;
bool g_silent = false;          // second pass: nothing recorded
SinkSpec g_sink;
uint64_t g_log_seen = 0;

[[noreturn]] void fail(str const & cls, Op const & op, str const & d)
{
    rt::violation(cls, d + " [op " + S(op.id) + " " + op.k + " slot " + S(op.slot) + ", program " + S(g_prog) + "]");
}

Config eff(int i)
{
    Config c = g_sc->cfgs[i % g_sc->cfgs.size()];
    if (g_pr->n_jobs != -1000) c.n_jobs = g_pr->n_jobs;
    if (g_pr->tile) c.tile = g_pr->tile;
    if (g_pr->verbose >= 0) c.verbose = g_pr->verbose;
    if (!g_pr->counting.empty()) c.counting = g_pr->counting;
    return c;
}

void __attribute__((noinline)) dirty_stack()
{
    if (!g_pr->stack) return;
    volatile char * p = (volatile char *)alloca(48 << 10);
    for (int i = 0; i < (48 << 10); i += 8) *(volatile uint64_t *)(p + i) = 0x0101010101010101ull * (unsigned)(g_pr->stack & 255);
}

uint64_t h64(str const & s) { uint64_t h = 14695981039346656037ull; for (char c : s) h = (h ^ (uint8_t)c) * 1099511628211ull; return h; }
uint64_t hout(Outcome const & o)
{
    uint64_t h = rt::mix(o.kind, o.status);
    for (int v : o.ints) h = rt::mix(h, (uint64_t)(int64_t)v);
    for (auto const & r : o.rows) { h = rt::mix(h, r.size()); for (int v : r) h = rt::mix(h, (uint64_t)(int64_t)v); }
    uint64_t b; memcpy(&b, &o.real, 8);
    return rt::mix(h, b);
}
std::set<str> ignored()
{
    std::set<str> r;
    std::size_t p = 0;
    str const & s = g_sc->ignore;
    while (p < s.size())
    {
        std::size_t e = s.find(' ', p);
        if (e == str::npos) e = s.size();
        if (e > p) r.insert(s.substr(p, e - p));
        p = e + 1;
    }
    return r;
}
Snapshot norm(Snapshot s)
{
    for (auto const & k : ignored()) s.params.erase(k);
    if (g_sc->ignore_width) s.width = 0;
    if (g_sc->ignore_rng) { s.igen_index = s.fgen_index = 0; s.rng_hash = 0; }
    return s;
}
uint64_t hsnap(Snapshot const & s0)
{
    Snapshot s = norm(s0);
    return rt::mix(s.hash(true), rt::mix(s.width, s.pol_pad_clear));
}
str ssnap(Snapshot const & s)
{
    return (s.fitted ? S(s.rows) + "x" + S(s.cols) + (s.weights.empty() ? "" : " w") : str("unfitted"));
}

Snapshot snap(int slot)
{
    fault_free(true);
    Outcome o;
    auto st = W[slot].e->clone(o);
    Snapshot s;
    if (st) s = st->snap();
    st.reset();
    fault_free(false);
    return s;
}

void record(Op const & op, Outcome const & o, Snapshot const * s)
{
    if (g_silent) return;
    if (shm->nrec >= MAXREC) return;
    Rec & r = shm->rec[shm->nrec++];
    r.tag = op.cmp ? op.id : -op.id;
    r.out = hout(o);
    r.snap = s ? hsnap(*s) : 0;
    snprintf(r.text, sizeof r.text, "%s %s", o.text().substr(0, 70).c_str(), s ? ssnap(*s).c_str() : "");
    rt::mix_trace(r.out);
    rt::mix_trace(r.snap);
}

// every observation of an estimator goes through here
Snapshot observe(Op const & op, int slot)
{
    Snapshot s = snap(slot);
    if (g_sc->checks & CK_INV)
    {
        str e = check_wellformed(W[slot].e->kind, s, W[slot].have_params0 ? &W[slot].params0 : nullptr);
        if (!e.empty()) fail("malformed-model", op, e);
        probe("wellformed checks");
    }
    return s;
}

void set_params0(int slot, Op const & op, Config const * c)
{
    std::map<str, str> p;
    fault_free(true);
    W[slot].e->read_params(p);
    fault_free(false);
    p.erase("number_of_labels");
    p.erase("number_of_features");
    W[slot].params0 = p;
    W[slot].have_params0 = true;
    if (!c) return;
    auto expect = [&](char const * k, str const & v)
    {
        auto it = p.find(k);
        str got = it == p.end() ? "(absent)" : it->second.size() > 2 && it->second[1] == ':' ? it->second.substr(2) : it->second;
        if (got != v) fail("wrong-parameter", op, str("estimator reports ") + k + "=" + got + ", configured " + v);
    };
    auto b = [](bool v) { return str(v ? "true" : "false"); };
    if (is_classifier(c->kind)) expect("number_of_clauses_per_label", S(c->clauses)); else expect("number_of_regressor_clauses", S(c->clauses));
    expect("number_of_states", S(c->states));
    expect("threshold", S(c->threshold));
    expect("max_weight", S(c->max_weight));
    expect("weighted", b(c->weighted));
    expect("n_jobs", S(c->n_jobs == -1 ? std::max(1u, g_pr->cpus) : c->n_jobs));
    expect("verbose", b(c->verbose));
    if (c->has_seed) expect("random_state", S(c->seed));
}

int jobs_limit(int slot)
{
    Config c = eff(W[slot].cfg);
    return c.n_jobs == -1 ? (int)std::max(1u, g_pr->cpus) : std::max(1, c.n_jobs);
}

// ------------------------------------------------------------ data of an op
// bit rows may own more storage than their content needs
void spare_blocks(Data & d, uint64_t seed)
{
    rt::Rng r(rt::mix(seed, 0x5BA3E));
    if (!r.chance(0.15)) return;
    d.pad.resize(d.X.size());
    bool all = r.chance(0.5);
    for (auto & p : d.pad) if (all || r.chance(0.5)) p.blocks = r.range(1, 2);
}
Pad pad0(Data const & d) { Pad p = d.pad.empty() ? Pad() : d.pad[0]; p.reuse = d.reuse; return p; }

Data op_data_(Op const & op, int kind, Snapshot const & s, Config const & c, bool train, bool fitting)
{
    bool cls = is_classifier(kind);
    int F = (s.fitted && !fitting) ? s.cols : (int)op.x;
    int L = op.y > 0 ? (int)op.y : 2;
    if (cls && s.fitted && !fitting) L = std::min(L, (int)std::max(1l, pnum(s, "number_of_labels", 1)));
    int T = c.threshold;
    if (op.mode == 9 && s.fitted && s.cols > 0 && !fitting)
    {
        rt::Rng r(rt::mix(op.seed, 99));
        Data d;
        for (int i = 0; i < op.n; ++i)
        {
            d.X.push_back(target_sample(s, r));
            d.y.push_back(cls ? (int)r.below(std::max(1, L)) : (int)r.below((uint64_t)T + 1));
        }
        spare_blocks(d, op.seed);
        return d;
    }
    (void)train;
    Data d = gen_data(op.seed, op.n, F, L, T, op.mode, cls);
    spare_blocks(d, op.seed);
    return d;
}

Data op_data(Op const & op, int kind, Snapshot const & s, Config const & c, bool train, bool fitting)
{
    Data d = op_data_(op, kind, s, c, train, fitting);
    rt::Rng r(rt::mix(op.seed, 0xB0F));
    d.reuse = op.thr == 0 && r.chance(0.3);
    // labels that the model answers, or that resemble its answer
    if (op.k == "EVAL" && s.fitted && (long)s.rows * s.cols * op.n < 3000000 && r.chance(0.5))
        for (std::size_t i = 0; i < d.X.size() && i < d.y.size(); ++i)
        {
            auto v = ref_votes(kind, s, d.X[i], false);
            int p = (int)(std::max_element(v.begin(), v.end()) - v.begin());
            d.y[i] = r.chance(0.75) ? p : r.pick({p & 1, p & 127, p & 255, (int)(int8_t)p, p + 256, p - 256, p + 65536, -p, p + 1, p - 1, std::min(p, 127)});
        }
    // labels that the model has never seen are wrong whatever it answers
    if (op.k == "EVAL" && r.chance(0.2))
        for (auto & v : d.y) if (r.chance(0.5)) v = r.pick({-1, 1, 2, 3, 7, 1000000, INT32_MAX, INT32_MIN});
    return d;
}

// answers against the reference votes
void check_answers(Op const & op, int kind, Snapshot const & s, Data const & d, Outcome const & o)
{
    if (!o.ok()) return;
    if (!s.fitted) fail("unexpected-acceptance", op, "an unfitted model answered");
    probe("answers checked", d.X.size());
    double right = 0;
    auto best = [](std::vector<long> const & v) { return (int)(std::max_element(v.begin(), v.end()) - v.begin()); };
    bool one = op.k == "PRED1" || op.k == "DEC1";
    std::size_t n = one ? 1 : d.X.size();
    if (op.k == "PREDN" && o.ints.size() != n) fail("wrong-answer", op, S(o.ints.size()) + " predictions for " + S(n) + " samples");
    if (op.k == "DECN" && o.rows.size() != n) fail("wrong-answer", op, S(o.rows.size()) + " decision rows for " + S(n) + " samples");
    for (std::size_t i = 0; i < n; ++i)
    {
        auto v = ref_votes(kind, s, d.X[i], false);
        if (is_classifier(kind)) for (long t : v) { if (t == pnum(s, "threshold") || t == -pnum(s, "threshold")) probe("votes at the clamp"); }
        long T = pnum(s, "threshold");
        (void)T;
        int p = is_classifier(kind) ? best(v) : (int)v[0];
        if (op.k == "PREDN" || op.k == "PRED1")
        {
            if (one && o.ints.size() != 1) fail("wrong-answer", op, "no prediction");
            if (o.ints[i] != p) fail("wrong-answer", op, "sample " + S(i) + ": predicted " + S(o.ints[i]) + ", the learned clauses vote for " + S(p));
        }
        else if (op.k == "DECN" || op.k == "DEC1")
        {
            auto const & g = one ? o.ints : o.rows[i];
            if (g.size() != v.size()) fail("wrong-answer", op, "sample " + S(i) + ": " + S(g.size()) + " decision values for " + S(v.size()) + " labels");
            for (std::size_t l = 0; l < v.size(); ++l)
                if (g[l] != v[l]) fail("wrong-answer", op, "sample " + S(i) + " label " + S(l) + ": decision value " + S(g[l]) + ", the learned clauses vote " + S(v[l]));
        }
        else if (op.k == "EVAL") right += p == d.y[i];
    }
    if (op.k == "EVAL")
    {
        double want = right / n;
        if (std::abs(want - o.real) > 2e-6) fail("wrong-answer", op, "evaluation gives " + std::to_string(o.real) + ", " + S((long)right) + " of " + S(n) + " predictions are correct");
    }
}

int g_btfd = 2;
std::vector<long> g_acc;
// ------------------------------------------------------------ rejected requests
struct BadPlan { str call; Data d; int ml = -1, ep = 1; Pad pad; int want = ST_VALUE; bool valid = false; };
BadPlan bad_request(Op const & op, int kind, Snapshot const & s, Config const & c)
{
    BadPlan b;
    rt::Rng r(rt::mix(op.seed, 0xBAD));
    bool cls = is_classifier(kind), bit = is_bitwise(kind);
    int F = s.fitted ? s.cols : std::max(2, (int)op.x);
    int L = cls ? (s.fitted ? (int)pnum(s, "number_of_labels", 2) : 3) : 2;
    int n = r.range(2, 6);
    // the fault may hide behind many good rows
    if (F <= 70 && r.chance(0.08)) n = r.pick({16, 17, 33, 64, 65, 70, 100, 129, 257, 258, 300});
    b.d = gen_data(op.seed, n, F, L, c.threshold, 0, cls);
    str train = r.chance(0.5) ? "fit" : "pfit";
    int at = (int)r.below(n);
    if (r.chance(0.5)) at = n - 1;
    auto dirty = [&]() -> bool
    {
        if (!bit)
        {
            b.d.X[at][r.below(F)] = (uint8_t)r.pick({2, 3, 128, 255});
            // several bad values, in one row or all over the rows, may hide each other
            while (r.chance(0.5)) b.d.X[r.chance(0.6) ? at : (int)r.below(n)][r.below(F)] = (uint8_t)r.pick({2, 2, 3, 4, 127, 128, 254, 255, 255, 255});
            return true;
        }
        // a bit set somewhere behind the content, in its last block or in a spare one
        Pad p;
        p.blocks = r.chance(0.4) || F % 64 == 0 ? r.range(1, 3) : 0;
        p.dirt = r.chance(0.3) ? 0 : r.chance(0.2) ? 64 * (p.blocks + (F % 64 != 0)) - F % 64 - 1 : (int)r.below(1 << 20);
        if (r.chance(0.5)) spare_blocks(b.d, r.next());
        b.d.pad.resize(b.d.X.size());
        b.d.pad[at] = p;
        return true;
    };
    auto rag = [&]
    {
        bool longer = r.chance(0.5);
        if (longer) b.d.X[at].push_back(0); else b.d.X[at].pop_back();
        // another one the other way round
        int at2 = (int)r.below(n);
        if (n > 2 && at2 != at && r.chance(0.3)) { if (longer) b.d.X[at2].pop_back(); else b.d.X[at2].push_back(0); }
    };
    auto width = [&] { int d = r.pick({1, -1, 64, 3, -2, 8, -8}); if (r.chance(0.05)) d = r.chance(0.7) ? 256 : 65536; if (F + d < 1) d = 1; for (auto & x : b.d.X) x.resize(F + d); };
    str query = r.pick({0, 1, 2}) == 0 ? "predN" : r.chance(0.5) && cls ? "decN" : cls ? "eval" : "predN";
    str query1 = cls && r.chance(0.5) ? "dec1" : "pred1";
    b.valid = true;
    switch (op.mode)
    {
        case 0: b.call = train; b.d.X.clear(); if (r.chance(0.5)) b.d.y.clear(); break;
        case 1: b.call = train; if (n > 256 && r.chance(0.7)) b.d.y.resize(n - 256); else if (r.chance(0.5)) b.d.y.pop_back(); else b.d.y.push_back(0); break;
        case 2: b.call = train; b.d.y.clear(); break;
        case 3: b.call = train; rag(); break;
        case 4: b.call = train; b.valid = dirty(); break;
        case 5: b.call = train; b.d.y[at] = -(int)r.pick({1, 1, 2, 1000, 256, 65536, INT32_MAX}); if (r.chance(0.3)) b.d.y[r.below(n)] = -1; break;
        case 6:
            if (cls) { b.call = "pfit"; b.valid = s.fitted; b.d.y[at] = (int)r.pick({L, L, L + 1, L + 100, 256 + L - 1, 65536, INT32_MAX}); if (b.d.y[at] < L) b.d.y[at] = L; }
            else { b.call = train; b.d.y[at] = c.threshold + (int)r.pick({1, 1, 2, 256, 65536}); b.valid = c.threshold < INT32_MAX - 70000; }
            break;
        case 7: b.call = "pfit"; b.valid = s.fitted; width(); break;
        case 8: b.call = query; b.d.X.clear(); b.d.y.clear(); b.want = s.fitted ? ST_VALUE : ST_NOTFIT; break;
        case 9: b.call = query; rag(); b.want = s.fitted ? ST_VALUE : ST_NOTFIT; break;
        case 10: b.call = query; width(); b.want = s.fitted ? ST_VALUE : ST_NOTFIT; break;
        case 11: b.call = query; b.valid = dirty(); b.want = s.fitted ? ST_VALUE : ST_NOTFIT; break;
        case 12: b.call = query1; width(); b.want = s.fitted ? ST_VALUE : ST_NOTFIT; break;
        case 13: at = 0; b.call = query1; b.valid = dirty(); if (bit) b.pad = b.d.pad[0]; b.want = s.fitted ? ST_VALUE : ST_NOTFIT; break;
        case 14: b.call = "eval"; b.valid = cls; if (n > 256 && r.chance(0.7)) b.d.y.resize(n - 256); else if (r.chance(0.5)) b.d.y.pop_back(); else b.d.y.push_back(0); b.want = s.fitted ? ST_VALUE : ST_NOTFIT; break;
        case 15: b.call = r.chance(0.5) ? query : query1; b.valid = !s.fitted; b.want = ST_NOTFIT; break;
        case 16:   // a single label cannot be contrasted with another one
            b.call = "fit"; b.valid = cls; for (auto & v : b.d.y) v = 0; b.ml = r.chance(0.5) ? 1 : -1; break;
        default: b.valid = false;
    }
    return b;
}

// ------------------------------------------------------------ ops
Outcome call_bad(Est & e, BadPlan const & b)
{ if (getenv("SIM_BT")) { dprintf(g_btfd, "call %s n=%zu y=%zu ml=%d:", b.call.c_str(), b.d.X.size(), b.d.y.size(), b.ml); for (auto& x : b.d.X) dprintf(g_btfd, " %zu", x.size()); dprintf(g_btfd, "\n"); }
    if (b.call == "fit") return e.fit(b.d, b.ml, b.ep);
    if (b.call == "pfit") return e.partial_fit(b.d, b.ml, b.ep);
    if (b.call == "predN") return e.predictN(b.d);
    if (b.call == "decN") return e.decideN(b.d);
    if (b.call == "eval") return e.evaluate(b.d);
    if (b.call == "dec1") return e.decide1(b.d.X[0], b.pad);
    return e.predict1(b.d.X[0], b.pad);
}

struct Armed
{
    bool on = false;
    Op const & op;
    uint64_t before;
    explicit Armed(Op const & op) : op(op)
    {
        before = rt::alloc_count();
        if (op.oom >= 0 && g_pr->faults && shm->allocs_valid && op.id < 4096)
        {
            uint64_t c = shm->allocs[op.id];
            if (c) { rt::oom_arm(1 + (uint64_t)(op.oom * c), op.oomp); on = true; }
        }
    }
    // true when the failure really happened
    bool done()
    {
        rt::oom_disarm();
        uint64_t n = rt::alloc_count() - before;
        if (!g_pr->faults && op.id < 4096 && !g_silent) { shm->allocs[op.id] = n; shm->allocs_valid = 1; }
        return on && rt::counters().oom_fired > fired0;
    }
    uint64_t fired0 = rt::counters().oom_fired;
};

// from here on a model takes more memory than the simulated machine has
constexpr long HUGE_CLAUSES = 1l << 24;

void check_oom(Op const & op, Outcome const & o, bool fired, bool refusable = false)
{
    if (fired)
    {
        probe(("oom fired in " + op.k).c_str());
        if (o.kind != O_OK && o.kind != O_BADALLOC && !(refusable && o.kind == O_STATUS)) fail("oom-outcome", op, "a failing allocation surfaced as " + o.text());
        if (o.kind == O_OK) probe("oom survived");
    }
    else if (o.kind == O_BADALLOC) fail("oom-outcome", op, "out-of-memory reported although no allocation failed");
}

void log_check(Op const & op, int slot, bool training, Outcome const & o)
{
    if (!(g_sc->checks & CK_LOG)) return;
    str all = sink_text();
    str d = all.size() >= g_log_seen ? all.substr(g_log_seen) : all;
    g_log_seen = all.size();
    Config c = eff(W[slot].cfg);
    if (!c.verbose)
    {
        if (!d.empty()) fail("log-when-quiet", op, "verbosity is off but the log received '" + d.substr(0, 80) + "'");
        probe("quiet checks");
        return;
    }
    if (!training || !o.ok() || g_sink.mode != SINK_OK) return;
    // epochs reported once each, in order
    std::vector<long> ep;
    for (std::size_t p = d.find("Epoch"); p != str::npos; p = d.find("Epoch", p + 5))
    {
        std::size_t q = p + 5;
        while (q < d.size() && d[q] != '\n' && !isdigit((unsigned char)d[q])) ++q;
        if (q < d.size() && isdigit((unsigned char)d[q])) ep.push_back(strtol(d.c_str() + q, nullptr, 10));
    }
    int want = op.epochs;
    if (want < 0) return;
    bool good = (int)ep.size() == want;
    for (int i = 0; good && i < want; ++i) good = ep[i] == i + 1;
    if (!good)
    {
        str l;
        for (long e : ep) l += S(e) + " ";
        fail("log-epochs", op, "a call of " + S(want) + " epochs reported epochs: " + l);
    }
    probe("epoch reports checked");
}

// the library's own notion of equal states agrees with their content
void check_equality(Op const & op, State const & a, State const & b, char const * what)
{
    Snapshot x = a.snap(), y = b.snap();
    bool ab = a.equal_to(b), ba = b.equal_to(a);
    bool learned = x.fitted == y.fitted && x.ta == y.ta && x.weights == y.weights && x.rows == y.rows;
    if (x == y && !(ab && ba)) fail("unequal-states", op, str(what) + " has the same content but does not compare equal");
    if (!learned && (ab || ba)) fail("equal-states", op, str(what) + " has other learned values but compares equal");
    if (!a.equal_to(a)) fail("unequal-states", op, "a state does not compare equal to itself");
    probe(x == y ? "states compared equal" : "states compared different");
}

void exec_op(Op const & op)
{
    if (!g_silent) shm->cur_op = op.id;
    Outcome o;
    SlotData & w = W[op.slot % NSLOT];
    SlotData & w2 = W[op.slot2 % NSLOT];
    int slot = op.slot % NSLOT, slot2 = op.slot2 % NSLOT;
    dirty_stack();
    rt::reset_requested_team();
    str const & k = op.k;
    auto team_check = [&]
    {
        if (!(g_sc->checks & CK_TEAM) || op.thr) return;
        int lim = jobs_limit(slot), got = rt::max_requested_team();
        if (got > lim) fail("too-many-jobs", op, S(got) + " workers were requested, " + S(lim) + " are configured");
    };
    if (k == "MAKE" || k == "MAKEJ" || k == "MAKEX")
    {
        if (g_sc->cfgs.empty()) return;
        int ci = k == "MAKEX" ? w2.cfg : op.cfg;
        Config c = eff(ci);
        if (k == "MAKEX")
        {
            if (!w2.e) return;
            Snapshot s = snap(slot2);
            c.has_seed = true;
            c.seed = (uint32_t)pnum(s, "random_state", 0);
            if (!s.params.count("random_state")) fail("seed-not-reported", op, "no random_state among the parameters");
        }
        str doc, what;
        if (k == "MAKEJ")
        {
            if (op.x > 0) c.clauses = (int)op.x;
            if (op.y > 0) c.n_jobs = (int)op.y;
            doc = c.json();
            if (op.mode > 16) what = op.x > 0 ? "more clauses than memory can hold" : "more jobs than threads can be created";
            else if (op.mode)
            {
                rt::Rng r(rt::mix(op.seed, 0xC0F));
                int m = op.mode - 1;
                doc = damage(doc, "", r, m, what);
            }
        }
        uint64_t e0 = rt::entropy_draws();
        Armed a(op);
        std::unique_ptr<Est> e = k == "MAKEJ" ? make_est_json(c.kind, doc, o) : make_est(c, o);
        bool f = a.done();
        check_oom(op, o, f, k == "MAKEJ" && op.mode);
        if (f && o.kind == O_BADALLOC && op.mode && k == "MAKEJ") return;
        if (k == "MAKEJ" && op.mode)
        {
            probe("damaged configurations");
            if (o.kind == O_EXC) fail("config-exception", op, "creation from a damaged document (" + what + ") threw " + o.what.substr(0, 200));
            if (!e) { probe("damaged configurations refused"); if (o.ok()) fail("config-exception", op, "no estimator and no error"); return; }
            // guard against requests for absurd amounts of memory, not against wrong values
            std::map<str, str> p;
            e->read_params(p);
            Snapshot ps;
            ps.params = p;
            { str e2 = check_params(c.kind, p); if (!e2.empty()) fail("config-obeyed", op, "a damaged document (" + what + ") was accepted: " + e2); }
            long cl = is_classifier(c.kind) ? pnum(ps, "number_of_clauses_per_label") : pnum(ps, "number_of_regressor_clauses");
            bool huge = cl >= HUGE_CLAUSES;
            if (cl > 400 && !huge) return;
            w.e = std::move(e);
            w.cfg = op.cfg;
            set_params0(slot, op, nullptr);
            // a usable estimator: its job count is unknown, but it must work
            rt::Rng r(rt::mix(op.seed, 0xC1F));
            int T = (int)std::min(20l, std::max(1l, pnum(ps, "threshold")));
            Data d = gen_data(op.seed, 4, 9, 2, T, 0, is_classifier(c.kind));
            Outcome q = w.e->fit(d, 2, 1);
            if (huge && q.kind == O_BADALLOC) probe("estimators larger than memory");
            else if (!q.ok() && q.kind != O_STATUS) fail("config-unusable", op, "an estimator created from a damaged document (" + what + ") does not work: " + q.text());
            Snapshot s = snap(slot);
            if (q.ok())
            {
                str we = check_wellformed(c.kind, s, &w.params0);
                if (!we.empty()) fail("config-unusable", op, "an estimator created from a damaged document (" + what + ") holds a malformed model: " + we);
                Outcome qq = w.e->predictN(d);
                if (!qq.ok()) fail("config-unusable", op, "an estimator created from a damaged document (" + what + ") does not answer: " + qq.text());
            }
            w.e.reset();
            return;
        }
        if (!e)
        {
            if (o.kind == O_STATUS) { record(op, o, nullptr); probe("creation refused"); }
            else if (o.kind == O_EXC) fail("creation-exception", op, "creation threw " + o.what);
            else record(op, o, nullptr);
            return;
        }
        w.e = std::move(e);
        w.cfg = ci;
        if ((g_sc->checks & CK_ENTROPY) && !c.has_seed && rt::entropy_draws() == e0) fail("entropy", op, "no seed was given and the entropy source was not read");
        set_params0(slot, op, f ? nullptr : &c);
        Snapshot s = observe(op, slot);
        if (s.fitted) fail("born-fitted", op, "a new estimator is already fitted");
        record(op, o, op.snap ? &s : nullptr);
        return;
    }
    if (k == "FIT" || k == "PFIT")
    {
        if (!w.e) return;
        Snapshot s0 = snap(slot);
        Config c = eff(w.cfg);
        c.threshold = (int)pnum(s0, "threshold", c.threshold);
        Data d = op_data(op, w.e->kind, s0, c, true, k == "FIT");
        int ml = op.labels;
        uint64_t e0 = rt::entropy_draws();
        Armed a(op);
        dirty_stack();
        o = k == "FIT" ? w.e->fit(d, ml, op.epochs) : w.e->partial_fit(d, ml, op.epochs);
        bool f = a.done();
        check_oom(op, o, f);
        if ((g_sc->checks & CK_ENTROPY) && rt::entropy_draws() != e0) fail("entropy", op, "training read the entropy source");
        team_check();
        log_check(op, slot, true, o);
        if (o.kind == O_EXC) fail("exception", op, "training threw " + o.what);
        if (f && o.kind == O_BADALLOC) probe("training lost to oom");
        Snapshot s = observe(op, slot);
        if (f && o.kind == O_BADALLOC)
        {
            str e = check_wellformed(w.e->kind, s, w.have_params0 ? &w.params0 : nullptr);
            if (!e.empty()) fail("malformed-after-oom", op, e);
        }
        if (o.ok() && (k == "FIT" || !s0.fitted) && op.x > 0)
        {
            if (s.cols != (int)d.X[0].size()) fail("wrong-dimensions", op, "fitted on " + S(d.X[0].size()) + " features, the model has " + S(s.cols));
            if (is_classifier(w.e->kind))
            {
                int L = std::max(ml, *std::max_element(d.y.begin(), d.y.end()) + 1);
                if (pnum(s, "number_of_labels") != L) fail("wrong-dimensions", op, "fitted with " + S(L) + " labels, the model has " + S(pnum(s, "number_of_labels")));
            }
        }
        if (o.ok()) { probe("training calls"); if (s.igen_index < s0.igen_index) probe("generator wrapped"); }
        else if (o.kind == O_STATUS)
        {
            probe("training refused");
            bool single = is_classifier(w.e->kind) && (k == "FIT" || !s0.fitted)
                && std::max(ml, d.y.empty() ? 0 : *std::max_element(d.y.begin(), d.y.end()) + 1) < 2;
            if (!single && !d.X.empty() && !d.X[0].empty()) fail("unexpected-rejection", op, "an acceptable training call was refused: " + o.text());
        }
        record(op, o, op.snap ? &s : nullptr);
        return;
    }
    if (k == "PREDN" || k == "PRED1" || k == "DECN" || k == "DEC1" || k == "EVAL" || k == "PARAMS")
    {
        if (!w.e) return;
        bool conc = op.thr != 0;
        Snapshot s0 = snap(slot);
        Config c = eff(w.cfg);
        c.threshold = (int)pnum(s0, "threshold", c.threshold);
        bool cls = is_classifier(w.e->kind);
        if (!cls && (k == "DECN" || k == "DEC1" || k == "EVAL")) return;
        Data d;
        if (k != "PARAMS") d = op_data(op, w.e->kind, s0, c, false, false);
        if (k != "PARAMS" && d.X.empty()) return;
        std::map<str, str> ps;
        Armed a(op);
        dirty_stack();
        if (k == "PREDN") o = w.e->predictN(d);
        else if (k == "PRED1") o = w.e->predict1(d.X[0], pad0(d));
        else if (k == "DECN") o = w.e->decideN(d);
        else if (k == "DEC1") o = w.e->decide1(d.X[0], pad0(d));
        else if (k == "EVAL") o = w.e->evaluate(d);
        else { o = w.e->read_params(ps); for (auto const & i : ignored()) ps.erase(i); for (auto const & kv : ps) o.real += (double)(h64(kv.first + "=" + kv.second) % 1000003); }
        bool f = a.done();
        check_oom(op, o, f);
        if (o.kind == O_EXC) fail("exception", op, "a query threw " + o.what);
        if (!conc) { team_check(); log_check(op, slot, false, o); }
        if (!conc || f)
        {
            Snapshot s1 = snap(slot);
            if (!(s0 == s1)) fail("query-changed-model", op, "a query changed the model:" + s0.diff(s1));
        }
        if (f && o.kind == O_BADALLOC)
        {
            // with memory available again the same query is answered
            Outcome q;
            if (k == "PREDN") q = w.e->predictN(d); else if (k == "PRED1") q = w.e->predict1(d.X[0], pad0(d));
            else if (k == "DECN") q = w.e->decideN(d); else if (k == "DEC1") q = w.e->decide1(d.X[0], pad0(d)); else if (k == "EVAL") q = w.e->evaluate(d); else q.kind = O_OK;
            if (s0.fitted && !q.ok()) fail("oom-aftermath", op, "the query fails after memory is available again: " + q.text());
            if (k == "PARAMS") q = w.e->read_params(ps);
            else if (g_sc->checks & CK_MODEL) check_answers(op, w.e->kind, s0, d, q);
        }
        else if (k != "PARAMS" && (g_sc->checks & CK_MODEL)) check_answers(op, w.e->kind, s0, d, o);
        if (!f && s0.fitted && k != "PARAMS" && o.kind == O_STATUS) fail("unexpected-rejection", op, "an acceptable query was refused: " + o.text());
        if (!s0.fitted && o.ok() && k != "PARAMS") fail("unexpected-acceptance", op, "an unfitted model answered");
        record(op, o, nullptr);
        return;
    }
    if (k == "CLONE")
    {
        if (!w.e) return;
        Snapshot s0 = snap(slot);
        Armed a(op);
        auto st = w.e->clone(o);
        bool f = a.done();
        check_oom(op, o, f);
        if (o.kind == O_EXC) fail("exception", op, "cloning threw " + o.what);
        if (st)
        {
            Snapshot s1 = st->snap();
            if (!(s0 == s1)) fail("clone-differs", op, "a clone differs from its origin:" + s0.diff(s1));
            w2.st = std::move(st);
            w2.st_cfg = w.cfg;
            w2.st_params0 = w.params0;
        }
        record(op, o, nullptr);
        return;
    }
    if (k == "FROMST")
    {
        if (!w2.st) return;
        Snapshot s0 = w2.st->snap();
        Armed a(op);
        auto e = est_from_state(*w2.st, o);
        bool f = a.done();
        check_oom(op, o, f);
        if (o.kind == O_EXC) fail("exception", op, "construction from a state threw " + o.what);
        if (e)
        {
            w.e = std::move(e);
            w.cfg = w2.st_cfg;
            w.params0 = w2.st_params0;
            w.have_params0 = true;
            Snapshot s1 = observe(op, slot);
            if (!(s0 == s1)) fail("clone-differs", op, "an estimator built from a state differs from it:" + s0.diff(s1));
        }
        if (!op.mode) w2.st.reset();
        record(op, o, nullptr);
        return;
    }
    if (k == "OBS")
    {
        if (!w.e) return;
        Snapshot s = observe(op, slot);
        record(op, o, &s);
        return;
    }
    if (k == "ENSUREMADE")      // a creation that failed for want of memory is repeated
    {
        if (w.e || g_sc->cfgs.empty()) return;
        Config c = eff(op.cfg);
        w.e = make_est(c, o);
        if (!w.e) fail("oom-aftermath", op, "creation fails after memory is available again: " + o.text());
        w.cfg = op.cfg;
        set_params0(slot, op, &c);
        return;
    }
    if (k == "STCHECK")        // the state held aside is what it was when taken
    {
        if (!w.st) return;
        Snapshot s = w.st->snap();
        record(op, o, &s);
        return;
    }
    if (k == "MOVE")
    {
        if (!w2.e || slot == slot2) return;
        Snapshot s0 = snap(slot2);
        Armed a(op);
        if (op.mode == 1 && w.e && w.e->kind == w2.e->kind) w.e->move_from(*w2.e);
        else w.e = w2.e->move_out();
        a.done();
        w.cfg = w2.cfg;
        w.params0 = w2.params0;
        w.have_params0 = w2.have_params0;
        w2.e.reset();
        Snapshot s1 = observe(op, slot);
        if (!(s0 == s1)) fail("move-differs", op, "a moved-to estimator differs from its origin:" + s0.diff(s1));
        record(op, o, op.snap ? &s1 : nullptr);
        return;
    }
    if (k == "SAVE")
    {
        int nx = 1 - shm->cur_ck;
        Ckpt & c = shm->ck[nx];
        c.used = 0;
        uint64_t h = 0;
        for (int i = 0; i < NSLOT; ++i)
        {
            c.d[i].used = 0;
            if (!W[i].e) continue;
            Outcome q;
            auto st = W[i].e->clone(q);
            str doc;
            if (st) q = st->to_json(doc);
            if (!q.ok()) fail("save-failed", op, "saving slot " + S(i) + ": " + q.text());
            str ps;
            for (auto const & kv : W[i].params0) ps += kv.first + "\x01" + kv.second + "\x02";
            if (c.used + doc.size() + ps.size() > sizeof c.store) return;
            DocEntry & d = c.d[i];
            d.used = 1; d.kind = W[i].e->kind; d.cfg = W[i].cfg;
            d.off = c.used; d.len = (uint32_t)doc.size(); memcpy(c.store + c.used, doc.data(), doc.size()); c.used += d.len;
            d.poff = c.used; d.plen = (uint32_t)ps.size(); memcpy(c.store + c.used, ps.data(), ps.size()); c.used += d.plen;
            h = rt::mix(h, h64(doc));
        }
        c.pc = shm->pc + 1;
        c.valid = 1;
        shm->cur_ck = nx;
        probe("checkpoints");
        if (op.x) o.real = (double)(h >> 12);     // saved text itself compared
        record(op, o, nullptr);
        return;
    }
    if (k == "CRASH") { probe("crashes"); return; }
    if (k == "SAVEST")
    {
        if (!w.e) return;
        Armed a(op);
        auto st = w.e->clone(o);
        str doc;
        if (st) o = st->to_json(doc);
        if (!(g_sc->checks & CK_EQ)) st.reset();
        bool f = a.done();
        check_oom(op, o, f);
        if (st && o.ok())
        {
            Outcome q;
            Config c = eff(w.cfg);
            c.kind = w.e->kind; c.verbose = false;
            auto e = make_est(c, q);
            std::unique_ptr<State> t;
            if (e) t = e->clone(q);
            if (t && t->from_json(doc).ok()) check_equality(op, *st, *t, "a restored state");
            auto l = w.e->clone(q);
            if (l) check_equality(op, *st, *l, "a cloned state");
            if (w2.origin && w2.doc_kind == w.e->kind) check_equality(op, *st, *w2.origin, "an earlier state");
            w2.origin = std::move(st);
        }
        if (o.kind == O_EXC) fail("save-failed", op, "saving threw " + o.what);
        if (o.ok())
        {
            w2.doc_prev = w2.doc;
            w2.doc = doc;
            w2.doc_kind = w.e->kind;
            w2.doc_cfg = w.cfg;
            w2.doc_params0 = w.params0;
            if (op.x) o.real = (double)(h64(doc) >> 12);
        }
        record(op, o, nullptr);
        return;
    }
    if (k == "LOAD")
    {
        if (w2.doc.empty()) return;
        struct Consume { str & d; bool keep; ~Consume() { if (!keep) d.clear(); } } consume{w2.doc, op.z == 1};
        // the target of the restore: a state of the same kind
        std::unique_ptr<State> t;
        Outcome q;
        if (op.mode == 1 && w.e && w.e->kind == w2.doc_kind) { fault_free(true); t = w.e->clone(q); fault_free(false); }
        if (!t)
        {
            Config c = eff(w2.doc_cfg);
            c.kind = w2.doc_kind; c.verbose = false;
            c.clauses = is_classifier(c.kind) ? 4 : 2;
            fault_free(true);
            auto e = make_est(c, q);
            if (e) t = e->clone(q);
            e.reset();
            fault_free(false);
        }
        if (!t) return;
        Snapshot before = t->snap();
        Armed a(op);
        o = t->from_json(w2.doc);
        bool f = a.done();
        check_oom(op, o, f);
        if (!o.ok())
        {
            if (!f) fail("restore-failed", op, "a document just saved is refused: " + o.text());
            Snapshot after = t->snap();
            if (!(before == after)) fail("restore-partial", op, "a failed restore changed its target:" + before.diff(after));
        }
        else
        {
            Outcome p;
            fault_free(true);
            auto e = est_from_state(*t, p);
            fault_free(false);
            if (e)
            {
                w.e = std::move(e);
                w.cfg = w2.doc_cfg;
                w.params0 = w2.doc_params0;
                w.have_params0 = true;
                Snapshot s = observe(op, slot);
                record(op, o, op.snap ? &s : nullptr);
            }
        }
        return;
    }
    if (k == "SURG")
    {
        if (!w.e) return;
        fault_free(true);
        auto st = w.e->clone(o);
        if (st)
        {
            Snapshot s = st->snap();
            rt::Rng r(rt::mix(op.seed, 0x506));
            surgery(w.e->kind, s, r, op.mode);
            st->inject(s);
            auto e = est_from_state(*st, o);
            if (e) w.e = std::move(e);
        }
        fault_free(false);
        if (!o.ok()) fail("exception", op, "state exchange failed: " + o.text());
        observe(op, slot);
        probe("states placed");
        return;
    }
    if (k == "DROP") { w.e.reset(); w.st.reset(); return; }
    if (k == "NOISE")
    {
        // other activity in the process: memory churn, other estimators, entropy
        rt::Rng r(rt::mix(op.seed, 0x7015E));
        std::vector<std::pair<char *, std::size_t>> bl;
        {
            rt::Sut g(1);
            char * ps[40]; std::size_t ns[40]; int m = r.range(1, 40);
            for (int i = 0; i < m; ++i) { ns[i] = (std::size_t)r.range(1, 4000); ps[i] = new char[ns[i]]; memset(ps[i], (int)r.below(256), ns[i]); }
            for (int i = 0; i < m; ++i) delete[] ps[i];
        }
        if (!g_sc->cfgs.empty() && r.chance(0.7))
        {
            Config c = eff((int)r.below(g_sc->cfgs.size()));
            c.kind = (int)r.below(4);
            c.seed = (uint32_t)r.next(); c.has_seed = r.chance(0.7); c.verbose = false;
            if (is_classifier(c.kind)) c.clauses = 4 * r.range(1, 3); else c.clauses = 2 * r.range(1, 6);
            Outcome q;
            auto e = make_est(c, q);
            if (e)
            {
                Data d = gen_data(r.next(), r.range(1, 6), r.range(1, 20), 2, c.threshold, 0, is_classifier(c.kind));
                q = e->fit(d, 2, r.range(1, 2));
                if (q.ok()) q = e->predictN(d);
            }
        }
        probe("noise");
        return;
    }
    if (k == "STEP")
    {
        if (!w.e) return;
        rt::Rng r(rt::mix(op.seed, 0x57E9));
        Snapshot a = snap(slot);
        if (!a.fitted) return;
        int kind = w.e->kind;
        for (int i = 0; i < op.n; ++i)
        {
            Geometry g = geometry(kind, a);
            Data d;
            Row x = r.chance(0.75) ? target_sample(a, r) : Row(a.cols);
            if (r.chance(0.2)) for (auto & v : x) v = r.next() & 1;
            long T = pnum(a, "threshold");
            int y = is_classifier(kind) ? (int)r.below(std::max(1, g.labels)) : (int)r.below((uint64_t)T + 1);
            if (!is_classifier(kind) && r.chance(0.15)) y = (int)ref_votes(kind, a, x, true)[0];
            d.X.push_back(x);
            d.y.push_back(y);
            dirty_stack();
            o = w.e->partial_fit(d, -1, 1);
            if (!o.ok()) fail("exception", op, "a one-sample step failed: " + o.text());
            Snapshot b = observe(op, slot);
            StepFacts f;
            str e = check_step(kind, a, b, x, y, &f);
            if (!e.empty()) fail("illegal-step", op, "step " + S(i) + ": " + e);
            probe("steps checked");
            if (f.margin_met) probe("steps with a met margin");
            if (f.forced) probe("steps with certain feedback");
            if (f.fb) probe("feedbacks observed", f.fb);
            if (f.changed_labels == 2) probe("steps changing two labels");
            a = std::move(b);
        }
        record(op, o, nullptr);
        return;
    }
    if (k == "STAT")
    {
        if (!w.e) return;
        rt::Rng r(rt::mix(op.seed, 0x57A7));
        long obs = 0;
        str e = run_stats(w.e->kind, *w.e, r, op.n, &obs);
        probe("rate observations", (uint64_t)obs);
        if (!e.empty()) fail("wrong-rate", op, e);
        return;
    }
    if (k == "EPOCHS")
    {
        if (!w.e) return;
        rt::Rng r(rt::mix(op.seed, 0xE70C));
        long obs = 0;
        bool order = op.mode == 2;
        str e = order ? run_epoch_order(w.e->kind, w.e, r, op.epochs, &obs) : run_epoch_counts(w.e->kind, w.e, r, op.n, op.epochs, op.mode, &obs);
        probe(order ? "epochs with their order judged" : "presentations counted", (uint64_t)obs);
        if (!e.empty()) fail(order ? "order-not-random" : "wrong-presentation", op, e);
        observe(op, slot);
        return;
    }
    if (k == "START")
    {
        rt::Rng r(rt::mix(op.seed, 0x57A12));
        long obs = 0;
        str e = run_starts(eff(op.cfg), (int)op.x, (int)op.y, op.n, r, &obs);
        probe("starting automata observed", (uint64_t)obs);
        if (!e.empty()) fail("biased-start", op, e);
        return;
    }
    if (k == "SINK")
    {
        if (!g_pr->faults && op.mode) return;
        g_sink = SinkSpec();
        g_sink.mode = op.mode;
        g_sink.fail_after = op.x;
        g_sink.exceptions = op.y;
        g_sink.restore_after = op.z ? (int)op.z : -1;
        sink_set(g_sink);
        return;
    }
    if (k == "EQ")
    {
        if (!w.e || !w2.e || w.e->kind != w2.e->kind) return;
        Snapshot a = norm(snap(slot)), b = norm(snap(slot2));
        probe("equality checks");
        if (op.x) { a.params.clear(); b.params.clear(); }
        if (!(a == b)) fail("models-differ", op, "slots " + S(slot) + " and " + S(slot2) + " should hold equal models:" + a.diff(b));
        return;
    }
    if (k == "BAD")
    {
        if (!w.e) return;
        Snapshot s0 = snap(slot);
        Config c = eff(w.cfg);
        c.threshold = (int)pnum(s0, "threshold", c.threshold);
        BadPlan b = bad_request(op, w.e->kind, s0, c);
        if (!b.valid) return;
        Armed a(op);
        o = call_bad(*w.e, b);
        bool f = a.done();
        if (f) check_oom(op, o, f, true);
        bool lost = f && o.kind == O_BADALLOC;      // the refusal itself ran out of memory
        probe(("bad requests: " + b.call).c_str());
        if (lost) probe("refusals lost to oom");
        else if (o.kind != O_STATUS) fail("bad-request-accepted", op, b.call + " with unacceptable arguments (case " + S(op.mode) + ") returned " + o.text());
        else if (o.status != b.want) fail("wrong-status", op, b.call + " with unacceptable arguments (case " + S(op.mode) + ") returned " + o.text() + ", expected status " + S(b.want));
        Snapshot s1 = observe(op, slot);
        if (!(s0 == s1)) fail("rejected-request-changed-model", op, b.call + " was refused but changed the model:" + s0.diff(s1));
        return;
    }
    if (k == "DAMAGE")
    {
        if (!w.e) return;
        fault_free(true);
        auto cur = w.e->clone(o);
        fault_free(false);
        str doc, other = w2.doc;
        Outcome q = cur->to_json(doc);
        if (!q.ok()) fail("save-failed", op, "saving: " + q.text());
        rt::Rng r(rt::mix(op.seed, 0xDA3));
        str what, bad = damage(doc, other, r, op.mode, what);
        int n2 = r.chance(0.15) ? 1 : 0;
        while (n2--) { str w3; bad = damage(bad, other, r, r.range(0, 15), w3); what += " + " + w3; }
        // the target of the restore
        std::unique_ptr<State> t;
        int tk = w.e->kind;
        if (op.x == 1) { Config c = eff(w.cfg); c.kind = tk; c.verbose = false; auto e = make_est(c, q); if (e) t = e->clone(q); }
        else if (op.x == 2)
        {
            // a document of another kind of estimator
            Config c = eff(w.cfg);
            tk = (w.e->kind + 1 + (int)r.below(3)) % 4;
            c.kind = tk; c.verbose = false;
            c.clauses = is_classifier(tk) ? 4 : 2;
            auto e = make_est(c, q);
            if (e) { Data d = gen_data(1, 3, 5, 2, c.threshold, 0, is_classifier(tk)); e->fit(d, 2, 1); t = e->clone(q); }
            bad = doc;
            what = "document of another kind of estimator";
        }
        else t = w.e->clone(q);
        if (!t) return;
        Snapshot before = t->snap();
        Armed a(op);
        q = t->from_json(bad);
        bool f = a.done();
        if (f) probe("oom fired in DAMAGE");
        probe("damaged documents");
        probe(("damage mode " + S(op.mode)).c_str());
        if (!q.ok())
        {
            probe("damaged documents refused");
            Snapshot after = t->snap();
            if (!(before == after)) fail("restore-partial", op, "a refused document (" + what + ") changed the target:" + before.diff(after));
            return;
        }
        probe("damaged documents accepted");
        Snapshot s = t->snap();
        str e = check_wellformed(tk, s, nullptr);
        if (!e.empty()) fail("malformed-restore", op, "a damaged document (" + what + ") was accepted and gives a malformed model: " + e);
        e = check_params(tk, s.params);
        if (!e.empty()) fail("malformed-restore", op, "a damaged document (" + what + ") was accepted: " + e);
        Geometry g = geometry(tk, s);
        if (s.params.count("n_jobs") && pnum(s, "n_jobs") < 1) fail("malformed-restore", op, "a damaged document (" + what + ") was accepted with n_jobs=" + S(pnum(s, "n_jobs")));
        // later calls are well-behaved
        auto est = est_from_state(*t, q);
        if (!est) fail("restore-unusable", op, "no estimator from a state restored from a damaged document (" + what + "): " + q.text());
        int T = (int)std::max(1l, pnum(s, "threshold", 1));
        if (s.fitted)
        {
            Data d = gen_data(op.seed, 3, s.cols, std::max(1, g.labels), T, 0, is_classifier(tk));
            Outcome p = est->predictN(d);
            if (!p.ok()) fail("restore-unusable", op, "a model restored from a damaged document (" + what + ") does not answer: " + p.text());
            p = est->partial_fit(d, -1, 2);
            if (p.kind == O_EXC || p.kind == O_BADALLOC) fail("restore-unusable", op, "training a model restored from a damaged document (" + what + "): " + p.text());
            p = est->predictN(d);
            Snapshot z = est->snap();
            e = check_wellformed(tk, z, nullptr);
            if (!e.empty()) fail("malformed-restore", op, "training a model restored from a damaged document (" + what + ") gives a malformed model: " + e);
        }
        long cl = is_classifier(tk) ? pnum(s, "number_of_clauses_per_label") : pnum(s, "number_of_regressor_clauses");
        if (cl <= 400 || cl >= HUGE_CLAUSES)
        {
            Data d = gen_data(op.seed + 1, 3, 7, 2, T, 0, is_classifier(tk));
            Outcome p = est->fit(d, 2, 1);
            if (p.kind == O_EXC || (p.kind == O_BADALLOC && cl <= 400)) fail("restore-unusable", op, "fitting a model restored from a damaged document (" + what + "): " + p.text());
            if (p.ok())
            {
                Snapshot z = est->snap();
                e = check_wellformed(tk, z, nullptr);
                if (!e.empty()) fail("malformed-restore", op, "fitting a model restored from a damaged document (" + what + ") gives a malformed model: " + e);
            }
        }
        str again;
        q = est->clone(o)->to_json(again);
        if (!q.ok()) fail("restore-unusable", op, "saving a model restored from a damaged document (" + what + "): " + q.text());
        return;
    }
    if (k == "HUGE")
    {
        // a model that does not fit into the memory of the simulated machine
        rt::Rng r(rt::mix(op.seed, 0x406E));
        long rows = (1l << 26) * r.range(1, 15) + (r.chance(0.5) ? 4 * r.range(0, 60) : 4 * r.range(0, 1 << 20));
        Config c = eff(w.cfg);
        bool cls = is_classifier(c.kind);
        std::unique_ptr<Est> own;
        Est * e = w.e.get();
        long labels = 2;
        if (cls && e && op.mode == 0)
        {
            long per = pnum(snap(slot), "number_of_clauses_per_label", 4);
            labels = (rows + per - 1) / per;
        }
        else
        {
            c.clauses = (int)(cls ? rows / 8 * 4 : rows);
            if (cls && c.clauses < HUGE_CLAUSES) c.clauses += (int)HUGE_CLAUSES;
            c.has_seed = true;
            own = make_est(c, o);
            if (!own) fail("creation-exception", op, "creation gave " + o.text());
            e = own.get();
        }
        Snapshot s0 = e->snap();
        int T = (int)std::min(20l, std::max(1l, pnum(s0, "threshold")));
        Data d = gen_data(op.seed, 2, (int)std::max(1l, op.x), 2, T, 0, cls);
        o = e->fit(d, (int)labels, 1);
        if (o.kind != O_BADALLOC && o.kind != O_STATUS) fail("oom-outcome", op, "training of " + S(rows) + " clauses, more than memory can hold, gave " + o.text());
        probe("models larger than memory");
        Snapshot s1 = e->snap();
        str we = check_wellformed(c.kind, s1, nullptr);
        if (!we.empty()) fail("malformed-after-oom", op, we);
        d = gen_data(op.seed, 2, s1.fitted ? s1.cols : 3, 2, T, 0, cls);
        Outcome q = e->predictN(d);
        if (s1.fitted ? !q.ok() : q.kind != O_STATUS) fail("oom-outcome", op, "a query after training of a model larger than memory gave " + q.text());
        return;
    }
    if (k == "ENSURE")
    {
        // progress: answers on the learnable data are right often enough
        if (!w.e) return;
        Snapshot s = snap(slot);
        if (!s.fitted) return;
        Config c = eff(w.cfg);
        Data d = gen_data(op.seed, op.n, s.cols, std::max(2, (int)op.y), c.threshold, op.mode, is_classifier(w.e->kind));
        o = w.e->predictN(d);
        if (!o.ok()) fail("exception", op, "prediction failed: " + o.text());
        double good = 0;
        for (std::size_t i = 0; i < d.y.size(); ++i)
            if (is_classifier(w.e->kind)) good += o.ints[i] == d.y[i];
            else good += std::max(0.0, 1.0 - std::abs(o.ints[i] - d.y[i]) / (double)c.threshold);
        long acc = (long)(1000 * good / d.y.size());
        if (getenv("SIM_BT")) dprintf(g_btfd, "ACC %s %s loss=%s bm=%d w=%d boost=%d F=%d s=%g T=%d cl=%d %ld\n", kind_name(w.e->kind), g_sc->family.c_str(), c.loss.c_str(), c.box_muller, c.weighted, c.boost, s.cols, c.s, c.threshold, c.clauses, acc);
        probe("progress checks");
        probe(("progress permille, sum, " + str(kind_name(w.e->kind))).c_str(), (uint64_t)acc);
        g_acc.push_back(acc);
        if (op.x)
        {
            std::sort(g_acc.begin(), g_acc.end());
            long med = g_acc[g_acc.size() / 2];
            if (med < op.x) fail("no-progress", op, "median accuracy of " + S(g_acc.size()) + " trained models is " + S(med) + " permille, " + S(op.x) + " expected");
        }
        return;
    }
}

void drop_world() { g_acc.clear(); for (auto & w : W) { w.e.reset(); w.st.reset(); w.origin.reset(); } }

void load_checkpoint()
{
    Ckpt & c = shm->ck[shm->cur_ck];
    if (!c.valid) return;
    Op op;
    op.k = "RESTART";
    for (int i = 0; i < NSLOT; ++i)
    {
        DocEntry & d = c.d[i];
        if (!d.used) continue;
        str doc(c.store + d.off, d.len), ps(c.store + d.poff, d.plen);
        Config cf = eff(d.cfg);
        cf.kind = d.kind;
        Outcome o;
        auto e = make_est(cf, o);
        if (!e) fail("restart-failed", op, "creation after a restart: " + o.text());
        auto st = e->clone(o);
        o = st->from_json(doc);
        if (!o.ok()) fail("restart-failed", op, "a durable document is refused after a restart: " + o.text());
        W[i].e = est_from_state(*st, o);
        if (!W[i].e) fail("restart-failed", op, "no estimator from a restored state: " + o.text());
        W[i].cfg = d.cfg;
        W[i].params0.clear();
        for (std::size_t p = 0; p < ps.size();)
        {
            std::size_t a = ps.find('\x01', p), b = ps.find('\x02', p);
            W[i].params0[ps.substr(p, a - p)] = ps.substr(a + 1, b - a - 1);
            p = b + 1;
        }
        W[i].have_params0 = true;
        observe(op, i);
    }
    probe("restarts");
}

void run_ops(std::vector<Op const *> const & ops, std::size_t pc)
{
    while (pc < ops.size())
    {
        if (ops[pc]->thr > 0)
        {
            // a concurrent phase
            std::size_t e = pc;
            std::vector<int> thr;
            while (e < ops.size() && ops[e]->thr > 0)
            {
                if (std::find(thr.begin(), thr.end(), ops[e]->thr) == thr.end()) thr.push_back(ops[e]->thr);
                ++e;
            }
            if (!g_silent) shm->pc = (int)pc;
            std::vector<int> tids;
            for (int t : thr)
                tids.push_back(rt::spawn([t, pc, e, &ops]
                {
                    for (std::size_t i = pc; i < e; ++i)
                        if (ops[i]->thr == t) exec_op(*ops[i]);
                }));
            for (int t : tids) rt::join(t);
            probe("concurrent phases");
            pc = e;
            continue;
        }
        if (!g_silent) shm->pc = (int)pc;
        Op const & op = *ops[pc];
        exec_op(op);
        if (op.k == "CRASH" && g_pr->faults && !g_silent)
        {
            shm->hash = rt::mix(shm->hash, rt::trace_hash());
            _exit(42);
        }
        ++pc;
    }
}

void add_counters()
{
    rt::Counters & a = shm->cnt, & b = rt::counters();
    a.events += b.events; a.switches += b.switches; a.regions += b.regions; a.team_members += b.team_members; a.granted_fewer += b.granted_fewer;
    a.allocs += b.allocs; a.oom_fired += b.oom_fired; a.barriers += b.barriers; a.locks += b.locks; a.races_checked += b.races_checked;
    a.max_team = std::max(a.max_team, b.max_team); a.mutex_blocks += b.mutex_blocks;
    shm->entropy += rt::entropy_draws();
    shm->sinkf += sink_faults();
}



[[noreturn]] void child_main(Scenario const & sc, int prog, std::size_t pc, int seg)
{
    g_child = true;
    g_sc = &sc;
    g_pr = &sc.progs[prog];
    g_prog = prog;
    struct rlimit rl = {30, 32};
    for (auto & o : sc.ops) if (o.x > 1000000 && (o.k == "FIT" || o.k == "PFIT")) rl = {80, 82};   // takes some seconds
    setrlimit(RLIMIT_CPU, &rl);
    rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    alarm(240);
    if (getenv("SIM_BT"))
    {
        // debugging aid: backtrace of a crashing simulated process
        g_btfd = dup(2);
        for (int sig : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS}) signal(sig, [](int sig)
        {
            void * b[40];
            backtrace_symbols_fd(b, backtrace(b, 40), g_btfd);
            signal(sig, SIG_DFL);
            raise(sig);
        });
    }
    if (getenv("SIM_BT")) setenv("SIM_BTFD", S(g_btfd).c_str(), 1);
    if (g_outfd >= 0) { dup2(g_outfd, 1); dup2(g_outfd, 2); }
    rt::set_violation_handler(on_violation);
    rt::set_entropy(g_pr->entropy);
    rt::set_cpus(g_pr->cpus);
    sink_reset();
    g_sink = SinkSpec();
    g_log_seen = 0;
    std::vector<Op const *> ops;
    for (auto const & o : sc.ops) if ((o.mask >> prog) & 1) ops.push_back(&o);
    rt::SchedSpec ss = g_pr->sched;
    ss.record = g_want_switches;
    ss.seed = rt::mix(ss.seed, (uint64_t)seg);
    if (ss.policy == rt::P_REPLAY) { ss.replay.clear(); if ((int)g_pr->replay.size() > seg) ss.replay = g_pr->replay[seg]; }
    rt::begin_run(ss, g_pr->alloc);
    if (pc) load_checkpoint();
    run_ops(ops, pc);
    if (g_sc->checks & CK_LOG)
    {
        std::cout.flush(); std::cerr.flush(); fflush(nullptr);
        bool quiet = true;
        for (std::size_t i = 0; i < sc.cfgs.size(); ++i) quiet = quiet && !eff((int)i).verbose;
        if (quiet && lseek(1, 0, SEEK_END) > 0)
        {
            Op op; op.k = "END";
            fail("log-when-quiet", op, "verbosity is off but the standard output or error stream was written to");
        }
    }
    drop_world();
    rt::heap_verify();
    if ((sc.checks & CK_LEAK) && g_pr->faults)
    {
        // the same history again in the same process: what is still allocated must not grow
        g_silent = true;
        sink_reset();
        for (int pass = 0; pass < 1; ++pass) { run_ops(ops, 0); drop_world(); }
        uint64_t l1 = rt::live_blocks(), q1 = rt::alloc_seq();
        sink_reset();
        run_ops(ops, 0);
        drop_world();
        uint64_t l2 = rt::live_blocks();
        probe("leak checks");
        Op op; op.k = "END";
        if (l2 > l1 && getenv("SIM_BT")) { dup2(g_btfd, 2); rt::list_live(q1); }
        if (l2 > l1) fail("leak", op, S(l2 - l1) + " heap block(s) lost in one pass over the history");
    }
    rt::end_run();
    add_counters();
    shm->hash = rt::mix(shm->hash, rt::trace_hash());
    auto const & r = rt::recorded();
    shm->nsw = (int)std::min<std::size_t>(r.size(), MAXSW);
    for (int i = 0; i < shm->nsw; ++i) shm->sw[i] = r[i];
    _exit(0);
}
} // anon

void probe(char const * name, uint64_t n)
{
    if (!shm) { g_probes[name] += n; return; }
    if (g_silent) return;
    for (int i = 0; i < shm->nprobe; ++i)
        if (!strncmp(shm->probe[i].name, name, sizeof shm->probe[i].name - 1)) { shm->probe[i].n += n; return; }
    if (shm->nprobe < MAXPROBE)
    {
        Probe & p = shm->probe[shm->nprobe];
        snprintf(p.name, sizeof p.name, "%s", name);
        p.n = n;
        ++shm->nprobe;
    }
}
std::map<std::string, uint64_t> & probe_totals() { return g_probes; }

void exec_init()
{
    shm = (Shm *)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (shm == MAP_FAILED) { dprintf(2, "SIM-ERROR: shm\n"); _exit(77); }
    g_outfd = memfd_create("simout", 0);
    if (facade_instrumented()) rt::note_instrumented();
}
void exec_want_switches(bool on) { g_want_switches = on; }

Result run_program(Scenario const & sc, int prog)
{
    Result R;
    shm->violated = 0;
    shm->nrec = 0;
    shm->cur_ck = 0;
    shm->ck[0].valid = shm->ck[1].valid = 0;
    shm->hash = 0;
    shm->cnt = rt::Counters();
    shm->nprobe = 0;
    shm->entropy = shm->sinkf = 0;
    if (prog == 0) { memset(shm->allocs, 0, sizeof shm->allocs); shm->allocs_valid = 0; }
    std::vector<int> crash_count;
    std::size_t pc = 0;
    std::set<int> crashed_at;
    Scenario cur = sc;
    for (int seg = 0; seg < 40; ++seg)
    {
        shm->nsw = 0;
        shm->cur_op = -1;
        shm->pc = (int)pc;
        if (ftruncate(g_outfd, 0) == 0) lseek(g_outfd, 0, SEEK_SET);
        pid_t p = fork();
        if (p < 0) { R.sim_error = true; R.detail = "fork"; return R; }
        if (p == 0) child_main(cur, prog, pc, seg);
        int st = 0;
        while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
        if (g_want_switches) R.switches.emplace_back(shm->sw, shm->sw + shm->nsw);
        auto captured = [&]
        {
            char b[400]; ssize_t n = pread(g_outfd, b, sizeof b - 1, 0);
            str s(b, n > 0 ? n : 0);
            for (auto & c : s) if (c == '\n') c = ' ';
            return s;
        };
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) break;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 42)
        {
            // the process died; only the durable documents survive. Each crash happens once.
            Ckpt & c = shm->ck[shm->cur_ck];
            int dead = shm->pc, n = 0;
            std::vector<Op> left;
            for (auto & o : cur.ops)
            {
                if (((o.mask >> prog) & 1) && n++ == dead) { o.mask &= ~(1u << prog); continue; }
            }
            pc = c.valid ? c.pc : 0;
            if (c.valid && c.pc > dead) pc = dead;
            continue;
        }
        if (WIFEXITED(st) && WEXITSTATUS(st) == rt::EXHAUSTED) { g_probes["~runs cut short by a full simulated heap"] += 1; break; }
        if (WIFEXITED(st) && WEXITSTATUS(st) == 66)
        {
            R.violated = true;
            R.cls = shm->cls;
            R.detail = shm->detail;
        }
        else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGXCPU)
        {
            R.violated = true; R.cls = "hang"; R.detail = "op " + S(shm->cur_op) + " of program " + S(prog) + " does not return";
        }
        else if (WIFSIGNALED(st) && WTERMSIG(st) != SIGALRM && WTERMSIG(st) != SIGKILL)
        {
            R.violated = true; R.cls = "crash";
            R.detail = "signal " + S(WTERMSIG(st)) + " in op " + S(shm->cur_op) + " of program " + S(prog) + " " + captured();
        }
        else
        {
            R.sim_error = true;
            R.detail = "child ended with status " + S(st) + " in op " + S(shm->cur_op) + " " + captured();
        }
        break;
    }
    R.recs.assign(shm->rec, shm->rec + shm->nrec);
    R.hash = shm->hash;
    if (R.violated) R.hash = rt::mix(R.hash, h64(R.cls + R.detail));
    // sums
    g_probes["simulated processes"] += 1;
    auto & c = shm->cnt;
    g_probes["~switches"] += c.switches; g_probes["~parallel regions"] += c.regions; g_probes["~workers started"] += c.team_members;
    g_probes["fault: fewer workers granted"] += c.granted_fewer; g_probes["~failable allocations"] += c.allocs; g_probes["fault: failed allocations"] += c.oom_fired;
    g_probes["~lock operations"] += c.locks; g_probes["~memory accesses ordered"] += c.races_checked; g_probes["fault: log sink failures"] += shm->sinkf;
    g_probes["~entropy draws"] += shm->entropy;
    for (int i = 0; i < shm->nprobe; ++i) g_probes[shm->probe[i].name] += shm->probe[i].n;
    return R;
}

Verdict run_scenario(Scenario const & sc)
{
    Verdict v;
    for (std::size_t i = 0; i < sc.progs.size(); ++i)
    {
        Result r = run_program(sc, (int)i);
        v.hash = rt::mix(v.hash, r.hash);
        v.results.push_back(r);
        if (r.sim_error) { v.sim_error = true; v.detail = r.detail; v.prog = (int)i; return v; }
        if (r.violated) { v.violated = true; v.cls = r.cls; v.detail = r.detail; v.prog = (int)i; return v; }
        if (i == 0) continue;
        std::map<int, Rec const *> base;
        for (auto const & q : v.results[0].recs) if (q.tag > 0) base[q.tag] = &q;
        for (auto const & q : r.recs)
        {
            if (q.tag <= 0) continue;
            auto it = base.find(q.tag);
            if (it == base.end()) continue;
            g_probes["observations compared"] += 1;
            bool so = it->second->out == q.out, sn = it->second->snap == q.snap || !q.snap || !it->second->snap;
            if (so && sn) continue;
            v.violated = true;
            v.prog = (int)i;
            v.cls = so ? "model-diverges" : "answer-diverges";
            str k;
            for (auto const & o : sc.ops) if (o.id == q.tag) k = o.k + " slot " + S(o.slot);
            v.detail = "op " + S(q.tag) + " (" + k + "): program 0 observed [" + it->second->text + "], program " + S(i) + " observed [" + q.text + "]" + (so ? ", learned states differ" : "");
            v.hash = rt::mix(v.hash, h64(v.cls + v.detail));
            return v;
        }
    }
    return v;
}
