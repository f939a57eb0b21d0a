// Independent reference model of clauses, votes and feedback; input generators.
#include "plan.hpp"
#include <algorithm>
#include <cmath>
#include <climits>
#include <cstring>

using rt::Rng;
typedef std::string str;
static str S(long v) { return std::to_string(v); }

// ------------------------------------------------------------ parameters
static str praw(Snapshot const & s, char const * k)
{
    auto it = s.params.find(k);
    if (it == s.params.end() || it->second.size() < 2 || it->second[1] != ':') return "";
    return it->second.substr(2);
}
long pnum(Snapshot const & s, char const * k, long d)
{
    str v = praw(s, k);
    if (v.empty()) return d;
    if (v == "true") return 1;
    if (v == "false") return 0;
    return strtol(v.c_str(), nullptr, 10);
}
double preal(Snapshot const & s, char const * k, double d)
{
    str v = praw(s, k);
    return v.empty() ? d : strtod(v.c_str(), nullptr);
}
bool pbool(Snapshot const & s, char const * k) { str v = praw(s, k); return v == "true" || (v != "false" && !v.empty() && v != "0"); }

Geometry geometry(int kind, Snapshot const & s)
{
    Geometry g;
    g.features = s.cols;
    if (is_classifier(kind))
    {
        g.labels = (int)pnum(s, "number_of_labels", 0);
        g.per_label = (int)pnum(s, "number_of_clauses_per_label", 0) / 2;
        g.outputs = g.labels * g.per_label;
    }
    else
    {
        g.outputs = (int)pnum(s, "number_of_regressor_clauses", 0) / 2;
        g.per_label = g.outputs;
    }
    return g;
}

// ------------------------------------------------------------ clauses and votes
bool clause_output(Snapshot const & s, int o, Row const & x, bool empty_value)
{
    int const * p = &s.ta[(std::size_t)(2 * o) * s.cols];
    int const * n = p + s.cols;
    bool any = false;
    for (int f = 0; f < s.cols; ++f)
    {
        if (p[f] >= 0) { any = true; if (!x[f]) return false; }
        if (n[f] >= 0) { any = true; if (x[f]) return false; }
    }
    return any ? true : empty_value;
}

std::vector<long> ref_votes(int kind, Snapshot const & s, Row const & x, bool training)
{
    Geometry g = geometry(kind, s);
    long T = pnum(s, "threshold");
    bool w = !s.weights.empty();
    std::vector<long> r;
    if (is_classifier(kind))
    {
        for (int l = 0; l < g.labels; ++l)
        {
            __int128 v = 0;
            for (int j = 0; j < g.per_label; ++j)
            {
                int o = l * g.per_label + j;
                if (!clause_output(s, o, x, training)) continue;
                long long wt = w ? (long long)s.weights[o] + 1 : 1;
                v += (j % 2 == 0) ? wt : -wt;
            }
            r.push_back(v > T ? T : v < -T ? -T : (long)v);
        }
    }
    else
    {
        __int128 v = 0;
        for (int o = 0; o < g.outputs; ++o)
            if (clause_output(s, o, x, training)) v += w ? (long long)s.weights[o] + 1 : 1;
        r.push_back(v > T ? T : v < 0 ? 0 : (long)v);
    }
    return r;
}

// ------------------------------------------------------------ well-formedness
// every configured value lies in its documented range
std::string check_params(int kind, std::map<str, str> const & params)
{
    Snapshot s;
    s.params = params;
    auto bad = [&](char const * k) { return str("parameter ") + k + " has value " + praw(s, k); };
    auto least = [&](char const * k, long lo) { return !params.count(k) || pnum(s, k, lo - 1) >= lo; };
    char const * ck = is_classifier(kind) ? "number_of_clauses_per_label" : "number_of_regressor_clauses";
    long cl = pnum(s, ck, -1);
    if (cl < 1 || cl % (is_classifier(kind) ? 4 : 2)) return bad(ck);
    for (char const * k : {"number_of_states", "threshold", "max_weight", "n_jobs"}) if (!least(k, 1)) return bad(k);
    if (params.count("s") && !(preal(s, "s", 0) >= 1)) return bad("s");
    auto one_of = [&](char const * k, std::initializer_list<char const *> l)
    {
        if (!params.count(k)) return true;
        for (auto v : l) if (praw(s, k) == v) return true;
        return false;
    };
    if (!one_of("counting_type", {"auto", "int8", "int16", "int32"})) return bad("counting_type");
    if (!one_of("clause_output_tile_size", {"16", "32", "64", "128"})) return bad("clause_output_tile_size");
    if (!one_of("boost_true_positive_feedback", {"0", "1"})) return bad("boost_true_positive_feedback");
    if (!is_classifier(kind) && !one_of("loss_fn", {"MSE", "MAE", "L2", "L1", "L1+2", "berHu"})) return bad("loss_fn");
    return "";
}

std::string check_wellformed(int kind, Snapshot const & s, std::map<str, str> const * params0)
{
    if (params0)
    {
        for (auto const & kv : *params0)
        {
            if (kv.first == "number_of_labels" || kv.first == "number_of_features") continue;
            auto it = s.params.find(kv.first);
            if (it == s.params.end()) return "parameter " + kv.first + " disappeared";
            if (it->second != kv.second) return "parameter " + kv.first + " changed from " + kv.second + " to " + it->second;
        }
        for (auto const & kv : s.params)
            if (!params0->count(kv.first) && kv.first != "number_of_labels" && kv.first != "number_of_features")
                return "parameter " + kv.first + " appeared";
    }
    if (!s.fitted) return "";
    Geometry g = geometry(kind, s);
    long N = pnum(s, "number_of_states");
    if (pnum(s, "number_of_features", -1) != s.cols) return "model has " + S(s.cols) + " feature columns but parameter number_of_features is " + praw(s, "number_of_features");
    if (is_classifier(kind) && g.labels < 1) return "number of labels is " + S(g.labels);
    if (s.rows != 2 * g.outputs) return "model has " + S(s.rows) + " rows, configured clauses ask for " + S(2 * g.outputs);
    for (std::size_t i = 0; i < s.ta.size(); ++i)
        if (s.ta[i] < -N || s.ta[i] > N - 1)
            return "automaton row " + S(i / s.cols) + " feature " + S(i % s.cols) + " has state " + S(s.ta[i]) + " outside [" + S(-N) + "," + S(N - 1) + "]";
    bool weighted = pbool(s, "weighted");
    long maxw = pnum(s, "max_weight", INT_MAX);
    if (!weighted && !s.weights.empty()) return "unweighted model holds weights";
    if (weighted && (int)s.weights.size() != g.outputs) return "weighted model holds " + S(s.weights.size()) + " weights for " + S(g.outputs) + " clause outputs";
    for (std::size_t i = 0; i < s.weights.size(); ++i)
        if ((long)s.weights[i] + 1 > maxw) return "weight " + S(i) + " is " + S((long)s.weights[i] + 1) + ", maximum is " + S(maxw);
    if (is_bitwise(kind))
    {
        if (!s.has_pol || s.prows != s.rows || s.pcols != s.cols) return "include mask has the wrong dimensions";
        for (std::size_t i = 0; i < s.ta.size(); ++i)
            if ((s.ta[i] >= 0) != (s.pol[i] != 0))
                return "include mask of row " + S(i / s.cols) + " feature " + S(i % s.cols) + " is " + S(s.pol[i]) + " for state " + S(s.ta[i]);
        if (!s.pol_pad_clear) return "padding of the include mask is not clear";
    }
    return "";
}

// ------------------------------------------------------------ one training step
// Is there an assignment of feedbacks which explains the move of one clause? Returns an error text,
// sets `fb` to the number of feedbacks that can be deduced (-1: unknown, 0: none or unobservable).
static str explain_clause(int kind, Snapshot const & a, Snapshot const & b, Row const & x, int o, int type, bool out, int maxfb, bool must, long N,
                          bool boost, long maxw, double s, int & fb)
{
    int F = a.cols;
    int const * p0 = &a.ta[(std::size_t)(2 * o) * F], * n0 = p0 + F, * p1 = &b.ta[(std::size_t)(2 * o) * F], * n1 = p1 + F;
    bool w = !a.weights.empty();
    long w0 = w ? a.weights[o] : 0, w1 = w ? b.weights[o] : 0;
    bool changed = w0 != w1 || memcmp(p0, p1, sizeof(int) * 2 * F) != 0;
    auto where = [&](int f, bool neg) { return str(neg ? "negated " : "") + "literal " + S(f) + " of clause output " + S(o); };
    fb = 0;
    if (maxfb == 0)
        return changed ? "clause output " + S(o) + " changed although no feedback is due" : "";
    if (type == 1 && !out)
    {
        if (w0 != w1) return "weight of clause output " + S(o) + ", which does not match, changed";
        long per_auto = is_bitwise(kind) ? (long)maxfb * F : maxfb;
        long sum[2] = {0, 0};
        for (int q = 0; q < 2; ++q)
            for (int f = 0; f < F; ++f)
            {
                long d = q ? (long)n1[f] - n0[f] : (long)p1[f] - p0[f];
                if (d > 0) return where(f, q) + ", which does not match, moved towards inclusion by " + S(d);
                if (-d > per_auto) return where(f, q) + " moved by " + S(-d) + " steps in at most " + S(maxfb) + " feedback(s)";
                sum[q] -= d;
            }
        for (int q = 0; q < 2; ++q)
            if (sum[q] > (long)maxfb * F) return "clause output " + S(o) + " lost " + S(sum[q]) + " steps in at most " + S(maxfb) + " feedback(s)";
        // specificity 1: every literal is hit
        if (!is_bitwise(kind) && must && s == 1.0 && maxfb == 1)
            for (int q = 0; q < 2; ++q)
                for (int f = 0; f < F; ++f)
                    if ((q ? n0[f] : p0[f]) > -N && (q ? n1[f] == n0[f] : p1[f] == p0[f])) return where(f, q) + " did not move at specificity 1 although feedback is certain";
        fb = -1;
        return "";
    }
    if (type == 1 && out)
    {
        // number of feedbacks, as far as it can be told
        long k_lo = 0, k_hi = maxfb;
        for (int q = 0; q < 2; ++q)
            for (int f = 0; f < F; ++f)
            {
                bool truth = q ? !x[f] : x[f];
                int s0 = q ? n0[f] : p0[f], s1 = q ? n1[f] : p1[f];
                long d = (long)s1 - s0;
                if (truth && d < 0) return where(f, q) + " is true in a reinforced matching clause but moved away from inclusion by " + S(-d);
                if (!truth && d > 0) return where(f, q) + " is false in a reinforced matching clause but moved towards inclusion by " + S(d);
                long m = std::labs(d);
                if (m > maxfb) return where(f, q) + " moved by " + S(m) + " steps in at most " + S(maxfb) + " feedback(s)";
                k_lo = std::max(k_lo, m);
                if (truth && boost && s0 + d < N - 1) k_hi = std::min(k_hi, d);   // forced rise, exact count
                if (truth && boost && d < 0) return where(f, q) + " moved the wrong way";
            }
        if (w)
        {
            long d = w1 - w0;
            if (d < 0) return "weight of reinforced matching clause output " + S(o) + " decreased";
            if (d > maxfb) return "weight of clause output " + S(o) + " rose by " + S(d) + " in at most " + S(maxfb) + " feedback(s)";
            k_lo = std::max(k_lo, d);
            if (w1 + 1 < maxw) k_hi = std::min(k_hi, d);
        }
        if (must) k_lo = std::max(k_lo, 1l);
        if (k_lo > k_hi)
        {
            return str("the move of reinforced matching clause output ") + S(o) + " is not explained by any number of feedbacks (at least " + S(k_lo) + " and at most " + S(k_hi) + ")"
                + (boost ? ", boosting is on" : "");
        }
        fb = k_lo == k_hi ? (int)k_lo : -1;
        return "";
    }
    if (type == 2 && !out)
        return changed ? "clause output " + S(o) + ", which does not match, changed under suppressing feedback" : "";
    // type II, matching
    long k_lo = 0, k_hi = maxfb;
    for (int q = 0; q < 2; ++q)
        for (int f = 0; f < F; ++f)
        {
            bool truth = q ? !x[f] : x[f];
            int s0 = q ? n0[f] : p0[f], s1 = q ? n1[f] : p1[f];
            long d = (long)s1 - s0;
            bool eligible = !truth && s0 < 0;
            if (!eligible && d) return where(f, q) + (truth ? ", which is true," : ", which is included,") + " changed by " + S(d) + " under suppressing feedback";
            if (eligible)
            {
                if (d < 0) return where(f, q) + " moved away from inclusion under suppressing feedback";
                if (s1 > 0) return where(f, q) + " moved beyond the include boundary under suppressing feedback";
                k_lo = std::max(k_lo, d);
                if (s1 < 0) k_hi = std::min(k_hi, d);
            }
        }
    if (w)
    {
        long d = w0 - w1;
        if (d < 0) return "weight of suppressed clause output " + S(o) + " increased";
        k_lo = std::max(k_lo, d);
        if (w1 > 0) k_hi = std::min(k_hi, d);
    }
    if (must) k_lo = std::max(k_lo, 1l);
    if (k_lo > k_hi)
        return "the move of suppressed matching clause output " + S(o) + " is not explained by any number of feedbacks (at least " + S(k_lo) + " and at most " + S(k_hi) + ")";
    fb = k_lo == k_hi ? (int)k_lo : -1;
    return "";
}

static bool row_changed(Snapshot const & a, Snapshot const & b, int o)
{
    if (!a.weights.empty() && a.weights[o] != b.weights[o]) return true;
    return memcmp(&a.ta[(std::size_t)(2 * o) * a.cols], &b.ta[(std::size_t)(2 * o) * a.cols], sizeof(int) * 2 * a.cols) != 0;
}

static double loss_value(Snapshot const & s, double err);

std::string check_step(int kind, Snapshot const & a, Snapshot const & b, Row const & x, int y, StepFacts * facts)
{
    StepFacts dummy;
    StepFacts & fa = facts ? *facts : dummy;
    if (a.rows != b.rows || a.cols != b.cols || a.weights.size() != b.weights.size()) return "a training step changed the dimensions of the model";
    Geometry g = geometry(kind, a);
    long N = pnum(a, "number_of_states"), T = pnum(a, "threshold"), maxw = pnum(a, "max_weight", INT_MAX);
    bool boost = pbool(a, "boost_true_positive_feedback");
    double s = preal(a, "s", 2);
    auto votes = ref_votes(kind, a, x, true);
    int fb;
    if (is_classifier(kind))
    {
        std::vector<int> changed;
        for (int l = 0; l < g.labels; ++l)
            for (int j = 0; j < g.per_label; ++j)
                if (row_changed(a, b, l * g.per_label + j)) { changed.push_back(l); break; }
        fa.changed_labels = (int)changed.size();
        int opp = -1;
        for (int l : changed)
            if (l != y)
            {
                if (opp >= 0) return "one step for label " + S(y) + " changed clauses of labels " + S(opp) + " and " + S(l);
                opp = l;
            }
        if (opp < 0 && g.labels == 2) opp = 1 - y;
        for (int role = 0; role < 2; ++role)
        {
            int l = role == 0 ? y : opp;
            if (l < 0) continue;
            long v = votes[l];
            bool none = role == 0 ? v >= T : v <= -T;
            bool must = role == 0 ? v <= -T : v >= T;
            fa.margin_met |= none;
            fa.forced |= must;
            for (int j = 0; j < g.per_label; ++j)
            {
                int o = l * g.per_label + j;
                int type = ((j % 2 == 0) == (role == 0)) ? 1 : 2;
                bool out = clause_output(a, o, x, true);
                ++fa.types[type - 1];
                ++fa.outs[out];
                str e = explain_clause(kind, a, b, x, o, type, out, none ? 0 : 1, must, N, boost, maxw, s, fb);
                if (!e.empty())
                    return e + " [" + (role == 0 ? "target" : "other") + " label " + S(l) + ", votes " + S(v) + ", threshold " + S(T) + ", feedback type " + S(type) + "]";
                if (fb > 0) ++fa.fb;
            }
        }
    }
    else
    {
        long err = votes[0] - y;
        fa.margin_met = err == 0;
        int maxfb = err == 0 ? 0 : g.outputs;
        for (int o = 0; o < g.outputs; ++o)
        {
            bool out = clause_output(a, o, x, true);
            int type = err < 0 ? 1 : 2;
            ++fa.types[type - 1];
            ++fa.outs[out];
            str e = explain_clause(kind, a, b, x, o, type, out, maxfb, false, N, boost, maxw, s, fb);
            if (!e.empty()) return e + " [votes " + S(votes[0]) + ", response " + S(y) + ", feedback type " + S(type) + "]";
            if (fb > 0) fa.fb += fb;
        }
        if (fa.fb > g.outputs) return "a step handed out at least " + S(fa.fb) + " feedbacks to " + S(g.outputs) + " clause outputs";
    }
    return "";
}

// ------------------------------------------------------------ rates
static double loss_value(Snapshot const & s, double e)
{
    str n = praw(s, "loss_fn");
    double c = preal(s, "loss_fn_C1", 0), a = std::fabs(e), v;
    if (n == "MAE" || n == "L1") v = a;
    else if (n == "MSE" || n == "L2") v = e * e;
    else if (n == "berHu") v = a <= c ? a : e * e - (c * c + c);
    else v = c * a + (1 - c) * e * e;
    return v < 0 ? 0 : v > 1 ? 1 : v;
}

namespace
{
// a martingale of bounded increments, judged with Bernstein's inequality
struct Mart
{
    char const * name;
    double sum = 0, var = 0, bound = 0, slack = 0;
    long n = 0;
    void add(double value, double mean, double variance, double b)
    {
        sum += value - mean; var += variance; bound = std::max(bound, b); ++n;
    }
    // log of the tail bound; very negative: the deviation is impossible
    double score() const
    {
        double x = std::fabs(sum) - slack;
        if (x <= 0 || n == 0) return 0;
        return x * x / (2 * (var + x * bound / 3 + 1e-12));
    }
};
}

// A chain of one-sample steps from the present state; compares what is observed with the rates the
// configuration asks for. Every expectation is conditional on the state before the step.
std::string run_stats(int kind, Est & e, Rng & rng, int steps, long * observations)
{
    Mart tgt{"feedback of the target label"}, opp[4] = {{"feedback of the 1st next label"}, {"feedback of the 2nd next label"}, {"feedback of the 3rd next label"}, {"feedback of the 4th next label"}};
    Mart away{"moves away from inclusion in clauses that do not match"}, up{"moves of true literals towards inclusion"}, down{"moves of false literals away from inclusion"};
    Mart reg{"feedback of regressor clauses"};
    Mart away_at[5] = {{"moves away from inclusion of the first literals"}, {"moves away from inclusion of the last literals"}, {"moves away from inclusion of the even literals"}, {"moves away from inclusion of the negated literals"}, {"moves away from inclusion of the lower half of the literals"}};
    Mart up_at[5] = {{"moves towards inclusion of the first literals"}, {"moves towards inclusion of the last literals"}, {"moves towards inclusion of the even literals"}, {"moves towards inclusion of the negated literals"}, {"moves towards inclusion of the lower half of the literals"}};
    Mart down_at[5] = {{"moves of the first false literals"}, {"moves of the last false literals"}, {"moves of the even false literals"}, {"moves of the negated false literals"}, {"moves of the lower half of the false literals"}};
    Mart tgt_at[2] = {{"feedback of the first clause of the target label"}, {"feedback of the last clause of the target label"}};
    Mart spread{"spread of the number of feedbacks of a regressor"};
    Mart share[4] = {{"share of the first regressor clause"}, {"share of the last regressor clause"}, {"share of the even regressor clauses"}, {"share of the upper half of the regressor clauses"}};
    Mart chosen[4] = {{"label 0 as the contrasting label"}, {"label 1 as the contrasting label"}, {"label 2 as the contrasting label"}, {"any other label as the contrasting label"}};
    Mart among[4] = {{"even labels as the contrasting label"}, {"lower labels as the contrasting label"}, {"the last label as the contrasting label"}, {"the nearer next labels as the contrasting label"}};
    Mart * all[] = {&tgt, &opp[0], &opp[1], &opp[2], &opp[3], &away, &up, &down, &reg, &tgt_at[0], &tgt_at[1], &away_at[0], &away_at[1], &away_at[2], &away_at[3], &away_at[4], &up_at[4], &down_at[4], &up_at[0], &up_at[1], &up_at[2], &up_at[3],
        &down_at[0], &down_at[1], &down_at[2], &down_at[3], &spread, &share[0], &share[1], &share[2], &share[3], &chosen[0], &chosen[1], &chosen[2], &chosen[3], &among[0], &among[1], &among[2], &among[3]};
    Snapshot a = e.snap();
    if (!a.fitted) return "";
    int last = steps, looks = 0;
    for (int it = 0; it < last; ++it)
    {
        Geometry g = geometry(kind, a);
        long T = pnum(a, "threshold"), N = pnum(a, "number_of_states"), maxw = pnum(a, "max_weight", INT_MAX);
        double s = preal(a, "s", 2);
        bool boost = pbool(a, "boost_true_positive_feedback");
        int F = a.cols;
        Data d;
        d.X.push_back(rng.chance(0.7) ? target_sample(a, rng) : Row());
        if (d.X[0].empty()) { d.X[0].resize(F); for (auto & v : d.X[0]) v = rng.next() & 1; }
        Row const & x = d.X[0];
        int y = is_classifier(kind) ? (int)rng.below(g.labels) : (int)rng.below((uint64_t)T + 1);
        d.y.push_back(y);
        Outcome o = e.partial_fit(d, -1, 1);
        if (!o.ok()) return "a one-sample training step failed: " + o.text();
        Snapshot b = e.snap();
        if (!b.fitted || b.ta.size() != a.ta.size() || b.weights.size() != a.weights.size()) return "a one-sample training step changed the model's dimensions";
        auto votes = ref_votes(kind, a, x, true);
        bool w = !a.weights.empty();
        // feedback seen through the weight of a matching clause; -1 unobservable
        auto seen = [&](int oi, int type) -> int
        {
            if (!clause_output(a, oi, x, true)) return -1;
            if (w && type == 1 && (long)a.weights[oi] + 1 < maxw) return b.weights[oi] > a.weights[oi];
            if (w && type == 2 && a.weights[oi] > 0) return b.weights[oi] < a.weights[oi];
            // moves which feedback makes without fail
            std::size_t r0 = (std::size_t)(2 * oi) * F;
            for (int f = 0; f < 2 * F; ++f)
            {
                bool truth = f < F ? x[f] : !x[f - F];
                if (type == 1 ? boost && truth && a.ta[r0 + f] < N - 1 : !truth && a.ta[r0 + f] < 0) return a.ta[r0 + f] != b.ta[r0 + f];
            }
            return -1;
        };
        double q = F / s, hf = std::floor((float)(1.0f / (float)s) * F), hr = q - hf;
        double eh2 = (4 * hf * hf) * (1 - hr) * (1 - hr) + (2 * hf + 1) * (2 * hf + 1) * 2 * hr * (1 - hr) + (2 * hf + 2) * (2 * hf + 2) * hr * hr;
        auto at = [&](int i, int f) { f = i == 3 ? f : f % F; return i == 0 ? f == 0 : i == 1 ? f == F - 1 : i == 2 ? f % 2 == 0 : i == 3 ? f >= F : f < (F + 1) / 2; };
        // random moves of a matching clause that was reinforced k times
        auto matching_moves = [&](int oi, int k)
        {
            int const * p0 = &a.ta[(std::size_t)(2 * oi) * F], * p1 = &b.ta[(std::size_t)(2 * oi) * F];
            double r = 1 / s, ru = boost ? 1 : 1 - r;
            double coin = hr * (1 - hr);         // the number of hits in a row is exact but for its fraction
            auto var = [&](double m) { return k * std::min(m * r * (1 - r) + 0.5, m * r + 2 * coin + 1e-9); };
            for (int i = -1; i < 5; ++i)
            {
                double nu = 0, nd = 0, su = 0, sd = 0;
                for (int f = 0; f < 2 * F; ++f)
                {
                    if (i >= 0 && !at(i, f)) continue;
                    bool truth = f < F ? x[f] : !x[f - F];
                    long dd = (long)p1[f] - p0[f];
                    if (truth && p0[f] + k <= N - 1) { ++nu; su += dd; }
                    if (!truth && p0[f] - k >= -N) { ++nd; sd -= dd; }
                }
                Mart & mu = i < 0 ? up : up_at[i], & md = i < 0 ? down : down_at[i];
                if (nu) { mu.add(su, k * nu * ru, boost ? 1e-9 : var(nu), k * nu); mu.slack += 1e-6 * k * nu; }
                if (nd) { md.add(sd, k * nd * r, var(nd), k * nd); md.slack += 1e-6 * k * nd; }
            }
        };
        auto clause_moves = [&](int oi, int type, double pfb, int fbseen)
        {
            int const * p0 = &a.ta[(std::size_t)(2 * oi) * F], * p1 = &b.ta[(std::size_t)(2 * oi) * F];
            bool out = clause_output(a, oi, x, true);
            if (type == 1 && !out)
            {
                // every automaton far enough from the floor
                int room = 0;
                for (int f = 0; f < 2 * F; ++f) if (p0[f] > -N + (is_bitwise(kind) ? hf + 1 : 0)) ++room;
                if (room != 2 * F) return;
                double dec = 0;
                for (int f = 0; f < 2 * F; ++f) dec += p0[f] - p1[f];
                double m = pfb * 2 * q;
                away.add(dec, m, std::max(0.0, pfb * eh2 - m * m) + 0.1 * m + 1e-9, 2 * hf + 2);
                away.slack += 1e-6 * (m + 1);
                for (int i = 0; i < 5; ++i)
                {
                    double part = 0, members = 0;
                    for (int f = 0; f < 2 * F; ++f) if (at(i, f)) { part += p0[f] - p1[f]; members += 1; }
                    double r = members / (2 * F), mr = m * r;
                    away_at[i].add(part, mr, std::max(0.0, pfb * (2 * q * r * (1 - r) + r * r * eh2) - mr * mr) + 0.1 * mr + 1e-9, 2 * hf + 2);
                    away_at[i].slack += 1e-6 * (m + 1);
                }
            }
            if (type == 1 && out && fbseen == 1) matching_moves(oi, 1);
        };
        if (is_classifier(kind))
        {
            double p = (double)(T - votes[y]) / (2.0 * T);
            int t, f, oi, j;
            for (j = 0; j < g.per_label; ++j)
            {
                oi = y * g.per_label + j;
                t = j % 2 == 0 ? 1 : 2;
                f = seen(oi, t);
                if (f >= 0) tgt.add(f, p, p * (1 - p), 1);
                if (f >= 0 && j < 2) tgt_at[0].add(f, p, p * (1 - p), 1);
                if (f >= 0 && j >= g.per_label - 2) tgt_at[1].add(f, p, p * (1 - p), 1);
            }
            j = (int)rng.below(g.per_label);
            oi = y * g.per_label + j;
            t = j % 2 == 0 ? 1 : 2;
            clause_moves(oi, t, p, seen(oi, t));
            int other = (y + 1 + (int)rng.below(g.labels - 1)) % g.labels;
            for (int l = 0; l < g.labels; ++l)
            {
                if (l == y) continue;
                int k = (l - y + g.labels) % g.labels - 1;
                p = (double)(T + votes[l]) / (2.0 * T);
                double none = 1;
                bool any = false;
                for (int i = 0; i < g.per_label; ++i)
                {
                    int v = seen(l * g.per_label + i, i % 2 == 0 ? 2 : 1);
                    if (v < 0) continue;
                    none *= 1 - p;
                    any |= v == 1;
                }
                double pc = (1 - none) / (g.labels - 1);
                chosen[std::min(l, 3)].add(any, pc, pc * (1 - pc), 1);
                if (k < 4) opp[k].add(any, pc, pc * (1 - pc), 1);
                bool in[4] = {l % 2 == 0, l < g.labels / 2, l == g.labels - 1, k < (g.labels - 1) / 2};
                for (int i = 0; i < 4; ++i) if (in[i]) among[i].add(any, pc, pc * (1 - pc), 1);
                if (l != other) continue;
                j = (int)rng.below(g.per_label);
                oi = l * g.per_label + j;
                p = (double)(T + votes[l]) / (2.0 * T) / (g.labels - 1);
                t = j % 2 == 0 ? 2 : 1;
                f = seen(oi, t);
                clause_moves(oi, t, p, f);
            }
        }
        else
        {
            long err = votes[0] - y;
            int n = g.outputs;
            double P = loss_value(a, (double)err / T);
            // hits: rounded to the nearest count, or a single one by chance; mean may be off by rounding
            double mean = n * P, off = mean >= 0.5 ? 0.5 + 1e-3 : 1e-3;
            bool bm = pbool(a, "box_muller");
            double cnt = 0, obs = 0, part[4] = {}, members[4] = {};
            for (int oi = 0; oi < n; ++oi)
            {
                int t = err < 0 ? 1 : 2;
                if (!clause_output(a, oi, x, true) || !w) continue;
                long room = t == 1 ? maxw - 1 - (long)a.weights[oi] : (long)a.weights[oi];
                if (room < n) continue;
                double got = std::labs((long)b.weights[oi] - (long)a.weights[oi]);
                bool in[4] = {oi == 0, oi == n - 1, oi % 2 == 0, oi >= n / 2};
                obs += 1;
                cnt += got;
                for (int i = 0; i < 4; ++i) if (in[i]) { members[i] += 1; part[i] += got; }
            }
            // given their number, feedbacks fall on every clause alike
            if (cnt > 0) for (int i = 0; i < 4; ++i)
            {
                double r = members[i] / obs;
                if (r > 0 && r < 1) share[i].add(part[i], cnt * r, cnt * r * (1 - r), cnt);
            }
            double sd = std::sqrt(n * P * (1 - P));
            double most = err == 0 ? 0 : bm ? mean + 6 * sd + 2 : std::max(1.0, mean + 0.5 + 1e-3);
            if (cnt > most)
            {
                char buf[200];
                snprintf(buf, sizeof buf, "one step handed out at least %.0f feedbacks to %d clause outputs, %.2f expected and at most %.2f possible [loss %.4f]", cnt, n, mean, most, P);
                return buf;
            }
            // random moves: of matching clauses, whose feedback shows in their weights, and of the others together
            if (err < 0)
            {
                double kmax = bm ? std::min<double>(n, std::ceil(mean + 6 * sd + 2)) : std::max(1.0, std::ceil(mean + 0.5 + 1e-3));
                double dec = 0, part[5] = {}, members = 0;
                for (int oi = 0; oi < n; ++oi)
                {
                    int const * p0 = &a.ta[(std::size_t)(2 * oi) * F], * p1 = &b.ta[(std::size_t)(2 * oi) * F];
                    if (clause_output(a, oi, x, true))
                    {
                        long k = w ? (long)b.weights[oi] - (long)a.weights[oi] : 0;
                        if (k > 0 && maxw - 1 - (long)a.weights[oi] >= n) matching_moves(oi, (int)k);
                        continue;
                    }
                    double floor = -N + kmax * (is_bitwise(kind) ? hf + 1 : 1);
                    bool room = true;
                    for (int f = 0; f < 2 * F && room; ++f) room = p0[f] >= floor;
                    if (!room) continue;
                    members += 1;
                    for (int f = 0; f < 2 * F; ++f) if (p0[f] != p1[f])
                    {
                        dec += p0[f] - p1[f];
                        for (int i = 0; i < 5; ++i) if (at(i, f)) part[i] += p0[f] - p1[f];
                    }
                }
                if (members > 0)
                {
                    double vague = bm ? 0.1 + 0.03 * sd + 1e-3 : off, vk = bm ? sd * sd + 0.1 : mean >= 0.5 ? 0 : mean;
                    double fr = members / n, m = mean * fr * 2 * q, top = mean + vague;
                    away.add(dec, m, top * fr * eh2 + vk * (fr * 2 * q) * (fr * 2 * q) + 0.1 * m + 1e-9, kmax * (2 * hf + 2));
                    away.slack += vague * fr * 2 * q + 1e-6 * (m + 1);
                    for (int i = 0; i < 5; ++i)
                    {
                        double in = 0;
                        for (int f = 0; f < 2 * F; ++f) in += at(i, f);
                        double r = in / (2 * F);
                        away_at[i].add(part[i], m * r, top * fr * (2 * q * r * (1 - r) + r * r * eh2) + vk * (fr * 2 * q * r) * (fr * 2 * q * r) + 0.1 * m * r + 1e-9, kmax * (2 * hf + 2));
                        away_at[i].slack += vague * fr * 2 * q * r + 1e-6 * (m + 1);
                    }
                }
            }
            if (bm)
            {
                // normal approximation, rounded and kept between none and all clauses
                double e = 0, e2 = 0, tot = 0;
                for (int i = -60; i <= 60; ++i)
                {
                    double z = i / 15.0, pr = std::exp(-z * z / 2);
                    tot += pr;
                    double h = std::min<double>(n, std::max(0.0, std::round(mean + sd * z)));
                    e += pr * h; e2 += pr * h * h;
                }
                mean = e / tot;
                double fr = obs / n, v = fr * fr * (e2 / tot - mean * mean) + mean * fr * (1 - fr);
                if (err != 0 && n >= 10 && obs > 0 && v > 1)
                {
                    double dev = cnt - mean * fr;
                    spread.add(std::min(dev * dev, 6 * v), v, 2.5 * v * v, 6 * v);
                    spread.slack += 0.06 * v + 0.1;
                }
                off = 0.1 + 0.03 * sd + 1e-3;
            }
            if (err == 0) { mean = 0; off = 0; }
            if (obs > 0)
            {
                double fr = obs / n, m = mean * fr;
                double vh = bm ? sd * sd + 0.1 : 0.26 + (mean < 0.5 ? mean : 0);
                reg.add(cnt, m, mean * fr * (1 - fr) + vh * fr * fr + 0.3 * fr, n);
                reg.slack += off * fr;
            }
        }
        a = std::move(b);
        if (it + 1 == last && looks < 6)
        {
            // a suspicion is followed up by more observations
            for (Mart * m : all) if (m->score() > 7) { ++looks; last += std::max(steps, 400); break; }
        }
    }
    str bad;
    for (Mart * m : all)
    {
        *observations += m->n;
        if (m->score() > 32)
        {
            char buf[240];
            snprintf(buf, sizeof buf, "%s deviates from its documented rate: %ld observations, total deviation %.1f, standard deviation %.1f", m->name, m->n, m->sum, std::sqrt(m->var));
            bad = buf;
        }
    }
    return bad;
}

// ------------------------------------------------------------ data
Data gen_data(uint64_t seed, int n, int F, int L, int T, int mode, bool cls)
{
    Rng r(rt::mix(seed, 0xDA7A));
    Data d;
    std::vector<Row> proto(std::max(L, 2), Row(F));
    for (auto & p : proto) for (auto & v : p) v = r.next() & 1;
    double dens = mode == 0 ? 0.5 : r.pick({0.1, 0.5, 0.9});
    for (int i = 0; i < n; ++i)
    {
        Row x(F);
        int y = 0;
        if (cls) y = (int)r.below(L); else y = (int)r.below((uint64_t)T + 1);
        switch (mode)
        {
            case 1:   // class prototypes with noise
                for (int f = 0; f < F; ++f) x[f] = proto[cls ? y : (int)((long)y * (long)(proto.size() - 1) / std::max(T, 1))][f] ^ (r.chance(0.1) ? 1 : 0);
                break;
            case 2:   // parity of two features / ordered response
                for (int f = 0; f < F; ++f) x[f] = r.next() & 1;
                if (cls) y = F > 1 ? (x[0] ^ x[1]) % L : x[0] % L;
                else { int k = 0; int m = std::min(F, 4); for (int f = 0; f < m; ++f) k += x[f]; y = m ? (int)((long)k * T / m) : 0; }
                break;
            case 3:   // extreme rows
            {
                uint8_t v = r.next() & 1;
                for (int f = 0; f < F; ++f) x[f] = v;
                if (F && r.chance(0.5)) x[r.below(F)] ^= 1;
                break;
            }
            case 4:   // one sample repeated
                if (i) { x = d.X[0]; y = d.y[0]; }
                else for (int f = 0; f < F; ++f) x[f] = r.next() & 1;
                break;
            case 7:   // the highest response
                for (int f = 0; f < F; ++f) x[f] = r.next() & 1;
                y = cls ? L - 1 : T;
                break;
            case 5:   // separated prototypes, light noise / response in four levels
                if (cls)
                {
                    for (int f = 0; f < F; ++f) x[f] = (y == 0 ? proto[0][f] : (f * y / F + (int)proto[0][f] + (f * (y + 1) / 3)) & 1) ^ (r.chance(0.05) ? 1 : 0);
                }
                else
                {
                    for (int f = 0; f < F; ++f) x[f] = r.next() & 1;
                    y = F > 1 ? (int)((2l * x[0] + x[1]) * T / 3) : F ? x[0] * T : 0;
                }
                break;
            default:
                for (int f = 0; f < F; ++f) x[f] = r.chance(dens);
        }
        d.X.push_back(std::move(x));
        d.y.push_back(y);
    }
    return d;
}

// a sample that satisfies a random clause, or violates exactly one of its literals
Row target_sample(Snapshot const & s, Rng & r)
{
    int F = s.cols;
    Row x(F);
    for (auto & v : x) v = r.next() & 1;
    if (s.rows < 2) return x;
    int o = (int)r.below(s.rows / 2);
    int const * p = &s.ta[(std::size_t)(2 * o) * F], * n = p + F;
    std::vector<int> inc;
    for (int f = 0; f < F; ++f)
    {
        if (p[f] >= 0) { x[f] = 1; inc.push_back(f); }
        else if (n[f] >= 0) { x[f] = 0; inc.push_back(f); }
    }
    if (!inc.empty() && r.chance(0.5)) x[inc[r.below(inc.size())]] ^= 1;
    return x;
}

// mode bits: 1 sparse clauses, 2 automata at the boundaries, 4 weights, 8 some empty clauses, 16 mid-range automata, 32 late literals only,
// 64 weights of any size, 128 late labels win
void surgery(int kind, Snapshot & s, Rng & r, int mode)
{
    if (!s.fitted || !s.cols) return;
    long N = pnum(s, "number_of_states");
    long maxw = pnum(s, "max_weight", INT_MAX);
    int F = s.cols;
    auto incl = [&]() -> int
    {
        if (mode & 2) return (int)(r.next() & 1 ? 0 : (r.next() & 1 ? N - 1 : r.below(N)));
        return (int)std::min<long>(N - 1, (mode & 16) ? N / 2 + (long)r.below(std::max<long>(1, N / 4)) : (long)r.below(3));
    };
    auto excl = [&]() -> int
    {
        if (mode & 2) return (int)(r.next() & 1 ? -1 : (r.next() & 1 ? -N : -1 - (long)r.below(N)));
        return (int)std::max<long>(-N, (mode & 16) ? -N / 2 - (long)r.below(std::max<long>(1, N / 4)) : -1 - (long)r.below(3));
    };
    Row base(F);
    for (auto & v : base) v = r.next() & 1;
    if (mode & 1)
    {
        for (int o = 0; o < s.rows / 2; ++o)
        {
            int * p = &s.ta[(std::size_t)(2 * o) * F];
            for (int f = 0; f < 2 * F; ++f) p[f] = excl();
            if ((mode & 8) && r.chance(0.3)) continue;
            int k = r.range(1, 4);
            bool agree = r.chance(0.7);      // clauses that a common sample satisfies
            for (int i = 0; i < k; ++i)
            {
                int f = (mode & 32) ? F - 1 - (int)r.below(std::min(F, 70)) : (int)r.below(F);
                bool neg = agree ? !base[f] : (r.next() & 1);
                p[neg ? F + f : f] = incl();
            }
        }
    }
    else if (mode & 2)
    {
        for (auto & v : s.ta) v = v >= 0 ? incl() : excl();
    }
    if (mode & 4)
        for (auto & w : s.weights)
        {
            long m = r.chance(0.15) ? maxw : std::min<long>(maxw, 1000);
            switch (r.below(4))
            {
                case 0: w = 0; break;
                case 1: w = (uint32_t)(m - 1); break;
                case 2: w = maxw > 1 ? (uint32_t)std::min<long>(maxw - 2, 1) : 0; break;
                default: w = (uint32_t)r.below(m);
            }
        }
    if (mode & 64)
        for (auto & w : s.weights) w = (uint32_t)r.below(std::min<long>(maxw, 10000000));
    if ((mode & 128) && is_classifier(kind))
    {
        // only labels from some label on can win
        Geometry g = geometry(kind, s);
        int win = r.chance(0.5) ? g.labels - 1 : (int)r.below(g.labels), f = (int)r.below(F);
        for (int o = 0; o < g.outputs; ++o)
        {
            int l = o / g.per_label;
            if (l > win || (l < win && o % 2)) continue;
            int * p = &s.ta[(std::size_t)(2 * o) * F];
            for (int i = 0; i < 2 * F; ++i) p[i] = excl();
            if (l == win && o % g.per_label == 0) p[r.chance(0.5) ? F + f : f] = incl();
        }
    }
}

// ------------------------------------------------------------ what an epoch presents
namespace
{
bool place(std::unique_ptr<Est> & e, Snapshot const & s, std::string & err)
{
    Outcome o;
    fault_free(true);
    auto st = e->clone(o);
    if (st)
    {
        st->inject(s);
        auto n = est_from_state(*st, o);
        if (n) e = std::move(n);
    }
    fault_free(false);
    if (!o.ok()) err = "state exchange failed: " + o.text();
    return o.ok();
}
// the model changes hands between two training calls
bool hand_over(std::unique_ptr<Est> & e, Rng & r, std::string & err, int & budget)
{
    Outcome o;
    if (budget <= 0) return true;
    --budget;
    switch (r.below(4))
    {
        case 0: { auto n = e->move_out(); e = std::move(n); return true; }
        case 1:
        {
            auto st = e->clone(o);
            auto n = st ? est_from_state(*st, o) : nullptr;
            if (n) e = std::move(n);
            break;
        }
        case 2:
        {
            std::string doc;
            auto st = e->clone(o);
            if (st) o = st->to_json(doc);
            if (st && o.ok()) o = st->from_json(doc);
            auto n = st && o.ok() ? est_from_state(*st, o) : nullptr;
            if (n) e = std::move(n);
            break;
        }
        default: return true;
    }
    if (!o.ok()) err = "handing the model over failed: " + o.text();
    return o.ok();
}
std::vector<int> parts_of(Rng & r, int epochs, int way)
{
    std::vector<int> p;
    while (epochs > 0)
    {
        int e = way == 0 ? epochs : way == 1 ? 1 : std::min(epochs, 1 + (int)r.below(r.pick({3, 30, 300})));
        p.push_back(e);
        epochs -= e;
    }
    return p;
}
}

// Every learned quantity which moves by exactly one per presented sample is counted. mode 0: feedback to
// the sample's own label (regressor: responses of 0) is certain, mode 1: feedback to another label is.
std::string run_epoch_counts(int kind, std::unique_ptr<Est> & e, Rng & r, int n, int epochs, int mode, long * obs)
{
    Snapshot a = e->snap();
    std::string err;
    int budget = 20;
    if (!a.fitted || a.weights.empty()) return "";
    Geometry g = geometry(kind, a);
    long T = pnum(a, "threshold"), N = pnum(a, "number_of_states");
    int F = a.cols;
    bool cls = is_classifier(kind);
    long room = (long)n * epochs * (cls ? 1 : g.outputs);
    if (N < room + 2 || T > 100000) return "";
    for (auto & v : a.ta) v = (int)(-1 - room - (long)r.below((uint64_t)std::min<long>(N - room, 50)));
    for (int o = 0; o < g.outputs; ++o)
    {
        bool big = !cls || (o % g.per_label % 2 == 1) == (mode == 0);
        a.weights[o] = big ? (uint32_t)(T + 3 * room + 20 + (long)r.below(1000)) : (uint32_t)r.below(2);
    }
    // the small ones must not outweigh
    if (cls) for (int o = 0; o < g.outputs; ++o) if (a.weights[o] > 1) a.weights[o] += (uint32_t)(room + 10);
    if (!place(e, a, err)) return err;
    a = e->snap();
    Data d;
    for (int i = 0; i < n; ++i)
    {
        Row x(F);
        int p = (int)r.below(4);
        for (auto & v : x) v = p == 0 ? r.next() & 1 : p == 1 ? r.chance(0.9) : p == 2 ? r.chance(0.1) : 1;
        if (p == 3) x[r.below(F)] = 0;
        d.X.push_back(x);
        d.y.push_back(cls ? (int)r.below(g.labels) : r.chance(0.5) ? 0 : (int)T);
    }
    if (r.chance(0.2)) std::sort(d.y.begin(), d.y.end());
    for (int ep : parts_of(r, epochs, (int)r.below(3)))
    {
        Outcome o = e->partial_fit(d, -1, ep);
        if (!o.ok()) return "training was refused: " + o.text();
        if (!hand_over(e, r, err, budget)) return err;
    }
    Snapshot b = e->snap();
    std::vector<long> cnt(g.labels, 0);                       // samples per label
    std::vector<std::vector<long>> lit(g.labels, std::vector<long>(2 * F, 0));   // in which a literal is false
    for (int i = 0; i < n; ++i)
    {
        int l = cls ? d.y[i] : 0;
        if (!cls && d.y[i] != 0) continue;
        ++cnt[l];
        for (int f = 0; f < F; ++f) ++lit[l][d.X[i][f] ? F + f : f];
    }
    *obs += (long)n * epochs;
    auto where = [&](int f) { return std::string(f < F ? "literal " : "negated literal ") + S(f < F ? f : f - F); };
    std::string what = S(epochs) + " epochs of " + S(n) + " samples: ";
    if (!cls)
    {
        for (int f = -1; f < 2 * F; ++f)
        {
            long got = 0, want = (long)g.outputs * epochs * (f < 0 ? cnt[0] : lit[0][f]);
            for (int o = 0; o < g.outputs; ++o) got += f < 0 ? (long)a.weights[o] - (long)b.weights[o] : (long)b.ta[(std::size_t)2 * o * F + f] - a.ta[(std::size_t)2 * o * F + f];
            if (got != want) return what + "feedbacks to " + (f < 0 ? str("weights") : where(f)) + " " + S(got) + ", from samples with response 0 expected " + S(want);
        }
        return "";
    }
    if (mode == 0)
    {
        for (int l = 0; l < g.labels; ++l)
            for (int j = 1; j < g.per_label; j += 2)
            {
                int o = l * g.per_label + j;
                for (int f = -1; f < 2 * F; ++f)
                {
                    long want = (long)epochs * (f < 0 ? cnt[l] : lit[l][f]);
                    long got = f < 0 ? (long)a.weights[o] - (long)b.weights[o] : (long)b.ta[(std::size_t)2 * o * F + f] - a.ta[(std::size_t)2 * o * F + f];
                    if (got != want) return what + "feedbacks to " + (f < 0 ? str("the weight") : where(f)) + " of clause " + S(j) + " of label " + S(l) + ": " + S(got) + ", its samples ask for " + S(want);
                }
            }
        return "";
    }
    // contrast: one other label per sample; each positive clause of it moves
    for (int j = 0; j < g.per_label; j += 2)
        for (int f = -1; f < 2 * F; ++f)
        {
            long total = 0, all = 0;
            for (int l = 0; l < g.labels; ++l) all += f < 0 ? cnt[l] : lit[l][f];
            for (int l = 0; l < g.labels; ++l)
            {
                int o = l * g.per_label + j;
                long got = f < 0 ? (long)a.weights[o] - (long)b.weights[o] : (long)b.ta[(std::size_t)2 * o * F + f] - a.ta[(std::size_t)2 * o * F + f];
                long most = (long)epochs * (all - (f < 0 ? cnt[l] : lit[l][f]));
                if (got < 0 || got > most || (g.labels == 2 && got != most))
                    return what + "contrasting feedbacks to " + (f < 0 ? str("the weight") : where(f)) + " of clause " + S(j) + " of label " + S(l) + ": " + S(got) + ", the other labels' samples ask for " + (g.labels == 2 ? "" : "at most ") + S(most);
                total += got;
            }
            if (total != epochs * all) return what + "contrasting feedbacks to " + (f < 0 ? str("the weight") : where(f)) + " of clause " + S(j) + " of all labels: " + S(total) + ", expected " + S(epochs * all);
        }
    return "";
}

// The order of presentation is drawn afresh for every epoch: a chain of epochs in which the outcome of each
// depends on the order; deviations from uniform orders of seven standard deviations are reported.
std::string run_epoch_order(int kind, std::unique_ptr<Est> & e, Rng & r, int epochs, long * obs)
{
    Snapshot a = e->snap();
    std::string err;
    int budget = 20;
    if (!a.fitted || a.weights.empty()) return "";
    Geometry g = geometry(kind, a);
    long T = pnum(a, "threshold"), N = pnum(a, "number_of_states");
    int F = a.cols;
    if (F < 4 || g.per_label > 2) return "";
    long deep = 40L * epochs + 10;
    if (N < deep + 10) return "";
    for (auto & v : a.ta) v = (int)-deep;
    Data d;
    *obs += epochs;
    if (!is_classifier(kind))
    {
        // one clause on literal 0. A (response T) leaves weight 2, B (response 0) leaves weight 1, others nothing
        if (g.outputs != 1 || T != 2 || !pbool(a, "boost_true_positive_feedback") || pbool(a, "box_muller")) return "";
        a.ta[0] = 0;
        a.weights[0] = 0;
        if (!place(e, a, err)) return err;
        int n = 2 + (int)r.below(r.pick({1, 4, 40, 40, 400, epochs < 600 ? 3000 : 40})), pa = (int)r.below(n), pb = (int)r.below(n - 1);
        if (pb >= pa) ++pb;
        for (int i = 0; i < n; ++i)
        {
            Row x(F);
            for (auto & v : x) v = r.next() & 1;
            x[0] = i == pa || i == pb;
            x[1] = 1;
            d.X.push_back(x);
            d.y.push_back(i == pa ? 2 : 0);
        }
        int way = (int)r.below(3);
        long ones = 0, turns = 0, singles = 0, before = 0;
        uint32_t last = 0;
        for (int ep : parts_of(r, epochs, way))
        {
            Outcome o = e->partial_fit(d, -1, ep);
            if (!o.ok()) return "training was refused: " + o.text();
            if (!hand_over(e, r, err, budget)) return err;
            if (way != 1) continue;
            Snapshot b = e->snap();
            ones += b.weights[0] != 0;
            if (singles++) turns += b.weights[0] != last;
            last = b.weights[0];
        }
        Snapshot b = e->snap();
        std::string what = "of " + S(epochs) + " epochs over " + S(n) + " samples, ";
        auto unlikely = [&](long k, long m) { double x = std::fabs(k - m / 2.0); return x > 3.5 * std::sqrt((double)m) + 1; };
        if (way == 1)
        {
            if (unlikely(ones, singles)) return what + S(ones) + " presented sample " + S(pb) + " before sample " + S(pa);
            if (unlikely(turns, singles - 1)) return what + S(turns) + " presented samples " + S(pa) + " and " + S(pb) + " in another order than the epoch before";
        }
        // A meets weight 1 unless B came before... : epochs of order (A, B) after one of order (B, A) skip the feedback
        before = (long)b.ta[1] - a.ta[1];
        double m = epochs - 1, skipped = epochs - before;
        if (skipped < 0 || std::fabs(skipped - m / 4) > 3.5 * std::sqrt(m) / 2 * 1.2 + 2)
            return what + S((long)skipped) + " turned the order of samples " + S(pa) + " and " + S(pb) + " round, expected about " + S((long)(m / 4));
        return "";
    }
    if (g.labels != 2 || g.per_label != 2) return "";
    int nA = 3 + (int)r.below(3), nD = 1 + (int)r.below(3);
    if (F < nA + 1) nA = F - 1;
    a.ta[(std::size_t)2 * F] = -1;                      // clause 1 of label 0: literal 0 about to be included
    for (int l = 0; l < 2; ++l)
    {
        a.weights[l * 2] = 1000000;
        a.weights[l * 2 + 1] = 200000000;
    }
    if (!place(e, a, err)) return err;
    std::vector<int> pos;
    for (int i = 0; i < nA + nD; ++i) pos.push_back(i);
    for (int i = nA + nD - 1; i > 0; --i) std::swap(pos[i], pos[r.below(i + 1)]);
    d.X.assign(nA + nD, Row(F, 1));
    d.y.assign(nA + nD, 1);
    for (int i = 0; i < nA + nD; ++i)
    {
        d.X[pos[i]][0] = 0;
        if (i < nA) { d.X[pos[i]][i + 1] = 0; d.y[pos[i]] = 0; }
    }
    for (int ep : parts_of(r, epochs, (int)r.below(3)))
    {
        Outcome o = e->partial_fit(d, -1, ep);
        if (!o.ok()) return "training was refused: " + o.text();
        if (!hand_over(e, r, err, budget)) return err;
    }
    Snapshot b = e->snap();
    // an inclusion of literal 0 by sample i takes one off the weight; every D which finds it included moves literals away at random
    double s = preal(a, "s", 2), closed = (double)a.weights[1] - (double)b.weights[1];
    double away = is_bitwise(kind) ? 2 / s : 2.3 / s * (1 - 1 / s) + 0.02;
    double bound = 7 * std::sqrt((closed + 100) * 2 / nA + away * epochs * nD) + 10;
    auto delta = [&](int f) { return (long)b.ta[(std::size_t)2 * F + f] - a.ta[(std::size_t)2 * F + f]; };
    for (int i = 1; i <= nA; ++i)
        for (int j = 1; j < i; ++j)
            if (std::labs(delta(i) - delta(j)) > bound)
                return "in " + S(epochs) + " epochs sample " + S(pos[i - 1]) + " came first of the samples of label 0 " + S(std::labs(delta(i) - delta(j))) + " times "
                    + (delta(i) > delta(j) ? "more" : "less") + " often than sample " + S(pos[j - 1]) + ", expected a difference of at most " + S((long)bound);
    return "";
}

// ------------------------------------------------------------ the state a model starts from
// Estimators of one configuration and many seeds, fitted for no epochs. Every automaton stands on either
// side of the boundary with equal chance, whatever its place and the seed; eight standard deviations.
std::string run_starts(Config c, int F, int L, int seeds, Rng & r, long * obs)
{
    uint32_t base = (uint32_t)r.next();
    std::vector<uint32_t> sd;
    for (int i = 0; i < seeds; ++i)
        sd.push_back(i == 0 ? base : i <= 32 ? base ^ (1u << (i - 1)) : i == 33 ? 0 : i == 34 ? 1 : i == 35 ? 0xffffffffu : i < 40 ? base + (uint32_t)(i - 35) : (uint32_t)r.next());
    std::sort(sd.begin(), sd.end());
    sd.erase(std::unique(sd.begin(), sd.end()), sd.end());
    bool cls = is_classifier(c.kind), again = r.chance(0.5);
    auto unlikely = [](double k, double m) { return std::fabs(k - m / 2) > 4 * std::sqrt(m) + 1; };
    std::vector<std::vector<uint8_t>> bit;
    std::vector<std::pair<uint64_t, uint64_t>> gen;
    int rows = 0;
    for (uint32_t s : sd)
    {
        Config d = c;
        d.seed = s;
        d.has_seed = true;
        Outcome o;
        auto e = make_est(d, o);
        if (!e) return "creation failed: " + o.text();
        Data x = gen_data(r.next(), r.range(1, 3), F, L, c.threshold, 0, cls);
        if (again)       // a model which was trained before starts like a new one
        {
            Data y = r.chance(0.5) ? x : gen_data(r.next(), 2, r.range(1, 2 * F), L, c.threshold, 0, cls);
            o = e->fit(y, L, 1);
            if (!o.ok()) return "training was refused: " + o.text();
        }
        o = e->fit(x, L, 0);
        if (!o.ok()) return "fitting for no epochs was refused: " + o.text();
        Snapshot a = e->snap();
        for (int v : a.ta) if (v != 0 && v != -1) return "an automaton starts at " + S(v);
        for (auto w : a.weights) if (w != 0) return "a weight starts at " + S((long)w + 1);
        if (rows && a.rows != rows) return "the number of clauses depends on the seed";
        rows = a.rows;
        if (a.cols != F) return "a model for " + S(F) + " features has " + S(a.cols);
        std::vector<uint8_t> b;
        for (int v : a.ta) b.push_back(v == 0);
        bit.push_back(b);
        gen.push_back({a.igen_hash, a.fgen_hash});
        rt::mix_trace(a.hash(true));
        rt::mix_trace(rt::mix(a.igen_hash, a.fgen_hash));
        e.reset();
    }
    long M = (long)rows * F, K = (long)bit.size();
    *obs += M * K;
    auto where = [&](long i) { return "automaton " + S(i % F) + " of row " + S(i / F); };
    // by place
    std::vector<long> per(M, 0), col(F, 0), row(rows, 0);
    for (auto & b : bit) for (long i = 0; i < M; ++i) { per[i] += b[i]; col[i % F] += b[i]; row[i / F] += b[i]; }
    for (long i = 0; i < M; ++i) if (unlikely(per[i], K)) return where(i) + " starts included under " + S(per[i]) + " of " + S(K) + " seeds";
    for (int i = 0; i < F; ++i) if (unlikely(col[i], K * rows)) return "of " + S(K * rows) + " automata of feature " + S(i) + " " + S(col[i]) + " start included";
    for (int i = 0; i < rows; ++i) if (unlikely(row[i], K * F)) return "of " + S(K * F) + " automata of row " + S(i) + " " + S(row[i]) + " start included";
    // by seed, and pairs of seeds
    for (long a = 0; a < K; ++a)
    {
        long n = 0;
        for (auto v : bit[a]) n += v;
        if (unlikely(n, M)) return "under seed " + S(sd[a]) + " " + S(n) + " of " + S(M) + " automata start included";
        for (long b = 0; b < a; ++b)
        {
            long q = 0;
            for (long i = 0; i < M; ++i) q += bit[a][i] == bit[b][i];
            if (unlikely(q, M)) return "seeds " + S(sd[a]) + " and " + S(sd[b]) + " start " + S(q) + " of " + S(M) + " automata alike";
            if (gen[a].first == gen[b].first || gen[a].second == gen[b].second) return "seeds " + S(sd[a]) + " and " + S(sd[b]) + " give the same random stream";
        }
    }
    // pairs of rows and of neighbouring features
    for (int d = 1; d < rows; ++d)
    {
        long q = 0, m = 0;
        for (auto & b : bit) for (long i = (long)d * F; i < M; ++i) { q += b[i] == b[i - (long)d * F]; ++m; }
        if (unlikely(q, m)) return "rows " + S(d) + " apart start " + S(q) + " of " + S(m) + " automata alike";
    }
    for (int d : {1, 2, 3, 4, 5, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256})
    {
        if (d >= F) break;
        long q = 0, m = 0;
        for (auto & b : bit) for (long i = 0; i < M; ++i) if (i % F >= d) { q += b[i] == b[i - d]; ++m; }
        if (unlikely(q, m)) return "features " + S(d) + " apart start " + S(q) + " of " + S(m) + " automata alike";
    }
    return "";
}

// ------------------------------------------------------------ storage faults on a document
std::string damage(std::string const & doc, std::string const & other, Rng & r, int mode, std::string & what)
{
    std::string d = doc;
    if (d.empty()) { what = "empty"; return d; }
    auto number_at = [&](std::size_t from, std::size_t & b, std::size_t & e) -> bool
    {
        for (std::size_t i = 0; i < d.size(); ++i)
        {
            std::size_t p = (from + i) % d.size();
            if ((d[p] >= '0' && d[p] <= '9') && (p == 0 || !(isdigit((unsigned char)d[p - 1]) || d[p - 1] == '.' || isalpha((unsigned char)d[p - 1]) || d[p - 1] == '_')))
            {
                b = p;
                if (p && d[p - 1] == '-') b = p - 1;
                e = p;
                while (e < d.size() && (isdigit((unsigned char)d[e]) || strchr(".eE+-", d[e]))) ++e;
                return true;
            }
        }
        return false;
    };
    // places of interest: the head and the values of named members
    auto key_pos = [&]() -> std::size_t
    {
        std::vector<std::size_t> ks;
        for (std::size_t p = d.find("\":"); p != str::npos; p = d.find("\":", p + 2)) ks.push_back(p + 2);
        return ks.empty() ? 0 : ks[r.below(ks.size())];
    };
    switch (mode)
    {
        case 0: { std::size_t n = r.below(d.size()); d.resize(n); what = "truncated to " + S(n); break; }
        case 1: { int k = r.range(1, 3); for (int i = 0; i < k; ++i) d[r.below(d.size())] ^= (char)(1 << r.below(8)); what = "bit flips"; break; }
        case 2: { std::size_t a = r.below(d.size()), n = std::min(d.size() - a, (std::size_t)r.range(1, 512)); for (std::size_t i = 0; i < n; ++i) d[a + i] = 0; what = "zeroed region"; break; }
        case 3:   // old and new mixed: prefix of one version, rest of the other
        {
            std::string const & o = other.empty() ? doc : other;
            std::size_t c = r.below(std::min(d.size(), o.size()) + 1);
            d = d.substr(0, c) + o.substr(std::min(c, o.size()));
            what = "torn write at " + S(c);
            break;
        }
        case 4:   // a number replaced
        {
            std::size_t b, e;
            if (number_at(r.chance(0.7) ? key_pos() : r.below(d.size()), b, e))
            {
                static char const * vals[] = {"-1", "0", "1", "2", "3", "5", "7", "127", "128", "255", "-128", "-129", "32768", "-32769", "2147483647", "2147483648", "4294967295",
                    "4294967296", "18446744073709551615", "-2147483648", "1e10", "1.5", "1e308", "99999999999999999999", "5000", "624", "4992", "4991", "-0.0", "65536",
                    "1e999", "-1e999", "1e309", "1e39", "-1e39", "1e-999", "NaN", "Infinity", "1e", "1.", "01"};
                std::string v = vals[r.below(sizeof vals / sizeof *vals)];
                what = "number at " + S(b) + " " + d.substr(b, e - b) + " -> " + v;
                d = d.substr(0, b) + v + d.substr(e);
            }
            break;
        }
        case 5:   // an array element or member lost or doubled
        {
            std::size_t p = r.below(d.size()), c = d.find(',', p);
            if (c == str::npos) c = d.find(',');
            std::size_t c2 = c == str::npos ? c : d.find(',', c + 1);
            if (c2 != str::npos)
            {
                if (r.chance(0.5)) { what = "element lost at " + S(c); d = d.substr(0, c) + d.substr(c2); }
                else { what = "element doubled at " + S(c); d = d.substr(0, c2) + d.substr(c); }
            }
            break;
        }
        case 6:   // a member lost
        {
            std::size_t p = key_pos();
            std::size_t k = d.rfind('"', p >= 3 ? p - 3 : 0);
            std::size_t e = p;
            int depth = 0;
            for (; e < d.size(); ++e)
            {
                if (d[e] == '[' || d[e] == '{') ++depth;
                else if (d[e] == ']' || d[e] == '}') { if (depth == 0) break; --depth; }
                else if (d[e] == ',' && depth == 0) break;
            }
            if (k != str::npos && e < d.size())
            {
                what = "member lost at " + S(k) + " " + d.substr(k, std::min<std::size_t>(30, p - k));
                if (d[e] == ',') d = d.substr(0, k) + d.substr(e + 1);
                else { std::size_t c = d.rfind(',', k); if (c != str::npos && c + 2 >= k) d = d.substr(0, c) + d.substr(e); else d = d.substr(0, k) + d.substr(e); }
            }
            break;
        }
        case 7:   // a value replaced by one of another type
        {
            std::size_t p = key_pos(), e = p;
            int depth = 0;
            bool q = false;
            for (; e < d.size(); ++e)
            {
                if (d[e] == '"') q = !q;
                if (q) continue;
                if (d[e] == '[' || d[e] == '{') ++depth;
                else if (d[e] == ']' || d[e] == '}') { if (depth == 0) break; --depth; }
                else if (d[e] == ',' && depth == 0) break;
            }
            static char const * vals[] = {"null", "true", "\"int64\"", "[]", "{}", "-1", "0", "\"\"", "[[]]", "1.5", "\"auto\"", "\"int8\"", "false"};
            std::string v = vals[r.below(sizeof vals / sizeof *vals)];
            if (r.chance(0.04)) { v.assign(r.pick({10, 1000, 100000}), r.chance(0.7) ? '[' : '{'); if (r.chance(0.5)) v += std::string(v.size(), ']'); }
            what = "value at " + S(p) + " " + d.substr(p, std::min<std::size_t>(20, e - p)) + " -> " + v.substr(0, 40);
            d = d.substr(0, p) + v + d.substr(e);
            break;
        }
        case 8: what = "lost write (older version)"; if (!other.empty()) d = other; break;
        case 9:   // a region moved within the file
        {
            std::size_t n = std::min<std::size_t>(r.range(1, 4096), d.size() / 2 + 1), a = r.below(d.size() - n + 1), b = r.below(d.size() - n + 1);
            std::string t = d.substr(a, n);
            memmove(&d[b], t.data(), n);
            what = "misdirected write of " + S(n);
            break;
        }
        case 10:  // a nested row shortened or lengthened
        {
            std::size_t p = d.find("[[");
            std::vector<std::size_t> rows;
            for (std::size_t q = p; q != str::npos && rows.size() < 4096; q = d.find("],[", q + 1)) rows.push_back(q);
            if (!rows.empty())
            {
                std::size_t q = rows[r.below(rows.size())];
                std::size_t e = d.find(']', q + 2);
                if (e != str::npos)
                {
                    if (r.chance(0.5)) { d.insert(e, ",0,0"); what = "row lengthened"; }
                    else { std::size_t c = d.rfind(',', e); if (c != str::npos && c > q + 2) { d.erase(c, e - c); what = "row shortened"; } }
                }
            }
            break;
        }
        case 11: { int k = r.range(1, 40); for (int i = 0; i < k; ++i) d += (char)r.below(256); what = "garbage appended"; break; }
        case 12: d = ""; what = "file lost its content"; break;
        case 14:  // a character of a string value
        {
            std::vector<std::size_t> vs;
            for (std::size_t p = d.find("\":"); p != str::npos; p = d.find("\":", p + 2))
            {
                std::size_t q = p + 2;
                while (q < d.size() && d[q] == ' ') ++q;
                if (q < d.size() && d[q] == '"') vs.push_back(q + 1);
            }
            if (vs.empty()) break;
            std::size_t b = vs[r.below(vs.size())], e = d.find('"', b);
            if (e == str::npos) break;
            std::string v = d.substr(b, e - b);
            std::vector<std::size_t> letters;
            for (std::size_t i = 0; i < v.size(); ++i) if (isalpha((unsigned char)v[i])) letters.push_back(i);
            static char const * names[] = {"auto", "int8", "int16", "int32", "MSE", "MAE", "L1", "L2", "L1+2", "berHu", "int", "L3", "uint8", "int64", "classifier", "regressor", "classic", "bitwise"};
            switch (r.below(6))
            {
                case 0: case 1: if (!letters.empty()) v[letters[r.below(letters.size())]] ^= 0x20; break;
                case 2: if (!v.empty()) v[r.below(v.size())] ^= (char)(1 << r.below(7)); break;
                case 3: if (!v.empty()) v.erase(r.below(v.size()), 1); break;
                case 4: v.insert(r.below(v.size() + 1), 1, (char)r.pick({' ', '_', '1', 'x'})); break;
                default: v = names[r.below(sizeof names / sizeof *names)];
            }
            what = "string at " + S(b) + " " + d.substr(b, e - b) + " -> " + v;
            d = d.substr(0, b) + v + d.substr(e);
            break;
        }
        case 15:  // a bit of a digit or sign
        {
            std::size_t b, e;
            if (number_at(r.chance(0.7) ? key_pos() : r.below(d.size()), b, e))
            {
                std::string v = d.substr(b, e - b);
                v[r.below(v.size())] ^= (char)(1 << r.below(5));
                what = "number at " + S(b) + " " + d.substr(b, e - b) + " -> " + v;
                d = d.substr(0, b) + v + d.substr(e);
            }
            break;
        }
        default: { std::size_t a = r.below(d.size()), n = std::min(d.size() - a, (std::size_t)r.range(1, 64)); for (std::size_t i = 0; i < n; ++i) d[a + i] = (char)r.below(256); what = "region overwritten"; }
    }
    return d;
}
