// Scenarios: what one simulated run consists of, and its text form (replay files).
#pragma once
#include "facade.hpp"
#include "rt.hpp"
#include <map>
#include <set>
#include <string>
#include <vector>

struct Op
{
    int id = 0;
    std::string k;
    int slot = 0, slot2 = 0, cfg = 0;
    uint64_t seed = 0;
    int n = 0, epochs = 0, labels = -1, mode = 0, thr = 0;
    unsigned mask = ~0u;       // programs in which the op appears
    bool cmp = true;           // outcome and state compared between programs
    bool snap = true;          // state observed after the op
    double oom = -1;           // >= 0: failing allocation, position as a fraction of the op's allocations
    bool oomp = false;         // every later allocation of the op fails too
    long x = 0, y = 0, z = 0;
};

struct ProgSpec
{
    rt::SchedSpec sched;
    rt::AllocSpec alloc;
    uint64_t entropy = 1;
    unsigned cpus = 4;
    int stack = 0;             // pattern left on the stack before each call
    // overrides of the configurations
    int n_jobs = -1000, tile = 0, verbose = -1;
    std::string counting;
    bool faults = true;        // op-level faults active
    std::vector<std::vector<rt::SwitchEntry>> replay;   // per segment, when policy is P_REPLAY
};

struct Scenario
{
    std::string prop;
    uint64_t seed = 0;
    std::string family;
    unsigned checks = 0;
    std::string ignore;        // parameters left out of comparisons, space separated
    bool ignore_width = false, ignore_rng = false;
    std::vector<Config> cfgs;
    std::vector<ProgSpec> progs;
    std::vector<Op> ops;
    std::string text() const;
    static Scenario parse(std::string const &);
};

enum Checks
{
    CK_INV = 1, CK_MODEL = 2, CK_TEAM = 4, CK_LEAK = 8, CK_LOG = 16, CK_OOM = 32, CK_ENTROPY = 64, CK_QUIET = 128, CK_EQ = 256,
};

// ------------------------------------------------------------ reference model
struct Geometry { int labels = 1, outputs = 0, per_label = 0, features = 0; };
long pnum(Snapshot const &, char const * key, long dflt = 0);
double preal(Snapshot const &, char const * key, double dflt = 0);
bool pbool(Snapshot const &, char const * key);
Geometry geometry(int kind, Snapshot const &);
bool clause_output(Snapshot const &, int output, Row const & x, bool empty_value);
std::vector<long> ref_votes(int kind, Snapshot const &, Row const & x, bool training);   // clamped, per label (regressor: one)
std::string check_params(int kind, std::map<std::string, std::string> const & params);
std::string check_wellformed(int kind, Snapshot const &, std::map<std::string, std::string> const * params0);
struct StepFacts { int types[2] = {0, 0}; int outs[2] = {0, 0}; int changed_labels = 0; bool margin_met = false, forced = false; int fb = 0; };
std::string check_step(int kind, Snapshot const & a, Snapshot const & b, Row const & x, int y, StepFacts * facts);
std::string run_epoch_counts(int kind, std::unique_ptr<Est> & e, rt::Rng & rng, int n, int epochs, int mode, long * observations);
std::string run_epoch_order(int kind, std::unique_ptr<Est> & e, rt::Rng & rng, int epochs, long * observations);
std::string run_starts(Config c, int features, int labels, int seeds, rt::Rng & rng, long * observations);
std::string run_stats(int kind, Est & e, rt::Rng & rng, int steps, long * observations);

Data gen_data(uint64_t seed, int n, int features, int labels, int T, int mode, bool cls);
Row target_sample(Snapshot const &, rt::Rng &);
void surgery(int kind, Snapshot &, rt::Rng &, int mode);
std::string damage(std::string const & doc, std::string const & other, rt::Rng &, int mode, std::string & what);

// ------------------------------------------------------------ execution
struct Rec { int tag; uint64_t out, snap; char text[112]; };
struct Result
{
    bool violated = false;
    std::string cls, detail;
    std::vector<Rec> recs;
    std::vector<std::vector<rt::SwitchEntry>> switches;  // per segment
    uint64_t hash = 0;
    bool sim_error = false;
};
void exec_init();
void exec_want_switches(bool);
Result run_program(Scenario const &, int prog);
struct Verdict
{
    bool violated = false, sim_error = false;
    std::string cls, detail;
    int prog = -1;
    std::vector<Result> results;
    uint64_t hash = 0;
};
Verdict run_scenario(Scenario const &);

// coverage probes: counted in simulated processes and summed up by the worker
void probe(char const * name, uint64_t n = 1);
std::map<std::string, uint64_t> & probe_totals();

Scenario generate(std::string const & prop, uint64_t seed, bool thorough);
bool needs_instrumented(std::string const & prop);
