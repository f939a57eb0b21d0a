// Abstract view of the library for the simulator core. Only the public headers
// of the library are needed to drive it; the learned state is additionally read
// through the state header its unit tests use.
#pragma once
#include <cstdint>
#include <map>
#include <memory>
#include <string>
#include <vector>

enum Kind { CC = 0, CB = 1, RC = 2, RB = 3 };   // classifier/regressor, classic/bitwise
inline bool is_classifier(int k) { return k == CC || k == CB; }
inline bool is_bitwise(int k) { return k == CB || k == RB; }
char const * kind_name(int k);

struct Config
{
    int kind = CC;
    int clauses = 12;          // per label, or total for a regressor
    int states = 100;
    float s = 2.0f;
    int threshold = 15;
    bool weighted = false;
    int max_weight = INT32_MAX;
    bool boost = false;
    int n_jobs = 1;
    bool verbose = false;
    std::string counting = "auto";
    int tile = 16;
    std::string loss = "MSE";
    float c1 = 0.f;
    bool box_muller = false;
    bool has_seed = true;
    uint32_t seed = 1;
    std::string text() const;
    std::string json() const;  // configuration document
};

typedef std::vector<uint8_t> Row;
struct Pad                     // bitwise only: bits behind the content of a row
{
    int blocks = 0;            // blocks allocated in excess of the content
    int dirt = -1;             // which padding bit is left set, -1: none (taken modulo their number)
    bool reuse = false;        // see Data
};
struct Data
{
    std::vector<Row> X;
    std::vector<int> y;
    std::vector<Pad> pad;      // per row, when given
    bool reuse = false;        // the caller passes the buffers it used before, with new contents
};

enum OutKind { O_OK = 0, O_STATUS = 1, O_BADALLOC = 2, O_EXC = 3 };
struct Outcome
{
    int kind = O_OK;
    int status = 0;
    std::string what;          // message or exception text
    std::vector<int> ints;
    std::vector<std::vector<int>> rows;
    double real = 0;
    bool operator==(Outcome const & o) const
    {
        return kind == o.kind && status == o.status && ints == o.ints && rows == o.rows && real == o.real;
    }
    bool ok() const { return kind == O_OK; }
    std::string text() const;
};

struct Snapshot                // learned state, copied out
{
    bool fitted = false;
    int width = 0;             // bytes per counter
    int rows = 0, cols = 0;
    std::vector<int> ta;       // rows*cols
    std::vector<uint32_t> weights;
    bool has_pol = false;
    int prows = 0, pcols = 0;
    std::vector<uint8_t> pol;  // rows*cols of 0/1
    bool pol_pad_clear = true;
    std::map<std::string, std::string> params;
    int igen_index = 0, fgen_index = 0;
    uint64_t rng_hash = 0, igen_hash = 0, fgen_hash = 0;
    uint64_t hash(bool with_params = true) const;
    bool same_learned(Snapshot const & o) const;   // automata, weights, mask
    bool operator==(Snapshot const & o) const;
    std::string diff(Snapshot const & o) const;
};

struct State
{
    virtual ~State() {}
    virtual Outcome to_json(std::string & out) const = 0;
    virtual Outcome from_json(std::string const & doc) = 0;
    virtual Snapshot snap() const = 0;
    virtual void inject(Snapshot const & s) = 0;   // overwrite automata and weights (same dimensions)
    virtual bool equal_to(State const & o) const = 0;
    int kind = 0;
};

struct Est
{
    virtual ~Est() {}
    int kind = 0;
    virtual Outcome fit(Data const &, int max_labels, int epochs) = 0;          // -1: argument omitted
    virtual Outcome partial_fit(Data const &, int max_labels, int epochs) = 0;
    virtual Outcome predict1(Row const &, Pad const & = Pad()) const = 0;
    virtual Outcome predictN(Data const &) const = 0;
    virtual Outcome decide1(Row const &, Pad const & = Pad()) const = 0;
    virtual Outcome decideN(Data const &) const = 0;
    virtual Outcome evaluate(Data const &) const = 0;
    virtual Outcome read_params(std::map<std::string, std::string> & out) const = 0;
    virtual std::unique_ptr<State> clone(Outcome & o) const = 0;
    virtual std::unique_ptr<Est> move_out() = 0;                                 // move construction
    virtual void move_from(Est & o) = 0;                                         // move assignment
    // direct read of the learned state without going through the calls under test
    Snapshot snap() const { Outcome o; auto s = clone(o); return s ? s->snap() : Snapshot(); }
};

std::unique_ptr<Est> make_est(Config const &, Outcome &);
std::unique_ptr<Est> make_est_json(int kind, std::string const &, Outcome &);
std::unique_ptr<Est> est_from_state(State const &, Outcome &);

void fault_free(bool on);     // clone/snap helpers run in tracked but not failable mode

// log sink
struct SinkSpec { int mode = 0; long fail_after = -1; bool exceptions = false; int restore_after = -1; };
enum SinkMode { SINK_OK = 0, SINK_FAIL = 1, SINK_THROW = 2, SINK_SHORT = 3 };
void sink_set(SinkSpec const &);
std::string sink_text();
uint64_t sink_faults();
void sink_reset();
int facade_instrumented();
