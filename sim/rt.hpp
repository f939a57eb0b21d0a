// Simulator runtime: seeded scheduler, OpenMP/pthread/allocator/entropy/log
// seams, happens-before race detector, heap bounds checker.
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace rt
{
constexpr int EXHAUSTED = 43;   // exit status: the simulated heap is full


// ---------------------------------------------------------------- PRNG
struct Rng
{
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed) {}
    uint64_t next()
    {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int range(int lo, int hi) { return lo + (int)below((uint64_t)(hi - lo + 1)); }
    double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    bool chance(double p) { return unit() < p; }
    template<typename T> T pick(std::initializer_list<T> l) { return *(l.begin() + below(l.size())); }
};
inline uint64_t mix(uint64_t a, uint64_t b)
{
    Rng r(a * 0x9E3779B97F4A7C15ull + b);
    r.next();
    return r.next();
}

// ---------------------------------------------------------------- schedule
enum Policy { P_SEQ = 0, P_RANDOM = 1, P_PCT = 2, P_REVERSE = 3, P_STALL = 4, P_REPLAY = 5 };
enum Grant { G_ALL = 0, G_FEWER = 1, G_ONE = 2, G_VARY = 3 };

struct SwitchEntry { int tid; uint64_t ev; int to; };

struct SchedSpec
{
    int policy = P_SEQ;
    uint64_t seed = 1;
    uint32_t mean_gap = 200;   // P_RANDOM: mean number of events between preemptions
    int depth = 3;             // P_PCT: change points
    uint64_t horizon = 20000;  // P_PCT: over how many events they are spread
    int grant = G_ALL;
    bool record = true;
    std::vector<SwitchEntry> replay;
};

struct AllocSpec
{
    uint64_t dirty_seed = 0;   // pattern of fresh memory
    int dirty_mode = 0;        // 0 0xA5, 1 zero, 2 0xFF, 3 random bytes
    int reuse = 0;             // 0 quarantine (no reuse), 1 LIFO reuse
    uint64_t shift = 0;        // address displacement
};

struct Counters
{
    uint64_t events = 0, switches = 0, regions = 0, team_members = 0, granted_fewer = 0,
        allocs = 0, oom_fired = 0, barriers = 0, locks = 0, races_checked = 0, max_team = 0,
        mutex_blocks = 0;
};

void init_process();                       // once, before forking
void begin_run(SchedSpec const &, AllocSpec const &);
void end_run();
Counters & counters();
std::vector<SwitchEntry> const & recorded();
uint64_t trace_hash();                     // hash of all scheduling decisions
void mix_trace(uint64_t);                  // fold an observation into the hash

int max_requested_team();                  // largest team size asked for since reset
void reset_requested_team();

// simulated caller threads
int spawn(std::function<void()> fn);
void join(int tid);
int self_tid();

// SUT sections. mode 1: hooks on, allocations tracked; mode 2: additionally failable
struct Sut
{
    int saved;
    explicit Sut(int mode = 2);
    ~Sut();
};
struct Host   // back to host mode inside a SUT section
{
    int saved;
    Host();
    ~Host();
};

// allocation faults
void oom_arm(uint64_t nth, bool persistent);   // nth (1-based) failable allocation from now on fails
void oom_disarm();
uint64_t alloc_count();                        // failable allocations so far
uint64_t live_blocks();                        // live arena blocks allocated in mode 2
uint64_t live_bytes();
void list_live(uint64_t from);                 // debugging aid
uint64_t alloc_seq();
void heap_verify();                            // canaries of all live blocks

// violation sink: does not return
[[noreturn]] void violation(std::string const & cls, std::string const & detail);
void set_violation_handler(void (*)(std::string const &, std::string const &));
bool instrumented();
void note_instrumented();

// entropy and machine seams
void set_entropy(uint64_t seed);
uint64_t entropy_draws();
void set_cpus(unsigned n);
unsigned cpu_queries();

void * seg_alloc(std::size_t);                 // raw allocation used by new in SUT
}
