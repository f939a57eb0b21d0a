#include "rt.hpp"

#include <algorithm>
#include <atomic>
#include <cmath>
#include <cerrno>
#include <climits>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <map>
#include <memory>
#include <new>
#include <random>
#include <chrono>
#include <thread>
#include <unordered_map>
#include <dlfcn.h>
#include <execinfo.h>
#include <malloc.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>

extern "C" char end;

namespace rt
{
namespace
{

constexpr uint64_t ARENA = 0x100000000000ull;

constexpr int MAXT = 64;

[[noreturn]] void fatal(char const * msg)
{
    dprintf(2, "SIM-ERROR: %s\n", msg);
    _exit(77);
}

struct VC
{
    uint32_t c[MAXT] = {};
    void join(VC const & o)
    {
        for (int i = 0; i < MAXT; ++i) if (o.c[i] > c[i]) c[i] = o.c[i];
    }
};

struct Team;

enum St { IDLE, RUNNABLE, BLOCKED, DONE };

struct Thread
{
    int id = 0;
    St st = IDLE;
    std::atomic<int> go{0};
    void const * key = nullptr;      // what it is blocked on
    uint64_t ev = 0;                 // own event count
    uint64_t next_ev = ~0ull;        // replay: own event at which to switch
    std::deque<SwitchEntry> script;  // replay: remaining entries
    int prio = 0;
    VC vc;
    int mode = 0;                    // SUT mode: 0 host
    // team context
    Team * team = nullptr;
    int tnum = 0;
    int ws_count = 0;                // work shares entered in the current team
    int single_count = 0;
    void * cur_ws = nullptr;
    int nest = 0;
    // worker body
    void (*fn)(void *) = nullptr;
    void * data = nullptr;
    int owner = -1;                  // pool owner (caller thread id)
    std::function<void()> body;      // caller threads
    bool caller = false;
    void * (*pstart)(void *) = nullptr;
    void * parg = nullptr;
    void * pret = nullptr;
    pthread_t pth{};
    bool worker = false;
};

struct WorkShare
{
    long next = 0, end = 0, incr = 1, chunk = 1;
    int nthreads = 1;
    int mode = 0;                    // 0 static, 1 dynamic, 2 guided
    int left = 0;
    unsigned sec_next = 1, sec_count = 0;
};

struct Team
{
    int n = 1;
    Team * prev = nullptr;
    int master = 0;
    int bar_in = 0, bar_gen = 0;
    VC bar_vc;
    int running = 0;
    std::vector<Thread *> members;
    std::deque<WorkShare> ws;
    std::deque<int> singles;
    void * copyprivate = nullptr;
};

Thread g_threads[MAXT];
int g_nthreads = 0;                  // used slots
thread_local Thread * self __attribute__((tls_model("initial-exec"))) = nullptr;

SchedSpec g_spec;
Rng g_rng(1), g_grng(1);
uint64_t g_since = 0;
long g_gap = LONG_MAX;
int g_live = 1;                      // threads that may run
bool g_multi = false;
Counters g_cnt;
std::vector<SwitchEntry> g_rec;
uint64_t g_hash = 0;
bool g_active = false;
int g_stalled = -1;
std::vector<uint64_t> g_pct;         // remaining change points (global event index)
uint64_t g_gev = 0;
int g_lowprio = 0;
int g_maxreq = 0;
bool g_instr = false;
void (*g_vh)(std::string const &, std::string const &) = nullptr;

void futex_wait(std::atomic<int> * a, int v)
{
    syscall(SYS_futex, (int *)a, FUTEX_WAIT_PRIVATE, v, nullptr, nullptr, 0);
}
void futex_wake(std::atomic<int> * a)
{
    syscall(SYS_futex, (int *)a, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}

void park(Thread * t)
{
    while (t->go.load(std::memory_order_acquire) == 0) futex_wait(&t->go, 0);
    t->go.store(0, std::memory_order_relaxed);
}
void release(Thread * t)
{
    t->go.store(1, std::memory_order_release);
    futex_wake(&t->go);
}

void hash_in(uint64_t v) { g_hash = mix(g_hash, v); }

void new_gap()
{
    if (g_spec.policy != P_RANDOM) { g_gap = LONG_MAX; return; }
    double u = g_rng.unit();
    // geometric-like gap, heavy at small values
    double g = -std::log(1.0 - u) * g_spec.mean_gap;
    g_gap = 1 + (long)g;
}

void load_script(Thread * t)
{
    t->script.clear();
    for (auto const & e : g_spec.replay) if (e.tid == t->id) t->script.push_back(e);
    t->next_ev = t->script.empty() ? ~0ull : t->script.front().ev;
}

// choose the next thread to run; `forced`: current one cannot continue
Thread * choose(Thread * cur, bool forced)
{
    Thread * cand[MAXT];
    int n = 0;
    for (int i = 0; i < g_nthreads; ++i)
        if (g_threads[i].st == RUNNABLE) cand[n++] = &g_threads[i];
    if (n == 0) return nullptr;
    switch (g_spec.policy)
    {
        case P_RANDOM:
            return cand[g_rng.below(n)];
        case P_PCT:
        {
            Thread * b = cand[0];
            for (int i = 1; i < n; ++i) if (cand[i]->prio > b->prio) b = cand[i];
            return b;
        }
        case P_REVERSE:
            if (!forced && cur && cur->st == RUNNABLE) return cur;
            return cand[n - 1];
        case P_STALL:
        {
            if (!forced && cur && cur->st == RUNNABLE && cur->id != g_stalled) return cur;
            for (int i = 0; i < n; ++i) if (cand[i]->id != g_stalled) return cand[i];
            return cand[0];
        }
        case P_REPLAY:
        {
            while (cur && !cur->script.empty() && cur->script.front().ev < cur->ev) cur->script.pop_front();
            if (cur && !cur->script.empty() && cur->script.front().ev == cur->ev)
            {
                int to = cur->script.front().to;
                cur->script.pop_front();
                cur->next_ev = cur->script.empty() ? ~0ull : cur->script.front().ev;
                for (int i = 0; i < n; ++i) if (cand[i]->id == to) return cand[i];
            }
            else if (cur)
                cur->next_ev = cur->script.empty() ? ~0ull : cur->script.front().ev;
            if (!forced && cur && cur->st == RUNNABLE) return cur;
            return cand[0];
        }
        default:
            if (!forced && cur && cur->st == RUNNABLE) return cur;
            return cand[0];
    }
}

bool g_trace_switch = false;           // debugging aid: SIM_TRACE_SW
void note_switch(Thread * from, Thread * to)
{
    ++g_cnt.switches;
    if (g_trace_switch) dprintf(atoi(getenv("SIM_BTFD")), "SW %d %llu %d\n", from->id, (unsigned long long)from->ev, to->id);
    hash_in(((uint64_t)from->id << 56) ^ ((uint64_t)to->id << 48) ^ from->ev);
    if (g_spec.record && g_rec.size() < 200000) g_rec.push_back({from->id, from->ev, to->id});
}

void switch_to(Thread * from, Thread * to)
{
    if (from == to) return;
    g_since = 0;
    note_switch(from, to);
    release(to);
    park(from);
}

// the calling thread stays runnable but may lose the processor
void preempt(Thread * t)
{
    Thread * n = choose(t, false);
    if (n && n != t) switch_to(t, n);
}

// a thread that runs for very long while others wait is made to let them on
void __attribute__((noinline)) fairness(Thread * t)
{
    g_since = 0;
    for (int k = 1; k < g_nthreads; ++k)
    {
        Thread * c = &g_threads[(t->id + k) % g_nthreads];
        if (c != t && c->st == RUNNABLE)
        {
            if (g_spec.policy == P_PCT) t->prio = --g_lowprio;
            switch_to(t, c);
            return;
        }
    }
}

// event in a multi-threaded phase
inline void event(Thread * t)
{
    ++t->ev;
    ++g_gev;
    if (++g_since > 2000000) { fairness(t); return; }
    switch (g_spec.policy)
    {
        case P_RANDOM:
            if (--g_gap <= 0) { new_gap(); preempt(t); }
            break;
        case P_PCT:
            if (!g_pct.empty() && g_gev >= g_pct.back())
            {
                g_pct.pop_back();
                t->prio = --g_lowprio;
                preempt(t);
            }
            break;
        case P_REPLAY:
            if (t->ev >= t->next_ev) preempt(t);
            break;
        default: break;
    }
}

// a synchronisation point: always offer a switch under the random policies
void sync_point(Thread * t)
{
    if (!g_multi) return;
    ++t->ev;
    ++g_gev;
    if (g_spec.policy == P_RANDOM) { if (g_rng.chance(0.5)) preempt(t); }
    else if (g_spec.policy == P_PCT || g_spec.policy == P_STALL) preempt(t);
    else if (g_spec.policy == P_REPLAY) { if (t->ev >= t->next_ev) preempt(t); }
}

void deadlock()
{
    std::string d = "no runnable thread;";
    for (int i = 0; i < g_nthreads; ++i)
        if (g_threads[i].st == BLOCKED) d += " thread " + std::to_string(i) + " blocked;";
    violation("deadlock", d);
}

// give the processor away; the caller has set its own state
void yield_away(Thread * t)
{
    ++t->ev;
    Thread * n = choose(t, true);
    if (!n) deadlock();
    switch_to(t, n);
}

void block_on(Thread * t, void const * key)
{
    t->st = BLOCKED;
    t->key = key;
    yield_away(t);
}

void wake_all(void const * key)
{
    for (int i = 0; i < g_nthreads; ++i)
        if (g_threads[i].st == BLOCKED && g_threads[i].key == key)
        {
            g_threads[i].st = RUNNABLE;
            g_threads[i].key = nullptr;
        }
}

void tick(Thread * t) { ++t->vc.c[t->id]; }

// ------------------------------------------------------------ race shadow
struct Slot
{
    uint32_t clk;
    uint8_t tid, mask, write, atomic;
};
constexpr int NS = 4;
struct Cell { uint32_t gen; uint32_t rr; Slot s[NS]; };
struct Page { Cell c[512]; };

uint32_t g_gen = 1;
std::unordered_map<uint64_t, Page *> * g_pages = nullptr;
struct Tlb { uint64_t no; Page * p; };
Tlb g_tlb[1024];

Page * page_of(uint64_t no)
{
    Tlb & t = g_tlb[no & 1023];
    if (t.no == no && t.p) return t.p;
    auto & pg = (*g_pages)[no];
    if (!pg)
    {
        pg = (Page *)mmap(nullptr, sizeof(Page), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if (pg == MAP_FAILED) fatal("shadow");
    }
    t.no = no; t.p = pg;
    return pg;
}

void race_found(Thread * t, uint64_t a, unsigned sz, bool w, Slot const & s, void * pc)
{
    char buf[300];
    snprintf(buf, sizeof buf, "unordered %s of %u byte(s) by thread %d conflicts with an earlier %s by thread %d pc=%p%s",
        w ? "write" : "read", sz, t->id, s.write ? "write" : "read", s.tid, pc,
        (a >= 0x100000000000ull && a < 0x110000000000ull) ? " on the heap" : " on a stack or static object");
    violation("race", buf);
}

inline void race_cell(Thread * t, uint64_t a8, uint8_t mask, bool w, bool at, uint64_t a, unsigned sz, void * pc)
{
    Cell & c = page_of(a8 >> 9)->c[a8 & 511];
    if (c.gen != g_gen)
    {
        c.gen = g_gen;
        memset(c.s, 0, sizeof c.s);
    }
    int put = -1;
    uint32_t const clk = t->vc.c[t->id];
    for (int i = 0; i < NS; ++i)
    {
        Slot & s = c.s[i];
        if (s.mask == 0) { if (put < 0) put = i; break; }
        if (s.tid == t->id)
        {
            // already recorded in this epoch: whatever was compared then needs no second look
            if (s.clk == clk && (s.mask & mask) == mask && s.write >= w && s.atomic == at) return;
            if ((s.mask & mask) == s.mask && s.write <= w && s.atomic >= at) put = i;
            continue;
        }
        if (!(s.mask & mask) || !(w || s.write) || (at && s.atomic)) continue;
        if (t->vc.c[s.tid] < s.clk) race_found(t, a, sz, w, s, pc);
        // ordered before us: may be replaced if we cover it
        if ((s.mask & mask) == s.mask && (w || !s.write) && put < 0) put = i;
    }
    if (put < 0) put = (c.rr++) & (NS - 1);
    c.s[put] = Slot{clk, (uint8_t)t->id, mask, (uint8_t)w, (uint8_t)at};
}

void race_range(Thread * t, uint64_t a, uint64_t n, bool w, bool at, void * pc)
{
    ++g_cnt.races_checked;
    // objects of the harness live in the ordinary heap, right after the program's data
    if (a >= (uint64_t)&end && a < ARENA) return;
    uint64_t e = a + n;
    unsigned sz = n > 8 ? 8 : (unsigned)n;
    while (a < e)
    {
        unsigned off = a & 7;
        unsigned k = 8 - off;
        if (k > e - a) k = (unsigned)(e - a);
        race_cell(t, a >> 3, (uint8_t)(((1u << k) - 1) << off), w, at, a, sz, pc);
        a += k;
    }
}

void shadow_clear(uint64_t a, uint64_t n)
{
    uint64_t e = (a + n + 7) >> 3;
    for (uint64_t c = a >> 3; c < e; ++c)
    {
        uint64_t no = c >> 9;
        auto it = g_pages->find(no);
        if (it == g_pages->end() || !it->second) { c = ((no + 1) << 9) - 1; continue; }
        it->second->c[c & 511].gen = 0;
    }
}

// ------------------------------------------------------------ heap
constexpr uint64_t ARENA_SZ = 1ull << 30;
constexpr uint64_t MAX_ONE = 256ull << 20;
uint8_t * g_hshadow = nullptr;       // one byte per 8 bytes: 0 unaddressable, 1..8 bytes valid, 0xFD freed
uint64_t g_top = 0;
AllocSpec g_as;
uint64_t g_seq = 0, g_live_blocks = 0, g_live_bytes = 0, g_alloc_n = 0;
uint64_t g_fail_at = 0;
bool g_fail_persist = false;
bool g_heap_ready = false;

struct Hdr
{
    uint64_t magic;
    uint64_t size;
    uint32_t mode;
    uint32_t tail;                   // what follows the block, repeated
    uint64_t cls;                    // total footprint
    Hdr * next;                      // live list
    Hdr * prev;
    uint64_t pad;
    uint64_t canary;
};
static_assert(sizeof(Hdr) == 64, "");
constexpr uint64_t MAGIC = 0x51A11E5051A11E50ull, FREED = 0xDEADF4EEDEADF4EEull, CANARY = 0xC0DEFACEC0DEFACEull;
Hdr * g_livelist = nullptr;
std::map<uint64_t, std::vector<Hdr *>> * g_free = nullptr;

bool in_arena(void const * p) { return (uint64_t)p >= ARENA && (uint64_t)p < ARENA + ARENA_SZ; }

void set_addr(uint64_t a, uint64_t n, bool ok)
{
    if (!g_instr) return;
    uint8_t * s = g_hshadow + ((a - ARENA) >> 3);
    uint64_t full = n >> 3;
    memset(s, ok ? 8 : 0xFD, full);
    if (n & 7) s[full] = ok ? (uint8_t)(n & 7) : 0xFD;
}

void check_heap(Thread *, uint64_t a, uint64_t n, bool w, void * pc)
{
    uint64_t e = a + n;
    while (a < e)
    {
        uint8_t s = g_hshadow[(a - ARENA) >> 3];
        unsigned off = a & 7;
        unsigned k = 8 - off;
        if (k > e - a) k = (unsigned)(e - a);
        if (s > 8 || off + k > s)
        {
            char buf[200];
            snprintf(buf, sizeof buf, "%s of %llu byte(s) %s pc=%p", w ? "write" : "read", (unsigned long long)n,
                s == 0xFD ? "to freed heap memory" : "outside any live heap block", pc);
            violation("memory", buf);
        }
        a += k;
    }
}

void fill_dirty(uint8_t * p, uint64_t n)
{
    switch (g_as.dirty_mode)
    {
        case 1: memset(p, 0, n); break;
        case 2: memset(p, 0xFF, n); break;
        case 3:
        {
            Rng r(mix(g_as.dirty_seed, g_seq));
            uint64_t i = 0;
            for (; i + 8 <= n; i += 8) { uint64_t v = r.next(); memcpy(p + i, &v, 8); }
            for (; i < n; ++i) p[i] = (uint8_t)r.next();
            break;
        }
        default: memset(p, 0xA5, n);
    }
}

// what a read past the end of a block meets; a write there is noticed when it changes it
uint32_t tail_pattern()
{
    uint64_t r = mix(g_as.dirty_seed ^ 0x7A11, g_seq);
    switch (g_as.dirty_mode)
    {
        case 1: return r % 4 ? 0 : 0xCBCBCBCBu;
        case 2: return r % 4 ? 0xFFFFFFFFu : 0x01010101u;
        case 3: return r % 4 ? (uint32_t)(r >> 20) : 0x01010101u & (uint32_t)(r >> 20);
        default: return 0xCBCBCBCBu;
    }
}

// debugging aid: SIM_TRACE_SEQ=n prints where the n-th block was allocated
uint64_t g_trace_seq = 0;
void trace_alloc()
{
    void * b[40];
    char * fd = getenv("SIM_BTFD");
    backtrace_symbols_fd(b, backtrace(b, 40), fd ? atoi(fd) : 2);
}

void * arena_alloc(uint64_t n, uint64_t align, int mode)
{
    if (mode == 2)
    {
        ++g_alloc_n;
        ++g_cnt.allocs;
        if (g_fail_at && g_alloc_n >= g_fail_at)
        {
            ++g_cnt.oom_fired;
            if (!g_fail_persist) g_fail_at = 0;
            return nullptr;
        }
    }
    if (n > MAX_ONE) return nullptr;
    if (align < 16) align = 16;
    ++g_seq;
    Hdr * h = nullptr;
    uint64_t foot = (n + 32 + 63) & ~63ull;
    auto reuse = [&]
    {
        auto it = g_free->find((foot << 8) | (align >> 4));
        if (it != g_free->end() && !it->second.empty())
        {
            h = it->second.back();
            it->second.pop_back();
        }
    };
    if (g_as.reuse) reuse();
    // where memory is not given out twice: only once the arena is half used up
    else if (g_top > ARENA_SZ / 2) reuse();
    if (!h)
    {
        uint64_t base = ARENA + g_top;
        uint64_t user = (base + sizeof(Hdr) + align - 1) & ~(align - 1);
        if (user + foot > ARENA + ARENA_SZ)
        {
            // not the fault of the code under test: the run ends here, what was seen so far counts
            if (n <= (64u << 20)) _exit(EXHAUSTED);
            return nullptr;
        }
        g_top = (user + foot - ARENA + 63) & ~63ull;
        h = (Hdr *)(user - sizeof(Hdr));
        h->cls = (foot << 8) | (align >> 4);
    }
    h->magic = MAGIC;
    h->size = n;
    h->mode = mode;
    h->pad = g_seq;
    if (g_seq == g_trace_seq) trace_alloc();
    h->canary = CANARY;
    h->prev = nullptr;
    h->next = g_livelist;
    if (g_livelist) g_livelist->prev = h;
    g_livelist = h;
    uint8_t * u = (uint8_t *)(h + 1);
    fill_dirty(u, n);
    h->tail = tail_pattern();
    for (int i = 0; i < 32; ++i) u[n + i] = (uint8_t)(h->tail >> 8 * (i & 3));
    set_addr((uint64_t)u, n, true);
    if (g_instr)
    {
        // partial last granule and red zone
        if (!(n & 7)) g_hshadow[((uint64_t)u + n - ARENA) >> 3] = 0;
    }
    if (g_multi) shadow_clear((uint64_t)u, n ? n : 1);
    if (mode == 2) { ++g_live_blocks; g_live_bytes += n; }
    return u;
}

void verify_block(Hdr * h)
{
    if (h->canary != CANARY) violation("memory", "heap block header overwritten");
    uint8_t * u = (uint8_t *)(h + 1);
    for (int i = 0; i < 32; ++i)
        if (u[h->size + i] != (uint8_t)(h->tail >> 8 * (i & 3))) violation("memory", "write past the end of a heap block of " + std::to_string(h->size) + " bytes");
}

void arena_free(void * p)
{
    Hdr * h = (Hdr *)p - 1;
    if (h->magic == FREED) violation("memory", "double free");
    if (h->magic != MAGIC) violation("memory", "free of a pointer that is not a heap block");
    verify_block(h);
    if (g_multi && self && self->mode) race_range(self, (uint64_t)p, h->size, true, false, __builtin_return_address(0));
    h->magic = FREED;
    if (h->prev) h->prev->next = h->next; else g_livelist = h->next;
    if (h->next) h->next->prev = h->prev;
    if (h->mode == 2) { --g_live_blocks; g_live_bytes -= h->size; }
    if (!g_as.reuse) memset(p, 0xDD, h->size);
    set_addr((uint64_t)p, h->size, false);
    (*g_free)[h->cls].push_back(h);
}

uint64_t g_entropy = 1, g_entropy_n = 0;
unsigned g_cpus = 4, g_cpu_q = 0;

// ------------------------------------------------------------ threads
struct HostMode
{
    Thread * t; int m;
    HostMode() : t(self), m(t ? t->mode : 0) { if (t) t->mode = 0; }
    ~HostMode() { if (t) t->mode = m; }
};

void update_multi()
{
    int n = 0;
    for (int i = 0; i < g_nthreads; ++i)
        if (g_threads[i].st == RUNNABLE || g_threads[i].st == BLOCKED) ++n;
    bool m = n > 1;
    if (m != g_multi)
    {
        g_multi = m;
        if (!m) ++g_gen;             // a single thread left: everything before is ordered
    }
    g_live = n;
}

int real_pthread_create(pthread_t * t, pthread_attr_t const * a, void * (*fn)(void *), void * arg)
{
    using F = int (*)(pthread_t *, pthread_attr_t const *, void * (*)(void *), void *);
    static F f = (F)dlsym(RTLD_NEXT, "pthread_create");
    return f(t, a, fn, arg);
}

// Every thread gets a stack of its own at a fixed place: what an earlier thread left
// behind, and whether it has left yet, must not be visible to later ones.
constexpr uint64_t STACKS = 0x200000000000ull, STACK_SZ = 1 << 20;
int start_thread(Thread * t, void * (*fn)(void *))
{
    void * base = (void *)(STACKS + ((uint64_t)t->id << 24));
    void * p = mmap(base, STACK_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != base) fatal("stack");
    pthread_attr_t a;
    pthread_attr_init(&a);
    pthread_attr_setstack(&a, p, STACK_SZ);
    int r = real_pthread_create(&t->pth, &a, fn, t);
    pthread_attr_destroy(&a);
    return r;
}

void thread_exit_run(Thread * t)     // the thread has nothing left to run now
{
    tick(t);
    t->st = t->worker ? IDLE : DONE;
    wake_all(t);
    update_multi();
    ++t->ev;
    Thread * n = choose(t, true);
    if (!n) deadlock();
    note_switch(t, n);
    release(n);
}

void * worker_main(void * p)
{
    Thread * t = (Thread *)p;
    self = t;
    for (;;)
    {
        park(t);
        int m = t->mode;
        t->fn(t->data);
        t->mode = 0;
        (void)m;
        Team * tm = t->team;
        // implicit barrier at the end of the region: report to the master
        tick(t);
        tm->bar_vc.join(t->vc);
        --tm->running;
        t->st = IDLE;
        t->team = nullptr;
        if (tm->running == 0) wake_all(tm);
        update_multi();
        ++t->ev;
        Thread * n = choose(t, true);
        if (!n) deadlock();
        note_switch(t, n);
        release(n);
    }
    return nullptr;
}

void * caller_main(void * p)
{
    Thread * t = (Thread *)p;
    self = t;
    park(t);
    t->body();
    t->body = nullptr;
    thread_exit_run(t);
    return nullptr;
}

Thread * new_slot()
{
    if (g_nthreads >= MAXT) return nullptr;
    Thread * t = &g_threads[g_nthreads];
    t->id = g_nthreads++;
    t->st = IDLE;
    t->vc = VC();
    t->vc.c[t->id] = 1;
    t->ev = 0;
    t->mode = 0;
    t->go.store(0);
    if (g_spec.policy == P_REPLAY) load_script(t);
    t->prio = (int)g_rng.below(1000) + 1;
    return t;
}

int top_owner(Thread * t) { return t->worker ? t->owner : t->id; }

Thread * get_worker(int owner)
{
    for (int i = 0; i < g_nthreads; ++i)
        if (g_threads[i].worker && g_threads[i].owner == owner && g_threads[i].st == IDLE) return &g_threads[i];
    Thread * t = new_slot();
    if (!t) return nullptr;
    t->worker = true;
    t->owner = owner;
    if (start_thread(t, worker_main)) fatal("pthread_create");
    return t;
}

int grant(int want)
{
    if (want <= 1) return want;
    int n = want;
    switch (g_spec.grant)
    {
        case G_FEWER: n = 1 + (int)g_grng.below(want); break;
        case G_ONE: n = 1; break;
        case G_VARY: n = (g_grng.next() & 1) ? want : 1 + (int)g_grng.below(want); break;
        default: break;
    }
    if (n < want) ++g_cnt.granted_fewer;
    return n;
}

struct TeamScope
{
    Thread * t; Team * saved; int stnum, sws, ssing; void * scur;
    TeamScope(Thread * t, Team * tm) : t(t), saved(t->team), stnum(t->tnum), sws(t->ws_count), ssing(t->single_count), scur(t->cur_ws)
    {
        t->team = tm; t->tnum = 0; t->ws_count = 0; t->single_count = 0; t->cur_ws = nullptr; ++t->nest;
    }
    ~TeamScope()
    {
        t->team = saved; t->tnum = stnum; t->ws_count = sws; t->single_count = ssing; t->cur_ws = scur; --t->nest;
    }
};

// what the simulated system lets a process have
constexpr int MAX_THREADS = 4096;

void run_team(void (*fn)(void *), void * data, unsigned num_threads, WorkShare const * pre)
{
    Thread * t = self;
    if (!t)
    {
        // outside the simulation: run serially
        fn(data);
        return;
    }
    int mode = t->mode;
    t->mode = 0;
    int want = num_threads == 0 ? (int)g_cpus : (int)num_threads;
    if (want > g_maxreq) g_maxreq = want;
    ++g_cnt.regions;
    if (want > MAX_THREADS)
    {
        HostMode hm;
        violation("too-many-threads", "a team of " + std::to_string(want) + " threads was asked for; creating so many fails, and the runtime then ends the process");
    }
    if (t->nest > 0) want = 1;
    int n = grant(want);
    if (n > 16) n = 16;
    Team tm;
    tm.prev = t->team;
    tm.master = t->id;
    if (n > 1)
    {
        for (int i = 1; i < n; ++i)
        {
            Thread * w = get_worker(top_owner(t));
            if (!w) break;
            w->st = RUNNABLE;        // reserve
            tm.members.push_back(w);
        }
        n = (int)tm.members.size() + 1;
    }
    tm.n = n;
    if ((uint64_t)n > g_cnt.max_team) g_cnt.max_team = n;
    g_cnt.team_members += n;
    if (pre) { tm.ws.push_back(*pre); tm.ws.back().nthreads = n; tm.ws.back().left = n; }
    tick(t);
    tm.running = n - 1;
    int k = 1;
    for (Thread * w : tm.members)
    {
        w->vc.join(t->vc);
        tick(w);
        w->fn = fn;
        w->data = data;
        w->team = &tm;
        w->tnum = k++;
        w->ws_count = pre ? 1 : 0;
        w->single_count = 0;
        w->cur_ws = pre ? &tm.ws[0] : nullptr;
        w->nest = 1;
        w->mode = mode;
        if (g_spec.policy == P_PCT) w->prio = (int)g_rng.below(1000) + 1;
    }
    if (g_spec.policy == P_STALL && n > 1)
        g_stalled = g_rng.chance(0.5) ? t->id : tm.members[g_rng.below(n - 1)]->id;
    update_multi();
    {
        TeamScope ts(t, &tm);
        if (pre) { t->ws_count = 1; t->cur_ws = &tm.ws[0]; }
        if (n > 1)
        {
            // who starts first is the scheduler's choice
            ++t->ev;
            Thread * c = choose(t, g_spec.policy == P_REVERSE);
            if (c && c != t) switch_to(t, c);
        }
        t->mode = mode;
        fn(data);
        t->mode = 0;
        while (tm.running > 0) block_on(t, &tm);
    }
    if (n > 1)
    {
        t->vc.join(tm.bar_vc);
        tick(t);
    }
    update_multi();
    t->mode = mode;
}

void team_barrier(Thread * t)
{
    Team * tm = t->team;
    if (!tm || tm->n == 1) return;
    ++g_cnt.barriers;
    tick(t);
    tm->bar_vc.join(t->vc);
    int gen = tm->bar_gen;
    if (++tm->bar_in == tm->n)
    {
        tm->bar_in = 0;
        ++tm->bar_gen;
        wake_all(&tm->bar_gen);
    }
    else
        while (tm->bar_gen == gen) block_on(t, &tm->bar_gen);
    t->vc.join(tm->bar_vc);
    sync_point(t);
}

struct Lock { int owner = -1; VC vc; int depth = 0; };
std::map<void const *, Lock> * g_locks = nullptr;

void lock_acquire(void const * key)
{
    Thread * t = self;
    HostMode hm;
    ++g_cnt.locks;
    sync_point(t);
    Lock & l = (*g_locks)[key];
    while (l.owner != -1)
    {
        if (l.owner == t->id) violation("deadlock", "a thread acquires a lock it already holds");
        ++g_cnt.mutex_blocks;
        block_on(t, &l);
    }
    l.owner = t->id;
    t->vc.join(l.vc);
}
bool lock_try(void const * key)
{
    Thread * t = self;
    HostMode hm;
    sync_point(t);
    Lock & l = (*g_locks)[key];
    if (l.owner != -1) return false;
    l.owner = t->id;
    t->vc.join(l.vc);
    return true;
}
void lock_release(void const * key)
{
    Thread * t = self;
    HostMode hm;
    Lock & l = (*g_locks)[key];
    tick(t);
    l.vc.join(t->vc);
    tick(t);
    l.owner = -1;
    wake_all(&l);
    sync_point(t);
}

struct RwLock { int writer = -1, readers = 0; VC wvc, rvc; };
std::map<void const *, RwLock> * g_rwlocks = nullptr;
bool rw_acquire(void const * key, bool write, bool wait)
{
    Thread * t = self;
    HostMode hm;
    ++g_cnt.locks;
    sync_point(t);
    RwLock & l = (*g_rwlocks)[key];
    while (l.writer != -1 || (write && l.readers))
    {
        if (!wait) return false;
        if (l.writer == t->id) violation("deadlock", "a thread acquires a lock it already holds");
        ++g_cnt.mutex_blocks;
        block_on(t, &l);
    }
    if (write) { l.writer = t->id; t->vc.join(l.rvc); } else ++l.readers;
    t->vc.join(l.wvc);
    return true;
}
void rw_release(void const * key)
{
    Thread * t = self;
    HostMode hm;
    RwLock & l = (*g_rwlocks)[key];
    tick(t);
    if (l.writer == t->id) { l.wvc.join(t->vc); l.writer = -1; }
    else { l.rvc.join(t->vc); if (l.readers) --l.readers; }
    tick(t);
    wake_all(&l);
    sync_point(t);
}
struct Cond { std::deque<bool *> waiting; VC vc; };
std::map<void const *, Cond> * g_conds = nullptr;
bool cond_wait(void const * key, void const * mutex, bool timed)
{
    Thread * t = self;
    HostMode hm;
    Cond & c = (*g_conds)[key];
    bool woken = false;
    c.waiting.push_back(&woken);
    lock_release(mutex);
    if (timed) { for (int i = 0; i < 4 && !woken; ++i) sync_point(t); }
    else while (!woken) block_on(t, &woken);
    for (auto it = c.waiting.begin(); it != c.waiting.end(); ++it) if (*it == &woken) { c.waiting.erase(it); break; }
    t->vc.join(c.vc);
    lock_acquire(mutex);
    return woken;
}
void cond_wake(void const * key, bool all)
{
    Thread * t = self;
    HostMode hm;
    Cond & c = (*g_conds)[key];
    tick(t);
    c.vc.join(t->vc);
    tick(t);
    while (!c.waiting.empty())
    {
        bool * w = c.waiting.front();
        c.waiting.pop_front();
        *w = true;
        wake_all(w);
        if (!all) break;
    }
    sync_point(t);
}

std::map<void const *, VC> * g_syncvc = nullptr;
void sync_acquire(void const * key)
{
    Thread * t = self;
    if (!t || !g_multi) return;
    HostMode hm;
    auto it = g_syncvc->find(key);
    if (it != g_syncvc->end()) t->vc.join(it->second);
}
void sync_release(void const * key)
{
    Thread * t = self;
    if (!t || !g_multi) return;
    HostMode hm;
    tick(t);
    (*g_syncvc)[key].join(t->vc);
    tick(t);
}

inline void access_hook(void const * a, unsigned sz, bool w, bool at, void * pc)
{
    Thread * t = self;
    if (!t || !t->mode) return;
    int m = t->mode;
    t->mode = 0;
    uint64_t x = (uint64_t)a;
    if (g_instr && x >= ARENA && x < ARENA + ARENA_SZ) check_heap(t, x, sz, w, pc);
    if (g_multi)
    {
        race_range(t, x, sz, w, at, pc);
        event(t);
    }
    t->mode = m;
}
void range_hook(void const * a, uint64_t sz, bool w, void * pc)
{
    Thread * t = self;
    if (!t || !t->mode || !sz) return;
    int m = t->mode;
    t->mode = 0;
    uint64_t x = (uint64_t)a;
    if (g_instr && x >= ARENA && x < ARENA + ARENA_SZ) check_heap(t, x, sz, w, pc);
    if (g_multi)
    {
        race_range(t, x, sz, w, false, pc);
        event(t);
    }
    t->mode = m;
}

} // anon

// ------------------------------------------------------------ public
void set_violation_handler(void (*h)(std::string const &, std::string const &)) { g_vh = h; }
void violation(std::string const & cls, std::string const & detail)
{
    if (self) self->mode = 0;
    if (g_vh) g_vh(cls, detail);
    dprintf(2, "VIOLATION-RAW %s: %s\n", cls.c_str(), detail.c_str());
    _exit(66);
}
bool instrumented() { return g_instr; }
void note_instrumented() { g_instr = true; }
Counters & counters() { return g_cnt; }
std::vector<SwitchEntry> const & recorded() { return g_rec; }
uint64_t trace_hash() { return g_hash; }
void mix_trace(uint64_t v) { hash_in(v); }
int max_requested_team() { return g_maxreq; }
void reset_requested_team() { g_maxreq = 0; }
void set_entropy(uint64_t s) { g_entropy = s; g_entropy_n = 0; }
uint64_t entropy_draws() { return g_entropy_n; }
void set_cpus(unsigned n) { g_cpus = n; g_cpu_q = 0; }
unsigned cpu_queries() { return g_cpu_q; }
uint64_t alloc_count() { return g_alloc_n; }
uint64_t live_blocks() { return g_live_blocks; }
uint64_t live_bytes() { return g_live_bytes; }
void oom_arm(uint64_t nth, bool persistent) { g_fail_at = nth ? g_alloc_n + nth : 0; g_fail_persist = persistent; }
void oom_disarm() { g_fail_at = 0; g_fail_persist = false; }
void list_live(uint64_t from)
{
    for (Hdr * h = g_livelist; h; h = h->next)
        if (h->mode == 2 && h->pad > from) dprintf(2, "live block seq %llu size %llu\n", (unsigned long long)h->pad, (unsigned long long)h->size);
}
uint64_t alloc_seq() { return g_seq; }
void heap_verify() { for (Hdr * h = g_livelist; h; h = h->next) verify_block(h); }
int self_tid() { return self ? self->id : -1; }

void init_process()
{
    mallopt(M_ARENA_MAX, 1);
    mallopt(M_MMAP_MAX, 0);
    void * p = mmap((void *)ARENA, ARENA_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != (void *)ARENA) fatal("arena");
    g_hshadow = (uint8_t *)mmap(nullptr, ARENA_SZ / 8 + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (g_hshadow == MAP_FAILED) fatal("shadow");
    g_pages = new std::unordered_map<uint64_t, Page *>;
    g_free = new std::map<uint64_t, std::vector<Hdr *>>;
    g_locks = new std::map<void const *, Lock>;
    g_rwlocks = new std::map<void const *, RwLock>;
    g_conds = new std::map<void const *, Cond>;
    g_syncvc = new std::map<void const *, VC>;
    g_trace_switch = getenv("SIM_TRACE_SW");
    if (getenv("SIM_TRACE_SEQ")) g_trace_seq = atoll(getenv("SIM_TRACE_SEQ"));
    g_heap_ready = true;
}

void begin_run(SchedSpec const & s, AllocSpec const & a)
{
    g_spec = s;
    g_rng = Rng(mix(s.seed, 0x5C4ED));
    g_grng = Rng(mix(s.seed, 0x64A47));
    g_since = 0;
    g_as = a;
    g_top = (a.shift & 0xFFFFF) & ~63ull;
    g_nthreads = 0;
    g_rec.clear();
    g_hash = 0;
    g_gev = 0;
    g_cnt = Counters();
    g_lowprio = 0;
    g_pct.clear();
    for (int i = 0; i < s.depth; ++i) g_pct.push_back(1 + g_rng.below(s.horizon));
    std::sort(g_pct.rbegin(), g_pct.rend());
    new_gap();
    Thread * t = new_slot();
    t->st = RUNNABLE;
    t->caller = true;
    self = t;
    update_multi();
    g_active = true;
}
void end_run() { heap_verify(); g_active = false; }

int spawn(std::function<void()> fn)
{
    Thread * t = self;
    HostMode hm;
    Thread * n = new_slot();
    if (!n) fatal("too many threads");
    n->caller = true;
    n->body = std::move(fn);
    tick(t);
    n->vc.join(t->vc);
    tick(n);
    n->st = RUNNABLE;
    if (start_thread(n, caller_main)) fatal("pthread_create");
    update_multi();
    return n->id;
}

void join(int tid)
{
    Thread * t = self;
    HostMode hm;
    Thread * n = &g_threads[tid];
    while (n->st != DONE) block_on(t, n);
    t->vc.join(n->vc);
    tick(t);
}

Sut::Sut(int mode) : saved(self ? self->mode : 0) { if (self) self->mode = mode; }
Sut::~Sut() { if (self) self->mode = saved; }
Host::Host() : saved(self ? self->mode : 0) { if (self) self->mode = 0; }
Host::~Host() { if (self) self->mode = saved; }

static void * host_alloc(std::size_t n, std::size_t al)
{
    if (al <= 16) return malloc(n ? n : 1);
    void * p = nullptr;
    return posix_memalign(&p, al, n ? n : 1) ? nullptr : p;
}
static void * do_alloc(std::size_t n, std::size_t al)
{
    Thread * t = self;
    if (!t || !t->mode) return host_alloc(n, al);
    int m = t->mode;
    t->mode = 0;
    void * p = arena_alloc(n, al, m);
    if (g_multi) sync_point(t);
    t->mode = m;
    return p;
}
static void do_free(void * p)
{
    if (!p) return;
    if (!in_arena(p)) { free(p); return; }
    Thread * t = self;
    int m = t ? t->mode : 0;
    if (t) t->mode = 0;
    arena_free(p);
    if (t) t->mode = m;
}
void * seg_alloc(std::size_t n) { return do_alloc(n, 16); }

} // namespace rt

// ------------------------------------------------------------ C++ allocation
void * operator new(std::size_t n)
{
    void * p = rt::do_alloc(n, 16);
    if (!p) throw std::bad_alloc();
    return p;
}
void * operator new[](std::size_t n) { return operator new(n); }
void * operator new(std::size_t n, std::nothrow_t const &) noexcept { return rt::do_alloc(n, 16); }
void * operator new[](std::size_t n, std::nothrow_t const &) noexcept { return rt::do_alloc(n, 16); }
void * operator new(std::size_t n, std::align_val_t a)
{
    void * p = rt::do_alloc(n, (std::size_t)a);
    if (!p) throw std::bad_alloc();
    return p;
}
void * operator new[](std::size_t n, std::align_val_t a) { return operator new(n, a); }
void operator delete(void * p) noexcept { rt::do_free(p); }
void operator delete[](void * p) noexcept { rt::do_free(p); }
void operator delete(void * p, std::size_t) noexcept { rt::do_free(p); }
void operator delete[](void * p, std::size_t) noexcept { rt::do_free(p); }
void operator delete(void * p, std::align_val_t) noexcept { rt::do_free(p); }
void operator delete[](void * p, std::align_val_t) noexcept { rt::do_free(p); }
void operator delete(void * p, std::size_t, std::align_val_t) noexcept { rt::do_free(p); }
void operator delete[](void * p, std::size_t, std::align_val_t) noexcept { rt::do_free(p); }

using namespace rt;

extern "C"
{
// ------------------------------------------------------------ C allocation seam (objcopy renames)
void * sim_malloc(size_t n) { void * p = do_alloc(n, 16); if (!p) errno = ENOMEM; return p; }
void sim_free(void * p) { do_free(p); }
void * sim_calloc(size_t a, size_t b)
{
    if (b && a > SIZE_MAX / b) return nullptr;
    void * p = do_alloc(a * b, 16);
    if (p) memset(p, 0, a * b);
    return p;
}
void * sim_realloc(void * p, size_t n)
{
    if (!p) return sim_malloc(n);
    if (!in_arena(p)) return realloc(p, n);
    void * q = do_alloc(n, 16);
    if (!q) return nullptr;
    Hdr * h = (Hdr *)p - 1;
    memcpy(q, p, h->size < n ? h->size : n);
    do_free(p);
    return q;
}
int sim_posix_memalign(void ** out, size_t al, size_t n)
{
    void * p = do_alloc(n, al);
    if (!p) return ENOMEM;
    *out = p;
    return 0;
}
void * sim_aligned_alloc(size_t al, size_t n) { return do_alloc(n, al); }
void * sim_memalign(size_t al, size_t n) { return do_alloc(n, al); }

void * sim_memcpy(void * d, void const * s, size_t n)
{
    range_hook(s, n, false, __builtin_return_address(0));
    range_hook(d, n, true, __builtin_return_address(0));
    return memcpy(d, s, n);
}
void * sim_memmove(void * d, void const * s, size_t n)
{
    range_hook(s, n, false, __builtin_return_address(0));
    range_hook(d, n, true, __builtin_return_address(0));
    return memmove(d, s, n);
}
void * sim_memset(void * d, int c, size_t n)
{
    range_hook(d, n, true, __builtin_return_address(0));
    return memset(d, c, n);
}
int sim_memcmp(void const * a, void const * b, size_t n)
{
    range_hook(a, n, false, __builtin_return_address(0));
    range_hook(b, n, false, __builtin_return_address(0));
    return memcmp(a, b, n);
}

// ------------------------------------------------------------ instrumentation callbacks
void __tsan_init(void) {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit(void) {}
#define PC __builtin_return_address(0)
#define RW(N) \
    void __tsan_read##N(void * a) { access_hook(a, N, false, false, PC); } \
    void __tsan_write##N(void * a) { access_hook(a, N, true, false, PC); } \
    void __tsan_unaligned_read##N(void * a) { access_hook(a, N, false, false, PC); } \
    void __tsan_unaligned_write##N(void * a) { access_hook(a, N, true, false, PC); } \
    void __tsan_volatile_read##N(void * a) { access_hook(a, N, false, false, PC); } \
    void __tsan_volatile_write##N(void * a) { access_hook(a, N, true, false, PC); } \
    void __tsan_unaligned_volatile_read##N(void * a) { access_hook(a, N, false, false, PC); } \
    void __tsan_unaligned_volatile_write##N(void * a) { access_hook(a, N, true, false, PC); } \
    void __tsan_read_write##N(void * a) { access_hook(a, N, true, false, PC); } \
    void __tsan_unaligned_read_write##N(void * a) { access_hook(a, N, true, false, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void * a, unsigned long n) { range_hook(a, n, false, PC); }
void __tsan_write_range(void * a, unsigned long n) { range_hook(a, n, true, PC); }
void __tsan_vptr_update(void ** a, void * v) { access_hook(a, 8, *a != v, false, PC); }
void __tsan_vptr_read(void ** a) { access_hook(a, 8, false, false, PC); }

#define ATOMIC(N, T) \
    T __tsan_atomic##N##_load(T const volatile * a, int mo) { access_hook((void const *)a, sizeof(T), false, true, PC); T v = *a; if (mo) sync_acquire((void const *)a); return v; } \
    void __tsan_atomic##N##_store(T volatile * a, T v, int mo) { access_hook((void const *)a, sizeof(T), true, true, PC); if (mo) sync_release((void const *)a); *a = v; } \
    T __tsan_atomic##N##_exchange(T volatile * a, T v, int mo) { access_hook((void const *)a, sizeof(T), true, true, PC); if (mo) { sync_acquire((void const *)a); sync_release((void const *)a); } T o = *a; *a = v; return o; } \
    T __tsan_atomic##N##_fetch_add(T volatile * a, T v, int mo) { access_hook((void const *)a, sizeof(T), true, true, PC); if (mo) { sync_acquire((void const *)a); sync_release((void const *)a); } T o = *a; *a = o + v; return o; } \
    T __tsan_atomic##N##_fetch_sub(T volatile * a, T v, int mo) { access_hook((void const *)a, sizeof(T), true, true, PC); if (mo) { sync_acquire((void const *)a); sync_release((void const *)a); } T o = *a; *a = o - v; return o; } \
    T __tsan_atomic##N##_fetch_and(T volatile * a, T v, int mo) { access_hook((void const *)a, sizeof(T), true, true, PC); if (mo) { sync_acquire((void const *)a); sync_release((void const *)a); } T o = *a; *a = o & v; return o; } \
    T __tsan_atomic##N##_fetch_or(T volatile * a, T v, int mo) { access_hook((void const *)a, sizeof(T), true, true, PC); if (mo) { sync_acquire((void const *)a); sync_release((void const *)a); } T o = *a; *a = o | v; return o; } \
    T __tsan_atomic##N##_fetch_xor(T volatile * a, T v, int mo) { access_hook((void const *)a, sizeof(T), true, true, PC); if (mo) { sync_acquire((void const *)a); sync_release((void const *)a); } T o = *a; *a = o ^ v; return o; } \
    T __tsan_atomic##N##_fetch_nand(T volatile * a, T v, int mo) { access_hook((void const *)a, sizeof(T), true, true, PC); if (mo) { sync_acquire((void const *)a); sync_release((void const *)a); } T o = *a; *a = ~(o & v); return o; } \
    int __tsan_atomic##N##_compare_exchange_strong(T volatile * a, T * c, T v, int mo, int) { access_hook((void const *)a, sizeof(T), true, true, PC); if (mo) { sync_acquire((void const *)a); sync_release((void const *)a); } if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
    int __tsan_atomic##N##_compare_exchange_weak(T volatile * a, T * c, T v, int mo, int f) { return __tsan_atomic##N##_compare_exchange_strong(a, c, v, mo, f); }
ATOMIC(8, unsigned char)
ATOMIC(16, unsigned short)
ATOMIC(32, unsigned int)
ATOMIC(64, unsigned long)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

// ------------------------------------------------------------ OpenMP seam
void GOMP_parallel(void (*fn)(void *), void * data, unsigned n, unsigned) { run_team(fn, data, n, nullptr); }
void GOMP_parallel_start(void (*)(void *), void *, unsigned) { fatal("GOMP_parallel_start"); }
void GOMP_parallel_end(void) {}

static void par_loop(void (*fn)(void *), void * data, unsigned n, long s, long e, long i, long c, int mode)
{
    WorkShare w;
    w.next = s; w.end = e; w.incr = i; w.chunk = c > 0 ? c : 1; w.mode = mode;
    if (mode == 0) w.chunk = c;
    run_team(fn, data, n, &w);
}
#define PARLOOP(NAME, MODE) \
    void GOMP_parallel_loop_##NAME(void (*fn)(void *), void * d, unsigned n, long s, long e, long i, long c, unsigned) { par_loop(fn, d, n, s, e, i, c, MODE); }
#define PARLOOPR(NAME) \
    void GOMP_parallel_loop_##NAME(void (*fn)(void *), void * d, unsigned n, long s, long e, long i, unsigned) { par_loop(fn, d, n, s, e, i, 1, 1); }
PARLOOP(static, 0) PARLOOP(dynamic, 1) PARLOOP(guided, 2) PARLOOP(nonmonotonic_dynamic, 1) PARLOOP(nonmonotonic_guided, 2)
PARLOOPR(runtime) PARLOOPR(nonmonotonic_runtime) PARLOOPR(maybe_nonmonotonic_runtime)

static bool ws_next(long * is, long * ie)
{
    Thread * t = self;
    HostMode hm;
    WorkShare * w = (WorkShare *)t->cur_ws;
    if (!w) return false;
    sync_point(t);
    long c = w->chunk;
    if (w->mode == 0)
    {
        // static handed out like dynamic blocks of an equal partition
        long total = (w->end - w->next) / w->incr;
        if (c <= 0) { c = (total + w->nthreads - 1) / w->nthreads; if (c < 1) c = 1; }
    }
    else if (w->mode == 2)
    {
        long total = (w->end - w->next + w->incr - (w->incr > 0 ? 1 : -1)) / w->incr;
        long g = total / (w->nthreads > 0 ? w->nthreads : 1);
        if (g > c) c = g;
    }
    bool more = w->incr > 0 ? w->next < w->end : w->next > w->end;
    if (!more) return false;
    *is = w->next;
    long e = w->next + c * w->incr;
    if (w->incr > 0 ? e > w->end : e < w->end) e = w->end;
    *ie = e;
    w->next = e;
    return true;
}
static bool ws_start(long s, long e, long i, long c, int mode, long * is, long * ie)
{
    Thread * t = self;
    {
        HostMode hm;
        if (!t->team)
        {
            // orphaned work share outside a team
            *is = s; *ie = e;
            t->cur_ws = nullptr;
            return i > 0 ? s < e : s > e;
        }
        Team * tm = t->team;
        int k = t->ws_count++;
        if ((int)tm->ws.size() <= k)
        {
            WorkShare w;
            w.next = s; w.end = e; w.incr = i; w.chunk = mode == 0 ? c : (c > 0 ? c : 1); w.mode = mode; w.nthreads = tm->n; w.left = tm->n;
            tm->ws.push_back(w);
        }
        t->cur_ws = &tm->ws[k];
    }
    return ws_next(is, ie);
}
#define LOOP(NAME, MODE) \
    bool GOMP_loop_##NAME##_start(long s, long e, long i, long c, long * is, long * ie) { return ws_start(s, e, i, c, MODE, is, ie); } \
    bool GOMP_loop_##NAME##_next(long * is, long * ie) { return ws_next(is, ie); }
#define LOOPR(NAME) \
    bool GOMP_loop_##NAME##_start(long s, long e, long i, long * is, long * ie) { return ws_start(s, e, i, 1, 1, is, ie); } \
    bool GOMP_loop_##NAME##_next(long * is, long * ie) { return ws_next(is, ie); }
LOOP(static, 0) LOOP(dynamic, 1) LOOP(guided, 2) LOOP(nonmonotonic_dynamic, 1) LOOP(nonmonotonic_guided, 2)
LOOPR(runtime) LOOPR(nonmonotonic_runtime) LOOPR(maybe_nonmonotonic_runtime)
void GOMP_loop_end(void) { if (!self) return; HostMode hm; team_barrier(self); }
void GOMP_loop_end_nowait(void) {}
void GOMP_barrier(void) { if (!self) return; HostMode hm; team_barrier(self); }

unsigned GOMP_sections_next(void)
{
    Thread * t = self;
    HostMode hm;
    WorkShare * w = (WorkShare *)t->cur_ws;
    if (!w) return 0;
    sync_point(t);
    return w->sec_next <= w->sec_count ? w->sec_next++ : 0;
}
unsigned GOMP_sections_start(unsigned count)
{
    Thread * t = self;
    {
        HostMode hm;
        Team * tm = t->team;
        if (!tm) fatal("orphaned sections");
        int k = t->ws_count++;
        if ((int)tm->ws.size() <= k) { WorkShare w; w.sec_count = count; tm->ws.push_back(w); }
        t->cur_ws = &tm->ws[k];
    }
    return GOMP_sections_next();
}
void GOMP_sections_end(void) { HostMode hm; team_barrier(self); }
void GOMP_sections_end_nowait(void) {}
void GOMP_parallel_sections(void (*fn)(void *), void * d, unsigned n, unsigned count, unsigned)
{
    WorkShare w; w.sec_count = count;
    run_team(fn, d, n, &w);
}
bool GOMP_single_start(void)
{
    Thread * t = self;
    if (!t || !t->team) return true;
    HostMode hm;
    Team * tm = t->team;
    int k = t->single_count++;
    while ((int)tm->singles.size() <= k) tm->singles.push_back(0);
    sync_point(t);
    if (tm->singles[k]) return false;
    tm->singles[k] = 1;
    return true;
}
void * GOMP_single_copy_start(void)
{
    bool mine = GOMP_single_start();
    if (mine) return nullptr;
    HostMode hm;
    team_barrier(self);
    return self->team->copyprivate;
}
void GOMP_single_copy_end(void * d)
{
    HostMode hm;
    if (!self->team) return;
    self->team->copyprivate = d;
    team_barrier(self);
}
static char g_crit, g_atom, g_ord;
void GOMP_critical_start(void) { if (self) lock_acquire(&g_crit); }
void GOMP_critical_end(void) { if (self) lock_release(&g_crit); }
void GOMP_critical_name_start(void ** p) { if (self) lock_acquire(p); }
void GOMP_critical_name_end(void ** p) { if (self) lock_release(p); }
void GOMP_atomic_start(void) { if (self) lock_acquire(&g_atom); }
void GOMP_atomic_end(void) { if (self) lock_release(&g_atom); }
void GOMP_ordered_start(void) { if (self) lock_acquire(&g_ord); }
void GOMP_ordered_end(void) { if (self) lock_release(&g_ord); }
void GOMP_task(void (*fn)(void *), void * data, void (*cpy)(void *, void *), long sz, long al, bool, unsigned, void **, int)
{
    if (!cpy) { fn(data); return; }
    std::unique_ptr<char[]> buf(new char[sz + al]);
    char * arg = (char *)(((uintptr_t)buf.get() + al - 1) & ~(uintptr_t)(al - 1));
    cpy(arg, data);
    fn(arg);
}
void GOMP_taskwait(void) {}
void GOMP_taskyield(void) {}
void GOMP_taskgroup_start(void) {}
void GOMP_taskgroup_end(void) {}

int omp_get_num_threads(void) { return self && self->team ? self->team->n : 1; }
int omp_get_thread_num(void) { return self && self->team ? self->tnum : 0; }
int omp_get_max_threads(void) { return (int)g_cpus; }
int omp_get_num_procs(void) { return (int)g_cpus; }
int omp_in_parallel(void) { return self && self->team && self->team->n > 1; }
int omp_get_level(void) { return self ? self->nest : 0; }
int omp_get_active_level(void) { return omp_in_parallel(); }
int omp_get_team_size(int) { return omp_get_num_threads(); }
int omp_get_thread_limit(void) { return INT_MAX; }
void omp_set_num_threads(int) {}
void omp_set_dynamic(int) {}
int omp_get_dynamic(void) { return 0; }
void omp_set_nested(int) {}
int omp_get_nested(void) { return 0; }
void omp_set_max_active_levels(int) {}
int omp_get_max_active_levels(void) { return 1; }
double omp_get_wtime(void) { return (double)g_gev * 1e-9; }
double omp_get_wtick(void) { return 1e-9; }
void omp_init_lock(void * p) { *(void **)p = nullptr; }
void omp_destroy_lock(void *) {}
void omp_set_lock(void * p) { if (self) lock_acquire(p); }
void omp_unset_lock(void * p) { if (self) lock_release(p); }
int omp_test_lock(void * p) { return self ? lock_try(p) : 1; }

// ------------------------------------------------------------ pthread and static-guard seams
#define REAL(NAME) ((decltype(&NAME))dlsym(RTLD_NEXT, #NAME))
int sim_mutex_lock(pthread_mutex_t * m)
{
    if (!self || !self->mode) return pthread_mutex_lock(m);
    lock_acquire(m);
    return 0;
}
int sim_mutex_trylock(pthread_mutex_t * m)
{
    if (!self || !self->mode) return pthread_mutex_trylock(m);
    return lock_try(m) ? 0 : EBUSY;
}
int sim_mutex_unlock(pthread_mutex_t * m)
{
    if (!self || !self->mode) return pthread_mutex_unlock(m);
    lock_release(m);
    return 0;
}
// reader-writer locks and condition variables
int sim_rwlock_rdlock(pthread_rwlock_t * m)
{
    if (!self || !self->mode) return pthread_rwlock_rdlock(m);
    rw_acquire(m, false, true);
    return 0;
}
int sim_rwlock_wrlock(pthread_rwlock_t * m)
{
    if (!self || !self->mode) return pthread_rwlock_wrlock(m);
    rw_acquire(m, true, true);
    return 0;
}
int sim_rwlock_tryrdlock(pthread_rwlock_t * m)
{
    if (!self || !self->mode) return pthread_rwlock_tryrdlock(m);
    return rw_acquire(m, false, false) ? 0 : EBUSY;
}
int sim_rwlock_trywrlock(pthread_rwlock_t * m)
{
    if (!self || !self->mode) return pthread_rwlock_trywrlock(m);
    return rw_acquire(m, true, false) ? 0 : EBUSY;
}
int sim_rwlock_unlock(pthread_rwlock_t * m)
{
    if (!self || !self->mode) return pthread_rwlock_unlock(m);
    rw_release(m);
    return 0;
}
int pthread_cond_wait(pthread_cond_t * c, pthread_mutex_t * m)
{
    static auto real = REAL(pthread_cond_wait);
    if (!self || !self->mode) return real(c, m);
    cond_wait(c, m, false);
    return 0;
}
int pthread_cond_timedwait(pthread_cond_t * c, pthread_mutex_t * m, timespec const * ts)
{
    static auto real = REAL(pthread_cond_timedwait);
    if (!self || !self->mode) return real(c, m, ts);
    return cond_wait(c, m, true) ? 0 : ETIMEDOUT;
}
int pthread_cond_clockwait(pthread_cond_t * c, pthread_mutex_t * m, clockid_t k, timespec const * ts)
{
    static auto real = REAL(pthread_cond_clockwait);
    if (!self || !self->mode) return real(c, m, k, ts);
    return cond_wait(c, m, true) ? 0 : ETIMEDOUT;
}
int pthread_cond_signal(pthread_cond_t * c)
{
    static auto real = REAL(pthread_cond_signal);
    if (!self || !self->mode) return real(c);
    cond_wake(c, false);
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t * c)
{
    static auto real = REAL(pthread_cond_broadcast);
    if (!self || !self->mode) return real(c);
    cond_wake(c, true);
    return 0;
}
// guards of function-local statics
int sim_guard_acquire(uint64_t * g)
{
    Thread * t = self;
    char * b = (char *)g;
    if (!t) { if (b[0]) return 0; b[1] = 1; return 1; }
    HostMode hm;
    sync_point(t);
    for (;;)
    {
        if (b[0]) { sync_acquire(g); return 0; }
        if (!b[1]) { b[1] = 1; return 1; }
        block_on(t, g);
    }
}
void sim_guard_release(uint64_t * g)
{
    char * b = (char *)g;
    if (self) { sync_release(g); }
    b[0] = 1;
    b[1] = 0;
    if (self) { HostMode hm; wake_all(g); }
}
void sim_guard_abort(uint64_t * g)
{
    ((char *)g)[1] = 0;
    if (self) { HostMode hm; wake_all(g); }
}

// threads started by the code under test itself
static void * sut_thread_main(void * p)
{
    Thread * t = (Thread *)p;
    self = t;
    park(t);
    t->mode = 2;
    t->pret = t->pstart(t->parg);
    t->mode = 0;
    thread_exit_run(t);
    return t->pret;
}
int pthread_create(pthread_t * th, pthread_attr_t const * a [[maybe_unused]], void * (*fn)(void *), void * arg)
{
    if (!self || !self->mode) return real_pthread_create(th, a, fn, arg);
    Thread * t = self;
    HostMode hm;
    Thread * n = new_slot();
    if (!n) return EAGAIN;
    n->pstart = fn;
    n->parg = arg;
    tick(t);
    n->vc.join(t->vc);
    tick(n);
    n->st = RUNNABLE;
    int r = start_thread(n, sut_thread_main);
    if (r) { n->st = DONE; return r; }
    *th = n->pth;
    update_multi();
    sync_point(t);
    return 0;
}
int pthread_join(pthread_t th, void ** ret)
{
    static auto real = (int (*)(pthread_t, void **))dlsym(RTLD_NEXT, "pthread_join");
    if (self)
        for (int i = 0; i < g_nthreads; ++i)
            if (g_threads[i].pstart && pthread_equal(g_threads[i].pth, th))
            {
                rt::join(i);
                if (ret) *ret = g_threads[i].pret;
                return real(th, nullptr);
            }
    return real(th, ret);
}
} // extern "C"

// ------------------------------------------------------------ time and process seams
// A simulated clock that jumps by a random amount, sometimes backwards, whenever it is read.
namespace
{
uint64_t g_now = 0, g_now_draws = 0;
uint64_t sim_now()
{
    uint64_t r = mix(g_entropy ^ 0x71AE, ++g_now_draws);
    if (!g_now) g_now = 1000000000000000000ull + (r >> 4);
    else if ((r & 63) == 0) g_now -= (r >> 8) % 5000000000ull;
    else g_now += 1 + (r >> 8) % ((r & 7) == 0 ? 3600000000000ull : 2000000ull);
    return g_now;
}
uint64_t g_crand = 0;
}
extern "C"
{
int sim_clock_gettime(int, struct timespec * ts) { uint64_t n = sim_now(); ts->tv_sec = n / 1000000000ull; ts->tv_nsec = n % 1000000000ull; return 0; }
int sim_gettimeofday(long * tv, void *) { uint64_t n = sim_now(); tv[0] = n / 1000000000ull; tv[1] = n % 1000000000ull / 1000; return 0; }
time_t sim_time(time_t * t) { time_t n = sim_now() / 1000000000ull; if (t) *t = n; return n; }
long sim_clock(void) { return (long)(sim_now() / 1000); }
int sim_rand(void) { return (int)(mix(g_entropy ^ 0xC4A2D, ++g_crand) >> 33); }
long sim_random(void) { return sim_rand(); }
void sim_srand(unsigned) {}
int sim_getpid(void) { return 2 + (int)(mix(g_entropy, 0x91D) % 30000); }
long sim_getrandom(void * p, size_t n, unsigned) { for (size_t i = 0; i < n; ++i) ((char *)p)[i] = (char)mix(g_entropy, ++g_entropy_n); return (long)n; }
int sim_sched_yield(void) { if (self && self->mode) { HostMode hm; sync_point(self); if (g_multi) fairness(self); } return 0; }
int sim_nanosleep(void const *, void *) { g_now += 1000000; return sim_sched_yield(); }
int sim_usleep(unsigned us) { g_now += us * 1000ull; return sim_sched_yield(); }
int sim_pthread_once(pthread_once_t * o, void (*fn)(void))
{
    uint64_t * g = nullptr;
    static std::map<void *, uint64_t> * guards = nullptr;
    {
        Thread * t = self;
        int m = t ? t->mode : 0;
        if (t) t->mode = 0;
        if (!guards) guards = new std::map<void *, uint64_t>;
        g = &(*guards)[o];
        if (t) t->mode = m;
    }
    if (sim_guard_acquire(g))
    {
        try { fn(); } catch (...) { sim_guard_abort(g); throw; }
        sim_guard_release(g);
    }
    return 0;
}
}
std::chrono::_V2::system_clock::time_point std::chrono::_V2::system_clock::now() noexcept
{ return time_point(duration(sim_now())); }
std::chrono::_V2::steady_clock::time_point std::chrono::_V2::steady_clock::now() noexcept
{ return time_point(duration(sim_now())); }

// ------------------------------------------------------------ entropy and machine seams
unsigned int std::random_device::_M_getval()
{
    ++g_entropy_n;
    return (unsigned)mix(g_entropy, g_entropy_n);
}
unsigned int std::thread::hardware_concurrency() noexcept
{
    ++g_cpu_q;
    return g_cpus;
}
