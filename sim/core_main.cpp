// Command line of the simulator: gen, run, explore, minimise.
#include "plan.hpp"
#include <algorithm>
#include <cstdio>
#include <cstring>
#include <ctime>
#include <fstream>
#include <functional>
#include <iostream>
#include <sstream>
#include <sys/personality.h>
#include <unistd.h>

typedef std::string str;

static double wall()
{
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}
static str slurp(str const & p) { std::ifstream f(p); std::stringstream s; s << f.rdbuf(); return s.str(); }
static str hex(uint64_t v) { char b[20]; snprintf(b, sizeof b, "%016llx", (unsigned long long)v); return b; }
static str one_line(str s) { for (auto & c : s) if (c == '\n' || c == '\r') c = ' '; return s; }
static str jstr(str const & s)
{
    str r = "\"";
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r + "\"";
}

static str describe(Scenario const & s)
{
    str d;
    for (auto const & o : s.ops)
    {
        if (!d.empty()) d += "; ";
        d += o.k + " " + std::to_string(o.slot);
        if (o.k == "FIT" || o.k == "PFIT") d += " (" + std::to_string(o.n) + " samples, " + std::to_string(o.x) + " features, " + std::to_string(o.y) + " labels, " + std::to_string(o.epochs) + " epochs)";
        if (o.thr) d += " [caller " + std::to_string(o.thr) + "]";
        if (o.oom >= 0) d += " [allocation failure]";
        if (d.size() > 1500) { d += " ..."; break; }
    }
    return d;
}

// ------------------------------------------------------------ minimiser
struct Min
{
    str cls;
    double until;
    long runs = 0;
    bool fails(Scenario const & s)
    {
        if (wall() > until) return false;
        ++runs;
        Verdict v = run_scenario(s);
        return v.violated && !v.sim_error && v.cls == cls;
    }
    bool attempt(Scenario & s, std::function<void(Scenario &)> f)
    {
        Scenario t = s;
        f(t);
        if (t.text() == s.text()) return false;
        if (!fails(t)) return false;
        s = t;
        return true;
    }
    void ops(Scenario & s)
    {
        for (std::size_t chunk = std::max<std::size_t>(1, s.ops.size() / 2); ; chunk /= 2)
        {
            for (std::size_t i = 0; i < s.ops.size();)
            {
                std::size_t e = std::min(s.ops.size(), i + chunk);
                if (!attempt(s, [&](Scenario & t) { t.ops.erase(t.ops.begin() + i, t.ops.begin() + e); })) i = e;
                if (wall() > until) return;
            }
            if (chunk <= 1) break;
        }
    }
    void programs(Scenario & s)
    {
        for (std::size_t i = s.progs.size(); i-- > 0 && s.progs.size() > 1;)
            attempt(s, [&](Scenario & t)
            {
                t.progs.erase(t.progs.begin() + i);
                for (auto & o : t.ops)
                {
                    unsigned lo = o.mask & ((1u << i) - 1), hi = (o.mask >> (i + 1)) << i;
                    if (o.mask != ~0u) o.mask = lo | hi;
                }
            });
    }
    void values(Scenario & s)
    {
        auto down = [&](long cur, long lo, std::function<void(Scenario &, long)> set)
        {
            while (cur > lo && wall() < until)
            {
                bool hit = false;
                for (long v : {lo, lo + (cur - lo) / 2, cur - 1})
                    if (v < cur && attempt(s, [&](Scenario & t) { set(t, v); })) { cur = v; hit = true; break; }
                if (!hit) break;
            }
        };
        for (std::size_t i = 0; i < s.ops.size(); ++i)
        {
            Op & o = s.ops[i];
            if (o.n > 1) down(o.n, 1, [i](Scenario & t, long v) { t.ops[i].n = (int)v; });
            if (o.epochs > 1 && s.ops[i].cmp) down(o.epochs, 1, [i](Scenario & t, long v) { t.ops[i].epochs = (int)v; });
            if (o.oom >= 0) attempt(s, [i](Scenario & t) { t.ops[i].oom = -1; });
            if (o.oomp) attempt(s, [i](Scenario & t) { t.ops[i].oomp = false; });
            if (o.mode && o.k != "DAMAGE" && o.k != "BAD" && o.k != "MAKEJ" && o.k != "SINK") attempt(s, [i](Scenario & t) { t.ops[i].mode = 0; });
        }
        // feature counts together, so that related calls keep fitting
        long F = 0, L = 0;
        for (auto const & o : s.ops) if (o.k == "FIT" || o.k == "PFIT") { F = std::max(F, o.x); L = std::max(L, o.y); }
        if (F > 1) down(F, 1, [](Scenario & t, long v) { for (auto & o : t.ops) if (o.k != "ENSURE" && o.k != "DAMAGE" && o.k != "SINK" && o.k != "SAVEST" && o.x > v) o.x = v; });
        if (L > 2) down(L, 2, [](Scenario & t, long v) { for (auto & o : t.ops) { if (o.y > v) o.y = v; if (o.labels > v) o.labels = (int)v; } });
        for (std::size_t i = 0; i < s.cfgs.size(); ++i)
        {
            Config & c = s.cfgs[i];
            int q = is_classifier(c.kind) ? 4 : 2;
            if (c.clauses > q) down(c.clauses / q, 1, [i, q](Scenario & t, long v) { t.cfgs[i].clauses = (int)v * q; });
            attempt(s, [i](Scenario & t) { t.cfgs[i].weighted = false; });
            attempt(s, [i](Scenario & t) { t.cfgs[i].boost = false; });
            attempt(s, [i](Scenario & t) { t.cfgs[i].max_weight = INT32_MAX; });
            attempt(s, [i](Scenario & t) { t.cfgs[i].n_jobs = 1; });
            attempt(s, [i](Scenario & t) { t.cfgs[i].counting = "auto"; });
            attempt(s, [i](Scenario & t) { t.cfgs[i].tile = 16; });
            attempt(s, [i](Scenario & t) { t.cfgs[i].verbose = false; });
            attempt(s, [i](Scenario & t) { t.cfgs[i].box_muller = false; });
            attempt(s, [i](Scenario & t) { t.cfgs[i].loss = "MSE"; t.cfgs[i].c1 = 0; });
            attempt(s, [i](Scenario & t) { t.cfgs[i].states = 100; });
            attempt(s, [i](Scenario & t) { t.cfgs[i].threshold = 15; });
            attempt(s, [i](Scenario & t) { t.cfgs[i].s = 2; });
        }
        for (std::size_t i = 0; i < s.progs.size(); ++i)
        {
            attempt(s, [i](Scenario & t) { t.progs[i].sched.grant = rt::G_ALL; });
            attempt(s, [i](Scenario & t) { t.progs[i].alloc = rt::AllocSpec(); t.progs[i].alloc.dirty_mode = 1; });
            attempt(s, [i](Scenario & t) { t.progs[i].stack = 0; });
            if (s.progs[i].n_jobs > 2) attempt(s, [i](Scenario & t) { t.progs[i].n_jobs = 2; });
        }
    }
    void schedule(Scenario & s)
    {
        for (std::size_t i = 0; i < s.progs.size(); ++i)
        {
            if (s.progs[i].sched.policy == rt::P_SEQ) continue;
            if (attempt(s, [i](Scenario & t) { t.progs[i].sched = rt::SchedSpec(); t.progs[i].sched.record = false; })) continue;
            // explicit list of context switches
            exec_want_switches(true);
            Verdict v = run_scenario(s);
            exec_want_switches(false);
            if (v.results.size() <= i) continue;
            Scenario t = s;
            t.progs[i].sched.policy = rt::P_REPLAY;
            t.progs[i].replay = v.results[i].switches;
            if (!fails(t)) continue;
            s = t;
            for (std::size_t g = 0; g < s.progs[i].replay.size(); ++g)
            {
                std::size_t n = s.progs[i].replay[g].size();
                if (attempt(s, [i, g](Scenario & u) { u.progs[i].replay[g].clear(); })) continue;
                for (std::size_t chunk = std::max<std::size_t>(1, n / 2); ; chunk /= 2)
                {
                    for (std::size_t a = 0; a < s.progs[i].replay[g].size();)
                    {
                        auto & l = s.progs[i].replay[g];
                        std::size_t e = std::min(l.size(), a + chunk);
                        if (!attempt(s, [&](Scenario & u) { auto & m = u.progs[i].replay[g]; m.erase(m.begin() + a, m.begin() + e); })) a = e;
                        if (wall() > until) return;
                    }
                    if (chunk <= 1) break;
                }
            }
        }
    }
};

static int cmd_run(str const & path, bool quiet)
{
    Scenario s = Scenario::parse(slurp(path));
    if (s.progs.empty()) { std::cout << "RESULT error empty scenario\n"; return 77; }
    Verdict v = run_scenario(s);
    if (v.sim_error) { std::cout << "RESULT error " << one_line(v.detail) << "\n"; return 77; }
    if (v.violated) { std::cout << "RESULT violated hash=" << hex(v.hash) << " cls=" << v.cls << " detail=" << one_line(v.detail) << "\n"; return 1; }
    std::cout << "RESULT held hash=" << hex(v.hash) << "\n";
    if (!quiet)
    {
        for (std::size_t i = 0; i < v.results.size(); ++i)
            for (auto const & r : v.results[i].recs) printf("  prog %zu op %d out=%s snap=%s %s\n", i, r.tag, hex(r.out).c_str(), hex(r.snap).c_str(), r.text);
    }
    return 0;
}

static int cmd_min(str const & in, str const & out, double budget)
{
    Scenario s = Scenario::parse(slurp(in));
    Verdict v = run_scenario(s);
    if (!v.violated) { std::cout << "RESULT error does not fail\n"; return 77; }
    Min m;
    m.cls = v.cls;
    m.until = wall() + budget;
    std::size_t ops0 = s.ops.size();
    m.programs(s);
    m.ops(s);
    m.programs(s);
    m.values(s);
    m.ops(s);
    m.schedule(s);
    m.ops(s);
    v = run_scenario(s);
    if (!v.violated) { std::cout << "RESULT error minimised scenario does not fail\n"; return 77; }
    std::size_t sw = 0;
    for (auto const & p : s.progs) for (auto const & g : p.replay) sw += g.size();
    std::ofstream f(out);
    f << "# property " << s.prop << ", found with seed " << s.seed << "\n# class " << v.cls << "\n# " << one_line(v.detail) << "\n# hash " << hex(v.hash)
      << "\n# minimised from " << ops0 << " to " << s.ops.size() << " operations in " << m.runs << " runs; " << sw << " forced context switches\n";
    for (auto const & c : s.cfgs) f << "# " << c.text() << "\n";
    f << "# " << describe(s) << "\n" << s.text();
    f.close();
    std::cout << "RESULT violated hash=" << hex(v.hash) << " cls=" << v.cls << " detail=" << one_line(v.detail) << "\n";
    return 0;
}

static int cmd_explore(str const & prop, uint64_t seed, long first, long step, long count, double budget, bool thorough, str const & out)
{
    double t0 = wall();
    std::ofstream f(out);
    std::ofstream hashes(out + ".hashes", std::ios::binary);
    long done = 0, progs = 0;
    std::vector<str> samples;
    int rc = 0;
    for (long i = first; i < count; i += step)
    {
        if (wall() - t0 > budget) break;
        uint64_t sd = rt::mix(seed, (uint64_t)i);
        Scenario s = generate(prop, sd, thorough);
        Verdict v = run_scenario(s);
        if (v.sim_error)
        {
            f << "{\"error\":" << jstr("seed " + std::to_string(sd) + " " + one_line(v.detail)) << "}\n";
            rc = 77;
            std::ofstream g(out + ".bad");
            g << s.text();
            break;
        }
        ++done;
        progs += (long)v.results.size();
        hashes.write((char const *)&v.hash, 8);
        if (samples.size() < 2) samples.push_back("seed " + std::to_string(sd) + ": " + s.cfgs[0].text() + ": " + describe(s));
        if ((i / step) % 16 == 5)
        {
            // one in sixteen executions is repeated and must be identical
            Verdict w = run_scenario(s);
            probe("executions repeated");
            if (w.hash != v.hash || w.violated != v.violated)
            {
                f << "{\"error\":" << jstr("seed " + std::to_string(sd) + " is not repeatable") << "}\n";
                std::ofstream g(out + ".bad");
                g << s.text();
                rc = 77;
                break;
            }
        }
        if (v.violated)
        {
            std::ofstream g(out + ".bad");
            g << s.text();
            f << "{\"violation\":{\"seed\":" << sd << ",\"cls\":" << jstr(v.cls) << ",\"detail\":" << jstr(v.detail) << ",\"hash\":\"" << hex(v.hash) << "\"}}\n";
            rc = 1;
            break;
        }
    }
    f << "{\"done\":" << done << ",\"programs\":" << progs << ",\"wall\":" << wall() - t0 << ",\"samples\":[";
    for (std::size_t i = 0; i < samples.size(); ++i) f << (i ? "," : "") << jstr(samples[i].substr(0, 700));
    f << "],\"probes\":{";
    bool c = false;
    for (auto const & p : probe_totals()) { f << (c ? "," : "") << jstr(p.first) << ":" << p.second; c = true; }
    f << "}}\n";
    return rc;
}

int main(int argc, char ** argv)
{
    // fixed addresses: a run depends on nothing but its seed
    int p = personality(0xffffffff);
    if (p != -1 && !(p & ADDR_NO_RANDOMIZE) && !getenv("SIM_REEXEC"))
    {
        setenv("SIM_REEXEC", "1", 1);
        if (personality((unsigned)p | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
    }
    std::vector<str> a(argv + 1, argv + argc);
    if (a.empty()) { std::cerr << "usage: gen|run|explore|minimise\n"; return 2; }
    rt::init_process();
    exec_init();
    if (a[0] == "gen") { std::cout << generate(a[1], strtoull(a[2].c_str(), 0, 10), false).text(); return 0; }
    if (a[0] == "run") return cmd_run(a[1], a.size() < 3);
    if (a[0] == "minimise") return cmd_min(a[1], a[2], atof(a[3].c_str()));
    if (a[0] == "explore")
        return cmd_explore(a[1], strtoull(a[2].c_str(), 0, 10), atol(a[3].c_str()), atol(a[4].c_str()), atol(a[5].c_str()), atof(a[6].c_str()), a[7] == "1", a[8]);
    return 2;
}
