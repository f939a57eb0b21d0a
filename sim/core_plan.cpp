#include "plan.hpp"
#include <cstdio>
#include <cstring>
#include <sstream>

static std::string d2s(double v) { char b[40]; snprintf(b, sizeof b, "%.17g", v); return b; }

std::string Scenario::text() const
{
    std::ostringstream o;
    o << "scenario prop=" << prop << " seed=" << seed << " family=" << (family.empty() ? "-" : family) << " checks=" << checks
      << " iw=" << ignore_width << " ir=" << ignore_rng << "\n";
    if (!ignore.empty()) o << "ignore " << ignore << "\n";
    for (auto const & c : cfgs)
    {
        o << "cfg kind=" << c.kind << " clauses=" << c.clauses << " states=" << c.states << " s=" << d2s(c.s) << " T=" << c.threshold
          << " weighted=" << c.weighted << " maxw=" << c.max_weight << " boost=" << c.boost << " jobs=" << c.n_jobs << " verbose=" << c.verbose
          << " counting=" << c.counting << " tile=" << c.tile << " loss=" << c.loss << " c1=" << d2s(c.c1) << " bm=" << c.box_muller
          << " hasseed=" << c.has_seed << " seed=" << c.seed << "\n";
    }
    for (auto const & p : progs)
    {
        o << "prog policy=" << p.sched.policy << " sseed=" << p.sched.seed << " gap=" << p.sched.mean_gap << " depth=" << p.sched.depth
          << " horizon=" << p.sched.horizon << " grant=" << p.sched.grant << " dseed=" << p.alloc.dirty_seed << " dmode=" << p.alloc.dirty_mode
          << " reuse=" << p.alloc.reuse << " shift=" << p.alloc.shift << " entropy=" << p.entropy << " cpus=" << p.cpus << " stack=" << p.stack
          << " jobs=" << p.n_jobs << " tile=" << p.tile << " verbose=" << p.verbose << " counting=" << (p.counting.empty() ? "-" : p.counting)
          << " faults=" << p.faults << "\n";
        if (p.sched.policy == rt::P_REPLAY)
            for (std::size_t s = 0; s < p.replay.size(); ++s)
                for (auto const & e : p.replay[s]) o << "switch seg=" << s << " tid=" << e.tid << " ev=" << e.ev << " to=" << e.to << "\n";
    }
    Op d;
    for (auto const & p : ops)
    {
        o << "op id=" << p.id << " k=" << p.k << " slot=" << p.slot;
        if (p.slot2 != d.slot2) o << " slot2=" << p.slot2;
        if (p.cfg != d.cfg) o << " cfg=" << p.cfg;
        if (p.seed != d.seed) o << " seed=" << p.seed;
        if (p.n != d.n) o << " n=" << p.n;
        if (p.epochs != d.epochs) o << " epochs=" << p.epochs;
        if (p.labels != d.labels) o << " labels=" << p.labels;
        if (p.mode != d.mode) o << " mode=" << p.mode;
        if (p.thr != d.thr) o << " thr=" << p.thr;
        if (p.mask != d.mask) o << " mask=" << p.mask;
        if (p.cmp != d.cmp) o << " cmp=" << p.cmp;
        if (p.snap != d.snap) o << " snap=" << p.snap;
        if (p.oom >= 0) o << " oom=" << d2s(p.oom) << " oomp=" << p.oomp;
        if (p.x) o << " x=" << p.x;
        if (p.y) o << " y=" << p.y;
        if (p.z) o << " z=" << p.z;
        o << "\n";
    }
    return o.str();
}

Scenario Scenario::parse(std::string const & txt)
{
    Scenario s;
    std::istringstream in(txt);
    std::string line;
    while (std::getline(in, line))
    {
        if (line.empty() || line[0] == '#') continue;
        std::istringstream l(line);
        std::string head, w;
        l >> head;
        if (head == "ignore") { s.ignore = line.size() > 7 ? line.substr(7) : ""; continue; }
        std::map<std::string, std::string> m;
        while (l >> w)
        {
            auto e = w.find('=');
            if (e != std::string::npos) m[w.substr(0, e)] = w.substr(e + 1);
        }
        auto I = [&](char const * k, long long d = 0) { auto it = m.find(k); return it == m.end() ? d : strtoll(it->second.c_str(), nullptr, 10); };
        auto U = [&](char const * k) { auto it = m.find(k); return it == m.end() ? 0ull : strtoull(it->second.c_str(), nullptr, 10); };
        auto D = [&](char const * k, double d = 0) { auto it = m.find(k); return it == m.end() ? d : strtod(it->second.c_str(), nullptr); };
        if (head == "scenario")
        {
            s.prop = m["prop"]; s.seed = U("seed"); s.family = m["family"]; s.checks = I("checks");
            s.ignore_width = I("iw"); s.ignore_rng = I("ir");
        }
        else if (head == "cfg")
        {
            Config c;
            c.kind = I("kind"); c.clauses = I("clauses"); c.states = I("states"); c.s = (float)D("s"); c.threshold = I("T");
            c.weighted = I("weighted"); c.max_weight = I("maxw"); c.boost = I("boost"); c.n_jobs = I("jobs"); c.verbose = I("verbose");
            c.counting = m["counting"]; c.tile = I("tile"); c.loss = m["loss"]; c.c1 = (float)D("c1"); c.box_muller = I("bm");
            c.has_seed = I("hasseed"); c.seed = (uint32_t)U("seed");
            s.cfgs.push_back(c);
        }
        else if (head == "prog")
        {
            ProgSpec p;
            p.sched.policy = I("policy"); p.sched.seed = U("sseed"); p.sched.mean_gap = I("gap"); p.sched.depth = I("depth");
            p.sched.horizon = U("horizon"); p.sched.grant = I("grant"); p.alloc.dirty_seed = U("dseed"); p.alloc.dirty_mode = I("dmode");
            p.alloc.reuse = I("reuse"); p.alloc.shift = U("shift"); p.entropy = U("entropy"); p.cpus = I("cpus"); p.stack = I("stack");
            p.n_jobs = I("jobs"); p.tile = I("tile"); p.verbose = I("verbose"); p.counting = m["counting"] == "-" ? "" : m["counting"];
            p.faults = I("faults", 1);
            s.progs.push_back(p);
        }
        else if (head == "switch" && !s.progs.empty())
        {
            auto & r = s.progs.back().replay;
            std::size_t seg = I("seg");
            if (r.size() <= seg) r.resize(seg + 1);
            r[seg].push_back({(int)I("tid"), U("ev"), (int)I("to")});
        }
        else if (head == "op")
        {
            Op p;
            p.id = I("id"); p.k = m["k"]; p.slot = I("slot"); p.slot2 = I("slot2"); p.cfg = I("cfg"); p.seed = U("seed"); p.n = I("n");
            p.epochs = I("epochs"); p.labels = I("labels", -1); p.mode = I("mode"); p.thr = I("thr");
            p.mask = m.count("mask") ? (unsigned)U("mask") : ~0u;
            p.cmp = I("cmp", 1); p.snap = I("snap", 1); p.oom = D("oom", -1); p.oomp = I("oomp"); p.x = I("x"); p.y = I("y"); p.z = I("z");
            s.ops.push_back(p);
        }
    }
    return s;
}
