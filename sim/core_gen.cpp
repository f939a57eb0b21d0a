// Scenario generators: one seed is one scenario.
#include "plan.hpp"
#include <algorithm>
#include <climits>

using rt::Rng;

bool needs_instrumented(std::string const & p)
{
    return p == "C01" || p == "C02" || p == "C03" || p == "C06" || p == "C07" || p == "C08";
}

namespace
{
// permille that the median of the trained models has to reach
constexpr int WANT_PARITY_W = 960, WANT_PARITY = 880, WANT_PROTO = 950, WANT_LEVELS = 835;

struct Gen
{
    Scenario s;
    Rng r;
    int id = 1;
    bool inst, deep;
    Gen(std::string const & prop, uint64_t seed, bool thorough) : r(rt::mix(seed, 0x5CE + prop[1] * 256 + prop[2])), inst(needs_instrumented(prop)), deep(thorough)
    {
        s.prop = prop;
        s.seed = seed;
        s.ops.reserve(2000);
    }
    Op & op(char const * k, int slot)
    {
        Op o;
        o.id = id++;
        o.k = k;
        o.slot = slot;
        o.seed = r.next() >> 1;
        s.ops.push_back(o);
        return s.ops.back();
    }
    // ---------------------------------------------------------- values
    int kind() { return (int)r.below(4); }
    int features(int k, bool big)
    {
        switch (r.below(big ? 10 : 8))
        {
            case 0: return r.range(1, 4);
            case 1: return r.range(5, 12);
            case 2: case 3: return r.range(6, 24);
            case 4: return r.pick({15, 16, 17, 31, 32, 33, 47, 48, 49});
            case 5: return r.pick({63, 64, 65, 66, 70});
            case 6: return inst ? r.pick({20, 40, 64, 65}) : r.pick({96, 127, 128, 129, 130, 160});
            case 7: return r.range(3, inst || r.chance(0.7) ? 40 : 140);
            case 8: return r.chance(0.3) ? r.range(100, 420) : r.pick({127, 128, 129, 130, 191, 192, 193, 256, 257, 300});
            default:
                if (is_bitwise(k) && r.chance(0.25)) return r.pick({4096, 4097, 4160, 8191, 8192, 8193, 8256, 8300});
                return is_bitwise(k) ? r.pick({1025, 1030, 1100, 2049, 2100}) : r.pick({257, 300, 513});
        }
    }
    Config config(int k, bool plain = false)
    {
        Config c;
        c.kind = k;
        c.clauses = is_classifier(k) ? 4 * r.pick({1, 1, 2, 3, 3, 5}) : 2 * r.pick({1, 2, 3, 5, 8, 11, 17});
        c.states = plain ? r.pick({10, 50, 100, 127}) : r.pick({1, 1, 2, 3, 4, 10, 50, 100, 126, 127, 128, 129, 200, 255, 256, 32766, 32767, 32768, 32769, 65535, 65536, 100000, INT_MAX});
        c.s = r.pick({1.0f, 1.1f, 1.5f, 2.0f, 2.0f, 3.0f, 3.9f, 3.9f, 7.5f, 20.0f, 150.0f, 1e6f});
        if (r.chance(0.35)) c.s = 1.0f + (float)(r.unit() * r.pick({1.0, 4.0, 30.0, 5000.0}));
        c.threshold = r.pick({1, 2, 3, 5, 8, 15, 15, 40, 200, 100000});
        if (r.chance(0.2)) c.clauses = is_classifier(k) ? 4 * r.range(1, inst ? 6 : 12) : 2 * r.range(1, inst ? 16 : 40);
        if (r.chance(0.2)) c.states = r.range(1, 300);
        if (r.chance(0.2)) c.threshold = r.range(1, 60);
        if (!is_classifier(k) && c.threshold > 1000) c.threshold = 1000;
        if (r.chance(0.03)) c.threshold = r.pick({INT_MAX, INT_MAX - 1, 1 << 30, 2000000000});
        c.weighted = r.chance(0.55);
        c.max_weight = r.pick({INT_MAX, INT_MAX, 1, 2, 3, 5, 100});
        if (r.chance(0.1)) c.max_weight = r.range(1, 40);
        c.boost = r.chance(0.4);
        c.n_jobs = 1;
        c.counting = r.chance(0.6) ? std::string("auto") : std::string(r.pick({"int8", "int16", "int32"}));
        c.tile = r.pick({16, 16, 32, 64, 128});
        c.loss = r.pick({"MSE", "MAE", "L2", "L1", "L1+2", "berHu", "MSE"});
        c.c1 = r.pick({0.0f, 0.1f, 0.25f, 0.5f, 1.0f, 0.0f});
        if (r.chance(0.35)) c.c1 = (float)r.unit();
        c.box_muller = r.chance(0.4);
        if ((long)F * (is_classifier(k) ? L : 1) * c.clauses > 40000) c.clauses = is_classifier(k) ? 4 * r.range(1, 2) : 2 * r.range(1, 6);
        c.seed = r.chance(0.1) ? (uint32_t)r.pick({0u, 1u, 0x7fffffffu, 0x80000000u, 0xffffffffu}) : (uint32_t)r.next();
        return c;
    }
    Config relative(Config c)
    {
        Config d = config(c.kind);
        for (int i = r.range(0, 3); i > 0; --i)
            switch (r.below(10))
            {
                case 0: c.clauses = d.clauses; break;
                case 1: c.states = d.states; break;
                case 2: c.s = d.s; break;
                case 3: c.threshold = d.threshold; break;
                case 4: c.weighted = d.weighted; break;
                case 5: c.max_weight = d.max_weight; break;
                case 6: c.boost = d.boost; break;
                case 7: c.counting = d.counting; break;
                case 8: c.tile = d.tile; break;
                default: c.loss = d.loss; c.c1 = d.c1; break;
            }
        if (r.chance(0.7)) c.seed = d.seed;
        if (r.chance(0.1)) c.box_muller = d.box_muller;
        return c;
    }
    rt::SchedSpec sched()
    {
        rt::SchedSpec p;
        p.policy = r.pick({rt::P_RANDOM, rt::P_RANDOM, rt::P_RANDOM, rt::P_PCT, rt::P_PCT, rt::P_REVERSE, rt::P_STALL});
        p.seed = r.next() >> 1;
        p.mean_gap = r.pick({3, 10, 40, 200, 1000});
        p.depth = r.range(1, 6);
        p.horizon = r.pick({500, 3000, 20000, 150000});
        p.grant = r.pick({rt::G_ALL, rt::G_ALL, rt::G_ALL, rt::G_FEWER, rt::G_VARY, rt::G_ONE});
        p.record = false;
        return p;
    }
    rt::AllocSpec alloc()
    {
        rt::AllocSpec a;
        a.dirty_seed = r.next() >> 1;
        a.dirty_mode = (int)r.below(4);
        a.reuse = r.chance(0.4);
        a.shift = r.below(1 << 16) * 64;
        return a;
    }
    ProgSpec prog(bool scheduled)
    {
        ProgSpec p;
        if (scheduled) p.sched = sched();
        p.alloc = alloc();
        p.entropy = r.next() >> 1;
        p.cpus = (unsigned)r.range(1, 9);
        p.stack = (int)r.pick({0, 0xA5, 0xFF, 1});
        return p;
    }
    ProgSpec & base()
    {
        ProgSpec p;
        p.sched.record = false;
        p.alloc.dirty_mode = 1;
        s.progs.push_back(p);
        return s.progs.back();
    }
    // ---------------------------------------------------------- calls
    int F = 8, L = 2, T = 15, N = 8;
    void shape(int k, bool big)
    {
        F = features(k, big);
        L = r.pick({2, 2, 3, 3, 4, 6});
        if (r.chance(0.04)) L = 12;
        else if (r.chance(0.08)) L = r.range(5, inst ? 10 : 36);
        N = r.range(1, 10);
        if (inst && F > 60) N = std::min(N, 4);
        if (F > 500) N = std::min(N, 3);
    }
    void small(Config & c)     // keep instrumented runs short
    {
        if (F > 60 || L > 4) c.clauses = is_classifier(c.kind) ? 4 * r.range(1, 2) : 2 * r.range(1, 6);
    }
    // shapes beyond what small index types hold
    int wide = 0;
    // how many calls a history consists of; a few are long ones
    int length(int lo, int hi)
    {
        if (inst || wide || !r.chance(0.03)) return r.range(lo, hi);
        F = std::min(F, 24);
        N = std::min(N, 4);
        return r.range(20, 80);
    }
    void extreme(Config & c, double p)
    {
        if (inst || !r.chance(p)) return;
        bool cls = is_classifier(c.kind);
        F = r.pick({1, 2, 3, 5, 8});
        N = r.range(1, 3);
        wide = 1 + (int)r.below(cls ? 4 : 3);
        if (wide == 1) c.clauses = cls ? 4 * r.pick({33, 65, 70, 129, 150}) : 2 * r.pick({65, 129, 150, 300, 1100});
        else if (wide == 2) N = r.pick({130, 257, 300, 520});
        else if (wide == 3) N = 2;          // many epochs
        else { L = r.pick({127, 128, 130, 256, 257, 300}); c.clauses = 4; }
        if (r.chance(0.12))         // beyond 16 bits
        {
            int w = (int)r.below(cls ? 3 : 2);
            F = r.range(1, 2);
            N = r.range(1, 2);
            wide = 5;
            L = 2;
            c.clauses = cls ? 4 : 2;
            if (w == 0) F = r.pick({32768, 65535, 65536, 65537, 70000});
            else if (w == 1) c.clauses = cls ? 4 * r.pick({8192, 8200, 16384, 16400}) : 2 * r.pick({16384, 32768, 32800, 65536, 65600});
            else L = r.pick({32768, 32769, 65536, 65537, 70000});
        }
    }
    Op & train(char const * k, int slot, int epochs = -2)
    {
        Op & o = op(k, slot);
        o.n = r.chance(0.15) ? 1 : r.range(1, std::max(1, N));
        o.x = F;
        o.y = L;
        o.labels = r.chance(0.9) ? L : L + r.range(1, 2);
        o.epochs = epochs >= -1 ? epochs : r.pick({1, 1, 1, 2, 2, 3, 5, 0});
        if (epochs == -2 && !inst && F <= 40 && r.chance(0.02)) o.epochs = 100;     // the default
        o.mode = (int)r.pick({0, 1, 1, 2, 3, 4});
        if (std::string(k) == "PFIT" && r.chance(0.3)) o.mode = 9;
        if (wide == 2 && r.chance(0.6)) o.n = N;
        if (wide == 3 && epochs == -2 && r.chance(0.6)) o.epochs = r.pick({129, 256, 257, 300, 515});
        return o;
    }
    Op & query(int slot)
    {
        Op & o = op(r.pick({"PREDN", "PREDN", "PRED1", "DECN", "DECN", "DEC1", "EVAL", "PARAMS"}), slot);
        o.n = r.range(1, 6);
        o.x = F;
        o.y = L;
        o.mode = (int)r.pick({0, 1, 9, 9, 9, 3});
        if (wide == 2 && r.chance(0.6)) o.n = N;
        return o;
    }
    Op & surg(int slot)
    {
        Op & o = op("SURG", slot);
        o.mode = 1;
        if (r.chance(0.4)) o.mode |= 2;
        if (r.chance(0.6)) o.mode |= 4;
        if (r.chance(0.4)) o.mode |= 8;
        if (r.chance(0.2)) o.mode |= 16;
        if (r.chance(F > 200 ? 0.8 : 0.3)) o.mode |= 32;
        if (r.chance(0.15)) o.mode &= ~1;
        if (r.chance(L > 12 ? 0.6 : 0.1)) o.mode |= 128;
        return o;
    }
    void reshape(int k) { if (!wide && r.chance(0.25)) shape(k, !inst); }
    void damage_ops(int slot, int slot2, int n)
    {
        for (int i = 0; i < n; ++i)
        {
            Op & o = op("DAMAGE", slot);
            o.slot2 = slot2;
            o.mode = (int)r.pick({0, 1, 2, 3, 4, 4, 4, 5, 5, 6, 6, 7, 7, 8, 9, 10, 11, 12, 13, 14, 14, 15, 15});
            o.x = (long)r.pick({0, 0, 1, 1, 2});
        }
    }
    // a step of an arbitrary history on a slot; every call acceptable
    void step(int slot, int k, bool handover)
    {
        switch (r.below(handover ? 13 : 9))
        {
            case 0: reshape(k); train("FIT", slot); break;
            case 1: case 2: case 3: train("PFIT", slot); break;
            case 4: case 5: case 6: query(slot); break;
            case 7: surg(slot); break;
            case 8: { Op & o = train("PFIT", slot); o.mode = 9; query(slot); break; }
            case 9: { op("CLONE", slot).slot2 = 8; Op & o = op("FROMST", slot); o.slot2 = 8; break; }
            case 10: { op("SAVEST", slot).slot2 = 8; Op & o = op("LOAD", slot); o.slot2 = 8; o.mode = r.chance(0.5); break; }
            case 11: { Op & o = op("MOVE", 7); o.slot2 = slot; Op & q = op("MOVE", slot); q.slot2 = 7; break; }
            default: { op("CLONE", slot).slot2 = 8; Op & o = op("FROMST", 7); o.slot2 = 8; train("FIT", 7); Op & m = op("MOVE", slot); m.slot2 = 7; m.mode = 1; break; }
        }
    }

    // ---------------------------------------------------------- properties
    void c01()
    {
        int k = kind();
        shape(k, r.chance(0.15));
        Config c = config(k);
        small(c);
        bool crowd = r.chance(0.06);     // many workers, each with a few clauses
        if (crowd)
        {
            F = r.range(1, 20); N = r.range(1, 3);
            c.clauses = is_classifier(k) ? 4 * r.range(9, 36) : 2 * r.range(18, 72);
        }
        s.cfgs.push_back(c);
        s.checks = CK_TEAM | CK_INV;
        s.ignore = "n_jobs";
        base().n_jobs = 1;
        int np = r.range(1, 3);
        for (int i = 0; i < np; ++i)
        {
            ProgSpec p = prog(true);
            p.n_jobs = r.chance(0.02) ? r.pick({5000, 1000000, INT_MAX}) : crowd ? r.range(9, 72) : (int)r.pick({2, 2, 3, 4, 5, 7, 8, -1});
            s.progs.push_back(p);
        }
        op("MAKE", 0);
        Op & f = train("FIT", 0);
        if (f.epochs == 0) f.epochs = 1;
        int m = r.range(1, 5);
        for (int i = 0; i < m; ++i)
        {
            switch (r.below(5))
            {
                case 0: surg(0); break;
                case 1: case 2: train("PFIT", 0, r.range(1, 2)); break;
                case 3: reshape(k); train("FIT", 0, 1); break;
                default: query(0);
            }
        }
        query(0).k = is_classifier(k) ? "DECN" : "PREDN";
    }

    void c02()
    {
        s.checks = CK_INV;
        if (r.chance(0.7))
        {
            s.family = "callers";
            int nt = r.range(2, 3);
            // often the estimators are close relatives: what they might share is then easily taken for one's own
            bool kin = r.chance(0.4);
            for (int t = 0; t < nt; ++t)
            {
                int k = t && r.chance(0.5) ? s.cfgs[0].kind : kind();
                Config c = config(k);
                if (kin) c = t ? relative(s.cfgs[0]) : c;
                if (kin && t == 0 && !is_classifier(k)) c.box_muller = r.chance(0.6);
                if (c.clauses > 12) c.clauses = 12;
                c.n_jobs = (int)r.pick({1, 1, 1, 2, 3});
                c.verbose = r.chance(0.15);
                s.cfgs.push_back(c);
            }
            base();
            ProgSpec solo = prog(false);
            s.progs.push_back(solo);
            int np = r.range(1, 2);
            for (int i = 0; i < np; ++i) { s.progs.push_back(prog(true)); s.progs.back().sched.grant = rt::G_ALL; }
            int solo_t = (int)r.below(nt);
            // every caller thread does its own history on its own slots
            for (int t = 0; t < nt; ++t)
            {
                int k = s.cfgs[t].kind, sl = t * 3 + 1;
                std::size_t b = s.ops.size();
                if (!kin || t == 0 || r.chance(0.2))
                {
                    shape(k, false);
                    N = std::min(N, 3);
                    if (F > 24 && r.chance(0.8)) F = r.range(1, 24);
                    L = std::min(L, 4);
                }
                op("MAKE", sl).cfg = t;
                train("FIT", sl, 1);
                int m = r.range(1, 4);
                for (int i = 0; i < m; ++i)
                    switch (r.below(9))
                    {
                        case 0: train("FIT", sl, 1); break;
                        case 1: case 2: train("PFIT", sl, 1); break;
                        case 3: { op("CLONE", sl).slot2 = sl + 1; Op & o = op("FROMST", sl + 1); o.slot2 = sl + 1; query(sl + 1); if (r.chance(0.5)) op("DROP", sl + 1); break; }
                        case 4: if (r.chance(0.4)) { op("SAVEST", sl).slot2 = sl + 1; Op & o = op("LOAD", sl); o.slot2 = sl + 1; break; } // fallthrough
                        case 5: { Op & o = op("MOVE", sl + 1); o.slot2 = sl; Op & q = op("MOVE", sl); q.slot2 = sl + 1; break; }
                        default: query(sl);
                    }
                query(sl).k = "PREDN";
                for (std::size_t i = b; i < s.ops.size(); ++i)
                {
                    s.ops[i].thr = t + 1;
                    if (t != solo_t) s.ops[i].mask = ~2u;
                }
            }
        }
        else
        {
            s.family = "copies";
            int k = kind();
            Config c = config(k);
            c.n_jobs = r.range(1, 2);
            shape(k, false);
            if (F > 40) F = r.range(1, 40);
            N = std::min(N, 4);
            small(c);
            s.cfgs.push_back(c);
            base();
            s.progs.push_back(prog(true));
            s.progs.push_back(prog(true));
            op("MAKE", 0);
            if (r.chance(0.9)) train("FIT", 0);
            if (r.chance(0.3)) surg(0);
            // second estimator out of the first
            int how = (int)r.below(3);
            if (how == 0) { op("CLONE", 0).slot2 = 1; Op & o = op("FROMST", 2); o.slot2 = 1; o.mode = 1; }
            else if (how == 1) { op("SAVEST", 0).slot2 = 1; Op & o = op("LOAD", 2); o.slot2 = 1; }
            else { op("CLONE", 0).slot2 = 1; op("FROMST", 2).slot2 = 1; op("CLONE", 2).slot2 = 1; }
            // two chains of calls; program 1 runs only the first, program 2 only the second
            int FF[2] = {F, F};
            int m = r.range(3, 7);
            for (int i = 0; i < m; ++i)
            {
                int which = (int)r.below(2), sl = which ? 2 : 0;
                std::size_t b = s.ops.size();
                F = FF[which];
                switch (r.below(7))
                {
                    case 0: if (r.chance(0.5)) F = FF[which] = r.range(1, 40); train("FIT", sl, 1); break;
                    case 1: case 2: train("PFIT", sl); break;
                    case 3: surg(sl); break;
                    case 4: { Op & o = op("MOVE", sl + 4); o.slot2 = sl; Op & q = op("MOVE", sl); q.slot2 = sl + 4; break; }
                    case 5: if (i > m / 2 && which == 0) { op("DROP", 0); break; } // fallthrough
                    default: query(sl);
                }
                for (std::size_t j = b; j < s.ops.size(); ++j) s.ops[j].mask = which ? ~2u : ~4u;
            }
            { Op & o = op("STCHECK", 1); o.mask = ~0u; }
            F = FF[1];
            { Op & o = query(2); o.k = "PREDN"; o.mask = ~2u; Op & q = op("OBS", 2); q.mask = ~2u; }
            F = FF[0];
            { Op & o = query(0); o.k = "PREDN"; o.mask = ~4u; Op & q = op("OBS", 0); q.mask = ~4u; }
        }
    }

    void c03()
    {
        int k = kind();
        shape(k, false);
        Config c = config(k);
        small(c);
        c.n_jobs = (int)r.pick({1, 1, 2, 3});
        c.verbose = r.chance(0.1);
        s.cfgs.push_back(c);
        s.checks = CK_INV | CK_MODEL;
        base();
        int np = r.range(1, 2);
        for (int i = 0; i < np; ++i) s.progs.push_back(prog(true));
        op("MAKE", 0);
        train("FIT", 0);
        if (r.chance(0.7)) surg(0);
        if (r.chance(0.5)) train("PFIT", 0, 1);
        op("CLONE", 0).slot2 = 1;
        op("FROMST", 9).slot2 = 1;
        int nt = r.range(2, 3);
        std::vector<int> cnt(nt);
        int m = r.range(nt, 7);
        for (int i = 0; i < m; ++i)
        {
            int t = i < nt ? i : (int)r.below(nt);
            if (r.chance(0.18)) { Op & o = op("CLONE", 0); o.slot2 = 2 + t; o.thr = t + 1; }
            else if (r.chance(0.08)) { Op & o = op("SAVEST", 0); o.slot2 = 2 + t; o.thr = t + 1; o.x = 1; }
            else query(0).thr = t + 1;
        }
        Op & e = op("EQ", 0);
        e.slot2 = 9;
        query(0);
    }

    void c04()
    {
        int k = kind();
        shape(k, r.chance(0.3));
        Config c = config(k);
        extreme(c, 0.06);
        s.checks = CK_INV | CK_ENTROPY;
        if (r.chance(0.7))
        {
            s.family = "seeded";
            bool machine = r.chance(0.3);
            c.n_jobs = machine ? -1 : (int)r.pick({1, 1, 2, 3});
            if (machine) s.ignore = "n_jobs";
            s.cfgs.push_back(c);
            base();
            int np = r.range(2, 3);
            for (int i = 0; i < np; ++i) { s.progs.push_back(prog(r.chance(0.5))); }
            auto noise = [&] { if (r.chance(0.5)) { int q = r.range(1, 3); while (q--) op("NOISE", 11).mask = ~1u; } };
            noise();
            op(r.chance(0.7) ? "MAKE" : "MAKEJ", 0);
            noise();
            train("FIT", 0);
            int m = length(2, 8);
            for (int i = 0; i < m; ++i)
            {
                noise();
                if (r.chance(0.25)) { Op & o = op("SAVEST", 0); o.slot2 = 3; o.x = machine ? 0 : 1; }
                else step(0, k, true);
            }
            query(0);
            Op & o = op("SAVEST", 0); o.slot2 = 3; o.x = machine ? 0 : 1;
        }
        else
        {
            s.family = "unseeded";
            c.has_seed = false;
            c.n_jobs = 1;
            s.cfgs.push_back(c);
            s.progs.push_back(prog(false));
            if (r.chance(0.5)) op("NOISE", 11);
            op(r.chance(0.6) ? "MAKE" : "MAKEJ", 0).cmp = false;
            if (r.chance(0.5)) op("NOISE", 11);
            op("MAKEX", 1).slot2 = 0;
            bool p = r.chance(0.3);
            Op a = train(p ? "PFIT" : "FIT", 0);
            s.ops.back().slot = 0;
            a.slot = 1; a.id = id++;
            if (r.chance(0.5)) op("NOISE", 11);
            s.ops.push_back(a);
            op("EQ", 0).slot2 = 1;
            int m = r.range(1, 3);
            for (int i = 0; i < m; ++i)
            {
                Op b = train(r.chance(0.3) ? "FIT" : "PFIT", 0);
                b.slot = 1; b.id = id++;
                s.ops.push_back(b);
                op("EQ", 0).slot2 = 1;
            }
        }
    }

    void c05()
    {
        int k = kind();
        shape(k, r.chance(0.25));
        Config c = config(k);
        extreme(c, 0.06);
        c.n_jobs = (int)r.pick({1, 1, 1, 2});
        int edge = !wide && r.chance(0.05) ? 1 + (int)r.below(is_classifier(k) ? 2 : 1) : 0;
        if (edge == 1)           // the whole block of the generator of integers is used up when the model is saved
        {
            L = r.pick({2, 3, 4});
            c.clauses = is_classifier(k) ? 4 * r.pick({1, 2, 4}) : 2 * r.pick({2, 3, 4, 6, 8, 12, 13, 16, 24});
            F = 4992 / (is_classifier(k) ? L * c.clauses : c.clauses);
            N = 2;
        }
        else if (edge == 2)      // that of the generator of reals
        {
            c.clauses = r.pick({48, 48, 96});
            F = r.range(2, 9);
            L = r.range(2, 3);
            N = 4992 / c.clauses;
        }
        s.cfgs.push_back(c);
        s.checks = CK_INV | CK_EQ;
        base();
        s.progs[0].faults = false;
        for (int i = 0; i < 3; ++i) s.progs.push_back(prog(r.chance(0.4)));
        // program 0: uninterrupted; 1: crashes; 2: hand-overs; 3: epochs split, crashes and hand-overs
        auto crash_points = [&]
        {
            if (r.chance(0.55)) { Op & o = op("SAVE", 0); o.mask = 2 | 8; o.cmp = false; }
            if (r.chance(0.4)) { Op & o = op("CRASH", 0); o.mask = 2 | 8; }
        };
        auto handover = [&](int sl)
        {
            if (r.chance(0.5))
            {
                std::size_t b = s.ops.size();
                int n = r.range(1, 2);
                while (n--)
                    switch (r.below(3))
                    {
                        case 0: op("CLONE", sl).slot2 = 8; op("FROMST", sl).slot2 = 8; break;
                        case 1: { Op & o = op("MOVE", 7); o.slot2 = sl; Op & q = op("MOVE", sl); q.slot2 = 7; break; }
                        default: { op("SAVEST", sl).slot2 = 8; Op & o = op("LOAD", sl); o.slot2 = 8; o.mode = r.chance(0.5); break; }
                    }
                for (std::size_t j = b; j < s.ops.size(); ++j) { s.ops[j].mask = 4 | 8; s.ops[j].cmp = false; }
            }
        };
        op("MAKE", 0);
        crash_points();
        handover(0);
        int m = length(2, 7);
        for (int i = 0; i < m; ++i)
        {
            int w = i == 0 ? 0 : (int)r.below(6);
            if (edge && i == 0)
            {
                Op & o = train("FIT", 0, edge - 1);
                o.n = N;
                o.labels = L;
                crash_points();
                handover(0);
                op("OBS", 0);
            }
            else if (w <= 3)
            {
                bool fit = i == 0 ? r.chance(0.8) : r.chance(0.15);
                if (fit) reshape(k);
                Op & o = train(fit ? "FIT" : "PFIT", 0, wide == 3 && r.chance(0.6) ? r.pick({129, 256, 257, 300}) : r.range(1, 6));
                if (fit || i == 0) o.labels = L;
                Op whole = o;
                std::size_t at = s.ops.size() - 1;
                s.ops[at].mask = ~8u;
                s.ops[at].cmp = false;
                int left = whole.epochs;
                bool first = true;
                while (left > 0)
                {
                    int e = r.range(1, left);
                    Op part = whole;
                    part.id = id++;
                    part.epochs = e;
                    part.mask = 8;
                    part.cmp = false;
                    if (!first) part.k = "PFIT";
                    // mode 9 data depend on the present state: keep whole calls then
                    if (whole.mode == 9) { part.epochs = left; e = left; }
                    s.ops.push_back(part);
                    left -= e;
                    first = false;
                    if (left)
                    {
                        std::size_t b = s.ops.size();
                        crash_points();
                        handover(0);
                        for (std::size_t j = b; j < s.ops.size(); ++j) s.ops[j].mask = 8;
                    }
                }
                op("OBS", 0);
            }
            else if (w == 4) { Op & o = surg(0); if (r.chance(0.4)) o.mode |= 64; }
            else query(0);
            crash_points();
            handover(0);
        }
        query(0).k = "PREDN";
        op("OBS", 0);
        Op & o = op("SAVEST", 0);
        o.slot2 = 5;
        o.x = 1;
    }

    void c06()
    {
        int k = kind();
        shape(k, false);
        if (F > 33) F = r.range(2, 33);
        if (r.chance(0.1)) F = r.pick({63, 64, 65});
        L = r.range(2, 3);
        Config c = config(k);
        c.clauses = is_classifier(k) ? 4 : 2 * r.range(1, 3);
        c.n_jobs = r.range(1, 2);
        s.cfgs.push_back(c);
        s.checks = 0;
        ProgSpec p = prog(r.chance(0.3));
        p.sched.grant = rt::G_ALL;
        s.progs.push_back(p);
        if (r.chance(0.25))
        {
            s.family = "configurations";
            int n = r.range(8, 40);
            for (int i = 0; i < n; ++i)
            {
                Op & o = op("MAKEJ", 3);
                o.mode = 1 + (int)r.pick({0, 1, 2, 4, 4, 4, 5, 6, 6, 7, 7, 7, 11, 12, 13, 14, 14, 14, 15, 15});
                if (r.chance(0.04))
                {
                    long rows = (1l << 26) * r.range(1, 15) + (r.chance(0.5) ? 4 * r.range(0, 60) : 4 * r.range(0, 1 << 20));
                    if (r.chance(0.7)) o.x = is_classifier(k) ? rows / 8 * 4 : rows;
                    else o.y = r.pick({5000, 40000, 1000000, INT_MAX});
                    o.mode = 17;
                }
            }
            return;
        }
        s.family = "documents";
        op("MAKE", 0);
        bool fitted = r.chance(0.92);
        if (fitted) train("FIT", 0, 1);
        if (fitted && r.chance(0.4)) surg(0);
        if (r.chance(0.8)) op("SAVEST", 0).slot2 = 1;
        if (fitted && r.chance(0.7)) { if (r.chance(0.4)) { F = r.range(2, 33); train("FIT", 0, 1); } else train("PFIT", 0, r.range(1, 2)); }
        damage_ops(0, 1, r.range(3, 10));
    }

    void c07()
    {
        int k = kind();
        shape(k, r.chance(0.1));
        Config c = config(k);
        small(c);
        c.n_jobs = r.range(1, 2);
        s.cfgs.push_back(c);
        s.checks = CK_INV | CK_MODEL;
        base();
        s.progs.push_back(prog(r.chance(0.5)));
        auto bad = [&](int p)
        {
            int n = r.chance(0.7) ? r.range(1, 3) : 0;
            while (n-- > 0)
            {
                Op & o = op("BAD", 0);
                o.x = F;
                o.mode = (int)r.below(17);
                o.mask = ~1u;
            }
            (void)p;
        };
        op("MAKE", 0);
        bad(0);
        train(r.chance(0.8) ? "FIT" : "PFIT", 0, 1);
        bad(1);
        int m = length(1, 6);
        for (int i = 0; i < m; ++i) { step(0, k, true); bad(1); }
        query(0);
        train("PFIT", 0, 1);
        op("OBS", 0);
    }

    void c08()
    {
        int k = kind();
        shape(k, false);
        Config c = config(k);
        small(c);
        if (c.clauses > 12) c.clauses = 12;
        c.n_jobs = (int)r.pick({1, 1, 2, 3});
        c.verbose = r.chance(0.2);
        s.cfgs.push_back(c);
        s.checks = CK_INV | CK_MODEL | CK_OOM | CK_LEAK;
        base().faults = false;
        ProgSpec p = prog(r.chance(0.5));
        s.progs.push_back(p);
        auto arm = [&](Op & o, double pr)
        {
            o.cmp = false;
            if (r.chance(pr)) { o.oom = r.chance(0.15) ? 0.0 : r.chance(0.15) ? 0.999 : r.unit(); o.oomp = r.chance(0.25); }
        };
        arm(op(r.chance(0.7) ? "MAKE" : "MAKEJ", 0), 0.4);
        { Op & o = op("ENSUREMADE", 0); (void)o; }
        arm(train("FIT", 0), 0.5);
        int m = r.range(2, 8);
        for (int i = 0; i < m; ++i)
        {
            std::size_t b = s.ops.size();
            switch (r.below(13))
            {
                case 0: case 1: reshape(k); train("FIT", 0, 1); break;
                case 2: train("PFIT", 0, 1); break;
                case 3: op("CLONE", 0).slot2 = 1; op("FROMST", 2).slot2 = 1; query(2); break;
                case 4: op("SAVEST", 0).slot2 = 1; { Op & o = op("LOAD", 2); o.slot2 = 1; o.mode = r.chance(0.5); } query(2); break;
                case 5: op("SAVEST", 0).slot2 = 1; { Op & o = op("LOAD", 0); o.slot2 = 1; o.mode = 1; } break;
                case 6: { Op & o = op("MOVE", 3); o.slot2 = 0; Op & q = op("MOVE", 0); q.slot2 = 3; break; }
                case 7: surg(0); break;
                // refusals need memory, too
                case 8: { Op & o = op("BAD", 0); o.x = F; o.mode = (int)r.below(17); break; }
                case 9: if (F < 40) damage_ops(0, 1, 1); else { Op & o = op("BAD", 0); o.x = F; o.mode = (int)r.below(17); } break;
                case 10: { Op & o = op("MAKEJ", 4); o.mode = 1 + (int)r.pick({0, 1, 4, 6, 7, 11, 12, 13, 14, 15}); break; }
                default: query(0);
            }
            for (std::size_t j = b; j < s.ops.size(); ++j)
            {
                s.ops[j].cmp = false;
                if (s.ops[j].k != "MOVE" && s.ops[j].k != "SURG") arm(s.ops[j], 0.6);
            }
        }
        if (r.chance(0.25)) { Op & o = op("HUGE", 0); o.x = F; o.mode = r.chance(0.4); o.cmp = false; }
        if (r.chance(0.5)) { train("PFIT", 0, 1).cmp = false; query(0).cmp = false; }
        // memory is available again: a fit gives what a fresh estimator gives
        Op f = train("FIT", 0, r.range(1, 2));
        s.ops.back().cmp = false;
        op("MAKE", 9).cmp = false;
        f.slot = 9; f.id = id++; f.cmp = false;
        s.ops.push_back(f);
        op("EQ", 0).slot2 = 9;
        query(0).cmp = false;
    }

    void c09()
    {
        int k = kind();
        shape(k, false);
        Config c = config(k);
        extreme(c, 0.06);
        c.n_jobs = (int)r.pick({1, 1, 2});
        s.cfgs.push_back(c);
        s.checks = CK_INV | CK_LOG;
        s.ignore = "verbose";
        base();
        s.progs[0].verbose = 0;
        s.progs[0].faults = false;
        ProgSpec p = prog(false);
        p.verbose = 1;
        p.faults = false;
        s.progs.push_back(p);
        p = prog(r.chance(0.3));
        p.verbose = 1;
        s.progs.push_back(p);
        if (r.chance(0.3)) { p = prog(false); p.verbose = 0; s.progs.push_back(p); }
        auto sink = [&]
        {
            if (!r.chance(0.5)) return;
            Op & o = op("SINK", 0);
            o.mode = (int)r.pick({SINK_FAIL, SINK_THROW, SINK_SHORT, SINK_OK, SINK_FAIL, SINK_THROW});
            o.x = (long)r.pick({0, 0, 1, 13, 40, 200, 500});
            o.y = r.chance(0.5);
            o.z = r.chance(0.3) ? r.range(1, 4) : 0;
        };
        sink();
        op(r.chance(0.6) ? "MAKE" : "MAKEJ", 0);
        sink();
        train(r.chance(0.8) ? "FIT" : "PFIT", 0);
        int m = length(1, 6);
        for (int i = 0; i < m; ++i) { sink(); step(0, k, true); }
        query(0);
    }

    // mixed histories for the state properties
    void history(bool faults)
    {
        int k = kind();
        shape(k, r.chance(0.35));
        Config c = config(k);
        extreme(c, 0.06);
        c.n_jobs = (int)r.pick({1, 1, 1, 2, 3});
        s.cfgs.push_back(c);
        ProgSpec p = prog(r.chance(0.5));
        s.progs.push_back(p);
        op(r.chance(0.8) ? "MAKE" : "MAKEJ", 0);
        train(r.chance(0.8) ? "FIT" : "PFIT", 0);
        int m = length(2, 9);
        for (int i = 0; i < m; ++i)
        {
            if (faults && r.chance(0.2))
            {
                if (r.chance(0.6)) { Op & o = op("SAVE", 0); o.cmp = false; }
                if (r.chance(0.6)) op("CRASH", 0);
            }
            if (faults && r.chance(0.2)) { Op & o = op("BAD", 0); o.x = F; o.mode = (int)r.below(17); }
            if (r.chance(0.25)) surg(0);
            step(0, k, true);
        }
    }
    void c10()
    {
        s.checks = CK_INV;
        history(true);
        int k = s.cfgs[0].kind;
        // saturate: many steps around the boundaries
        if (r.chance(0.8))
        {
            Op & o = surg(0);
            o.mode |= 2;
            if (r.chance(0.7)) o.mode |= 4;
            int n = r.range(1, 4);
            for (int i = 0; i < n; ++i) { Op & t = train("PFIT", 0, r.range(1, 4)); t.mode = (int)r.pick({9, 9, 4, 3, 0}); }
        }
        (void)k;
    }
    void c11()
    {
        s.checks = CK_INV | CK_MODEL;
        history(true);
        int n = r.range(1, 3);
        for (int i = 0; i < n; ++i)
        {
            surg(0);
            int q = r.range(1, 3);
            while (q--) { Op & o = query(0); o.mode = 9; o.n = r.range(2, 20); }
        }
    }
    void c12()
    {
        int k = kind();
        shape(k, r.chance(0.3));
        Config c = config(k);
        extreme(c, 0.08);
        c.n_jobs = (int)r.pick({1, 1, 1, 2});
        s.cfgs.push_back(c);
        s.checks = CK_INV;
        s.progs.push_back(prog(r.chance(0.4)));
        op("MAKE", 0);
        train("FIT", 0, r.range(0, 3));
        int n = r.range(1, 4);
        for (int i = 0; i < n; ++i)
        {
            if (r.chance(0.75)) surg(0);
            else if (r.chance(0.4)) train("PFIT", 0);
            if (r.chance(0.15)) { op("SAVEST", 0).slot2 = 8; op("LOAD", 0).slot2 = 8; }
            if (r.chance(0.1)) { Op & o = op("SAVE", 0); o.cmp = false; op("CRASH", 0); }
            Op & o = op("STEP", 0);
            o.n = F > 300 ? r.range(4, 20) : r.range(10, 60);
        }
    }
    void c13()
    {
        int k = kind();
        shape(k, r.chance(0.3));
        Config c = config(k);
        extreme(c, 0.06);
        c.n_jobs = (int)r.pick({1, 1, 2});
        s.cfgs.push_back(c);
        s.checks = CK_INV;
        s.progs.push_back(prog(r.chance(0.4)));
        op("MAKE", 0);
        int m = length(1, 8);
        for (int i = 0; i < m; ++i)
        {
            if (r.chance(0.2)) { Op & o = op("BAD", 0); o.x = F; o.mode = (int)r.below(17); }
            else if (r.chance(0.15)) { op("SAVE", 0).cmp = false; op("CRASH", 0); }
            else step(0, k, true);
        }
        reshape(k);
        Op f = train("FIT", 0);
        op("MAKE", 9);
        f.slot = 9; f.id = id++;
        if (r.chance(0.3)) f.k = "PFIT";       // on an unfitted estimator
        s.ops.push_back(f);
        op("EQ", 0).slot2 = 9;
        Op q = query(0);
        q.slot = 9; q.id = id++;
        s.ops.push_back(q);
        Op g = train("PFIT", 0, r.range(1, 2));
        g.slot = 9; g.id = id++;
        if (g.mode == 9) { g.mode = 0; s.ops.back().mode = 0; }
        s.ops.push_back(g);
        op("EQ", 0).slot2 = 9;
    }
    void c14()
    {
        int k = kind();
        F = r.pick({1, 2, 3, 5, 9, 16, 17, 30, 33, 64, 65, 100, r.range(2, 200)});
        L = r.pick({2, 2, 3, 4, 5});
        if (r.chance(0.08)) { F = r.range(255, 700); L = 2; }
        bool many = is_classifier(k) && r.chance(0.06);
        if (many) { F = r.range(1, 3); L = r.pick({r.range(6, 20), r.range(20, 200), 150}); }
        N = 4;
        Config c = config(k, true);
        c.clauses = many ? 4 : is_classifier(k) ? 4 * r.range(1, 4) : 2 * r.pick({2, 5, 10, 20, 50});
        c.states = r.pick({50, 127, 1000, 1000});
        c.threshold = r.chance(0.15) ? r.pick({1 << 30, INT_MAX, 2000000000, 1000000}) : r.pick({2, 5, 10, 15, 30});
        if (!is_classifier(k) && r.chance(0.4)) c.box_muller = true;
        c.s = r.pick({1.0f, 1.2f, 1.5f, 2.0f, 2.5f, 3.9f, 6.0f, 10.0f, 25.0f});
        if (r.chance(0.15)) c.s = 1.0f + (float)(r.unit() * r.pick({1.0, 10.0, 60.0}));
        else if (r.chance(0.12)) c.s = r.pick({50.0f, 99.0f, 150.0f, 300.0f, 1000.0f, 3000.0f, 10000.0f, 1e6f});
        c.weighted = true;
        c.max_weight = INT_MAX;
        s.cfgs.push_back(c);
        s.checks = CK_INV;
        s.progs.push_back(prog(false));
        op("MAKE", 0);
        train("FIT", 0, 1).labels = L;
        int n = r.range(2, 5);
        for (int i = 0; i < n; ++i)
        {
            Op & o = op("SURG", 0);
            o.mode = 1 | 16 | (r.chance(0.5) ? 4 : 0) | (r.chance(0.3) ? 8 : 0);
            Op & t = op("STAT", 0);
            t.n = F > 40 ? r.range(60, 160) : r.range(120, 400);
            if (is_classifier(k) ? L > 2 && F < 20 && r.chance(0.3) : c.box_muller && F < 10 && r.chance(0.2)) t.n = r.range(800, 1600);
            if (many) t.n = r.range(1500, 3000);
        }
    }
    void c19()
    {
        int k = kind();
        bool cls = is_classifier(k), order = r.chance(0.3);
        Config c = config(k);
        c.weighted = true;
        c.max_weight = INT_MAX;
        c.states = 1000000;
        if (c.counting == "int8" || c.counting == "int16") c.counting = "auto";
        c.n_jobs = (int)r.pick({1, 1, 2, 3, -1});
        c.verbose = r.chance(0.05);
        if (c.threshold > 1000) c.threshold = 15;
        if (c.loss == "berHu") c.loss = "MSE";
        L = r.pick({2, 2, 3, 5});
        N = 4;
        s.checks = CK_INV;
        s.family = order ? "order" : "counts";
        if (order)
        {
            F = r.pick({6, 6, 7, 16, 33});
            L = 2;
            wide = 9;                // keeps the shape
            c.clauses = cls ? 4 : 2;
            c.states = 5000000;
            if (cls) { F = r.pick({6, 7}); c.s = r.pick({1.0f, 1.3f, 2.0f}); }
            else { c.threshold = 2; c.loss = r.pick({"MAE", "L1"}); c.boost = true; c.box_muller = false; }
        }
        else
        {
            F = r.pick({1, 2, 3, 5, 8, 17, 33, 64, 65});
            c.clauses = cls ? 4 * r.range(1, 3) : 2 * r.range(1, 8);
            if (r.chance(0.25)) { c.counting = "auto"; c.states = r.pick({127, 32767}); }
        }
        s.cfgs.push_back(c);
        s.progs.push_back(prog(r.chance(0.5)));
        op("MAKE", 0);
        train("FIT", 0, 1).labels = L;
        for (int i = r.range(0, 3); i > 0; --i) step(0, k, true);
        int m = r.range(1, 4);
        for (int i = 0; i < m; ++i)
        {
            if (i) { for (int j = r.range(0, 2); j > 0; --j) step(0, k, true); }
            Op & o = op("EPOCHS", 0);
            if (order) { o.mode = 2; o.epochs = cls ? 3000 : r.range(300, 2000); continue; }
            o.mode = cls ? (int)r.below(2) : 0;
            o.n = r.pick({1, 2, 3, r.range(4, 40), r.range(4, 300)});
            o.epochs = r.pick({1, 1, 2, 3, r.range(4, 20)});
            if (c.states == 127) { o.n = r.range(1, 20); o.epochs = r.range(1, 3); }
            else if (c.states == 32767) o.n = std::min(o.n, 100);
            else if (F < 9 && r.chance(0.02)) { o.n = r.pick({32768, 65535, 65536, 65537, 70000}); o.epochs = 1; }
            else if (F < 9 && r.chance(0.02)) { o.n = r.range(1, 3); o.epochs = r.pick({255, 256, 257, 32768, 65536, 65537}); }
        }
    }
    void c20()
    {
        int k = kind();
        shape(k, true);
        Config c = config(k);
        c.clauses = is_classifier(k) ? 4 * r.range(1, 4) : 2 * r.pick({1, 2, 5, 10, 20, 40});
        if (F * c.clauses * (is_classifier(k) ? L : 1) > 20000) c.clauses = is_classifier(k) ? 4 : 2;
        c.n_jobs = (int)r.pick({1, 1, 1, 2, -1});
        s.cfgs.push_back(c);
        s.checks = CK_INV;
        s.progs.push_back(prog(r.chance(0.3)));
        if (r.chance(0.4)) op("NOISE", 11);
        int m = r.range(1, 2);
        for (int i = 0; i < m; ++i)
        {
            if (i) shape(k, false);
            Op & o = op("START", 0);
            o.x = F; o.y = L;
            o.n = r.pick({36, 50, 70, 120});
            if (F < 12 && r.chance(0.2)) o.n = 400;
        }
    }
    void c15();
    void c16()
    {
        int k = kind();
        shape(k, true);
        if (r.chance(0.04) && is_bitwise(k)) { F = r.pick({4097, 4200, 8192, 8200, 8300}); N = 2; }
        Config c = config(k);
        extreme(c, 0.06);
        if (F > 500) c.clauses = is_classifier(k) ? 4 : 2 * r.range(1, 4);
        c.tile = 16;
        c.counting = "int32";
        s.cfgs.push_back(c);
        s.checks = CK_INV;
        s.ignore = "clause_output_tile_size counting_type n_jobs verbose";
        s.ignore_width = true;
        base();
        s.progs[0].n_jobs = 1;
        int np = r.range(1, 3);
        for (int i = 0; i < np; ++i)
        {
            ProgSpec p = prog(r.chance(0.5));
            p.tile = r.pick({16, 32, 64, 128});
            p.counting = r.pick({"auto", "int8", "int16", "int32"});
            p.n_jobs = r.pick({1, 1, 2, 3, 5, -1});
            p.verbose = r.chance(0.2);
            s.progs.push_back(p);
        }
        op("MAKE", 0);
        train("FIT", 0);
        int m = length(2, 8);
        for (int i = 0; i < m; ++i)
        {
            if (r.chance(0.35)) surg(0);
            step(0, k, true);
        }
        if (r.chance(0.5)) { Op & o = surg(0); o.mode |= 2; train("PFIT", 0, r.range(1, 3)).mode = 9; }
        query(0).mode = 9;
    }
};

void Gen::c15()
{
    int k = kind();
    bool cls = is_classifier(k);
    if (r.chance(0.25))
    {
        // calls with extreme but acceptable arguments return
        s.family = "returns";
        if (r.chance(0.025))     // more features than a float counts, all literals drawn
        {
            Config c;
            c.kind = RC;
            c.n_jobs = 1;
            c.states = 10;
            c.clauses = 2;
            c.threshold = 10;
            c.s = 1;
            c.boost = r.chance(0.5);
            c.weighted = r.chance(0.5);
            s.cfgs.push_back(c);
            s.checks = CK_INV;
            s.progs.push_back(prog(false));
            op("MAKE", 0);
            F = r.pick({16777219, 16777223, 16777227});
            Op & o = train("FIT", 0, 1);
            o.n = 1;
            o.mode = 7;
            return;
        }
        shape(k, true);
        Config c = config(k);
        extreme(c, 0.5);
        c.n_jobs = (int)r.pick({1, 1, 2, 5, -1});
        c.verbose = r.chance(0.1);
        s.cfgs.push_back(c);
        s.checks = CK_INV;
        s.progs.push_back(prog(r.chance(0.5)));
        op("MAKE", 0);
        train("FIT", 0);
        int m = r.range(1, 5);
        for (int i = 0; i < m; ++i)
        {
            if (r.chance(0.3)) { op("SAVE", 0).cmp = false; op("CRASH", 0); }
            step(0, k, true);
        }
        if (r.chance(0.15))      // more samples or epochs than 16 bits count
        {
            F = r.pick({1, 1, 2, 3});
            wide = 4;
            s.cfgs[0].clauses = cls ? 4 : 2;
            if (r.chance(0.5)) s.cfgs[0].verbose = false;
            L = 2;
            Op & o = train("FIT", 0, 1);
            if (r.chance(0.5)) { o.n = r.pick({32768, 65535, 65536, 65537, 70000}); query(0).n = o.n; }
            else { o.n = 1; o.epochs = r.pick({32768, 65535, 65536, 65537, 70000}); s.cfgs[0].verbose = false; }
            query(0);
        }
        return;
    }
    Config c;
    c.kind = k;
    c.n_jobs = (int)r.pick({1, 1, 1, 2, 4, -1});
    c.verbose = r.chance(0.1);
    c.tile = r.pick({16, 32, 64, 128});
    c.counting = r.chance(0.6) ? std::string("auto") : std::string(r.pick({"int8", "int16", "int32"}));
    c.states = r.pick({50, 100, 127});
    c.weighted = r.chance(0.5);
    c.boost = r.chance(0.5);
    c.max_weight = INT_MAX;
    int mode, n = 100, epochs, want;
    if (cls)
    {
        mode = r.chance(0.5) ? 2 : 5;
        L = mode == 2 ? 2 : r.range(2, 4);
        F = mode == 2 ? r.pick({4, 8, 12}) : r.pick({16, 24, 40, 70});
        c.clauses = c.weighted ? 4 * r.range(4, 6) : 4 * r.range(6, 10);
        c.threshold = c.weighted ? r.pick({10, 15}) : 4;
        c.s = mode == 2 ? 3.9f : 3.0f;
        epochs = mode == 2 ? 50 : 20;
        want = mode == 2 ? (c.weighted ? WANT_PARITY_W : WANT_PARITY) : WANT_PROTO;
        s.family = mode == 2 ? "parity" : "prototypes";
    }
    else
    {
        mode = 5;
        F = r.pick({4, 6, 8, 20});
        c.clauses = 2 * r.range(30, 50);
        c.threshold = c.weighted ? r.pick({15, 40, 100}) : r.pick({9, 15});
        c.s = r.pick({2.0f, 3.0f});
        c.loss = r.pick({"MSE", "MAE", "L1+2"});
        c.c1 = 0.3f;
        c.box_muller = r.chance(0.4);
        epochs = 25;
        want = WANT_LEVELS;
        s.family = "levels";
    }
    s.checks = CK_INV;
    s.progs.push_back(prog(r.chance(0.5)));
    int const K = 5;
    std::vector<uint64_t> dseed;
    for (int i = 0; i < K; ++i)
    {
        Config d = c;
        d.seed = (uint32_t)r.next();
        s.cfgs.push_back(d);
        dseed.push_back(r.next() >> 1);
        op("MAKE", i).cfg = i;
    }
    int left = epochs;
    bool first = true;
    while (left > 0)
    {
        int e = std::min(left, r.range(3, 20));
        for (int i = 0; i < K; ++i)
        {
            Op & o = op(first ? "FIT" : "PFIT", i);
            o.seed = dseed[i]; o.n = n; o.x = F; o.y = L; o.labels = L; o.epochs = e; o.mode = mode; o.cmp = false;
            if (r.chance(0.1)) { Op & b = op("BAD", i); b.x = F; b.mode = (int)r.below(17); }
        }
        left -= e;
        first = false;
        if (r.chance(0.4)) for (int i = 0; i < K; ++i) op("SAVE", i).cmp = false;
        if (r.chance(0.3)) op("CRASH", 0);
    }
    for (int i = 0; i < K; ++i)
    {
        Op & e = op("ENSURE", i);
        e.seed = dseed[i]; e.n = n; e.y = L; e.mode = mode; e.x = i == K - 1 ? want : 0;
    }
}
} // anon

Scenario generate(std::string const & prop, uint64_t seed, bool thorough)
{
    Gen g(prop, seed, thorough);
    if (prop == "C01") g.c01();
    else if (prop == "C02") g.c02();
    else if (prop == "C03") g.c03();
    else if (prop == "C04") g.c04();
    else if (prop == "C05") g.c05();
    else if (prop == "C06") g.c06();
    else if (prop == "C07") g.c07();
    else if (prop == "C08") g.c08();
    else if (prop == "C09") g.c09();
    else if (prop == "C10") g.c10();
    else if (prop == "C11") g.c11();
    else if (prop == "C12") g.c12();
    else if (prop == "C13") g.c13();
    else if (prop == "C14") g.c14();
    else if (prop == "C15") g.c15();
    else if (prop == "C16") g.c16();
    else if (prop == "C19") g.c19();
    else if (prop == "C20") g.c20();
    for (auto & o : g.s.ops) if (o.labels > 0) o.labels = std::max(o.labels, 2);
    return g.s;
}
