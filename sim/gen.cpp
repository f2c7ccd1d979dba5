// Seeded generation of histories: which client acts next, with which operation,
// arguments, faults and schedule.  Swarm style: every run uses its own random mix.
#include "engine.hpp"
#include <cstring>

namespace sim
{
    struct Profile
    {
        int c0 = 1, c1 = 2;       // clients
        int l0 = 10, l1 = 30;     // length
        double undo = 0.15;       // probability of an undo burst at a step
        double query = 0.1;       // fraction of queries
        double ses = 0.3;         // weight factor of session steps
        double ctl = 1.0;         // weight factor of control operations
        double untracked = 0.0;   // weight factor of operations outside the undo history
        double bad = 0.0;         // argument faults
        double fault = 0.0;       // allocation faults
        int threads = 1;          // up to this many simulated threads
        std::set<std::string> forbid;
        int cap = 50;
        double slow = 0.3;
    };
    static Profile profileOf(const std::string& m)
    {
        Profile p;
        p.forbid = {"c_clear", "c_clear_undo", "c_undo_size"};
        if (m == "C01")
        {
            p.c1 = 2;
            p.undo = 0.3;
            p.query = 0.15;
            p.untracked = 0.1;
            p.bad = 0.05;
            p.cap = 1000;
        }
        else if (m == "C02")
        {
            p.c0 = 1;
            p.c1 = 3;
            p.l0 = 20;
            p.l1 = 50;
            p.undo = 0.2;
            p.query = 0.05;
            p.ctl = 6;
            p.bad = 0.08;
            p.ses = 0.15;
            p.cap = 0; // chosen per run
            p.forbid = {};
            p.slow = 0.05;
        }
        else if (m == "C03")
        {
            p.c0 = 2;
            p.c1 = 4;
            p.l0 = 16;
            p.l1 = 40;
            p.undo = 0.12;
            p.query = 0.4;
            p.ses = 1.5;
            p.untracked = 1.0;
            p.bad = 0.05;
            p.fault = 0.05;
            p.cap = 100000;
        }
        else if (m == "C04")
        {
            p.c0 = 2;
            p.c1 = 3;
            p.l0 = 12;
            p.l1 = 30;
            p.undo = 0.1;
            p.query = 0.25;
            p.ses = 1.0;
            p.untracked = 1.0;
            p.bad = 0.3;
            p.fault = 0.3;
        }
        else if (m == "C05")
        {
            p.c0 = 1;
            p.c1 = 2;
            p.l0 = 8;
            p.l1 = 18;
            p.undo = 0.3;
            p.query = 0.1;
            p.bad = 0.1;
        }
        else if (m == "C06")
        {
            p.c1 = 1;
            p.l0 = 8;
            p.l1 = 20;
            p.undo = 0.05;
            p.query = 0.1;
            p.ses = 2.0;
            p.untracked = 1.0;
            p.threads = 16;
        }
        else if (m == "C07")
        {
            p.c1 = 2;
            p.undo = 0.15;
            p.query = 0.35;
            p.ses = 1.0;
            p.untracked = 1.0;
            p.bad = 0.1;
        }
        else if (m == "C08")
        {
            p.c1 = 2;
            p.l0 = 14;
            p.l1 = 30;
            p.undo = 0.1;
            p.query = 0.15;
            p.ses = 8.0;
            p.untracked = 3.0;
            p.bad = 0.1;
        }
        else if (m == "C09")
        {
            p.c1 = 3;
            p.l0 = 15;
            p.l1 = 40;
            p.undo = 0.15;
            p.query = 0.4;
            p.ses = 2.0;
            p.untracked = 1.0;
            p.bad = 0.25;
            p.fault = 0.1;
            p.threads = 8;
            p.ctl = 2;
            p.cap = 0;
            p.forbid = {};
        }
        else if (m == "C10")
        {
            p.c1 = 2;
            p.undo = 0.12;
            p.query = 0.5;
            p.ses = 1.0;
            p.untracked = 0.5;
            p.bad = 0.08;
        }
        else if (m == "C11")
        {
            p.c1 = 2;
            p.undo = 0.2;
            p.query = 0.05;
            p.ses = 0.7;
            p.untracked = 0.5;
            p.bad = 0.15;
        }
        else if (m == "C12")
        {
            p.c1 = 2;
            p.l0 = 8;
            p.l1 = 24;
            p.undo = 0.2;
            p.query = 0.35;
            p.ses = 1.5;
            p.untracked = 1.0;
            p.bad = 0.25;
            p.fault = 0.15;
            p.ctl = 2;
            p.cap = 0;
            p.forbid = {"c_clear"};
        }
        else if (m == "C13")
        {
            p.c1 = 2;
            p.undo = 0.1;
            p.query = 0.4;
            p.ses = 1.0;
            p.untracked = 1.0;
            p.bad = 0.5;
            p.fault = 0.2;
        }
        else if (m == "C14")
        {
            p.c1 = 1;
            p.l0 = 8;
            p.l1 = 24;
            p.undo = 0.25;
            p.query = 0.3;
            p.ses = 0.5;
            p.untracked = 0.5;
        }
        return p;
    }

    Generator::Generator(const std::string& mode, uint64_t seed) : m_mode(mode), m_r(rt::mix(seed, 0x6e6f6973))
    {
        Profile p = profileOf(mode);
        m_len = m_r.range(p.l0, p.l1);
        const auto& cat = catalogue();
        // themes concentrate a run on one part of the system
        int theme = static_cast<int>(m_r.below(9)); // 0,1 mixed; 2,8 2d; 3,6 curvilinear; 4 1d and contacts; 5 sparse; 7 a few operations
        m_theme = theme;
        double fm2 = 1, fcg = 1, fm1 = 1, frep = theme == 0 ? 1.0 : 0.5;
        if (theme == 2 || theme == 8)
        {
            fcg = 0.05, fm1 = 0.05;
        }
        else if (theme == 3 || theme == 6)
        {
            fm2 = 0.1, fm1 = 0.05;
        }
        else if (theme == 4)
        {
            fcg = 0.1, fm2 = 0.3, fm1 = 4;
        }
        double swarm = theme == 5 ? 0.7 : 0.3;
        double totalEdit = 0, totalQuery = 0;
        for (const OpDef& d : cat)
        {
            double w = d.weight;
            if (m_r.chance(swarm))
            {
                w = m_r.chance(0.5) ? 0 : 0.1 * w;
            }
            else if (m_r.chance(0.2))
            {
                w *= 4;
            }
            if (d.flags & fM2)
            {
                w *= fm2;
            }
            if (d.flags & fCG)
            {
                w *= fcg;
            }
            if (d.flags & (fM1 | fCon))
            {
                w *= fm1;
            }
            if ((d.flags & fReplace) && !(d.flags & fCon))
            {
                w *= frep; // replacing the content cuts a history short
            }
            if (theme == 7 && (d.flags & fUndo) && m_r.chance(0.06))
            {
                w *= 40;
            }
            if (d.flags & fSes)
            {
                // steps without a session are fewer than sessions, whose steps follow (see next)
                bool init = d.name.size() == 7 && d.name.substr(2) == "_init";
                w *= p.ses * (init ? 1.6 : 0.25);
            }
            if (d.flags & fUntracked)
            {
                w *= p.untracked;
            }
            if (d.flags & fSlow)
            {
                w *= p.slow;
            }
            if (d.flags & fCtl)
            {
                w *= p.ctl;
            }
            if (p.forbid.count(d.name) || d.name == "c_undo" || d.name == "c_redo")
            {
                w = 0;
            }
            if (d.flags & fQ)
            {
                totalQuery += w;
            }
            else
            {
                totalEdit += w;
            }
            m_w.push_back(w);
        }
        if (totalQuery > 0)
        {
            double f = p.query / (1 - p.query) * totalEdit / totalQuery;
            for (size_t i = 0; i < cat.size(); ++i)
            {
                if (cat[i].flags & fQ)
                {
                    m_w[i] *= f;
                }
            }
        }
        // always able to create content
        for (size_t i = 0; i < cat.size(); ++i)
        {
            if (cat[i].name == "m2_make_rect" || cat[i].name == "m2_set" || cat[i].name == "cg_rect")
            {
                m_w[i] = std::max(m_w[i], 0.3);
            }
            if (mode == "C13" && cat[i].name == "x_geometry_error")
            {
                m_w[i] = m_r.chance(0.5) ? 1.5 : 0.0;
            }
        }
    }

    void Generator::params(Trace& t)
    {
        Profile p = profileOf(m_mode);
        t.par["clients"] = m_r.range(p.c0, p.c1);
        t.par["cap"] = p.cap ? p.cap : (m_r.chance(0.6) ? m_r.range(1, 6) : (m_r.chance(0.1) ? 0 : 50));
        t.par["fill"] = static_cast<int64_t>(m_r.below(5));
        t.par["place"] = m_r.chance(0.25) ? 1 : 0;
        t.par["fillseed"] = static_cast<int64_t>(m_r.next() >> 8);
        // fault kinds enabled in this run: a subset (swarm)
        t.par["pbad"] = m_r.chance(0.75) ? static_cast<int64_t>(1000 * p.bad) : 0;
        t.par["pfault"] = m_r.chance(m_mode == "C03" ? 0.4 : 0.75) ? static_cast<int64_t>(1000 * p.fault) : 0;
        t.par["pundo"] = m_r.chance(0.85) ? static_cast<int64_t>(1000 * p.undo) : 0;
        t.par["threads"] = p.threads;
        t.par["aux"] = static_cast<int64_t>(m_r.next() >> 8);
    }

    int Generator::pick(const World& w, int client, unsigned require, unsigned forbid)
    {
        const auto& cat = catalogue();
        std::vector<int> own = w.slotsOf(client);
        double total = 0;
        std::vector<double> ww(cat.size(), 0.0);
        for (size_t i = 0; i < cat.size(); ++i)
        {
            if (m_w[i] <= 0 || (cat[i].flags & require) != require || (cat[i].flags & forbid))
            {
                continue;
            }
            bool ok = own.empty() && (cat[i].flags & fCtl);
            for (int s : own)
            {
                if (cat[i].when(w.snap.s[static_cast<size_t>(s)]))
                {
                    ok = true;
                    break;
                }
            }
            if (ok)
            {
                ww[i] = m_w[i];
                total += m_w[i];
            }
        }
        double u = m_r.uni() * total;
        for (size_t i = 0; i < cat.size(); ++i)
        {
            if (ww[i] > 0)
            {
                u -= ww[i];
                if (u <= 0)
                {
                    return static_cast<int>(i);
                }
            }
        }
        return -1;
    }

    void Generator::decorate(OpSpec& op, const Trace& t)
    {
        op.seed = m_r.next() >> 16;
        const OpDef* d = findOp(op.name);
        if (m_r.chance(static_cast<double>(t.p("pbad")) / 1000.0))
        {
            op.bad = true;
        }
        // what a failing undo or a failing creation leaves behind is decided under C05 and C04, not here
        bool shared = t.mode == "C03" && (d->flags & fCtl);
        if (!shared && m_r.chance(static_cast<double>(t.p("pfault")) / 1000.0))
        {
            // the position is drawn on a log scale: early, middle and late allocations of a call
            double u = m_r.uni();
            op.fault = m_r.chance(0.3) ? m_r.range(0, 12) : static_cast<int64_t>(std::pow(2.0, u * 11.0));
            op.sticky = m_r.chance(0.25);
        }
        int mt = static_cast<int>(t.p("threads", 1));
        if (mt > 1 && (d->flags & fPar))
        {
            op.threads = m_r.range(1, mt);
            op.sched = m_r.next() >> 16;
            op.mode = static_cast<int>(m_r.below(4));
            op.period = m_r.range(1, 400);
        }
    }

    bool Generator::next(const World& w, const Trace& t, OpSpec& op)
    {
        bool more = choose(w, t, op);
        if (more)
        {
            m_afterUndo = m_afterUndo || op.name == "c_undo";
            const OpDef* d = findOp(op.name);
            if ((d->flags & fUndo) && !(d->flags & fSes) && !op.bad && op.fault < 0)
            {
                m_issued.push_back(op);
                if (m_issued.size() > 12)
                {
                    m_issued.erase(m_issued.begin());
                }
            }
        }
        return more;
    }

    bool Generator::choose(const World& w, const Trace& t, OpSpec& op)
    {
        int clients = static_cast<int>(t.p("clients", 1));
        op = OpSpec();
        if (m_n >= m_len + clients)
        {
            return false;
        }
        int n = m_n++;
        if (!m_queue.empty())
        {
            op = m_queue.front();
            m_queue.erase(m_queue.begin());
            return true;
        }
        if (n < clients)
        {
            op.client = n;
            op.name = "c_alloc";
            op.seed = m_r.next() >> 16;
            return true;
        }
        // scheduling of clients: mostly random, with a tendency to stay
        op.client = m_r.chance(0.4) ? m_last : m_r.range(0, clients - 1);
        m_last = op.client;
        if (m_burstUndo > 0)
        {
            --m_burstUndo;
            op.name = "c_undo";
            decorate(op, t);
            op.bad = false;
            return true;
        }
        if (m_burstRedo > 0)
        {
            --m_burstRedo;
            op.name = "c_redo";
            decorate(op, t);
            op.bad = false;
            return true;
        }
        if (m_r.chance(static_cast<double>(t.p("pundo")) / 1000.0))
        {
            if (w.snap.res > 0 && m_r.chance(0.45))
            {
                m_burstRedo = m_r.chance(0.5) ? 1 : m_r.range(1, w.snap.res);
            }
            else
            {
                m_burstUndo = m_r.chance(0.5) ? 1 : m_r.range(1, std::max(1, std::min(w.snap.com, 12)));
                if (m_r.chance(0.6))
                {
                    m_burstRedo = m_r.range(1, m_burstUndo);
                }
            }
            op.name = m_burstUndo > 0 ? "c_undo" : "c_redo";
            (m_burstUndo > 0 ? m_burstUndo : m_burstRedo)--;
            decorate(op, t);
            op.bad = false;
            return true;
        }
        std::vector<int> own = w.slotsOf(op.client);
        if (own.empty())
        {
            op.name = "c_alloc";
            op.seed = m_r.next() >> 16;
            return true;
        }
        const Snap& s = w.snap.s[static_cast<size_t>(own[0])];
        bool empty = s.m2.nvn == 0 && s.cg.n == 0;
        if (empty && m_r.chance(0.8))
        {
            static const char* mk[] = {"m2_make_rect", "m2_set", "m2_set", "m2_make_tri_poly", "cg_rect", "cg_set", "m1_set", "m2_make_rect"};
            bool grid = (m_theme == 3 || m_theme == 6) && m_r.chance(0.85);
            op.name = grid ? mk[4 + m_r.below(2)] : mk[m_r.below(8)];
            op.seed = m_r.next() >> 16;
            return true;
        }
        // content that takes several steps to make is also what a failing call can lose: mostly gone again before that
        if (t.mode == "C05" && !s.c1.empty() && m_r.chance(0.25))
        {
            static const char* last[] = {"c_dealloc", "c_dealloc", "m2_set", "m1_set", "m2_make_rect"};
            op.name = last[m_r.below(5)];
            decorate(op, t);
            op.bad = false;
            return true;
        }
        // an edit again after it has been undone: what an undo leaves behind out of sight shows in the next edit
        if (m_afterUndo)
        {
            m_afterUndo = false;
            std::vector<OpSpec> c;
            for (const OpSpec& e : m_issued)
            {
                if (e.client == op.client)
                {
                    c.push_back(e);
                }
            }
            if (!c.empty() && m_r.chance(0.35))
            {
                const OpSpec& e = c[c.size() - 1 - m_r.below(std::min<size_t>(c.size(), 4))];
                op.name = e.name;
                decorate(op, t);
                if (m_r.chance(0.6))
                {
                    op.seed = e.seed;
                    op.bad = false;
                    op.fault = -1;
                }
                return true;
            }
        }
        auto& script = m_script[op.client];
        if (!script.empty() && m_r.chance(0.65))
        {
            op.name = script.front();
            script.erase(script.begin());
            decorate(op, t);
            return true;
        }
        int k = pick(w, op.client, 0, 0);
        if (k < 0)
        {
            op.name = "m2_make_rect";
        }
        else
        {
            op.name = catalogue()[static_cast<size_t>(k)].name;
        }
        // most sessions are meant to be followed through
        if (op.name.size() == 7 && op.name.substr(2) == "_init" && m_r.chance(0.8))
        {
            script.clear();
            auto add = [&](const char* n, double p)
            {
                if (m_r.chance(p))
                {
                    script.push_back(n);
                }
            };
            std::string kind = op.name.substr(0, 2);
            if (kind == "ls")
            {
                add("ls_line", 0.97);
                add("ls_block", 0.97);
                for (int i = m_r.range(1, 2); i > 0; --i)
                {
                    for (int j = m_r.range(1, 3); j > 0; --j)
                    {
                        add("ls_move", 0.95);
                    }
                    add("ls_run", 0.95);
                }
                add("ls_finalize", 0.7);
            }
            else if (kind == "co")
            {
                add("co_block", 0.95);
                add("co_frozen", 0.5);
                add("co_run", 0.95);
                add("co_run", 0.4);
                add("co_finalize", 0.7);
            }
            else if (kind == "os")
            {
                for (int i = m_r.range(1, 3); i > 0; --i)
                {
                    add("os_prepare", 0.9);
                    for (int j = m_r.range(1, 3); j > 0; --j)
                    {
                        add("os_inner", 0.95);
                    }
                    add("os_finalize", 0.9);
                }
                add("os_delete", 0.7);
            }
            else if (kind == "sp")
            {
                for (int j = m_r.range(1, 4); j > 0; --j)
                {
                    add("sp_iterate", 0.95);
                }
                add("sp_refresh", 0.95);
                add("sp_delete", 0.7);
            }
        }
        decorate(op, t);
        return true;
    }
} // namespace sim
