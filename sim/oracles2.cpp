// Oracles that compare executions: twin runs, forked alternatives of one call, shadow processes.
#include "engine.hpp"
#include <algorithm>
#include <cstdio>
#include <cstring>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

namespace sim
{
    using rt::fail;
    using rt::kViolation;
    void applyHeap(const Trace& t);

    static void cmp() { g_stats->compares++; }
    static int lastFail(const Out& o)
    {
        int r = 0;
        for (int c : o.rc)
        {
            r = c != 0 ? c : r;
        }
        return r;
    }
    static bool anyFail(const Out& o)
    {
        for (int r : o.rc)
        {
            if (r != 0)
            {
                return true;
            }
        }
        return false;
    }
    static std::string lastApi(const Out& o) { return o.api.empty() ? "?" : o.api.back(); }
    static bool isUndo(const OpSpec& op) { return op.name == "c_undo" || op.name == "c_redo"; }
    static std::vector<double> child(const std::function<std::vector<double>()>& f)
    {
        g_stats->forks++;
        return inChild(f);
    }
    static bool sameVec(const std::vector<double>& a, const std::vector<double>& b, size_t& at)
    {
        at = 0;
        if (a.size() != b.size())
        {
            at = std::min(a.size(), b.size());
            return false;
        }
        for (; at < a.size(); ++at)
        {
            if (a[at] != b[at] && std::memcmp(&a[at], &b[at], sizeof(double)) != 0)
            {
                return false;
            }
        }
        return true;
    }

    // ------------------------------------------------------------------ failure containment (C04)
    struct Contain : Oracle
    {
        std::vector<double> clean; // result of the call without its fault
        void before(Exec& x, const OpSpec& op, const OpDef&) override
        {
            clean.clear();
            if (op.fault >= 0)
            {
                World w = x.w;
                clean = child([&]
                              {
                    OpSpec o = op;
                    o.fault = -1;
                    Out out;
                    perform(w, o, out);
                    std::vector<double> r = flattenOut(out), q = flattenWorld(observe(w), true);
                    r.insert(r.end(), q.begin(), q.end());
                    return r; });
            }
        }
        void after(Exec& x, const OpSpec& op, const OpDef& d, const Out& out, const WorldSnap& b, const WorldSnap& n) override
        {
            if (out.skipped)
            {
                return;
            }
            std::string api = lastApi(out);
            if (out.fired && !anyFail(out))
            {
                // the failure may only be swallowed by a call that did its work all the same
                std::vector<double> r = flattenOut(out), q = flattenWorld(n, true);
                r.insert(r.end(), q.begin(), q.end());
                size_t at;
                cmp();
                if (!sameVec(clean, r, at))
                {
                    fail(kViolation, ("swallowed:" + api).c_str(), "%s reports success although an allocation failed, and its result differs from that of the call without failure", api.c_str());
                }
                return;
            }
            if (!anyFail(out))
            {
                return;
            }
            int addressed = out.slot;
            int changed = 0;
            for (int s = 0; s < static_cast<int>(b.s.size()); ++s)
            {
                const Snap &p = b.s[static_cast<size_t>(s)], &q = n.s[static_cast<size_t>(s)];
                std::string df = diffSnap(p, q, true);
                if (df.empty() && (p.com != q.com || p.res != q.res))
                {
                    df = "number of undo steps";
                }
                cmp();
                if (!df.empty() && s != addressed)
                {
                    if (isUndo(op) && ++changed <= 1)
                    {
                        continue; // the state whose step failed to be undone
                    }
                    fail(kViolation, ("failure-other-state:" + api).c_str(), "failing %s changed a state it was not applied to: %s", api.c_str(), df.c_str());
                }
            }
            if (addressed >= 0 && b.s.size() > static_cast<size_t>(addressed) && b.s[static_cast<size_t>(addressed)].exists && op.name != "c_expunge" && !n.s[static_cast<size_t>(addressed)].exists)
            {
                fail(kViolation, ("failure-lost-state:" + api).c_str(), "after failing %s the state does not exist any more", api.c_str());
            }
            // usable afterwards
            World w = x.w;
            bool swept = !(d.flags & fQ) && (op.seed & 1);
            child([&]
                  {
                rt::g_opname = "probe after a failing call";
                auto must = [&](const char* what, int rc)
                {
                    if (rc != 0)
                    {
                        char m[512] = "";
                        mk::mkernel_get_error(m);
                        fail(kViolation, ("unusable:" + api).c_str(), "after failing %s: %s fails with code %d (%s)", api.c_str(), what, rc, m);
                    }
                };
                if (swept)
                {
                    // undo everything, redo everything
                    for (int dir = 0; dir < 2; ++dir)
                    {
                        for (int k = 0; k < 400; ++k)
                        {
                            bool u = false;
                            int id = -1, rc;
                            {
                                rt::KernelScope ks;
                                rt::g_opname = dir ? "mkernel_redo_state (probe)" : "mkernel_undo_state (probe)";
                                rc = dir ? mk::mkernel_redo_state(u, id) : mk::mkernel_undo_state(u, id);
                            }
                            must(dir ? "redo" : "undo", rc);
                            if (!u)
                            {
                                break;
                            }
                            mk::Mesh2D m;
                            rt::KernelScope ks;
                            mkernel_mesh2d_get_dimensions(id, m);
                        }
                    }
                }
                for (size_t s = 0; s < w.slots.size(); ++s)
                {
                    if (!w.slots[s].alive || !n.s[s].exists)
                    {
                        continue;
                    }
                    int id = w.slots[s].id;
                    std::vector<double> gx, gy;
                    for (int i = 0; i < 12; ++i)
                    {
                        gx.push_back(i % 4);
                        gy.push_back(i / 4);
                    }
                    mk::CurvilinearGrid in;
                    in.num_n = 3;
                    in.num_m = 4;
                    in.node_x = gx.data();
                    in.node_y = gy.data();
                    int rc;
                    {
                        rt::KernelScope ks;
                        rt::g_opname = "mkernel_curvilinear_set (probe)";
                        rc = mk::mkernel_curvilinear_set(id, in);
                    }
                    must("creating a grid", rc);
                    mk::CurvilinearGrid cg;
                    {
                        rt::KernelScope ks;
                        rc = mk::mkernel_curvilinear_get_dimensions(id, cg);
                    }
                    must("reading a grid", rc);
                    if (cg.num_m * cg.num_n != 12)
                    {
                        fail(kViolation, ("unusable:" + api).c_str(), "after failing %s a new grid has %d x %d nodes", api.c_str(), cg.num_n, cg.num_m);
                    }
                    {
                        rt::KernelScope ks;
                        rt::g_opname = "mkernel_expunge_state (probe)";
                        rc = mk::mkernel_expunge_state(id);
                    }
                    must("expunging the state", rc);
                }
                return std::vector<double>{}; });
            cmp();
        }
    };

    // ------------------------------------------------------------------ all or nothing (C05)
    struct Atomic : Oracle
    {
        void before(Exec& x, const OpSpec& op, const OpDef& d) override
        {
            static const std::set<std::string> adds{"m2_make_rect", "m2_make_rect_poly", "m2_make_rect_ext", "m2_make_global", "m2_add", "m1_add", "cg_to_m2"};
            if (!(d.flags & fReplace) && !isUndo(op) && !adds.count(op.name))
            {
                return;
            }
            if (op.bad)
            {
                return;
            }
            World w0 = x.w;
            const WorldSnap before = x.w.snap;
            double nalloc = 0;
            std::vector<double> clean = child([&]
                                              {
                World w = w0;
                Out out;
                perform(w, op, out);
                std::vector<double> r{static_cast<double>(out.skipped ? 0 : out.allocs), static_cast<double>(anyFail(out))};
                std::vector<double> f = flattenOut(out), q = flattenWorld(observe(w), true);
                r.insert(r.end(), f.begin(), f.end());
                r.insert(r.end(), q.begin(), q.end());
                return r; });
            nalloc = clean[0];
            if (nalloc <= 0 || clean[1] != 0)
            {
                return;
            }
            std::vector<double> want(clean.begin() + 2, clean.end());
            // which allocations fail: all of a small call; of a large one the first, the last and a sample
            std::vector<int64_t> ks;
            int64_t n = static_cast<int64_t>(nalloc);
            rt::Rng r(op.seed ^ 0x5eed);
            if (n <= 24)
            {
                for (int64_t k = 0; k < n; ++k)
                {
                    ks.push_back(k);
                }
            }
            else
            {
                for (int64_t k = 0; k < 6; ++k)
                {
                    ks.push_back(k);
                    ks.push_back(n - 1 - k);
                }
                for (int k = 0; k < 10; ++k)
                {
                    ks.push_back(static_cast<int64_t>(r.below(static_cast<uint64_t>(n))));
                }
            }
            for (int64_t k : ks)
            {
                // a failing undo or addition takes its change back: that needs the memory it had
                bool sticky = (d.flags & fReplace) && !isUndo(op) && r.chance(0.25);
                child([&]
                      {
                    World w = w0;
                    OpSpec f = op;
                    f.fault = k;
                    f.sticky = sticky;
                    Out out;
                    perform(w, f, out);
                    g_stats->faults += out.fired;
                    WorldSnap now = observe(w);
                    std::string api = lastApi(out);
                    if (!out.fired)
                    {
                        return std::vector<double>{};
                    }
                    size_t at;
                    if (!anyFail(out))
                    {
                        std::vector<double> g = flattenOut(out), q = flattenWorld(now, true);
                        g.insert(g.end(), q.begin(), q.end());
                        if (!sameVec(want, g, at))
                        {
                            fail(kViolation, ("swallowed:" + api).c_str(), "%s reports success although allocation %ld of %ld failed, and its result is not that of the call without failure", api.c_str(), static_cast<long>(k), static_cast<long>(n));
                        }
                        return std::vector<double>{};
                    }
                    std::string df = diffWorld(before, now, true);
                    if (df.empty() && (before.com != now.com || before.res != now.res))
                    {
                        df = "number of undo steps: " + std::to_string(before.com) + "+" + std::to_string(before.res) + " vs " + std::to_string(now.com) + "+" + std::to_string(now.res);
                    }
                    if (!df.empty())
                    {
                        fail(kViolation, ("not-atomic:" + api).c_str(), "%s failed (allocation %ld of %ld) but left a change: %s", api.c_str(), static_cast<long>(k), static_cast<long>(n), df.c_str());
                    }
                    for (size_t s = 0; s < now.s.size(); ++s)
                    {
                        if (now.s[s].com != before.s[s].com || now.s[s].res != before.s[s].res)
                        {
                            fail(kViolation, ("not-atomic:" + api).c_str(), "%s failed (allocation %ld of %ld) but changed the history of a state", api.c_str(), static_cast<long>(k), static_cast<long>(n));
                        }
                    }
                    // again, with enough memory
                    World w2 = w;
                    w2.snap = before;
                    w2.slots = w0.slots;
                    Out again;
                    perform(w2, op, again);
                    WorldSnap end = observe(w2);
                    std::vector<double> g = flattenOut(again), q = flattenWorld(end, true);
                    g.insert(g.end(), q.begin(), q.end());
                    if (!sameVec(want, g, at))
                    {
                        fail(kViolation, ("retry-differs:" + api).c_str(), "%s failed (allocation %ld of %ld); repeating it gives another result than a call that never failed (code %d; %s)", api.c_str(), static_cast<long>(k), static_cast<long>(n), again.rc.empty() ? -1 : again.rc.back(), again.errmsg.c_str());
                    }
                    return std::vector<double>{}; });
                cmp();
            }
        }
    };

    // ------------------------------------------------------------------ schedules (C06)
    struct Schedules : Oracle
    {
        std::vector<double> ref;
        static std::vector<double> result(const World& w0, const OpSpec& op)
        {
            World w = w0;
            Out out;
            rt::SchedStats a = rt::sched_stats();
            perform(w, op, out);
            rt::SchedStats z = rt::sched_stats();
            g_stats->regions += z.regions - a.regions;
            g_stats->switches += z.switches - a.switches;
            g_stats->conflicts += z.conflicts - a.conflicts;
            if (z.regions != a.regions)
            {
                statInter(z.hash);
            }
            std::vector<double> r = flattenOut(out), q = flattenWorld(observe(w), true);
            r.insert(r.end(), q.begin(), q.end());
            r.push_back(static_cast<double>(z.regions - a.regions));
            return r;
        }
        void start(Exec&) override { rt::g_race_fatal = true; }
        void before(Exec& x, const OpSpec& op, const OpDef& d) override
        {
            ref.clear();
            if (!(d.flags & (fPar | fM2)))
            {
                return;
            }
            OpSpec o = op;
            o.threads = 1;
            o.sched = 0;
            ref = child([&]
                        { return result(x.w, o); });
            if (ref.back() == 0)
            {
                ref.clear(); // no parallel region was entered
                return;
            }
            rt::Rng r(op.seed ^ 0x7c4ed);
            int n = 3;
            for (int k = 0; k < n; ++k)
            {
                o.threads = r.range(2, 16);
                o.sched = r.next() >> 16;
                o.mode = k == 0 ? 1 : static_cast<int>(r.below(4));
                o.period = r.chance(0.5) ? r.range(1, 8) : r.range(4, 400);
                std::vector<double> got = child([&]
                                                { return result(x.w, o); });
                size_t at;
                cmp();
                if (!sameVec(ref, got, at))
                {
                    fail(kViolation, ("schedule:" + op.name).c_str(), "the result of %s with %d threads (schedule %lu, mode %d, period %d) differs from that with one thread at value %zu of %zu", op.name.c_str(), o.threads, static_cast<unsigned long>(o.sched), o.mode, o.period, at, ref.size());
                }
            }
        }
        void after(Exec&, const OpSpec& op, const OpDef&, const Out& out, const WorldSnap&, const WorldSnap& n) override
        {
            if (ref.empty())
            {
                return;
            }
            std::vector<double> r = flattenOut(out), q = flattenWorld(n, true);
            r.insert(r.end(), q.begin(), q.end());
            r.push_back(ref.back());
            size_t at;
            cmp();
            if (!sameVec(ref, r, at))
            {
                fail(kViolation, ("schedule:" + op.name).c_str(), "the result of %s with %d threads differs from that with one thread at value %zu of %zu", op.name.c_str(), op.threads, at, ref.size());
            }
        }
    };

    // ------------------------------------------------------------------ error reporting (C13)
    struct Errors : Oracle
    {
        std::string lastMsg;
        bool haveMsg = false;
        int code[10] = {};         // the documented exit codes, as the interface gives them
        int item = 0, itemType = 3; // of the latest geometry error; none at the start of the program
        bool haveItem = false;
        static std::vector<double> text(const std::string& s)
        {
            return std::vector<double>(s.begin(), s.end());
        }
        static std::string getMsg()
        {
            Arr<char> m(512);
            rt::KernelScope k;
            mk::mkernel_get_error(m.p);
            m.p[511] = 0;
            return m.p;
        }
        static void provoke(int which)
        {
            rt::KernelScope k;
            int a = 0;
            if (which)
            {
                mk::mkernel_allocate_state(77, a);
            }
            else
            {
                mk::Mesh2D m;
                mk::mkernel_mesh2d_get_dimensions(-5, m);
            }
        }
        static std::vector<double> codes()
        {
            rt::KernelScope k;
            int c[10];
            for (int& v : c)
            {
                v = -1;
            }
            mk::mkernel_get_exit_code_success(c[0]);
            mk::mkernel_get_exit_code_meshkernel_error(c[1]);
            mk::mkernel_get_exit_code_not_implemented_error(c[2]);
            mk::mkernel_get_exit_code_algorithm_error(c[3]);
            mk::mkernel_get_exit_code_constraint_error(c[4]);
            mk::mkernel_get_exit_code_mesh_geometry_error(c[5]);
            mk::mkernel_get_exit_code_linear_algebra_error(c[6]);
            mk::mkernel_get_exit_code_range_error(c[7]);
            mk::mkernel_get_exit_code_stdlib_exception(c[8]);
            mk::mkernel_get_exit_code_unknown_exception(c[9]);
            return std::vector<double>(c, c + 10);
        }
        static std::vector<double> getItem()
        {
            rt::KernelScope k;
            int i = -77, t = -77;
            mk::mkernel_get_geometry_error(i, t);
            return {static_cast<double>(i), static_cast<double>(t)};
        }
        // the failure a message names belongs to the code that was returned
        void consistent(const std::string& api, int rc, const std::string& msg)
        {
            static const char* const kinds[] = {"", "MeshKernelError", "NotImplementedError", "AlgorithmError", "ConstraintError", "MeshGeometryError", "LinearAlgebraError", "RangeError"};
            cmp();
            for (int k = 1; k < 8; ++k)
            {
                if (msg.rfind(std::string("Exception of type '") + kinds[k] + "'", 0) == 0 && rc != code[k])
                {
                    fail(kViolation, ("wrong-code:" + api).c_str(), "%s returned %d, its message is '%s'", api.c_str(), rc, msg.c_str());
                }
            }
        }
        void start(Exec&) override
        {
            std::vector<double> cs = child([&]
                                           { return codes(); });
            for (int k = 0; k < 10; ++k)
            {
                if (static_cast<int>(cs.size()) != 10 || cs[static_cast<size_t>(k)] != k)
                {
                    fail(kViolation, "exit-code-table", "the documented exit code %d is reported as %g", k, cs.empty() ? -1 : cs[static_cast<size_t>(k)]);
                }
                code[k] = k;
            }
            std::vector<double> a = child([&]
                                          { provoke(0); return text(getMsg()); });
            std::vector<double> b = child([&]
                                          { provoke(1); return text(getMsg()); });
            if (a.empty() || b.empty() || a == b)
            {
                fail(kViolation, "message-of-failure", "two different failures give the message '%s'", std::string(a.begin(), a.end()).c_str());
            }
        }
        void before(Exec& x, const OpSpec& op, const OpDef& d) override
        {
            World w0 = x.w;
            if (op.bad || op.fault >= 0)
            {
                std::vector<double> r[2];
                for (int k = 0; k < 2; ++k)
                {
                    r[k] = child([&]
                                 {
                        provoke(k);
                        World w = w0;
                        Out out;
                        perform(w, op, out);
                        std::vector<double> v{static_cast<double>(anyFail(out)), static_cast<double>(out.rc.empty() ? 0 : out.rc.back())};
                        std::vector<double> t = text(out.errmsg);
                        v.insert(v.end(), t.begin(), t.end());
                        return v; });
                }
                cmp();
                if (r[0] != r[1])
                {
                    fail(kViolation, ("stale-message:" + op.name).c_str(), "the error reported after %s depends on an earlier failure: '%s' / '%s'", op.name.c_str(),
                         std::string(r[0].begin() + 2, r[0].end()).c_str(), std::string(r[1].begin() + 2, r[1].end()).c_str());
                }
            }
            // the same call on a state that does not exist
            static const std::set<std::string> noId = {"c_alloc", "c_undo", "c_redo", "c_clear", "c_clear_undo", "c_undo_size", "c_counts", "q_get_splines", "c_clear_undo_id"};
            if (!noId.count(op.name) && (op.seed & 3) == 0)
            {
                std::vector<int> own = w0.slotsOf(op.client);
                if (!own.empty())
                {
                    child([&]
                          {
                        World w = w0;
                        int idx = own[0];
                        int ghost = (op.seed & 4) ? 424242 : -3;
                        for (size_t s = 0; s < w.slots.size(); ++s)
                        {
                            w.slots[s].alive = static_cast<int>(s) == idx;
                        }
                        w.slots[static_cast<size_t>(idx)].id = ghost;
                        w.slots[static_cast<size_t>(idx)].loose = false;
                        OpSpec o = op;
                        o.bad = false;
                        o.fault = -1;
                        Out out;
                        perform(w, o, out);
                        if (out.skipped)
                        {
                            return std::vector<double>{};
                        }
                        if (!out.rc.empty() && out.rc[0] == 0)
                        {
                            fail(kViolation, ("unknown-state:" + out.api[0]).c_str(), "%s on a state that does not exist reports success", out.api[0].c_str());
                        }
                        World w2 = w0;
                        w2.slots.push_back(w.slots[static_cast<size_t>(idx)]);
                        WorldSnap n = observe(w2);
                        if (n.s.back().exists)
                        {
                            fail(kViolation, ("unknown-state-created:" + out.api[0]).c_str(), "%s on a state that does not exist creates it", out.api[0].c_str());
                        }
                        if (n.com != w0.snap.com || n.res != w0.snap.res)
                        {
                            fail(kViolation, ("unknown-state-history:" + out.api[0]).c_str(), "%s on a state that does not exist changes the history", out.api[0].c_str());
                        }
                        return std::vector<double>{}; });
                    cmp();
                }
            }
        }
        void after(Exec&, const OpSpec&, const OpDef&, const Out& out, const WorldSnap&, const WorldSnap&) override
        {
            if (out.skipped)
            {
                return;
            }
            std::string api = lastApi(out);
            for (int r : out.rc)
            {
                if (r < 0 || r > 9)
                {
                    fail(kViolation, ("exit-code:" + api).c_str(), "%s returned %d, which is not a documented exit code", api.c_str(), r);
                }
            }
            if (anyFail(out))
            {
                if (out.errmsg == "<unterminated>")
                {
                    fail(kViolation, ("unterminated:" + api).c_str(), "the message after failing %s is not terminated", api.c_str());
                }
                if (out.errmsg.empty())
                {
                    fail(kViolation, ("no-message:" + api).c_str(), "%s failed with code %d without a message", api.c_str(), out.rc.back());
                }
                lastMsg = out.errmsg;
                haveMsg = true;
                consistent(api, lastFail(out), out.errmsg);
                if (out.fired && out.errmsg == "std::bad_alloc" && lastFail(out) != code[8])
                {
                    fail(kViolation, ("wrong-code:" + api).c_str(), "%s returned %d after a failed allocation", api.c_str(), lastFail(out));
                }
                if (lastFail(out) == code[5])
                {
                    unsigned n = 0;
                    char loc[32] = "";
                    size_t at = out.errmsg.find("Error occurred at index ");
                    bool named = at != std::string::npos && sscanf(out.errmsg.c_str() + at, "Error occurred at index %u (location: %31[A-Za-z])", &n, loc) == 2;
                    if (named && static_cast<int>(n) != out.geomIndex)
                    {
                        fail(kViolation, ("item:" + api).c_str(), "%s failed with '%s', but the reported mesh item is %d", api.c_str(), out.errmsg.c_str(), out.geomIndex);
                    }
                    if (out.badNode >= 0 && (out.geomIndex != out.badNode || out.geomType != 1))
                    {
                        fail(kViolation, ("item:" + api).c_str(), "%s failed at node %d, but the reported mesh item is %d, location %d", api.c_str(), out.badNode, out.geomIndex, out.geomType);
                    }
                    item = out.geomIndex;
                    itemType = out.geomType;
                    haveItem = true;
                }
            }
            else if (haveMsg)
            {
                cmp();
                std::vector<double> m = child([&]
                                              { return text(getMsg()); });
                std::string now(m.begin(), m.end());
                if (now != lastMsg)
                {
                    fail(kViolation, ("message-lost:" + api).c_str(), "successful %s changed the reported error from '%s' to '%s'", api.c_str(), lastMsg.c_str(), now.c_str());
                }
            }
            if (haveItem)
            {
                cmp();
                std::vector<double> m = child([&]
                                              { return getItem(); });
                if (m.size() != 2 || m[0] != item || m[1] != itemType)
                {
                    fail(kViolation, ("item-lost:" + api).c_str(), "%s changed the mesh item of the latest geometry error from %d to %g", api.c_str(), item, m.empty() ? -1 : m[0]);
                }
            }
        }
    };

    // ------------------------------------------------------------------ derived data (C14)
    struct Fresh : Oracle
    {
        uint64_t same = 0, other = 0;
        // copy the content of s into a new state; false when the library does not accept it
        static bool copyInto(int id, const Snap& s)
        {
            rt::KernelScope k;
            rt::g_opname = "copy of the content";
            if (s.m2.nn() > 0)
            {
                Arr<double> x(s.m2.x), y(s.m2.y);
                Arr<int> en(s.m2.en), fn(s.m2.fn), npf(s.m2.npf);
                mk::Mesh2D m;
                m.node_x = x.p;
                m.node_y = y.p;
                m.edge_nodes = en.p;
                m.face_nodes = fn.p;
                m.nodes_per_face = npf.p;
                m.num_nodes = s.m2.nn();
                m.num_edges = s.m2.ne();
                m.num_faces = s.m2.nf();
                m.num_face_nodes = static_cast<int>(s.m2.fn.size());
                m.num_valid_nodes = s.m2.nvn;
                m.num_valid_edges = s.m2.nve;
                if (mk::mkernel_mesh2d_set(id, m) != 0)
                {
                    return false;
                }
                mk::mkernel_mesh2d_get_dimensions(id, m);
            }
            if (!s.m1.x.empty())
            {
                Arr<double> x(s.m1.x), y(s.m1.y);
                Arr<int> en(s.m1.en);
                mk::Mesh1D m;
                m.node_x = x.p;
                m.node_y = y.p;
                m.edge_nodes = en.p;
                m.num_nodes = static_cast<int>(s.m1.x.size());
                m.num_edges = static_cast<int>(s.m1.en.size() / 2);
                m.num_valid_nodes = s.m1.nvn;
                m.num_valid_edges = s.m1.nve;
                if (mk::mkernel_mesh1d_set(id, m) != 0)
                {
                    return false;
                }
            }
            if (s.cg.n > 0 && s.cg.m > 0)
            {
                Arr<double> x(s.cg.x), y(s.cg.y);
                mk::CurvilinearGrid g;
                g.node_x = x.p;
                g.node_y = y.p;
                g.num_n = s.cg.n;
                g.num_m = s.cg.m;
                if (mk::mkernel_curvilinear_set(id, g) != 0)
                {
                    return false;
                }
            }
            return true;
        }
        // the same edit on the same content, again (after an undo): the same outcome
        struct Past
        {
            std::vector<double> v;
            Snap s;
        };
        std::map<std::tuple<int, std::string, uint64_t, uint64_t>, Past> past;
        std::map<int, std::vector<std::string>> recent; // names of the latest edits by slot
        void again(const OpSpec& op, const OpDef& d, const Out& out, const WorldSnap& b, const WorldSnap& n, const World& w)
        {
            if (op.bad || out.fired || out.slot < 0 || (d.flags & (fCtl | fSes)) || isUndo(op))
            {
                return;
            }
            const Slot& slot = w.slots[static_cast<size_t>(out.slot)];
            const size_t sl = static_cast<size_t>(out.slot);
            auto& rc = recent[out.slot];
            rc.push_back(op.name);
            if (rc.size() > 4)
            {
                rc.erase(rc.begin());
            }
            if (slot.loose || slot.mixed || sl >= b.s.size() || !b.s[sl].exists || !n.s[sl].exists)
            {
                return;
            }
            auto key = std::make_tuple(out.slot, op.name, op.seed, hashSnap(b.s[sl]));
            Past now{flattenOut(out), n.s[sl]};
            now.s.com = now.s.res = 0;
            now.s.codes.clear();
            auto it = past.find(key);
            if (it == past.end())
            {
                past[key] = now;
                return;
            }
            cmp();
            size_t at;
            std::string df = sameVec(it->second.v, now.v, at) ? diffSnap(it->second.s, now.s, true) : std::string("exit codes or values");
            if (!df.empty())
            {
                fail(kViolation, ("not-repeatable:" + lastApi(out)).c_str(), "%s, repeated on the same content with the same arguments, gives another result: %s", lastApi(out).c_str(), df.c_str());
            }
        }
        static bool comparable(const Snap& s)
        {
            return s.exists && (s.m2.nn() > 0 || s.cg.n > 0 || !s.m1.x.empty()) && s.c1.empty();
        }
        // queries answered from the search trees: they need no administration
        static bool tree(const std::string& q)
        {
            return q == "q_node_index" || q == "q_closest_node" || q == "q_edge" || q == "q_location" || q == "q_cg_location";
        }
        // One more step, and questions after it: whether the questions were asked before the step as well makes no difference.
        void coldWarm(const World& w0, int sl, const WorldSnap& n, const OpSpec& op)
        {
            const size_t us = static_cast<size_t>(sl);
            rt::Rng r(op.seed ^ 0xc01d);
            World base = w0;
            for (size_t q = 0; q < base.slots.size(); ++q)
            {
                base.slots[q].alive = q == us;
            }
            base.snap = n;
            const Snap& s = n.s[us];
            std::vector<const OpDef*> qs, ts, es;
            for (const OpDef& q : catalogue())
            {
                if (!q.when(s) || (q.flags & (fCtl | fSes)))
                {
                    continue;
                }
                if (q.flags & fQ)
                {
                    (tree(q.name) ? ts : qs).push_back(&q);
                }
                else if (!(q.flags & fSlow))
                {
                    es.push_back(&q);
                }
            }
            auto spec = [&](const std::string& name)
            {
                OpSpec p;
                p.client = base.slots[us].client;
                p.name = name;
                p.seed = r.next() >> 16;
                return p;
            };
            std::vector<OpSpec> ask;
            const int num = 3 + static_cast<int>(r.below(3));
            for (int k = 0; k < num; ++k)
            {
                const auto& from = !ts.empty() && r.chance(0.7) ? ts : qs;
                if (!from.empty())
                {
                    ask.push_back(spec(from[r.below(from.size())]->name));
                }
            }
            const double u = r.uni();
            const bool undo = s.com > 0 && (s.res == 0 || r.chance(0.5)), redo = !undo && s.res > 0;
            const OpSpec step = (u >= 0.7 || !(undo || redo)) && !es.empty() ? spec(es[r.below(es.size())]->name) : spec(undo ? "c_undo" : "c_redo");
            const bool raw = r.chance(0.5);
            auto run = [&](bool before)
            {
                return child([&]
                             {
                World w = base;
                std::vector<double> v;
                if (before)
                {
                    for (const OpSpec& q : ask)
                    {
                        Out o;
                        perform(w, q, o);
                    }
                }
                w.noRefresh = raw;
                Out so;
                perform(w, step, so);
                auto add = [&](const Out& o)
                {
                    std::vector<double> f = flattenOut(o);
                    v.insert(v.end(), f.begin(), f.end());
                };
                add(so);
                w.noRefresh = false;
                w.snap = observe(w);
                if (w.snap.s.size() <= us || !w.snap.s[us].exists)
                {
                    return v;
                }
                for (int pass = raw ? 0 : 1; pass < 2; ++pass)
                {
                    if (raw && pass == 1)
                    {
                        rt::g_opname = "mkernel_mesh2d_get_dimensions (refresh)";
                        mk::Mesh2D m;
                        rt::KernelScope k;
                        mk::mkernel_mesh2d_get_dimensions(w.slots[us].id, m);
                    }
                    for (const OpSpec& q : ask)
                    {
                        const OpDef* f = findOp(q.name);
                        if ((pass == 0 && !tree(q.name)) || !f->when(w.snap.s[us]) || w.slots[us].loose)
                        {
                            continue;
                        }
                        Out o;
                        perform(w, q, o);
                        add(o);
                    }
                }
                return v; });
            };
            std::vector<double> cold = run(false), hot = run(true);
            cmp();
            size_t at;
            if (!sameVec(cold, hot, at))
            {
                std::string names;
                for (const OpSpec& q : ask)
                {
                    names += " " + q.name;
                }
                fail(kViolation, ("asked-before:" + step.name).c_str(), "after %s: %s, then%s: the answers depend on whether they were asked before the step as well (value %zu of %zu: %.17g vs %.17g)", op.name.c_str(), step.name.c_str(), names.c_str(), at, cold.size(), at < cold.size() ? cold[at] : -1.0, at < hot.size() ? hot[at] : -1.0);
            }
        }
        // Fills caches by asking queries, then makes one more step; the same queries are asked after it.
        bool warm(World& w, int sl, const WorldSnap& n, rt::Rng& r, Snap& s, std::vector<OpSpec>& asked, bool& raw)
        {
            const size_t us = static_cast<size_t>(sl);
            for (size_t q = 0; q < w.slots.size(); ++q)
            {
                w.slots[q].alive = q == us;
            }
            w.snap = n;
            std::vector<const OpDef*> qs, ts, es;
            for (const OpDef& q : catalogue())
            {
                if (!q.when(s) || (q.flags & (fCtl | fSes)) || q.name.rfind("net_", 0) == 0)
                {
                    continue;
                }
                if (q.flags & fQ)
                {
                    qs.push_back(&q);
                    if (tree(q.name))
                    {
                        ts.push_back(&q);
                    }
                }
                else if (!(q.flags & fSlow))
                {
                    es.push_back(&q);
                }
            }
            auto step = [&](const std::string& name, Out& o)
            {
                OpSpec p;
                p.client = w.slots[us].client;
                p.name = name;
                p.seed = r.next() >> 16;
                perform(w, p, o);
                return p;
            };
            const int num = 3 + static_cast<int>(r.below(3));
            for (int k = 0; k < num; ++k)
            {
                const auto& from = !ts.empty() && r.chance(0.7) ? ts : qs;
                if (!from.empty())
                {
                    Out o;
                    asked.push_back(step(from[r.below(from.size())]->name, o));
                }
            }
            w.noRefresh = r.chance(0.5);
            Out o;
            const double u = r.uni();
            if (u < 0.4)
            {
                step("c_undo", o);
            }
            else if (u < 0.7)
            {
                step("c_redo", o);
            }
            if ((u >= 0.7 || !o.undone) && !es.empty())
            {
                o = Out();
                step(es[r.below(es.size())]->name, o);
            }
            raw = w.noRefresh;
            w.noRefresh = false;
            WorldSnap now = observe(w);
            s = now.s[us];
            if (w.slots[us].loose || w.slots[us].mixed || !comparable(s))
            {
                return false;
            }
            if (raw && s.m2.nn() > 0)
            {
                // only where the administration, which is still to come, leaves the nodes and edges as they are
                Arr<double> x(s.m2.x.size()), y(s.m2.y.size());
                Arr<int> en(s.m2.en.size());
                mk::Mesh2D m;
                m.node_x = x.p;
                m.node_y = y.p;
                m.edge_nodes = en.p;
                m.num_nodes = s.m2.nn();
                m.num_edges = s.m2.ne();
                m.num_valid_nodes = s.m2.nvn;
                m.num_valid_edges = s.m2.nve;
                rt::KernelScope k;
                rt::g_opname = "mkernel_mesh2d_get_node_edge_data";
                if (mk::mkernel_mesh2d_get_node_edge_data(w.slots[us].id, m) != 0 || x.vec() != s.m2.x || y.vec() != s.m2.y || en.vec() != s.m2.en)
                {
                    mk::mkernel_mesh2d_get_dimensions(w.slots[us].id, m);
                    raw = false;
                }
            }
            return true;
        }
        void after(Exec& x, const OpSpec& op, const OpDef& d, const Out& out, const WorldSnap& before, const WorldSnap& n) override
        {
            if (out.skipped || (d.flags & fQ))
            {
                return;
            }
            again(op, d, out, before, n, x.w);
            int sl = out.slot;
            if (isUndo(op) && out.undone)
            {
                sl = x.w.slotOfId(out.undoneId);
            }
            if (sl < 0 || !n.s[static_cast<size_t>(sl)].exists || x.w.slots[static_cast<size_t>(sl)].loose || x.w.slots[static_cast<size_t>(sl)].mixed)
            {
                return;
            }
            World w0 = x.w;
            if ((op.seed >> 7) % 100 < 35 && n.s[static_cast<size_t>(sl)].exists)
            {
                coldWarm(w0, sl, n, op);
            }
            if (!comparable(n.s[static_cast<size_t>(sl)]))
            {
                return;
            }
            child([&]
                  {
                int id = -1;
                Snap s = n.s[static_cast<size_t>(sl)];
                rt::Rng r(op.seed ^ 0xf5e5);
                std::vector<OpSpec> asked;
                bool raw = false;
                if (r.chance(0.6) && !warm(w0, sl, n, r, s, asked, raw))
                {
                    return std::vector<double>{};
                }
                {
                    rt::KernelScope k;
                    if (mk::mkernel_allocate_state(s.proj, id) != 0)
                    {
                        return std::vector<double>{};
                    }
                }
                if (!copyInto(id, s))
                {
                    return std::vector<double>{};
                }
                World wa = w0, wb = w0;
                Slot fresh;
                fresh.client = w0.slots[static_cast<size_t>(sl)].client;
                fresh.id = id;
                fresh.alive = true;
                wb.slots.push_back(fresh);
                WorldSnap all = observe(wb);
                Snap fs = all.s.back();
                // a client cannot tell the two apart: networks, and nodes kept by one only, are left out
                Snap a = s, b = fs;
                a.neta = b.neta = a.netb = b.netb = M1();
                a.com = a.res = b.com = b.res = 0;
                a.codes.clear();
                b.codes.clear();
                if (!diffSnap(a, b, true).empty())
                {
                    if (getenv("SIM_TRACE"))
                    {
                        fprintf(stderr, "   copy differs: %s\n", diffSnap(a, b, true).c_str());
                    }
                    return std::vector<double>{};
                }
                g_stats->par++;
                for (size_t q = 0; q < wa.slots.size(); ++q)
                {
                    wa.slots[q].alive = static_cast<int>(q) == sl;
                }
                for (size_t q = 0; q < wb.slots.size(); ++q)
                {
                    wb.slots[q].alive = q + 1 == wb.slots.size();
                }
                wa.snap = all;
                wb.snap = all;
                // the observing calls of the copy come from the original's snapshot, so that the arguments are the same
                wb.snap.s.back() = s;
                const auto& cat = catalogue();
                std::vector<const OpDef*> qs, es;
                for (const OpDef& q : cat)
                {
                    bool net = q.name.rfind("net_", 0) == 0 || q.name.rfind("q_net", 0) == 0 || (q.flags & (fCtl | fSes));
                    if (net || !q.when(s))
                    {
                        continue;
                    }
                    if (q.flags & fQ)
                    {
                        qs.push_back(&q);
                    }
                    else if (!(q.flags & fSlow))
                    {
                        es.push_back(&q);
                    }
                }
                auto both = [&](const OpDef& q, bool edit, uint64_t seed = 0)
                {
                    OpSpec o;
                    o.client = fresh.client;
                    o.name = q.name;
                    o.seed = seed ? seed : r.next() >> 16;
                    Out oa, ob;
                    perform(wa, o, oa);
                    perform(wb, o, ob);
                    cmp();
                    if (oa.skipped || ob.skipped)
                    {
                        return;
                    }
                    std::vector<double> va = flattenOut(oa), vb = flattenOut(ob);
                    size_t at;
                    if (!sameVec(va, vb, at))
                    {
                        fail(kViolation, ("history-dependent:" + lastApi(oa)).c_str(), "after %s, %s answers differently than for a new state with the same content (value %zu of %zu: %.17g vs %.17g)", op.name.c_str(), lastApi(oa).c_str(), at, va.size(), at < va.size() ? va[at] : -1.0, at < vb.size() ? vb[at] : -1.0);
                    }
                    if (edit)
                    {
                        wa.slots.push_back(fresh);
                        WorldSnap e = observe(wa);
                        Snap p = e.s[static_cast<size_t>(sl)], t = e.s.back();
                        p.neta = t.neta = p.netb = t.netb = M1();
                        p.codes.clear();
                        t.codes.clear();
                        std::string df = diffSnap(p, t, true);
                        if (!df.empty())
                        {
                            fail(kViolation, ("history-dependent:" + lastApi(oa)).c_str(), "after %s, %s gives another result than on a new state with the same content: %s", op.name.c_str(), lastApi(oa).c_str(), df.c_str());
                        }
                    }
                };
                for (const OpSpec& q : asked)
                {
                    const OpDef* f = findOp(q.name);
                    if ((!raw || tree(q.name)) && std::find(qs.begin(), qs.end(), f) != qs.end())
                    {
                        both(*f, false, q.seed);
                    }
                }
                if (raw)
                {
                    rt::g_opname = "mkernel_mesh2d_get_dimensions (refresh)";
                    mk::Mesh2D m;
                    rt::KernelScope k;
                    mk::mkernel_mesh2d_get_dimensions(wa.slots[static_cast<size_t>(sl)].id, m);
                }
                for (int k = 0; k < (asked.empty() ? 6 : 3) && !qs.empty(); ++k)
                {
                    both(*qs[r.below(qs.size())], false);
                }
                if (!es.empty())
                {
                    const OpDef* e = es[r.below(es.size())];
                    const auto& rc = recent[sl];
                    if (!rc.empty() && r.chance(0.4))
                    {
                        // one of the kinds of edits made (and perhaps undone) before
                        const OpDef* f = findOp(rc[r.below(rc.size())]);
                        e = std::find(es.begin(), es.end(), f) != es.end() ? f : e;
                    }
                    both(*e, true);
                }
                return std::vector<double>{}; });
        }
    };

    // ------------------------------------------------------------------ sessions (C08)
    // A shadow process is forked when a session starts and receives the steps of that session only.
    struct Shadow
    {
        pid_t pid = -1;
        int to = -1, from = -1;
    };
    struct Sessions : Oracle
    {
        struct Key
        {
            int slot;
            int kind; // 0 mesh orthogonalisation, 1 grid orthogonalisation, 2 line shift, 3 splines
            bool operator<(const Key& o) const { return slot != o.slot ? slot < o.slot : kind < o.kind; }
        };
        enum St
        {
            None,    // no session
            Live,    // session with a shadow
            Unknown, // session, but the content was edited since
            Gone     // session of content that was replaced
        };
        struct Ses
        {
            St st = None;
            Shadow sh;
        };
        std::map<Key, Ses> ses;
        Ses starting; // twin for the session that is being started
        int startSlot = -1;

        static int kindOf(const std::string& n)
        {
            if (n.rfind("os_", 0) == 0)
            {
                return 0;
            }
            if (n.rfind("co_", 0) == 0)
            {
                return 1;
            }
            if (n.rfind("ls_", 0) == 0)
            {
                return 2;
            }
            if (n.rfind("sp_", 0) == 0)
            {
                return 3;
            }
            return -1;
        }
        static bool isInit(const std::string& n) { return n.size() > 5 && n.compare(3, 4, "init") == 0; }
        static bool isEnd(const std::string& n) { return n == "os_delete" || n == "co_finalize" || n == "ls_finalize" || n == "sp_delete"; }
        static void wr(int fd, const void* p, size_t n)
        {
            if (write(fd, p, n) != static_cast<ssize_t>(n))
            {
                _exit(0);
            }
        }
        static bool rd(int fd, void* p, size_t n)
        {
            char* c = static_cast<char*>(p);
            while (n)
            {
                ssize_t k = read(fd, c, n);
                if (k <= 0)
                {
                    return false;
                }
                c += k;
                n -= static_cast<size_t>(k);
            }
            return true;
        }
        // contents a session of this kind works on
        static std::vector<double> content(const Snap& s, int kind)
        {
            Snap p;
            p.exists = 1;
            if (kind == 0)
            {
                p.m2 = s.m2;
            }
            else
            {
                p.cg = s.cg;
            }
            return flatten(p);
        }
        void kill(Ses& s)
        {
            if (s.sh.pid > 0)
            {
                close(s.sh.to);
                close(s.sh.from);
                int st;
                waitpid(s.sh.pid, &st, 0);
                if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0) && rt::g_report->kind != rt::kNone)
                {
                    _exit(10 + rt::g_report->kind);
                }
                s.sh = Shadow();
            }
        }
        // A twin of the process in which a session of before, if any, is ended first: a session depends on nothing but its own calls
        Shadow spawn(Exec& x, int slot, int kind)
        {
            int a[2], b[2];
            if (pipe(a) || pipe(b))
            {
                fail(rt::kHarness, "harness", "pipe");
            }
            g_stats->forks++;
            pid_t pid = fork();
            if (pid == 0)
            {
                close(a[1]);
                close(b[0]);
                for (auto& [k, s] : ses)
                {
                    if (s.sh.pid > 0)
                    {
                        close(s.sh.to);
                        close(s.sh.from);
                    }
                }
                World w = x.w;
                for (size_t q = 0; q < w.slots.size(); ++q)
                {
                    w.slots[q].alive = static_cast<int>(q) == slot;
                }
                {
                    rt::g_opname = "end of the session of before";
                    const int id = w.slots[static_cast<size_t>(slot)].id;
                    rt::KernelScope ks;
                    switch (kind)
                    {
                    case 0:
                        mk::mkernel_mesh2d_delete_orthogonalization(id);
                        break;
                    case 1:
                        mk::mkernel_curvilinear_finalize_orthogonalize(id);
                        break;
                    case 2:
                        mk::mkernel_curvilinear_finalize_line_shift(id);
                        break;
                    default:
                        mk::mkernel_curvilinear_delete_orthogonal_grid_from_splines(id);
                        break;
                    }
                }
                for (;;)
                {
                    uint32_t n;
                    if (!rd(a[0], &n, sizeof n))
                    {
                        _exit(0);
                    }
                    std::string t(n, ' ');
                    rd(a[0], t.data(), n);
                    Trace tr;
                    parseTrace(t, tr);
                    Out out;
                    w.snap = observe(w);
                    perform(w, tr.ops[0], out);
                    w.snap = observe(w);
                    std::vector<double> r{static_cast<double>(out.skipped)}, f = flattenOut(out), c = content(w.snap.s[static_cast<size_t>(slot)], kind);
                    r.insert(r.end(), f.begin(), f.end());
                    r.insert(r.end(), c.begin(), c.end());
                    uint32_t m = static_cast<uint32_t>(r.size());
                    wr(b[1], &m, sizeof m);
                    wr(b[1], r.data(), m * sizeof(double));
                }
            }
            close(a[0]);
            close(b[1]);
            Shadow s;
            s.pid = pid;
            s.to = a[1];
            s.from = b[0];
            return s;
        }
        void before(Exec& x, const OpSpec& op, const OpDef& d) override
        {
            kill(starting);
            if (kindOf(op.name) >= 0 && isInit(op.name))
            {
                std::vector<int> own = x.w.slotsOf(op.client);
                if (!own.empty())
                {
                    rt::Rng r(op.seed);
                    startSlot = own[r.below(own.size())];
                    starting.sh = spawn(x, startSlot, kindOf(op.name));
                }
            }
            // stepwise orthogonalisation equals the single call
            if (op.name == "m2_ortho_compute" && !op.bad)
            {
                std::vector<int> own = x.w.slotsOf(op.client);
                if (own.empty() || !d.when(x.w.snap.s[static_cast<size_t>(own[0])]))
                {
                    return;
                }
                int id = x.w.slots[static_cast<size_t>(own[0])].id, slot = own[0];
                rt::Rng r(op.seed ^ 0x57e9);
                meshkernel::OrthogonalizationParameters p;
                p.outer_iterations = r.range(1, 3);
                p.boundary_iterations = r.range(1, 2);
                p.inner_iterations = r.range(1, 3);
                p.orthogonalization_to_smoothing_factor = r.chance(0.3) ? 1.0 : r.uni(0.0, 1.0);
                p.orthogonalization_to_smoothing_factor_at_boundary = r.uni(0.0, 1.0);
                p.areal_to_angle_smoothing_factor = r.chance(0.3) ? 1.0 : r.uni(0.0, 1.0);
                bool query = r.chance(0.5);
                std::vector<double> v[2];
                for (int k = 0; k < 2; ++k)
                {
                    v[k] = child([&]
                                 {
                        World w = x.w;
                        Geo pol({}, {}), land({}, {});
                        int rc = 0;
                        bool refold = false;
                        const M2 ref = query && k ? observe(w).s[static_cast<size_t>(slot)].m2 : M2();
                        auto call = [&](const std::function<int()>& f)
                        {
                            if (rc == 0)
                            {
                                rt::KernelScope ks;
                                rc = f();
                            }
                        };
                        rt::g_opname = k ? "orthogonalisation in steps" : "mkernel_mesh2d_compute_orthogonalization";
                        auto pp = p;
                        if (k == 0)
                        {
                            call([&] { return mk::mkernel_mesh2d_compute_orthogonalization(id, 0, pp, pol.g, land.g); });
                        }
                        else
                        {
                            call([&] { return mk::mkernel_mesh2d_initialize_orthogonalization(id, 0, pp, pol.g, land.g); });
                            for (int o = 0; o < p.outer_iterations; ++o)
                            {
                                call([&] { return mk::mkernel_mesh2d_prepare_outer_iteration_orthogonalization(id); });
                                for (int i = 0; i < p.boundary_iterations * p.inner_iterations; ++i)
                                {
                                    call([&] { return mk::mkernel_mesh2d_compute_inner_ortogonalization_iteration(id); });
                                    if (query)
                                    {
                                        mk::Mesh2D m;
                                        {
                                            rt::KernelScope ks;
                                            mkernel_mesh2d_get_dimensions(id, m);
                                        }
                                        // when the steps have folded the mesh such that its faces are others,
                                        // reading it renews the administration the session started with
                                        const M2 now = observe(w).s[static_cast<size_t>(slot)].m2;
                                        refold |= now.en != ref.en || now.fn != ref.fn || now.fe != ref.fe || now.ef != ref.ef;
                                    }
                                }
                                call([&] { return mk::mkernel_mesh2d_finalize_inner_ortogonalization_iteration(id); });
                            }
                            call([&] { return mk::mkernel_mesh2d_delete_orthogonalization(id); });
                        }
                        WorldSnap n = observe(w);
                        if (refold)
                        {
                            return std::vector<double>();
                        }
                        std::vector<double> r2{static_cast<double>(rc != 0)};
                        if (rc == 0)
                        {
                            std::vector<double> c = content(n.s[static_cast<size_t>(slot)], 0);
                            r2.insert(r2.end(), c.begin(), c.end());
                        }
                        return r2; });
                }
                size_t at;
                cmp();
                if (!v[1].empty() && !sameVec(v[0], v[1], at))
                {
                    fail(kViolation, "stepwise", "orthogonalisation in steps gives another mesh than the single call (value %zu)", at);
                }
            }
        }
        void compare(Ses& s, const OpSpec& op, const Out& out, const std::vector<double>& cn, const std::string& api)
        {
            size_t at;
            std::string t = opText(op) + "\n";
            uint32_t len = static_cast<uint32_t>(t.size()), m = 0;
            wr(s.sh.to, &len, sizeof len);
            wr(s.sh.to, t.data(), len);
            std::vector<double> r;
            if (rd(s.sh.from, &m, sizeof m))
            {
                r.resize(m);
                rd(s.sh.from, r.data(), m * sizeof(double));
            }
            if (r.empty())
            {
                kill(s);
                fail(rt::kHarness, "harness", "the shadow process of a session ended");
            }
            std::vector<double> g{static_cast<double>(out.skipped)}, f = flattenOut(out);
            g.insert(g.end(), f.begin(), f.end());
            g.insert(g.end(), cn.begin(), cn.end());
            cmp();
            if (!sameVec(r, g, at))
            {
                fail(kViolation, ("session:" + api).c_str(), "%s gives another result than in the same session without other calls in between (value %zu of %zu: %.17g vs %.17g)", api.c_str(), at, g.size(), at < g.size() ? g[at] : -1.0, at < r.size() ? r[at] : -1.0);
            }
        }
        void after(Exec& x, const OpSpec& op, const OpDef& d, const Out& out, const WorldSnap& b, const WorldSnap& n) override
        {
            if (out.skipped)
            {
                return;
            }
            int kind = kindOf(op.name);
            int sl = out.slot;
            std::string api = lastApi(out);
            if (kind >= 0 && sl >= 0)
            {
                Ses& s = ses[Key{sl, kind}];
                std::vector<double> cb = content(b.s[static_cast<size_t>(sl)], kind), cn = content(n.s[static_cast<size_t>(sl)], kind);
                size_t at;
                if (isInit(op.name))
                {
                    kill(s);
                    s.st = Unknown;
                    if (!anyFail(out) && starting.sh.pid > 0 && startSlot == sl)
                    {
                        s.st = Live;
                        std::swap(s.sh, starting.sh);
                        compare(s, op, out, cn, api);
                    }
                }
                else if (isEnd(op.name))
                {
                    kill(s);
                    if (!anyFail(out))
                    {
                        s.st = None;
                    }
                }
                else if (s.st == None || s.st == Gone)
                {
                    cmp();
                    bool ok = false;
                    for (int r : out.rc)
                    {
                        ok = ok || r == 0;
                    }
                    if (ok)
                    {
                        fail(kViolation, ("step-without-session:" + api).c_str(), "%s succeeded although %s", api.c_str(), s.st == None ? "no session was started" : "the content of its session was replaced");
                    }
                    if (!sameVec(cb, cn, at))
                    {
                        fail(kViolation, ("step-changes:" + api).c_str(), "failing %s changed the content", api.c_str());
                    }
                }
                else if (s.st == Live)
                {
                    compare(s, op, out, cn, api);
                }
                // a session lasts until it is ended or what it works on is replaced
                if (s.st == Live && !anyFail(out) && kind != 0 && (kind != 2 || op.name == "ls_run"))
                {
                    int id = x.w.slots[static_cast<size_t>(sl)].id;
                    std::vector<double> v = child([&]
                                                  {
                        rt::KernelScope ks;
                        rt::g_opname = "the next step of the session";
                        int rc = kind == 1   ? mk::mkernel_curvilinear_finalize_orthogonalize(id)
                                 : kind == 2 ? mk::mkernel_curvilinear_line_shift(id)
                                             : mk::mkernel_curvilinear_delete_orthogonal_grid_from_splines(id);
                        return std::vector<double>{static_cast<double>(rc)}; });
                    cmp();
                    if (!v.empty() && v[0] != 0)
                    {
                        fail(kViolation, ("session-lost:" + api).c_str(), "after %s the session is not there any more, its next step fails", api.c_str());
                    }
                }
            }
            // what other calls do to sessions
            int touched = isUndo(op) && out.undone ? x.w.slotOfId(out.undoneId) : sl;
            if (op.name == "c_alloc" || (d.flags & fQ) || touched < 0)
            {
                return;
            }
            for (auto& [k, s] : ses)
            {
                if (k.slot != touched || k.kind == kind || s.st == None)
                {
                    continue;
                }
                bool dead = op.name == "c_expunge" || op.name == "c_dealloc";
                size_t at;
                bool changed = !sameVec(content(b.s[static_cast<size_t>(touched)], k.kind), content(n.s[static_cast<size_t>(touched)], k.kind), at);
                if (dead)
                {
                    kill(s);
                    s.st = op.name == "c_expunge" || anyFail(out) ? Unknown : None;
                }
                else if (isUndo(op))
                {
                    kill(s);
                    s.st = Unknown;
                }
                else if (k.kind == 3)
                {
                    // the grid from splines is made from the splines: edits of the state do not end it
                    if (d.flags & fCG)
                    {
                        kill(s);
                        s.st = Unknown;
                    }
                }
                else if (d.flags & (k.kind == 0 ? fM2 : fCG))
                {
                    bool repl = (d.flags & fReplace) && !anyFail(out) && changed;
                    if (repl || changed || anyFail(out) || true)
                    {
                        kill(s);
                        s.st = repl && s.st == Live ? Gone : Unknown;
                    }
                }
            }
        }
        void end(Exec&) override
        {
            kill(starting);
            for (auto& [k, s] : ses)
            {
                kill(s);
            }
        }
    };

    // ------------------------------------------------------------------ twin runs
    static Log* newLog()
    {
        void* p = mmap(nullptr, sizeof(Log), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (p == MAP_FAILED)
        {
            fail(rt::kHarness, "harness", "mmap");
        }
        return static_cast<Log*>(p);
    }
    static void subRun(const std::function<void()>& f)
    {
        fflush(stdout);
        g_stats->forks++;
        pid_t pid = fork();
        if (pid == 0)
        {
            f();
            _exit(0);
        }
        int st = 0;
        while (waitpid(pid, &st, 0) < 0)
        {
        }
        if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0))
        {
            if (rt::g_report->kind == rt::kNone)
            {
                fail(rt::kHarness, "harness-timeout", "a twin ended with status %d", st);
            }
            _exit(10 + rt::g_report->kind);
        }
    }
    static void adopt(Trace& t, Generator* gen)
    {
        if (gen)
        {
            Trace n;
            if (!parseTrace(sinkContents(), n))
            {
                fail(rt::kHarness, "harness", "trace text");
            }
            t.ops = n.ops;
        }
    }

    // C03: every client alone sees what it sees among others
    static void runIsolation(Trace& t, Generator* gen, const std::function<void(const std::string&)>& sink)
    {
        Log* a = newLog();
        subRun([&]
               {
            applyHeap(t);
            Exec x(t);
            x.gen = gen;
            x.sink = sink;
            x.log = a;
            // not in runs with allocation faults: what a client has asked before decides how many allocations its next call makes
            x.w.preempt = t.p("pfault") == 0;
            x.run(); });
        adopt(t, gen);
        for (int c = 0; c < static_cast<int>(t.p("clients", 1)); ++c)
        {
            std::set<int> mine;
            std::vector<const LogEntry*> seq;
            for (int i = 0; i < a->n; ++i)
            {
                const LogEntry& e = a->e[i];
                bool undo = e.index >= 0 && isUndo(t.ops[static_cast<size_t>(e.index)]);
                if (undo && !e.undone)
                {
                    continue; // nothing left to undo
                }
                if (e.owner == c)
                {
                    seq.push_back(&e);
                    if (e.index >= 0)
                    {
                        mine.insert(e.index);
                    }
                }
            }
            Log* b = newLog();
            subRun([&]
                   {
                applyHeap(t);
                Trace s = t;
                Exec x(s);
                x.log = b;
                x.w.preempt = t.p("pfault") == 0;
                x.filter = [&](size_t i, const OpSpec&)
                { return mine.count(static_cast<int>(i)) > 0; };
                x.rewrite = [&](size_t, const OpSpec& o)
                {
                    OpSpec r = o;
                    r.client = c;
                    return r;
                };
                x.run(); });
            std::vector<const LogEntry*> solo;
            for (int i = 0; i < b->n; ++i)
            {
                if (b->e[i].index >= 0 || b->e[i].owner == c)
                {
                    solo.push_back(&b->e[i]);
                }
            }
            if (solo.size() != seq.size())
            {
                fail(rt::kHarness, "harness", "solo run has %zu entries, %zu expected", solo.size(), seq.size());
            }
            for (size_t i = 0; i < seq.size(); ++i)
            {
                const LogEntry &p = *seq[i], &q = *solo[i];
                cmp();
                if (p.applied != q.applied || p.out != q.out || p.own != q.own)
                {
                    std::string nm = p.index >= 0 ? t.ops[static_cast<size_t>(p.index)].name : "end";
                    rt::g_op = p.index;
                    fail(kViolation, ("isolation:" + nm).c_str(), "client %d, %s (operation %d): %s differs from what it gets without the other clients (%s / alone: %s)", c, nm.c_str(), p.index,
                         p.out != q.out || p.applied != q.applied ? "the answer" : "the content of its states", p.what, q.what);
                }
            }
            munmap(b, sizeof(Log));
        }
    }

    // C07: the same calls under another heap
    static void runGarbage(Trace& t, Generator* gen, const std::function<void(const std::string&)>& sink)
    {
        Log* a = newLog();
        subRun([&]
               {
            applyHeap(t);
            Exec x(t);
            x.gen = gen;
            x.sink = sink;
            x.log = a;
            x.run(); });
        adopt(t, gen);
        rt::Rng r(static_cast<uint64_t>(t.p("aux", 1)));
        int f0 = static_cast<int>(t.p("fill", 2));
        for (int k = 0; k < 2; ++k)
        {
            int fill = (f0 + 1 + static_cast<int>(r.below(4))) % 5, place = k == 0 ? 1 - static_cast<int>(t.p("place")) : static_cast<int>(r.below(2));
            Log* b = newLog();
            subRun([&]
                   {
                Trace s = t;
                s.par["fill"] = fill;
                s.par["place"] = place;
                s.par["fillseed"] = static_cast<int64_t>(r.next() >> 8);
                applyHeap(s);
                Exec x(s);
                x.log = b;
                x.run(); });
            for (int i = 0; i < a->n && i < b->n; ++i)
            {
                const LogEntry &p = a->e[i], &q = b->e[i];
                cmp();
                if (p.applied != q.applied || p.out != q.out || p.world != q.world)
                {
                    std::string nm = p.index >= 0 ? t.ops[static_cast<size_t>(p.index)].name : "end";
                    rt::g_op = p.index;
                    fail(kViolation, ("garbage:" + nm).c_str(), "%s (operation %d) gives another %s when fresh memory holds other garbage (pattern %d/%d, placement %d): %s / %s", nm.c_str(), p.index, p.out != q.out ? "answer" : "content", f0, fill, place, p.what, q.what);
                }
            }
            munmap(b, sizeof(Log));
        }
    }

    // C10: with and without queries
    static void runReadOnly(Trace& t, Generator* gen, const std::function<void(const std::string&)>& sink)
    {
        Log* a = newLog();
        subRun([&]
               {
            applyHeap(t);
            Exec x(t);
            x.gen = gen;
            x.sink = sink;
            x.log = a;
            x.repeatQueries = true;
            x.w.sizes = true;
            x.w.skipLoose = true;
            x.run(); });
        adopt(t, gen);
        auto query = [&](int i)
        { return i >= 0 && (findOp(t.ops[static_cast<size_t>(i)].name)->flags & fQ); };
        for (int i = 1; i < a->n; ++i)
        {
            if (query(a->e[i].index) && a->e[i].world != a->e[i - 1].world)
            {
                rt::g_op = a->e[i].index;
                fail(kViolation, ("query-changes:" + t.ops[static_cast<size_t>(a->e[i].index)].name).c_str(), "query %s changed the content of a state", t.ops[static_cast<size_t>(a->e[i].index)].name.c_str());
            }
        }
        Log* b = newLog();
        subRun([&]
               {
            applyHeap(t);
            Trace s = t;
            Exec x(s);
            x.log = b;
            x.filter = [&](size_t i, const OpSpec&)
            { return !query(static_cast<int>(i)); };
            x.run(); });
        int j = 0;
        for (int i = 0; i < a->n; ++i)
        {
            const LogEntry& p = a->e[i];
            if (query(p.index))
            {
                continue;
            }
            const LogEntry& q = b->e[j++];
            cmp();
            if (p.applied != q.applied || p.out != q.out || p.world != q.world)
            {
                std::string nm = p.index >= 0 ? t.ops[static_cast<size_t>(p.index)].name : "end";
                rt::g_op = p.index;
                fail(kViolation, ("query-effect:" + nm).c_str(), "%s (operation %d) gives another %s than in the same history without queries (%s / without: %s)", nm.c_str(), p.index, p.out != q.out ? "answer" : "content", p.what, q.what);
            }
        }
    }

    // C12: memory is given back
    static void releaseAll(const World& w)
    {
        rt::KernelScope k;
        for (const Slot& s : w.slots)
        {
            if (s.alive && s.id >= 0)
            {
                rt::g_opname = "mkernel_expunge_state (release)";
                if (mk::mkernel_expunge_state(s.id) != 0)
                {
                    fail(kViolation, "expunge-fails", "expunging state %d at the end of the run fails", s.id);
                }
            }
        }
        rt::g_opname = "mkernel_clear_undo_state (release)";
        mk::mkernel_clear_undo_state();
    }
    static void runConservation(Trace& t, Generator* gen, const std::function<void(const std::string&)>& sink)
    {
        applyHeap(t);
        auto once = [&](Generator* g)
        {
            Exec x(t);
            x.gen = g;
            x.sink = sink;
            if (!g)
            {
                x.sink = nullptr;
            }
            x.run();
            releaseAll(x.w);
            return rt::heap_stats();
        };
        rt::HeapStats a = once(gen);
        rt::HeapStats first = a;
        // Data that a function keeps from its first call on is not a leak: a leak grows in every repetition.
        int pass = 2;
        for (;; ++pass)
        {
            rt::HeapStats b = once(nullptr);
            cmp();
            if (b.live_bytes <= a.live_bytes && b.live_blocks <= a.live_blocks)
            {
                return;
            }
            if (pass == 10)
            {
                fail(kViolation, "leak", "after all states are expunged and the history is cleared, every repetition of the same calls leaves more memory in use: %ld bytes in %ld blocks in the last, %ld bytes since the first", static_cast<long>(b.live_bytes - a.live_bytes), static_cast<long>(b.live_blocks - a.live_blocks), static_cast<long>(b.live_bytes - first.live_bytes));
            }
            a = b;
        }
    }

    Oracle* makeOracle2(const std::string& mode)
    {
        if (mode == "C04")
        {
            return new Contain();
        }
        if (mode == "C05")
        {
            return new Atomic();
        }
        if (mode == "C06")
        {
            return new Schedules();
        }
        if (mode == "C08")
        {
            return new Sessions();
        }
        if (mode == "C13")
        {
            return new Errors();
        }
        if (mode == "C14")
        {
            return new Fresh();
        }
        return nullptr;
    }
    bool runTwin(Trace& t, Generator* gen, const std::function<void(const std::string&)>& sink)
    {
        if (t.mode == "C03")
        {
            runIsolation(t, gen, sink);
        }
        else if (t.mode == "C07")
        {
            runGarbage(t, gen, sink);
        }
        else if (t.mode == "C10")
        {
            runReadOnly(t, gen, sink);
        }
        else if (t.mode == "C12")
        {
            runConservation(t, gen, sink);
        }
        else
        {
            return false;
        }
        return true;
    }
} // namespace sim
