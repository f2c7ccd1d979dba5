// The properties, as executable oracles over simulated runs.
#include "engine.hpp"
#include <algorithm>
#include <cmath>
#include <cstdio>
#include <cstring>
#include <deque>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

namespace sim
{
    using rt::fail;
    using rt::kViolation;

    static void cmp() { g_stats->compares++; }
    static bool okAll(const Out& o)
    {
        for (int r : o.rc)
        {
            if (r != 0)
            {
                return false;
            }
        }
        return !o.rc.empty();
    }
    static int okCalls(const Out& o)
    {
        int n = 0;
        for (int r : o.rc)
        {
            n += r == 0;
        }
        return n;
    }
    static const char* lastApi(const Out& o) { return o.api.empty() ? "?" : o.api.back().c_str(); }

    // ------------------------------------------------------------------ undo model (C01, C02)
    // A reference model of the history a user sees: one global list of done steps and one of
    // undone steps, each belonging to a state, with the content before and after the step.
    struct Step
    {
        int slot;
        std::string api;
        bool knownBefore = true, knownAfter = true;
        Snap before, after;
    };
    // The content of a grid is its complete cells: a grid node that belongs to no complete cell is not content
    // (some edits drop such nodes, others leave them until the next edit).
    static Snap cellsOnly(const Snap& in)
    {
        Snap s = in;
        int n = s.cg.n, m = s.cg.m;
        if (n < 1 || m < 1 || s.cg.x.size() != static_cast<size_t>(n) * static_cast<size_t>(m))
        {
            return s;
        }
        auto at = [&](int i, int j)
        { return static_cast<size_t>(i) * static_cast<size_t>(m) + static_cast<size_t>(j); };
        auto ok = [&](int i, int j)
        { return in.cg.x[at(i, j)] != -999.0 && in.cg.y[at(i, j)] != -999.0; };
        std::vector<char> keep(s.cg.x.size(), 0);
        for (int i = 0; i + 1 < n; ++i)
        {
            for (int j = 0; j + 1 < m; ++j)
            {
                if (ok(i, j) && ok(i + 1, j) && ok(i, j + 1) && ok(i + 1, j + 1))
                {
                    keep[at(i, j)] = keep[at(i + 1, j)] = keep[at(i, j + 1)] = keep[at(i + 1, j + 1)] = 1;
                }
            }
        }
        for (size_t k = 0; k < keep.size(); ++k)
        {
            if (!keep[k])
            {
                s.cg.x[k] = s.cg.y[k] = -999.0;
            }
        }
        return s;
    }
    struct UndoModel : Oracle
    {
        bool content, book;
        std::deque<Step> done, undone;
        std::vector<int> probe; // pushes of the operation about to run, by experiment in a child
        UndoModel(bool c, bool b) : content(c), book(b) {}

        int countOf(const std::deque<Step>& d, int slot) const
        {
            int n = 0;
            for (const Step& s : d)
            {
                n += s.slot == slot;
            }
            return n;
        }
        void forget(int slot, bool alsoUndone = true)
        {
            for (auto* d : {&done, &undone})
            {
                for (Step& s : *d)
                {
                    if (s.slot == slot)
                    {
                        s.knownBefore = s.knownAfter = false;
                    }
                }
            }
        }
        void before(Exec& x, const OpSpec& op, const OpDef& d) override
        {
            probe.clear();
            bool edits = !(d.flags & fQ) && op.name != "c_undo" && op.name != "c_redo" && op.name != "c_expunge" && op.name != "c_alloc" && op.name != "c_clear" && op.name != "c_clear_undo" && op.name != "c_undo_size" && op.name != "c_clear_undo_id";
            if (edits && x.w.undoCap > 0 && static_cast<int>(done.size()) + 8 >= x.w.undoCap)
            {
                // the list is full: find out in a child, with a larger limit, how many steps the call records
                World w = x.w;
                std::vector<double> r = inChild([&]
                                                {
                    int c0 = 0, r0 = 0, c1 = 0, r1 = 0;
                    {
                        rt::KernelScope k;
                        mk::mkernel_set_undo_size(100000);
                        mk::mkernel_undo_state_count(c0, r0);
                    }
                    Out o;
                    perform(w, op, o);
                    {
                        rt::KernelScope k;
                        mk::mkernel_undo_state_count(c1, r1);
                    }
                    return std::vector<double>{static_cast<double>(c1 - c0)}; });
                probe.push_back(static_cast<int>(r[0]));
            }
        }
        void trim(int cap)
        {
            while (static_cast<int>(done.size()) > cap)
            {
                done.pop_front();
            }
        }
        void after(Exec& x, const OpSpec& op, const OpDef& d, const Out& out, const WorldSnap& b, const WorldSnap& n) override
        {
            if (out.skipped)
            {
                return;
            }
            const char* api = lastApi(out);
            auto snapB = [&](int s) -> const Snap&
            {
                static Snap e;
                return s >= 0 && s < static_cast<int>(b.s.size()) ? b.s[static_cast<size_t>(s)] : e;
            };
            int touched = -1; // slot allowed to differ
            if (op.name == "c_undo" || op.name == "c_redo")
            {
                bool un = op.name == "c_undo";
                std::deque<Step>& from = un ? done : undone;
                std::deque<Step>& to = un ? undone : done;
                if (!okAll(out))
                {
                    fail(kViolation, "undo-error", "%s failed with code %d (%s)", api, out.rc[0], out.errmsg.c_str());
                }
                if (from.empty())
                {
                    if (book && out.undone)
                    {
                        fail(kViolation, "undo-from-empty", "%s reported a step of id %d although none is left", api, out.undoneId);
                    }
                    if (out.undone)
                    {
                        touched = -2;
                    }
                }
                else
                {
                    Step s = from.back();
                    if (!out.undone)
                    {
                        fail(kViolation, "undo-lost", "%s reported nothing to do although %zu steps are expected", api, from.size());
                    }
                    if (x.w.slots[static_cast<size_t>(s.slot)].id != out.undoneId)
                    {
                        fail(kViolation, ("undo-wrong-id:" + s.api).c_str(), "%s reported id %d, the latest step (%s) belongs to id %d", api, out.undoneId, s.api.c_str(), x.w.slots[static_cast<size_t>(s.slot)].id);
                    }
                    from.pop_back();
                    touched = s.slot;
                    const Snap& cur = n.s[static_cast<size_t>(s.slot)];
                    bool kn = un ? s.knownBefore : s.knownAfter;
                    if (content && kn)
                    {
                        cmp();
                        std::string df = diffSnap(cellsOnly(un ? s.before : s.after), cellsOnly(cur), false);
                        if (!df.empty())
                        {
                            fail(kViolation, ((un ? "undo-content:" : "redo-content:") + s.api).c_str(), "%s of %s does not restore the state: %s", un ? "undo" : "redo", s.api.c_str(), df.c_str());
                        }
                    }
                    to.push_back(s);
                    if (!kn)
                    {
                        forget(s.slot); // what follows builds on a content the model does not know
                    }
                    if (!un)
                    {
                        trim(x.w.undoCap);
                    }
                }
            }
            else if (op.name == "c_expunge" || op.name == "c_clear_undo_id")
            {
                if (okAll(out) && out.slot >= 0)
                {
                    int sl = out.slot;
                    auto rm = [&](std::deque<Step>& q)
                    { q.erase(std::remove_if(q.begin(), q.end(), [&](const Step& s)
                                             { return s.slot == sl; }),
                              q.end()); };
                    rm(done);
                    rm(undone);
                    touched = op.name == "c_expunge" ? sl : -1;
                    if (op.name == "c_expunge" && n.s[static_cast<size_t>(sl)].exists)
                    {
                        fail(kViolation, "expunge-exists", "the state still exists after mkernel_expunge_state");
                    }
                }
            }
            else if (op.name == "c_clear_undo" || op.name == "c_clear")
            {
                if (okAll(out))
                {
                    done.clear();
                    undone.clear();
                    touched = op.name == "c_clear" ? -2 : -1;
                }
            }
            else if (op.name == "c_undo_size")
            {
                if (okAll(out))
                {
                    if (x.w.undoCap == 0)
                    {
                        done.clear();
                        undone.clear();
                    }
                    trim(x.w.undoCap);
                }
            }
            else if (op.name == "c_alloc")
            {
                touched = out.slot;
            }
            else if (!(d.flags & fQ) || true)
            {
                int sl = out.slot;
                touched = sl;
                const Snap& sb = snapB(sl);
                const Snap sn = sl >= 0 ? n.s[static_cast<size_t>(sl)] : Snap();
                bool changed = sl >= 0 && !diffSnap(sb, sn, false).empty();
                int pushes;
                if (x.w.undoCap == 0)
                {
                    pushes = 0;
                }
                else if (!probe.empty())
                {
                    pushes = probe[0];
                }
                else
                {
                    pushes = n.com - b.com;
                }
                int maxp = okCalls(out);
                if (d.flags & fQ)
                {
                    maxp = 0;
                }
                if (book && (pushes < 0 || pushes > maxp))
                {
                    fail(kViolation, (std::string("push-count:") + api).c_str(), "%s recorded %d steps for %d successful calls", api, pushes, maxp);
                }
                if (pushes < 0)
                {
                    pushes = 0;
                }
                if (changed && pushes == 0 && x.w.undoCap > 0)
                {
                    if (okAll(out) && (d.flags & fUndo) && !(d.flags & fUntracked))
                    {
                        fail(kViolation, (std::string("not-recorded:") + api).c_str(), "%s changed the state (%s) but recorded no undo step", api, diffSnap(sb, sn, false).c_str());
                    }
                    forget(sl); // changes outside the history
                }
                if (x.w.undoCap == 0 && changed)
                {
                    forget(sl);
                }
                for (int k = 0; k < pushes; ++k)
                {
                    Step s;
                    s.slot = sl;
                    s.api = api;
                    s.before = sb;
                    s.after = sn;
                    s.knownBefore = k == 0;
                    s.knownAfter = k == pushes - 1;
                    done.push_back(s);
                }
                if (pushes > 0)
                {
                    undone.erase(std::remove_if(undone.begin(), undone.end(), [&](const Step& s)
                                                { return s.slot == sl; }),
                                 undone.end());
                    trim(x.w.undoCap);
                }
            }
            if (book)
            {
                cmp();
                if (n.com != static_cast<int>(done.size()) || n.res != static_cast<int>(undone.size()))
                {
                    fail(kViolation, (std::string("count:") + api).c_str(), "after %s the history holds %d done and %d undone steps, expected %zu and %zu", api, n.com, n.res, done.size(), undone.size());
                }
                for (int s = 0; s < static_cast<int>(n.s.size()); ++s)
                {
                    const Snap& q = n.s[static_cast<size_t>(s)];
                    if (q.exists && (q.com != countOf(done, s) || q.res != countOf(undone, s)))
                    {
                        fail(kViolation, (std::string("count-id:") + api).c_str(), "after %s (slot %d) state %d has %d done and %d undone steps, expected %d and %d", api, out.slot, x.w.slots[static_cast<size_t>(s)].id, q.com, q.res, countOf(done, s), countOf(undone, s));
                    }
                }
            }
            // every state other than the one addressed is untouched
            if (touched != -2)
            {
                for (int s = 0; s < static_cast<int>(b.s.size()); ++s)
                {
                    if (s != touched)
                    {
                        std::string df = diffSnap(b.s[static_cast<size_t>(s)], n.s[static_cast<size_t>(s)], true);
                        if (!df.empty())
                        {
                            fail(kViolation, (std::string("other-state:") + api).c_str(), "%s changed a state it was not applied to: %s", api, df.c_str());
                        }
                    }
                }
            }
        }
    };

    // ------------------------------------------------------------------ structural validity (C11)
    std::string validate(const Snap& s)
    {
        char t[240];
#define BAD(...)                             \
    do                                       \
    {                                        \
        snprintf(t, sizeof t, __VA_ARGS__);  \
        return std::string(t);               \
    } while (0)
        const M2& m = s.m2;
        int vn = 0, ve = 0;
        for (int i = 0; i < m.nn(); ++i)
        {
            vn += m.nodeOk(i);
        }
        std::map<std::pair<int, int>, int> seen;
        for (int e = 0; e < m.ne(); ++e)
        {
            int a = m.en[2 * e], b = m.en[2 * e + 1];
            if ((a < 0) != (b < 0))
            {
                BAD("edge-half: 2d edge %d joins %d and %d", e, a, b);
            }
            if (a < 0)
            {
                continue;
            }
            ++ve;
            if (a >= m.nn() || b >= m.nn())
            {
                BAD("edge-range: 2d edge %d joins %d and %d of %d nodes", e, a, b, m.nn());
            }
            if (!m.nodeOk(a) || !m.nodeOk(b))
            {
                BAD("edge-deleted-node: 2d edge %d joins %d and %d, one is deleted", e, a, b);
            }
        }
        if (vn != m.nvn)
        {
            BAD("valid-nodes: %d valid nodes reported, %d present", m.nvn, vn);
        }
        if (ve != m.nve)
        {
            BAD("valid-edges: %d valid edges reported, %d present", m.nve, ve);
        }
        size_t o = 0;
        std::vector<int> use(static_cast<size_t>(m.ne()), 0);
        for (int f = 0; f < m.nf(); ++f)
        {
            int k = m.npf[f];
            if (k < 3)
            {
                BAD("face-size: face %d has %d nodes", f, k);
            }
            if (o + static_cast<size_t>(k) > m.fn.size())
            {
                BAD("face-nodes-size: face %d runs past the face nodes", f);
            }
            for (int j = 0; j < k; ++j)
            {
                int a = m.fn[o + static_cast<size_t>(j)], b = m.fn[o + static_cast<size_t>((j + 1) % k)], e = m.fe[o + static_cast<size_t>(j)];
                if (a < 0 || a >= m.nn() || !m.nodeOk(a))
                {
                    BAD("face-node: face %d refers to node %d", f, a);
                }
                for (int q = 0; q < j; ++q)
                {
                    if (m.fn[o + static_cast<size_t>(q)] == a)
                    {
                        BAD("face-repeats-node: face %d holds node %d twice", f, a);
                    }
                }
                if (e < 0 || e >= m.ne() || !m.edgeOk(e))
                {
                    BAD("face-edge: face %d refers to edge %d", f, e);
                }
                if (std::minmax(m.en[2 * e], m.en[2 * e + 1]) != std::minmax(a, b))
                {
                    BAD("face-edge-mismatch: face %d: edge %d joins %d-%d, expected %d-%d", f, e, m.en[2 * e], m.en[2 * e + 1], a, b);
                }
                use[static_cast<size_t>(e)]++;
                if (m.ef[2 * e] != f && m.ef[2 * e + 1] != f)
                {
                    BAD("edge-face: edge %d of face %d lists faces %d and %d", e, f, m.ef[2 * e], m.ef[2 * e + 1]);
                }
            }
            o += static_cast<size_t>(k);
        }
        if (o != m.fn.size())
        {
            BAD("face-nodes-size: %zu face nodes reported, %zu used", m.fn.size(), o);
        }
        for (int e = 0; e < m.ne(); ++e)
        {
            int c = (m.ef[2 * e] >= 0) + (m.ef[2 * e + 1] >= 0);
            if (m.ef[2 * e] >= m.nf() || m.ef[2 * e + 1] >= m.nf())
            {
                BAD("edge-face-range: edge %d lists face %d and %d of %d", e, m.ef[2 * e], m.ef[2 * e + 1], m.nf());
            }
            if (c != use[static_cast<size_t>(e)])
            {
                BAD("edge-face-count: edge %d lists %d faces, %d faces use it", e, c, use[static_cast<size_t>(e)]);
            }
        }
        auto m1 = [&](const M1& q, const char* nm) -> std::string
        {
            int nn = static_cast<int>(q.x.size());
            for (size_t e = 0; e < q.en.size() / 2; ++e)
            {
                int a = q.en[2 * e], b = q.en[2 * e + 1];
                if ((a < 0) != (b < 0) || a >= nn || b >= nn)
                {
                    BAD("%s-edge-range: edge %zu joins %d and %d of %d nodes", nm, e, a, b, nn);
                }
            }
            return "";
        };
        for (auto& [q, nm] : std::vector<std::pair<const M1*, const char*>>{{&s.m1, "1d"}, {&s.neta, "network"}, {&s.netb, "network"}})
        {
            std::string r = m1(*q, nm);
            if (!r.empty())
            {
                return r;
            }
        }
        for (size_t i = 0; i < s.cg.x.size(); ++i)
        {
            if ((s.cg.x[i] == MISSING) != (s.cg.y[i] == MISSING))
            {
                BAD("cg-half: curvilinear node %zu is half missing", i);
            }
        }
        if (s.c1.size() != s.c2.size())
        {
            BAD("contacts-size: %zu and %zu", s.c1.size(), s.c2.size());
        }
        return "";
    }
    // Edges that join two nodes another edge joins already, and edges that join a node with itself.
    static std::pair<int, int> spurious(const M2& m)
    {
        std::set<std::pair<int, int>> seen;
        std::pair<int, int> k{0, 0};
        for (int e = 0; e < m.ne(); ++e)
        {
            if (m.en[2 * e] >= 0)
            {
                k.first += !seen.insert(std::minmax(m.en[2 * e], m.en[2 * e + 1])).second;
                k.second += m.en[2 * e] == m.en[2 * e + 1];
            }
        }
        return k;
    }
    struct Structure : Oracle
    {
        void spur(const OpSpec& op, const OpDef& d, const Out& out, const Snap& b, const Snap& n)
        {
            if (!b.exists || !n.exists || out.skipped || (d.flags & (fCtl | fReplace)) || out.rc.empty() || out.rc.back() != 0)
            {
                return;
            }
            const std::string api = lastApi(out);
            if (api.find("_merge_") == std::string::npos && api.find("_delete") == std::string::npos && api.find("_move_node") == std::string::npos && api.find("_rotate") == std::string::npos && api.find("_translate") == std::string::npos)
            {
                return;
            }
            auto kb = spurious(b.m2), kn = spurious(n.m2);
            if (kb.first == 0 && kb.second == 0 && (kn.first > 0 || kn.second > 0))
            {
                fail(kViolation, (std::string(kn.first ? "edge-double:" : "edge-loop:") + lastApi(out)).c_str(), "after %s: %d edges join nodes that another edge joins, %d a node with itself; there were none before", lastApi(out), kn.first, kn.second);
            }
        }
        void after(Exec& x, const OpSpec& op, const OpDef& d, const Out& out, const WorldSnap& b, const WorldSnap& n) override
        {
            for (size_t q = 0; q < n.s.size() && q < b.s.size(); ++q)
            {
                spur(op, d, out, b.s[q], n.s[q]);
            }
            for (const Snap& s : n.s)
            {
                if (!s.exists)
                {
                    continue;
                }
                cmp();
                std::string v = validate(s);
                if (!v.empty())
                {
                    std::string k = v.substr(0, v.find(':'));
                    fail(kViolation, (k + ":" + lastApi(out)).c_str(), "after %s: %s", lastApi(out), v.c_str());
                }
            }
        }
    };

    Oracle* makeOracle2(const std::string& mode);
    bool runTwin(Trace& t, Generator* gen, const std::function<void(const std::string&)>& sink);
    Oracle* makeOracle(const std::string& mode)
    {
        if (mode == "C01")
        {
            return new UndoModel(true, false);
        }
        if (mode == "C02")
        {
            return new UndoModel(true, true);
        }
        if (mode == "C11")
        {
            return new Structure();
        }
        return makeOracle2(mode);
    }

    void applyHeap(const Trace& t)
    {
        rt::heap_config({static_cast<int>(t.p("fill", 2)), static_cast<uint64_t>(t.p("fillseed", 1)), static_cast<int>(t.p("place", 0)), size_t(8) << 20});
    }

    void runMode(Trace& t, Generator* gen, const std::function<void(const std::string&)>& sink)
    {
        if (runTwin(t, gen, sink))
        {
            return;
        }
        applyHeap(t);
        Exec x(t);
        x.gen = gen;
        x.sink = sink;
        x.oracle = makeOracle(t.mode);
        x.run();
    }
    bool known(const std::string&) { return false; }
} // namespace sim
