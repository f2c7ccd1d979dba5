#include "world.hpp"
#include <algorithm>
#include <cmath>
#include <cstdio>
#include <cstring>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

namespace sim
{
    using namespace meshkernelapi;

    static uint8_t* g_buf = nullptr;
    static constexpr size_t BUFN = size_t(64) << 20;

    struct Wr
    {
        size_t off = 16;
        void raw(const void* p, size_t n)
        {
            if (off + n > BUFN)
            {
                rt::fail(rt::kHarness, "harness", "observation buffer overflow");
            }
            std::memcpy(g_buf + off, p, n);
            off += n;
        }
        void i(int v) { raw(&v, sizeof v); }
        template <typename T>
        void vec(const std::vector<T>& v)
        {
            i(static_cast<int>(v.size()));
            raw(v.data(), v.size() * sizeof(T));
        }
    };
    struct Rd
    {
        size_t off = 16;
        void raw(void* p, size_t n)
        {
            std::memcpy(p, g_buf + off, n);
            off += n;
        }
        int i()
        {
            int v;
            raw(&v, sizeof v);
            return v;
        }
        template <typename T>
        void vec(std::vector<T>& v)
        {
            v.resize(static_cast<size_t>(i()));
            raw(v.data(), v.size() * sizeof(T));
        }
    };
    template <typename A, typename F>
    static void visitM1(A& a, F& m)
    {
        a.io(m.nvn);
        a.io(m.nve);
        a.io(m.x);
        a.io(m.y);
        a.io(m.en);
    }
    struct WArch
    {
        Wr w;
        void io(int& v) { w.i(v); }
        template <typename T>
        void io(std::vector<T>& v) { w.vec(v); }
    };
    struct RArch
    {
        Rd r;
        void io(int& v) { v = r.i(); }
        template <typename T>
        void io(std::vector<T>& v) { r.vec(v); }
    };
    template <typename A>
    static void visit(A& a, Snap& s)
    {
        a.io(s.exists);
        a.io(s.proj);
        a.io(s.m2.nvn);
        a.io(s.m2.nve);
        a.io(s.m2.x);
        a.io(s.m2.y);
        a.io(s.m2.ex);
        a.io(s.m2.ey);
        a.io(s.m2.fx);
        a.io(s.m2.fy);
        a.io(s.m2.en);
        a.io(s.m2.npf);
        a.io(s.m2.fn);
        a.io(s.m2.fe);
        a.io(s.m2.ef);
        visitM1(a, s.m1);
        visitM1(a, s.neta);
        visitM1(a, s.netb);
        a.io(s.cg.n);
        a.io(s.cg.m);
        a.io(s.cg.x);
        a.io(s.cg.y);
        a.io(s.c1);
        a.io(s.c2);
        a.io(s.com);
        a.io(s.res);
        a.io(s.codes);
    }

    static int K(const std::function<int()>& f)
    {
        rt::KernelScope k;
        return f();
    }

    static int readM1(int id, M1& o)
    {
        mk::Mesh1D m;
        int rc = K([&]
                   { return mkernel_mesh1d_get_dimensions(id, m); });
        if (rc)
        {
            return rc;
        }
        Arr<double> x(static_cast<size_t>(m.num_nodes)), y(static_cast<size_t>(m.num_nodes));
        Arr<int> en(static_cast<size_t>(m.num_edges) * 2);
        m.node_x = x.p;
        m.node_y = y.p;
        m.edge_nodes = en.p;
        rc = K([&]
               { return mkernel_mesh1d_get_data(id, m); });
        if (rc)
        {
            return rc;
        }
        o.nvn = m.num_valid_nodes;
        o.nve = m.num_valid_edges;
        o.x = x.vec();
        o.y = y.vec();
        o.en = en.vec();
        return 0;
    }

    static int readM2(int id, M2& o)
    {
        mk::Mesh2D m;
        int rc = K([&]
                   { return mkernel_mesh2d_get_dimensions(id, m); });
        if (rc)
        {
            return rc;
        }
        size_t nn = static_cast<size_t>(m.num_nodes), ne = static_cast<size_t>(m.num_edges), nf = static_cast<size_t>(m.num_faces), nfn = static_cast<size_t>(m.num_face_nodes);
        Arr<double> x(nn), y(nn), ex(ne), ey(ne), fx(nf), fy(nf);
        Arr<int> en(2 * ne), ef(2 * ne), fn(nfn), fe(nfn), npf(nf);
        m.node_x = x.p;
        m.node_y = y.p;
        m.edge_x = ex.p;
        m.edge_y = ey.p;
        m.face_x = fx.p;
        m.face_y = fy.p;
        m.edge_nodes = en.p;
        m.edge_faces = ef.p;
        m.face_nodes = fn.p;
        m.face_edges = fe.p;
        m.nodes_per_face = npf.p;
        rc = K([&]
               { return mkernel_mesh2d_get_data(id, m); });
        if (rc)
        {
            return rc;
        }
        o.nvn = m.num_valid_nodes;
        o.nve = m.num_valid_edges;
        o.x = x.vec();
        o.y = y.vec();
        o.ex = ex.vec();
        o.ey = ey.vec();
        o.fx = fx.vec();
        o.fy = fy.vec();
        o.en = en.vec();
        o.ef = ef.vec();
        o.fn = fn.vec();
        o.fe = fe.vec();
        o.npf = npf.vec();
        return 0;
    }

    Snap observeHere(int id, bool network)
    {
        Snap s;
        bool valid = false;
        K([&]
          { return mkernel_is_valid_state(id, valid); });
        s.exists = valid;
        if (!valid)
        {
            return s;
        }
        s.codes.push_back(K([&]
                            { return mkernel_get_projection(id, s.proj); }));
        s.codes.push_back(K([&]
                            { return mkernel_undo_state_count_for_id(id, s.com, s.res); }));
        s.codes.push_back(readM2(id, s.m2));
        s.codes.push_back(readM1(id, s.m1));
        {
            mk::CurvilinearGrid g;
            int rc = K([&]
                       { return mkernel_curvilinear_get_dimensions(id, g); });
            if (rc == 0)
            {
                size_t n = static_cast<size_t>(g.num_n) * static_cast<size_t>(g.num_m);
                Arr<double> x(n), y(n);
                g.node_x = x.p;
                g.node_y = y.p;
                if (n > 0)
                {
                    rc = K([&]
                           { return mkernel_curvilinear_get_data(id, g); });
                }
                if (rc == 0)
                {
                    s.cg.n = g.num_n;
                    s.cg.m = g.num_m;
                    s.cg.x = x.vec();
                    s.cg.y = y.vec();
                }
            }
            s.codes.push_back(rc);
        }
        {
            mk::Contacts c;
            int rc = K([&]
                       { return mkernel_contacts_get_dimensions(id, c); });
            if (rc == 0)
            {
                Arr<int> a(static_cast<size_t>(c.num_contacts)), b(static_cast<size_t>(c.num_contacts));
                c.mesh1d_indices = a.p;
                c.mesh2d_indices = b.p;
                rc = K([&]
                       { return mkernel_contacts_get_data(id, c); });
                s.c1 = a.vec();
                s.c2 = b.vec();
            }
            s.codes.push_back(rc);
        }
        if (network)
        {
            // destructive: only ever done in a child
            const double sc = s.proj == 0 ? 1.0 : 11100.0; // lengths are in metres
            int rc = K([&]
                       { return mkernel_network1d_to_mesh1d(id, 0.5); });
            s.codes.push_back(rc);
            s.codes.push_back(readM1(id, s.neta));
            rc = K([&]
                   { return mkernel_network1d_compute_offsetted_chainages(id, 7.0 * sc); });
            s.codes.push_back(rc);
            rc = K([&]
                   { return mkernel_network1d_to_mesh1d(id, 0.5); });
            s.codes.push_back(rc);
            s.codes.push_back(readM1(id, s.netb));
        }
        return s;
    }

    static void ensureBuf()
    {
        if (!g_buf)
        {
            g_buf = static_cast<uint8_t*>(mmap(nullptr, BUFN, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
            if (g_buf == MAP_FAILED)
            {
                perror("mmap");
                _exit(3);
            }
        }
    }

    static void waitChild(pid_t pid)
    {
        int st = 0;
        while (waitpid(pid, &st, 0) < 0)
        {
        }
        if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0))
        {
            // the child filled in the report (crash, memory error) or died without one
            if (rt::g_report->kind == rt::kNone)
            {
                rt::fail(rt::kHarness, "harness", "observation child died with status %d", st);
            }
            _exit(10 + rt::g_report->kind);
        }
    }

    static void childSetup()
    {
        rt::g_in_child = true;
        rt::g_opname = "observation";
        rt::fault_arm({-1, false, false, false});
        rt::sched_arm({1, 1, 0, 100});
        rt::g_step_limit = rt::g_steps + 400000000ull;
    }

    WorldSnap observe(const World& w)
    {
        ensureBuf();
        fflush(stdout);
        pid_t pid = fork();
        if (pid == 0)
        {
            childSetup();
            WArch a;
            int com = 0, res = 0;
            K([&]
              { return mkernel_undo_state_count(com, res); });
            a.io(com);
            a.io(res);
            // reading the network records steps in this child: read all counts first
            std::vector<std::pair<int, int>> counts;
            for (const Slot& sl : w.slots)
            {
                int c = 0, r = 0;
                if (sl.id >= 0)
                {
                    K([&]
                      { return mkernel_undo_state_count_for_id(sl.id, c, r); });
                }
                counts.emplace_back(c, r);
            }
            size_t k = 0;
            for (const Slot& sl : w.slots)
            {
                Snap s;
                if (sl.id >= 0)
                {
                    s = observeHere(sl.id, true);
                    s.com = s.exists ? counts[k].first : 0;
                    s.res = s.exists ? counts[k].second : 0;
                }
                ++k;
                visit(a, s);
            }
            _exit(0);
        }
        if (pid < 0)
        {
            rt::fail(rt::kHarness, "harness", "fork failed");
        }
        waitChild(pid);
        RArch a;
        WorldSnap r;
        a.io(r.com);
        a.io(r.res);
        r.s.resize(w.slots.size());
        for (Snap& s : r.s)
        {
            visit(a, s);
        }
        return r;
    }

    std::vector<double> inChild(const std::function<std::vector<double>()>& f)
    {
        ensureBuf();
        fflush(stdout);
        pid_t pid = fork();
        if (pid == 0)
        {
            childSetup();
            std::vector<double> v = f();
            WArch a;
            a.io(v);
            _exit(0);
        }
        if (pid < 0)
        {
            rt::fail(rt::kHarness, "harness", "fork failed");
        }
        waitChild(pid);
        RArch a;
        std::vector<double> r;
        a.io(r);
        return r;
    }

    // ------------------------------------------------------------------ comparison
    static bool same(double a, double b) { return std::memcmp(&a, &b, sizeof a) == 0 || a == b; }
    template <typename T>
    static std::string dv(const char* n, const std::vector<T>& a, const std::vector<T>& b)
    {
        char t[200];
        if (a.size() != b.size())
        {
            snprintf(t, sizeof t, "%s: %zu entries vs %zu", n, a.size(), b.size());
            return t;
        }
        for (size_t i = 0; i < a.size(); ++i)
        {
            if (!same(static_cast<double>(a[i]), static_cast<double>(b[i])))
            {
                snprintf(t, sizeof t, "%s[%zu]: %.17g vs %.17g", n, i, static_cast<double>(a[i]), static_cast<double>(b[i]));
                return t;
            }
        }
        return "";
    }
    static std::string di(const char* n, int a, int b)
    {
        if (a != b)
        {
            return std::string(n) + ": " + std::to_string(a) + " vs " + std::to_string(b);
        }
        return "";
    }
#define D(x)              \
    do                    \
    {                     \
        std::string z = x; \
        if (!z.empty())   \
        {                 \
            return z;     \
        }                 \
    } while (0)

    static std::string diffM1(const std::string& p, const M1& a, const M1& b)
    {
        D(dv((p + " node_x").c_str(), a.x, b.x));
        D(dv((p + " node_y").c_str(), a.y, b.y));
        D(dv((p + " edge_nodes").c_str(), a.en, b.en));
        D(di((p + " valid nodes").c_str(), a.nvn, b.nvn));
        D(di((p + " valid edges").c_str(), a.nve, b.nve));
        return "";
    }

    typedef std::vector<std::vector<int>> Cycles;
    static Cycles cyclesOf(const M2& m)
    {
        Cycles r;
        size_t o = 0;
        for (int f = 0; f < m.nf(); ++f)
        {
            size_t k = static_cast<size_t>(m.npf[f]);
            std::vector<int> c(m.fn.begin() + static_cast<long>(o), m.fn.begin() + static_cast<long>(o + k));
            o += k;
            // canonical: smallest first, then the smaller neighbour
            size_t p = static_cast<size_t>(std::min_element(c.begin(), c.end()) - c.begin());
            std::rotate(c.begin(), c.begin() + static_cast<long>(p), c.end());
            if (c.size() > 2 && c[1] > c.back())
            {
                std::reverse(c.begin() + 1, c.end());
            }
            r.push_back(c);
        }
        std::sort(r.begin(), r.end());
        return r;
    }

    // Compare the mesh as content: valid nodes by id, valid edges by id, faces as a set of node cycles.
    static std::string diffM2content(const M2& a, const M2& b)
    {
        char t[240];
        int nn = std::max(a.nn(), b.nn());
        for (int i = 0; i < nn; ++i)
        {
            bool va = i < a.nn() && a.nodeOk(i), vb = i < b.nn() && b.nodeOk(i);
            if (va != vb)
            {
                snprintf(t, sizeof t, "2d node %d: %s vs %s", i, va ? "present" : "absent", vb ? "present" : "absent");
                return t;
            }
            if (va && (!same(a.x[i], b.x[i]) || !same(a.y[i], b.y[i])))
            {
                snprintf(t, sizeof t, "2d node %d: (%.17g,%.17g) vs (%.17g,%.17g)", i, a.x[i], a.y[i], b.x[i], b.y[i]);
                return t;
            }
        }
        int ne = std::max(a.ne(), b.ne());
        for (int e = 0; e < ne; ++e)
        {
            bool va = e < a.ne() && a.edgeOk(e), vb = e < b.ne() && b.edgeOk(e);
            if (va != vb)
            {
                snprintf(t, sizeof t, "2d edge %d: %s vs %s", e, va ? "present" : "absent", vb ? "present" : "absent");
                return t;
            }
            if (va)
            {
                auto pa = std::minmax(a.en[2 * e], a.en[2 * e + 1]);
                auto pb = std::minmax(b.en[2 * e], b.en[2 * e + 1]);
                if (pa != pb)
                {
                    snprintf(t, sizeof t, "2d edge %d: %d-%d vs %d-%d", e, pa.first, pa.second, pb.first, pb.second);
                    return t;
                }
            }
        }
        Cycles ca = cyclesOf(a), cb = cyclesOf(b);
        if (ca.size() != cb.size())
        {
            snprintf(t, sizeof t, "2d faces: %zu vs %zu", ca.size(), cb.size());
            return t;
        }
        if (ca != cb)
        {
            return "2d faces: different node cycles";
        }
        return "";
    }

    std::string diffSnap(const Snap& a, const Snap& b, bool exact)
    {
        D(di("exists", a.exists, b.exists));
        D(di("projection", a.proj, b.proj));
        if (exact)
        {
            D(dv("2d node_x", a.m2.x, b.m2.x));
            D(dv("2d node_y", a.m2.y, b.m2.y));
            D(dv("2d edge_nodes", a.m2.en, b.m2.en));
            D(dv("2d face_nodes", a.m2.fn, b.m2.fn));
            D(dv("2d nodes_per_face", a.m2.npf, b.m2.npf));
            D(dv("2d face_edges", a.m2.fe, b.m2.fe));
            D(dv("2d edge_faces", a.m2.ef, b.m2.ef));
            D(dv("2d edge_x", a.m2.ex, b.m2.ex));
            D(dv("2d edge_y", a.m2.ey, b.m2.ey));
            D(dv("2d face_x", a.m2.fx, b.m2.fx));
            D(dv("2d face_y", a.m2.fy, b.m2.fy));
            D(di("2d valid nodes", a.m2.nvn, b.m2.nvn));
            D(di("2d valid edges", a.m2.nve, b.m2.nve));
            D(dv("observation codes", a.codes, b.codes));
        }
        else
        {
            D(diffM2content(a.m2, b.m2));
        }
        D(diffM1("1d", a.m1, b.m1));
        D(diffM1("network", a.neta, b.neta));
        D(diffM1("network(7)", a.netb, b.netb));
        D(di("curvilinear n", a.cg.n, b.cg.n));
        D(di("curvilinear m", a.cg.m, b.cg.m));
        D(dv("curvilinear x", a.cg.x, b.cg.x));
        D(dv("curvilinear y", a.cg.y, b.cg.y));
        D(dv("contacts 1d", a.c1, b.c1));
        D(dv("contacts 2d", a.c2, b.c2));
        return "";
    }

    std::string diffWorld(const WorldSnap& a, const WorldSnap& b, bool exact)
    {
        for (size_t i = 0; i < a.s.size() && i < b.s.size(); ++i)
        {
            std::string d = diffSnap(a.s[i], b.s[i], exact);
            if (!d.empty())
            {
                return "state slot " + std::to_string(i) + ": " + d;
            }
        }
        return "";
    }

    uint64_t hashSnap(const Snap& s)
    {
        uint64_t h = 1469598103934665603ull;
        auto add = [&](const void* p, size_t n)
        {
            const uint8_t* b = static_cast<const uint8_t*>(p);
            for (size_t i = 0; i < n; ++i)
            {
                h = (h ^ b[i]) * 1099511628211ull;
            }
        };
        auto ai = [&](int v)
        { add(&v, sizeof v); };
        auto av = [&](const auto& v)
        {
            ai(static_cast<int>(v.size()));
            add(v.data(), v.size() * sizeof(v[0]));
        };
        ai(s.exists);
        ai(s.proj);
        av(s.m2.x);
        av(s.m2.y);
        av(s.m2.en);
        av(s.m2.fn);
        av(s.m2.npf);
        av(s.m2.fe);
        av(s.m2.ef);
        av(s.m2.ex);
        av(s.m2.ey);
        av(s.m2.fx);
        av(s.m2.fy);
        ai(s.m2.nvn);
        ai(s.m2.nve);
        av(s.m1.x);
        av(s.m1.y);
        av(s.m1.en);
        av(s.neta.x);
        av(s.netb.x);
        av(s.netb.y);
        av(s.netb.en);
        ai(s.cg.n);
        ai(s.cg.m);
        av(s.cg.x);
        av(s.cg.y);
        av(s.c1);
        av(s.c2);
        return h;
    }
} // namespace sim
