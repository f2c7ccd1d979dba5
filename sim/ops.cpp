// The operations simulated clients perform: every one drives the real C API.
// All arguments are derived from the operation's own seed and the observed state.
#include "engine.hpp"
#include "world.hpp"
#include <algorithm>
#include <cmath>
#include <cstring>
#include <set>

namespace sim
{
    using namespace meshkernelapi;
    using V = std::vector<double>;
    using VI = std::vector<int>;

    Geo::Geo(const V& xs, const V& ys, const V& vs) : x(xs), y(ys), v(vs.empty() ? V(xs.size(), 0.0) : vs)
    {
        g.geometry_separator = MISSING;
        g.inner_outer_separator = -998.0;
        g.num_coordinates = static_cast<int>(xs.size());
        g.coordinates_x = x.p;
        g.coordinates_y = y.p;
        g.values = v.p;
    }
    Geo::Geo(int n) : x(static_cast<size_t>(n)), y(static_cast<size_t>(n)), v(static_cast<size_t>(n))
    {
        g.geometry_separator = MISSING;
        g.inner_outer_separator = -998.0;
        g.num_coordinates = n;
        g.coordinates_x = x.p;
        g.coordinates_y = y.p;
        g.values = v.p;
    }

    struct Truncated // a client that stops in the middle of an operation
    {
    };

    int Ctx::call(const char* api, const std::function<int()>& f)
    {
        if (w.calls >= 0 && static_cast<int>(out.rc.size()) >= w.calls)
        {
            throw Truncated();
        }
        if (between && !out.rc.empty())
        {
            between();
        }
        rt::g_opname = api;
        rt::scribble_stack(r.s ^ 77);
        int rc;
        {
            rt::KernelScope k;
            rc = f();
        }
        out.rc.push_back(rc);
        out.api.push_back(api);
        if (rc != 0)
        {
            Arr<char> msg(512);
            int gi = 0, gt = 0;
            {
                rt::KernelScope k;
                mkernel_get_error(msg.p);
                mkernel_get_geometry_error(gi, gt);
            }
            bool term = false;
            for (int i = 0; i < 512; ++i)
            {
                if (msg.p[i] == 0)
                {
                    term = true;
                    break;
                }
            }
            out.errmsg = term ? std::string(msg.p) : std::string("<unterminated>");
            out.geomIndex = gi;
            out.geomType = gt;
        }
        return rc;
    }

    // ------------------------------------------------------------------ geometry helpers
    struct Box
    {
        double x0 = 0, y0 = 0, x1 = 40, y1 = 40;
        double w() const { return x1 - x0; }
        double h() const { return y1 - y0; }
    };
    static bool isSph(const Snap& s) { return s.proj == 1 || s.proj == 2; }
    static double metres(const Snap& s) { return isSph(s) ? 11100.0 : 1.0; } // per unit of the default box
    static Box defaultBox(const Snap& s)
    {
        if (isSph(s))
        {
            return Box{1, 1, 5, 5};
        }
        return Box{0, 0, 40, 40};
    }
    static Box boxOf(const V& x, const V& y, const Box& d)
    {
        Box b{1e30, 1e30, -1e30, -1e30};
        for (size_t i = 0; i < x.size(); ++i)
        {
            if (x[i] == MISSING || y[i] == MISSING || !std::isfinite(x[i]) || !std::isfinite(y[i]))
            {
                continue;
            }
            b.x0 = std::min(b.x0, x[i]);
            b.x1 = std::max(b.x1, x[i]);
            b.y0 = std::min(b.y0, y[i]);
            b.y1 = std::max(b.y1, y[i]);
        }
        if (b.x1 < b.x0)
        {
            return d;
        }
        if (b.w() < 1e-9)
        {
            b.x1 = b.x0 + 1;
        }
        if (b.h() < 1e-9)
        {
            b.y1 = b.y0 + 1;
        }
        return b;
    }
    // the part of the plane a client looks at: everything (as the calls without a box do), or around the mesh
    static Box viewBox(rt::Rng& r, const Box& b)
    {
        Box v = b;
        if (r.chance(0.65))
        {
            v.x0 = v.y0 = std::numeric_limits<double>::lowest();
            v.x1 = v.y1 = std::numeric_limits<double>::max();
        }
        else
        {
            v.x0 = b.x0 - b.w();
            v.y0 = b.y0 - b.h();
            v.x1 = b.x1 + b.w();
            v.y1 = b.y1 + b.h();
        }
        return v;
    }
    static Box m2Box(const Snap& s) { return boxOf(s.m2.x, s.m2.y, defaultBox(s)); }
    static Box cgBox(const Snap& s) { return boxOf(s.cg.x, s.cg.y, defaultBox(s)); }

    static void rpoint(rt::Rng& r, const Box& b, double& x, double& y, double m = 0.1)
    {
        x = r.uni(b.x0 - m * b.w(), b.x1 + m * b.w());
        y = r.uni(b.y0 - m * b.h(), b.y1 + m * b.h());
    }
    // one closed simple polygon in or around the box
    static void rpolyOne(rt::Rng& r, const Box& b, V& x, V& y)
    {
        switch (r.below(5))
        {
        case 0: // whole box with margin
        {
            double m = r.uni(0.01, 0.3);
            x = {b.x0 - m * b.w(), b.x1 + m * b.w(), b.x1 + m * b.w(), b.x0 - m * b.w()};
            y = {b.y0 - m * b.h(), b.y0 - m * b.h(), b.y1 + m * b.h(), b.y1 + m * b.h()};
            break;
        }
        case 1: // sub box
        case 2:
        {
            double a0 = r.uni(-0.1, 0.7), a1 = a0 + r.uni(0.15, 0.6), c0 = r.uni(-0.1, 0.7), c1 = c0 + r.uni(0.15, 0.6);
            x = {b.x0 + a0 * b.w(), b.x0 + a1 * b.w(), b.x0 + a1 * b.w(), b.x0 + a0 * b.w()};
            y = {b.y0 + c0 * b.h(), b.y0 + c0 * b.h(), b.y0 + c1 * b.h(), b.y0 + c1 * b.h()};
            break;
        }
        default:
        {
            int n = r.range(3, 8);
            double cx, cy;
            rpoint(r, b, cx, cy, -0.2);
            double ra = r.uni(0.15, 0.7);
            double ph = r.uni(0, 6.28);
            for (int i = 0; i < n; ++i)
            {
                double a = ph + 6.283185307179586 * (i + 0.3 * r.uni()) / n;
                double q = ra * r.uni(0.7, 1.0);
                x.push_back(cx + q * b.w() * std::cos(a));
                y.push_back(cy + q * b.h() * std::sin(a));
            }
        }
        }
        if (r.chance(0.25))
        {
            std::reverse(x.begin(), x.end());
            std::reverse(y.begin(), y.end());
        }
        x.push_back(x[0]);
        y.push_back(y[0]);
    }
    static void rpoly(rt::Rng& r, const Box& b, V& x, V& y, double pEmpty = 0.15, double pMulti = 0.15)
    {
        if (r.chance(pEmpty))
        {
            return;
        }
        rpolyOne(r, b, x, y);
        if (r.chance(0.12))
        {
            // a hole inside
            Box q = boxOf(x, y, b);
            double m = r.uni(0.2, 0.4), x0 = q.x0 + m * q.w(), x1 = q.x1 - m * q.w(), y0 = q.y0 + m * q.h(), y1 = q.y1 - m * q.h();
            x.insert(x.end(), {-998.0, x0, x1, x1, x0, x0});
            y.insert(y.end(), {-998.0, y0, y0, y1, y1, y0});
        }
        if (r.chance(pMulti))
        {
            V x2, y2;
            rpolyOne(r, b, x2, y2);
            x.push_back(MISSING);
            y.push_back(MISSING);
            x.insert(x.end(), x2.begin(), x2.end());
            y.insert(y.end(), y2.begin(), y2.end());
        }
    }
    static void rland(rt::Rng& r, const Box& b, V& x, V& y, double pEmpty = 0.3)
    {
        if (r.chance(pEmpty))
        {
            return;
        }
        int lines = r.chance(0.25) ? 2 : 1;
        for (int l = 0; l < lines; ++l)
        {
            if (l)
            {
                x.push_back(MISSING);
                y.push_back(MISSING);
            }
            int n = r.range(2, 6);
            int side = static_cast<int>(r.below(4));
            for (int i = 0; i < n; ++i)
            {
                double t = -0.1 + 1.2 * i / (n - 1);
                double o = r.uni(-0.06, 0.06);
                double px, py;
                if (side == 0)
                {
                    px = b.x0 + t * b.w(), py = b.y0 + o * b.h();
                }
                else if (side == 1)
                {
                    px = b.x1 + o * b.w(), py = b.y0 + t * b.h();
                }
                else if (side == 2)
                {
                    px = b.x0 + t * b.w(), py = b.y1 + o * b.h();
                }
                else
                {
                    px = b.x0 + o * b.w(), py = b.y0 + t * b.h();
                }
                x.push_back(px);
                y.push_back(py);
            }
        }
    }
    static void rsamples(rt::Rng& r, const Box& b, V& x, V& y, V& v, int lo = 5, int hi = 30)
    {
        int n = r.range(lo, hi);
        double k = r.uni(0.2, 8.0);
        for (int i = 0; i < n; ++i)
        {
            double px, py;
            rpoint(r, b, px, py, 0.1);
            x.push_back(px);
            y.push_back(py);
            v.push_back(r.chance(0.5) ? r.uni(0.0, k) : std::floor(r.uni(0.0, k)));
        }
    }

    struct Gen
    {
        V x, y;
        VI en, fn, npf;
    };
    static Gen genMesh(rt::Rng& r, const Box& b, bool faces)
    {
        Gen g;
        int kind = static_cast<int>(r.below(9)) / 2;
        if (kind == 4)
        {
            // a ring of quadrilaterals: rows that close in themselves
            int na = r.range(4, 8), nr = r.range(1, 3);
            double cx = 0.5 * (b.x0 + b.x1), cy = 0.5 * (b.y0 + b.y1);
            for (int q = 0; q <= nr; ++q)
            {
                for (int i = 0; i < na; ++i)
                {
                    double a = 6.283185307179586 * (i + 0.25) / na, f = 0.2 + 0.3 * q / nr;
                    g.x.push_back(cx + f * b.w() * std::cos(a));
                    g.y.push_back(cy + f * b.h() * std::sin(a));
                }
            }
            for (int q = 0; q <= nr; ++q)
            {
                for (int i = 0; i < na; ++i)
                {
                    int k = (i + 1) % na;
                    g.en.insert(g.en.end(), {q * na + i, q * na + k});
                    if (q < nr)
                    {
                        g.en.insert(g.en.end(), {q * na + i, (q + 1) * na + i});
                        if (faces)
                        {
                            g.npf.push_back(4);
                            g.fn.insert(g.fn.end(), {q * na + i, (q + 1) * na + i, (q + 1) * na + k, q * na + k});
                        }
                    }
                }
            }
            return g;
        }
        int nx = r.range(2, 5), ny = r.range(2, 5);
        double jit = r.chance(0.6) ? r.uni(0.0, 0.25) : 0.0;
        double dx = b.w() / nx, dy = b.h() / ny;
        for (int j = 0; j <= ny; ++j)
        {
            for (int i = 0; i <= nx; ++i)
            {
                g.x.push_back(b.x0 + (i + jit * r.uni(-1, 1)) * dx);
                g.y.push_back(b.y0 + (j + jit * r.uni(-1, 1)) * dy);
            }
        }
        auto id = [&](int i, int j)
        { return j * (nx + 1) + i; };
        std::set<std::pair<int, int>> es;
        auto edge = [&](int a, int c)
        {
            auto p = std::minmax(a, c);
            if (es.insert({p.first, p.second}).second)
            {
                g.en.push_back(a);
                g.en.push_back(c);
            }
        };
        for (int j = 0; j < ny; ++j)
        {
            for (int i = 0; i < nx; ++i)
            {
                if (kind == 2 && r.chance(0.15))
                {
                    continue; // holes
                }
                int a = id(i, j), bb = id(i + 1, j), c = id(i + 1, j + 1), d = id(i, j + 1);
                edge(a, bb);
                edge(bb, c);
                edge(c, d);
                edge(d, a);
                bool tri = kind == 1 || (kind == 3 && r.chance(0.5));
                if (tri)
                {
                    edge(a, c);
                    g.npf.push_back(3);
                    g.fn.insert(g.fn.end(), {a, bb, c});
                    g.npf.push_back(3);
                    g.fn.insert(g.fn.end(), {a, c, d});
                }
                else
                {
                    g.npf.push_back(4);
                    g.fn.insert(g.fn.end(), {a, bb, c, d});
                }
            }
        }
        if (g.en.empty())
        {
            edge(id(0, 0), id(1, 0));
        }
        if (!faces)
        {
            if (r.chance(0.3)) // hanging edge
            {
                int k = r.range(0, static_cast<int>(g.x.size()) - 1);
                g.x.push_back(b.x1 + r.uni(0.1, 0.4) * b.w());
                g.y.push_back(r.uni(b.y0, b.y1));
                edge(k, static_cast<int>(g.x.size()) - 1);
            }
            g.npf.clear();
            g.fn.clear();
        }
        return g;
    }
    struct M2In
    {
        Arr<double> x, y;
        Arr<int> en, fn, npf;
        mk::Mesh2D m;
        explicit M2In(const Gen& g) : x(g.x), y(g.y), en(g.en), fn(g.fn), npf(g.npf)
        {
            m.node_x = x.p;
            m.node_y = y.p;
            m.edge_nodes = en.p;
            m.num_nodes = static_cast<int>(g.x.size());
            m.num_valid_nodes = m.num_nodes;
            m.num_edges = static_cast<int>(g.en.size() / 2);
            m.num_valid_edges = m.num_edges;
            if (!g.npf.empty())
            {
                m.face_nodes = fn.p;
                m.nodes_per_face = npf.p;
                m.num_faces = static_cast<int>(g.npf.size());
                m.num_face_nodes = static_cast<int>(g.fn.size());
            }
        }
    };
    static meshkernel::MakeGridParameters rgrid(Ctx& c, bool onExt = false)
    {
        rt::Rng& r = c.r;
        meshkernel::MakeGridParameters p;
        bool sph = isSph(*c.s);
        p.num_columns = r.range(1, 6);
        p.num_rows = r.range(1, 6);
        if (c.w.preempt && r.chance(0.6))
        {
            // clients with meshes of the same size: what is mixed up is not noticed by its size
            p.num_columns = p.num_rows = 3;
        }
        p.angle = (!sph && r.chance(0.3)) ? r.uni(-80, 80) : 0.0;
        p.origin_x = sph ? r.uni(0, 6) : r.uni(-20, 60);
        p.origin_y = sph ? r.uni(0, 6) : r.uni(-20, 60);
        p.block_size_x = sph ? r.uni(0.3, 1.0) : r.uni(3, 12);
        p.block_size_y = sph ? r.uni(0.3, 1.0) : r.uni(3, 12);
        if (r.chance(0.4) && !sph)
        {
            p.origin_x = p.origin_y = 0;
            p.block_size_x = p.block_size_y = 10;
            p.angle = 0;
        }
        p.upper_right_x = p.origin_x + p.num_columns * p.block_size_x;
        p.upper_right_y = p.origin_y + p.num_rows * p.block_size_y;
        (void)onExt;
        if (c.bad)
        {
            switch (r.below(5))
            {
            case 0:
                p.num_columns = -r.range(0, 3);
                break;
            case 1:
                p.num_rows = 0;
                break;
            case 2:
                p.angle = 100.0;
                break;
            case 3:
                p.block_size_x = -1.0;
                break;
            default:
                p.block_size_y = 0.0;
            }
        }
        return p;
    }
    static int validNode(Ctx& c)
    {
        const M2& m = c.s->m2;
        if (m.nn() == 0)
        {
            return 0;
        }
        int i = c.r.range(0, m.nn() - 1);
        for (int t = 0; t < m.nn(); ++t)
        {
            int j = (i + t) % m.nn();
            if (m.nodeOk(j))
            {
                return j;
            }
        }
        return 0;
    }
    static int anyNode(Ctx& c) // sometimes a deleted node
    {
        if (c.s->m2.nn() > 0 && c.r.chance(0.08))
        {
            return c.r.range(0, c.s->m2.nn() - 1);
        }
        return validNode(c);
    }
    static int badIndex(Ctx& c, int n)
    {
        switch (c.r.below(4))
        {
        case 0:
            return -1;
        case 1:
            return n;
        case 2:
            return n + c.r.range(1, 1000);
        default:
            return 1000000;
        }
    }
    static int validEdge(Ctx& c)
    {
        const M2& m = c.s->m2;
        if (m.ne() == 0)
        {
            return -1;
        }
        int i = c.r.range(0, m.ne() - 1);
        for (int t = 0; t < m.ne(); ++t)
        {
            int j = (i + t) % m.ne();
            if (m.edgeOk(j))
            {
                return j;
            }
        }
        return -1;
    }
    static bool cgNode(Ctx& c, int& i, int& j)
    {
        const CG& g = c.s->cg;
        int n = g.n * g.m;
        if (n == 0)
        {
            return false;
        }
        int k = c.r.range(0, n - 1);
        for (int t = 0; t < n; ++t)
        {
            int q = (k + t) % n;
            if (g.x[q] != MISSING)
            {
                i = q / g.m;
                j = q % g.m;
                return true;
            }
        }
        return false;
    }
    static double CX(Ctx& c, int i, int j) { return c.s->cg.x[i * c.s->cg.m + j]; }
    static double CY(Ctx& c, int i, int j) { return c.s->cg.y[i * c.s->cg.m + j]; }
    // deliberately wrong points: twice the same node, any two nodes, next to the nodes, far away, no number
    static void cgSpoil(Ctx& c, double& x0, double& y0, double& x1, double& y1)
    {
        if (!c.bad)
        {
            return;
        }
        Box b = cgBox(*c.s);
        int i, j;
        switch (c.r.below(5))
        {
        case 0:
            x1 = x0, y1 = y0;
            break;
        case 1:
            if (cgNode(c, i, j))
            {
                x1 = CX(c, i, j), y1 = CY(c, i, j);
            }
            break;
        case 2:
            x0 += c.r.uni(-0.2, 0.2) * b.w(), y1 += c.r.uni(-0.2, 0.2) * b.h();
            break;
        case 3:
            x0 = b.x1 + 100 * b.w(), y1 = b.y0 - 100 * b.h();
            break;
        default:
            (c.r.chance(0.5) ? x0 : y1) = MISSING;
        }
    }
    // two valid nodes on one grid line
    static bool shiftLine(const Ctx& c, int* ix)
    {
        if (c.slot < 0)
        {
            return false;
        }
        const int* l = c.w.slots[static_cast<size_t>(c.slot)].line;
        std::copy(l, l + 4, ix);
        return l[0] >= 0 && std::max(l[0], l[2]) < c.s->cg.n && std::max(l[1], l[3]) < c.s->cg.m;
    }
    static bool cgLine(Ctx& c, double& x0, double& y0, double& x1, double& y1, int* ix = nullptr)
    {
        const CG& g = c.s->cg;
        int i, j;
        if (!cgNode(c, i, j))
        {
            return false;
        }
        bool alongM = c.r.chance(0.5);
        VI cand;
        int n = alongM ? g.m : g.n;
        for (int k = 0; k < n; ++k)
        {
            int ii = alongM ? i : k, jj = alongM ? k : j;
            if ((ii != i || jj != j) && g.ok(ii, jj))
            {
                cand.push_back(k);
            }
        }
        if (cand.empty())
        {
            return false;
        }
        int k = c.r.chance(0.5) ? (c.r.chance(0.5) ? cand.front() : cand.back()) : cand[c.r.below(cand.size())];
        x0 = CX(c, i, j);
        y0 = CY(c, i, j);
        x1 = CX(c, alongM ? i : k, alongM ? k : j);
        y1 = CY(c, alongM ? i : k, alongM ? k : j);
        if (ix)
        {
            ix[0] = i;
            ix[1] = j;
            ix[2] = alongM ? i : k;
            ix[3] = alongM ? k : j;
        }
        cgSpoil(c, x0, y0, x1, y1);
        return true;
    }
    static bool cgBlock(Ctx& c, double& x0, double& y0, double& x1, double& y1)
    {
        int i, j, k, l;
        if (!cgNode(c, i, j) || !cgNode(c, k, l))
        {
            return false;
        }
        if (c.r.chance(0.3) && c.s->cg.ok(0, 0) && c.s->cg.ok(c.s->cg.n - 1, c.s->cg.m - 1))
        {
            i = j = 0;
            k = c.s->cg.n - 1;
            l = c.s->cg.m - 1;
        }
        x0 = CX(c, i, j);
        y0 = CY(c, i, j);
        x1 = CX(c, k, l);
        y1 = CY(c, k, l);
        cgSpoil(c, x0, y0, x1, y1);
        return true;
    }
    static meshkernel::OrthogonalizationParameters rortho(Ctx& c)
    {
        meshkernel::OrthogonalizationParameters p;
        p.outer_iterations = c.r.range(1, 2);
        p.boundary_iterations = c.r.range(1, 3);
        p.inner_iterations = c.r.range(1, 3);
        p.orthogonalization_to_smoothing_factor = c.r.uni(0.5, 1.0);
        p.orthogonalization_to_smoothing_factor_at_boundary = c.r.uni(0.5, 1.0);
        p.areal_to_angle_smoothing_factor = c.r.chance(0.7) ? 1.0 : c.r.uni(0.0, 1.0);
        if (c.bad)
        {
            switch (c.r.below(3))
            {
            case 0:
                p.outer_iterations = 0;
                break;
            case 1:
                p.orthogonalization_to_smoothing_factor = 1.5;
                break;
            default:
                p.inner_iterations = -1;
            }
        }
        return p;
    }
    static meshkernel::MeshRefinementParameters rrefine(Ctx& c, int type)
    {
        meshkernel::MeshRefinementParameters p;
        Box b = m2Box(*c.s);
        p.max_num_refinement_iterations = c.r.chance(0.8) ? 1 : 2;
        p.refine_intersected = c.r.range(0, 1);
        p.use_mass_center_when_refining = c.r.range(0, 1);
        p.min_edge_size = std::max(b.w(), b.h()) * (isSph(*c.s) ? 0.1 * 100000 : 1) / 30.0;
        p.refinement_type = type;
        p.connect_hanging_nodes = c.r.range(0, 1);
        p.account_for_samples_outside = c.r.range(0, 1);
        p.smoothing_iterations = c.r.range(0, 2);
        p.max_courant_time = c.r.uni(0.5, 120);
        p.directional_refinement = c.r.chance(0.2) ? 1 : 0;
        if (c.bad)
        {
            switch (c.r.below(4))
            {
            case 0:
                p.max_num_refinement_iterations = 0;
                break;
            case 1:
                p.refine_intersected = 7;
                break;
            case 2:
                p.min_edge_size = -1.0;
                break;
            default:
                p.refinement_type = 9;
            }
        }
        return p;
    }
    // a family of crossing splines over a box: a lines in one direction, b in the other
    static void rsplines(Ctx& c, V& x, V& y, int a, int b, bool curved = true)
    {
        Box bx = defaultBox(*c.s);
        double w = bx.w(), h = bx.h();
        auto sep = [&]
        {
            if (!x.empty())
            {
                x.push_back(MISSING);
                y.push_back(MISSING);
            }
        };
        for (int k = 0; k < a; ++k)
        {
            sep();
            double yy = bx.y0 + h * (a == 1 ? 0.5 : (0.15 + 0.7 * k / (a - 1)));
            double bend = curved ? c.r.uni(-0.06, 0.06) : 0.0;
            x.insert(x.end(), {bx.x0, bx.x0 + 0.5 * w, bx.x1});
            y.insert(y.end(), {yy, yy + bend * h, yy});
        }
        for (int k = 0; k < b; ++k)
        {
            sep();
            double xx = bx.x0 + w * (b == 1 ? 0.5 : (0.15 + 0.7 * k / (b - 1)));
            double bend = curved ? c.r.uni(-0.04, 0.04) : 0.0;
            x.insert(x.end(), {xx, xx + bend * w, xx});
            y.insert(y.end(), {bx.y0, bx.y0 + 0.5 * h, bx.y1});
        }
    }
    static meshkernel::CurvilinearParameters rcurv(Ctx& c)
    {
        meshkernel::CurvilinearParameters p;
        p.m_refinement = c.r.range(2, 8);
        p.n_refinement = c.r.range(2, 6);
        p.smoothing_iterations = c.r.range(1, 5);
        p.smoothing_parameter = c.r.uni(0.1, 0.9);
        p.attraction_parameter = c.r.chance(0.7) ? 0.0 : c.r.uni(0, 0.3);
        if (c.bad)
        {
            if (c.r.chance(0.5))
            {
                p.m_refinement = 0;
            }
            else
            {
                p.n_refinement = -4;
            }
        }
        return p;
    }
    static meshkernel::SplinesToCurvilinearParameters rs2c(Ctx& c)
    {
        meshkernel::SplinesToCurvilinearParameters p;
        p.aspect_ratio = c.r.uni(0.1, 1.0);
        p.aspect_ratio_grow_factor = c.r.uni(1.0, 1.3);
        p.average_width = defaultBox(*c.s).w() * c.r.uni(0.1, 0.4);
        p.curvature_adapted_grid_spacing = c.r.range(0, 1);
        p.grow_grid_outside = c.r.chance(0.2);
        p.maximum_num_faces_in_uniform_part = c.r.range(2, 6);
        p.check_front_collisions = c.r.chance(0.25) ? 1 : 0;
        p.remove_skinny_triangles = c.r.range(0, 1);
        return p;
    }
    static void addM(Out& o, const V& v) { o.v.insert(o.v.end(), v.begin(), v.end()); }
    static void addI(Out& o, const VI& v)
    {
        for (int k : v)
        {
            o.v.push_back(k);
        }
    }
    static VI mask1d(Ctx& c)
    {
        VI m(c.s->m1.x.size());
        double p = c.r.chance(0.6) ? 1.0 : 0.6;
        for (int& k : m)
        {
            k = c.r.chance(p);
        }
        return m;
    }

    // ------------------------------------------------------------------ catalogue
    static std::vector<OpDef> g_ops;
    static bool always(const Snap&) { return true; }
    static bool hasM2(const Snap& s) { return s.m2.nve > 0; }
    static bool hasCG(const Snap& s) { return s.cg.n > 1 && s.cg.m > 1; }
    static bool hasM1(const Snap& s) { return s.m1.nvn > 0; }
    static bool hasBoth(const Snap& s) { return s.m1.nvn > 0 && s.m2.nf() > 0; }
    static bool smallM2(const Snap& s) { return s.m2.nve > 0 && s.m2.nve < 160; }
    static bool notHugeM2(const Snap& s) { return s.m2.nve < 400; }
    static bool smallCG(const Snap& s) { return hasCG(s) && s.cg.n * s.cg.m < 150; }
    static bool cart(const Snap& s) { return s.proj == 0; }
    // A mesh as an application keeps it: every edge belongs to a face, every node has a moderate number of edges,
    // no edge is degenerate. The algorithms below assume it (see DESIGN.md, "input domain").
    static bool wellM2(const Snap& s)
    {
        const M2& m = s.m2;
        if (!smallM2(s) || m.nf() == 0)
        {
            return false;
        }
        std::vector<int> deg(static_cast<size_t>(m.nn()), 0);
        std::set<std::pair<int, int>> seen;
        double lo = 1e300, hi = 0.0;
        for (int e = 0; e < m.ne(); ++e)
        {
            if (!m.edgeOk(e))
            {
                continue;
            }
            int a = m.en[2 * e], b = m.en[2 * e + 1];
            if (m.ef[2 * e] < 0 && m.ef[2 * e + 1] < 0)
            {
                return false;
            }
            if (a == b || !seen.insert(std::minmax(a, b)).second)
            {
                return false;
            }
            deg[static_cast<size_t>(a)]++;
            deg[static_cast<size_t>(b)]++;
            double l = std::hypot(m.x[a] - m.x[b], m.y[a] - m.y[b]);
            lo = std::min(lo, l);
            hi = std::max(hi, l);
        }
        if (!(lo > 1e-3 * hi))
        {
            return false;
        }
        for (int i = 0; i < m.nn(); ++i)
        {
            int d = deg[static_cast<size_t>(i)];
            if (m.nodeOk(i) && (d < 2 || d > 8))
            {
                return false;
            }
        }
        for (int f = 0; f < m.nf(); ++f)
        {
            if (m.npf[f] > 6)
            {
                return false;
            }
        }
        return true;
    }
    // deleting nodes: the edges of a node are known to the library when they are not doubled and not too many
    static bool delM2(const Snap& s)
    {
        const M2& m = s.m2;
        if (!hasM2(s))
        {
            return false;
        }
        std::vector<int> deg(static_cast<size_t>(m.nn()), 0);
        std::set<std::pair<int, int>> seen;
        for (int e = 0; e < m.ne(); ++e)
        {
            if (m.edgeOk(e))
            {
                int a = m.en[2 * e], b = m.en[2 * e + 1];
                if (a == b || !seen.insert(std::minmax(a, b)).second || ++deg[static_cast<size_t>(a)] > 11 || ++deg[static_cast<size_t>(b)] > 11)
                {
                    return false;
                }
            }
        }
        return true;
    }
    static bool wellCart(const Snap& s) { return wellM2(s) && s.proj == 0; }
    // orthogonalisation in the spherical-accurate projection is a known finding (KF-ORTHO-SPHERICAL-ACCURATE)
    static bool g_known = false; // replaying a known finding
    static bool orthoM2(const Snap& s) { return wellM2(s) && (s.proj != 2 || g_known); }
    static bool orthoStep(const Snap& s) { return wellM2(s) && (s.proj != 2 || g_known); }
    static bool hasNet(const Snap& s) { return !s.netb.x.empty(); }

#define OP(nm, fl, wt, wh, ...) g_ops.push_back(OpDef{nm, (fl), (wt), wh, [](Ctx & c) __VA_ARGS__});
#define CALL(fn, ...) c.call(#fn, [&] { return fn(c.id, ##__VA_ARGS__); })

    // The announced size is the size: a call fills all of it, and has nothing to put in one element more.
    static void sized(Ctx& c, int n, const std::function<int(mk::GeometryList&)>& f)
    {
        if (!c.w.sizes || n < 0)
        {
            return;
        }
        const double mark = 0x1.23456789abcdep+200;
        const std::string api = c.out.api.back();
        for (int k = 0; k < 2; ++k)
        {
            Geo o(n + k);
            for (int i = 0; i < n + k; ++i)
            {
                o.x.p[i] = o.y.p[i] = mark;
            }
            int rc;
            {
                rt::KernelScope scope;
                rc = f(o.g);
            }
            for (int i = 0; rc == 0 && i < n + k; ++i)
            {
                const bool put = o.x.p[i] != mark || o.y.p[i] != mark;
                if (put != (i < n))
                {
                    rt::fail(rt::kViolation, ((put ? "more-than-announced:" : "less-than-announced:") + api).c_str(), "%s %s element %d, the announced number is %d", api.c_str(), put ? "fills" : "leaves out", i, n);
                }
            }
        }
    }
    static void sizedInts(Ctx& c, int n, const std::function<int(int*)>& f)
    {
        if (!c.w.sizes || n < 0)
        {
            return;
        }
        const std::string api = c.out.api.back();
        Arr<int> o(static_cast<size_t>(n));
        for (int i = 0; i < n; ++i)
        {
            o.p[i] = -77777;
        }
        int rc;
        {
            rt::KernelScope scope;
            rc = f(o.p);
        }
        for (int i = 0; rc == 0 && i < n; ++i)
        {
            if (o.p[i] == -77777)
            {
                rt::fail(rt::kViolation, ("less-than-announced:" + api).c_str(), "%s leaves out element %d, the announced number is %d", api.c_str(), i, n);
            }
        }
    }
#define SIZED(fn, ...) sized(c, n, [&](mk::GeometryList& gl) { return fn(c.id, ##__VA_ARGS__, gl); })

    // a mesh that is no mesh: edges between nodes that are not there, negative numbers
    static void spoil(Ctx& c, int& nodes, int& edges, int* en)
    {
        switch (c.r.below(3))
        {
        case 0:
            en[c.r.below(static_cast<uint64_t>(2 * edges))] = nodes + (c.r.chance(0.5) ? 0 : c.r.range(1, 100000));
            break;
        case 1:
            nodes = -c.r.range(1, 5);
            break;
        default:
            edges = -c.r.range(1, 5);
        }
    }
    static void countGetProperty(Ctx& c, int prop)
    {
        int dim = -7;
        if (CALL(mkernel_mesh2d_get_property_dimension, prop, dim) == 0 && dim >= 0)
        {
            Geo o(dim);
            CALL(mkernel_mesh2d_get_property, prop, o.g);
            addM(c.out, o.v.vec());
        }
    }

    static void buildCatalogue()
    {
        // ================= 2d mesh: creation
        OP("m2_make_rect", fM2 | fUndo, 3, notHugeM2, {
            auto p = rgrid(c);
            CALL(mkernel_mesh2d_make_rectangular_mesh, p);
        })
        OP("m2_make_rect_poly", fM2 | fUndo, 1, notHugeM2, {
            auto p = rgrid(c);
            V x, y;
            rpolyOne(c.r, defaultBox(*c.s), x, y);
            Geo g(x, y);
            CALL(mkernel_mesh2d_make_rectangular_mesh_from_polygon, p, g.g);
        })
        OP("m2_make_rect_ext", fM2 | fUndo, 1, notHugeM2, {
            auto p = rgrid(c, true);
            CALL(mkernel_mesh2d_make_rectangular_mesh_on_extension, p);
        })
        OP("m2_make_global", fM2 | fUndo | fSlow, 0.3, notHugeM2, {
            int a = c.r.range(4, 8), b = c.r.range(2, 4);
            if (c.bad)
            {
                (c.r.chance(0.5) ? a : b) = 0;
            }
            CALL(mkernel_mesh2d_make_global, a, b);
        })
        OP("m2_make_tri_poly", fM2 | fUndo | fTri, 0.8, notHugeM2, {
            V x, y;
            rpolyOne(c.r, defaultBox(*c.s), x, y);
            Geo g(x, y);
            CALL(mkernel_mesh2d_make_triangular_mesh_from_polygon, g.g);
        })
        OP("m2_make_tri_samples", fM2 | fUndo | fTri, 0.8, notHugeM2, {
            V x, y, v;
            rsamples(c.r, defaultBox(*c.s), x, y, v, 4, 20);
            Geo g(x, y, v);
            CALL(mkernel_mesh2d_make_triangular_mesh_from_samples, g.g);
        })
        OP("m2_set", fM2 | fUndo | fReplace, 2, always, {
            Box bx = defaultBox(*c.s);
            if (c.s->proj == 1 && c.r.chance(0.25))
            {
                bx = Box{-100, -60, 170 + c.r.uni(0, 110), 60}; // around a large part of the globe
            }
            Gen g = genMesh(c.r, bx, c.r.chance(0.4));
            if (c.bad)
            {
                if (c.r.chance(0.3))
                {
                    g.npf.clear();
                    g.fn.clear();
                    g.en.clear();
                }
                else if (c.r.chance(0.3))
                {
                    g.x.clear();
                    g.y.clear();
                    g.en.clear();
                    g.npf.clear();
                    g.fn.clear();
                }
            }
            M2In m(g);
            if (c.bad && !g.en.empty())
            {
                spoil(c, m.m.num_nodes, m.m.num_edges, m.m.edge_nodes);
            }
            CALL(mkernel_mesh2d_set, m.m);
        })
        OP("m2_add", fM2 | fUndo, 1, notHugeM2, {
            Box b = defaultBox(*c.s);
            double dx = c.r.chance(0.5) ? b.w() * 1.25 : c.r.uni(-0.5, 0.5) * b.w();
            b.x0 += dx;
            b.x1 += dx;
            Gen g = genMesh(c.r, b, c.r.chance(0.4));
            M2In m(g);
            if (c.bad)
            {
                spoil(c, m.m.num_nodes, m.m.num_edges, m.m.edge_nodes);
            }
            CALL(mkernel_mesh2d_add, m.m);
        })
        OP("m2_connect", fM2 | fUndo, 0.7, wellM2,
           {
               Box b = m2Box(*c.s);
               Box b2 = b;
               double w = b.w();
               b2.x0 = b.x1 + c.r.uni(-0.01, 0.02) * w;
               b2.x1 = b2.x0 + w;
               Gen g = genMesh(c.r, b2, false);
               int rows = -1;
               for (int i = 0; i < c.s->m2.nn(); ++i)
               {
                   rows += c.s->m2.nodeOk(i) && std::abs(c.s->m2.x[static_cast<size_t>(i)] - b.x1) < 1e-3 * w;
               }
               if (rows >= 1 && rows <= 8 && c.r.chance(0.6))
               {
                   // a finer or coarser rectangular mesh along the right side, which leaves up to four hanging nodes on an edge
                   const int k = c.r.range(1, 5);
                   const int ny = rows % k == 0 && c.r.chance(0.4) ? rows / k : rows * k;
                   const int nx = c.r.range(1, 4);
                   const double dy = b.h() / ny;
                   g = Gen();
                   for (int j = 0; j <= ny; ++j)
                   {
                       for (int i = 0; i <= nx; ++i)
                       {
                           const int q = j * (nx + 1) + i;
                           g.x.push_back(b.x1 + i * dy);
                           g.y.push_back(b.y0 + j * dy);
                           if (i < nx)
                           {
                               g.en.insert(g.en.end(), {q, q + 1});
                           }
                           if (j < ny)
                           {
                               g.en.insert(g.en.end(), {q, q + nx + 1});
                           }
                       }
                   }
               }
               M2In m(g);
               CALL(mkernel_mesh2d_connect_meshes, m.m, c.bad ? -1.0 : c.r.uni(0.05, 0.5));
           })
        OP("m2_convert_projection", fM2 | fUndo, 0.4, [](const Snap& s)
           { return hasM2(s) && s.proj != 2 && s.netb.x.empty() && s.neta.x.empty(); },
           {
               int target = isSph(*c.s) ? 0 : 1;
               if (c.bad)
               {
                   target = c.r.chance(0.5) ? 2 : 17;
               }
               const char* z = c.bad ? "+proj=nonsense" : "+proj=utm +lat_1=0.5 +lat_2=2 +n=0.5 +zone=31";
               c.call("mkernel_mesh2d_convert_projection", [&]
                      { return mkernel_mesh2d_convert_projection(c.id, target, z); });
           })
        // ================= 2d mesh: local edits
        OP("m2_insert_node", fM2 | fUndo, 2, always, {
            double x, y;
            rpoint(c.r, m2Box(*c.s), x, y, 0.3);
            int n = -1;
            CALL(mkernel_mesh2d_insert_node, x, y, n);
            c.out.v.push_back(n);
        })
        OP("m2_insert_edge", fM2 | fUndo, 2, hasM2, {
            int a = anyNode(c), b = anyNode(c);
            if (c.bad)
            {
                a = badIndex(c, c.s->m2.nn());
            }
            if (!c.bad && a == b)
            {
                c.out.skipped = true;
                return;
            }
            int e = -1;
            CALL(mkernel_mesh2d_insert_edge, a, b, e);
            c.out.v.push_back(e);
        })
        OP("m2_insert_node_edge", fM2 | fUndo, 2, hasM2, {
            // the usual client sequence: a new node joined to the mesh straight away
            double x, y;
            rpoint(c.r, m2Box(*c.s), x, y, 0.3);
            int n = -1, e = -1, a = validNode(c);
            if (CALL(mkernel_mesh2d_insert_node, x, y, n) == 0)
            {
                CALL(mkernel_mesh2d_insert_edge, n, a, e);
            }
            c.out.v.push_back(n);
            c.out.v.push_back(e);
        })
        OP("m2_insert_edge_coords", fM2 | fUndo, 1.5, always, {
            double x0, y0, x1, y1;
            Box b = m2Box(*c.s);
            rpoint(c.r, b, x0, y0, 0.2);
            rpoint(c.r, b, x1, y1, 0.2);
            if (c.s->m2.nvn > 0 && c.r.chance(0.5))
            {
                int k = validNode(c);
                x0 = c.s->m2.x[k];
                y0 = c.s->m2.y[k];
                if (c.r.chance(0.4))
                {
                    k = validNode(c);
                    x1 = c.s->m2.x[k];
                    y1 = c.s->m2.y[k];
                }
            }
            if (c.bad)
            {
                x1 = x0;
                y1 = y0;
            }
            int n0 = -1, n1 = -1, e = -1;
            CALL(mkernel_mesh2d_insert_edge_from_coordinates, x0, y0, x1, y1, n0, n1, e);
            addI(c.out, {n0, n1, e});
        })
        OP("m2_delete_node", fM2 | fUndo, 2, delM2, {
            int k = c.bad ? badIndex(c, c.s->m2.nn()) : anyNode(c);
            CALL(mkernel_mesh2d_delete_node, k);
        })
        OP("m2_move_node", fM2 | fUndo, 2, hasM2, {
            int k = c.bad ? badIndex(c, c.s->m2.nn()) : validNode(c);
            Box b = m2Box(*c.s);
            double x = 0, y = 0;
            if (!c.bad)
            {
                // tiny, moderate, or so far that the neighbours are moved along
                double f = c.r.chance(0.1) ? 1e-7 : c.r.chance(0.5) ? 0.08 : 0.6;
                x = c.s->m2.x[k] + c.r.uni(-f, f) * b.w();
                y = c.s->m2.y[k] + c.r.uni(-f, f) * b.h();
                if (c.r.chance(0.03))
                {
                    x = c.s->m2.x[k], y = c.s->m2.y[k];
                }
            }
            CALL(mkernel_mesh2d_move_node, x, y, k);
        })
        OP("m2_delete_edge", fM2 | fUndo, 1, hasM2, {
            int e = validEdge(c);
            Box b = m2Box(*c.s);
            double x = c.s->m2.ex[e], y = c.s->m2.ey[e], m = 0.2;
            if (c.bad)
            {
                x = b.x1 + 50 * b.w();
            }
            CALL(mkernel_mesh2d_delete_edge, x, y, b.x0 - m * b.w(), b.y0 - m * b.h(), b.x1 + m * b.w(), b.y1 + m * b.h());
        })
        OP("m2_delete_edge_idx", fM2 | fUndo, 1.5, hasM2, {
            int e = c.bad ? badIndex(c, c.s->m2.ne()) : (c.r.chance(0.05) ? c.r.range(0, c.s->m2.ne() - 1) : validEdge(c));
            CALL(mkernel_mesh2d_delete_edge_by_index, e);
        })
        OP("m2_merge_two", fM2 | fUndo, 1.5, wellM2, {
            int a = validNode(c), b = validNode(c);
            const M2& m = c.s->m2;
            int e = validEdge(c);
            if (e >= 0 && c.r.chance(0.6))
            {
                a = m.en[2 * e];
                b = m.en[2 * e + 1];
            }
            if (c.bad)
            {
                (c.r.chance(0.5) ? a : b) = badIndex(c, m.nn());
            }
            CALL(mkernel_mesh2d_merge_two_nodes, a, b);
        })
        OP("m2_merge_nodes", fM2 | fUndo, 1, wellM2, {
            V x, y;
            rpoly(c.r, m2Box(*c.s), x, y, 0.4);
            Geo g(x, y);
            CALL(mkernel_mesh2d_merge_nodes, g.g);
        })
        OP("m2_merge_dist", fM2 | fUndo, 1, wellM2, {
            V x, y;
            rpoly(c.r, m2Box(*c.s), x, y, 0.4);
            Geo g(x, y);
            Box b = m2Box(*c.s);
            double d = c.r.chance(0.5) ? 1e-3 : c.r.uni(0.0, 0.2) * std::min(b.w(), b.h());
            if (isSph(*c.s))
            {
                d *= 100000;
            }
            CALL(mkernel_mesh2d_merge_nodes_with_merging_distance, g.g, d);
        })
        OP("m2_delete", fM2 | fUndo, 2, delM2, {
            V x, y;
            rpoly(c.r, m2Box(*c.s), x, y, 0.05);
            Geo g(x, y);
            int opt = c.bad ? 77 : c.r.range(0, 2);
            int inv = c.r.range(0, 1);
            CALL(mkernel_mesh2d_delete, g.g, opt, inv);
        })
        OP("m2_delete_hanging", fM2 | fUndo, 0.7, hasM2, {
            CALL(mkernel_mesh2d_delete_hanging_edges);
        })
        OP("m2_delete_small", fM2 | fUndo, 0.7, hasM2, {
            double t = c.r.uni(0.01, 1.2), f = c.r.uni(0.01, 0.8);
            if (c.bad)
            {
                t = -1;
            }
            CALL(mkernel_mesh2d_delete_small_flow_edges_and_small_triangles, t, f);
        })
        OP("m2_remove_disconnected", fM2 | fUndo, 0.7, hasM2, {
            CALL(mkernel_mesh2d_remove_disconnected_regions);
        })
        OP("m2_split_row", fM2 | fUndo, 1, wellM2, {
            int e = validEdge(c);
            int a = c.s->m2.en[2 * e], b = c.s->m2.en[2 * e + 1];
            if (c.bad)
            {
                if (c.r.chance(0.5))
                {
                    b = validNode(c);
                }
                else
                {
                    a = badIndex(c, c.s->m2.nn());
                }
            }
            CALL(mkernel_mesh2d_split_row, a, b);
        })
        // ================= 2d mesh: whole-mesh transformations
        OP("m2_rotate", fM2 | fUndo | fPar, 1, hasM2, {
            double x, y;
            rpoint(c.r, m2Box(*c.s), x, y);
            CALL(mkernel_mesh2d_rotate, x, y, c.r.uni(-180, 180));
        })
        OP("m2_translate", fM2 | fUndo | fPar, 1, hasM2, {
            Box b = m2Box(*c.s);
            CALL(mkernel_mesh2d_translate, c.r.uni(-1, 1) * b.w(), c.r.uni(-1, 1) * b.h());
        })
        OP("m2_flip", fM2 | fUndo, 1, wellM2, {
            V px, py, lx, ly;
            rpoly(c.r, m2Box(*c.s), px, py, 0.5);
            rland(c.r, m2Box(*c.s), lx, ly, 0.6);
            Geo p(px, py), l(lx, ly);
            CALL(mkernel_mesh2d_flip_edges, c.r.range(0, 1), c.r.range(0, 1), p.g, l.g);
        })
        OP("m2_snap_land", fM2 | fUndo, 1, wellM2, {
            V px, py, lx, ly;
            rpoly(c.r, m2Box(*c.s), px, py, 0.5);
            rland(c.r, m2Box(*c.s), lx, ly, 0.0);
            Geo p(px, py), l(lx, ly);
            CALL(mkernel_mesh2d_snap_to_landboundary, p.g, l.g);
        })
        OP("m2_casulli_ref", fM2 | fUndo, 1, wellM2, {
            CALL(mkernel_mesh2d_casulli_refinement);
        })
        OP("m2_casulli_ref_poly", fM2 | fUndo, 1, wellM2, {
            V x, y;
            rpoly(c.r, m2Box(*c.s), x, y, 0.1);
            Geo g(x, y);
            CALL(mkernel_mesh2d_casulli_refinement_on_polygon, g.g);
        })
        OP("m2_casulli_deref", fM2 | fUndo, 1, wellM2, {
            CALL(mkernel_mesh2d_casulli_derefinement);
        })
        OP("m2_casulli_deref_poly", fM2 | fUndo, 1, wellM2, {
            V x, y;
            rpoly(c.r, m2Box(*c.s), x, y, 0.1);
            Geo g(x, y);
            CALL(mkernel_mesh2d_casulli_derefinement_on_polygon, g.g);
        })
        OP("m2_refine_polygon", fM2 | fUndo | fPar, 1.2, wellM2, {
            V x, y;
            rpoly(c.r, m2Box(*c.s), x, y, 0.2, 0.0);
            Geo g(x, y);
            auto p = rrefine(c, 2);
            CALL(mkernel_mesh2d_refine_based_on_polygon, g.g, p);
        })
        OP("m2_refine_samples", fM2 | fUndo | fPar, 1, wellM2, {
            V x, y, v;
            rsamples(c.r, m2Box(*c.s), x, y, v, 3, 25);
            Geo g(x, y, v);
            auto p = rrefine(c, c.r.range(1, 2));
            CALL(mkernel_mesh2d_refine_based_on_samples, g.g, c.r.uni(0.8, 1.3), c.r.chance(0.7) ? 1 : c.r.range(2, 4), p);
        })
        OP("m2_refine_gridded", fM2 | fUndo | fPar, 0.8, wellM2, {
            Box b = m2Box(*c.s);
            int nx = c.r.range(3, 6), ny = c.r.range(3, 6);
            bool nonuni = c.r.chance(0.4);
            double cs = std::max(b.w(), b.h()) * 1.2 / (std::min(nx, ny) - 1);
            GriddedSamples gs;
            gs.num_x = nx;
            gs.num_y = ny;
            gs.x_origin = b.x0 - 0.05 * b.w();
            gs.y_origin = b.y0 - 0.05 * b.h();
            gs.cell_size = cs;
            V cx, cy;
            for (int i = 0; i < nx; ++i)
            {
                cx.push_back(gs.x_origin + cs * i);
            }
            for (int i = 0; i < ny; ++i)
            {
                cy.push_back(gs.y_origin + cs * i);
            }
            Arr<double> ax(cx), ay(cy);
            if (nonuni)
            {
                gs.x_coordinates = ax.p;
                gs.y_coordinates = ay.p;
                gs.cell_size = 0;
            }
            bool sh = c.r.chance(0.5);
            size_t n = static_cast<size_t>(nx) * static_cast<size_t>(ny);
            std::vector<float> fv;
            std::vector<short> sv;
            for (size_t i = 0; i < n; ++i)
            {
                double q = c.r.uni(-10, 5);
                fv.push_back(static_cast<float>(q));
                sv.push_back(static_cast<short>(q));
            }
            Arr<float> af(fv);
            Arr<short> as(sv);
            gs.values = sh ? static_cast<void*>(as.p) : static_cast<void*>(af.p);
            gs.value_type = sh ? 0 : 1;
            auto p = rrefine(c, 1);
            CALL(mkernel_mesh2d_refine_based_on_gridded_samples, gs, p, c.r.chance(0.3));
        })
        OP("m2_refine_ridges", fM2 | fUndo | fPar, 0.4, wellM2, {
            Box b = m2Box(*c.s);
            int nx = 7, ny = 7;
            double cs = std::max(b.w(), b.h()) * 1.2 / 6;
            GriddedSamples gs;
            gs.num_x = nx;
            gs.num_y = ny;
            gs.x_origin = b.x0 - 0.05 * b.w();
            gs.y_origin = b.y0 - 0.05 * b.h();
            gs.cell_size = cs;
            std::vector<float> fv;
            for (int i = 0; i < nx * ny; ++i)
            {
                fv.push_back(static_cast<float>(c.r.uni(0, 3) + ((i % nx) == 3 ? 40 : 0)));
            }
            Arr<float> af(fv);
            gs.values = af.p;
            gs.value_type = 1;
            auto p = rrefine(c, 3);
            CALL(mkernel_mesh2d_refine_ridges_based_on_gridded_samples, gs, 1.01, 1, c.r.range(0, 2), p);
        })
        OP("m2_ortho_compute", fM2 | fUndo | fPar, 1.5, orthoM2, {
            V px, py, lx, ly;
            rpoly(c.r, m2Box(*c.s), px, py, 0.6, 0.0);
            int opt = c.r.range(0, 4);
            rland(c.r, m2Box(*c.s), lx, ly, opt == 0 ? 1.0 : 0.0);
            Geo p(px, py), l(lx, ly);
            auto op = rortho(c);
            CALL(mkernel_mesh2d_compute_orthogonalization, opt, op, p.g, l.g);
        })
        OP("x_geometry_error", fM2 | fUndo | fReplace | fPar, 0, [](const Snap& s) { return s.proj != 2; }, {
            // a mesh in which one boundary node also has an edge that ends inside a cell, which the smoother refuses
            Box b = defaultBox(*c.s);
            int nx = c.r.range(2, 5), ny = c.r.range(2, 5);
            Gen g;
            for (int j = 0; j <= ny; ++j)
            {
                for (int i = 0; i <= nx; ++i)
                {
                    int k = j * (nx + 1) + i;
                    g.x.push_back(b.x0 + b.w() * i / nx);
                    g.y.push_back(b.y0 + b.h() * j / ny);
                    if (i < nx)
                    {
                        g.en.insert(g.en.end(), {k, k + 1});
                    }
                    if (j < ny)
                    {
                        g.en.insert(g.en.end(), {k, k + nx + 1});
                    }
                }
            }
            bool low = c.r.chance(0.5);
            int at = c.r.range(1, nx - 1) + (low ? 0 : ny * (nx + 1));
            g.x.push_back(g.x[static_cast<size_t>(at)] + c.r.uni(0.3, 0.6) * b.w() / nx * (c.r.chance(0.5) ? 1 : -1));
            g.y.push_back(g.y[static_cast<size_t>(at)] + c.r.uni(0.3, 0.6) * b.h() / ny * (low ? 1 : -1));
            g.en.insert(g.en.end(), {at, static_cast<int>(g.x.size()) - 1});
            // the refused node may have any number, the first and the last included
            const int all = static_cast<int>(g.x.size());
            const int shift = c.r.chance(0.3) ? all - at : c.r.chance(0.2) ? all - 1 - at : c.r.chance(0.5) ? c.r.range(0, all - 1) : 0;
            V sx(g.x), sy(g.y);
            for (int i = 0; i < all; ++i)
            {
                sx[static_cast<size_t>((i + shift) % all)] = g.x[static_cast<size_t>(i)];
                sy[static_cast<size_t>((i + shift) % all)] = g.y[static_cast<size_t>(i)];
            }
            g.x = sx;
            g.y = sy;
            for (int& k : g.en)
            {
                k = (k + shift) % all;
            }
            at = (at + shift) % all;
            M2In m(g);
            if (CALL(mkernel_mesh2d_set, m.m) != 0)
            {
                return;
            }
            V none;
            Geo p(none, none), l(none, none);
            auto op = rortho(c);
            c.out.badNode = at;
            CALL(mkernel_mesh2d_compute_orthogonalization, 0, op, p.g, l.g);
        })
        // ================= orthogonalisation session
        OP("os_init", fM2 | fSes | fUndo | fPar, 1, orthoM2, {
            V px, py, lx, ly;
            rpoly(c.r, m2Box(*c.s), px, py, 0.6, 0.0);
            int opt = c.r.range(0, 4);
            rland(c.r, m2Box(*c.s), lx, ly, opt == 0 ? 1.0 : 0.0);
            Geo p(px, py), l(lx, ly);
            auto op = rortho(c);
            CALL(mkernel_mesh2d_initialize_orthogonalization, opt, op, p.g, l.g);
        })
        OP("os_prepare", fM2 | fSes | fUntracked | fPar, 1, orthoStep, {
            CALL(mkernel_mesh2d_prepare_outer_iteration_orthogonalization);
        })
        OP("os_inner", fM2 | fSes | fUntracked | fPar, 1, orthoStep, {
            CALL(mkernel_mesh2d_compute_inner_ortogonalization_iteration);
        })
        OP("os_finalize", fM2 | fSes | fUntracked | fPar, 1, orthoStep, {
            CALL(mkernel_mesh2d_finalize_inner_ortogonalization_iteration);
        })
        OP("os_delete", fSes, 0.5, always, {
            CALL(mkernel_mesh2d_delete_orthogonalization);
        })
        OP("os_round", fM2 | fSes | fUntracked | fPar, 1, orthoM2, {
            // one whole outer iteration
            CALL(mkernel_mesh2d_prepare_outer_iteration_orthogonalization);
            CALL(mkernel_mesh2d_compute_inner_ortogonalization_iteration);
            CALL(mkernel_mesh2d_finalize_inner_ortogonalization_iteration);
        })
        // ================= 1d mesh and network
        OP("m1_set", fM1 | fUndo | fReplace, 1.5, always, {
            Box b = defaultBox(*c.s);
            int n = c.r.range(2, 8);
            V x, y;
            VI en;
            for (int i = 0; i < n; ++i)
            {
                x.push_back(b.x0 + b.w() * (0.05 + 0.9 * i / (n - 1)));
                y.push_back(b.y0 + b.h() * c.r.uni(0.2, 0.8));
                if (i)
                {
                    en.push_back(i - 1);
                    en.push_back(i);
                }
            }
            Arr<double> ax(x), ay(y);
            Arr<int> ae(en);
            mk::Mesh1D m;
            m.node_x = ax.p;
            m.node_y = ay.p;
            m.edge_nodes = ae.p;
            m.num_nodes = n;
            m.num_valid_nodes = n;
            m.num_edges = n - 1;
            m.num_valid_edges = n - 1;
            if (c.bad)
            {
                spoil(c, m.num_nodes, m.num_edges, ae.p);
            }
            CALL(mkernel_mesh1d_set, m);
        })
        OP("m1_add", fM1 | fUndo, 1, always, {
            Box b = defaultBox(*c.s);
            int n = c.r.range(2, 5);
            V x, y;
            VI en;
            for (int i = 0; i < n; ++i)
            {
                x.push_back(b.x0 + b.w() * c.r.uni(0.05, 0.95));
                y.push_back(b.y0 + b.h() * c.r.uni(0.05, 0.95));
                if (i)
                {
                    en.push_back(i - 1);
                    en.push_back(i);
                }
            }
            Arr<double> ax(x), ay(y);
            Arr<int> ae(en);
            mk::Mesh1D m;
            m.node_x = ax.p;
            m.node_y = ay.p;
            m.edge_nodes = ae.p;
            m.num_nodes = n;
            m.num_valid_nodes = n;
            m.num_edges = n - 1;
            m.num_valid_edges = n - 1;
            if (c.bad)
            {
                spoil(c, m.num_nodes, m.num_edges, ae.p);
            }
            CALL(mkernel_mesh1d_add, m);
        })
        OP("net_set", fM1 | fUndo | fReplace, 1.5, always, {
            Box b = defaultBox(*c.s);
            V x, y;
            int lines = c.r.range(1, 3);
            for (int l = 0; l < lines; ++l)
            {
                if (l)
                {
                    x.push_back(MISSING);
                    y.push_back(MISSING);
                }
                int n = c.r.range(2, 5);
                for (int i = 0; i < n; ++i)
                {
                    x.push_back(b.x0 + b.w() * i / (n - 1));
                    y.push_back(b.y0 + b.h() * c.r.uni(0.1, 0.9));
                }
            }
            Geo g(x, y);
            CALL(mkernel_network1d_set, g.g);
        })
        OP("net_offsetted", fM1 | fUntracked, 1, hasNet, {
            CALL(mkernel_network1d_compute_offsetted_chainages, c.bad ? -1.0 : c.r.uni(2.0, 20.0) * metres(*c.s));
        })
        OP("net_fixed", fM1 | fUntracked, 0.7, hasNet, {
            // the lines of the network, counted by their parts in the 1d mesh that it gives
            const auto& nb = c.s->netb;
            std::vector<int> part(nb.x.size());
            std::iota(part.begin(), part.end(), 0);
            std::function<int(int)> find = [&](int v)
            { return part[static_cast<size_t>(v)] == v ? v : find(part[static_cast<size_t>(v)]); };
            int lines = static_cast<int>(nb.x.size());
            for (size_t e = 0; e + 1 < nb.en.size(); e += 2)
            {
                int u = find(nb.en[e]), v = find(nb.en[e + 1]);
                if (u != v)
                {
                    part[static_cast<size_t>(u)] = v;
                    --lines;
                }
            }
            V ch;
            double unit = metres(*c.s);
            for (int l = 0; l < lines; ++l)
            {
                if (l)
                {
                    ch.push_back(MISSING);
                }
                double at = 0;
                for (int k = c.r.range(l == lines - 1 ? 1 : 0, 4); k > 0; --k)
                {
                    at += c.r.chance(0.3) ? c.r.uni(0.05, 1.0) : c.r.uni(1, 12);
                    ch.push_back(at * unit);
                }
            }
            if (c.bad)
            {
                ch.insert(ch.end(), 4, MISSING);
                ch.push_back(-1.0);
            }
            Arr<double> a(ch);
            double face = c.r.chance(0.5) ? 0.01 : c.r.uni(0.1, 3.0) * unit;
            CALL(mkernel_network1d_compute_fixed_chainages, a.p, static_cast<int>(ch.size()), face, c.r.uni(0.1, 1.0) * unit);
        })
        OP("net_to_m1", fM1 | fUndo, 1, hasNet, {
            CALL(mkernel_network1d_to_mesh1d, c.r.uni(0.01, 2.0));
        })
        // ================= contacts
        OP("con_single", fCon | fUndo | fReplace, 1, hasBoth, {
            Arr<int> m(mask1d(c));
            V x, y;
            rpoly(c.r, m2Box(*c.s), x, y, 0.6, 0.0);
            Geo g(x, y);
            CALL(mkernel_contacts_compute_single, m.p, g.g, c.r.uni(0.0, 5.0));
        })
        OP("con_multiple", fCon | fUndo | fReplace, 1, hasBoth, {
            Arr<int> m(mask1d(c));
            CALL(mkernel_contacts_compute_multiple, m.p);
        })
        OP("con_polygons", fCon | fUndo | fReplace, 1, hasBoth, {
            Arr<int> m(mask1d(c));
            V x, y;
            rpoly(c.r, m2Box(*c.s), x, y, 0.0);
            Geo g(x, y);
            CALL(mkernel_contacts_compute_with_polygons, m.p, g.g);
        })
        OP("con_points", fCon | fUndo | fReplace, 1, hasBoth, {
            Arr<int> m(mask1d(c));
            V x, y, v;
            rsamples(c.r, m2Box(*c.s), x, y, v, 1, 5);
            Geo g(x, y, v);
            CALL(mkernel_contacts_compute_with_points, m.p, g.g);
        })
        OP("con_boundary", fCon | fUndo | fReplace, 1, hasBoth, {
            Arr<int> m(mask1d(c));
            V x, y;
            rpoly(c.r, m2Box(*c.s), x, y, 0.6, 0.0);
            Geo g(x, y);
            Box b = m2Box(*c.s);
            CALL(mkernel_contacts_compute_boundary, m.p, g.g, c.r.uni(0.1, 0.6) * b.w() * (isSph(*c.s) ? 100000 : 1));
        })
        OP("con_set", fCon | fUntracked, 0.7, hasBoth, {
            int n = c.r.range(1, 4);
            VI a, b;
            for (int i = 0; i < n; ++i)
            {
                a.push_back(c.r.range(0, static_cast<int>(c.s->m1.x.size()) - 1));
                b.push_back(c.r.range(0, c.s->m2.nf() - 1));
            }
            Arr<int> aa(a), ab(b);
            mk::Contacts k;
            k.mesh1d_indices = aa.p;
            k.mesh2d_indices = ab.p;
            k.num_contacts = n;
            CALL(mkernel_contacts_set, k);
        })
        // ================= curvilinear: creation
        OP("cg_rect", fCG | fUndo | fReplace, 2, always, {
            auto p = rgrid(c);
            CALL(mkernel_curvilinear_compute_rectangular_grid, p);
        })
        OP("cg_rect_poly", fCG | fUndo | fReplace, 0.7, always, {
            auto p = rgrid(c);
            V x, y;
            rpolyOne(c.r, defaultBox(*c.s), x, y);
            if (c.bad)
            {
                x.clear();
                y.clear();
            }
            Geo g(x, y);
            CALL(mkernel_curvilinear_compute_rectangular_grid_from_polygon, p, g.g);
        })
        OP("cg_rect_ext", fCG | fUndo | fReplace, 0.7, always, {
            auto p = rgrid(c, true);
            CALL(mkernel_curvilinear_compute_rectangular_grid_on_extension, p);
        })
        OP("cg_circular", fCG | fUndo | fReplace, 0.7, [](const Snap& s)
           { return !hasCG(s); },
           {
               auto p = rgrid(c);
               p.radius_curvature = c.r.chance(0.35) ? 0.0 : c.r.uni(5, 30);
               if (c.r.chance(0.5))
               {
                   p.uniform_columns_fraction = c.r.uni(0.1, 1.0);
                   p.maximum_uniform_size_columns = c.r.uni(1.0, 5.0);
                   p.uniform_rows_fraction = c.r.chance(0.3) ? 1.0 : c.r.uni(0.1, 1.0);
                   p.maximum_uniform_size_rows = c.r.uni(1.0, 5.0);
               }
               p.num_columns = std::max(p.num_columns, 3);
               p.num_rows = std::max(p.num_rows, 3);
               if (c.bad)
               {
                   p.num_columns = 0;
               }
               CALL(mkernel_curvilinear_compute_circular_grid, p);
           })
        OP("cg_set", fCG | fUndo | fReplace, 1, always, {
            Box b = defaultBox(*c.s);
            int n = c.r.range(2, 6), m = c.r.range(2, 6);
            V x, y;
            double jit = c.r.uni(0, 0.2);
            for (int i = 0; i < n; ++i)
            {
                for (int j = 0; j < m; ++j)
                {
                    x.push_back(b.x0 + b.w() * (j + jit * c.r.uni(-1, 1)) / (m - 1));
                    y.push_back(b.y0 + b.h() * (i + jit * c.r.uni(-1, 1)) / (n - 1));
                }
            }
            Arr<double> ax(x), ay(y);
            mk::CurvilinearGrid g;
            g.node_x = ax.p;
            g.node_y = ay.p;
            g.num_n = n;
            g.num_m = m;
            CALL(mkernel_curvilinear_set, g);
        })
        OP("cg_transf_poly", fCG | fUndo | fReplace, 0.7, always, {
            Box b = defaultBox(*c.s);
            int k = c.r.range(2, 4);
            V x, y;
            for (int i = 0; i < k; ++i)
            {
                x.push_back(b.x0 + b.w() * i / k);
                y.push_back(b.y0);
            }
            for (int i = 0; i < k; ++i)
            {
                x.push_back(b.x1);
                y.push_back(b.y0 + b.h() * i / k);
            }
            for (int i = 0; i < k; ++i)
            {
                x.push_back(b.x1 - b.w() * i / k);
                y.push_back(b.y1);
            }
            for (int i = 0; i < k; ++i)
            {
                x.push_back(b.x0);
                y.push_back(b.y1 - b.h() * i / k);
            }
            x.push_back(x[0]);
            y.push_back(y[0]);
            Geo g(x, y);
            int n1 = 0, n2 = k, n3 = 2 * k;
            if (c.bad)
            {
                n3 = c.r.chance(0.5) ? n2 : 4 * k + 5;
            }
            CALL(mkernel_curvilinear_compute_transfinite_from_polygon, g.g, n1, n2, n3, c.r.range(0, 1));
        })
        OP("cg_transf_tri", fCG | fUndo | fReplace, 0.5, always, {
            Box b = defaultBox(*c.s);
            int k = 4;
            V x, y;
            double vx[3] = {b.x0, b.x1, 0.5 * (b.x0 + b.x1)}, vy[3] = {b.y0, b.y0, b.y1};
            for (int s = 0; s < 3; ++s)
            {
                for (int i = 0; i < k; ++i)
                {
                    double t = static_cast<double>(i) / k;
                    x.push_back(vx[s] + t * (vx[(s + 1) % 3] - vx[s]));
                    y.push_back(vy[s] + t * (vy[(s + 1) % 3] - vy[s]));
                }
            }
            x.push_back(x[0]);
            y.push_back(y[0]);
            Geo g(x, y);
            CALL(mkernel_curvilinear_compute_transfinite_from_triangle, g.g, 0, c.bad ? 0 : k, 2 * k);
        })
        OP("cg_transf_splines", fCG | fUndo | fReplace, 0.7, cart, {
            V x, y;
            rsplines(c, x, y, c.r.range(2, 3), c.r.range(2, 4));
            Geo g(x, y);
            auto p = rcurv(c);
            CALL(mkernel_curvilinear_compute_transfinite_from_splines, g.g, p);
        })
        OP("cg_grid_splines", fCG | fUndo | fReplace, 0.7, cart, {
            V x, y;
            rsplines(c, x, y, c.bad ? 1 : c.r.range(2, 3), c.r.range(2, 3));
            Geo g(x, y);
            auto p = rcurv(c);
            CALL(mkernel_curvilinear_compute_grid_from_splines, g.g, p);
        })
        OP("cg_ortho_splines", fCG | fUndo | fReplace, 0.5, cart, {
            V x, y;
            rsplines(c, x, y, 1, c.r.range(2, 3));
            Geo g(x, y);
            auto p = rcurv(c);
            auto q = rs2c(c);
            CALL(mkernel_curvilinear_compute_orthogonal_grid_from_splines, g.g, p, q);
        })
        OP("m2_to_cg", fM2 | fCG | fUndo | fReplace, 0.7, wellM2, {
            double x, y;
            rpoint(c.r, m2Box(*c.s), x, y, c.bad ? 3.0 : -0.1);
            if (c.s->m2.nf() > 0 && !c.bad)
            {
                int f = c.r.range(0, c.s->m2.nf() - 1);
                x = c.s->m2.fx[f];
                y = c.s->m2.fy[f];
            }
            CALL(mkernel_mesh2d_convert_to_curvilinear, x, y);
        })
        OP("cg_to_m2", fM2 | fCG | fUndo, 0.8, [](const Snap& s)
           { return hasCG(s) && notHugeM2(s); },
           { CALL(mkernel_curvilinear_convert_to_mesh2d); })
        // ================= curvilinear: edits
        OP("cg_refine", fCG | fUndo, 1, smallCG, {
            double a, b, d, e;
            bool ok = c.r.chance(0.75) ? cgLine(c, a, b, d, e) : cgBlock(c, a, b, d, e);
            if (!ok)
            {
                c.out.skipped = true;
                return;
            }
            CALL(mkernel_curvilinear_refine, a, b, d, e, c.bad ? 0 : c.r.range(2, 3));
        })
        OP("cg_full_refine", fCG | fUndo, 0.6, [](const Snap& s)
           { return hasCG(s) && s.cg.n * s.cg.m < 60; },
           {
               int a = c.r.range(1, 2), b = c.r.range(1, 2);
               if (c.bad)
               {
                   a = 0;
               }
               CALL(mkernel_curvilinear_full_refine, a, b);
           })
        OP("cg_derefine", fCG | fUndo, 0.8, hasCG, {
            double a, b, d, e;
            if (!cgLine(c, a, b, d, e))
            {
                c.out.skipped = true;
                return;
            }
            CALL(mkernel_curvilinear_derefine, a, b, d, e);
        })
        OP("cg_smooth", fCG | fUndo, 1, hasCG, {
            double a, b, d, e;
            if (!cgBlock(c, a, b, d, e))
            {
                c.out.skipped = true;
                return;
            }
            CALL(mkernel_curvilinear_smoothing, c.r.range(1, 4), a, b, d, e);
        })
        OP("cg_smooth_dir", fCG | fUndo, 0.8, hasCG, {
            double a, b, d, e, p, q, s, t;
            if (!cgBlock(c, a, b, d, e) || !cgLine(c, p, q, s, t))
            {
                c.out.skipped = true;
                return;
            }
            CALL(mkernel_curvilinear_smoothing_directional, c.r.range(1, 4), p, q, s, t, a, b, d, e);
        })
        OP("cg_insert_face", fCG | fUndo, 0.8, hasCG, {
            // just outside a boundary face
            Box b = cgBox(*c.s);
            double x, y;
            rpoint(c.r, b, x, y, 0.15);
            CALL(mkernel_curvilinear_insert_face, x, y);
        })
        OP("cg_delete_int", fCG | fUndo, 0.8, hasCG, {
            double a, b, d, e;
            if (!cgBlock(c, a, b, d, e))
            {
                c.out.skipped = true;
                return;
            }
            CALL(mkernel_curvilinear_delete_interior, a, b, d, e);
        })
        OP("cg_delete_ext", fCG | fUndo, 0.6, hasCG, {
            double a, b, d, e;
            if (!cgBlock(c, a, b, d, e))
            {
                c.out.skipped = true;
                return;
            }
            CALL(mkernel_curvilinear_delete_exterior, a, b, d, e);
        })
        OP("cg_attraction", fCG | fUndo, 0.8, hasCG, {
            double a, b, d, e, p, q, s, t;
            if (!cgLine(c, p, q, s, t) || !cgBlock(c, a, b, d, e))
            {
                c.out.skipped = true;
                return;
            }
            CALL(mkernel_curvilinear_line_attraction_repulsion, c.r.uni(-0.5, 0.5), p, q, s, t, a, b, d, e);
        })
        OP("cg_mirror", fCG | fUndo, 0.8, smallCG, {
            // a line on the boundary or a part of it, sometimes any line
            const CG& g = c.s->cg;
            double p = 0, q = 0, s = 0, t = 0;
            if (c.r.chance(0.2))
            {
                if (!cgLine(c, p, q, s, t))
                {
                    c.out.skipped = true;
                    return;
                }
            }
            else
            {
                int side = static_cast<int>(c.r.below(4)), len = side % 2 ? g.n : g.m, a = 0, b = len - 1;
                if (c.r.chance(0.5) && len > 2)
                {
                    a = c.r.range(0, len - 2);
                    b = c.r.range(a + 1, len - 1);
                }
                int i0 = side == 0 ? 0 : side == 2 ? g.n - 1 : a, i1 = side % 2 ? b : i0;
                int j0 = side == 3 ? 0 : side == 1 ? g.m - 1 : a, j1 = side % 2 ? j0 : b;
                if (!g.ok(i0, j0) || !g.ok(i1, j1))
                {
                    c.out.skipped = true;
                    return;
                }
                p = CX(c, i0, j0), q = CY(c, i0, j0), s = CX(c, i1, j1), t = CY(c, i1, j1);
            }
            CALL(mkernel_curvilinear_line_mirror, c.bad ? -1.0 : c.r.uni(0.5, 1.5), p, q, s, t);
        })
        OP("cg_delete_node", fCG | fUndo, 1, hasCG, {
            int i, j;
            if (!cgNode(c, i, j))
            {
                c.out.skipped = true;
                return;
            }
            double x = CX(c, i, j), y = CY(c, i, j), u = x, v = y;
            cgSpoil(c, x, v, u, y);
            CALL(mkernel_curvilinear_delete_node, x, y);
        })
        OP("cg_move_node", fCG | fUndo, 1.5, hasCG, {
            int i, j;
            if (!cgNode(c, i, j))
            {
                c.out.skipped = true;
                return;
            }
            Box b = cgBox(*c.s);
            double x = CX(c, i, j), y = CY(c, i, j), f = c.r.chance(0.1) ? 1e-7 : c.r.chance(0.8) ? 0.05 : 0.4;
            double u = x + c.r.uni(-f, f) * b.w(), v = y + c.r.uni(-f, f) * b.h(), x2 = x;
            cgSpoil(c, x, x2, x2, y); // only the point that selects the node
            CALL(mkernel_curvilinear_move_node, x, y, u, v);
        })
        OP("cg_snap_land", fCG | fUndo, 0.7, hasCG, {
            double p, q, s, t;
            if (!cgLine(c, p, q, s, t))
            {
                c.out.skipped = true;
                return;
            }
            V x, y;
            rland(c.r, cgBox(*c.s), x, y, c.bad ? 1.0 : 0.0);
            Geo g(x, y);
            bool reg = c.r.chance(0.3);
            double rx = MISSING, ry = MISSING;
            int i, j;
            if (reg && cgNode(c, i, j))
            {
                rx = CX(c, i, j);
                ry = CY(c, i, j);
            }
            CALL(mkernel_curvilinear_snap_to_landboundary, g.g, p, q, s, t, rx, ry);
        })
        OP("cg_snap_spline", fCG | fUndo, 0.7, hasCG, {
            double p, q, s, t;
            if (!cgLine(c, p, q, s, t))
            {
                c.out.skipped = true;
                return;
            }
            Box b = cgBox(*c.s);
            V x, y;
            for (int i = 0; i < 4; ++i)
            {
                x.push_back(b.x0 + b.w() * i / 3);
                y.push_back(b.y0 + b.h() * c.r.uni(0.2, 0.5));
            }
            if (c.bad)
            {
                x.clear();
                y.clear();
            }
            Geo g(x, y);
            double rx = MISSING, ry = MISSING;
            int i, j;
            if (c.r.chance(0.3) && cgNode(c, i, j))
            {
                rx = CX(c, i, j);
                ry = CY(c, i, j);
            }
            CALL(mkernel_curvilinear_snap_to_spline, g.g, p, q, s, t, rx, ry);
        })
        // ================= curvilinear sessions
        OP("co_init", fCG | fSes, 1, hasCG, {
            auto p = rortho(c);
            CALL(mkernel_curvilinear_initialize_orthogonalize, p);
        })
        OP("co_block", fCG | fSes, 1, hasCG, {
            double a, b, d, e;
            if (!cgBlock(c, a, b, d, e))
            {
                c.out.skipped = true;
                return;
            }
            CALL(mkernel_curvilinear_set_block_orthogonalize, a, b, d, e);
        })
        OP("co_frozen", fCG | fSes, 0.7, hasCG, {
            double a, b, d, e;
            if (!cgLine(c, a, b, d, e))
            {
                c.out.skipped = true;
                return;
            }
            CALL(mkernel_curvilinear_set_frozen_lines_orthogonalize, a, b, d, e);
        })
        OP("co_run", fCG | fSes | fUndo, 1, hasCG, {
            CALL(mkernel_curvilinear_orthogonalize);
        })
        OP("co_finalize", fCG | fSes, 0.6, always, {
            CALL(mkernel_curvilinear_finalize_orthogonalize);
        })
        OP("ls_init", fCG | fSes, 1, hasCG, {
            CALL(mkernel_curvilinear_initialize_line_shift);
        })
        OP("ls_line", fCG | fSes, 1, hasCG, {
            double a, b, d, e;
            int ix[4] = {-1, -1, -1, -1};
            if (!cgLine(c, a, b, d, e, ix))
            {
                c.out.skipped = true;
                return;
            }
            CALL(mkernel_curvilinear_set_line_line_shift, a, b, d, e);
            if (c.slot >= 0)
            {
                std::copy(ix, ix + 4, c.w.slots[static_cast<size_t>(c.slot)].line);
            }
        })
        OP("ls_block", fCG | fSes, 1, hasCG, {
            double a, b, d, e;
            int ix[4];
            if (c.r.chance(0.75) && shiftLine(c, ix))
            {
                // a block around the line
                const CG& g = c.s->cg;
                int k = c.r.range(0, 3);
                int i0 = std::max(0, std::min(ix[0], ix[2]) - k), i1 = std::min(g.n - 1, std::max(ix[0], ix[2]) + k);
                int j0 = std::max(0, std::min(ix[1], ix[3]) - k), j1 = std::min(g.m - 1, std::max(ix[1], ix[3]) + k);
                if (g.ok(i0, j0) && g.ok(i1, j1))
                {
                    a = CX(c, i0, j0), b = CY(c, i0, j0), d = CX(c, i1, j1), e = CY(c, i1, j1);
                    cgSpoil(c, a, b, d, e);
                    CALL(mkernel_curvilinear_set_block_line_shift, a, b, d, e);
                    return;
                }
            }
            if (!cgBlock(c, a, b, d, e))
            {
                c.out.skipped = true;
                return;
            }
            CALL(mkernel_curvilinear_set_block_line_shift, a, b, d, e);
        })
        OP("ls_move", fCG | fSes | fUndo, 1, hasCG, {
            int i, j;
            if (!cgNode(c, i, j))
            {
                c.out.skipped = true;
                return;
            }
            int ix[4];
            if (c.r.chance(0.85) && shiftLine(c, ix))
            {
                int n = std::max(std::abs(ix[2] - ix[0]), std::abs(ix[3] - ix[1]));
                int k = c.r.range(0, n);
                int ii = ix[0] + (ix[2] > ix[0]) * k - (ix[2] < ix[0]) * k, jj = ix[1] + (ix[3] > ix[1]) * k - (ix[3] < ix[1]) * k;
                if (c.s->cg.ok(ii, jj))
                {
                    i = ii, j = jj;
                }
            }
            Box b = cgBox(*c.s);
            double x = CX(c, i, j), y = CY(c, i, j);
            double u = x + c.r.uni(-0.1, 0.1) * b.w(), v = y + c.r.uni(-0.1, 0.1) * b.h(), x2 = x;
            cgSpoil(c, x, x2, x2, y); // only the point that selects the node
            CALL(mkernel_curvilinear_move_node_line_shift, x, y, u, v);
        })
        OP("ls_run", fCG | fSes | fUndo, 1, hasCG, {
            CALL(mkernel_curvilinear_line_shift);
        })
        OP("ls_finalize", fCG | fSes, 0.6, always, {
            CALL(mkernel_curvilinear_finalize_line_shift);
        })
        OP("sp_init", fCG | fSes, 1, cart, {
            V x, y;
            rsplines(c, x, y, 1, c.r.range(2, 3));
            Geo g(x, y);
            auto p = rcurv(c);
            auto q = rs2c(c);
            CALL(mkernel_curvilinear_initialize_orthogonal_grid_from_splines, g.g, p, q);
        })
        OP("sp_iterate", fCG | fSes, 1, cart, {
            CALL(mkernel_curvilinear_iterate_orthogonal_grid_from_splines, c.r.range(1, 2));
        })
        OP("sp_refresh", fCG | fSes | fUndo | fReplace, 1, cart, {
            CALL(mkernel_curvilinear_refresh_orthogonal_grid_from_splines);
        })
        OP("sp_delete", fCG | fSes, 0.5, always, {
            CALL(mkernel_curvilinear_delete_orthogonal_grid_from_splines);
        })
        // ================= queries (must not change anything)
        OP("q_dims", fQ, 1, always, {
            mk::Mesh2D m;
            CALL(mkernel_mesh2d_get_dimensions, m);
            addI(c.out, {m.num_nodes, m.num_edges, m.num_faces, m.num_valid_nodes, m.num_valid_edges});
        })
        OP("q_data", fQ, 1, always, {
            mk::Mesh2D m;
            if (CALL(mkernel_mesh2d_get_dimensions, m) == 0)
            {
                size_t nn = static_cast<size_t>(m.num_nodes), ne = static_cast<size_t>(m.num_edges), nf = static_cast<size_t>(m.num_faces), nfn = static_cast<size_t>(m.num_face_nodes);
                Arr<double> x(nn), y(nn), ex(ne), ey(ne), fx(nf), fy(nf);
                Arr<int> en(2 * ne), ef(2 * ne), fn(nfn), fe(nfn), npf(nf);
                m.node_x = x.p;
                m.node_y = y.p;
                m.edge_x = ex.p;
                m.edge_y = ey.p;
                m.face_x = fx.p;
                m.face_y = fy.p;
                m.edge_nodes = en.p;
                m.edge_faces = ef.p;
                m.face_nodes = fn.p;
                m.face_edges = fe.p;
                m.nodes_per_face = npf.p;
                if (CALL(mkernel_mesh2d_get_data, m) == 0)
                {
                    addM(c.out, x.vec());
                    addM(c.out, y.vec());
                    addI(c.out, en.vec());
                    addI(c.out, fn.vec());
                    addI(c.out, ef.vec());
                    addM(c.out, fx.vec());
                }
            }
        })
        OP("q_node_edge_data", fQ, 0.7, always, {
            mk::Mesh2D m;
            if (CALL(mkernel_mesh2d_get_dimensions, m) == 0)
            {
                size_t nn = static_cast<size_t>(m.num_nodes), ne = static_cast<size_t>(m.num_edges);
                Arr<double> x(nn), y(nn);
                Arr<int> en(2 * ne);
                m.node_x = x.p;
                m.node_y = y.p;
                m.edge_nodes = en.p;
                if (c.bad)
                {
                    m.num_nodes += 1;
                }
                if (CALL(mkernel_mesh2d_get_node_edge_data, m) == 0)
                {
                    addM(c.out, x.vec());
                    addM(c.out, y.vec());
                    addI(c.out, en.vec());
                }
            }
        })
        OP("q_orthogonality", fQ, 1, hasM2, {
            countGetProperty(c, 0);
        })
        OP("q_edge_length", fQ, 1, hasM2, {
            countGetProperty(c, 1);
        })
        OP("q_orthogonality2", fQ, 0.5, hasM2, {
            mk::Mesh2D m;
            if (CALL(mkernel_mesh2d_get_dimensions, m) == 0)
            {
                Geo o(m.num_edges + (c.bad ? 1 : 0));
                if (CALL(mkernel_mesh2d_get_orthogonality, o.g) == 0)
                {
                    addM(c.out, o.v.vec());
                }
            }
        })
        OP("q_smoothness", fQ, 0.5, hasM2, {
            mk::Mesh2D m;
            if (CALL(mkernel_mesh2d_get_dimensions, m) == 0)
            {
                Geo o(m.num_edges);
                if (CALL(mkernel_mesh2d_get_smoothness, o.g) == 0)
                {
                    addM(c.out, o.v.vec());
                }
            }
        })
        OP("q_node_index", fQ, 1.5, hasM2, {
            double x, y;
            Box b = m2Box(*c.s);
            const Box vb = viewBox(c.r, b);
            rpoint(c.r, b, x, y);
            int k = validNode(c);
            if (c.r.chance(0.6))
            {
                x = c.s->m2.x[k] + c.r.uni(-0.01, 0.01) * b.w();
                y = c.s->m2.y[k] + c.r.uni(-0.01, 0.01) * b.h();
            }
            int n = -1;
            double rad = c.r.uni(0.02, 0.3) * b.w() * (isSph(*c.s) ? 100000 : 1);
            CALL(mkernel_mesh2d_get_node_index, x, y, c.bad ? -1.0 : rad, vb.x0, vb.y0, vb.x1, vb.y1, n);
            c.out.v.push_back(n);
        })
        OP("q_closest_node", fQ, 1, hasM2, {
            double x, y, ox = 0, oy = 0;
            Box b = m2Box(*c.s);
            const Box vb = viewBox(c.r, b);
            rpoint(c.r, b, x, y);
            double rad = c.r.uni(0.02, 0.6) * b.w() * (isSph(*c.s) ? 100000 : 1);
            int rc = CALL(mkernel_mesh2d_get_closest_node, x, y, c.bad ? 1e-12 : rad, vb.x0, vb.y0, vb.x1, vb.y1, ox, oy);
            if (rc == 0)
            {
                addM(c.out, {ox, oy});
            }
        })
        OP("q_edge", fQ, 1.5, hasM2, {
            double x, y;
            Box b = m2Box(*c.s);
            const Box vb = viewBox(c.r, b);
            rpoint(c.r, b, x, y);
            int n = -1;
            if (c.r.chance(0.25))
            {
                // a box that leaves part of the mesh out
                double x0, y0;
                rpoint(c.r, b, x0, y0, -0.1);
                CALL(mkernel_mesh2d_get_edge, x, y, b.x0 - 1, b.y0 - 1, x0, y0, n);
            }
            else
            {
                CALL(mkernel_mesh2d_get_edge, x, y, vb.x0, vb.y0, vb.x1, vb.y1, n);
            }
            c.out.v.push_back(n);
        })
        OP("q_location", fQ, 1.5, hasM2, {
            double x, y;
            Box b = m2Box(*c.s);
            const Box vb = viewBox(c.r, b);
            rpoint(c.r, b, x, y);
            mk::BoundingBox bb;
            bb.xLowerLeft = vb.x0;
            bb.yLowerLeft = vb.y0;
            bb.xUpperRight = vb.x1;
            bb.yUpperRight = vb.y1;
            if (c.r.chance(0.25))
            {
                rpoint(c.r, b, bb.xUpperRight, bb.yUpperRight, -0.1);
            }
            int n = -1;
            CALL(mkernel_mesh2d_get_location_index, x, y, c.bad ? 9 : c.r.range(0, 2), bb, n);
            c.out.v.push_back(n);
        })
        OP("q_cg_location", fQ, 0.7, hasCG, {
            double x, y;
            Box b = cgBox(*c.s);
            const Box vb = viewBox(c.r, b);
            rpoint(c.r, b, x, y);
            mk::BoundingBox bb;
            bb.xLowerLeft = vb.x0;
            bb.yLowerLeft = vb.y0;
            bb.xUpperRight = vb.x1;
            bb.yUpperRight = vb.y1;
            int n = -1;
            CALL(mkernel_curvilinear_get_location_index, x, y, c.r.range(0, 2), bb, n);
            c.out.v.push_back(n);
        })
        OP("q_hanging", fQ, 1, hasM2, {
            int n = 0;
            if (CALL(mkernel_mesh2d_count_hanging_edges, n) == 0)
            {
                Arr<int> e(static_cast<size_t>(n));
                CALL(mkernel_mesh2d_get_hanging_edges, e.p);
                sizedInts(c, n, [&](int* a) { return mkernel_mesh2d_get_hanging_edges(c.id, a); });
                addI(c.out, e.vec());
            }
        })
        OP("q_obtuse", fQ, 1, hasM2, {
            int n = 0;
            if (CALL(mkernel_mesh2d_count_obtuse_triangles, n) == 0)
            {
                Geo o(n);
                CALL(mkernel_mesh2d_get_obtuse_triangles_mass_centers, o.g);
                SIZED(mkernel_mesh2d_get_obtuse_triangles_mass_centers);
                addM(c.out, o.x.vec());
                addM(c.out, o.y.vec());
            }
        })
        OP("q_small_flow", fQ, 1, hasM2, {
            int n = 0;
            double t = c.r.uni(0.1, 1.2);
            if (CALL(mkernel_mesh2d_count_small_flow_edge_centers, t, n) == 0)
            {
                Geo o(n);
                CALL(mkernel_mesh2d_get_small_flow_edge_centers, t, o.g);
                SIZED(mkernel_mesh2d_get_small_flow_edge_centers, t);
                addM(c.out, o.x.vec());
                addM(c.out, o.y.vec());
            }
        })
        OP("q_boundaries", fQ, 1, hasM2, {
            int n = 0;
            if (CALL(mkernel_mesh2d_count_mesh_boundaries_as_polygons, n) == 0)
            {
                Geo o(n);
                CALL(mkernel_mesh2d_get_mesh_boundaries_as_polygons, o.g);
                SIZED(mkernel_mesh2d_get_mesh_boundaries_as_polygons);
                addM(c.out, o.x.vec());
                addM(c.out, o.y.vec());
            }
        })
        OP("q_nodes_in_poly", fQ, 1, hasM2, {
            V x, y;
            rpoly(c.r, m2Box(*c.s), x, y, 0.2);
            Geo g(x, y);
            int in = c.r.range(0, 1), n = 0;
            if (CALL(mkernel_mesh2d_count_nodes_in_polygons, g.g, in, n) == 0)
            {
                Arr<int> s(static_cast<size_t>(n));
                CALL(mkernel_mesh2d_get_nodes_in_polygons, g.g, in, s.p);
                sizedInts(c, n, [&](int* a) { return mkernel_mesh2d_get_nodes_in_polygons(c.id, g.g, in, a); });
                addI(c.out, s.vec());
            }
        })
        OP("q_face_polygons", fQ, 1, hasM2, {
            int k = c.r.range(3, 5), n = 0;
            if (CALL(mkernel_mesh2d_get_face_polygons_dimension, k, n) == 0)
            {
                Geo o(n);
                CALL(mkernel_mesh2d_get_face_polygons, k, o.g);
                SIZED(mkernel_mesh2d_get_face_polygons, k);
                addM(c.out, o.x.vec());
                addM(c.out, o.y.vec());
            }
        })
        OP("q_filtered_polygons", fQ, 1, hasM2, {
            int n = 0;
            double lo = c.r.uni(0, 0.1), hi = lo + c.r.uni(0, 1.0);
            int prop = c.bad ? 5 : 0;
            if (CALL(mkernel_mesh2d_get_filtered_face_polygons_dimension, prop, lo, hi, n) == 0)
            {
                Geo o(n);
                CALL(mkernel_mesh2d_get_filtered_face_polygons, prop, lo, hi, o.g);
                SIZED(mkernel_mesh2d_get_filtered_face_polygons, prop, lo, hi);
                addM(c.out, o.x.vec());
                addM(c.out, o.y.vec());
            }
        })
        OP("q_averaging", fQ, 0.7, wellM2, {
            V x, y, v;
            rsamples(c.r, m2Box(*c.s), x, y, v, 3, 30);
            Geo g(x, y, v);
            int loc = c.r.range(0, 2);
            mk::Mesh2D m;
            if (CALL(mkernel_mesh2d_get_dimensions, m) == 0)
            {
                // 0 faces, 1 nodes, 2 edges
                int fl = 0, nl = 0, el = 0;
                mkernel_get_faces_location_type(fl);
                mkernel_get_nodes_location_type(nl);
                mkernel_get_edges_location_type(el);
                int n = loc == fl ? m.num_faces : loc == nl ? m.num_nodes
                                                            : m.num_edges;
                Geo o(n);
                if (CALL(mkernel_mesh2d_averaging_interpolation, g.g, loc, c.bad ? 99 : c.r.range(1, 6), c.r.uni(0.5, 2.0), static_cast<size_t>(c.r.chance(0.7) ? 1 : c.r.range(0, 4)), o.g) == 0)
                {
                    addM(c.out, o.v.vec());
                }
            }
        })
        OP("q_triangulation_interp", fQ | fTri, 0.7, hasM2, {
            V x, y, v;
            rsamples(c.r, m2Box(*c.s), x, y, v, 4, 20);
            Geo g(x, y, v);
            int loc = c.r.range(0, 2);
            mk::Mesh2D m;
            if (CALL(mkernel_mesh2d_get_dimensions, m) == 0)
            {
                int fl = 0, nl = 0;
                mkernel_get_faces_location_type(fl);
                mkernel_get_nodes_location_type(nl);
                int n = loc == fl ? m.num_faces : loc == nl ? m.num_nodes
                                                            : m.num_edges;
                Geo o(n);
                if (CALL(mkernel_mesh2d_triangulation_interpolation, g.g, loc, o.g) == 0)
                {
                    addM(c.out, o.v.vec());
                }
            }
        })
        OP("q_intersections", fQ, 0.7, hasM2, {
            V x, y;
            Box b = m2Box(*c.s);
            rpolyOne(c.r, b, x, y);
            Geo g(x, y);
            mk::Mesh2D m;
            if (CALL(mkernel_mesh2d_get_dimensions, m) == 0)
            {
                size_t n = static_cast<size_t>(m.num_edges + m.num_face_nodes + 10) * 8;
                Arr<int> a(n), ei(n), si(n), fi(n), fne(n), fei(n);
                Arr<double> ed(n), sd(n);
                for (size_t i = 0; i < n; ++i)
                {
                    a.p[i] = ei.p[i] = si.p[i] = fi.p[i] = fne.p[i] = fei.p[i] = -5;
                    ed.p[i] = sd.p[i] = -5;
                }
                if (CALL(mkernel_mesh2d_intersections_from_polygon, g.g, a.p, ei.p, ed.p, sd.p, si.p, fi.p, fne.p, fei.p) == 0)
                {
                    addI(c.out, a.vec());
                    addI(c.out, fi.vec());
                    addM(c.out, ed.vec());
                }
            }
        })
        OP("q_casulli_elements", fQ, 0.6, wellM2, {
            Geo o(c.s->m2.nf() + 4);
            if (CALL(mkernel_mesh2d_casulli_derefinement_elements, o.g) == 0)
            {
                V xs(o.g.coordinates_x, o.g.coordinates_x + o.g.num_coordinates);
                addM(c.out, xs);
            }
        })
        OP("q_casulli_elements_poly", fQ, 0.5, wellM2, {
            V x, y;
            rpoly(c.r, m2Box(*c.s), x, y, 0.1);
            Geo g(x, y);
            Geo o(c.s->m2.nf() + 4);
            if (CALL(mkernel_mesh2d_casulli_derefinement_elements_on_polygon, g.g, o.g) == 0)
            {
                V xs(o.g.coordinates_x, o.g.coordinates_x + o.g.num_coordinates);
                addM(c.out, xs);
            }
        })
        OP("q_m1", fQ, 0.6, always, {
            mk::Mesh1D m;
            if (CALL(mkernel_mesh1d_get_dimensions, m) == 0)
            {
                Arr<double> x(static_cast<size_t>(m.num_nodes)), y(static_cast<size_t>(m.num_nodes));
                Arr<int> en(static_cast<size_t>(m.num_edges) * 2);
                m.node_x = x.p;
                m.node_y = y.p;
                m.edge_nodes = en.p;
                if (CALL(mkernel_mesh1d_get_data, m) == 0)
                {
                    addM(c.out, x.vec());
                    addM(c.out, y.vec());
                    addI(c.out, en.vec());
                }
            }
        })
        OP("q_cg", fQ, 0.8, always, {
            mk::CurvilinearGrid g;
            if (CALL(mkernel_curvilinear_get_dimensions, g) == 0)
            {
                size_t n = static_cast<size_t>(g.num_n) * static_cast<size_t>(g.num_m);
                Arr<double> x(n), y(n);
                g.node_x = x.p;
                g.node_y = y.p;
                if (c.bad)
                {
                    g.num_n += 1;
                }
                if (n > 0 && CALL(mkernel_curvilinear_get_data, g) == 0)
                {
                    addM(c.out, x.vec());
                    addM(c.out, y.vec());
                }
            }
        })
        OP("q_cg_boundaries", fQ, 0.7, hasCG, {
            int n = 0;
            int i0 = c.r.range(0, c.s->cg.n - 1), j0 = c.r.range(0, c.s->cg.m - 1), i1 = c.r.range(0, c.s->cg.n - 1), j1 = c.r.range(0, c.s->cg.m - 1);
            if (c.bad)
            {
                i1 = c.s->cg.n + 3;
            }
            if (CALL(mkernel_curvilinear_count_boundaries_as_polygons, i0, j0, i1, j1, n) == 0)
            {
                Geo o(n);
                CALL(mkernel_curvilinear_get_boundaries_as_polygons, i0, j0, i1, j1, o.g);
                SIZED(mkernel_curvilinear_get_boundaries_as_polygons, i0, j0, i1, j1);
                addM(c.out, o.x.vec());
                addM(c.out, o.y.vec());
            }
        })
        OP("q_cg_curvature", fQ, 0.5, hasCG, {
            Arr<double> o(static_cast<size_t>(c.s->cg.n) * static_cast<size_t>(c.s->cg.m));
            for (size_t i = 0; i < o.n; ++i)
            {
                o.p[i] = 0;
            }
            int dir = c.bad ? 9 : c.r.range(0, 1);
            if (CALL(mkernel_curvilinear_compute_curvature, dir, o.p) == 0)
            {
                addM(c.out, o.vec());
            }
        })
        OP("q_cg_smoothness", fQ, 0.5, hasCG, {
            Arr<double> o(static_cast<size_t>(c.s->cg.n) * static_cast<size_t>(c.s->cg.m));
            for (size_t i = 0; i < o.n; ++i)
            {
                o.p[i] = 0;
            }
            int dir = c.bad ? 9 : c.r.range(0, 1);
            if (CALL(mkernel_curvilinear_compute_smoothness, dir, o.p) == 0)
            {
                addM(c.out, o.vec());
            }
        })
        OP("q_contacts", fQ, 0.6, always, {
            mk::Contacts k;
            if (CALL(mkernel_contacts_get_dimensions, k) == 0)
            {
                Arr<int> a(static_cast<size_t>(k.num_contacts)), b(static_cast<size_t>(k.num_contacts));
                k.mesh1d_indices = a.p;
                k.mesh2d_indices = b.p;
                CALL(mkernel_contacts_get_data, k);
                addI(c.out, a.vec());
                addI(c.out, b.vec());
            }
        })
        OP("q_projection", fQ, 0.3, always, {
            int p = -1;
            CALL(mkernel_get_projection, p);
            c.out.v.push_back(p);
        })
        OP("q_polygon_offset", fQ, 0.5, always, {
            V x, y;
            rpoly(c.r, defaultBox(*c.s), x, y, 0.0, 0.0);
            Geo g(x, y);
            int in = c.r.range(0, 1), n = 0;
            double d = c.r.uni(0.1, 2.0);
            if (CALL(mkernel_polygon_count_offset, g.g, in, d, n) == 0)
            {
                Geo o(n);
                if (CALL(mkernel_polygon_get_offset, g.g, in, d, o.g) == 0)
                {
                    SIZED(mkernel_polygon_get_offset, g.g, in, d);
                    addM(c.out, o.x.vec());
                    addM(c.out, o.y.vec());
                }
            }
        })
        OP("q_polygon_refine", fQ, 0.5, always, {
            V x, y;
            rpolyOne(c.r, defaultBox(*c.s), x, y);
            Geo g(x, y);
            int n = 0, last = static_cast<int>(x.size()) - 1;
            int a = c.r.range(0, last - 1), b = c.r.range(a, last);
            if (c.bad)
            {
                b = last + 10;
            }
            double d = defaultBox(*c.s).w() * c.r.uni(0.03, 0.3) * (isSph(*c.s) ? 100000 : 1);
            if (CALL(mkernel_polygon_count_refine, g.g, a, b, d, n) == 0)
            {
                Geo o(n);
                if (CALL(mkernel_polygon_refine, g.g, a, b, d, o.g) == 0)
                {
                    SIZED(mkernel_polygon_refine, g.g, a, b, d);
                    addM(c.out, o.x.vec());
                }
            }
        })
        OP("q_polygon_linear_refine", fQ, 0.5, always, {
            V x, y;
            rpolyOne(c.r, defaultBox(*c.s), x, y);
            Geo g(x, y);
            int n = 0, last = static_cast<int>(x.size()) - 2;
            int a = c.r.range(0, last), b = c.r.range(0, last);
            if (c.bad)
            {
                b = last + 10;
            }
            if (CALL(mkernel_polygon_count_linear_refine, g.g, a, b, n) == 0)
            {
                Geo o(n);
                if (CALL(mkernel_polygon_linear_refine, g.g, a, b, o.g) == 0)
                {
                    SIZED(mkernel_polygon_linear_refine, g.g, a, b);
                    addM(c.out, o.x.vec());
                }
            }
        })
        OP("q_polygon_included", fQ, 0.4, always, {
            V x, y, px, py, pv;
            rpoly(c.r, defaultBox(*c.s), x, y, 0.0, 0.15);
            rsamples(c.r, defaultBox(*c.s), px, py, pv, 2, 10);
            Geo g(x, y), p(px, py, pv), o(static_cast<int>(px.size()));
            if (CALL(mkernel_polygon_get_included_points, g.g, p.g, o.g) == 0)
            {
                addM(c.out, o.v.vec());
            }
        })
        OP("q_polygon_snap", fQ, 0.4, always, {
            V x, y, lx, ly;
            rpolyOne(c.r, defaultBox(*c.s), x, y);
            rland(c.r, defaultBox(*c.s), lx, ly, c.bad ? 1.0 : 0.0);
            Geo g(x, y), l(lx, ly);
            int last = static_cast<int>(x.size()) - 1;
            int a = c.r.range(0, last), b = c.r.range(a, last);
            if (CALL(mkernel_polygon_snap_to_landboundary, l.g, g.g, a, b) == 0)
            {
                addM(c.out, g.x.vec());
            }
        })
        OP("q_splines_snap", fQ, 0.4, always, {
            V x, y, lx, ly;
            Box b = defaultBox(*c.s);
            for (int i = 0; i < 5; ++i)
            {
                x.push_back(b.x0 + b.w() * i / 4);
                y.push_back(b.y0 + b.h() * c.r.uni(0.0, 0.2));
            }
            rland(c.r, b, lx, ly, c.bad ? 1.0 : 0.0);
            Geo g(x, y), l(lx, ly);
            if (CALL(mkernel_splines_snap_to_landboundary, l.g, g.g, 0, 4) == 0)
            {
                addM(c.out, g.x.vec());
            }
        })
        OP("q_get_splines", fQ, 0.3, always, {
            V x, y;
            const int num = c.r.range(1, 4), k = c.r.range(0, 5);
            int total = 0;
            Box b = defaultBox(*c.s);
            for (int q = 0; q < num; ++q)
            {
                const int pts = c.r.range(2, 5);
                if (q > 0)
                {
                    x.push_back(MISSING);
                    y.push_back(MISSING);
                }
                for (int i = 0; i < pts; ++i)
                {
                    x.push_back(b.x0 + b.w() * (i + c.r.uni(0, 0.5)) / pts);
                    y.push_back(b.y0 + b.h() * c.r.uni(0, 1));
                }
                total += (pts - 1) * (k + 1) + 1 + (q > 0);
            }
            Geo g(x, y), o(total);
            for (size_t i = 0; i < o.x.n; ++i)
            {
                o.x.p[i] = o.y.p[i] = o.v.p[i] = 0;
            }
            c.call("mkernel_get_splines", [&]
                   { return mkernel_get_splines(g.g, o.g, k); });
            addM(c.out, o.x.vec());
            addM(c.out, o.y.vec());
        })
        // ================= control
        OP("c_undo", fCtl, 4, always, {
            bool u = false;
            int id = -1;
            c.call("mkernel_undo_state", [&]
                   { return mkernel_undo_state(u, id); });
            c.out.undone = u;
            c.out.undoneId = id;
        })
        OP("c_redo", fCtl, 3, always, {
            bool u = false;
            int id = -1;
            c.call("mkernel_redo_state", [&]
                   { return mkernel_redo_state(u, id); });
            c.out.undone = u;
            c.out.undoneId = id;
        })
        OP("c_dealloc", fCtl | fUndo | fReplace, 0.3, always, {
            CALL(mkernel_deallocate_state);
        })
        OP("c_expunge", fCtl, 0.2, always, {
            if (CALL(mkernel_expunge_state) == 0 && c.slot >= 0)
            {
                c.w.slots[static_cast<size_t>(c.slot)].alive = false;
            }
        })
        OP("c_alloc", fCtl, 0.4, always, {
            int id = -1;
            int proj = c.bad ? 7 : (c.r.chance(0.75) ? 0 : c.r.range(1, 2));
            int rc = c.call("mkernel_allocate_state", [&]
                            { return mkernel_allocate_state(proj, id); });
            if (rc == 0)
            {
                Slot s;
                s.client = c.w.slots.empty() ? 0 : c.w.slots[0].client;
                s.id = id;
                s.alive = true;
                c.w.slots.push_back(s);
                c.out.slot = static_cast<int>(c.w.slots.size()) - 1;
            }
        })
        OP("c_clear_undo_id", fCtl, 0.2, always, {
            CALL(mkernel_clear_undo_state_for_id);
        })
        OP("c_clear_undo", fCtl, 0.1, always, {
            c.call("mkernel_clear_undo_state", [&]
                   { return mkernel_clear_undo_state(); });
        })
        OP("c_undo_size", fCtl, 0.3, always, {
            int n = c.r.chance(0.1) ? 0 : c.r.range(1, 8);
            if (c.bad)
            {
                n = -c.r.range(1, 5);
            }
            int rc = c.call("mkernel_set_undo_size", [&]
                            { return mkernel_set_undo_size(n); });
            if (rc == 0)
            {
                c.w.undoCap = n;
            }
        })
        OP("c_counts", fCtl | fQ, 0.5, always, {
            int a = -1, b = -1;
            c.call("mkernel_undo_state_count", [&]
                   { return mkernel_undo_state_count(a, b); });
            CALL(mkernel_undo_state_count_for_id, a, b);
        })
        OP("c_clear", fCtl, 0.05, always, {
            int rc = c.call("mkernel_clear_state", [&]
                            { return mkernel_clear_state(); });
            if (rc == 0)
            {
                for (Slot& s : c.w.slots)
                {
                    s.alive = false;
                    s.id = -1; // numbering starts again
                }
            }
        })
    }

    const std::vector<OpDef>& catalogue()
    {
        if (g_ops.empty())
        {
            buildCatalogue();
        }
        return g_ops;
    }
    const OpDef* findOp(const std::string& n)
    {
        static std::map<std::string, const OpDef*> m;
        if (m.empty())
        {
            for (const OpDef& o : catalogue())
            {
                m[o.name] = &o;
            }
        }
        auto it = m.find(n);
        return it == m.end() ? nullptr : it->second;
    }

    void perform(World& w, const OpSpec& op, Out& out)
    {
        g_known = w.known;
        const OpDef* d = findOp(op.name);
        if (!d)
        {
            rt::fail(rt::kHarness, "harness", "unknown operation %s", op.name.c_str());
        }
        static Snap empty;
        rt::Rng r(op.seed);
        Ctx c{w, r, -1, -1, &empty, out, op.bad};
        std::vector<int> own = w.slotsOf(op.client);
        bool isAlloc = op.name == "c_alloc";
        bool global = op.name == "c_undo" || op.name == "c_redo" || op.name == "c_clear" || op.name == "c_clear_undo" || op.name == "c_undo_size" || op.name == "q_get_splines";
        if (!own.empty())
        {
            c.slot = own[c.r.below(own.size())];
            c.id = w.slots[static_cast<size_t>(c.slot)].id;
            c.s = &w.snap.s[static_cast<size_t>(c.slot)];
        }
        else if (!isAlloc && !global)
        {
            if (!op.bad)
            {
                out.skipped = true;
                return;
            }
        }
        if (op.bad && !isAlloc && !global && (own.empty() || c.r.chance(0.3)))
        {
            // a call on an id that does not exist (never allocated, or expunged)
            std::vector<int> dead;
            for (const Slot& s : w.slots)
            {
                if (!s.alive && s.client == op.client)
                {
                    dead.push_back(s.id);
                }
            }
            c.id = !dead.empty() && c.r.chance(0.5) ? dead[c.r.below(dead.size())] : (c.r.chance(0.5) ? -1 : 100000 + c.r.range(0, 5));
            c.slot = -1;
            c.bad = false;
        }
        if (!isAlloc && !global && !d->when(*c.s))
        {
            out.skipped = true;
            return;
        }
        if (c.slot >= 0 && (op.name == "net_set" || op.name == "m2_convert_projection"))
        {
            Slot& sl = w.slots[static_cast<size_t>(c.slot)];
            bool isNet = op.name == "net_set";
            if (isNet ? sl.conv : sl.net)
            {
                out.skipped = true;
                return;
            }
            (isNet ? sl.net : sl.conv) = true;
            sl.mixed = sl.mixed || (!isNet && (c.s->cg.n > 0 || !c.s->m1.x.empty()));
        }
        if (!global)
        {
            out.slot = c.slot;
        }
        // A node that was inserted is connected, moved or deleted straight away; before anything else the client reads the mesh.
        if (c.slot >= 0 && !global && w.skipLoose && (d->flags & fQ) && w.slots[static_cast<size_t>(c.slot)].loose)
        {
            out.skipped = true;
            return;
        }
        if (c.slot >= 0 && !global && w.slots[static_cast<size_t>(c.slot)].loose && (d->flags & (fM2 | fQ)) &&
            op.name != "m2_insert_node" && op.name != "m2_insert_edge" && op.name != "m2_move_node" && op.name != "m2_delete_node")
        {
            rt::g_opname = "mkernel_mesh2d_get_dimensions (refresh)";
            mk::Mesh2D m;
            rt::KernelScope k;
            mkernel_mesh2d_get_dimensions(c.id, m);
            w.slots[static_cast<size_t>(c.slot)].loose = false;
        }
        rt::sched_arm({op.threads, op.sched ? op.sched : 1, op.mode, op.period});
        rt::fault_arm({op.fault, op.sticky, true, w.known});
        uint64_t lim = rt::g_step_limit;
        rt::g_step_limit = rt::g_steps + 600000000ull;
        rt::Rng pr(op.seed ^ 0x9e3779b97f4a7c15ull);
        if (w.preempt && op.fault < 0 && !op.bad && !isAlloc && !global)
        {
            c.between = [&]
            {
                if (!pr.chance(0.7))
                {
                    return;
                }
                std::vector<int> others;
                for (const Slot& sl : w.slots)
                {
                    if (sl.alive && sl.client != op.client)
                    {
                        others.push_back(sl.client);
                    }
                }
                if (others.empty())
                {
                    return;
                }
                OpSpec q;
                q.client = others[pr.below(others.size())];
                for (int s : w.slotsOf(q.client))
                {
                    if (w.slots[static_cast<size_t>(s)].loose)
                    {
                        return;
                    }
                }
                if ((d->flags & fQ) && pr.chance(0.6))
                {
                    q.name = op.name;
                }
                else
                {
                    static std::vector<std::string> queries;
                    if (queries.empty())
                    {
                        for (const OpDef& o : catalogue())
                        {
                            if ((o.flags & fQ) && !(o.flags & (fSlow | fCtl)) && o.weight > 0)
                            {
                                queries.push_back(o.name);
                            }
                        }
                    }
                    q.name = queries[pr.below(queries.size())];
                }
                q.seed = pr.next();
                w.preempt = false;
                w.calls = pr.chance(0.5) ? 1 : -1;
                Out other;
                perform(w, q, other);
                w.calls = -1;
                w.preempt = true;
                g_stats->preempts += !other.skipped;
                rt::sched_arm({op.threads, op.sched ? op.sched : 1, op.mode, op.period});
                rt::fault_arm({op.fault, op.sticky, true, w.known});
            };
        }
        try
        {
            d->fn(c);
        }
        catch (const Truncated&)
        {
        }
        rt::g_step_limit = lim;
        out.fired = rt::fault_fired();
        out.allocs = rt::fault_allocs_seen();
        rt::fault_arm({-1, false, false, false});
        rt::sched_arm({1, 1, 0, 100});
        // Client protocol: after a call that may have edited a 2d mesh the client asks for its
        // dimensions before it uses that mesh again (a node that is to be connected is an exception).
        int refresh = -1;
        if ((d->flags & fM2) && op.name != "m2_insert_node" && c.slot >= 0)
        {
            refresh = c.id;
        }
        if (c.slot >= 0 && !global && (d->flags & fM2))
        {
            w.slots[static_cast<size_t>(c.slot)].loose = op.name == "m2_insert_node";
        }
        if ((op.name == "c_undo" || op.name == "c_redo") && out.undone)
        {
            refresh = out.undoneId;
        }
        if (refresh >= 0 && !w.noRefresh)
        {
            rt::g_opname = "mkernel_mesh2d_get_dimensions (refresh)";
            mk::Mesh2D m;
            rt::KernelScope k;
            mkernel_mesh2d_get_dimensions(refresh, m);
        }
        if (out.fired)
        {
            // after a failure the clients read their meshes back
            for (const Slot& sl : w.slots)
            {
                if (sl.alive)
                {
                    rt::g_opname = "mkernel_mesh2d_get_dimensions (refresh after a failure)";
                    mk::Mesh2D m;
                    rt::KernelScope k;
                    mkernel_mesh2d_get_dimensions(sl.id, m);
                }
            }
        }
        if (isAlloc && out.slot >= 0)
        {
            w.slots[static_cast<size_t>(out.slot)].client = op.client;
        }
    }
} // namespace sim
