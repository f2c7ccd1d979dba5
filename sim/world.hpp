// Simulated clients, their operations and the ghost observation of their states.
#pragma once
#include "rt.hpp"
#include <MeshKernel/Parameters.hpp>
#include <MeshKernelApi/BoundingBox.hpp>
#include <MeshKernelApi/Contacts.hpp>
#include <MeshKernelApi/CurvilinearGrid.hpp>
#include <MeshKernelApi/GeometryList.hpp>
#include <MeshKernelApi/GriddedSamples.hpp>
#include <MeshKernelApi/Mesh1D.hpp>
#include <MeshKernelApi/Mesh2D.hpp>
#include <MeshKernelApi/MeshKernel.hpp>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>

namespace sim
{
    namespace mk = meshkernelapi;
    constexpr double MISSING = -999.0;

    struct M2
    {
        int nvn = 0, nve = 0;
        std::vector<double> x, y, ex, ey, fx, fy;
        std::vector<int> en, npf, fn, fe, ef;
        int nn() const { return static_cast<int>(x.size()); }
        int ne() const { return static_cast<int>(en.size() / 2); }
        int nf() const { return static_cast<int>(npf.size()); }
        bool nodeOk(int i) const { return x[i] != MISSING && y[i] != MISSING; }
        bool edgeOk(int e) const { return en[2 * e] >= 0 && en[2 * e + 1] >= 0; }
    };
    struct M1
    {
        int nvn = 0, nve = 0;
        std::vector<double> x, y;
        std::vector<int> en;
    };
    struct CG
    {
        int n = 0, m = 0;
        std::vector<double> x, y;
        bool ok(int i, int j) const { return x[i * m + j] != MISSING; }
    };
    // Content of one state as a client can observe it.
    struct Snap
    {
        int exists = 0;
        int proj = -1;
        M2 m2;
        M1 m1, neta, netb;
        CG cg;
        std::vector<int> c1, c2;
        int com = 0, res = 0;
        std::vector<int> codes; // exit codes of the observing calls
    };
    struct WorldSnap
    {
        std::vector<Snap> s; // by slot
        int com = 0, res = 0;
    };

    // One slot per state a client ever allocated.
    struct Slot
    {
        int client = 0;
        int id = -1;
        bool alive = false;
        bool net = false, conv = false; // a network was set, the projection was converted: not both (a network keeps its projection)
        bool mixed = false; // the 2d mesh was converted while the state held other meshes: they are in different projections
        int line[4] = {-1, -1, -1, -1}; // grid line of a line shift, as node indices
        bool loose = false; // a node was inserted and the mesh was not read since
    };

    struct OpSpec // one line of a trace
    {
        int client = 0;
        std::string name;
        uint64_t seed = 0;
        bool bad = false;        // argument fault: draw invalid arguments
        int64_t fault = -1;      // allocation fault
        bool sticky = false;
        int threads = 1;         // schedule of the parallel regions inside this call
        uint64_t sched = 0;
        int mode = 0, period = 100;
    };

    struct Out // what a call returned to its client
    {
        std::vector<int> rc;
        std::vector<double> v;
        std::vector<std::string> api; // API functions called
        bool fired = false;
        uint64_t allocs = 0;
        int slot = -1;      // slot the operation targeted (-1: none)
        int undoneId = -1;  // for undo and redo: the id returned
        bool undone = false;
        bool skipped = false; // nothing to do in this state
        std::string errmsg;   // message of the last failing call
        int geomIndex = 0, geomType = 0;
        int badNode = -1; // the mesh item that the last call has to report when it fails with a geometry error
    };

    struct World
    {
        std::vector<Slot> slots;
        int clients = 1;
        WorldSnap snap; // observation before the current operation
        int undoCap = 50;
        bool known = false; // replay of a known finding: what the workload otherwise leaves out
        bool preempt = false;   // between the calls of one operation other clients may ask something
        int calls = -1;         // an operation ends after this many calls
        bool sizes = false;     // queries are also asked for one element more than announced
        bool noRefresh = false; // the client does not read the mesh after an edit
        bool skipLoose = false; // no queries between inserting a node and connecting it (a query drops the node)
        bool checkErr = false; // query the error interface after failing calls
        std::vector<int> slotsOf(int client, bool aliveOnly = true) const
        {
            std::vector<int> r;
            for (int i = 0; i < static_cast<int>(slots.size()); ++i)
            {
                if (slots[i].client == client && (!aliveOnly || slots[i].alive))
                {
                    r.push_back(i);
                }
            }
            return r;
        }
        int slotOfId(int id) const
        {
            for (int i = 0; i < static_cast<int>(slots.size()); ++i)
            {
                if (slots[i].id == id && slots[i].alive)
                {
                    return i;
                }
            }
            return -1;
        }
    };

    // Flags of an operation
    enum : unsigned
    {
        fM2 = 1,      // edits the 2d mesh
        fM1 = 2,      // edits the 1d mesh or network
        fCon = 4,     // contacts
        fCG = 8,      // edits the curvilinear grid
        fSes = 16,    // interactive session step
        fQ = 32,      // query: must not change anything
        fCtl = 64,    // undo, redo, allocate ...
        fUndo = 128,  // successful call is expected to be undoable
        fUntracked = 256, // changes the state without an undo entry by design
        fReplace = 512,   // builds the new content aside and installs it at the end
        fPar = 1024,      // reaches parallel regions
        fTri = 2048,      // reaches the triangulation library
        fSlow = 4096,
    };

    struct Ctx
    {
        World& w;
        rt::Rng r;
        int slot;
        int id;
        const Snap* s;
        Out& out;
        bool bad;
        std::function<void()> between = {}; // runs between two calls of the operation
        int call(const char* api, const std::function<int()>& f);
    };

    struct OpDef
    {
        std::string name;
        unsigned flags;
        double weight;
        std::function<bool(const Snap&)> when; // applicable (valid, interesting) in this state
        std::function<void(Ctx&)> fn;
    };
    const std::vector<OpDef>& catalogue();
    const OpDef* findOp(const std::string& n);

    // Perform one operation. Faults and schedule of the spec are armed around its calls.
    void perform(World& w, const OpSpec& op, Out& out);

    // Ghost observation, in a forked child; the observed process is not perturbed.
    WorldSnap observe(const World& w);
    Snap observeHere(int id, bool network); // perturbing, used inside children
    // run f in a forked child and return the doubles it produced
    std::vector<double> inChild(const std::function<std::vector<double>()>& f);

    std::vector<double> queryProbes(int id, const Snap& s, uint64_t seed, bool includeFaceIds);
    std::string diffSnap(const Snap& a, const Snap& b, bool exact);
    std::string diffWorld(const WorldSnap& a, const WorldSnap& b, bool exact);
    uint64_t hashSnap(const Snap& s);
    std::string validate(const Snap& s); // structural validity

    // guarded arrays handed to the library
    template <typename T>
    struct Arr
    {
        T* p = nullptr;
        size_t n = 0;
        Arr() = default;
        explicit Arr(size_t k) { alloc(k); }
        explicit Arr(const std::vector<T>& v)
        {
            alloc(v.size());
            for (size_t i = 0; i < v.size(); ++i)
            {
                p[i] = v[i];
            }
        }
        Arr(const Arr&) = delete;
        Arr& operator=(const Arr&) = delete;
        ~Arr()
        {
            rt::guarded_free(p);
        }
        void alloc(size_t k)
        {
            n = k;
            p = static_cast<T*>(rt::guarded_alloc(k * sizeof(T) + (k ? 0 : 1)));
        }
        std::vector<T> vec() const { return std::vector<T>(p, p + n); }
    };
    struct Geo // a geometry list with exactly sized guarded arrays
    {
        Arr<double> x, y, v;
        mk::GeometryList g;
        Geo(const std::vector<double>& xs, const std::vector<double>& ys, const std::vector<double>& vs = {});
        explicit Geo(int n); // output of size n
    };
} // namespace sim
