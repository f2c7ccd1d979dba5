// One simulated run: a trace of operations of several clients, executed against the
// real library in one process under the simulated runtime.
#pragma once
#include "world.hpp"

namespace sim
{
    struct Trace
    {
        std::string mode = "C01";
        uint64_t seed = 1;
        std::map<std::string, int64_t> par; // run parameters
        std::vector<OpSpec> ops;
        int64_t p(const std::string& k, int64_t d = 0) const
        {
            auto it = par.find(k);
            return it == par.end() ? d : it->second;
        }
    };
    std::string opText(const OpSpec& o);
    std::string traceText(const Trace& t);
    bool parseTrace(const std::string& text, Trace& t);

    constexpr int MAXH = 1024;
    constexpr int MAXOPS = 256;
    struct Stats // shared memory; written by the run's process
    {
        uint64_t ops, applied, failed, forks, observations;
        uint64_t faults, bad, badFailed, steps, regions, switches, conflicts, par;
        uint64_t compares;          // oracle comparisons made
        uint64_t undos, redos;      // effective ones
        uint64_t preempts;          // queries of other clients between two calls of an operation
        uint64_t runHash;
        int nstate, ninter;
        uint64_t state[MAXH], inter[MAXH];
        uint32_t opcount[MAXOPS], opok[MAXOPS], opfail[MAXOPS], opfault[MAXOPS];
        uint32_t codes[16];
    };
    extern Stats* g_stats;
    void statState(uint64_t h);
    void statInter(uint64_t h);

    // generator of operations for a mode
    struct Gen;
    class Generator
    {
    public:
        Generator(const std::string& mode, uint64_t seed);
        void params(Trace& t); // choose run parameters
        bool next(const World& w, const Trace& t, OpSpec& op);

    private:
        std::string m_mode;
        rt::Rng m_r;
        int m_n = 0, m_len = 20;
        std::vector<double> m_w;
        int m_burstUndo = 0, m_burstRedo = 0;
        int m_last = 0;
        int m_theme = 0;
        std::vector<OpSpec> m_queue;
        std::vector<OpSpec> m_issued; // the latest edits
        bool m_afterUndo = false;
        std::map<int, std::vector<std::string>> m_script; // steps of a session a client is to make, in order
        int pick(const World& w, int client, unsigned require, unsigned forbid);
        void decorate(OpSpec& op, const Trace& t);
        bool choose(const World& w, const Trace& t, OpSpec& op);
        friend struct GenAccess;
    };

    // What one execution recorded, in memory shared with its parent
    struct LogEntry
    {
        int index;      // index in the trace
        int client, slot;
        int undoneSlot; // for undo and redo
        int undone;
        int applied;
        uint64_t out;   // hash of everything the call returned
        uint64_t snap;  // hash of the state it worked on, afterwards
        uint64_t world; // hash of all states
        uint64_t own;   // hash of all states of the client concerned
        int owner;      // that client (for undo and redo: the one whose step was taken)
        char what[96];
        uint64_t liveBlocks, liveBytes;
    };
    struct Log
    {
        int n;
        int done;
        LogEntry e[4096];
    };

    struct Exec;
    struct Oracle
    {
        virtual ~Oracle() = default;
        virtual void start(Exec&) {}
        virtual void before(Exec&, const OpSpec&, const OpDef&) {}
        virtual void after(Exec&, const OpSpec&, const OpDef&, const Out&, const WorldSnap& before, const WorldSnap& now) {}
        virtual void end(Exec&) {}
    };

    struct Exec
    {
        Trace& t;
        World w;
        Generator* gen = nullptr; // null: replay t.ops
        Oracle* oracle = nullptr;
        Log* log = nullptr;
        bool repeatQueries = false; // perform every query twice and compare
        std::function<bool(size_t, const OpSpec&)> filter; // ops to execute
        std::function<OpSpec(size_t, const OpSpec&)> rewrite;
        std::function<void(const std::string&)> sink; // receives the text of each op before it runs
        explicit Exec(Trace& tr) : t(tr) {}
        void run();
    };
    Oracle* makeOracle(const std::string& mode);
    // whole run for a mode: generates (gen != null) or replays; calls rt::fail on violation
    void runMode(Trace& t, Generator* gen, const std::function<void(const std::string&)>& sink);
    std::string sinkContents(); // trace text written so far by a generating run
    uint64_t hashOut(const Out& o, const World& w);
    std::vector<double> flattenOut(const Out& o);
    std::vector<double> flattenWorld(const WorldSnap& w, bool counts);
    std::vector<double> flatten(const Snap& s);
    bool known(const std::string& key); // features of the tree listed as known findings
} // namespace sim
