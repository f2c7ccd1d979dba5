// Simulator runtime: the seams through which every source of nondeterminism of the
// real MeshKernel code passes.  See DESIGN.md ("Seams").
#pragma once
#include <cstddef>
#include <cstdint>

namespace rt
{
    // ---------------------------------------------------------------- PRNG
    struct Rng
    {
        uint64_t s;
        explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0xD1B54A32D192ED03ull) { next(); }
        uint64_t next()
        {
            uint64_t z = (s += 0x9E3779B97F4A7C15ull);
            z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
            z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
            return z ^ (z >> 31);
        }
        uint64_t below(uint64_t n) { return n ? next() % n : 0; }
        int range(int a, int b) { return b < a ? a : a + static_cast<int>(below(static_cast<uint64_t>(b - a + 1))); }
        double uni() { return static_cast<double>(next() >> 11) * (1.0 / 9007199254740992.0); }
        double uni(double a, double b) { return a + (b - a) * uni(); }
        bool chance(double p) { return uni() < p; }
    };
    inline uint64_t mix(uint64_t a, uint64_t b)
    {
        Rng r(a ^ (b * 0xff51afd7ed558ccdull + 0x2545F4914F6CDD1Dull));
        return r.next();
    }

    // ---------------------------------------------------------------- report (shared memory, written by run children)
    enum Kind : int
    {
        kNone = 0,
        kViolation = 1, // an oracle failed
        kMemory = 2,    // invalid heap access / free
        kCrash = 3,     // signal
        kTerminate = 4, // std::terminate / abort / exit inside a call
        kHang = 5,      // step budget exceeded
        kHarness = 6,   // error of the machinery itself
    };
    struct Report
    {
        volatile int kind;
        char cls[160];  // class of the violation, stable across runs (used for known findings and minimisation)
        char msg[2000]; // human readable
        int op;         // index of the operation in the trace
        int npc;
        void* pc[24];
    };
    extern Report* g_report;
    [[noreturn]] void fail(Kind k, const char* cls, const char* fmt, ...) __attribute__((format(printf, 3, 4)));
    extern int g_op;         // index of the current operation
    extern const char* g_opname;
    extern bool g_in_child;  // executing inside an observation child

    // ---------------------------------------------------------------- allocator seam
    struct HeapConfig
    {
        int fill;         // 0 zero, 1 0xFF, 2 seeded bytes, 3 small integers, 4 plausible doubles
        uint64_t fillseed;
        int placement;    // 0 quarantine FIFO, 1 immediate reuse
        size_t quarantine;
    };
    void heap_init(const HeapConfig& c);
    void heap_config(const HeapConfig& c);
    struct HeapStats
    {
        uint64_t live_blocks, live_bytes, allocs, faults_fired;
    };
    HeapStats heap_stats();
    uint64_t heap_live_hash(); // hash of sizes of live blocks
    void* guarded_alloc(size_t n);        // harness output buffer: any access outside it is reported
    void guarded_free(void* p);
    bool in_arena(const void* p);

    // fault plan for the current call
    struct FaultPlan
    {
        int64_t at;    // fail the at-th allocation of the call (0-based); <0: none
        bool sticky;   // every later allocation of the call fails too
        bool inpar;    // also inside parallel regions
        bool triangle; // also inside the triangle library
    };
    void fault_arm(const FaultPlan& p);
    bool fault_fired();
    uint64_t fault_allocs_seen(); // eligible allocations of the last call
    void fault_disarm();

    // ---------------------------------------------------------------- scheduler seam
    struct SchedPlan
    {
        int threads;      // team size
        uint64_t seed;
        int mode;         // 0 run to completion in random order, 1 random walk, 2 conflict-directed, 3 round robin
        int period;       // mean accesses between preemptions
    };
    void sched_arm(const SchedPlan& p);
    struct SchedStats
    {
        uint64_t regions, fibers, switches, conflicts, hash, maxteam;
    };
    SchedStats sched_stats();
    extern bool g_race_fatal; // a race inside a parallel region is a violation

    // ---------------------------------------------------------------- kernel entry
    extern int g_kernel;       // >0 while real MeshKernel code runs
    extern uint64_t g_steps;   // simulated time: instrumented memory accesses
    extern uint64_t g_step_limit;
    struct KernelScope
    {
        KernelScope() { ++g_kernel; }
        ~KernelScope() { --g_kernel; }
    };
    void scribble_stack(uint64_t seed);
    void install_handlers();
    void make_report();
} // namespace rt
