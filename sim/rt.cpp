#include "rt.hpp"
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <exception>
#include <execinfo.h>
#include <initializer_list>
#include <new>
#include <pthread.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/single_threaded.h>
#include <unistd.h>

extern "C"
{
    void* __real_malloc(size_t);
    void __real_free(void*);
    void* __real_realloc(void*, size_t);
    void* __real_calloc(size_t, size_t);
    int __real_posix_memalign(void**, size_t, size_t);
    void* __real_aligned_alloc(size_t, size_t);
    void* __real_memcpy(void*, const void*, size_t);
    void* __real_memmove(void*, const void*, size_t);
    void* __real_memset(void*, int, size_t);
    int __real_memcmp(const void*, const void*, size_t);
    void __real_exit(int) __attribute__((noreturn));
    void __real_abort() __attribute__((noreturn));
    int __real___cxa_guard_acquire(void*);
    void __real___cxa_guard_release(void*);
    void __real___cxa_guard_abort(void*);
    int __real_pthread_mutex_lock(pthread_mutex_t*);
    int __real_pthread_mutex_trylock(pthread_mutex_t*);
    int __real_pthread_mutex_unlock(pthread_mutex_t*);
}

namespace rt
{
    Report* g_report = nullptr;
    int g_op = -1;
    const char* g_opname = "";
    bool g_in_child = false;
    int g_kernel = 0;
    uint64_t g_steps = 0;
    uint64_t g_step_limit = UINT64_MAX;

    void make_report()
    {
        void* p = mmap(nullptr, sizeof(Report), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        if (p == MAP_FAILED)
        {
            perror("mmap report");
            _exit(3);
        }
        g_report = static_cast<Report*>(p);
        __real_memset(g_report, 0, sizeof(Report));
    }

    static void vfail(Kind k, const char* cls, const char* fmt, va_list ap)
    {
        g_kernel = 0;
        if (g_report && g_report->kind == kNone)
        {
            Report& r = *g_report;
            r.op = g_op;
            snprintf(r.cls, sizeof r.cls, "%s", cls);
            vsnprintf(r.msg, sizeof r.msg, fmt, ap);
            if (k == kMemory || k == kCrash || k == kTerminate || k == kHang)
            {
                r.npc = backtrace(r.pc, 24);
            }
            r.kind = k;
        }
        _exit(10 + static_cast<int>(k));
    }

    void fail(Kind k, const char* cls, const char* fmt, ...)
    {
        va_list ap;
        va_start(ap, fmt);
        vfail(k, cls, fmt, ap);
        va_end(ap);
        _exit(3);
    }

    // ================================================================= arena
    static constexpr uintptr_t ARENA = 0x200000000000ull;
    static constexpr size_t ARENA_SIZE = size_t(6) << 30;
    static uint8_t* g_shadow = nullptr; // one byte per 8 arena bytes: number of valid leading bytes (8: all)
    static uintptr_t g_bump = ARENA;
    struct Hdr
    {
        uint64_t size; // user bytes
        uint32_t cls;
        uint32_t state; // 0xA110C8ED live, 0xDEADF4EE freed
    };
    static constexpr uint32_t LIVE = 0xA110C8EDu, DEAD = 0xDEADF4EEu;
    static constexpr int NCLS = 160;
    struct FreeNode
    {
        FreeNode* next;
    };
    static FreeNode* g_freelist[NCLS];
    static size_t g_clssize[NCLS];
    static HeapConfig g_hc{2, 1, 0, size_t(4) << 20};
    static Rng g_fillrng(1);
    static HeapStats g_hs{};
    // quarantine: intrusive queue
    struct QNode
    {
        QNode* next;
    };
    static QNode *g_qhead = nullptr, *g_qtail = nullptr;
    static size_t g_qbytes = 0;

    bool in_arena(const void* p) { return reinterpret_cast<uintptr_t>(p) - ARENA < ARENA_SIZE; }

    void heap_config(const HeapConfig& c)
    {
        g_hc = c;
        g_fillrng = Rng(c.fillseed);
    }
    void heap_init(const HeapConfig& c)
    {
        void* p = mmap(reinterpret_cast<void*>(ARENA), ARENA_SIZE, PROT_READ | PROT_WRITE,
                       MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
        if (p != reinterpret_cast<void*>(ARENA))
        {
            perror("mmap arena");
            _exit(3);
        }
        void* s = mmap(reinterpret_cast<void*>(ARENA + ARENA_SIZE), ARENA_SIZE / 8, PROT_READ | PROT_WRITE,
                       MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
        if (s == MAP_FAILED)
        {
            perror("mmap shadow");
            _exit(3);
        }
        g_shadow = static_cast<uint8_t*>(s);
        // size classes: total block sizes (header + user + redzone), multiples of 16
        size_t sz = 48;
        int i = 0;
        while (i < NCLS)
        {
            g_clssize[i++] = sz;
            size_t step = 16;
            while (step * 8 <= sz)
            {
                step *= 2;
            }
            sz += step;
            sz = (sz + 15) & ~size_t(15);
        }
        heap_config(c);
    }

    static int class_of(size_t total)
    {
        int lo = 0, hi = NCLS - 1;
        if (total > g_clssize[hi])
        {
            return -1;
        }
        while (lo < hi)
        {
            int m = (lo + hi) / 2;
            if (g_clssize[m] >= total)
            {
                hi = m;
            }
            else
            {
                lo = m + 1;
            }
        }
        return lo;
    }

    static void fill_block(void* p, size_t n)
    {
        uint8_t* b = static_cast<uint8_t*>(p);
        switch (g_hc.fill)
        {
        case 0:
            __real_memset(b, 0, n);
            break;
        case 1:
            __real_memset(b, 0xFF, n);
            break;
        case 3:
        {
            uint32_t v = static_cast<uint32_t>(g_fillrng.next() % 7);
            for (size_t i = 0; i + 4 <= n; i += 4)
            {
                __real_memcpy(b + i, &v, 4);
                v = (v * 5 + 3) % 11;
            }
            break;
        }
        case 4:
        {
            double v = static_cast<double>(g_fillrng.next() % 1000) / 37.0 - 5.0;
            for (size_t i = 0; i + 8 <= n; i += 8)
            {
                __real_memcpy(b + i, &v, 8);
                v = v * 0.75 + 1.25;
            }
            break;
        }
        default:
        {
            uint64_t v = g_fillrng.next();
            size_t i = 0;
            for (; i + 8 <= n; i += 8)
            {
                v ^= v << 13;
                v ^= v >> 7;
                v ^= v << 17;
                __real_memcpy(b + i, &v, 8);
            }
            for (; i < n; ++i)
            {
                b[i] = static_cast<uint8_t>(v >> (8 * (i & 7)));
            }
        }
        }
    }

    static void shadow_set(uintptr_t user, size_t n, bool valid)
    {
        size_t g = (user - ARENA) >> 3;
        if (valid)
        {
            __real_memset(g_shadow + g, 8, n >> 3);
            if (n & 7)
            {
                g_shadow[g + (n >> 3)] = static_cast<uint8_t>(n & 7);
            }
        }
        else
        {
            __real_memset(g_shadow + g, 0, (n + 7) >> 3);
        }
    }

    static void to_freelist(QNode* q)
    {
        Hdr* h = reinterpret_cast<Hdr*>(reinterpret_cast<uintptr_t>(q) - sizeof(Hdr));
        FreeNode* f = reinterpret_cast<FreeNode*>(q);
        f->next = g_freelist[h->cls];
        g_freelist[h->cls] = f;
    }

    static void* arena_alloc(size_t n)
    {
        size_t user = n ? n : 1;
        size_t total = sizeof(Hdr) + ((user + 7) & ~size_t(7)) + 16;
        int c = class_of(total);
        uintptr_t blk;
        if (c < 0)
        {
            if (user > (size_t(1) << 32))
            {
                return nullptr;
            }
            blk = g_bump;
            size_t t = (total + 63) & ~size_t(63);
            if (g_bump + t > ARENA + ARENA_SIZE)
            {
                return nullptr;
            }
            g_bump += t;
        }
        else if (g_freelist[c])
        {
            FreeNode* f = g_freelist[c];
            g_freelist[c] = f->next;
            blk = reinterpret_cast<uintptr_t>(f) - sizeof(Hdr);
        }
        else
        {
            blk = g_bump;
            if (g_bump + g_clssize[c] > ARENA + ARENA_SIZE)
            {
                return nullptr;
            }
            g_bump += g_clssize[c];
        }
        Hdr* h = reinterpret_cast<Hdr*>(blk);
        h->size = user;
        h->cls = static_cast<uint32_t>(c);
        h->state = LIVE;
        uintptr_t u = blk + sizeof(Hdr);
        fill_block(reinterpret_cast<void*>(u), user);
        shadow_set(u, user, true);
        g_hs.live_blocks++;
        g_hs.live_bytes += user;
        g_hs.allocs++;
        return reinterpret_cast<void*>(u);
    }

    void acc_forget_block(uintptr_t a, size_t n);
    static void arena_free(void* p)
    {
        uintptr_t u = reinterpret_cast<uintptr_t>(p);
        Hdr* h = reinterpret_cast<Hdr*>(u - sizeof(Hdr));
        if ((u & 15) != 0 || (h->state != LIVE && h->state != DEAD))
        {
            fail(kMemory, "invalid-free", "free of a pointer that is not the start of a block");
        }
        if (h->state == DEAD)
        {
            fail(kMemory, "double-free", "block freed twice (size %llu)", static_cast<unsigned long long>(h->size));
        }
        h->state = DEAD;
        acc_forget_block(u, h->size);
        shadow_set(u, h->size, false);
        g_hs.live_blocks--;
        g_hs.live_bytes -= h->size;
        if (static_cast<int>(h->cls) < 0)
        {
            return; // huge blocks are never reused
        }
        QNode* q = reinterpret_cast<QNode*>(u);
        if (g_hc.placement == 1)
        {
            to_freelist(q);
            return;
        }
        q->next = nullptr;
        if (g_qtail)
        {
            g_qtail->next = q;
        }
        else
        {
            g_qhead = q;
        }
        g_qtail = q;
        g_qbytes += g_clssize[h->cls];
        while (g_qbytes > g_hc.quarantine && g_qhead)
        {
            QNode* o = g_qhead;
            g_qhead = o->next;
            if (!g_qhead)
            {
                g_qtail = nullptr;
            }
            Hdr* oh = reinterpret_cast<Hdr*>(reinterpret_cast<uintptr_t>(o) - sizeof(Hdr));
            g_qbytes -= g_clssize[oh->cls];
            to_freelist(o);
        }
    }

    HeapStats heap_stats() { return g_hs; }
    uint64_t heap_live_hash() { return mix(g_hs.live_blocks, g_hs.live_bytes); }

    void* guarded_alloc(size_t n)
    {
        void* p = arena_alloc(n);
        if (!p)
        {
            fail(kHarness, "harness", "guarded_alloc failed");
        }
        // harness buffers do not count as kernel memory
        Hdr* h = reinterpret_cast<Hdr*>(reinterpret_cast<uintptr_t>(p) - sizeof(Hdr));
        g_hs.live_blocks--;
        g_hs.live_bytes -= h->size;
        return p;
    }
    void guarded_free(void* p)
    {
        if (!p)
        {
            return;
        }
        Hdr* h = reinterpret_cast<Hdr*>(reinterpret_cast<uintptr_t>(p) - sizeof(Hdr));
        g_hs.live_blocks++;
        g_hs.live_bytes += h->size;
        arena_free(p);
    }

    // ----------------------------------------------------------------- faults
    static FaultPlan g_fp{-1, false, false, false};
    static int64_t g_fcount = 0;
    static bool g_ffired = false;
    static bool g_in_triangle = false;
    static int g_par = 0; // inside a parallel region with more than one fiber
    static int g_parregion = 0;
    void fault_arm(const FaultPlan& p)
    {
        g_fp = p;
        g_fcount = 0;
        g_ffired = false;
    }
    void fault_disarm() { g_fp.at = -1; }
    bool fault_fired() { return g_ffired; }
    uint64_t fault_allocs_seen() { return static_cast<uint64_t>(g_fcount); }

    static bool fault_here()
    {
        if (g_parregion && !g_fp.inpar)
        {
            return false;
        }
        if (g_in_triangle && !g_fp.triangle)
        {
            return false;
        }
        int64_t i = g_fcount++;
        if (g_fp.at < 0)
        {
            return false;
        }
        if (i == g_fp.at || (g_fp.sticky && i > g_fp.at))
        {
            g_ffired = true;
            g_hs.faults_fired++;
            return true;
        }
        return false;
    }

    static void* kalloc(size_t n)
    {
        if (fault_here())
        {
            return nullptr;
        }
        return arena_alloc(n);
    }

    // ================================================================= accesses, fibers
    struct CxaGlobals
    {
        void* caught;
        unsigned int uncaught;
    };
    struct Fiber
    {
        void* rsp;
        uint8_t* stack;
        bool done;
        bool waiting; // at a barrier
        CxaGlobals cxa;
        unsigned wsseq; // work-share sequence number
        unsigned singleseq;
    };
    static constexpr int MAXT = 16;
    static constexpr size_t FSTACK = size_t(1) << 20;
    static Fiber g_fib[MAXT];
    static int g_team = 1;
    static int g_cur = -1;
    static void* g_sched_rsp;
    static SchedPlan g_sp{1, 1, 0, 100};
    static Rng g_srng(1);
    static SchedStats g_ss{};
    static int64_t g_preempt = 0;
    static int g_nopreempt = 0;
    static void (*g_fn)(void*);
    static void* g_data;

    static uint32_t g_epoch = 0;
    struct AccRec // one 8-byte granule: the bytes read and written by the last two threads that touched it
    {
        uint64_t gran;
        uint32_t epoch;
        struct
        {
            uint8_t fib, r, w;
        } t[2];
    };
    bool g_race_fatal = false;
    int g_lockdepth[64];
    static constexpr size_t ACCN = size_t(1) << 16;
    static AccRec* g_acc = nullptr;
    static constexpr size_t HOTN = 4096;
    static uint64_t g_hot[HOTN];

    extern "C" void sim_swap(void** save, void* next);
    asm(R"(
.text
.globl sim_swap
.type sim_swap,@function
sim_swap:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size sim_swap,.-sim_swap
)");

    static void yield_to_sched()
    {
        Fiber& f = g_fib[g_cur];
        CxaGlobals* g = reinterpret_cast<CxaGlobals*>(__cxxabiv1::__cxa_get_globals());
        f.cxa = *g;
        sim_swap(&f.rsp, g_sched_rsp);
        *g = g_fib[g_cur].cxa;
    }

    static void fiber_main()
    {
        g_fn(g_data);
        g_fib[g_cur].done = true;
        for (;;)
        {
            yield_to_sched();
        }
    }

    static void next_preempt()
    {
        switch (g_sp.mode)
        {
        case 0:
            g_preempt = INT64_MAX / 2;
            break;
        case 3:
            g_preempt = g_sp.period > 0 ? g_sp.period : 1;
            break;
        default:
        {
            // roughly geometric
            double u = g_srng.uni();
            g_preempt = 1 + static_cast<int64_t>(-__builtin_log(1.0 - u) * g_sp.period);
        }
        }
    }

    static void preempt()
    {
        if (g_nopreempt)
        {
            g_preempt = 1;
            return;
        }
        yield_to_sched();
    }

    [[gnu::noinline]] static void race(uintptr_t a, bool wr, void* pc)
    {
        g_ss.conflicts++;
        uint64_t gran = a >> 3;
        uint64_t h = (reinterpret_cast<uintptr_t>(pc) * 0x9E3779B97F4A7C15ull) >> 52;
        g_hot[h & (HOTN - 1)] = reinterpret_cast<uintptr_t>(pc);
        // the other access of the pair may sit at another pc: remember this granule too
        g_hot[(gran * 0x9E3779B97F4A7C15ull) >> 52 & (HOTN - 1)] = gran;
        if (g_race_fatal)
        {
            if (g_report && g_report->kind == kNone)
            {
                g_report->pc[0] = pc;
                g_report->npc = 1;
            }
            fail(kViolation, "data-race", "two threads of a team access the same memory, one of them writes (%s now), without synchronisation, in call %s", wr ? "write" : "read", g_opname);
        }
    }

    static inline void acc_record(uintptr_t a, unsigned mask, bool wr, void* pc)
    {
        uint64_t gran = a >> 3;
        AccRec& r = g_acc[(gran ^ (gran >> 16)) & (ACCN - 1)];
        uint8_t me = static_cast<uint8_t>(g_cur);
        if (r.epoch != g_epoch || r.gran != gran)
        {
            r.epoch = g_epoch;
            r.gran = gran;
            r.t[0] = {me, static_cast<uint8_t>(wr ? 0 : mask), static_cast<uint8_t>(wr ? mask : 0)};
            r.t[1] = {me, 0, 0};
            return;
        }
        for (auto& o : r.t)
        {
            if (o.fib != me && ((o.w & mask) || (wr && (o.r & mask))))
            {
                race(a, wr, pc);
                break;
            }
        }
        int k = r.t[0].fib == me ? 0 : r.t[1].fib == me ? 1
                                                        : -1;
        if (k < 0)
        {
            k = (r.t[1].r | r.t[1].w) == 0 ? 1 : 0; // drop the older one
            if (k == 0)
            {
                r.t[0] = r.t[1];
                k = 1;
            }
            r.t[1] = {me, 0, 0};
        }
        (wr ? r.t[k].w : r.t[k].r) |= static_cast<uint8_t>(mask);
    }

    extern "C" char __executable_start, _end;
    // memory that threads can share: the heap of the kernel, its static data and the stack of the caller of the
    // region; exception objects live in the heap of the C++ runtime, which hands them from thread to thread
    static inline bool shared_memory(uintptr_t a)
    {
        return a - ARENA < ARENA_SIZE ||
               (a >= reinterpret_cast<uintptr_t>(&__executable_start) && a < reinterpret_cast<uintptr_t>(&_end)) ||
               a - reinterpret_cast<uintptr_t>(g_sched_rsp) < (size_t(64) << 20);
    }

    static inline void par_access(uintptr_t a, size_t n, bool wr, void* pc)
    {
        if (g_cur < 0)
        {
            return;
        }
        // own stack accesses cannot conflict
        uintptr_t st = reinterpret_cast<uintptr_t>(g_fib[g_cur].stack);
        if (a - st >= FSTACK)
        {
            if (g_nopreempt == 0 && g_lockdepth[g_cur] == 0 && shared_memory(a))
            {
                for (size_t left = n; left > 0;)
                {
                    size_t o = a & 7, k = 8 - o < left ? 8 - o : left;
                    acc_record(a, ((1u << k) - 1) << o, wr, pc);
                    a += k;
                    left -= k;
                }
                a -= n;
            }
            if (g_sp.mode == 2)
            {
                uint64_t gran = a >> 3;
                uint64_t h = (reinterpret_cast<uintptr_t>(pc) * 0x9E3779B97F4A7C15ull) >> 52;
                if (g_hot[h & (HOTN - 1)] == reinterpret_cast<uintptr_t>(pc) ||
                    g_hot[(gran * 0x9E3779B97F4A7C15ull) >> 52 & (HOTN - 1)] == gran)
                {
                    if (g_srng.below(3) == 0)
                    {
                        g_preempt = 1;
                    }
                }
            }
        }
        if (--g_preempt <= 0)
        {
            preempt();
        }
    }
    // a block changes hands: its earlier accesses are ordered before its later ones
    static void acc_forget(uintptr_t a, size_t n)
    {
        for (uintptr_t g = a >> 3; g <= (a + n) >> 3; ++g)
        {
            AccRec& r = g_acc[(g ^ (g >> 16)) & (ACCN - 1)];
            if (r.gran == g)
            {
                r.epoch = 0;
            }
        }
    }
    void acc_forget_block(uintptr_t a, size_t n)
    {
        if (g_cur >= 0 && g_acc)
        {
            acc_forget(a, n);
        }
    }

    [[gnu::noinline]] static void bad_access(uintptr_t a, size_t n, bool wr, void* pc)
    {
        // find the block
        const char* what = "heap-out-of-bounds";
        uintptr_t b = a & ~uintptr_t(15);
        unsigned long long bs = 0;
        for (int i = 0; i < 4096 && b >= ARENA + sizeof(Hdr); ++i, b -= 16)
        {
            Hdr* h = reinterpret_cast<Hdr*>(b - sizeof(Hdr));
            if (h->state == DEAD && a < b + h->size)
            {
                what = "heap-use-after-free";
                bs = h->size;
                break;
            }
            if (h->state == LIVE || h->state == DEAD)
            {
                bs = h->size;
                break;
            }
        }
        (void)pc;
        fail(kMemory, what, "%s: %s of %zu bytes near a block of %llu bytes in call %s", what, wr ? "write" : "read", n, bs, g_opname);
    }

    static inline void check_range(uintptr_t a, size_t n, bool wr, void* pc)
    {
        uintptr_t off = a - ARENA;
        if (off < ARENA_SIZE)
        {
            if (n <= 8)
            {
                uint8_t s = g_shadow[off >> 3];
                if (__builtin_expect((off & 7) + n <= 8, 1))
                {
                    if (__builtin_expect((off & 7) + n > s, 0))
                    {
                        bad_access(a, n, wr, pc);
                    }
                }
                else if (s != 8 || g_shadow[(off + n - 1) >> 3] < ((off + n - 1) & 7) + 1)
                {
                    bad_access(a, n, wr, pc);
                }
            }
            else
            {
                // every granule up to the last must be whole
                uintptr_t last = off + n - 1;
                for (uintptr_t g = off >> 3; g < last >> 3; ++g)
                {
                    if (g_shadow[g] != 8)
                    {
                        bad_access(a, n, wr, pc);
                    }
                }
                if (g_shadow[last >> 3] < (last & 7) + 1)
                {
                    bad_access(a, n, wr, pc);
                }
            }
        }
    }

    [[gnu::noinline]] static void step_limit()
    {
        fail(kHang, "no-progress", "call %s did not finish within the step budget", g_opname);
    }

#ifdef SIM_COV
    // development only: which access sites of the library are reached (tools/cover.py)
    static unsigned char* g_cov = []
    {
        const char* f = getenv("SIM_COV");
        int fd = f ? open(f, O_RDWR | O_CREAT, 0644) : -1;
        if (fd < 0 || ftruncate(fd, 64 << 20) != 0)
        {
            return static_cast<unsigned char*>(nullptr);
        }
        return static_cast<unsigned char*>(mmap(nullptr, 64 << 20, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
    }();
#define COVER(pc)                                      \
    if (g_cov)                                         \
    {                                                  \
        g_cov[reinterpret_cast<uintptr_t>(pc)] = 1;    \
    }
#else
#define COVER(pc)
#endif
    static inline void access(void* p, size_t n, bool wr, void* pc)
    {
        if (!g_kernel)
        {
            return;
        }
        COVER(pc)
        if (++g_steps > g_step_limit)
        {
            step_limit();
        }
        uintptr_t a = reinterpret_cast<uintptr_t>(p);
        check_range(a, n, wr, pc);
        if (g_par)
        {
            par_access(a, n, wr, pc);
        }
    }

    static inline void access_range(const void* p, size_t n, bool wr, void* pc)
    {
        if (!g_kernel || n == 0)
        {
            return;
        }
        COVER(pc)
        g_steps += 1 + n / 64;
        if (g_steps > g_step_limit)
        {
            step_limit();
        }
        uintptr_t a = reinterpret_cast<uintptr_t>(p);
        check_range(a, n, wr, pc);
        if (g_par)
        {
            size_t m = n < 512 ? n : 512;
            for (size_t i = 0; i < m; i += 8)
            {
                par_access(a + i, m - i < 8 ? m - i : 8, wr, pc);
            }
        }
    }

    // ----------------------------------------------------------------- scheduler
    void sched_arm(const SchedPlan& p)
    {
        g_sp = p;
        if (g_sp.threads < 1)
        {
            g_sp.threads = 1;
        }
        if (g_sp.threads > MAXT)
        {
            g_sp.threads = MAXT;
        }
        g_srng = Rng(p.seed);
        __real_memset(g_hot, 0, sizeof g_hot);
    }
    SchedStats sched_stats() { return g_ss; }

    struct Work
    {
        bool init;
        long next, end, incr, chunk;
        unsigned long long unext, uend, uincr, uchunk;
        int finished;
    };
    static constexpr int NWORK = 64;
    static Work g_work[NWORK];
    static int g_barrier_waiting = 0;
    static bool g_single_taken[NWORK];
    static Work g_first_work; // combined parallel+loop constructs
    static bool g_have_first = false;

    static void run_team(void (*fn)(void*), void* data, unsigned n, const Work* first)
    {
        if (g_parregion)
        {
            // nested parallelism is off: a team of one
            int st = g_team, sc = g_cur;
            (void)st;
            (void)sc;
            fn(data);
            return;
        }
        int team = n ? static_cast<int>(n) : g_sp.threads;
        if (team > MAXT)
        {
            team = MAXT;
        }
        if (team < 1)
        {
            team = 1;
        }
        g_ss.regions++;
        if (static_cast<uint64_t>(team) > g_ss.maxteam)
        {
            g_ss.maxteam = static_cast<uint64_t>(team);
        }
        g_have_first = first != nullptr;
        if (first)
        {
            g_first_work = *first;
        }
        __real_memset(g_work, 0, sizeof g_work);
        __real_memset(g_single_taken, 0, sizeof g_single_taken);
        if (g_have_first)
        {
            g_work[0] = g_first_work;
        }
        if (!g_acc)
        {
            g_acc = static_cast<AccRec*>(mmap(nullptr, ACCN * sizeof(AccRec), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
        }
        ++g_epoch;
        g_fn = fn;
        g_data = data;
        g_team = team;
        for (int i = 0; i < team; ++i)
        {
            Fiber& f = g_fib[i];
            if (!f.stack)
            {
                f.stack = static_cast<uint8_t*>(mmap(nullptr, FSTACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
            }
            f.done = false;
            f.waiting = false;
            g_lockdepth[i] = 0;
            f.cxa = CxaGlobals{nullptr, 0};
            f.wsseq = 0;
            f.singleseq = 0;
            uint64_t* sp = reinterpret_cast<uint64_t*>(f.stack + FSTACK - 64);
            *--sp = 0; // return address of fiber_main (never used)
            *--sp = reinterpret_cast<uint64_t>(&fiber_main);
            for (int k = 0; k < 6; ++k)
            {
                *--sp = 0;
            }
            f.rsp = sp;
        }
        g_ss.fibers += static_cast<uint64_t>(team);
        g_parregion = 1;
        g_par = team > 1;
        g_barrier_waiting = 0;
        int last = -1;
        for (;;)
        {
            int run[MAXT], nr = 0, alive = 0;
            for (int i = 0; i < team; ++i)
            {
                if (!g_fib[i].done)
                {
                    ++alive;
                    if (!g_fib[i].waiting)
                    {
                        run[nr++] = i;
                    }
                }
            }
            if (!alive)
            {
                break;
            }
            if (!nr)
            {
                // all alive fibers wait at a barrier: release
                for (int i = 0; i < team; ++i)
                {
                    g_fib[i].waiting = false;
                    ++g_epoch;
                }
                continue;
            }
            int pick;
            if (g_sp.mode == 3)
            {
                pick = run[0];
                for (int k = 0; k < nr; ++k)
                {
                    if (run[k] > last)
                    {
                        pick = run[k];
                        break;
                    }
                }
            }
            else
            {
                pick = run[g_srng.below(static_cast<uint64_t>(nr))];
            }
            g_cur = pick;
            last = pick;
            next_preempt();
            g_ss.switches++;
            uint64_t s0 = g_steps;
            CxaGlobals* g = reinterpret_cast<CxaGlobals*>(__cxxabiv1::__cxa_get_globals());
            CxaGlobals saved = *g;
            *g = g_fib[pick].cxa;
            sim_swap(&g_sched_rsp, g_fib[pick].rsp);
            *g = saved;
            g_ss.hash = mix(g_ss.hash, static_cast<uint64_t>(pick) * 1000003u + (g_steps - s0));
            g_cur = -1;
        }
        g_par = 0;
        g_parregion = 0;
        g_team = 1;
        g_cur = -1;
    }

    static void barrier()
    {
        if (g_cur < 0 || g_team <= 1)
        {
            return;
        }
        g_fib[g_cur].waiting = true;
        yield_to_sched();
    }

    static Work& cur_work()
    {
        unsigned seq = g_cur >= 0 ? g_fib[g_cur].wsseq : 0;
        return g_work[seq % NWORK];
    }

    // ----------------------------------------------------------------- stack scribbling
    [[gnu::noinline]] void scribble_stack(uint64_t seed)
    {
        volatile uint8_t buf[48 * 1024];
        Rng r(seed);
        uint64_t v = r.next();
        int mode = g_hc.fill;
        for (size_t i = 0; i + 8 <= sizeof buf; i += 8)
        {
            uint64_t w = mode == 0 ? 0 : mode == 1 ? ~uint64_t(0)
                                     : mode == 3   ? 0x0000000300000002ull
                                                   : v;
            v ^= v << 13;
            v ^= v >> 7;
            v ^= v << 17;
            *reinterpret_cast<volatile uint64_t*>(buf + i) = w;
        }
    }

    // ----------------------------------------------------------------- process-level events
    static void on_signal(int sig)
    {
        const char* n = sig == SIGSEGV ? "SIGSEGV" : sig == SIGFPE ? "SIGFPE"
                                                : sig == SIGBUS    ? "SIGBUS"
                                                : sig == SIGILL    ? "SIGILL"
                                                                   : "SIGABRT";
        char cls[64];
        snprintf(cls, sizeof cls, "crash-%s", n);
        fail(kCrash, cls, "%s inside call %s", n, g_opname);
    }
    static void on_terminate()
    {
        fail(kTerminate, "terminate", "std::terminate inside call %s", g_opname);
    }
    void install_handlers()
    {
        __libc_single_threaded = 0; // reference counts are atomic, as in a process with threads
        static uint8_t alt[65536];
        stack_t ss{};
        ss.ss_sp = alt;
        ss.ss_size = sizeof alt;
        sigaltstack(&ss, nullptr);
        struct sigaction sa
        {
        };
        sa.sa_handler = on_signal;
        sa.sa_flags = SA_ONSTACK | SA_RESETHAND | SA_NODEFER;
        for (int s : {SIGSEGV, SIGFPE, SIGBUS, SIGILL, SIGABRT})
        {
            sigaction(s, &sa, nullptr);
        }
        std::set_terminate(on_terminate);
        void* pcs[4];
        backtrace(pcs, 4); // load libgcc now
    }
} // namespace rt

// ===================================================================== operator new/delete
void* operator new(size_t n)
{
    if (rt::g_kernel)
    {
        void* p = rt::kalloc(n);
        if (!p)
        {
            throw std::bad_alloc();
        }
        return p;
    }
    void* p = __real_malloc(n ? n : 1);
    if (!p)
    {
        throw std::bad_alloc();
    }
    return p;
}
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept
{
    if (rt::g_kernel)
    {
        return rt::kalloc(n);
    }
    return __real_malloc(n ? n : 1);
}
void* operator new[](size_t n, const std::nothrow_t& t) noexcept { return operator new(n, t); }
void operator delete(void* p) noexcept
{
    if (!p)
    {
        return;
    }
    if (rt::in_arena(p))
    {
        rt::arena_free(p);
    }
    else
    {
        __real_free(p);
    }
}
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { operator delete(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { operator delete(p); }

extern "C"
{
    void* __wrap_malloc(size_t n)
    {
        return rt::g_kernel ? rt::kalloc(n) : __real_malloc(n);
    }
    void __wrap_free(void* p)
    {
        operator delete(p);
    }
    void* __wrap_calloc(size_t a, size_t b)
    {
        if (!rt::g_kernel)
        {
            return __real_calloc(a, b);
        }
        void* p = rt::kalloc(a * b);
        if (p)
        {
            __real_memset(p, 0, a * b);
        }
        return p;
    }
    void* __wrap_realloc(void* p, size_t n)
    {
        if (p && !rt::in_arena(p))
        {
            return __real_realloc(p, n);
        }
        if (!rt::g_kernel && !p)
        {
            return __real_realloc(p, n);
        }
        void* q = rt::kalloc(n);
        if (!q)
        {
            return nullptr;
        }
        if (p)
        {
            size_t old = reinterpret_cast<rt::Hdr*>(reinterpret_cast<uintptr_t>(p) - sizeof(rt::Hdr))->size;
            __real_memcpy(q, p, old < n ? old : n);
            operator delete(p);
        }
        return q;
    }
    int __wrap_posix_memalign(void** out, size_t al, size_t n)
    {
        if (!rt::g_kernel || al > 16)
        {
            return __real_posix_memalign(out, al, n);
        }
        void* p = rt::kalloc(n);
        if (!p)
        {
            return ENOMEM;
        }
        *out = p;
        return 0;
    }
    void* __wrap_aligned_alloc(size_t al, size_t n)
    {
        if (!rt::g_kernel || al > 16)
        {
            return __real_aligned_alloc(al, n);
        }
        return rt::kalloc(n);
    }
    // the triangle library is compiled with its own names for malloc, free and exit
    void* tri_malloc(size_t n)
    {
        bool s = rt::g_in_triangle;
        rt::g_in_triangle = true;
        void* p = rt::g_kernel ? rt::kalloc(n) : __real_malloc(n);
        rt::g_in_triangle = s;
        return p;
    }
    void tri_free(void* p) { operator delete(p); }
    void tri_exit(int c)
    {
        rt::fail(rt::kTerminate, "exit-from-triangle", "the triangulation library called exit(%d) inside call %s", c, rt::g_opname);
    }
    void __wrap_exit(int c)
    {
        if (rt::g_kernel)
        {
            rt::fail(rt::kTerminate, "exit", "exit(%d) inside call %s", c, rt::g_opname);
        }
        __real_exit(c);
    }
    void __wrap_abort()
    {
        if (rt::g_kernel)
        {
            rt::fail(rt::kTerminate, "abort", "abort() inside call %s", rt::g_opname);
        }
        __real_abort();
    }
    void* __wrap_memcpy(void* d, const void* s, size_t n)
    {
        rt::access_range(s, n, false, __builtin_return_address(0));
        rt::access_range(d, n, true, __builtin_return_address(0));
        return __real_memcpy(d, s, n);
    }
    void* __wrap_memmove(void* d, const void* s, size_t n)
    {
        rt::access_range(s, n, false, __builtin_return_address(0));
        rt::access_range(d, n, true, __builtin_return_address(0));
        return __real_memmove(d, s, n);
    }
    void* __wrap_memset(void* d, int c, size_t n)
    {
        rt::access_range(d, n, true, __builtin_return_address(0));
        return __real_memset(d, c, n);
    }
    int __wrap_memcmp(const void* a, const void* b, size_t n)
    {
        rt::access_range(a, n, false, __builtin_return_address(0));
        rt::access_range(b, n, false, __builtin_return_address(0));
        return __real_memcmp(a, b, n);
    }
    void* __wrap___memcpy_chk(void* d, const void* s, size_t n, size_t) { return __wrap_memcpy(d, s, n); }
    void* __wrap___memmove_chk(void* d, const void* s, size_t n, size_t) { return __wrap_memmove(d, s, n); }
    void* __wrap___memset_chk(void* d, int c, size_t n, size_t) { return __wrap_memset(d, c, n); }
    int __wrap___cxa_guard_acquire(void* g)
    {
        int r = __real___cxa_guard_acquire(g);
        if (r)
        {
            ++rt::g_nopreempt;
        }
        return r;
    }
    void __wrap___cxa_guard_release(void* g)
    {
        --rt::g_nopreempt;
        __real___cxa_guard_release(g);
    }
    void __wrap___cxa_guard_abort(void* g)
    {
        --rt::g_nopreempt;
        __real___cxa_guard_abort(g);
    }
    int __wrap_pthread_mutex_lock(pthread_mutex_t* m)
    {
        if (rt::g_par && rt::g_cur >= 0)
        {
            while (__real_pthread_mutex_trylock(m) != 0)
            {
                rt::yield_to_sched();
            }
            rt::g_lockdepth[rt::g_cur]++;
            return 0;
        }
        return __real_pthread_mutex_lock(m);
    }

    int __wrap_pthread_mutex_unlock(pthread_mutex_t* m)
    {
        if (rt::g_par && rt::g_cur >= 0 && rt::g_lockdepth[rt::g_cur] > 0)
        {
            rt::g_lockdepth[rt::g_cur]--;
        }
        return __real_pthread_mutex_unlock(m);
    }

    // ================================================================= libgomp surface
    void GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned)
    {
        rt::run_team(fn, data, n, nullptr);
    }
    int omp_get_thread_num() { return rt::g_cur >= 0 ? rt::g_cur : 0; }
    int omp_get_num_threads() { return rt::g_parregion ? rt::g_team : 1; }
    int omp_get_max_threads() { return rt::g_sp.threads; }
    int omp_get_num_procs() { return rt::g_sp.threads; }
    int omp_in_parallel() { return rt::g_par; }
    int omp_get_level() { return rt::g_parregion; }
    int omp_get_thread_limit() { return rt::MAXT; }
    void omp_set_num_threads(int) {}
    void omp_set_dynamic(int) {}
    void omp_set_nested(int) {}
    double omp_get_wtime() { return static_cast<double>(rt::g_steps) * 1e-9; }
    void GOMP_barrier() { rt::barrier(); }
    static int g_crit = 0;
    static void depth(int d)
    {
        if (rt::g_cur >= 0)
        {
            rt::g_lockdepth[rt::g_cur] += d;
        }
    }
    static void crit_lock()
    {
        if (rt::g_cur < 0)
        {
            return;
        }
        while (g_crit)
        {
            rt::yield_to_sched();
        }
        g_crit = 1;
        depth(1);
    }
    void GOMP_critical_start() { crit_lock(); }
    void GOMP_critical_end()
    {
        g_crit = 0;
        depth(-1);
    }
    void GOMP_critical_name_start(void** p)
    {
        if (rt::g_cur < 0)
        {
            return;
        }
        while (*p)
        {
            rt::yield_to_sched();
        }
        *p = p;
        depth(1);
    }
    void GOMP_critical_name_end(void** p)
    {
        *p = nullptr;
        depth(-1);
    }
    static int g_atom = 0;
    void GOMP_atomic_start()
    {
        if (rt::g_cur < 0)
        {
            return;
        }
        while (g_atom)
        {
            rt::yield_to_sched();
        }
        g_atom = 1;
        depth(1);
    }
    void GOMP_atomic_end()
    {
        g_atom = 0;
        depth(-1);
    }
    bool GOMP_single_start()
    {
        if (rt::g_cur < 0)
        {
            return true;
        }
        unsigned s = rt::g_fib[rt::g_cur].singleseq++ % rt::NWORK;
        if (rt::g_single_taken[s])
        {
            return false;
        }
        rt::g_single_taken[s] = true;
        return true;
    }
    typedef struct
    {
        int v;
    } sim_lock_t;
    void omp_init_lock(void* l) { static_cast<sim_lock_t*>(l)->v = 0; }
    void omp_destroy_lock(void*) {}
    void omp_set_lock(void* l)
    {
        while (static_cast<sim_lock_t*>(l)->v)
        {
            if (rt::g_cur < 0)
            {
                break;
            }
            rt::yield_to_sched();
        }
        static_cast<sim_lock_t*>(l)->v = 1;
        depth(1);
    }
    void omp_unset_lock(void* l)
    {
        static_cast<sim_lock_t*>(l)->v = 0;
        depth(-1);
    }

    static bool loop_next(long* is, long* ie)
    {
        rt::Work& w = rt::cur_work();
        if (w.incr > 0 ? w.next >= w.end : w.next <= w.end)
        {
            return false;
        }
        long c = w.chunk > 0 ? w.chunk : 1;
        *is = w.next;
        long e = w.next + c * w.incr;
        if (w.incr > 0 ? e > w.end : e < w.end)
        {
            e = w.end;
        }
        *ie = e;
        w.next = e;
        if (rt::g_par && rt::g_cur >= 0)
        {
            rt::yield_to_sched(); // who takes the next chunk is the scheduler's decision
        }
        return true;
    }
    static bool loop_start(long s, long e, long i, long c, long* is, long* ie)
    {
        rt::Work& w = rt::cur_work();
        if (!w.init)
        {
            w = rt::Work{};
            w.init = true;
            w.next = s;
            w.end = e;
            w.incr = i;
            w.chunk = c;
            if (c == 0)
            {
                long n = i > 0 ? (e - s + i - 1) / i : (s - e - i - 1) / -i;
                w.chunk = (n + rt::g_team - 1) / (rt::g_team ? rt::g_team : 1);
            }
        }
        return loop_next(is, ie);
    }
    static void loop_end_nowait()
    {
        if (rt::g_cur >= 0)
        {
            rt::Work& w = rt::cur_work();
            rt::g_fib[rt::g_cur].wsseq++;
            if (++w.finished == rt::g_team)
            {
                w = rt::Work{};
            }
        }
        else
        {
            rt::cur_work() = rt::Work{};
        }
    }
#define LOOPV(kind)                                                                                                               \
    bool GOMP_loop_##kind##_start(long s, long e, long i, long c, long* is, long* ie) { return loop_start(s, e, i, c, is, ie); }   \
    bool GOMP_loop_##kind##_next(long* is, long* ie) { return loop_next(is, ie); }                                                 \
    void GOMP_parallel_loop_##kind(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, long c, unsigned)               \
    {                                                                                                                             \
        rt::Work w{};                                                                                                             \
        w.init = true;                                                                                                            \
        w.next = s;                                                                                                               \
        w.end = e;                                                                                                                \
        w.incr = i;                                                                                                               \
        w.chunk = c > 0 ? c : 1;                                                                                                  \
        rt::run_team(fn, d, n, &w);                                                                                               \
    }
    LOOPV(static)
    LOOPV(dynamic)
    LOOPV(guided)
    LOOPV(nonmonotonic_dynamic)
    LOOPV(nonmonotonic_guided)
#define LOOPR(kind)                                                                                                              \
    bool GOMP_loop_##kind##_start(long s, long e, long i, long* is, long* ie) { return loop_start(s, e, i, 0, is, ie); }          \
    bool GOMP_loop_##kind##_next(long* is, long* ie) { return loop_next(is, ie); }                                                \
    void GOMP_parallel_loop_##kind(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, unsigned)                      \
    {                                                                                                                            \
        rt::Work w{};                                                                                                            \
        w.init = true;                                                                                                           \
        w.next = s;                                                                                                              \
        w.end = e;                                                                                                               \
        w.incr = i;                                                                                                              \
        w.chunk = 1;                                                                                                             \
        rt::run_team(fn, d, n, &w);                                                                                              \
    }
    LOOPR(runtime)
    LOOPR(nonmonotonic_runtime)
    LOOPR(maybe_nonmonotonic_runtime)
    void GOMP_loop_end_nowait() { loop_end_nowait(); }
    void GOMP_loop_end()
    {
        loop_end_nowait();
        rt::barrier();
    }
    static bool uloop_next(unsigned long long* is, unsigned long long* ie)
    {
        rt::Work& w = rt::cur_work();
        if (w.unext >= w.uend)
        {
            return false;
        }
        unsigned long long c = w.uchunk ? w.uchunk : 1;
        *is = w.unext;
        unsigned long long e = w.unext + c * w.uincr;
        if (e > w.uend)
        {
            e = w.uend;
        }
        *ie = e;
        w.unext = e;
        if (rt::g_par && rt::g_cur >= 0)
        {
            rt::yield_to_sched();
        }
        return true;
    }
    static bool uloop_start(bool, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long c, unsigned long long* is, unsigned long long* ie)
    {
        rt::Work& w = rt::cur_work();
        if (!w.init)
        {
            w = rt::Work{};
            w.init = true;
            w.unext = s;
            w.uend = e;
            w.uincr = i;
            w.uchunk = c;
        }
        return uloop_next(is, ie);
    }
#define ULOOP(kind)                                                                                                              \
    bool GOMP_loop_ull_##kind##_start(bool up, unsigned long long s, unsigned long long e, unsigned long long i,                  \
                                      unsigned long long c, unsigned long long* is, unsigned long long* ie)                       \
    {                                                                                                                            \
        return uloop_start(up, s, e, i, c, is, ie);                                                                              \
    }                                                                                                                            \
    bool GOMP_loop_ull_##kind##_next(unsigned long long* is, unsigned long long* ie) { return uloop_next(is, ie); }
    ULOOP(static)
    ULOOP(dynamic)
    ULOOP(guided)
    ULOOP(nonmonotonic_dynamic)
    ULOOP(nonmonotonic_guided)
    // sections as a loop over section numbers
    unsigned GOMP_sections_next()
    {
        long a, b;
        return loop_next(&a, &b) ? static_cast<unsigned>(a) : 0;
    }
    unsigned GOMP_sections_start(unsigned n)
    {
        long a, b;
        return loop_start(1, static_cast<long>(n) + 1, 1, 1, &a, &b) ? static_cast<unsigned>(a) : 0;
    }
    void GOMP_sections_end() { GOMP_loop_end(); }
    void GOMP_sections_end_nowait() { loop_end_nowait(); }
    void GOMP_parallel_sections(void (*fn)(void*), void* d, unsigned n, unsigned count, unsigned)
    {
        rt::Work w{};
        w.init = true;
        w.next = 1;
        w.end = static_cast<long>(count) + 1;
        w.incr = 1;
        w.chunk = 1;
        rt::run_team(fn, d, n, &w);
    }
    void GOMP_task(void (*fn)(void*), void* data, void (*cpy)(void*, void*), long size, long align, bool, unsigned, void**, int, void*)
    {
        if (cpy)
        {
            char buf[4096] __attribute__((aligned(64)));
            if (size > 4000)
            {
                rt::fail(rt::kHarness, "harness", "task argument too large");
            }
            char* p = reinterpret_cast<char*>((reinterpret_cast<uintptr_t>(buf) + static_cast<uintptr_t>(align) - 1) & ~(static_cast<uintptr_t>(align) - 1));
            cpy(p, data);
            fn(p);
        }
        else
        {
            fn(data);
        }
    }
    void GOMP_taskwait() {}

    // ================================================================= instrumentation callbacks
    void __tsan_init() {}
    void __tsan_func_entry(void*) {}
    void __tsan_func_exit() {}
#define RW(n)                                                                                        \
    void __tsan_read##n(void* a) { rt::access(a, n, false, __builtin_return_address(0)); }           \
    void __tsan_write##n(void* a) { rt::access(a, n, true, __builtin_return_address(0)); }           \
    void __tsan_unaligned_read##n(void* a) { rt::access(a, n, false, __builtin_return_address(0)); } \
    void __tsan_unaligned_write##n(void* a) { rt::access(a, n, true, __builtin_return_address(0)); } \
    void __tsan_volatile_read##n(void* a) { rt::access(a, n, false, __builtin_return_address(0)); }  \
    void __tsan_volatile_write##n(void* a) { rt::access(a, n, true, __builtin_return_address(0)); }
    RW(1)
    RW(2)
    RW(4)
    RW(8)
    RW(16)
    void __tsan_read_range(void* a, unsigned long n) { rt::access_range(a, n, false, __builtin_return_address(0)); }
    void __tsan_write_range(void* a, unsigned long n) { rt::access_range(a, n, true, __builtin_return_address(0)); }
    void __tsan_vptr_update(void** a, void*) { rt::access(a, 8, true, __builtin_return_address(0)); }
    void __tsan_vptr_read(void** a) { rt::access(a, 8, false, __builtin_return_address(0)); }
#define AT(bits, T)                                                                                                              \
    T __tsan_atomic##bits##_load(const volatile T* a, int)                                                                       \
    {                                                                                                                            \
        rt::access(const_cast<T*>(a), sizeof(T), false, __builtin_return_address(0));                                            \
        return *a;                                                                                                               \
    }                                                                                                                            \
    void __tsan_atomic##bits##_store(volatile T* a, T v, int)                                                                    \
    {                                                                                                                            \
        rt::access(const_cast<T*>(a), sizeof(T), true, __builtin_return_address(0));                                             \
        *a = v;                                                                                                                  \
    }                                                                                                                            \
    T __tsan_atomic##bits##_exchange(volatile T* a, T v, int)                                                                    \
    {                                                                                                                            \
        rt::access(const_cast<T*>(a), sizeof(T), true, __builtin_return_address(0));                                             \
        T o = *a;                                                                                                                \
        *a = v;                                                                                                                  \
        return o;                                                                                                                \
    }                                                                                                                            \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int, int)                                        \
    {                                                                                                                            \
        rt::access(const_cast<T*>(a), sizeof(T), true, __builtin_return_address(0));                                             \
        if (*a == *c)                                                                                                            \
        {                                                                                                                        \
            *a = v;                                                                                                              \
            return 1;                                                                                                            \
        }                                                                                                                        \
        *c = *a;                                                                                                                 \
        return 0;                                                                                                                \
    }                                                                                                                            \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int m, int f)                                      \
    {                                                                                                                            \
        return __tsan_atomic##bits##_compare_exchange_strong(a, c, v, m, f);                                                     \
    }                                                                                                                            \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T c, T v, int, int)                                              \
    {                                                                                                                            \
        rt::access(const_cast<T*>(a), sizeof(T), true, __builtin_return_address(0));                                             \
        T o = *a;                                                                                                                \
        if (o == c)                                                                                                              \
        {                                                                                                                        \
            *a = v;                                                                                                              \
        }                                                                                                                        \
        return o;                                                                                                                \
    }
#define ATOP(bits, T, name, expr)                                                                     \
    T __tsan_atomic##bits##_fetch_##name(volatile T* a, T v, int)                                     \
    {                                                                                                 \
        rt::access(const_cast<T*>(a), sizeof(T), true, __builtin_return_address(0));                  \
        T o = *a;                                                                                     \
        *a = static_cast<T>(expr);                                                                    \
        return o;                                                                                     \
    }
#define ATALL(bits, T)            \
    AT(bits, T)                   \
    ATOP(bits, T, add, o + v)     \
    ATOP(bits, T, sub, o - v)     \
    ATOP(bits, T, and, o & v)     \
    ATOP(bits, T, or, o | v)      \
    ATOP(bits, T, xor, o ^ v)     \
    ATOP(bits, T, nand, ~(o & v))
    ATALL(8, unsigned char)
    ATALL(16, unsigned short)
    ATALL(32, unsigned int)
    ATALL(64, unsigned long)
    void __tsan_atomic_thread_fence(int) {}
    void __tsan_atomic_signal_fence(int) {}
}
