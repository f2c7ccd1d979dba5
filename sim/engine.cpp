#include "engine.hpp"
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>

namespace sim
{
    Stats* g_stats = nullptr;
    void statState(uint64_t h)
    {
        if (g_stats->nstate < MAXH)
        {
            g_stats->state[g_stats->nstate++] = h;
        }
    }
    void statInter(uint64_t h)
    {
        if (g_stats->ninter < MAXH)
        {
            g_stats->inter[g_stats->ninter++] = h;
        }
    }

    // ------------------------------------------------------------------ trace text
    std::string opText(const OpSpec& o)
    {
        std::ostringstream s;
        s << "op " << o.client << " " << o.name << " " << o.seed;
        if (o.bad)
        {
            s << " bad=1";
        }
        if (o.fault >= 0)
        {
            s << " fault=" << o.fault;
        }
        if (o.sticky)
        {
            s << " sticky=1";
        }
        if (o.threads != 1)
        {
            s << " threads=" << o.threads << " sched=" << o.sched << " mode=" << o.mode << " period=" << o.period;
        }
        return s.str();
    }
    std::string traceText(const Trace& t)
    {
        std::ostringstream s;
        s << "mode " << t.mode << "\nseed " << t.seed << "\n";
        for (const auto& [k, v] : t.par)
        {
            s << "param " << k << " " << v << "\n";
        }
        for (const OpSpec& o : t.ops)
        {
            s << opText(o) << "\n";
        }
        return s.str();
    }
    bool parseTrace(const std::string& text, Trace& t)
    {
        std::istringstream in(text);
        std::string line;
        while (std::getline(in, line))
        {
            if (line.empty() || line[0] == '#')
            {
                continue;
            }
            std::istringstream l(line);
            std::string k;
            l >> k;
            if (k == "mode")
            {
                l >> t.mode;
            }
            else if (k == "seed")
            {
                l >> t.seed;
            }
            else if (k == "param")
            {
                std::string n;
                int64_t v;
                l >> n >> v;
                t.par[n] = v;
            }
            else if (k == "op")
            {
                OpSpec o;
                l >> o.client >> o.name >> o.seed;
                std::string kv;
                while (l >> kv)
                {
                    size_t e = kv.find('=');
                    if (e == std::string::npos)
                    {
                        return false;
                    }
                    std::string n = kv.substr(0, e);
                    long long v = std::atoll(kv.c_str() + e + 1);
                    if (n == "bad")
                    {
                        o.bad = v;
                    }
                    else if (n == "fault")
                    {
                        o.fault = v;
                    }
                    else if (n == "sticky")
                    {
                        o.sticky = v;
                    }
                    else if (n == "threads")
                    {
                        o.threads = static_cast<int>(v);
                    }
                    else if (n == "sched")
                    {
                        o.sched = static_cast<uint64_t>(v);
                    }
                    else if (n == "mode")
                    {
                        o.mode = static_cast<int>(v);
                    }
                    else if (n == "period")
                    {
                        o.period = static_cast<int>(v);
                    }
                    else
                    {
                        return false;
                    }
                }
                if (!findOp(o.name))
                {
                    return false;
                }
                t.ops.push_back(o);
            }
            else
            {
                return false;
            }
        }
        return true;
    }

    // ------------------------------------------------------------------ hashing
    static void mixb(uint64_t& h, const void* p, size_t n)
    {
        const uint8_t* b = static_cast<const uint8_t*>(p);
        for (size_t i = 0; i < n; ++i)
        {
            h = (h ^ b[i]) * 1099511628211ull;
        }
    }
    uint64_t hashOut(const Out& o, const World& w)
    {
        uint64_t h = 1469598103934665603ull;
        for (int r : o.rc)
        {
            mixb(h, &r, sizeof r);
        }
        // a call that failed says nothing about the buffers it was given
        bool failed = std::any_of(o.rc.begin(), o.rc.end(), [](int r) { return r != 0; });
        for (double v : failed ? std::vector<double>{} : o.v)
        {
            if (v == 0)
            {
                v = 0;
            }
            mixb(h, &v, sizeof v);
        }
        int u = o.undone;
        mixb(h, &u, sizeof u);
        // error texts may carry addresses or ids: only their presence counts here
        int e = !o.errmsg.empty();
        mixb(h, &e, sizeof e);
        (void)w;
        return h;
    }
    std::vector<double> flatten(const Snap& s)
    {
        std::vector<double> r;
        auto av = [&](const auto& v)
        {
            r.push_back(static_cast<double>(v.size()));
            for (auto k : v)
            {
                r.push_back(static_cast<double>(k));
            }
        };
        r.push_back(s.exists);
        r.push_back(s.proj);
        av(s.m2.x);
        av(s.m2.y);
        av(s.m2.en);
        av(s.m2.fn);
        av(s.m2.npf);
        av(s.m2.fe);
        av(s.m2.ef);
        av(s.m2.ex);
        av(s.m2.ey);
        av(s.m2.fx);
        av(s.m2.fy);
        av(s.m1.x);
        av(s.m1.y);
        av(s.m1.en);
        av(s.neta.x);
        av(s.netb.x);
        av(s.cg.x);
        av(s.cg.y);
        av(s.c1);
        av(s.c2);
        av(s.codes);
        return r;
    }

    std::vector<double> flattenOut(const Out& o)
    {
        std::vector<double> r;
        for (int c : o.rc)
        {
            r.push_back(c);
        }
        r.push_back(-7);
        if (std::all_of(o.rc.begin(), o.rc.end(), [](int c) { return c == 0; }))
        {
            r.insert(r.end(), o.v.begin(), o.v.end());
        }
        r.push_back(o.undone);
        return r;
    }
    std::vector<double> flattenWorld(const WorldSnap& w, bool counts)
    {
        std::vector<double> r;
        for (const Snap& s : w.s)
        {
            std::vector<double> f = flatten(s);
            r.insert(r.end(), f.begin(), f.end());
            if (counts)
            {
                r.push_back(s.com);
                r.push_back(s.res);
            }
        }
        if (counts)
        {
            r.push_back(w.com);
            r.push_back(w.res);
        }
        return r;
    }

    // ------------------------------------------------------------------ execution
    void Exec::run()
    {
        static std::map<std::string, int> opIndex;
        if (opIndex.empty())
        {
            int i = 0;
            for (const OpDef& d : catalogue())
            {
                opIndex[d.name] = i++;
            }
        }
        w.clients = static_cast<int>(t.p("clients", 1));
        w.known = t.p("known", 0) != 0;
        int cap = static_cast<int>(t.p("cap", 50));
        {
            rt::KernelScope k;
            mk::mkernel_set_undo_size(cap);
        }
        w.undoCap = cap;
        if (oracle)
        {
            oracle->start(*this);
        }
        for (size_t i = 0;; ++i)
        {
            OpSpec op;
            if (gen)
            {
                if (!gen->next(w, t, op))
                {
                    break;
                }
                t.ops.push_back(op);
                if (sink)
                {
                    sink(opText(op) + "\n");
                }
            }
            else
            {
                if (i >= t.ops.size())
                {
                    break;
                }
                op = t.ops[i];
                if (filter && !filter(i, op))
                {
                    continue;
                }
                if (rewrite)
                {
                    op = rewrite(i, op);
                }
            }
            rt::g_op = static_cast<int>(i);
            const OpDef* d = findOp(op.name);
            WorldSnap before = w.snap;
            if (oracle)
            {
                oracle->before(*this, op, *d);
            }
            Out out;
            uint64_t st0 = rt::g_steps;
            rt::SchedStats ss0 = rt::sched_stats();
            perform(w, op, out);
            if (repeatQueries && (d->flags & fQ) && !out.skipped)
            {
                Out again;
                perform(w, op, again);
                g_stats->compares++;
                if (hashOut(out, w) != hashOut(again, w))
                {
                    rt::fail(rt::kViolation, ("query-repeat:" + (out.api.empty() ? std::string("?") : out.api.back())).c_str(), "%s gives another answer the second time", out.api.empty() ? "?" : out.api.back().c_str());
                }
            }
            rt::SchedStats ss = rt::sched_stats();
            g_stats->steps += rt::g_steps - st0;
            int oi = opIndex[op.name];
            g_stats->ops++;
            if (oi < MAXOPS)
            {
                g_stats->opcount[oi]++;
            }
            if (!out.skipped)
            {
                g_stats->applied++;
                bool fail = false;
                for (int r : out.rc)
                {
                    fail = fail || r != 0;
                    if (r >= 0 && r < 16)
                    {
                        g_stats->codes[r]++;
                    }
                }
                g_stats->failed += fail;
                g_stats->faults += out.fired;
                g_stats->bad += op.bad;
                g_stats->badFailed += op.bad && fail;
                if (oi < MAXOPS)
                {
                    (fail ? g_stats->opfail : g_stats->opok)[oi]++;
                    g_stats->opfault[oi] += out.fired;
                }
                if (ss.regions != ss0.regions)
                {
                    g_stats->regions += ss.regions - ss0.regions;
                    g_stats->switches += ss.switches - ss0.switches;
                    g_stats->conflicts += ss.conflicts - ss0.conflicts;
                    statInter(ss.hash);
                }
            }
            WorldSnap now = observe(w);
            g_stats->observations++;
            w.snap = now;
            for (const Snap& s : now.s)
            {
                if (s.exists)
                {
                    statState(hashSnap(s));
                }
            }
            uint64_t ho = hashOut(out, w);
            g_stats->runHash = rt::mix(g_stats->runHash, ho);
            uint64_t hw = 7;
            for (const Snap& s : now.s)
            {
                hw = rt::mix(hw, hashSnap(s));
            }
            g_stats->runHash = rt::mix(g_stats->runHash, hw);
            g_stats->runHash = rt::mix(g_stats->runHash, static_cast<uint64_t>(now.com) * 1000 + static_cast<uint64_t>(now.res));
            if (op.name == "c_undo")
            {
                g_stats->undos += out.undone;
            }
            if (op.name == "c_redo")
            {
                g_stats->redos += out.undone;
            }
            if (log)
            {
                if (log->n >= 4000)
                {
                    rt::fail(rt::kHarness, "harness", "log overflow");
                }
                LogEntry& e = log->e[log->n++];
                e = LogEntry();
                e.index = static_cast<int>(i);
                e.client = op.client;
                e.slot = out.slot;
                e.undone = out.undone;
                e.undoneSlot = out.undone ? w.slotOfId(out.undoneId) : -1;
                e.applied = !out.skipped;
                e.out = ho;
                int sl = out.slot >= 0 ? out.slot : e.undoneSlot;
                e.snap = sl >= 0 ? hashSnap(now.s[static_cast<size_t>(sl)]) : 0;
                e.world = hw;
                e.owner = e.undone && e.undoneSlot >= 0 ? w.slots[static_cast<size_t>(e.undoneSlot)].client : op.client;
                e.own = 7;
                for (size_t q = 0; q < now.s.size(); ++q)
                {
                    if (w.slots[q].client == e.owner)
                    {
                        e.own = rt::mix(e.own, hashSnap(now.s[q]));
                    }
                }
                snprintf(e.what, sizeof e.what, "rc=%d n=%zu %s nn=%d ne=%d nf=%d", out.rc.empty() ? -1 : out.rc.back(), out.v.size(), out.skipped ? "skipped" : "",
                         sl >= 0 ? now.s[static_cast<size_t>(sl)].m2.nn() : -1, sl >= 0 ? now.s[static_cast<size_t>(sl)].m2.ne() : -1, sl >= 0 ? now.s[static_cast<size_t>(sl)].m2.nf() : -1);
            }
            if (oracle)
            {
                oracle->after(*this, op, *d, out, before, now);
            }
            if (getenv("SIM_TRACE"))
            {
                fprintf(stderr, "%zu %s slot=%d rc=", i, opText(op).c_str(), out.slot);
                for (int r : out.rc)
                {
                    fprintf(stderr, "%d ", r);
                }
                fprintf(stderr, "%s%s undone=%d id=%d com=%d res=%d %s allocs=%lu h=%lx\n", out.skipped ? "skipped " : "", out.fired ? "FAULT " : "", out.undone, out.undoneId, now.com, now.res, out.errmsg.substr(0, 90).c_str(), out.allocs, hw);
                if (getenv("SIM_TRACE")[0] == '2')
                {
                    for (const Snap& s : now.s)
                    {
                        fprintf(stderr, "    proj=%d nn=%d/%d ne=%d/%d nf=%d cg=%dx%d m1=%zu net=%zu con=%zu com=%d res=%d\n", s.proj, s.m2.nvn, s.m2.nn(), s.m2.nve, s.m2.ne(), s.m2.nf(), s.cg.n, s.cg.m, s.m1.x.size(), s.netb.x.size(), s.c1.size(), s.com, s.res);
                    }
                }
            }
        }
        rt::g_op = -1;
        if (oracle)
        {
            oracle->end(*this);
        }
        if (log)
        {
            for (int c = 0; c < w.clients; ++c)
            {
                LogEntry& e = log->e[log->n++];
                e = LogEntry();
                e.index = -1;
                e.client = e.owner = c;
                e.own = 7;
                e.undoneSlot = -1;
                e.slot = -1;
                for (size_t q = 0; q < w.snap.s.size(); ++q)
                {
                    if (w.slots[q].client == c)
                    {
                        e.own = rt::mix(e.own, hashSnap(w.snap.s[q]));
                    }
                }
                strcpy(e.what, "end of run");
            }
            log->done = 1;
        }
    }

    // ------------------------------------------------------------------ processes
    static char* g_sink = nullptr;
    static size_t* g_sinkn = nullptr;
    static constexpr size_t SINKN = 1 << 20;
    static void sinkText(const std::string& s)
    {
        if (*g_sinkn + s.size() < SINKN)
        {
            memcpy(g_sink + *g_sinkn, s.data(), s.size());
            *g_sinkn += s.size();
        }
    }
    template <typename T>
    static T* shm(size_t n = 1)
    {
        void* p = mmap(nullptr, sizeof(T) * n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (p == MAP_FAILED)
        {
            perror("mmap");
            _exit(3);
        }
        return static_cast<T*>(p);
    }
    std::string sinkContents() { return std::string(g_sink, *g_sinkn); }
    static double now()
    {
        timespec t;
        clock_gettime(CLOCK_MONOTONIC, &t);
        return static_cast<double>(t.tv_sec) + 1e-9 * static_cast<double>(t.tv_nsec);
    }

    static std::string sym(void* pc)
    {
        char b[40];
        snprintf(b, sizeof b, "%p", pc);
        return b;
    }
    static std::string jstr(const std::string& s)
    {
        std::string r = "\"";
        for (char c : s)
        {
            if (c == '"' || c == '\\')
            {
                r += '\\';
                r += c;
            }
            else if (c == '\n')
            {
                r += "\\n";
            }
            else if (static_cast<unsigned char>(c) < 32 || static_cast<unsigned char>(c) > 126)
            {
                r += '?';
            }
            else
            {
                r += c;
            }
        }
        return r + "\"";
    }

    // Execute one run in a child. Returns the kind of failure (0: none); the trace text is in g_sink.
    static int oneRun(Trace& t, bool generate, double timeout)
    {
        memset(static_cast<void*>(g_stats), 0, sizeof *g_stats);
        memset(static_cast<void*>(rt::g_report), 0, sizeof *rt::g_report);
        *g_sinkn = 0;
        fflush(stdout);
        pid_t pid = fork();
        if (pid == 0)
        {
            setpgid(0, 0);
            rlimit rl{static_cast<rlim_t>(timeout), static_cast<rlim_t>(timeout) + 2};
            setrlimit(RLIMIT_CPU, &rl);
            if (generate)
            {
                Generator g(t.mode, t.seed);
                g.params(t);
                std::string hdr = traceText(t);
                sinkText(hdr);
                runMode(t, &g, sinkText);
            }
            else
            {
                runMode(t, nullptr, {});
            }
            _exit(0);
        }
        if (pid < 0)
        {
            perror("fork");
            exit(3);
        }
        int st = 0;
        while (waitpid(pid, &st, 0) < 0)
        {
        }
        kill(-pid, SIGKILL);
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0)
        {
            return 0;
        }
        if (rt::g_report->kind == rt::kNone)
        {
            if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGKILL))
            {
                rt::g_report->kind = rt::kHarness;
                strcpy(rt::g_report->cls, "harness-timeout");
                snprintf(rt::g_report->msg, sizeof rt::g_report->msg, "run exceeded its processor time (signal %d)", WTERMSIG(st));
            }
            else
            {
                rt::g_report->kind = rt::kCrash;
                strcpy(rt::g_report->cls, "crash:unreported");
                snprintf(rt::g_report->msg, sizeof rt::g_report->msg, "run process ended with status %d", st);
            }
        }
        return rt::g_report->kind;
    }

    static std::string failJson(int kind)
    {
        std::ostringstream o;
        o << "{\"kind\":" << kind << ",\"cls\":" << jstr(rt::g_report->cls) << ",\"msg\":" << jstr(rt::g_report->msg) << ",\"op\":" << rt::g_report->op << ",\"hash\":" << jstr(std::to_string(g_stats->runHash)) << ",\"pcs\":[";
        for (int i = 0; i < rt::g_report->npc; ++i)
        {
            o << (i ? "," : "") << jstr(sym(rt::g_report->pc[i]));
        }
        o << "]}";
        return o.str();
    }

    static int cmdSearch(int argc, char** argv)
    {
        // search MODE SEED WORKER NWORKERS SECONDS OUTDIR MAXFAIL [MAXRUNS]
        if (argc < 9)
        {
            return 3;
        }
        std::string mode = argv[2];
        uint64_t seed = strtoull(argv[3], nullptr, 10);
        uint64_t worker = strtoull(argv[4], nullptr, 10), nw = strtoull(argv[5], nullptr, 10);
        double secs = atof(argv[6]);
        std::string dir = argv[7];
        int maxfail = atoi(argv[8]);
        uint64_t maxruns = argc > 9 ? strtoull(argv[9], nullptr, 10) : ~0ull;
        double t0 = now();
        uint64_t runs = 0, fails = 0;
        static Stats tot;
        memset(static_cast<void*>(&tot), 0, sizeof tot);
        std::unordered_set<uint64_t> states, inters, hist;
        std::set<std::string> seen;
        for (uint64_t i = worker; runs < maxruns && now() - t0 < secs; i += nw)
        {
            Trace t;
            t.mode = mode;
            t.seed = rt::mix(rt::mix(seed, std::hash<std::string>()(mode) & 0xffff), i) >> 8;
            int k = oneRun(t, true, 120);
            ++runs;
            for (int q = 0; q < g_stats->nstate; ++q)
            {
                states.insert(g_stats->state[q]);
            }
            for (int q = 0; q < g_stats->ninter; ++q)
            {
                inters.insert(g_stats->inter[q]);
            }
            hist.insert(g_stats->runHash);
#define ADD(x) tot.x += g_stats->x
            ADD(ops);
            ADD(applied);
            ADD(failed);
            ADD(forks);
            ADD(observations);
            ADD(faults);
            ADD(bad);
            ADD(badFailed);
            ADD(steps);
            ADD(regions);
            ADD(switches);
            ADD(conflicts);
            ADD(par);
            ADD(compares);
            ADD(preempts);
            ADD(undos);
            ADD(redos);
            for (int q = 0; q < MAXOPS; ++q)
            {
                ADD(opcount[q]);
                ADD(opok[q]);
                ADD(opfail[q]);
                ADD(opfault[q]);
            }
            for (int q = 0; q < 16; ++q)
            {
                ADD(codes[q]);
            }
            if (k)
            {
                ++fails;
                std::string cls = rt::g_report->cls;
                if (seen.insert(cls).second)
                {
                    std::string f = dir + "/fail-" + mode + "-" + std::to_string(worker) + "-" + std::to_string(runs) + ".trace";
                    std::ofstream(f) << std::string(g_sink, *g_sinkn);
                    printf("FAIL %s %lu %s\n", f.c_str(), i, failJson(k).c_str());
                    fflush(stdout);
                    if (static_cast<int>(seen.size()) >= maxfail)
                    {
                        break;
                    }
                }
            }
        }
        std::string hf = dir + "/hash-" + mode + "-" + std::to_string(worker) + ".bin";
        {
            std::ofstream o(hf, std::ios::binary);
            uint64_t n[3] = {states.size(), inters.size(), hist.size()};
            o.write(reinterpret_cast<char*>(n), sizeof n);
            for (auto* s : {&states, &inters, &hist})
            {
                for (uint64_t h : *s)
                {
                    o.write(reinterpret_cast<const char*>(&h), sizeof h);
                }
            }
        }
        printf("DONE {\"runs\":%lu,\"fails\":%lu,\"secs\":%.3f,\"ops\":%lu,\"applied\":%lu,\"failed\":%lu,\"observations\":%lu,\"faults\":%lu,\"bad\":%lu,\"badFailed\":%lu,\"steps\":%lu,\"regions\":%lu,\"switches\":%lu,\"conflicts\":%lu,\"par\":%lu,\"compares\":%lu,\"undos\":%lu,\"redos\":%lu,\"forks\":%lu,\"preempts\":%lu",
               runs, fails, now() - t0, tot.ops, tot.applied, tot.failed, tot.observations, tot.faults, tot.bad, tot.badFailed, tot.steps, tot.regions, tot.switches, tot.conflicts, tot.par, tot.compares, tot.undos, tot.redos, tot.forks, tot.preempts);
        printf(",\"codes\":{");
        bool first = true;
        for (int q = 0; q < 16; ++q)
        {
            if (tot.codes[q])
            {
                printf("%s\"%d\":%u", first ? "" : ",", q, tot.codes[q]);
                first = false;
            }
        }
        printf("},\"opstats\":{");
        first = true;
        const auto& cat = catalogue();
        for (size_t q = 0; q < cat.size(); ++q)
        {
            if (tot.opcount[q])
            {
                printf("%s\"%s\":[%u,%u,%u]", first ? "" : ",", cat[q].name.c_str(), tot.opok[q], tot.opfail[q], tot.opfault[q]);
                first = false;
            }
        }
        printf("}}\n");
        fflush(stdout);
        return 0;
    }

    static int cmdReplay(int argc, char** argv)
    {
        // replay FILE... : one line of result per file
        for (int a = 2; a < argc; ++a)
        {
            std::ifstream in(argv[a]);
            std::stringstream b;
            b << in.rdbuf();
            Trace t;
            if (!in || !parseTrace(b.str(), t))
            {
                printf("RESULT %s {\"kind\":%d,\"cls\":\"bad-trace\",\"msg\":\"\",\"op\":-1,\"hash\":\"0\",\"pcs\":[]}\n", argv[a], rt::kHarness);
                continue;
            }
            int k = oneRun(t, false, 240);
            printf("RESULT %s %s\n", argv[a], failJson(k).c_str());
            fflush(stdout);
        }
        return 0;
    }
    static int cmdGen(int argc, char** argv)
    {
        // gen MODE SEED INDEX : print the trace of one run of the search and its result
        if (argc < 5)
        {
            return 3;
        }
        Trace t;
        t.mode = argv[2];
        t.seed = rt::mix(rt::mix(strtoull(argv[3], nullptr, 10), std::hash<std::string>()(t.mode) & 0xffff), strtoull(argv[4], nullptr, 10)) >> 8;
        int k = oneRun(t, true, 240);
        std::cout << std::string(g_sink, *g_sinkn) << "# RESULT " << failJson(k) << "\n";
        return 0;
    }

    int mainImpl(int argc, char** argv)
    {
        if (argc < 2)
        {
            return 3;
        }
        rt::make_report();
        g_stats = shm<Stats>();
        g_sink = shm<char>(SINKN);
        g_sinkn = shm<size_t>();
        rt::HeapConfig hc{2, 12345, 0, size_t(8) << 20};
        rt::heap_init(hc);
        rt::install_handlers();
        catalogue();
        std::string c = argv[1];
        if (c == "search")
        {
            return cmdSearch(argc, argv);
        }
        if (c == "replay")
        {
            return cmdReplay(argc, argv);
        }
        if (c == "gen")
        {
            return cmdGen(argc, argv);
        }
        if (c == "ops")
        {
            for (const OpDef& d : catalogue())
            {
                printf("%s\n", d.name.c_str());
            }
            return 0;
        }
        return 3;
    }
} // namespace sim

int main(int argc, char** argv)
{
    int p = personality(0xffffffff);
    if (p != -1 && !(p & ADDR_NO_RANDOMIZE) && !getenv("SIM_NOASLR"))
    {
        setenv("SIM_NOASLR", "1", 1);
        if (personality(static_cast<unsigned long>(p) | ADDR_NO_RANDOMIZE) != -1)
        {
            execv("/proc/self/exe", argv);
        }
    }
    return sim::mainImpl(argc, argv);
}
