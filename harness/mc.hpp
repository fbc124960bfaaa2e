// Exhaustive-enumeration engine shared by the harnesses.
//
// A "space" is a finite set {0..n-1} of indices; every index decodes to one input, one operation
// history or one environment behaviour, and the body executes the real library on it and compares
// with a reference model.  Every index is executed (no sampling).  Bodies run in forked workers so
// that a crash, a std::terminate or an endless loop inside the library is itself an observation.
#pragma once
#include <sys/mman.h>
#include <sys/wait.h>
#include <signal.h>
#include <unistd.h>
#include <time.h>
#include <atomic>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <set>
#include <string>
#include <type_traits>
#include <vector>

namespace mc
{
typedef __int128 i128;
typedef unsigned __int128 u128;

inline std::string str(i128 v)
{
    if(v == 0) return "0";
    bool neg = v < 0;
    u128 u = neg ? u128(0) - u128(v) : u128(v);
    std::string s;
    while(u) { s.insert(s.begin(), char('0' + int(u % 10))); u /= 10; }
    return neg ? "-" + s : s;
}

inline double now()
{
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}

struct Ctx
{
    uint64_t states = 0; // distinct inputs enumerated
    uint64_t trans = 0; // calls of the implementation whose outcome was judged
    uint64_t valid = 0; // inputs for which the reference defines the outcome
    uint64_t aux = 0; // harness-specific (e.g. distinct outcomes)
    double peak = 0; // largest observed share of the permitted deviation
    uint64_t peak_at = 0, index = 0;
    bool want = false; // a sample is wanted for this index
    bool failed = false;
    char msg[1200];
    char note_[500];

    __attribute__((format(printf, 2, 3), noinline, cold)) void fail(const char* fmt, ...)
    {
        if(failed) return;
        failed = true;
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(msg, sizeof msg, fmt, ap);
        va_end(ap);
    }
    __attribute__((format(printf, 2, 3), noinline, cold)) void note(const char* fmt, ...)
    {
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(note_, sizeof note_, fmt, ap);
        va_end(ap);
    }
};

// judge one call of the implementation
#define MC_CHECK(c, cond, ...) \
    do {                                            \
        ++(c).trans;                                \
        if(!(cond)) [[unlikely]] (c).fail(__VA_ARGS__); \
    } while(0)

struct Slot
{
    volatile uint64_t cur, end, beat;
    volatile int busy;
    uint64_t states, trans, valid, aux;
    double peak;
    uint64_t peak_at;
    int failed;
    uint64_t failed_at, failed_from;
    char msg[1200];
    char note_[500];
};

struct Shared
{
    std::atomic<uint64_t> next;
    std::atomic<int> stop;
    Slot slot[64];
};

struct SpaceStat
{
    std::string name;
    uint64_t n = 0, states = 0, trans = 0, valid = 0, aux = 0, peak_at = 0;
    double peak = 0;
    std::string sample;
    double secs = 0;
};

class Run
{
public:
    std::string prop, tier = "quick", out, replay_space;
    uint64_t replay_index = 0;
    bool replay = false, thorough = false, violated = false, aborted = false;
    std::string v_space, v_msg;
    uint64_t v_index = 0, v_from = 0;
    std::vector<SpaceStat> stats;
    int workers = 8;
    uint64_t small_space = 4096; // fewer indices than this: one worker
    double hang_secs = 20, hang_alone = 60;

    Run(int argc, char** argv, const char* property)
        : prop(property)
    {
        for(int i = 1; i < argc; ++i)
        {
            std::string a = argv[i];
            if(a == "--tier") tier = argv[++i];
            else if(a == "--out") out = argv[++i];
            else if(a == "--workers") workers = atoi(argv[++i]);
            else if(a == "--replay") { replay = true; replay_space = argv[++i]; replay_index = strtoull(argv[++i], nullptr, 10); }
        }
        thorough = tier == "thorough";
    }

    // the body of a space, erased to keep the machinery below out of the templates:
    // run the indices [b, e), stop at the first failure, return the index reached
    struct Body
    {
        void* self;
        uint64_t (*loop)(void* self, uint64_t b, uint64_t e, uint64_t sample_at, Ctx& c, Slot& s);
    };

    // Run every index of the space.  Returns false as soon as a violation is known.
    template <class F>
    bool space(const std::string& name, uint64_t n, F&& f, int max_workers = 64)
    {
        using G = std::remove_reference_t<F>;
        return space_erased(name, n, Body{(void*)&f, [](void* self, uint64_t b, uint64_t e, uint64_t sample_at, Ctx& c, Slot& s) -> uint64_t {
            G& g = *(G*)self;
            uint64_t i = b;
            for(; i < e; ++i)
            {
                s.cur = i;
                s.beat = s.beat + 1;
                c.want = i == sample_at;
                c.index = i;
                ++c.states;
                g(i, c);
                if(c.failed) [[unlikely]] break;
            }
            return i;
        }}, max_workers);
    }

    __attribute__((noinline)) bool space_erased(const std::string& name, uint64_t n, Body f, int max_workers)
    {
        if(violated || aborted) return false;
        if(replay)
        {
            if(name == replay_space && replay_index < n)
            {
                Ctx c;
                c.want = true;
                c.note_[0] = 0;
                printf("replaying %s[%llu]\n", name.c_str(), (unsigned long long)replay_index);
                fflush(stdout);
                guarded(f, replay_index, c);
                printf("%s\n", c.note_);
                if(c.failed) { printf("FAILED: %s\n", c.msg); violated = true; }
                else printf("no violation\n");
            }
            return true;
        }
        if(n == 0) return true;
        if(!names.insert(name).second) { fprintf(stderr, "duplicate space %s\n", name.c_str()); exit(3); }
        double t0 = now();
        if(!sh) sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        int w = n < small_space ? 1 : workers;
        if(w > max_workers) w = max_workers;
        uint64_t chunk = n / (uint64_t(w) * 64) + 1;
        if(chunk > (1u << 16)) chunk = 1u << 16;
        memset((void*)sh, 0, sizeof(Shared));
        std::vector<pid_t> pid(w, 0);
        std::vector<uint64_t> seen(w, 0);
        std::vector<double> seen_t(w, now());
        fflush(nullptr);
        for(int k = 0; k < w; ++k) pid[k] = spawn(f, n, chunk, k, 0, 0);
        int alive = w;
        unsigned nap = 200;
        while(alive > 0)
        {
            bool any = false;
            for(int k = 0; k < w; ++k)
            {
                if(!pid[k]) continue;
                int st;
                pid_t p = waitpid(pid[k], &st, WNOHANG);
                Slot& s = sh->slot[k];
                if(p == pid[k])
                {
                    any = true;
                    pid[k] = 0;
                    --alive;
                    if(WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
                    char why[100];
                    if(WIFSIGNALED(st)) snprintf(why, sizeof why, "killed by signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st)));
                    else snprintf(why, sizeof why, "worker exited with status %d", WEXITSTATUS(st));
                    abnormal(name, f, s, n, why);
                }
                else
                {
                    if(s.beat != seen[k] || !s.busy) { seen[k] = s.beat; seen_t[k] = now(); }
                    else if(now() - seen_t[k] > hang_secs)
                    {
                        kill(pid[k], SIGKILL);
                        waitpid(pid[k], &st, 0);
                        any = true;
                        // run that one input alone, with a longer limit, before calling it a hang
                        if(alone(f, s.cur, n) == 2)
                        {
                            pid[k] = 0;
                            --alive;
                            report(name, s.cur, s.cur, "the call does not return (stopped after a long wait, alone on the machine)");
                            sh->stop = 1;
                        }
                        else
                        {
                            uint64_t from = s.cur, to = s.end;
                            s.beat = 0;
                            seen[k] = 0;
                            seen_t[k] = now();
                            pid[k] = spawn(f, n, chunk, k, from, to);
                        }
                    }
                }
            }
            if(!any) { usleep(nap); if(nap < 20000) nap = nap * 3 / 2; }
        }
        SpaceStat st;
        st.name = name;
        st.n = n;
        for(int k = 0; k < w; ++k)
        {
            Slot& s = sh->slot[k];
            st.states += s.states;
            st.trans += s.trans;
            st.valid += s.valid;
            st.aux += s.aux;
            if(s.peak > st.peak) { st.peak = s.peak; st.peak_at = s.peak_at; }
            if(s.note_[0]) st.sample = s.note_;
            if(s.failed) report(name, s.failed_at, s.failed_from, s.msg);
        }
        st.secs = now() - t0;
        stats.push_back(st);
        return !violated;
    }

    // facts that are not indexed
    void record(const SpaceStat& st) { stats.push_back(st); }

    int finish()
    {
        if(replay) return violated ? 1 : 0;
        FILE* o = out.empty() ? stdout : fopen(out.c_str(), "w");
        fprintf(o, "{\"property\":\"%s\",\"tier\":\"%s\",\"violated\":%s,\"aborted\":%s,", prop.c_str(), tier.c_str(), violated ? "true" : "false", aborted ? "true" : "false");
        if(violated)
            fprintf(o, "\"violation\":{\"space\":%s,\"index\":%llu,\"from\":%llu,\"msg\":%s},", js(v_space).c_str(), (unsigned long long)v_index, (unsigned long long)v_from, js(v_msg).c_str());
        fprintf(o, "\"spaces\":[");
        for(size_t i = 0; i < stats.size(); ++i)
        {
            auto& s = stats[i];
            fprintf(o, "%s\n{\"name\":%s,\"n\":%llu,\"states\":%llu,\"transitions\":%llu,\"valid\":%llu,\"aux\":%llu,\"peak\":%.9g,\"peak_at\":%llu,\"secs\":%.3f,\"sample\":%s}", i ? "," : "", js(s.name).c_str(), (unsigned long long)s.n, (unsigned long long)s.states,
                    (unsigned long long)s.trans, (unsigned long long)s.valid, (unsigned long long)s.aux, s.peak, (unsigned long long)s.peak_at, s.secs, js(s.sample).c_str());
        }
        fprintf(o, "]}\n");
        if(o != stdout) fclose(o);
        return aborted ? 3 : violated ? 1 : 0;
    }

    void report(const std::string& name, uint64_t idx, uint64_t from, const std::string& msg)
    {
        if(violated && (v_space != name || v_index <= idx)) return;
        violated = true;
        v_space = name;
        v_index = idx;
        v_from = from;
        v_msg = msg;
    }

    static std::string js(const std::string& s)
    {
        std::string r = "\"";
        for(unsigned char ch : s)
        {
            if(ch == '"' || ch == '\\') { r += '\\'; r += char(ch); }
            else if(ch < 32 || ch > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); r += b; }
            else r += char(ch);
        }
        return r + "\"";
    }

private:
    Shared* sh = nullptr;
    std::set<std::string> names;

    static uint64_t caught(Body& f, uint64_t b, uint64_t e, uint64_t sample_at, Ctx& c, Slot& s)
    {
#ifdef __cpp_exceptions
        try { return f.loop(f.self, b, e, sample_at, c, s); }
        catch(const std::exception& ex) { c.fail("unexpected exception: %s", ex.what()); }
        catch(...) { c.fail("unexpected exception"); }
        return s.cur;
#else
        return f.loop(f.self, b, e, sample_at, c, s);
#endif
    }
    static void guarded(Body f, uint64_t i, Ctx& c)
    {
        Slot s;
        s.beat = 0;
        caught(f, i, i + 1, c.want ? i : ~0ull, c, s);
    }

    pid_t spawn(Body f, uint64_t n, uint64_t chunk, int k, uint64_t from, uint64_t to)
    {
        pid_t p = fork();
        if(p < 0) { perror("fork"); exit(3); }
        if(p) return p;
        signal(SIGALRM, SIG_DFL);
        Slot& s = sh->slot[k];
        Ctx c;
        c.states = s.states; c.trans = s.trans; c.valid = s.valid; c.aux = s.aux; c.peak = s.peak; c.peak_at = s.peak_at;
        c.note_[0] = 0;
        const uint64_t sample_at = n / 2 + n / 5 < n ? n / 2 + n / 5 : n / 2;
        for(;;)
        {
            uint64_t b, e;
            if(from < to) { b = from; e = to; from = to; }
            else
            {
                if(sh->stop.load(std::memory_order_relaxed)) break;
                b = sh->next.fetch_add(chunk);
                if(b >= n) break;
                e = b + chunk < n ? b + chunk : n;
            }
            s.end = e;
            s.cur = b;
            s.busy = 1;
            const uint64_t i = caught(f, b, e, sample_at, c, s);
            s.busy = 0;
            s.states = c.states; s.trans = c.trans; s.valid = c.valid; s.aux = c.aux; s.peak = c.peak; s.peak_at = c.peak_at;
            if(c.note_[0]) memcpy(s.note_, c.note_, sizeof s.note_);
            if(c.failed)
            {
                s.failed = 1;
                s.failed_at = i;
                s.failed_from = b;
                memcpy(s.msg, c.msg, sizeof s.msg);
                sh->stop = 1;
                break;
            }
        }
        _exit(0);
    }

    // one input in a process of its own: 0 ok, 1 crashed, 2 hung
    int alone(Body f, uint64_t i, uint64_t n)
    {
        if(i >= n) return 0;
        fflush(nullptr);
        pid_t p = fork();
        if(p == 0)
        {
            Ctx c;
            guarded(f, i, c);
            _exit(0);
        }
        double t = now();
        for(;;)
        {
            int st;
            if(waitpid(p, &st, WNOHANG) == p) return WIFEXITED(st) && WEXITSTATUS(st) == 0 ? 0 : 1;
            if(now() - t > hang_alone)
            {
                kill(p, SIGKILL);
                waitpid(p, &st, 0);
                return 2;
            }
            usleep(1000);
        }
    }

    void abnormal(const std::string& name, Body f, Slot& s, uint64_t n, const std::string& why)
    {
        sh->stop = 1;
        int r = alone(f, s.cur, n);
        std::string m = "the call ended the program: " + why;
        if(r == 0) m += " (only after earlier calls of the same run)";
        if(why.find("signal 9") != std::string::npos && r == 0)
        {
            fprintf(stderr, "worker was killed from outside\n");
            aborted = true;
            return;
        }
        report(name, s.cur, s.cur, m);
    }
};
} // namespace mc
