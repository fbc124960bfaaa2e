// C23: a stateless model checker for the real code.  subject.cpp (the library) is compiled with
// ThreadSanitizer's instrumentation; this file is the runtime behind it.  One execution = one forked
// process in which real threads run one at a time, handing over a baton at scheduling points:
// atomic operations, initialisation guards, mutexes, and accesses to memory that several threads touch.
// All schedules up to a preemption bound are explored (depth-first, by replaying prefixes); every
// execution is checked for data races (vector clocks), deadlock, and outcomes that differ from the
// outcome of the same calls made alone.
#include "mc.hpp"
#include <pthread.h>
#include <semaphore.h>
#include <dlfcn.h>
#include <map>
#include <new>
#include <unordered_map>
#include <unordered_set>

extern "C" int subject_count();
extern "C" const char* subject_name(int k);
extern "C" void subject_run(int k, int v, char* out, int cap);
extern "C" char __executable_start, _end;

static const int MAXT = 3, MAXP = 20000, OUTN = 1200, MAXSH = 512;
struct Point { uint8_t chosen, enabled, cur; };
struct Trace
{
    // input
    int nthreads, op[MAXT][2], var[MAXT][2], nops;
    int nprefix;
    uint8_t prefix[MAXP];
    int nshared;
    uintptr_t shared[MAXSH];
    // output
    int npoints;
    Point points[MAXP];
    char out[MAXT][2][OUTN];
    int nnew;
    uintptr_t fresh[MAXSH];
    bool done, deadlock, overflow, mismatch;
    bool race;
    char race_msg[600];
    uintptr_t race_pc[2];
    uint64_t accesses;
};
static Trace* T; // shared memory, one per worker

// ---- allocation: never reuse memory within one execution ----------------------------------------
static char *arena, *arena_end;
static std::atomic<char*> arena_at;
static bool in_child;
static const size_t ARENA = size_t(1) << 28;
static bool in_arena(const void* p) { return arena && p >= arena && p < arena_end; }
static void* bump(size_t n)
{
    n = (n + 31) & ~size_t(31);
    char* p = arena_at.fetch_add((ptrdiff_t)n);
    if(p + n > arena_end) _exit(77);
    return p;
}
void* operator new(size_t n)
{
    if(in_child) return bump(n);
    void* p = malloc(n ? n : 1);
    if(!p) throw std::bad_alloc();
    return p;
}
void operator delete(void* p) noexcept { if(!in_arena(p)) free(p); }
void operator delete(void* p, size_t) noexcept { if(!in_arena(p)) free(p); }
void* operator new[](size_t n) { return operator new(n); }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }

// ---- the scheduler ------------------------------------------------------------------------------
struct VC
{
    uint32_t c[MAXT] = {};
    void join(const VC& o) { for(int i = 0; i < MAXT; ++i) if(o.c[i] > c[i]) c[i] = o.c[i]; }
};
struct Shadow
{
    uint32_t rd[MAXT] = {}, wr[MAXT] = {}; // clock of the last read / write of each thread
    uintptr_t pc_r[MAXT] = {}, pc_w[MAXT] = {};
    uint8_t touched = 0, written = 0;
};
static __thread int me = -1; // index of the scheduled thread, -1 outside
static __thread int inside = 0; // inside of the runtime
static sem_t baton[MAXT];
static bool finished[MAXT], started[MAXT];
static const void* blocked_on[MAXT];
static VC clk[MAXT];
static std::unordered_map<uintptr_t, Shadow>* shadow;
static std::unordered_map<const void*, VC>* sync_vc;
static std::unordered_set<uintptr_t>* shared_set;
static int nth;
static int streak = 0;

static bool tracked(uintptr_t a) { return (a >= (uintptr_t)&__executable_start && a < (uintptr_t)&_end) || in_arena((void*)a); }

static int enabled_mask()
{
    int m = 0;
    for(int i = 0; i < nth; ++i)
        if(!finished[i] && !blocked_on[i]) m |= 1 << i;
    return m;
}
static void hand_over(int to)
{
    const int self = me;
    sem_post(&baton[to]);
    while(sem_wait(&baton[self]) != 0) {}
}
// choose who runs next; called by the running thread (or by the starter with cur = 7)
static int choose(int cur)
{
    const int en = enabled_mask();
    if(en == 0) return -1;
    int pick;
    if(T->npoints >= MAXP) { T->overflow = true; _exit(0); }
    const bool cur_ok = cur < nth && (en >> cur & 1);
    // a thread that only polls must let the others run
    if(cur_ok && ++streak > 2000 && (en & ~(1 << cur)))
    {
        streak = 0;
        pick = __builtin_ctz(en & ~(1 << cur));
        return pick; // forced, not a choice point
    }
    if((en & (en - 1)) == 0) pick = __builtin_ctz(en); // only one: not a choice
    else
    {
        if(T->npoints < T->nprefix)
        {
            pick = T->prefix[T->npoints];
            if(!(en >> pick & 1)) { T->mismatch = true; _exit(0); }
        }
        else pick = cur_ok ? cur : __builtin_ctz(en);
        T->points[T->npoints++] = Point{(uint8_t)pick, (uint8_t)en, (uint8_t)(cur_ok ? cur : 7)};
    }
    if(pick != cur) streak = 0;
    return pick;
}
static void sched_point()
{
    const int n = choose(me);
    if(n != me) hand_over(n);
}
static void block_on(const void* what)
{
    blocked_on[me] = what;
    const int n = choose(7);
    if(n < 0) { T->deadlock = true; _exit(0); }
    hand_over(n);
}
static void wake(const void* what)
{
    for(int i = 0; i < nth; ++i)
        if(blocked_on[i] == what) blocked_on[i] = nullptr;
}
static void release_to(const void* s) { (*sync_vc)[s].join(clk[me]); ++clk[me].c[me]; }
static void acquire_from(const void* s)
{
    auto it = sync_vc->find(s);
    if(it != sync_vc->end()) clk[me].join(it->second);
}
struct Enter
{
    bool on;
    Enter() : on(me >= 0 && !inside) { if(on) ++inside; }
    ~Enter() { if(on) --inside; }
};
static void report_race(uintptr_t a, int other, bool other_wrote, bool wrote, uintptr_t pc, uintptr_t opc)
{
    if(T->race) return;
    T->race = true;
    T->race_pc[0] = pc;
    T->race_pc[1] = opc;
    snprintf(T->race_msg, sizeof T->race_msg, "thread %d %s and thread %d %s the same memory (%s+0x%lx) without synchronisation", me, wrote ? "writes" : "reads", other, other_wrote ? "writes" : "reads",
             in_arena((void*)a) ? "heap" : "program", in_arena((void*)a) ? (unsigned long)(a - (uintptr_t)arena) : (unsigned long)(a - (uintptr_t)&__executable_start));
}
static void access(const volatile void* p, size_t n, bool wr, void* pcp)
{
    if(me < 0 || inside) return;
    uintptr_t a = (uintptr_t)p;
    if(!tracked(a)) return;
    Enter e;
    const uintptr_t pc = (uintptr_t)pcp;
    bool pt = false;
    for(size_t i = 0; i < n; ++i) pt |= shared_set->count(a + i) != 0;
    if(pt) sched_point();
    ++T->accesses;
    for(size_t i = 0; i < n; ++i)
    {
        Shadow& s = (*shadow)[a + i];
        for(int o = 0; o < nth; ++o)
        {
            if(o == me) continue;
            if(s.wr[o] > clk[me].c[o]) report_race(a + i, o, true, wr, pc, s.pc_w[o]);
            if(wr && s.rd[o] > clk[me].c[o]) report_race(a + i, o, false, wr, pc, s.pc_r[o]);
        }
        if(wr) { s.wr[me] = clk[me].c[me]; s.pc_w[me] = pc; }
        else { s.rd[me] = clk[me].c[me]; s.pc_r[me] = pc; }
        s.touched |= 1 << me;
        s.written |= wr;
        if(s.written && (s.touched & (s.touched - 1)) && !shared_set->count(a + i))
        {
            shared_set->insert(a + i);
            if(T->nnew < MAXSH) T->fresh[T->nnew++] = a + i;
        }
    }
}
#define PC __builtin_return_address(0)

extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define ACC(N)                                                              \
    void __tsan_read##N(void* p) { access(p, N, false, PC); }               \
    void __tsan_write##N(void* p) { access(p, N, true, PC); }               \
    void __tsan_unaligned_read##N(void* p) { access(p, N, false, PC); }     \
    void __tsan_unaligned_write##N(void* p) { access(p, N, true, PC); }     \
    void __tsan_volatile_read##N(void* p) { access(p, N, false, PC); }      \
    void __tsan_volatile_write##N(void* p) { access(p, N, true, PC); }      \
    void __tsan_unaligned_volatile_read##N(void* p) { access(p, N, false, PC); } \
    void __tsan_unaligned_volatile_write##N(void* p) { access(p, N, true, PC); } \
    void __tsan_read_write##N(void* p) { access(p, N, false, PC); access(p, N, true, PC); } \
    void __tsan_unaligned_read_write##N(void* p) { access(p, N, false, PC); access(p, N, true, PC); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_vptr_update(void** p, void*) { access(p, 8, true, PC); }
void __tsan_vptr_read(void** p) { access(p, 8, false, PC); }
void __tsan_read_range(void* p, unsigned long n) { access(p, n, false, PC); }
void __tsan_write_range(void* p, unsigned long n) { access(p, n, true, PC); }
void* __tsan_memcpy(void* d, const void* s, unsigned long n) { access(s, n, false, PC); access(d, n, true, PC); return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, unsigned long n) { access(s, n, false, PC); access(d, n, true, PC); return memmove(d, s, n); }
void* __tsan_memset(void* d, int v, unsigned long n) { access(d, n, true, PC); return memset(d, v, n); }

// atomics: a scheduling point, then the operation; release/acquire edges as the order says
static void at_before(const volatile void* p, int mo)
{
    if(me < 0 || inside) return;
    Enter e;
    sched_point();
    if(mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST) release_to((void*)p);
}
static void at_after(const volatile void* p, int mo)
{
    if(me < 0 || inside) return;
    Enter e;
    if(mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST) acquire_from((void*)p);
}
#define ATOMIC(N, U)                                                                                                                                                        \
    U __tsan_atomic##N##_load(const volatile U* p, int mo) { at_before(p, __ATOMIC_RELAXED); U v = __atomic_load_n(p, __ATOMIC_SEQ_CST); at_after(p, mo); return v; }        \
    void __tsan_atomic##N##_store(volatile U* p, U v, int mo) { at_before(p, mo); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); }                                                \
    U __tsan_atomic##N##_exchange(volatile U* p, U v, int mo) { at_before(p, mo); U r = __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); at_after(p, mo); return r; }            \
    U __tsan_atomic##N##_fetch_add(volatile U* p, U v, int mo) { at_before(p, mo); U r = __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); at_after(p, mo); return r; }            \
    U __tsan_atomic##N##_fetch_sub(volatile U* p, U v, int mo) { at_before(p, mo); U r = __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); at_after(p, mo); return r; }            \
    U __tsan_atomic##N##_fetch_and(volatile U* p, U v, int mo) { at_before(p, mo); U r = __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); at_after(p, mo); return r; }            \
    U __tsan_atomic##N##_fetch_or(volatile U* p, U v, int mo) { at_before(p, mo); U r = __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); at_after(p, mo); return r; }              \
    U __tsan_atomic##N##_fetch_xor(volatile U* p, U v, int mo) { at_before(p, mo); U r = __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); at_after(p, mo); return r; }            \
    U __tsan_atomic##N##_fetch_nand(volatile U* p, U v, int mo) { at_before(p, mo); U r = __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); at_after(p, mo); return r; }          \
    int __tsan_atomic##N##_compare_exchange_strong(volatile U* p, U* c, U v, int mo, int) { at_before(p, mo); int r = __atomic_compare_exchange_n(p, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); at_after(p, mo); return r; } \
    int __tsan_atomic##N##_compare_exchange_weak(volatile U* p, U* c, U v, int mo, int) { at_before(p, mo); int r = __atomic_compare_exchange_n(p, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); at_after(p, mo); return r; } \
    U __tsan_atomic##N##_compare_exchange_val(volatile U* p, U c, U v, int mo, int) { at_before(p, mo); __atomic_compare_exchange_n(p, &c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); at_after(p, mo); return c; }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
static char fence_obj;
void __tsan_atomic_thread_fence(int mo) { at_before(&fence_obj, mo); at_after(&fence_obj, mo); }
void __tsan_atomic_signal_fence(int) {}

// initialisation guards: byte 0 = done, byte 1 = in progress
int __cxa_guard_acquire(uint64_t* g)
{
    volatile uint8_t* b = (volatile uint8_t*)g;
    if(me < 0 || inside)
    {
        if(b[0]) return 0;
        b[1] = 1;
        return 1;
    }
    Enter e;
    for(;;)
    {
        sched_point();
        if(b[0]) { acquire_from(g); return 0; }
        if(!b[1]) { b[1] = 1; acquire_from(g); return 1; }
        block_on(g);
    }
}
void __cxa_guard_release(uint64_t* g)
{
    volatile uint8_t* b = (volatile uint8_t*)g;
    if(me < 0 || inside) { b[1] = 0; b[0] = 1; return; }
    Enter e;
    sched_point();
    release_to(g);
    b[1] = 0;
    b[0] = 1;
    wake(g);
}
void __cxa_guard_abort(uint64_t* g)
{
    volatile uint8_t* b = (volatile uint8_t*)g;
    b[1] = 0;
    if(me < 0 || inside) return;
    Enter e;
    release_to(g);
    wake(g);
}
// mutexes, read-write locks (treated as exclusive) and once-flags of the subject
static std::map<void*, int>* owner;
static bool lock_any(void* m, bool try_only)
{
    for(;;)
    {
        sched_point();
        auto it = owner->find(m);
        if(it == owner->end() || it->second == me) { (*owner)[m] = me; acquire_from(m); return true; }
        if(try_only) return false;
        block_on(m);
    }
}
static void unlock_any(void* m) { release_to(m); owner->erase(m); wake(m); sched_point(); }
#define LOCKS(NAME, TYPE)                                                                                                             \
    int __real_##NAME(TYPE* m);                                                                                                       \
    int __wrap_##NAME(TYPE* m) { if(me < 0 || inside) return __real_##NAME(m); Enter e; lock_any(m, false); return 0; }
#define TRYLOCKS(NAME, TYPE)                                                                                                          \
    int __real_##NAME(TYPE* m);                                                                                                       \
    int __wrap_##NAME(TYPE* m) { if(me < 0 || inside) return __real_##NAME(m); Enter e; return lock_any(m, true) ? 0 : 16; }
#define UNLOCKS(NAME, TYPE)                                                                                                           \
    int __real_##NAME(TYPE* m);                                                                                                       \
    int __wrap_##NAME(TYPE* m) { if(me < 0 || inside) return __real_##NAME(m); Enter e; unlock_any(m); return 0; }
LOCKS(pthread_mutex_lock, pthread_mutex_t)
TRYLOCKS(pthread_mutex_trylock, pthread_mutex_t)
UNLOCKS(pthread_mutex_unlock, pthread_mutex_t)
LOCKS(pthread_rwlock_rdlock, pthread_rwlock_t)
LOCKS(pthread_rwlock_wrlock, pthread_rwlock_t)
UNLOCKS(pthread_rwlock_unlock, pthread_rwlock_t)
int __real_pthread_once(pthread_once_t* o, void (*f)());
int __wrap_pthread_once(pthread_once_t* o, void (*f)())
{
    if(me < 0 || inside) return __real_pthread_once(o, f);
    for(;;)
    {
        {
            Enter e;
            sched_point();
            if(*o == 2) { acquire_from(o); return 0; }
            if(*o == 1) { block_on(o); continue; }
            *o = 1;
        }
        f();
        Enter e;
        release_to(o);
        *o = 2;
        wake(o);
        return 0;
    }
}
} // extern "C"

static void* thread_main(void* arg)
{
    const int t = (int)(intptr_t)arg;
    me = t;
    inside = 1;
    while(sem_wait(&baton[t]) != 0) {}
    inside = 0;
    for(int k = 0; k < T->nops; ++k) subject_run(T->op[t][k], T->var[t][k], T->out[t][k], OUTN);
    inside = 1;
    finished[t] = true;
    const int n = choose(7);
    if(n >= 0) sem_post(&baton[n]);
    else
        for(int i = 0; i < nth; ++i)
            if(!finished[i]) { T->deadlock = true; _exit(0); }
    me = -1;
    return nullptr;
}
static void child()
{
    alarm(60);
    nth = T->nthreads;
    shadow = new std::unordered_map<uintptr_t, Shadow>();
    sync_vc = new std::unordered_map<const void*, VC>();
    shared_set = new std::unordered_set<uintptr_t>();
    owner = new std::map<void*, int>();
    for(int i = 0; i < T->nshared; ++i) shared_set->insert(T->shared[i]);
    in_child = true;
    pthread_t th[MAXT];
    for(int i = 0; i < nth; ++i)
    {
        sem_init(&baton[i], 0, 0);
        clk[i].c[i] = 1;
    }
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstacksize(&at, 1 << 20);
    for(int i = 0; i < nth; ++i) pthread_create(&th[i], &at, thread_main, (void*)(intptr_t)i);
    const int n = choose(7);
    sem_post(&baton[n]);
    for(int i = 0; i < nth; ++i) pthread_join(th[i], nullptr);
    T->done = true;
    _exit(0);
}
// one execution; returns false if it ended abnormally
static bool execute(std::string& why)
{
    T->npoints = 0;
    T->nnew = 0;
    T->done = T->deadlock = T->overflow = T->mismatch = T->race = false;
    T->accesses = 0;
    memset(T->out, 0, sizeof T->out);
    arena_at = arena;
    const pid_t p = fork();
    if(p == 0) child();
    int st;
    waitpid(p, &st, 0);
    if(WIFSIGNALED(st))
    {
        why = WTERMSIG(st) == SIGALRM ? "the calls do not return" : std::string("the program ends with ") + strsignal(WTERMSIG(st));
        return false;
    }
    if(WEXITSTATUS(st) != 0) { why = "the program exits with status " + std::to_string(WEXITSTATUS(st)); return false; }
    if(T->deadlock) { why = "deadlock"; return false; }
    if(!T->done && !T->overflow && !T->mismatch) { why = "the program ended"; return false; }
    return true;
}
static std::string where(uintptr_t pc)
{
    char exe[400] = {}, cmd[700], line[1024] = {};
    if(readlink("/proc/self/exe", exe, sizeof exe - 1) < 0) return "?";
    snprintf(cmd, sizeof cmd, "addr2line -Cpie '%s' 0x%lx 2>/dev/null", exe, (unsigned long)(pc - 1 - (uintptr_t)&__executable_start));
    FILE* f = popen(cmd, "r");
    if(!f) return "?";
    std::string s;
    while(fgets(line, sizeof line, f)) s += line;
    pclose(f);
    for(char& ch : s) if(ch == '\n') ch = ' ';
    return s.substr(0, 260);
}
static std::map<std::pair<int, int>, std::string> alone; // outcome of one call in a fresh process

struct Config { int n, nops; int op[MAXT][2], var[MAXT][2]; };
static std::string describe(const Config& g)
{
    std::string s;
    for(int t = 0; t < g.n; ++t)
    {
        s += t ? " || " : "";
        for(int k = 0; k < g.nops; ++k) s += std::string(k ? "; " : "") + subject_name(g.op[t][k]) + "#" + std::to_string(g.var[t][k]);
    }
    return s;
}
static void explore(mc::Ctx& c, const Config& g, int bound, uint64_t cap)
{
    if(!T)
    {
        T = (Trace*)mmap(nullptr, sizeof(Trace), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        arena = (char*)mmap(nullptr, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        arena_end = arena + ARENA;
    }
    std::string why;
    // the reference: each call alone in a fresh process
    for(int t = 0; t < g.n; ++t)
        for(int k = 0; k < g.nops; ++k)
        {
            const auto key = std::make_pair(g.op[t][k], g.var[t][k]);
            if(alone.count(key)) continue;
            T->nthreads = 1;
            T->nops = 1;
            T->op[0][0] = key.first;
            T->var[0][0] = key.second;
            T->nprefix = T->nshared = 0;
            if(!execute(why)) { c.fail("%s#%d alone: %s", subject_name(key.first), key.second, why.c_str()); return; }
            alone[key] = T->out[0][0];
        }
    T->nthreads = g.n;
    T->nops = g.nops;
    memcpy(T->op, g.op, sizeof g.op);
    memcpy(T->var, g.var, sizeof g.var);
    std::vector<uintptr_t> shared;
    struct Node { Point p; uint8_t tried; int preempts; };
    for(int round = 0;; ++round)
    {
        std::vector<Node> path;
        T->nshared = 0;
        for(uintptr_t a : shared) T->shared[T->nshared++] = a;
        T->nprefix = 0;
        uint64_t runs = 0;
        bool grew = false;
        for(;;)
        {
            if(!execute(why)) { c.fail("%s, schedule %llu: %s", describe(g).c_str(), (unsigned long long)runs, why.c_str()); return; }
            if(T->mismatch) { c.fail("%s: the execution is not a function of the schedule", describe(g).c_str()); return; }
            ++runs;
            ++c.states;
            ++c.valid;
            std::string sched;
            for(int i = 0; i < T->npoints && i < 60; ++i) sched += char('0' + T->points[i].chosen);
            if(T->race)
            {
                c.fail("%s, schedule %s: data race: %s [%s] [%s]", describe(g).c_str(), sched.c_str(), T->race_msg, where(T->race_pc[0]).c_str(), where(T->race_pc[1]).c_str());
                return;
            }
            for(int t = 0; t < g.n; ++t)
                for(int k = 0; k < g.nops; ++k)
                {
                    const std::string& w = alone[{g.op[t][k], g.var[t][k]}];
                    MC_CHECK(c, w == T->out[t][k], "%s, schedule %s: thread %d got \"%s\" instead of \"%s\"", describe(g).c_str(), sched.c_str(), t, T->out[t][k], w.c_str());
                }
            if(c.failed) return;
            c.aux += T->npoints;
            if(T->nnew && shared.size() < MAXSH)
            {
                for(int i = 0; i < T->nnew && shared.size() < MAXSH; ++i) shared.push_back(T->fresh[i]);
                grew = true;
                break;
            }
            // backtrack
            for(int i = (int)path.size(); i < T->npoints; ++i)
            {
                Node n{T->points[i], (uint8_t)(1 << T->points[i].chosen), 0};
                if(i > 0) n.preempts = path[i - 1].preempts + (path[i - 1].p.cur != 7 && path[i - 1].p.chosen != path[i - 1].p.cur);
                path.push_back(n);
            }
            bool found = false;
            while(!path.empty() && !found)
            {
                Node& n = path.back();
                for(int t = 0; t < g.n; ++t)
                {
                    if(!(n.p.enabled >> t & 1) || (n.tried >> t & 1)) continue;
                    if(n.p.cur != 7 && t != n.p.cur && n.preempts + 1 > bound) continue;
                    n.tried |= 1 << t;
                    n.p.chosen = (uint8_t)t;
                    found = true;
                    break;
                }
                if(!found) path.pop_back();
            }
            if(!found) break;
            T->nprefix = (int)path.size();
            for(size_t i = 0; i < path.size(); ++i) T->prefix[i] = path[i].p.chosen;
            if(runs >= cap) { c.note("%s: stopped at %llu schedules", describe(g).c_str(), (unsigned long long)runs); break; }
        }
        if(!grew)
        {
            if(c.want) c.note("%s: %llu schedules, %zu shared bytes, %d choice points in the last", describe(g).c_str(), (unsigned long long)runs, shared.size(), T->npoints);
            return;
        }
    }
}

int main(int argc, char** argv)
{
    mc::Run run(argc, argv, "C23");
    run.hang_secs = 400;
    run.small_space = 2;
    run.hang_alone = 400;
    const int n = subject_count();
    const int bound = run.thorough ? 3 : 2;
    const uint64_t cap = run.thorough ? 200000 : 20000;
    std::vector<Config> two, three, seq;
    for(int a = 0; a < n; ++a)
        for(int b = a; b < n; ++b)
            for(auto [v, w] : {std::pair{0, 0}, {0, 1}, {2, 1}, {1, 2}, {2, 0}})
            {
                if(a == b && v > w) continue;
                two.push_back(Config{2, 1, {{a}, {b}}, {{v}, {w}}});
            }
    for(int a = 0; a < n; ++a)
    {
        three.push_back(Config{3, 1, {{a}, {a}, {a}}, {{0}, {1}, {2}}});
        three.push_back(Config{3, 1, {{a}, {a}, {a}}, {{0}, {0}, {0}}});
        three.push_back(Config{3, 1, {{a}, {a}, {(a + 1) % n}}, {{1}, {0}, {0}}});
        for(int b = 0; b < n; ++b) seq.push_back(Config{2, 2, {{a, b}, {b, a}}, {{0, 1}, {2, 0}}});
        seq.push_back(Config{2, 2, {{a, a}, {a, a}}, {{0, 1}, {1, 0}}});
    }
    auto go = [&](const char* name, const std::vector<Config>& v) {
        run.space(name, v.size(), [&](uint64_t i, mc::Ctx& c) { --c.states; explore(c, v[i], bound, cap); });
    };
    go("two threads, every pair of calls", two);
    go("three threads", three);
    go("two threads, two calls each", seq);
    return run.finish();
}
