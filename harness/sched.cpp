#include "sched.hh"
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <climits>
#include <cstdarg>
#include <cstring>
#include <dlfcn.h>
#include <linux/futex.h>
#include <map>
#include <pthread.h>
#include <random>
#include <sched.h>
#include <semaphore.h>
#include <set>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <time.h>
#include <unordered_map>

namespace {
constexpr int MAXT = 64;
constexpr size_t LOGMAX = 1 << 20, CHMAX = 1 << 17;
struct Shared
{
    volatile int status; // 0 running, 1 ok, 2 deadlock, 3 overrun, 4 touched a dead stack
    volatile uint32_t nchoices;
    volatile uint32_t points;
    volatile uint32_t loglen;
    sched::Choice choices[CHMAX];
    char log[LOGMAX];
};
Shared* g_shm = nullptr;

enum class St { Ready, Mutex, Cond, Join, Futex, Done };
struct T
{
    St st = St::Ready;
    const void* on = nullptr;     // what it is blocked on
    pthread_mutex_t* remutex = nullptr;
    bool signaled = false, timed = false, timeout = false;
    int join = -1;
    sem_t sem;
    pthread_t handle{};
    char *lo = nullptr, *hi = nullptr; // stack
    long prio = 0;
    uint64_t since = 0;           // when it began to wait (FIFO)
};
T g_t[MAXT];
int g_n = 0, g_cur = 0;
bool g_active = false;
thread_local int tl_self = -1;
sched::Plan g_plan;
size_t g_prefix_at = 0;
std::mt19937_64* g_rng = nullptr;
int g_spurious = 0;
uint64_t g_clock = 0;
int g_streak = 0, g_timeouts = 0;
std::set<long>* g_change = nullptr;
struct M { int owner = -1; int depth = 0; };
std::unordered_map<const void*, M>* g_mutex = nullptr;
void* g_stack_top = nullptr;
int g_stack_owner = -1;

template<typename F> F real(const char* name, const char* ver = nullptr)
{
    void* p = ver ? dlvsym(RTLD_NEXT, name, ver) : dlsym(RTLD_NEXT, name);
    if (!p) p = dlsym(RTLD_NEXT, name);
    return reinterpret_cast<F>(p);
}
#define REAL(name) static auto real_##name = real<decltype(&name)>(#name)

bool on() { return g_active && tl_self >= 0; }

[[noreturn]] void finish(int status)
{
    g_shm->status = status;
    _exit(0);
}

bool enabled(int i)
{
    T& t = g_t[i];
    switch (t.st) {
        case St::Ready: return true;
        case St::Mutex: return (*g_mutex)[t.on].owner < 0;
        case St::Cond: return t.signaled && (*g_mutex)[t.remutex].owner < 0;
        case St::Futex: return t.signaled;
        case St::Join: return g_t[t.join].st == St::Done;
        default: return false;
    }
}

uint16_t choose(uint16_t n, bool free, int voluntary)
{
    (void)voluntary;
    uint16_t c = 0;
    if (g_plan.mode == sched::Plan::Prefix) {
        if (g_prefix_at < g_plan.prefix.size()) c = g_plan.prefix[g_prefix_at];
        ++g_prefix_at;
        if (c >= n) c = n - 1;
    } else {
        c = (*g_rng)() % n;
    }
    const uint32_t k = g_shm->nchoices;
    if (k < CHMAX) {
        g_shm->choices[k] = { n, c, free };
        g_shm->nchoices = k + 1;
    }
    return c;
}

// lets another thread go on; returns when this one is chosen again
void switch_to(int next)
{
    const int me = tl_self;
    if (next == me) return;
    g_cur = next;
    g_streak = 0;
    sem_post(&g_t[next].sem);
    if (g_t[me].st == St::Done) return;
    while (sem_wait(&g_t[me].sem)) {}
}

void wake(int i) // the reason for waiting is gone
{
    T& t = g_t[i];
    t.st = St::Ready;
}

// the heart: called by the running thread, whose state is set
void reschedule(bool voluntary, bool yielding = false, bool plain = false)
{
    const int me = tl_self;
    ++g_clock;
    if (++g_shm->points > 400000) finish(3);
    while (true) {
        int opts[2 * MAXT], n = 0;
        const bool self_ok = enabled(me);
        if (++g_streak > 3000) yielding = true;
        for (int i = 0; i < g_n; ++i)
            if (i != me && enabled(i)) opts[n++] = i;
        const int others = n;
        int first = -1;
        if (self_ok && (!yielding || n == 0)) first = me;
        if (n == 0 && first < 0) {
            // a timeout is what happens when nothing else can
            for (int i = 0; i < g_n; ++i)
                if (g_t[i].timed && (g_t[i].st == St::Cond || g_t[i].st == St::Futex) && g_timeouts < 2000) {
                    ++g_timeouts;
                    g_t[i].timeout = true;
                    g_t[i].signaled = true;
                    if (enabled(i)) { opts[n++] = i; break; }
                }
            if (n == 0) finish(2);
        }
        // spurious wakeups
        int sp0 = n;
        if (g_spurious > 0 && voluntary)
            for (int i = 0; i < g_n; ++i)
                if (g_t[i].st == St::Cond && !g_t[i].signaled) opts[n++] = i;
        int pick;
        const int total = n + (first >= 0);
        if (total == 1) {
            pick = first >= 0 ? first : opts[0];
        } else if (g_plan.mode == sched::Plan::Prefix) {
            if (plain && !g_plan.memory) return;
            const auto c = choose(total, first < 0, voluntary);
            pick = first >= 0 ? (c == 0 ? first : opts[c - 1]) : opts[c];
        } else if (g_plan.mode == sched::Plan::Walk) {
            const int pct = plain ? std::max(1, g_plan.switch_pct / 4) : g_plan.switch_pct;
            if (first >= 0 && (int)((*g_rng)() % 100) >= pct) pick = first;
            else if (n == 0) pick = first;
            else {
                int k = (*g_rng)() % n;
                if (k >= sp0 && (*g_rng)() % 4) k = sp0 > 0 ? (*g_rng)() % sp0 : k;
                pick = opts[k];
            }
        } else {
            if (g_change->count(g_shm->points)) g_t[me].prio = -(long)g_shm->points;
            if (yielding) g_t[me].prio = -(long)g_shm->points;
            pick = first;
            for (int k = 0; k < others || (k < sp0); ++k)
                if (pick < 0 || g_t[opts[k]].prio > g_t[pick].prio) pick = opts[k];
            if (n > sp0 && (*g_rng)() % 50 == 0) pick = opts[sp0 + (*g_rng)() % (n - sp0)];
            if (pick < 0) pick = opts[0];
        }
        if (pick != me || !enabled(pick)) {
            T& t = g_t[pick];
            if (t.st == St::Cond && !t.signaled) {
                --g_spurious;
                t.signaled = true;
                // it still has to take the mutex
                if (!enabled(pick)) continue;
            }
        }
        switch_to(pick);
        return;
    }
}

void block(St st, const void* o)
{
    T& t = g_t[tl_self];
    t.st = st;
    t.on = o;
    t.since = g_clock;
    reschedule(false);
    wake(tl_self);
}

void mlock(pthread_mutex_t* m)
{
    M& x = (*g_mutex)[m];
    if (x.owner == tl_self) {
        const int kind = m->__data.__kind & 3;
        if (kind == PTHREAD_MUTEX_RECURSIVE_NP) { ++x.depth; return; }
        // self-deadlock
    }
    if (x.owner >= 0) block(St::Mutex, m);
    (*g_mutex)[m] = { tl_self, 1 };
}
void munlock(pthread_mutex_t* m)
{
    M& x = (*g_mutex)[m];
    if (--x.depth <= 0) x = {};
}

struct Start { void* (*fn)(void*); void* arg; int id; };
void stack_bounds(T& t)
{
    pthread_attr_t a;
    if (pthread_getattr_np(pthread_self(), &a) == 0) {
        void* lo; size_t n;
        pthread_attr_getstack(&a, &lo, &n);
        t.lo = (char*)lo;
        t.hi = t.lo + n;
        pthread_attr_destroy(&a);
    }
}
void* start(void* p)
{
    Start s = *static_cast<Start*>(p);
    delete static_cast<Start*>(p);
    tl_self = s.id;
    stack_bounds(g_t[s.id]);
    while (sem_wait(&g_t[s.id].sem)) {}
    void* r = s.fn(s.arg);
    g_t[s.id].st = St::Done;
    if (g_active) {
        bool any = false;
        for (int i = 0; i < g_n; ++i) any |= g_t[i].st != St::Done;
        if (any) reschedule(false);
    }
    tl_self = -1;
    return r;
}
} // namespace

namespace sched {
json Plan::to_json() const
{
    return { { "mode", (int)mode }, { "prefix", prefix }, { "seed", seed }, { "switch", switch_pct }, { "depth", depth },
             { "length", length }, { "memory", memory }, { "spurious", spurious } };
}
Plan Plan::from(const json& j)
{
    Plan p;
    p.mode = (Mode)j.value("mode", 0);
    p.prefix = j.value("prefix", std::vector<uint16_t>{});
    p.seed = j.value("seed", 1ull);
    p.switch_pct = j.value("switch", 10);
    p.depth = j.value("depth", 3);
    p.length = j.value("length", 400);
    p.memory = j.value("memory", false);
    p.spurious = j.value("spurious", 0);
    return p;
}
void begin(const Plan& p)
{
    if (!g_shm)
        g_shm = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    g_plan = p;
    g_prefix_at = 0;
    g_rng = new std::mt19937_64(p.seed);
    g_change = new std::set<long>();
    for (int i = 0; i < p.depth; ++i) g_change->insert((*g_rng)() % std::max(1, p.length));
    g_mutex = new std::unordered_map<const void*, M>();
    g_spurious = p.spurious;
    g_n = 1;
    g_cur = 0;
    sem_init(&g_t[0].sem, 0, 0);
    g_t[0].prio = 1000 + (*g_rng)() % 1000;
    stack_bounds(g_t[0]);
    g_shm->status = 0;
    tl_self = 0;
    g_active = true;
}
void end()
{
    // what is left over runs to its end, if it can
    g_active = false;
}
bool active() { return on(); }
void point() { if (on()) reschedule(true); }
void yielded() { if (on()) reschedule(true, true); }
int self() { return tl_self; }
void note(const json& e)
{
    if (!g_shm) return;
    const std::string s = e.dump() + "\n";
    const uint32_t at = g_shm->loglen;
    if (at + s.size() < LOGMAX) {
        memcpy(g_shm->log + at, s.data(), s.size());
        g_shm->loglen = at + s.size();
    }
}
void watch_stack(void* top)
{
    g_stack_top = top;
    g_stack_owner = tl_self;
}

static void reset_shm()
{
    g_shm->status = 0;
    g_shm->nchoices = 0;
    g_shm->points = 0;
    g_shm->loglen = 0;
}

void explore(const json& cfg, const std::function<void()>& body)
{
    if (!g_shm)
        g_shm = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    std::map<std::string, std::pair<size_t, json>> seen;
    size_t runs = 0, points = 0, hangs = 0;
    std::vector<Choice> choices;
    const int tmo = cfg.value("timeout", 10);
    auto once = [&](const Plan& p) {
        reset_shm();
        fflush(nullptr);
        const pid_t pid = fork();
        if (pid == 0) {
            alarm(tmo);
            begin(p);
            body();
            end();
            finish(1);
        }
        int st = 0;
        while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
        ++runs;
        points += g_shm->points;
        std::string status = g_shm->status == 1   ? "ok"
                             : g_shm->status == 2 ? "deadlock"
                             : g_shm->status == 3 ? "overrun"
                             : g_shm->status == 4 ? "stack"
                                                  : "?";
        if (WIFSIGNALED(st)) {
            status = WTERMSIG(st) == SIGALRM ? "hang" : "signal";
            hangs += status == "hang";
        } else if (WEXITSTATUS(st) != 0 || status == "?") status = "exit";
        choices.assign(g_shm->choices, g_shm->choices + g_shm->nchoices);
        const std::string key = status + "\n" + std::string(g_shm->log, g_shm->loglen);
        auto [it, fresh] = seen.try_emplace(key, 0, json());
        if (fresh) {
            Plan q = p;
            // (choices up to the point reached make the run again)
            it->second.second = q.to_json();
        }
        ++it->second.first;
    };
    if (cfg.contains("plan")) {
        once(Plan::from(cfg["plan"]));
    } else {
        // systematic search, few preemptions first
        const int bound = cfg.value("bound", 2), maxruns = cfg.value("dfs", 2000);
        struct Node { std::vector<uint16_t> prefix; int cost; };
        std::vector<std::vector<Node>> level(bound + 1);
        level[0].push_back({ {}, 0 });
        Plan p;
        p.memory = cfg.value("memory", false);
        p.spurious = cfg.value("spurious", 0);
        std::mt19937 rng(cfg.value("seed", 1));
        bool complete = true;
        size_t held = 64; // bytes of the prefixes kept
        for (int c = 0; c <= bound; ++c) {
            auto& todo = level[c];
            while (!todo.empty()) {
                if ((int)runs >= maxruns || hangs > 2) { complete = false; break; }
                // a random one: a search that ends early should not have seen one corner only
                std::swap(todo[rng() % todo.size()], todo.back());
                Node nd = std::move(todo.back());
                todo.pop_back();
                held -= 2 * nd.prefix.capacity() + 64;
                p.prefix = nd.prefix;
                once(p);
                for (size_t k = nd.prefix.size(); k < choices.size(); ++k) {
                    const int cost = c + (choices[k].free ? 0 : 1);
                    if (cost > bound) continue;
                    for (uint16_t o = 1; o < choices[k].n; ++o) {
                        if (level[cost].size() > 200000 || held > (300u << 20)) { complete = false; break; }
                        Node m;
                        m.prefix.reserve(k + 1);
                        m.prefix = nd.prefix;
                        m.prefix.resize(k, 0);
                        m.prefix.push_back(o);
                        m.cost = cost;
                        held += 2 * m.prefix.capacity() + 64;
                        level[cost].push_back(std::move(m));
                    }
                }
            }
        }
        cases::emit({ { "ev", "dfs" }, { "runs", runs }, { "complete", complete }, { "bound", bound } });
        const int walks = cfg.value("walks", 200);
        for (int i = 0; i < walks && hangs <= 2; ++i) {
            Plan q;
            q.seed = cfg.value("seed", 1) * 1000003ull + i;
            q.mode = i % 2 ? Plan::Pct : Plan::Walk;
            q.switch_pct = i % 6 == 0 ? 40 : i % 6 == 2 ? 12 : 4;
            q.depth = 1 + i % 5;
            q.length = runs ? std::max<size_t>(50, points / runs) : 400;
            q.memory = cfg.value("walk_memory", true);
            q.spurious = cfg.value("spurious", 0) * 3;
            once(q);
        }
    }
    for (auto& [k, v] : seen) {
        const auto nl = k.find('\n');
        json evs = json::array();
        size_t at = nl + 1;
        while (at < k.size()) {
            const auto e = k.find('\n', at);
            evs.push_back(json::parse(k.substr(at, e - at)));
            at = e + 1;
        }
        cases::emit({ { "ev", "trace" }, { "status", k.substr(0, nl) }, { "events", evs }, { "count", v.first }, { "plan", v.second } });
    }
    cases::emit({ { "ev", "explored" }, { "runs", runs }, { "points", points }, { "distinct", seen.size() } });
}
} // namespace sched

// ------------------------------------------------------------ interposition

extern "C" {
int pthread_mutex_lock(pthread_mutex_t* m)
{
    REAL(pthread_mutex_lock);
    if (!on()) return real_pthread_mutex_lock(m);
    reschedule(true);
    mlock(m);
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m)
{
    REAL(pthread_mutex_trylock);
    if (!on()) return real_pthread_mutex_trylock(m);
    reschedule(true);
    if ((*g_mutex)[m].owner >= 0) return EBUSY;
    mlock(m);
    return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m)
{
    REAL(pthread_mutex_unlock);
    if (!on()) return real_pthread_mutex_unlock(m);
    munlock(m);
    reschedule(true);
    return 0;
}
int pthread_mutex_destroy(pthread_mutex_t* m)
{
    REAL(pthread_mutex_destroy);
    if (on()) g_mutex->erase(m);
    return real_pthread_mutex_destroy(m);
}
static int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, bool timed)
{
    reschedule(true);
    T& t = g_t[tl_self];
    munlock(m);
    t.remutex = m;
    t.signaled = false;
    t.timed = timed;
    t.timeout = false;
    block(St::Cond, c);
    t.timed = false;
    (*g_mutex)[m] = { tl_self, 1 };
    return t.timeout ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
    static auto r = real<decltype(&pthread_cond_wait)>("pthread_cond_wait", "GLIBC_2.3.2");
    if (!on()) return r(c, m);
    return cond_wait(c, m, false);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts)
{
    static auto r = real<decltype(&pthread_cond_timedwait)>("pthread_cond_timedwait", "GLIBC_2.3.2");
    if (!on()) return r(c, m, ts);
    return cond_wait(c, m, true);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* ts)
{
    static auto r = real<decltype(&pthread_cond_clockwait)>("pthread_cond_clockwait");
    if (!on()) return r(c, m, k, ts);
    return cond_wait(c, m, true);
}
static void cond_wake(pthread_cond_t* c, bool all)
{
    int w[MAXT], n = 0;
    for (int i = 0; i < g_n; ++i)
        if (g_t[i].st == St::Cond && g_t[i].on == c && !g_t[i].signaled) w[n++] = i;
    if (!n) return;
    std::sort(w, w + n, [](int a, int b) { return g_t[a].since < g_t[b].since; });
    if (all) for (int k = 0; k < n; ++k) g_t[w[k]].signaled = true;
    else g_t[w[n > 1 ? choose(n, true, 0) : 0]].signaled = true;
}
int pthread_cond_signal(pthread_cond_t* c)
{
    static auto r = real<decltype(&pthread_cond_signal)>("pthread_cond_signal", "GLIBC_2.3.2");
    if (!on()) return r(c);
    reschedule(true);
    cond_wake(c, false);
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c)
{
    static auto r = real<decltype(&pthread_cond_broadcast)>("pthread_cond_broadcast", "GLIBC_2.3.2");
    if (!on()) return r(c);
    reschedule(true);
    cond_wake(c, true);
    return 0;
}
int pthread_cond_destroy(pthread_cond_t* c)
{
    static auto r = real<decltype(&pthread_cond_destroy)>("pthread_cond_destroy", "GLIBC_2.3.2");
    if (!on()) return r(c);
    return 0;
}
int pthread_create(pthread_t* h, const pthread_attr_t* a, void* (*fn)(void*), void* arg)
{
    REAL(pthread_create);
    if (!on() || g_n >= MAXT) return real_pthread_create(h, a, fn, arg);
    const int id = g_n;
    g_t[id] = T{};
    sem_init(&g_t[id].sem, 0, 0);
    g_t[id].prio = 1000 + (*g_rng)() % 1000;
    const int rc = real_pthread_create(h, a, start, new Start{ fn, arg, id });
    if (rc) return rc;
    g_t[id].handle = *h;
    ++g_n;
    reschedule(true);
    return 0;
}
int pthread_join(pthread_t h, void** r)
{
    REAL(pthread_join);
    if (on()) {
        reschedule(true);
        for (int i = 0; i < g_n; ++i)
            if (i != tl_self && g_t[i].handle && pthread_equal(g_t[i].handle, h)) {
                if (g_t[i].st != St::Done) {
                    g_t[tl_self].join = i;
                    block(St::Join, nullptr);
                }
                g_t[i].handle = {};
                break;
            }
    }
    return real_pthread_join(h, r);
}
int sched_yield(void) noexcept
{
    REAL(sched_yield);
    if (!on()) return real_sched_yield();
    reschedule(true, true);
    return 0;
}
int nanosleep(const struct timespec* a, struct timespec* b)
{
    REAL(nanosleep);
    if (!on()) return real_nanosleep(a, b);
    reschedule(true, true);
    return 0;
}
int usleep(useconds_t u)
{
    REAL(usleep);
    if (!on()) return real_usleep(u);
    reschedule(true, true);
    return 0;
}
int clock_nanosleep(clockid_t c, int f, const struct timespec* a, struct timespec* b)
{
    REAL(clock_nanosleep);
    if (!on()) return real_clock_nanosleep(c, f, a, b);
    reschedule(true, true);
    return 0;
}
long syscall(long nr, ...) noexcept
{
    va_list ap;
    va_start(ap, nr);
    long a[6];
    for (auto& x : a) x = va_arg(ap, long);
    va_end(ap);
    static auto r = real<long (*)(long, ...)>("syscall");
    if (nr != SYS_futex || !on()) return r(nr, a[0], a[1], a[2], a[3], a[4], a[5]);
    int* addr = (int*)a[0];
    const int op = a[1] & FUTEX_CMD_MASK;
    if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
        reschedule(true);
        if (*(volatile int*)addr != (int)a[2]) { errno = EAGAIN; return -1; }
        T& t = g_t[tl_self];
        t.signaled = false;
        t.timed = a[3] != 0;
        t.timeout = false;
        block(St::Futex, addr);
        t.timed = false;
        if (t.timeout) { errno = ETIMEDOUT; return -1; }
        return 0;
    }
    if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
        long n = 0;
        for (int i = 0; i < g_n && n < a[2]; ++i)
            if (g_t[i].st == St::Futex && g_t[i].on == addr && !g_t[i].signaled) { g_t[i].signaled = true; ++n; }
        reschedule(true);
        return n;
    }
    return r(nr, a[0], a[1], a[2], a[3], a[4], a[5]);
}
}

// ------------------------------------------------- runtime of -fsanitize=thread

static inline void touch(const void* p)
{
    if (g_stack_top && tl_self != g_stack_owner) {
        const T& o = g_t[g_stack_owner];
        if ((char*)p >= o.lo && (char*)p < (char*)g_stack_top) finish(4);
    }
}
static inline void mem(const void* p)
{
    if (!on()) return;
    touch(p);
    if (!g_plan.memory) return;
    const T& t = g_t[tl_self];
    if ((char*)p >= t.lo && (char*)p < t.hi) return;
    reschedule(true, false, true);
}
static inline void atom(const volatile void* p)
{
    if (!on()) return;
    touch((const void*)p);
    reschedule(true);
}
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n)                                                                                                          \
    void __tsan_read##n(void* p) { mem(p); }                                                                           \
    void __tsan_write##n(void* p) { mem(p); }                                                                          \
    void __tsan_unaligned_read##n(void* p) { mem(p); }                                                                 \
    void __tsan_unaligned_write##n(void* p) { mem(p); }                                                                \
    void __tsan_volatile_read##n(void* p) { mem(p); }                                                                  \
    void __tsan_volatile_write##n(void* p) { mem(p); }                                                                 \
    void __tsan_read##n##_pc(void* p, void*) { mem(p); }                                                               \
    void __tsan_write##n##_pc(void* p, void*) { mem(p); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, long) { mem(p); }
void __tsan_write_range(void* p, long) { mem(p); }
void __tsan_vptr_update(void** p, void*) { mem(p); }
void __tsan_vptr_read(void** p) { mem(p); }
#define ATOMIC(n, t)                                                                                                   \
    t __tsan_atomic##n##_load(const volatile t* p, int) { atom(p); return __atomic_load_n(p, 5); }                     \
    void __tsan_atomic##n##_store(volatile t* p, t v, int) { atom(p); __atomic_store_n(p, v, 5); }                     \
    t __tsan_atomic##n##_exchange(volatile t* p, t v, int) { atom(p); return __atomic_exchange_n(p, v, 5); }           \
    t __tsan_atomic##n##_fetch_add(volatile t* p, t v, int) { atom(p); return __atomic_fetch_add(p, v, 5); }           \
    t __tsan_atomic##n##_fetch_sub(volatile t* p, t v, int) { atom(p); return __atomic_fetch_sub(p, v, 5); }           \
    t __tsan_atomic##n##_fetch_and(volatile t* p, t v, int) { atom(p); return __atomic_fetch_and(p, v, 5); }           \
    t __tsan_atomic##n##_fetch_or(volatile t* p, t v, int) { atom(p); return __atomic_fetch_or(p, v, 5); }             \
    t __tsan_atomic##n##_fetch_xor(volatile t* p, t v, int) { atom(p); return __atomic_fetch_xor(p, v, 5); }           \
    t __tsan_atomic##n##_fetch_nand(volatile t* p, t v, int) { atom(p); return __atomic_fetch_nand(p, v, 5); }         \
    int __tsan_atomic##n##_compare_exchange_strong(volatile t* p, t* c, t v, int, int)                                 \
    { atom(p); return __atomic_compare_exchange_n(p, c, v, false, 5, 5); }                                             \
    int __tsan_atomic##n##_compare_exchange_weak(volatile t* p, t* c, t v, int, int)                                   \
    { atom(p); return __atomic_compare_exchange_n(p, c, v, false, 5, 5); }                                             \
    t __tsan_atomic##n##_compare_exchange_val(volatile t* p, t c, t v, int, int)                                       \
    { atom(p); __atomic_compare_exchange_n(p, &c, v, false, 5, 5); return c; }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int) { if (on()) reschedule(true); }
void __tsan_atomic_signal_fence(int) {}
}
