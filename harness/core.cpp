#include "core.hpp"
#include <algorithm>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>
#include <exception>
#include <typeinfo>

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define VF_ASAN 1
#endif
#endif
#ifdef VF_ASAN
#include <sanitizer/common_interface_defs.h>
#include <sanitizer/asan_interface.h>
extern "C" const char* __asan_default_options()
{
    return "detect_leaks=0:abort_on_error=0:exitcode=77:detect_stack_use_after_return=0:"
        "handle_segv=1:allocator_may_return_null=1:log_to_syslog=0:malloc_context_size=8";
}
extern "C" const char* __ubsan_default_options()
{
    return "halt_on_error=1:print_stacktrace=0:exitcode=77";
}
#endif

namespace vf
{
    // ------------------------------------------------------------------
    // shared memory
    // ------------------------------------------------------------------
    enum { MAXLAB = 256, MAXSIG = 1 << 20, MSGLEN = 2048, MAXTAPE = 1 << 20, TRACELEN = 1 << 18 };
    struct WorkerShm
    {
        volatile uint64_t k;          // current case
        volatile uint64_t done;       // cases completed
        volatile uint64_t nontriv;
        volatile uint64_t foreign;
        volatile uint64_t steps;
        volatile int status;          // 0 running, 1 own failure, 2 foreign failure, 3 finished, 4 case ended early
        char msg[MSGLEN];
        struct { const char* name; uint64_t n; } lab[MAXLAB];
        volatile uint64_t nsig;
        volatile uint64_t ntape;
        volatile uint64_t ntrace;
        uint64_t nt_first[8]; volatile uint64_t n_nt_first;
        uint64_t sig[MAXSIG];
        uint32_t tape[MAXTAPE];
        char trace[TRACELEN];
    };
    static WorkerShm* shm;

    struct Rng
    {
        uint64_t s;
        uint64_t next()
        {
            uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
            z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
            z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
            return z ^ (z >> 31);
        }
    };
    uint64_t hash64(uint64_t v) { Rng r{v}; return r.next(); }

    struct CaseCtx
    {
        bool replaying = false;
        const uint32_t* in = nullptr;
        size_t nin = 0;
        Rng rng{0};
        size_t pos = 0;
        bool record = false;
        bool tracing = false;
        uint64_t sig = 0;
        bool nt = false;
        std::vector<const char*> labels;
    };
    static CaseCtx cx;
    static std::string g_prop;
    static bool g_thorough;

    size_t tape_pos() { return cx.pos; }
    bool thorough() { return g_thorough; }

    uint32_t draw(uint32_t n)
    {
        if (n <= 1) return 0;
        uint32_t v;
        if (cx.replaying)
            v = cx.pos < cx.nin ? cx.in[cx.pos] % n : 0;
        else
            v = static_cast<uint32_t>((cx.rng.next() >> 11) % n);
        if (cx.record && cx.pos < MAXTAPE)
        {
            shm->tape[cx.pos] = v;
            shm->ntape = cx.pos + 1;
        }
        ++cx.pos;
        return v;
    }
    bool chance(uint32_t num, uint32_t den) { return num && draw(den) >= den - num; }
    uint32_t wpick(std::initializer_list<uint32_t> w)
    {
        uint32_t t = 0;
        for (auto x : w) t += x;
        uint32_t v = draw(t), i = 0;
        for (auto x : w) { if (v < x) return i; v -= x; ++i; }
        return 0;
    }
    uint32_t range(uint32_t lo, uint32_t hi)
    {
        if (hi <= lo) return lo;
        uint32_t n = hi - lo + 1;
        uint32_t mode = draw(4);
        if (mode < 3 && n > 4) n = mode == 0 ? 4 : (mode == 1 ? std::min<uint32_t>(n, 16) : n);
        return lo + draw(n);
    }

    void label(const char* name) { cx.labels.push_back(name); }
    void mix(uint64_t v) { cx.sig = hash64(cx.sig ^ v); }
    void mixs(const std::string& s)
    {
        uint64_t h = 1469598103934665603ULL;
        for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; }
        mix(h);
    }
    void nontrivial() { cx.nt = true; }
    bool tracing() { return cx.tracing; }
    static void trace_add(const char* s)
    {
        size_t l = strlen(s);
        uint64_t n = shm->ntrace;
        if (n + l + 2 < TRACELEN)
        {
            memcpy(shm->trace + n, s, l);
            shm->trace[n + l] = '\n';
            shm->trace[n + l + 1] = 0;
            shm->ntrace = n + l + 1;
        }
    }
    void trace(const char* fmt, ...)
    {
        if (!cx.tracing) return;
        char b[1024];
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(b, sizeof b, fmt, ap);
        va_end(ap);
        trace_add(b);
    }
    const char* property() { return g_prop.c_str(); }
    bool prop_is(const char* list)
    {
        if (!strcmp(list, "*")) return true;
        const char* p = list;
        while ((p = strstr(p, g_prop.c_str())))
        {
            char e = p[g_prop.size()];
            if ((p == list || p[-1] == ' ') && (e == 0 || e == ' ')) return true;
            ++p;
        }
        return false;
    }
    std::string strf(const char* fmt, ...)
    {
        char b[2048];
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(b, sizeof b, fmt, ap);
        va_end(ap);
        return b;
    }
    std::string hex(const std::string& s)
    {
        std::string r;
        char b[4];
        for (unsigned char c : s) { snprintf(b, sizeof b, "%02x", c); r += b; }
        return r;
    }

    static void die(int status, const char* m)
    {
        snprintf(shm->msg, MSGLEN, "%s", m);
        shm->status = status;
        if (cx.tracing) { std::string s = std::string("FAIL ") + m; trace_add(s.c_str()); }
        _exit(status == 1 ? 10 : 11);
    }
    void fail(const char* props, const char* fmt, ...)
    {
        char b[MSGLEN - 64];
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(b, sizeof b, fmt, ap);
        va_end(ap);
        if (prop_is(props) || getenv("VF_ALL")) die(1, b);
        std::string s = std::string("[") + props + "] " + b;
        die(2, s.c_str());
        __builtin_unreachable();
    }
}

extern "C" void __assert_fail(const char* e, const char* file, unsigned line, const char* fn)
{
    const char* f = strrchr(file, '/');
    vf::fail("*", "internal check failed: %s (%s:%u %s)", e, f ? f + 1 : file, line, fn);
}
extern "C" void __assert_fail(const char*, const char*, unsigned, const char*);
namespace std
{
    void __glibcxx_assert_fail(const char* file, int line, const char* fn, const char* cond) noexcept
    {
        vf::fail("*", "library precondition failed: %s (%s:%d %s)", cond, file ? file : "", line, fn ? fn : "");
    }
}

// ------------------------------------------------------------------
// virtual time and sleeping
// ------------------------------------------------------------------
namespace vf
{
    static uint64_t g_vtime = 1000000000ULL * 1000;
    static bool g_virtual;
    uint64_t vnow() { return g_vtime; }
    void vadvance(uint64_t ns) { g_vtime += ns; }
    static double wall()
    {
        struct timespec ts;
        syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
        return ts.tv_sec + ts.tv_nsec * 1e-9;
    }
    static void vsleep(uint64_t ns) { g_vtime += ns; if (current()) yield(); }
}
extern "C" int usleep(useconds_t us)
{
    if (vf::g_virtual) { vf::vsleep(uint64_t(us) * 1000); return 0; }
    struct timespec ts = { time_t(us / 1000000), long(us % 1000000) * 1000 };
    return (int)syscall(SYS_nanosleep, &ts, nullptr);
}
extern "C" int nanosleep(const struct timespec* r, struct timespec* rem)
{
    if (vf::g_virtual) { vf::vsleep(uint64_t(r->tv_sec) * 1000000000ULL + r->tv_nsec); return 0; }
    return (int)syscall(SYS_nanosleep, r, rem);
}
extern "C" int clock_nanosleep(clockid_t c, int f, const struct timespec* r, struct timespec* rem)
{
    if (vf::g_virtual)
    {
        uint64_t t = uint64_t(r->tv_sec) * 1000000000ULL + r->tv_nsec;
        if (f & TIMER_ABSTIME) { if (t > vf::g_vtime) vf::vsleep(t - vf::g_vtime); }
        else vf::vsleep(t);
        return 0;
    }
    return (int)syscall(SYS_clock_nanosleep, c, f, r, rem);
}
extern "C" int clock_gettime(clockid_t c, struct timespec* ts) noexcept
{
    if (vf::g_virtual)
    {
        uint64_t t = vf::g_vtime + (c == CLOCK_REALTIME ? 1600000000000000000ULL : 0);
        ts->tv_sec = time_t(t / 1000000000ULL);
        ts->tv_nsec = long(t % 1000000000ULL);
        return 0;
    }
    return (int)syscall(SYS_clock_gettime, c, ts);
}

// ------------------------------------------------------------------
// fibres
// ------------------------------------------------------------------
namespace vf
{
    enum { STACKSZ = 256 * 1024 };
    struct Fiber
    {
        int id = 0;
        std::string name;
        std::function<void()> fn;
        bool daemon = false;
        int group = 0;
        ucontext_t uc;
        void* stack = nullptr;
        bool done = false;
        bool killed = false;
        bool blocked = false;
        const char* why = "";
        std::function<bool()> pred;
        void* fake = nullptr;
    };
    static std::vector<Fiber*> fibers;
    static Fiber* cur;
    static ucontext_t main_uc;
    static void* main_fake;
    static const void* main_bottom; static size_t main_size;
    static uint32_t switch_rate;
    static uint32_t countdown;
    static bool spurious;
    static uint64_t steps, step_limit = 200000;
    static std::function<void()> deadlock_hook;
    static std::vector<void*> stack_pool;
    static bool in_end;

    Fiber* current() { return cur; }
    int current_id() { return cur ? cur->id : 0; }
    bool fiber_done(Fiber* f) { return f->done; }
    void set_switch_rate(uint32_t m) { switch_rate = m; countdown = 0; }
    void set_spurious(bool b) { spurious = b; }
    void set_step_limit(uint64_t n) { step_limit = n; }
    void set_deadlock_hook(std::function<void()> f) { deadlock_hook = f; }
    void kill_group(int g) { for (auto f : fibers) if (f->group == g) f->killed = true; }

    static void switch_to_main()
    {
        Fiber* f = cur;
#ifdef VF_ASAN
        __sanitizer_start_switch_fiber(&f->fake, main_bottom, main_size);
#endif
        swapcontext(&f->uc, &main_uc);
#ifdef VF_ASAN
        __sanitizer_finish_switch_fiber(f->fake, &main_bottom, &main_size);
#endif
    }
    static void tramp()
    {
#ifdef VF_ASAN
        __sanitizer_finish_switch_fiber(nullptr, &main_bottom, &main_size);
#endif
        Fiber* f = cur;
        f->fn();
        f->done = true;
        switch_to_main();
    }
    Fiber* spawn(const std::string& name, std::function<void()> fn, bool daemon, int group)
    {
        Fiber* f = new Fiber;
        f->id = static_cast<int>(fibers.size()) + 1;
        f->name = name;
        f->fn = std::move(fn);
        f->daemon = daemon;
        f->group = group;
        if (!stack_pool.empty()) { f->stack = stack_pool.back(); stack_pool.pop_back(); }
        else f->stack = mmap(nullptr, STACKSZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        getcontext(&f->uc);
        f->uc.uc_stack.ss_sp = f->stack;
        f->uc.uc_stack.ss_size = STACKSZ;
        f->uc.uc_link = nullptr;
        makecontext(&f->uc, tramp, 0);
        fibers.push_back(f);
        return f;
    }
    static bool runnable(Fiber* f)
    {
        if (f->done || f->killed) return false;
        if (!f->blocked) return true;
        if (f->pred && f->pred()) return true;
        return false;
    }
    std::string dump_fibers()
    {
        std::string s;
        for (auto f : fibers)
            if (!f->done)
                s += (s.empty() ? "" : ", ") + f->name + (f->killed ? "(killed)" : f->blocked ? std::string("(waits for ") + f->why + ")" : "(ready)");
        return s;
    }
    struct EndCase { };
    static Fiber* next_fiber;
    void run(bool drain)
    {
        std::vector<Fiber*> r;
        for (;;)
        {
            bool alive = false;
            for (auto f : fibers) if (!f->done && !f->killed && !f->daemon) alive = true;
            if (!alive)
            {
                if (!drain) return;
                bool any = false;
                for (auto f : fibers) if (runnable(f)) any = true;
                if (!any) return;
            }
            Fiber* n = next_fiber;
            next_fiber = nullptr;
            if (!n)
            {
                r.clear();
                for (auto f : fibers) if (runnable(f)) r.push_back(f);
                if (r.empty())
                {
                    if (deadlock_hook) deadlock_hook();
                    fail("*", "deadlock: no thread can proceed: %s", dump_fibers().c_str());
                }
                n = r[draw(static_cast<uint32_t>(r.size()))];
            }
            n->blocked = false;
            n->pred = nullptr;
            cur = n;
#ifdef VF_ASAN
            __sanitizer_start_switch_fiber(&main_fake, n->stack, STACKSZ);
#endif
            swapcontext(&main_uc, &n->uc);
#ifdef VF_ASAN
            __sanitizer_finish_switch_fiber(main_fake, nullptr, nullptr);
#endif
            cur = nullptr;
            if (in_end) { in_end = false; throw EndCase(); }
        }
    }
    static void arm()
    {
        if (!switch_rate) { countdown = ~0u; return; }
        const uint32_t m = switch_rate * 2;
        uint32_t v = draw(m * 4);
        countdown = v ? 1 + (v - 1) % m : 2000;
    }
    void yield()
    {
        if (!cur) return;
        if (++steps > step_limit)
            fail("*", "no progress: step limit reached: %s", dump_fibers().c_str());
        if (!switch_rate) return;
        if (countdown == 0) arm();
        if (--countdown) return;
        // choose another runnable fibre
        std::vector<Fiber*> r;
        for (auto f : fibers) if (f != cur && runnable(f)) r.push_back(f);
        if (r.empty()) return;
        next_fiber = r[draw(static_cast<uint32_t>(r.size()))];
        switch_to_main();
    }
    static void block(const char* why, std::function<bool()> pred)
    {
        if (++steps > step_limit)
            fail("*", "no progress: step limit reached: %s", dump_fibers().c_str());
        cur->blocked = true;
        cur->why = why;
        cur->pred = std::move(pred);
        switch_to_main();
    }
    void wait_for(const char* what, std::function<bool()> pred)
    {
        if (!cur)
        {
            if (!pred()) fail("*", "deadlock: single thread waits for %s", what);
            return;
        }
        yield();
        while (!pred()) block(what, pred);
    }
    static Fiber main_fiber_tag;
    static Fiber* self() { return cur ? cur : &main_fiber_tag; }
    bool Mutex::mine() const { return owner_ == self(); }
    void Mutex::lock()
    {
        if (owner_ == self())
            fail("*", "self-deadlock: thread locks %s it already holds", name_);
        yield();
        while (owner_)
        {
            if (!cur) fail("*", "deadlock on %s in single threaded run", name_);
            block(name_, [this]() { return owner_ == nullptr; });
        }
        owner_ = self();
    }
    void Mutex::unlock()
    {
        if (owner_ != self())
            fail("*", "%s unlocked by a thread not holding it", name_);
        owner_ = nullptr;
        yield();
    }
    void Cond::notify_one()
    {
        if (waiters_.empty()) return;
        size_t i = draw(static_cast<uint32_t>(waiters_.size()));
        Fiber* f = waiters_[i];
        waiters_.erase(waiters_.begin() + i);
        (void)f;
    }
    void Cond::notify_all() { waiters_.clear(); }
    void Cond::wait(wsrep::unique_lock<wsrep::mutex>& lk)
    {
        if (!lk.owns_lock()) fail("*", "condition wait without the lock");
        Mutex* m = static_cast<Mutex*>(lk.mutex());
        if (m->owner_ != self()) fail("*", "condition wait with a lock held by another thread");
        if (!cur) fail("*", "deadlock: waits for %s in single threaded run", name_);
        if (spurious && chance(1, 8))
        {
            m->unlock();
            m->lock();
            return;
        }
        Fiber* me = cur;
        waiters_.push_back(me);
        m->owner_ = nullptr;
        block(name_, [this, me]() {
            return std::find(waiters_.begin(), waiters_.end(), me) == waiters_.end(); });
        while (m->owner_) block(m->name_, [m]() { return m->owner_ == nullptr; });
        m->owner_ = self();
    }
    static void reset_fibers()
    {
        for (auto f : fibers)
        {
#ifdef VF_ASAN
            ASAN_UNPOISON_MEMORY_REGION(f->stack, STACKSZ);
#endif
            stack_pool.push_back(f->stack);
            delete f;
        }
        fibers.clear();
        cur = nullptr;
        next_fiber = nullptr;
        switch_rate = 0;
        countdown = 0;
        spurious = false;
        steps = 0;
        step_limit = 200000;
        deadlock_hook = nullptr;
        in_end = false;
        g_vtime = 1000000000ULL * 1000;
    }
    void end_case()
    {
        if (cur)
        {
            in_end = true;
            switch_to_main();
            __builtin_unreachable();
        }
        throw EndCase();
    }
}
extern "C" unsigned long vf_pthread_self(void) noexcept
{
    return 4096ul + static_cast<unsigned long>(vf::current_id());
}

// ------------------------------------------------------------------
// driver
// ------------------------------------------------------------------
namespace vf
{
    static std::vector<Engine>& engines() { static std::vector<Engine> e; return e; }
    void register_engine(const Engine& e) { engines().push_back(e); }

    static void on_signal(int sig)
    {
        char b[64];
        if (sig == SIGALRM || sig == SIGVTALRM) snprintf(b, sizeof b, "hang: case does not finish");
        else snprintf(b, sizeof b, "crash: signal %d", sig);
        memcpy(shm->msg, b, strlen(b) + 1);
        shm->status = 1;
        _exit(10);
    }
    static void on_terminate()
    {
        const char* what = "unknown exception";
        static char buf[512];
        try { std::exception_ptr p = std::current_exception(); if (p) std::rethrow_exception(p); }
        catch (const std::exception& e) { snprintf(buf, sizeof buf, "%s", e.what()); what = buf; }
        catch (...) { }
        static char m[600];
        snprintf(m, sizeof m, "crash: unhandled exception: %s", what);
        die(1, m);
    }
    static void install_handlers()
    {
        std::set_terminate(on_terminate);
        static char alt[65536];
        stack_t ss;
        memset(&ss, 0, sizeof ss);
        ss.ss_sp = alt;
        ss.ss_size = sizeof alt;
        sigaltstack(&ss, nullptr);
        struct sigaction sa;
        memset(&sa, 0, sizeof sa);
        sa.sa_handler = on_signal;
        sa.sa_flags = SA_ONSTACK;
        int sigs[] = { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGALRM, SIGVTALRM };
        for (int s : sigs)
        {
#ifdef VF_ASAN
            if (s == SIGSEGV || s == SIGBUS || s == SIGFPE) continue;
#endif
            sigaction(s, &sa, nullptr);
        }
    }
#ifdef VF_ASAN
    static void asan_report(const char* r)
    {
        // Only the first line, with addresses stripped.
        const char* p = strstr(r, "ERROR: ");
        const char* q = p ? p : r;
        char b[300];
        size_t i = 0;
        for (; q[i] && q[i] != '\n' && i < sizeof b - 1; ++i) b[i] = q[i];
        b[i] = 0;
        char m[400];
        snprintf(m, sizeof m, "sanitizer: %s", b);
        die(1, m);
    }
#endif
    extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));

    static void run_case(const Engine& e)
    {
        cx.sig = 0;
        cx.nt = false;
        cx.labels.clear();
        cx.pos = 0;
        reset_fibers();
        struct itimerval it;
        memset(&it, 0, sizeof it);
        it.it_value.tv_sec = 25;
        setitimer(ITIMER_VIRTUAL, &it, nullptr);
        alarm(120);
        g_virtual = true;
        try { e.fn(); }
        catch (const EndCase&) { }
        catch (const std::exception& ex)
        {
            fail("*", "crash: unhandled exception: %s", ex.what());
        }
        g_virtual = false;
        shm->steps += steps;
        reset_fibers();
    }

    struct Opt
    {
        std::string engine;
        uint64_t seed = 1;
        uint64_t cases = 1000;
        double time = 60;
        int jobs = 8;
        std::string out, replay_out;
        double shrink_time = 30;
    };
    static uint64_t case_seed(const Opt& o, uint64_t k)
    {
        uint64_t h = hash64(o.seed * 0x9e3779b97f4a7c15ULL + 17);
        for (unsigned char c : o.engine + "/" + g_prop) h = hash64(h ^ c);
        return hash64(h ^ (k * 0xd1342543de82ef95ULL + 1));
    }
    static const Engine& find_engine(const std::string& n)
    {
        for (auto& e : engines()) if (n == e.name) return e;
        fprintf(stderr, "no engine %s\n", n.c_str());
        exit(2);
    }
    static void commit_case_stats(uint64_t k)
    {
        WorkerShm* s = shm;
        s->done = s->done + 1;
        for (auto l : cx.labels)
        {
            for (int i = 0; i < MAXLAB; ++i)
            {
                if (s->lab[i].name == l) { ++s->lab[i].n; break; }
                if (!s->lab[i].name) { s->lab[i].name = l; s->lab[i].n = 1; break; }
            }
        }
        if (cx.nt)
        {
            s->nontriv = s->nontriv + 1;
            if (s->nsig < MAXSIG) { s->sig[s->nsig] = cx.sig; s->nsig = s->nsig + 1; }
            if (s->n_nt_first < 8) { s->nt_first[s->n_nt_first] = k; s->n_nt_first = s->n_nt_first + 1; }
        }
    }
    static void worker(const Opt& o, const Engine& e, int w, uint64_t from, double deadline)
    {
        install_handlers();
#ifdef VF_ASAN
        __asan_set_error_report_callback(asan_report);
#endif
        uint64_t batch = 0;
        for (uint64_t k = from; k < o.cases; k += static_cast<uint64_t>(o.jobs))
        {
            if (wall() > deadline) break;
            shm->k = k;
            cx = CaseCtx();
            cx.rng.s = case_seed(o, k);
            run_case(e);
            commit_case_stats(k);
            if (++batch >= 4000 && k + static_cast<uint64_t>(o.jobs) < o.cases) { shm->status = 5; _exit(0); }
        }
        (void)w;
        shm->status = 3;
        _exit(0);
    }
    struct Result { bool failed; bool own; std::string msg; std::vector<uint32_t> tape; std::string trace; };
    static WorkerShm* trial_shm;
    // Run one case in a child: either by seed (in == null) or from a tape
    static Result trial(const Engine& e, const uint64_t* seed, const std::vector<uint32_t>* in, bool tr)
    {
        shm = trial_shm;
        shm->status = 0;
        shm->msg[0] = 0;
        shm->ntape = 0;
        shm->ntrace = 0;
        shm->trace[0] = 0;
        fflush(stdout);
        static int efd = static_cast<int>(syscall(SYS_memfd_create, "stderr", 0));
        if (ftruncate(efd, 0)) { }
        lseek(efd, 0, SEEK_SET);
        pid_t p = fork();
        if (!p)
        {
            dup2(efd, 2);
            install_handlers();
#ifdef VF_ASAN
            __asan_set_error_report_callback(asan_report);
#endif
            cx = CaseCtx();
            if (in) { cx.replaying = true; cx.in = in->data(); cx.nin = in->size(); }
            else cx.rng.s = *seed;
            cx.record = true;
            cx.tracing = tr;
            run_case(e);
            shm->status = 3;
            _exit(0);
        }
        int st = 0;
        waitpid(p, &st, 0);
        Result r;
        r.failed = false;
        r.own = false;
        if (shm->status == 1) { r.failed = true; r.own = true; r.msg = shm->msg; }
        else if (shm->status == 2) { r.failed = true; r.msg = shm->msg; }
        else if (shm->status != 3)
        {
            r.failed = true;
            r.own = true;
            r.msg = WIFSIGNALED(st) ? strf("crash: killed by signal %d", WTERMSIG(st)) : strf("crash: exit %d", WEXITSTATUS(st));
            char eb[4096];
            ssize_t en = pread(efd, eb, sizeof eb - 1, 0);
            if (en > 0)
            {
                eb[en] = 0;
                const char* q = strstr(eb, "runtime error");
                if (!q) q = strstr(eb, "ERROR:");
                if (q)
                {
                    const char* b = q;
                    while (b > eb && b[-1] != '\n') --b;
                    r.msg += std::string(": ") + std::string(b, strcspn(b, "\n")).substr(0, 300);
                }
            }
        }
        r.tape.assign(shm->tape, shm->tape + shm->ntape);
        r.trace = std::string(shm->trace, shm->ntrace);
        return r;
    }
    static std::vector<uint32_t> shrink(const Engine& e, std::vector<uint32_t> t, double budget, uint64_t& trials)
    {
        double end = wall() + budget;
        auto bad = [&](const std::vector<uint32_t>& c, std::vector<uint32_t>* eff) {
            ++trials;
            Result r = trial(e, nullptr, &c, false);
            if (r.own && r.failed)
            {
                if (eff) *eff = r.tape.size() <= c.size() ? r.tape : c;
                return true;
            }
            return false;
        };
        auto trim = [](std::vector<uint32_t>& v) { while (!v.empty() && v.back() == 0) v.pop_back(); };
        trim(t);
        bool progress = true;
        while (progress && wall() < end)
        {
            progress = false;
            for (size_t len = std::max<size_t>(t.size() / 2, 1); len >= 1 && wall() < end; len /= 2)
            {
                for (size_t i = 0; i < t.size() && wall() < end; )
                {
                    std::vector<uint32_t> c = t;
                    c.erase(c.begin() + static_cast<long>(i), c.begin() + static_cast<long>(std::min(i + len, c.size())));
                    std::vector<uint32_t> eff;
                    if (bad(c, &eff)) { t = eff; trim(t); progress = true; }
                    else
                    {
                        bool zeroed = false;
                        if (len <= 8)
                        {
                            c = t;
                            bool any = false;
                            for (size_t j = i; j < std::min(i + len, c.size()); ++j) { if (c[j]) any = true; c[j] = 0; }
                            if (any && bad(c, &eff)) { t = eff; trim(t); progress = true; zeroed = true; }
                        }
                        (void)zeroed;
                        i += len;
                    }
                }
                if (len == 1) break;
            }
            for (size_t i = 0; i < t.size() && wall() < end; ++i)
            {
                while (t[i] > 1 && wall() < end)
                {
                    std::vector<uint32_t> c = t;
                    c[i] = t[i] / 2;
                    if (!bad(c, nullptr)) break;
                    t = c;
                    progress = true;
                }
                if (t[i] > 0)
                {
                    std::vector<uint32_t> c = t;
                    c[i] = t[i] - 1;
                    if (bad(c, nullptr)) { t = c; progress = true; }
                }
            }
            trim(t);
        }
        return t;
    }
    static std::string jesc(const std::string& s)
    {
        std::string r;
        for (unsigned char c : s)
        {
            if (c == '"' || c == '\\') { r += '\\'; r += static_cast<char>(c); }
            else if (c == '\n') r += "\\n";
            else if (c < 32 || c > 126) r += strf("\\u%04x", c);
            else r += static_cast<char>(c);
        }
        return r;
    }
    static WorkerShm* map_shm()
    {
        void* p = mmap(nullptr, sizeof(WorkerShm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        if (p == MAP_FAILED) { perror("mmap"); exit(2); }
        return static_cast<WorkerShm*>(p);
    }
    static int cmd_run(const Opt& o)
    {
        const Engine& e = find_engine(o.engine);
        trial_shm = map_shm();
        std::vector<WorkerShm*> ws;
        std::map<pid_t, int> pids;
        double t0 = wall(), deadline = t0 + o.time;
        auto start = [&](int w, uint64_t from) {
            fflush(stdout);
            pid_t p = fork();
            if (!p) { shm = ws[static_cast<size_t>(w)]; shm->status = 0; worker(o, e, w, from, deadline); }
            pids[p] = w;
        };
        for (int w = 0; w < o.jobs; ++w) ws.push_back(map_shm());
        for (int w = 0; w < o.jobs; ++w) start(w, static_cast<uint64_t>(w));
        bool failed = false;
        uint64_t fail_k = 0;
        std::string fmsg;
        std::map<std::string, uint64_t> foreign;
        uint64_t nforeign = 0;
        while (!pids.empty())
        {
            int st = 0;
            pid_t p = waitpid(-1, &st, 0);
            if (p < 0) break;
            auto it = pids.find(p);
            if (it == pids.end()) continue;
            int w = it->second;
            pids.erase(it);
            WorkerShm* s = ws[static_cast<size_t>(w)];
            if (s->status == 3) continue;
            if (s->status == 5)
            {
                if (!failed) start(w, s->k + static_cast<uint64_t>(o.jobs));
                continue;
            }
            if (s->status == 2)
            {
                ++nforeign;
                s->foreign = s->foreign + 1;
                ++foreign[std::string(s->msg).substr(0, 160)];
                if (wall() < deadline && !failed && nforeign < 4000) start(w, s->k + static_cast<uint64_t>(o.jobs));
                continue;
            }
            if (failed && s->status == 0 && WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) continue; // stopped by us
            std::string m = s->status == 1 ? std::string(s->msg)
                : (WIFSIGNALED(st) ? strf("crash: killed by signal %d", WTERMSIG(st)) : strf("crash: exit %d", WEXITSTATUS(st)));
            if (!failed || s->k < fail_k) { fail_k = s->k; fmsg = m; }
            if (!failed)
            {
                failed = true;
                for (auto& x : pids) kill(x.first, SIGKILL);
            }
        }
        uint64_t done = 0, nt = 0, nsteps = 0;
        std::set<uint64_t> sigs;
        std::map<std::string, uint64_t> labs;
        std::vector<uint64_t> ntk;
        for (auto s : ws)
        {
            done += s->done;
            nt += s->nontriv;
            nsteps += s->steps;
            for (uint64_t i = 0; i < s->nsig; ++i) sigs.insert(s->sig[i]);
            for (int i = 0; i < MAXLAB && s->lab[i].name; ++i) labs[s->lab[i].name] += s->lab[i].n;
            for (uint64_t i = 0; i < s->n_nt_first; ++i) ntk.push_back(s->nt_first[i]);
        }
        std::sort(ntk.begin(), ntk.end());
        double t_explore = wall() - t0;
        std::vector<std::string> samples;
        for (size_t i = 0; i < ntk.size() && samples.size() < 3; ++i)
        {
            uint64_t sd = case_seed(o, ntk[i]);
            Result r = trial(e, &sd, nullptr, true);
            std::string t = r.trace.substr(0, 1500);
            samples.push_back(strf("case %llu: ", (unsigned long long)ntk[i]) + t);
        }
        int rc = 0;
        std::string replay;
        uint64_t trials = 0;
        if (failed)
        {
            uint64_t sd = case_seed(o, fail_k);
            Result r = trial(e, &sd, nullptr, true);
            if (!(r.failed && r.own))
            {
                // Possibly dependent on state left by earlier cases: not reproducible from the tape.
                fprintf(stderr, "failure of case %llu not reproduced in isolation: %s\n", (unsigned long long)fail_k, fmsg.c_str());
                rc = 3;
            }
            else
            {
                std::vector<uint32_t> t = r.tape;
                t = shrink(e, t, o.shrink_time, trials);
                int good = 0;
                Result last;
                for (int i = 0; i < 3; ++i) { last = trial(e, nullptr, &t, true); if (last.failed && last.own) ++good; }
                if (good < 3)
                {
                    t = r.tape;
                    good = 0;
                    for (int i = 0; i < 3; ++i) { last = trial(e, nullptr, &t, true); if (last.failed && last.own) ++good; }
                }
                if (good == 3)
                {
                    rc = 1;
                    replay = o.replay_out;
                    FILE* f = fopen(replay.c_str(), "w");
                    if (f)
                    {
                        fprintf(f, "{\"property\":\"%s\",\"engine\":\"%s\",\"seed\":%llu,\"case\":%llu,\"shrink_trials\":%llu,\"message\":\"%s\",\n\"tape\":[",
                                g_prop.c_str(), o.engine.c_str(), (unsigned long long)o.seed, (unsigned long long)fail_k,
                                (unsigned long long)trials, jesc(last.msg).c_str());
                        for (size_t i = 0; i < t.size(); ++i) fprintf(f, "%s%u", i ? "," : "", t[i]);
                        fprintf(f, "],\n\"trace\":\"%s\"}\n", jesc(last.trace).c_str());
                        fclose(f);
                    }
                    fmsg = last.msg;
                }
                else
                {
                    fprintf(stderr, "failure of case %llu not stable: %s\n", (unsigned long long)fail_k, fmsg.c_str());
                    rc = 3;
                }
            }
        }
        FILE* f = o.out.empty() ? stdout : fopen(o.out.c_str(), "w");
        fprintf(f, "{\"engine\":\"%s\",\"rc\":%d,\"requested\":%llu,\"evaluations\":%llu,\"nontrivial\":%llu,\"distinct_nontrivial\":%llu,"
                "\"foreign\":%llu,\"steps\":%llu,\"explore_s\":%.2f,\"wall_s\":%.2f,\"rule\":\"%s\",\"message\":\"%s\",\"replay\":\"%s\",\"labels\":{",
                o.engine.c_str(), rc, (unsigned long long)o.cases, (unsigned long long)done, (unsigned long long)nt,
                (unsigned long long)sigs.size(), (unsigned long long)nforeign, (unsigned long long)nsteps, t_explore, wall() - t0,
                jesc(e.rule).c_str(), failed ? jesc(fmsg).c_str() : "", replay.c_str());
        bool first = true;
        for (auto& l : labs) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", l.first.c_str(), (unsigned long long)l.second); first = false; }
        fprintf(f, "},\"foreign_msgs\":{");
        first = true;
        for (auto& l : foreign) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", jesc(l.first).c_str(), (unsigned long long)l.second); first = false; }
        fprintf(f, "},\"samples\":[");
        for (size_t i = 0; i < samples.size(); ++i) fprintf(f, "%s\"%s\"", i ? "," : "", jesc(samples[i]).c_str());
        fprintf(f, "]}\n");
        if (f != stdout) fclose(f);
        return rc;
    }
    static int cmd_replay(const Opt& o, const std::string& file)
    {
        FILE* f = fopen(file.c_str(), "r");
        if (!f) { perror("open"); return 2; }
        std::string s;
        char b[65536];
        size_t n;
        while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n);
        fclose(f);
        std::vector<uint32_t> t;
        size_t p = s.find("\"tape\"");
        if (p != std::string::npos) p = s.find('[', p);
        if (p != std::string::npos)
        {
            p += 1;
            while (p < s.size() && s[p] != ']')
            {
                t.push_back(static_cast<uint32_t>(strtoul(s.c_str() + p, nullptr, 10)));
                while (p < s.size() && s[p] != ',' && s[p] != ']') ++p;
                if (p < s.size() && s[p] == ',') ++p;
            }
        }
        trial_shm = map_shm();
        Result r = trial(find_engine(o.engine), nullptr, &t, true);
        printf("%s", r.trace.c_str());
        printf("%s%s\n", r.failed ? (r.own ? "FAILED: " : "FAILED (other property): ") : "passed", r.msg.c_str());
        return r.failed && r.own ? 1 : 0;
    }
    int driver_main(int argc, char** argv)
    {
        Opt o;
        std::string cmd = argc > 1 ? argv[1] : "";
        std::string file;
        uint64_t only = ~0ull;
        for (int i = 2; i < argc; ++i)
        {
            std::string a = argv[i];
            auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
            if (a == "--engine") o.engine = val();
            else if (a == "--prop") g_prop = val();
            else if (a == "--seed") o.seed = strtoull(val().c_str(), nullptr, 10);
            else if (a == "--cases") o.cases = strtoull(val().c_str(), nullptr, 10);
            else if (a == "--time") o.time = atof(val().c_str());
            else if (a == "--jobs") o.jobs = atoi(val().c_str());
            else if (a == "--out") o.out = val();
            else if (a == "--replay-out") o.replay_out = val();
            else if (a == "--shrink-time") o.shrink_time = atof(val().c_str());
            else if (a == "--thorough") g_thorough = true;
            else if (a == "--file") file = val();
            else if (a == "--case") only = strtoull(val().c_str(), nullptr, 10);
        }
        if (cmd == "run") return cmd_run(o);
        if (cmd == "replay") return cmd_replay(o, file);
        if (cmd == "case")
        {
            trial_shm = map_shm();
            uint64_t sd = case_seed(o, only);
            Result r = trial(find_engine(o.engine), &sd, nullptr, true);
            printf("%s%s %s\n", r.trace.c_str(), r.failed ? (r.own ? "FAILED:" : "FOREIGN:") : "passed", r.msg.c_str());
            return 0;
        }
        fprintf(stderr, "usage\n");
        return 2;
    }
}
int main(int argc, char** argv) { return vf::driver_main(argc, argv); }
