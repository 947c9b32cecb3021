// Core of the generated-input search: choice tape, case context, oracle failure
// reporting, deterministic fibre scheduler with wsrep mutex/condvar implementations,
// virtual time and the forking driver.
#ifndef VF_CORE_HPP
#define VF_CORE_HPP
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <functional>
#include <initializer_list>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

#include "wsrep/mutex.hpp"
#include "wsrep/lock.hpp"
#include "wsrep/condition_variable.hpp"

namespace vf
{
    // ---- choice tape -------------------------------------------------
    // Value in [0, n); 0 is by convention the simplest choice.
    uint32_t draw(uint32_t n);
    // True with probability num/den (false is the simple choice).
    bool chance(uint32_t num, uint32_t den);
    template <class T> const T& pick(const std::vector<T>& v)
    { return v[draw(static_cast<uint32_t>(v.size()))]; }
    // Weighted index.
    uint32_t wpick(std::initializer_list<uint32_t> weights);
    // Small-biased number in [lo, hi].
    uint32_t range(uint32_t lo, uint32_t hi);
    size_t tape_pos();

    // ---- case context ------------------------------------------------
    void label(const char* name); // static string: class of behaviour seen
    void mix(uint64_t v);         // contributes to the case's signature
    void mixs(const std::string&);
    void nontrivial();            // case is non-trivial by the engine's rule
    bool tracing();
    void trace(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
    const char* property();       // property being decided, e.g. "C01"
    bool prop_is(const char* list);
    // Oracle failure. 'props' is a space separated list of the properties that
    // the observation contradicts, "*" for all.
    [[noreturn]] void fail(const char* props, const char* fmt, ...)
        __attribute__((format(printf, 2, 3)));
#define VCHECK(props, cond, ...)                                        \
    do { if (!(cond)) ::vf::fail(props, __VA_ARGS__); } while (0)
    // End the case here quietly (e.g. model says nothing beyond this point).
    [[noreturn]] void end_case();
    bool thorough();

    // ---- virtual time ------------------------------------------------
    uint64_t vnow();             // ns
    void vadvance(uint64_t ns);

    // ---- fibres ------------------------------------------------------
    struct Fiber;
    Fiber* current();
    int current_id();
    Fiber* spawn(const std::string& name, std::function<void()> fn,
                 bool daemon = false, int group = 0);
    // Run until every non daemon fibre is done. On deadlock calls the hook (if
    // any) and then fails with "*".
    void run(bool drain = false); // drain: let daemons run until none can proceed
    void yield();                 // scheduling point
    void set_switch_rate(uint32_t mean_steps); // 0: never switch voluntarily
    void set_spurious(bool);
    void set_step_limit(uint64_t);
    void kill_group(int group);   // never schedule fibres of the group again
    bool fiber_done(Fiber*);
    // Block until pred() holds; predicate is evaluated by the scheduler
    void wait_for(const char* what, std::function<bool()> pred);
    void set_deadlock_hook(std::function<void()>);
    std::string dump_fibers();

    class Mutex : public wsrep::mutex
    {
    public:
        explicit Mutex(const char* name = "mutex") : name_(name), owner_() { }
        ~Mutex() override { }
        void lock() override;
        void unlock() override;
        void* native() override { return this; }
        bool locked() const { return owner_ != 0; }
        bool mine() const;
        const char* name_;
        Fiber* owner_;
    };

    class Cond : public wsrep::condition_variable
    {
    public:
        explicit Cond(const char* name = "cond") : name_(name) { }
        void notify_one() override;
        void notify_all() override;
        void wait(wsrep::unique_lock<wsrep::mutex>& lock) override;
        const char* name_;
        std::vector<Fiber*> waiters_;
    };

    // ---- engine registration ----------------------------------------
    struct Engine
    {
        const char* name;
        std::function<void()> fn;
        const char* rule; // what makes a case non-trivial
    };
    void register_engine(const Engine&);
    struct Registrar { Registrar(const char* n, std::function<void()> f, const char* rule)
        { register_engine(Engine{n, f, rule}); } };

    int driver_main(int argc, char** argv);

    std::string strf(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
    uint64_t hash64(uint64_t);
    std::string hex(const std::string&);
}
#endif
