// Deterministic simulator core: seeded PRNG, explicit plans (operation lists),
// event log hash, controlled allocator (address layout + failures), abort and
// crash interception, fibers, per-run statistics.
//
// One run = one forked child executing one Plan.  A Plan is a pure function of
// (world, property, seed); executing a Plan is a pure function of the Plan and
// the code under test.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdarg>
#include <csetjmp>
#include <map>
#include <string>
#include <vector>
#include <functional>

namespace sim {

// ---------------------------------------------------------------- PRNG
struct Rng {
    std::uint64_t s;
    explicit Rng(std::uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) {
        next();
        next();
    }
    std::uint64_t next() {
        std::uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    std::uint64_t below(std::uint64_t n) { return n ? next() % n : 0; }
    long range(long a, long b) { return a + long(below(std::uint64_t(b - a + 1))); }
    bool chance(unsigned permille) { return below(1000) < permille; }
    template<class T>
    const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
    template<class T>
    void shuffle(std::vector<T>& v) {
        for (std::size_t i = v.size(); i > 1; --i)
            std::swap(v[i - 1], v[below(i)]);
    }
};
inline std::uint64_t mix(std::uint64_t a, std::uint64_t b) {
    Rng r(a ^ (b * 0xD6E8FEB86659FD93ull));
    return r.next();
}

// ---------------------------------------------------------------- plans
struct Op {
    std::string name;
    std::vector<long> a;
    long arg(std::size_t i) const { return i < a.size() ? a[i] : 0; }
    std::uint64_t uarg(std::size_t i) const { return std::uint64_t(arg(i)); }
};
struct Plan {
    std::string world, prop;
    std::uint64_t seed = 0;
    std::map<std::string, long> knobs;
    std::vector<Op> ops;
    long knob(const std::string& k, long dflt = 0) const {
        auto i = knobs.find(k);
        return i == knobs.end() ? dflt : i->second;
    }
    std::string text() const;
    static Plan parse(const std::string& text);
};

struct World {
    virtual ~World() {}
    virtual const char* name() const = 0;
    virtual Plan generate(std::uint64_t seed, const std::string& prop, bool thorough) = 0;
    virtual void execute(const Plan& plan) = 0;
    // knobs the minimiser may try to set to zero
    virtual bool knob_shrinkable(const std::string&) { return false; }
    // CPU seconds after which one operation counts as hanging
    virtual int op_cpu_limit() { return 20; }
};
void add_world(World* w);

// ---------------------------------------------------------------- run state
void logf(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void fail(const char* kind, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
bool failed();
void set_op(int index);
void count(const char* probe, std::uint64_t n = 1); // statistics, not logged
void note_state(std::uint64_t h);                    // distinct-state measure
// A run is non-trivial if it hit one of these probes (prefixes) at least once.
void set_relevant(const std::vector<const char*>& probes);

// ---------------------------------------------------------------- allocator
struct AllocStats {
    std::uint64_t allocs = 0, frees = 0;  // since run start, library side
    std::int64_t live = 0, live_bytes = 0;
    std::uint64_t failed = 0;
};
AllocStats& alloc_stats();
extern bool g_in_lib;
void arm_alloc_failure(long nth); // nth (>=0) next library allocation fails; -1 disarms
void set_alloc_fail_always(bool on); // after the first failure, keep failing
void arena_mode(int mode, std::uint64_t seed);
void arena_step(); // layouts may change here
void check_canaries();

struct LibScope { // library code runs: allocations are simulated
    bool prev;
    LibScope() : prev(g_in_lib) { g_in_lib = true; }
    ~LibScope() { g_in_lib = prev; }
};
struct HostScope { // simulator code called back from the library
    bool prev;
    HostScope() : prev(g_in_lib) { g_in_lib = false; }
    ~HostScope() { g_in_lib = prev; }
};

// ---------------------------------------------------------------- abort seam
extern sigjmp_buf* g_abort_jmp; // where a legitimate abort() lands
// runs f; returns true if it ended in abort().  Exceptions propagate.
template<class F>
bool aborts(F&& f) {
    sigjmp_buf jb;
    sigjmp_buf* volatile prev = g_abort_jmp;
    volatile bool prev_lib = g_in_lib;
    if (sigsetjmp(jb, 0) == 0) {
        g_abort_jmp = &jb;
        try {
            f();
        } catch (...) {
            g_abort_jmp = prev;
            throw;
        }
        g_abort_jmp = prev;
        return false;
    }
    g_abort_jmp = prev;
    g_in_lib = prev_lib;
    return true;
}

// ---------------------------------------------------------------- fibers
// Cooperative callers: run() starts all of them and switches between them at
// every yield() according to its own PRNG.
struct Fibers {
    // preempt_permille: switches at accesses to memory other than the stack, in code compiled with -fsanitize=thread
    static void run(std::vector<std::function<void()>> bodies, std::uint64_t seed, unsigned switch_permille, unsigned preempt_permille = 0);
    static std::uint64_t preemptions();
    static bool active();
    static int current();
    static void yield(); // no-op outside run()
    static std::uint64_t switches();
};

} // namespace sim
