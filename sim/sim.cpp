#include "sim.hpp"
#include <algorithm>
#include <cerrno>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <fstream>
#include <memory>
#include <new>
#include <sstream>
#include <set>
#include <cxxabi.h>
#include <fcntl.h>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <ucontext.h>
#include <unistd.h>
#include <link.h>

namespace sim {

// ================================================================ shared
struct Shared {
    // result of one run
    int done;
    int failed;
    char kind[64];
    char msg[1024];
    int op;
    int relevant;
    std::uint64_t hash;
    std::uint64_t nlog;
    std::uint64_t steps;
    // probes
    struct Probe {
        char name[48];
        std::uint64_t n;
    } probes[256];
    std::uint64_t nstates;
    std::uint64_t states[1 << 18];
};
static Shared* sh;
static bool g_capture;
static FILE* g_capture_file;
static int g_op = -1;
static bool g_child;

bool g_in_lib = false;
sigjmp_buf* g_abort_jmp = nullptr;

static void hash_bytes(const char* p, std::size_t n) {
    std::uint64_t h = sh->hash;
    for (std::size_t i = 0; i < n; ++i) {
        h ^= (unsigned char)p[i];
        h *= 0x100000001b3ull;
    }
    sh->hash = h;
}

void logf(const char* fmt, ...) {
    HostScope hs;
    char buf[1024];
    va_list ap;
    va_start(ap, fmt);
    int n = vsnprintf(buf, sizeof buf - 1, fmt, ap);
    va_end(ap);
    if (n < 0) n = 0;
    if (n > int(sizeof buf) - 2) n = sizeof buf - 2;
    buf[n++] = '\n';
    hash_bytes(buf, n);
    ++sh->nlog;
    if (g_capture) {
        fprintf(g_capture_file, "[%d] ", g_op);
        fwrite(buf, 1, n, g_capture_file);
        fflush(g_capture_file);
    }
}

void fail(const char* kind, const char* fmt, ...) {
    HostScope hs;
    if (sh->failed) return;
    char buf[1000];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    snprintf(sh->kind, sizeof sh->kind, "%s", kind);
    snprintf(sh->msg, sizeof sh->msg, "%s", buf);
    sh->op = g_op;
    sh->failed = 1;
    logf("FAIL %s: %s", kind, buf);
}
bool failed() { return sh->failed; }
static int g_cpu_limit = 20; // CPU seconds one operation may take
static void arm_watchdog() {
    itimerval it{};
    it.it_value.tv_sec = g_cpu_limit;
    setitimer(ITIMER_VIRTUAL, &it, nullptr);
}
void set_op(int i) {
    g_op = i;
    ++sh->steps;
    arm_watchdog();
}

static std::vector<const char*> g_relevant;
void set_relevant(const std::vector<const char*>& probes) { g_relevant = probes; }
void count(const char* probe, std::uint64_t n) {
    if (!sh->relevant)
        for (auto p : g_relevant)
            if (!strncmp(p, probe, strlen(p))) sh->relevant = 1;
    std::uint64_t h = 1469598103934665603ull;
    for (const char* p = probe; *p; ++p) h = (h ^ (unsigned char)*p) * 0x100000001b3ull;
    for (unsigned i = 0; i < 256; ++i) {
        auto& pr = sh->probes[(h + i) & 255];
        if (!pr.name[0]) snprintf(pr.name, sizeof pr.name, "%s", probe);
        if (!strncmp(pr.name, probe, sizeof pr.name - 1)) {
            pr.n += n;
            return;
        }
    }
}
void note_state(std::uint64_t h) {
    if (!h) h = 1;
    const unsigned N = 1 << 18;
    for (unsigned i = 0; i < 64; ++i) {
        auto& s = sh->states[(h + i) & (N - 1)];
        if (s == h) return;
        if (!s) {
            s = h;
            ++sh->nstates;
            return;
        }
    }
}

// ================================================================ allocator
static char* const ARENA = reinterpret_cast<char*>(0x100000000000ull);
static const std::size_t ARENA_SIZE = 1ull << 32; // NORESERVE
static const unsigned STRIPES = 64;
static const std::size_t STRIPE = (1ull << 31) / STRIPES;
static std::size_t g_bump[STRIPES], g_big;
static int g_arena_mode;
static bool g_arena_rotates;
static std::uint64_t g_arena_seed, g_arena_n, g_arena_steps;
static const unsigned NREUSE = 4096; // blocks of up to 64 KB
struct Hdr;
static Hdr* g_reuse[NREUSE];
static AllocStats g_as;
static long g_fail_at = -1;
static bool g_fail_always, g_failing;

struct Hdr {
    std::uint64_t magic, size;
    Hdr *prev, *next;
};
static Hdr g_live{0, 0, &g_live, &g_live};
static const std::uint64_t LIVE = 0xA110CA7EDA110CA7ull, DEAD = 0xDEADF4EEDEADF4EEull,
                           CANARY = 0x5AFE5AFE5AFE5AFEull;

AllocStats& alloc_stats() { return g_as; }
void arm_alloc_failure(long n) {
    g_fail_at = n;
    g_failing = false;
}
void set_alloc_fail_always(bool on) { g_fail_always = on; }
void arena_mode(int m, std::uint64_t seed) {
    g_arena_rotates = m == 4;
    g_arena_mode = g_arena_rotates ? 0 : m;
    g_arena_seed = seed;
}
// 0: ascending, 1: descending, 2: scattered addresses, 3: freed blocks are reused, 4: one of these after the other
void arena_step() {
    if (g_arena_rotates) g_arena_mode = int(mix(g_arena_seed, ++g_arena_steps) >> 7 & 3);
}
static void* arena_alloc(std::size_t n, std::size_t align) {
    std::size_t total = sizeof(Hdr) + ((n + 7) & ~std::size_t(7)) + 8 + 16 + align;
    total = (total + 15) & ~std::size_t(15);
    char* base;
    ++g_arena_n;
    if (g_arena_mode == 3 && align <= 16 && total / 16 < NREUSE && g_reuse[total / 16]) {
        Hdr* h = g_reuse[total / 16];
        g_reuse[total / 16] = h->next;
        base = reinterpret_cast<char*>(h);
    } else if (total > (1u << 20)) {
        base = ARENA + (1ull << 31) + g_big;
        g_big += total;
        if (g_big > (1ull << 31)) {
            fail("arena", "simulated memory exhausted by one run");
            _exit(0);
        }
    } else {
        unsigned s = 0;
        std::size_t pad = 0;
        if (g_arena_mode == 2) {
            auto r = mix(g_arena_seed, g_arena_n);
            s = r % STRIPES;
            pad = ((r >> 8) & 7) * 16;
        } else if (g_arena_mode == 1) {
            pad = 16;
        }
        // a stripe's lower half is for ascending blocks, its upper half for descending ones
        for (unsigned tries = 0; g_bump[s] + total + pad > STRIPE / 2; ++tries) {
            if (tries == STRIPES) {
                fail("arena", "simulated memory exhausted by one run");
                _exit(0);
            }
            s = g_arena_mode == 1 ? (s + STRIPES - 1) % STRIPES : (s + 1) % STRIPES;
        }
        std::size_t& b = g_bump[s];
        if (g_arena_mode == 1) { // descending addresses
            b += total + pad;
            base = ARENA + (s + 1) * STRIPE - b;
        } else {
            base = ARENA + s * STRIPE + b + pad;
            b += total + pad;
        }
    }
    std::uintptr_t p = reinterpret_cast<std::uintptr_t>(base) + sizeof(Hdr);
    p = (p + align - 1) & ~(align - 1);
    Hdr* h = reinterpret_cast<Hdr*>(p) - 1;
    h->magic = LIVE;
    h->size = n;
    h->next = g_live.next;
    h->prev = &g_live;
    h->next->prev = h;
    g_live.next = h;
    char* user = reinterpret_cast<char*>(p);
    memset(user, 0xCD, n);
    memcpy(user + n, &CANARY, 8);
    ++g_as.allocs;
    ++g_as.live;
    g_as.live_bytes += n;
    return user;
}
static bool in_arena(void* p) {
    return p >= ARENA && p < ARENA + ARENA_SIZE;
}
static void arena_free(void* p) {
    Hdr* h = reinterpret_cast<Hdr*>(p) - 1;
    if (h->magic != LIVE) {
        fail("heap", h->magic == DEAD ? "double free" : "free of a bad pointer");
        _exit(0);
    }
    if (memcmp(static_cast<char*>(p) + h->size, &CANARY, 8)) {
        fail("heap", "write past the end of a block of %llu bytes", (unsigned long long)h->size);
        _exit(0);
    }
    h->magic = DEAD;
    h->prev->next = h->next;
    h->next->prev = h->prev;
    memset(p, 0xDD, h->size > 65536 ? 65536 : h->size);
    if (g_arena_mode == 3) {
        std::size_t total = (sizeof(Hdr) + ((h->size + 7) & ~std::size_t(7)) + 8 + 16 + 16 + 15) / 16;
        if (total < NREUSE && reinterpret_cast<std::uintptr_t>(h) % 16 == 0) {
            h->next = g_reuse[total];
            g_reuse[total] = h;
        }
    }
    ++g_as.frees;
    --g_as.live;
    g_as.live_bytes -= h->size;
}
void check_canaries() {
    for (Hdr* h = g_live.next; h != &g_live; h = h->next)
        if (h->magic != LIVE || memcmp(reinterpret_cast<char*>(h + 1) + h->size, &CANARY, 8)) {
            fail("heap", "write past the end of a live block");
            return;
        }
}
static bool should_fail() {
    if (g_failing) return true;
    if (g_fail_at < 0) return false;
    if (g_fail_at-- == 0) {
        if (g_fail_always) g_failing = true;
        return true;
    }
    return false;
}
static void* sim_new(std::size_t n, std::size_t align) {
    if (!g_in_lib || !g_child) {
        void* p = align > 16 ? aligned_alloc(align, (n + align - 1) / align * align) : malloc(n ? n : 1);
        if (!p) {
            fputs("host memory exhausted\n", stderr);
            _exit(3);
        }
        return p;
    }
    if (should_fail()) {
        ++g_as.failed;
        count("fault.alloc-failure");
        throw std::bad_alloc();
    }
    return arena_alloc(n, align < 16 ? 16 : align);
}
static void sim_delete(void* p) {
    if (!p) return;
    if (in_arena(p))
        arena_free(p);
    else
        free(p);
}

// ================================================================ crash seam
static void on_signal(int s) {
    const char* k = s == SIGVTALRM ? "hang" : "crash";
    if (!sh->failed) {
        g_in_lib = false;
        fail(k, s == SIGVTALRM ? "no progress" : "fatal signal %d", s);
    }
    _exit(0);
}
static void install_handlers() {
    static char* alt = static_cast<char*>(mmap(nullptr, 65536, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
    stack_t ss{};
    ss.ss_sp = alt;
    ss.ss_size = 65536;
    sigaltstack(&ss, nullptr);
    struct sigaction sa{};
    sa.sa_handler = on_signal;
    sa.sa_flags = SA_ONSTACK | SA_NODEFER;
    for (int s : {SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGVTALRM, SIGTRAP}) sigaction(s, &sa, nullptr);
    std::set_terminate([] {
        g_in_lib = false;
        fail("crash", "std::terminate");
        _exit(0);
    });
}

// ================================================================ fibers
struct Fiber {
    ucontext_t uc;
    std::function<void()> body;
    bool started = false, finished = false;
    bool in_lib = false;
    sigjmp_buf* jmp = nullptr;
    struct {
        void* caught;
        unsigned uncaught;
    } eh{};
    char* stack = nullptr;
};
static const std::size_t FSTACK = 256 * 1024;
static char* const FSTACKS = reinterpret_cast<char*>(0x110000000000ull);
static const int MAXFIB = 8;
static std::vector<std::unique_ptr<Fiber>>* g_fibers;
static ucontext_t g_main_uc;
static int g_cur = -1;
static Rng* g_frng;
static unsigned g_switch, g_preempt;
static std::uint64_t g_switches, g_preemptions;

bool Fibers::active() { return g_cur >= 0; }
int Fibers::current() { return g_cur; }
std::uint64_t Fibers::switches() { return g_switches; }
std::uint64_t Fibers::preemptions() { return g_preemptions; }

static void fiber_main() {
    Fiber& f = *(*g_fibers)[g_cur];
    f.body();
    f.finished = true;
    swapcontext(&f.uc, &g_main_uc);
}
struct EhGlobals {
    void* caught;
    unsigned uncaught;
};
static void resume(int i) {
    Fiber& f = *(*g_fibers)[i];
    auto* g = reinterpret_cast<EhGlobals*>(abi::__cxa_get_globals());
    EhGlobals saved = *g;
    bool lib = g_in_lib;
    auto jmp = g_abort_jmp;
    g->caught = f.eh.caught;
    g->uncaught = f.eh.uncaught;
    g_in_lib = f.in_lib;
    g_abort_jmp = f.jmp;
    g_cur = i;
    ++g_switches;
    swapcontext(&g_main_uc, &f.uc);
    g_cur = -1;
    f.eh.caught = g->caught;
    f.eh.uncaught = g->uncaught;
    f.in_lib = g_in_lib;
    f.jmp = g_abort_jmp;
    *g = saved;
    g_in_lib = lib;
    g_abort_jmp = jmp;
}
static void switch_away(bool lib) {
    Fiber& f = *(*g_fibers)[g_cur];
    g_in_lib = lib; // saved by resume() as the fiber's state
    swapcontext(&f.uc, &g_main_uc);
}
void Fibers::yield() {
    if (g_cur < 0) return;
    HostScope hs;
    if (g_frng->below(1000) >= g_switch) return;
    switch_away(hs.prev);
    g_in_lib = false;
}
// a memory access is about to be made by instrumented code
static inline void on_access(const volatile void* p, bool write) {
    if (!g_in_lib || g_cur < 0 || !g_preempt) return;
    auto a = static_cast<const volatile char*>(p);
    if (a >= FSTACKS && a < FSTACKS + MAXFIB * FSTACK) return;
    if (a >= reinterpret_cast<const volatile char*>(&g_in_lib) && a < reinterpret_cast<const volatile char*>(&g_in_lib + 1)) return;
    g_in_lib = false;
    unsigned pm = write ? g_preempt * 5 : g_preempt;
    bool go = g_frng->below(1000) < pm;
    if (go) ++g_preemptions;
    g_in_lib = true;
    if (go) switch_away(true);
}
void Fibers::run(std::vector<std::function<void()>> bodies, std::uint64_t seed, unsigned sw, unsigned preempt) {
    HostScope hs;
    std::vector<std::unique_ptr<Fiber>> fs;
    Rng rng(seed);
    g_frng = &rng;
    g_switch = sw;
    g_preempt = preempt;
    g_fibers = &fs;
    for (auto& b : bodies) {
        if (int(fs.size()) == MAXFIB) break;
        auto f = std::make_unique<Fiber>();
        f->body = std::move(b);
        f->stack = FSTACKS + fs.size() * FSTACK;
        getcontext(&f->uc);
        f->uc.uc_stack.ss_sp = f->stack;
        f->uc.uc_stack.ss_size = FSTACK;
        f->uc.uc_link = nullptr;
        makecontext(&f->uc, fiber_main, 0);
        fs.push_back(std::move(f));
    }
    for (;;) {
        std::vector<int> runnable;
        for (std::size_t i = 0; i < fs.size(); ++i)
            if (!fs[i]->finished) runnable.push_back(int(i));
        if (runnable.empty() || failed()) break;
        resume(runnable[rng.below(runnable.size())]);
    }
    g_fibers = nullptr;
    g_frng = nullptr;
    g_preempt = 0;
}
} // namespace sim

// ------------------------------------------- accesses of instrumented code
// -fsanitize=thread makes the compiler call these before each access; they are the
// simulator's, not libtsan's.
extern "C" {
#define ACC(N)                                                                                                         \
    void __tsan_read##N(void* p) { sim::on_access(p, false); }                                                         \
    void __tsan_write##N(void* p) { sim::on_access(p, true); }                                                         \
    void __tsan_unaligned_read##N(void* p) { sim::on_access(p, false); }                                               \
    void __tsan_unaligned_write##N(void* p) { sim::on_access(p, true); }                                               \
    void __tsan_volatile_read##N(void* p) { sim::on_access(p, false); }                                                \
    void __tsan_volatile_write##N(void* p) { sim::on_access(p, true); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
#undef ACC
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_read_range(void* p, unsigned long) { sim::on_access(p, false); }
void __tsan_write_range(void* p, unsigned long) { sim::on_access(p, true); }
void __tsan_vptr_update(void** p, void*) { sim::on_access(p, true); }
void __tsan_vptr_read(void** p) { sim::on_access(p, false); }
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
#define ATOM(N, T)                                                                                                     \
    T __tsan_atomic##N##_load(const volatile T* p, int) { return sim::on_access(p, false), __atomic_load_n(p, __ATOMIC_SEQ_CST); }   \
    void __tsan_atomic##N##_store(volatile T* p, T v, int) { sim::on_access(p, true), __atomic_store_n(p, v, __ATOMIC_SEQ_CST); }     \
    T __tsan_atomic##N##_exchange(volatile T* p, T v, int) { return sim::on_access(p, true), __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##N##_fetch_add(volatile T* p, T v, int) { return sim::on_access(p, true), __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##N##_fetch_sub(volatile T* p, T v, int) { return sim::on_access(p, true), __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##N##_fetch_and(volatile T* p, T v, int) { return sim::on_access(p, true), __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##N##_fetch_or(volatile T* p, T v, int) { return sim::on_access(p, true), __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); }   \
    T __tsan_atomic##N##_fetch_xor(volatile T* p, T v, int) { return sim::on_access(p, true), __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##N##_compare_exchange_strong(volatile T* p, T* e, T v, int, int) {                               \
        return sim::on_access(p, true), __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
    }                                                                                                                  \
    int __tsan_atomic##N##_compare_exchange_weak(volatile T* p, T* e, T v, int, int) {                                 \
        return sim::on_access(p, true), __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
    }                                                                                                                  \
    T __tsan_atomic##N##_compare_exchange_val(volatile T* p, T e, T v, int, int) {                                     \
        sim::on_access(p, true), __atomic_compare_exchange_n(p, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);     \
        return e;                                                                                                      \
    }
ATOM(8, unsigned char) ATOM(16, unsigned short) ATOM(32, unsigned) ATOM(64, unsigned long)
#undef ATOM
// A caller that waits for another one lets it run.
static bool let_others_run() {
    if (sim::g_cur < 0 || sim::failed()) return false;
    sim::switch_away(sim::g_in_lib);
    return true;
}
int sim_guard_acquire(void* g) __asm__("__cxa_guard_acquire");
void sim_guard_release(void* g) __asm__("__cxa_guard_release");
void sim_guard_abort(void* g) __asm__("__cxa_guard_abort");
int sim_guard_acquire(void* g) {
    auto b = reinterpret_cast<volatile char*>(g);
    for (long n = 0; b[1]; ++n)
        if (n > 100000 || !let_others_run()) {
            sim::fail("hang", "recursive initialization of a static object");
            _exit(0);
        }
    if (b[0]) return 0;
    b[1] = 1;
    return 1;
}
void sim_guard_release(void* g) {
    auto b = reinterpret_cast<volatile char*>(g);
    b[0] = 1;
    b[1] = 0;
}
void sim_guard_abort(void* g) { reinterpret_cast<volatile char*>(g)[1] = 0; }
#define LOCK(F, TRY, T)                                                                                                \
    int F(T* m) noexcept {                                                                                             \
        for (long n = 0;; ++n) {                                                                                       \
            int r = TRY(m);                                                                                            \
            if (r != EBUSY) return r;                                                                                  \
            if (n > 100000 || !let_others_run()) {                                                                     \
                sim::fail("hang", "deadlock");                                                                         \
                _exit(0);                                                                                              \
            }                                                                                                          \
        }                                                                                                              \
    }
LOCK(pthread_mutex_lock, pthread_mutex_trylock, pthread_mutex_t)
LOCK(pthread_rwlock_rdlock, pthread_rwlock_tryrdlock, pthread_rwlock_t)
LOCK(pthread_rwlock_wrlock, pthread_rwlock_trywrlock, pthread_rwlock_t)
#undef LOCK
}
namespace sim {

// ================================================================ plans
std::string Plan::text() const {
    std::ostringstream o;
    o << "world " << world << "\nprop " << prop << "\nseed " << seed << "\n";
    for (auto& [k, v] : knobs) o << "knob " << k << " " << v << "\n";
    for (auto& op : ops) {
        o << "op " << op.name;
        for (auto a : op.a) o << " " << a;
        o << "\n";
    }
    return o.str();
}
Plan Plan::parse(const std::string& text) {
    Plan p;
    std::istringstream in(text);
    std::string line;
    while (std::getline(in, line)) {
        std::istringstream l(line);
        std::string k;
        l >> k;
        if (k == "world") l >> p.world;
        else if (k == "prop") l >> p.prop;
        else if (k == "seed") l >> p.seed;
        else if (k == "knob") {
            std::string n;
            long v;
            l >> n >> v;
            p.knobs[n] = v;
        } else if (k == "op") {
            Op o;
            l >> o.name;
            long v;
            while (l >> v) o.a.push_back(v);
            p.ops.push_back(o);
        }
    }
    return p;
}

static std::vector<World*>& worlds() {
    static std::vector<World*> w;
    return w;
}
void add_world(World* w) { worlds().push_back(w); }

// ================================================================ runner
struct Result {
    bool failed = false;
    std::string kind, msg;
    int op = -1;
    std::uint64_t hash = 0;
    bool relevant = false;
};

static Result run_plan(World& w, const Plan& p, const char* capture = nullptr) {
    sh->done = sh->failed = sh->relevant = 0;
    sh->kind[0] = sh->msg[0] = 0;
    sh->op = -1;
    sh->hash = 1469598103934665603ull;
    fflush(stdout);
    fflush(stderr);
    pid_t pid = fork();
    if (pid < 0) {
        perror("fork");
        exit(3);
    }
    if (pid == 0) {
        g_child = true;
        install_handlers();
        g_cpu_limit = w.op_cpu_limit();
        arm_watchdog();
        if (capture) {
            g_capture_file = fopen(capture, "w");
            g_capture = g_capture_file != nullptr;
        }
        arena_mode(int(p.knob("arena_mode")), std::uint64_t(p.knob("arena_seed")));
        logf("begin %s %s ops=%zu", p.world.c_str(), p.prop.c_str(), p.ops.size());
        w.execute(p);
        check_canaries();
        logf("end");
        sh->done = 1;
        _exit(0);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    Result r;
    if (!sh->failed && (!WIFEXITED(st) || WEXITSTATUS(st) != 0 || !sh->done)) {
        if (WIFEXITED(st) && WEXITSTATUS(st) == 3) {
            fprintf(stderr, "simulator error in child\n");
            exit(3);
        }
        sh->failed = 1;
        snprintf(sh->kind, sizeof sh->kind, "crash");
        snprintf(sh->msg, sizeof sh->msg, "simulated process ended abnormally (%d)", st);
    }
    r.failed = sh->failed;
    r.kind = sh->kind;
    r.msg = sh->msg;
    r.op = sh->op;
    r.hash = sh->hash;
    r.relevant = sh->relevant;
    return r;
}

static std::string json_escape(const std::string& s) {
    std::string o;
    for (char c : s) {
        if (c == '"' || c == '\\') {
            o += '\\';
            o += c;
        } else if ((unsigned char)c < 32) {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", c);
            o += b;
        } else
            o += c;
    }
    return o;
}

static Plan minimise(World& w, Plan p, const std::string& kind, double budget_s, int& tried) {
    auto t0 = std::chrono::steady_clock::now();
    auto left = [&] {
        return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() < budget_s;
    };
    tried = 0;
    auto bad = [&](const Plan& c) {
        ++tried;
        auto r = run_plan(w, c);
        return r.failed && r.kind == kind;
    };
    bool progress = true;
    while (progress && left()) {
        progress = false;
        for (std::size_t chunk = std::max<std::size_t>(1, p.ops.size() / 2); chunk >= 1 && left(); chunk /= 2) {
            for (std::size_t i = 0; i < p.ops.size() && left();) {
                Plan c = p;
                auto e = std::min(i + chunk, c.ops.size());
                c.ops.erase(c.ops.begin() + i, c.ops.begin() + e);
                if (bad(c)) {
                    p = c;
                    progress = true;
                } else
                    i += chunk;
            }
            if (chunk == 1) break;
        }
        for (std::size_t i = 0; i < p.ops.size() && left(); ++i)
            for (std::size_t j = 0; j < p.ops[i].a.size() && left(); ++j) {
                long v = p.ops[i].a[j];
                for (long t : {0L, v / 2, v - 1}) {
                    if (v <= 0 || t >= v || t < 0) continue;
                    Plan c = p;
                    c.ops[i].a[j] = t;
                    if (bad(c)) {
                        p = c;
                        progress = true;
                        break;
                    }
                }
            }
        for (auto& [k, v] : std::map<std::string, long>(p.knobs)) {
            if (!v || !left() || !w.knob_shrinkable(k)) continue;
            Plan c = p;
            c.knobs[k] = 0;
            if (bad(c)) {
                p = c;
                progress = true;
            }
        }
    }
    return p;
}

} // namespace sim

using namespace sim;

extern "C" void abort() noexcept {
    if (g_child && g_abort_jmp) siglongjmp(*g_abort_jmp, 1);
    if (g_child) {
        g_in_lib = false;
        fail("crash", "unexpected abort");
        _exit(0);
    }
    _exit(134);
}
void* operator new(std::size_t n) { return sim_new(n, 0); }
void* operator new[](std::size_t n) { return sim_new(n, 0); }
void* operator new(std::size_t n, std::align_val_t a) { return sim_new(n, std::size_t(a)); }
void* operator new[](std::size_t n, std::align_val_t a) { return sim_new(n, std::size_t(a)); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept {
    try {
        return sim_new(n, 0);
    } catch (...) {
        return nullptr;
    }
}
void operator delete(void* p) noexcept { sim_delete(p); }
void operator delete[](void* p) noexcept { sim_delete(p); }
void operator delete(void* p, std::size_t) noexcept { sim_delete(p); }
void operator delete[](void* p, std::size_t) noexcept { sim_delete(p); }
void operator delete(void* p, std::align_val_t) noexcept { sim_delete(p); }
void operator delete[](void* p, std::align_val_t) noexcept { sim_delete(p); }
void operator delete(void* p, std::size_t, std::align_val_t) noexcept { sim_delete(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { sim_delete(p); }

namespace boost {
void assertion_failed(char const* expr, char const*, char const* file, long line) {
    (void)file;
    (void)line;
    g_in_lib = false;
    fail("crash", "assertion failed: %s", expr);
    _exit(0);
}
void assertion_failed_msg(char const* expr, char const*, char const*, char const* f, long l) {
    assertion_failed(expr, "", f, l);
}
} // namespace boost

static World* find_world(const std::string& n) {
    for (auto w : worlds())
        if (n == w->name()) return w;
    fprintf(stderr, "no world '%s'\n", n.c_str());
    exit(3);
}
static std::string slurp(const std::string& f) {
    std::ifstream i(f);
    if (!i) {
        fprintf(stderr, "cannot read %s\n", f.c_str());
        exit(3);
    }
    std::stringstream s;
    s << i.rdbuf();
    return s.str();
}

static int main_(int argc, char** argv) {
    if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE) && !getenv("SIM_NO_REEXEC")) {
        if (personality(personality(0xffffffff) | ADDR_NO_RANDOMIZE) >= 0) {
            setenv("SIM_NO_REEXEC", "1", 1);
            execv("/proc/self/exe", argv);
        }
    }
    std::map<std::string, std::string> opt;
    for (int i = 1; i + 1 < argc; i += 2) opt[argv[i]] = argv[i + 1];
    sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    if (mmap(ARENA, ARENA_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) != ARENA ||
        mmap(FSTACKS, FSTACK * MAXFIB, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) != FSTACKS) {
        perror("mmap arena");
        return 3;
    }
    if (opt.count("--replay")) {
        Plan p = Plan::parse(slurp(opt["--replay"]));
        auto& w = *find_world(p.world);
        auto r = run_plan(w, p, opt.count("--log") ? opt["--log"].c_str() : nullptr);
        printf("{\"failed\":%s,\"kind\":\"%s\",\"msg\":\"%s\",\"op\":%d,\"hash\":\"%016llx\"}\n", r.failed ? "true" : "false",
               json_escape(r.kind).c_str(), json_escape(r.msg).c_str(), r.op, (unsigned long long)r.hash);
        return r.failed ? 1 : 0;
    }
    auto& w = *find_world(opt["--world"]);
    std::string prop = opt["--prop"];
    std::uint64_t start = strtoull(opt["--start"].c_str(), nullptr, 0), n = strtoull(opt["--count"].c_str(), nullptr, 0);
    std::uint64_t base = strtoull(opt["--seed"].c_str(), nullptr, 0);
    bool thorough = opt["--tier"] == "thorough";
    double tlimit = opt.count("--time") ? atof(opt["--time"].c_str()) : 1e9;
    std::uint64_t twice_n = opt.count("--twice") && opt["--twice"] == "1" ? ~0ull : strtoull(opt["--twice-first"].c_str(), nullptr, 0);
    std::uint64_t done_twice = 0;
    std::set<std::string> ignore;
    {
        std::istringstream is(opt["--ignore"]);
        std::string k;
        while (std::getline(is, k, ',')) ignore.insert(k);
    }
    if (opt.count("--dump-plan")) {
        Plan p = w.generate(mix(base, start), prop, thorough);
        p.world = w.name();
        p.prop = prop;
        p.seed = mix(base, start);
        fputs(p.text().c_str(), stdout);
        return 0;
    }
    auto t0 = std::chrono::steady_clock::now();
    auto elapsed = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); };
    std::uint64_t runs = 0, nontrivial = 0, ops = 0, mismatches = 0, ignored = 0;
    std::set<std::uint64_t> hashes;
    std::string sample, violation = "null";
    std::uint64_t agg = 0;
    for (std::uint64_t i = 0; i < n && elapsed() < tlimit; ++i) {
        std::uint64_t seed = mix(base, start + i);
        Plan p = w.generate(seed, prop, thorough);
        p.world = w.name();
        p.prop = prop;
        p.seed = seed;
        if (sample.empty()) sample = p.text();
        auto r = run_plan(w, p);
        ++runs;
        ops += p.ops.size();
        if (r.relevant) {
            ++nontrivial;
            hashes.insert(r.hash);
        }
        agg = mix(agg, r.hash);
        if (i < twice_n || r.failed) {
            auto r2 = run_plan(w, p);
            done_twice += !r.failed;
            // a failure must reproduce; what a broken library logs on the way
            // may depend on garbage it read
            if (r2.kind != r.kind || (!r.failed && r2.hash != r.hash)) {
                ++mismatches;
                fprintf(stderr, "nondeterminism: seed index %llu: %s/%s %016llx %016llx\n", (unsigned long long)(start + i),
                        r.kind.c_str(), r2.kind.c_str(), (unsigned long long)r.hash, (unsigned long long)r2.hash);
                continue;
            }
        }
        if (r.failed) {
            if (ignore.count(r.kind)) {
                ++ignored;
                continue;
            }
            int tried = 0;
            Plan m = minimise(w, p, r.kind, opt.count("--min-time") ? atof(opt["--min-time"].c_str()) : 20, tried);
            auto rm = run_plan(w, m);
            std::string file = opt["--replay-out"];
            {
                std::ofstream o(file);
                o << "# violation of " << prop << ": " << rm.kind << ": " << rm.msg << "\n"
                  << "# minimised from " << p.ops.size() << " to " << m.ops.size() << " operations, seed index " << start + i << "\n"
                  << m.text();
            }
            char buf[4096];
            snprintf(buf, sizeof buf,
                     "{\"kind\":\"%s\",\"msg\":\"%s\",\"seed_index\":%llu,\"hash\":\"%016llx\",\"file\":\"%s\",\"ops\":%zu,\"orig_ops\":%zu,\"tried\":%d,\"elapsed\":%.2f}",
                     json_escape(rm.kind).c_str(), json_escape(rm.msg).c_str(), (unsigned long long)(start + i), (unsigned long long)rm.hash,
                     json_escape(file).c_str(), m.ops.size(), p.ops.size(), tried, elapsed());
            violation = buf;
            break;
        }
    }
    if (opt.count("--hash-out")) {
        FILE* f = fopen(opt["--hash-out"].c_str(), "wb");
        if (f) {
            for (auto h : hashes) fwrite(&h, 8, 1, f);
            fclose(f);
        }
        f = fopen((opt["--hash-out"] + ".states").c_str(), "wb");
        if (f) {
            for (auto h : sh->states)
                if (h) fwrite(&h, 8, 1, f);
            fclose(f);
        }
    }
    std::ostringstream o;
    o << "{\"world\":\"" << w.name() << "\",\"runs\":" << runs << ",\"nontrivial\":" << nontrivial << ",\"plan_ops\":" << ops << ",\"steps\":" << sh->steps << ",\"events\":" << sh->nlog
      << ",\"twice\":" << done_twice << ",\"mismatches\":" << mismatches << ",\"ignored\":" << ignored << ",\"agg\":\"" << std::hex << agg << std::dec << "\",\"wall\":" << elapsed()
      << ",\"probes\":{";
    bool first = true;
    for (auto& pr : sh->probes)
        if (pr.name[0]) {
            o << (first ? "" : ",") << "\"" << json_escape(pr.name) << "\":" << pr.n;
            first = false;
        }
    o << "},\"sample\":\"" << json_escape(sample) << "\",\"violation\":" << violation << "}\n";
    fputs(o.str().c_str(), stdout);
    return violation != "null" ? 1 : mismatches ? 3 : 0;
}

// worlds may leave static registrars in any state: no static destructors
int main(int argc, char** argv) {
    int rc = main_(argc, argv);
    fflush(stdout);
    _exit(rc);
}
