// see controlled.h; implements the callbacks emitted by -fsanitize=thread (compiled without instrumentation itself)
#include "./controlled.h"

#include <atomic>
#include <cerrno>
#include <climits>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <link.h>
#include <linux/futex.h>
#include <map>
#include <mutex>
#include <pthread.h>
#include <semaphore.h>
#include <set>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <unordered_map>

extern "C" {
void *__libc_malloc(std::size_t);
void __libc_free(void *);
void *__libc_calloc(std::size_t, std::size_t);
void *__libc_realloc(void *, std::size_t);
void *__libc_memalign(std::size_t, std::size_t);
}

namespace sched {
namespace {

constexpr int MaxThreads = 3;
using Clock = std::array<std::uint32_t, MaxThreads>;

struct Worker {
    pthread_t thread;
    char *stackLow = nullptr, *stackHigh = nullptr;
    std::atomic<int> wake{ 0 };
    const std::function<void()> *op = nullptr;
    bool finished = true, blocked = false;
    std::uint64_t steps = 0;
    Clock clock{};
};

Worker workers[MaxThreads];
int started = 0;
std::atomic<int> mainWake{ 0 };
int threadCount = 0;
const std::vector<std::uint32_t> *plan = nullptr;
std::size_t planPos = 0;
std::uint64_t sinceSwitch = 0, nextPreemption = 0;
bool detection = false, deadlock = false;
std::uint64_t switches = 0, accesses = 0;

thread_local int self = -1;
thread_local bool active = false; // whether the code under test is executed
thread_local int depth = 0; // whether within the runtime

struct Guard {
    Guard() { ++depth; }
    ~Guard() { --depth; }
};

// ---- memory which is never reused
char *arena = nullptr, *arenaEnd = nullptr;
std::atomic<char *> arenaPos{ nullptr };
constexpr std::size_t arenaSize = 8ull << 30;

bool inArena(const void *p) { return p >= arena && p < arenaEnd; }
void *arenaAlloc(std::size_t n, std::size_t align)
{
    align = align < 16 ? 16 : align;
    auto *p = arenaPos.fetch_add(static_cast<std::ptrdiff_t>((n + 16 + align + 15) & ~std::size_t(15)));
    auto *r = reinterpret_cast<char *>((reinterpret_cast<std::uintptr_t>(p) + 16 + align - 1) & ~(align - 1));
    if (r + n > arenaEnd) {
        std::abort();
    }
    reinterpret_cast<std::size_t *>(r)[-1] = n;
    return r;
}
bool useArena() { return active && !depth && detection; }

// ---- race detection (vector clocks)
struct Access {
    int thread;
    std::uint32_t epoch;
    const void *pc;
    bool atomic;
};
struct Cell {
    Access write{ -1, 0, nullptr, false };
    Access reads[MaxThreads] = { { -1, 0, nullptr, false }, { -1, 0, nullptr, false }, { -1, 0, nullptr, false } };
};
std::unordered_map<std::uintptr_t, Cell> *shadow = nullptr;
std::map<const void *, Clock> *syncs = nullptr;
std::set<std::string> *races = nullptr;
std::vector<std::pair<std::uintptr_t, std::uintptr_t>> *libraries = nullptr;

std::string where(const void *pc, std::uintptr_t addr)
{
    Dl_info i{};
    std::string r;
    if (dladdr(pc, &i) && i.dli_sname) {
        r = i.dli_sname;
    } else {
        r = "?";
    }
    Dl_info a{};
    if (dladdr(reinterpret_cast<void *>(addr), &a) && a.dli_sname) {
        r += std::string(" accessing ") + a.dli_sname;
    }
    return r;
}

int collect(dl_phdr_info *info, std::size_t, void *)
{
    if (!info->dlpi_name || !*info->dlpi_name) {
        return 0; // the executable
    }
    for (int i = 0; i < info->dlpi_phnum; ++i) {
        if (info->dlpi_phdr[i].p_type == PT_LOAD) {
            const auto b = info->dlpi_addr + info->dlpi_phdr[i].p_vaddr;
            libraries->emplace_back(b, b + info->dlpi_phdr[i].p_memsz);
        }
    }
    return 0;
}

void join(Clock &a, const Clock &b)
{
    for (int i = 0; i < MaxThreads; ++i) {
        a[i] = a[i] < b[i] ? b[i] : a[i];
    }
}

void synchronize(const void *object)
{
    if (!detection || !active) {
        return;
    }
    Guard g;
    auto &c = (*syncs)[object];
    auto &w = workers[self];
    join(w.clock, c);
    join(c, w.clock);
    ++w.clock[self];
}

void record(std::uintptr_t addr, std::size_t size, bool write, bool atomic, const void *pc)
{
    for (const auto &l : *libraries) {
        if (addr >= l.first && addr < l.second) {
            return;
        }
    }
    auto &w = workers[self];
    const auto ordered = [&](const Access &a) { return a.thread < 0 || a.thread == self || (atomic && a.atomic) || w.clock[a.thread] >= a.epoch; };
    const auto report = [&](const Access &a, const char *kind) {
        if (races->size() < 5) {
            races->insert(std::string(kind) + " in " + where(pc, addr) + " conflicts with access in " + where(a.pc, addr));
        }
    };
    for (std::size_t i = 0; i < size; ++i) {
        auto &c = (*shadow)[addr + i];
        if (!ordered(c.write)) {
            report(c.write, write ? "write" : "read");
        }
        if (write) {
            for (auto &r : c.reads) {
                if (!ordered(r)) {
                    report(r, "write");
                }
            }
            c.write = { self, w.clock[self], pc, atomic };
        } else {
            c.reads[self] = { self, w.clock[self], pc, atomic };
        }
    }
}

// ---- scheduling
void futexWait(std::atomic<int> &f)
{
    while (!f.load(std::memory_order_acquire)) {
        syscall(SYS_futex, reinterpret_cast<int *>(&f), FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
    }
    f.store(0, std::memory_order_release);
}
void futexWake(std::atomic<int> &f)
{
    f.store(1, std::memory_order_release);
    syscall(SYS_futex, reinterpret_cast<int *>(&f), FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}

int next(int from, bool skipBlocked)
{
    for (int i = 1; i < threadCount; ++i) {
        const auto t = (from + i) % threadCount;
        if (!workers[t].finished && !(skipBlocked && workers[t].blocked)) {
            return t;
        }
    }
    return -1;
}

void armPreemption()
{
    sinceSwitch = 0;
    nextPreemption = planPos < plan->size() ? (*plan)[planPos] : 0;
}

bool switchAway(bool skipBlocked)
{
    const auto t = next(self, skipBlocked);
    if (t < 0) {
        return false;
    }
    ++switches;
    armPreemption();
    const auto me = self;
    futexWake(workers[t].wake);
    futexWait(workers[me].wake);
    return true;
}

void point()
{
    ++workers[self].steps;
    if (nextPreemption && ++sinceSwitch >= nextPreemption) {
        Guard g;
        ++planPos;
        if (!switchAway(false)) {
            armPreemption();
        }
    }
}

inline void access(const void *p, std::size_t size, bool write, const void *pc, bool atomic = false)
{
    if (!active || depth) {
        return;
    }
    const auto *const c = static_cast<const char *>(p);
    auto &w = workers[self];
    if (detection) {
        Guard g;
        ++accesses;
        record(reinterpret_cast<std::uintptr_t>(p), size, write, atomic, pc);
    }
    if (c >= w.stackLow && c < w.stackHigh) {
        return;
    }
    point();
}

// blocks until the condition holds
template <typename Condition> void waitFor(Condition &&condition)
{
    auto &w = workers[self];
    auto rounds = 0;
    while (!condition()) {
        Guard g;
        w.blocked = true;
        if (++rounds > 1000 || !switchAway(true)) {
            std::fprintf(stderr, "deadlock\n");
            std::_Exit(77);
        }
    }
    w.blocked = false;
    for (auto &o : workers) {
        o.blocked = false;
    }
}

void *threadMain(void *arg)
{
    self = static_cast<int>(reinterpret_cast<std::intptr_t>(arg));
    auto &w = workers[self];
    pthread_attr_t a;
    pthread_getattr_np(pthread_self(), &a);
    void *s = nullptr;
    std::size_t n = 0;
    pthread_attr_getstack(&a, &s, &n);
    pthread_attr_destroy(&a);
    w.stackLow = static_cast<char *>(s);
    w.stackHigh = w.stackLow + n;
    for (;;) {
        futexWait(w.wake);
        active = true;
        (*w.op)();
        active = false;
        w.finished = true;
        for (auto &o : workers) {
            o.blocked = false;
        }
        const auto t = next(self, false);
        if (t < 0) {
            futexWake(mainWake);
        } else {
            ++switches;
            armPreemption();
            futexWake(workers[t].wake);
        }
    }
    return nullptr;
}

} // namespace

Result execute(const std::vector<std::function<void()>> &ops, const std::vector<std::uint32_t> &preemptions, bool detect)
{
    Guard g;
    threadCount = static_cast<int>(ops.size());
    while (started < threadCount) {
        pthread_create(&workers[started].thread, nullptr, threadMain, reinterpret_cast<void *>(static_cast<std::intptr_t>(started)));
        ++started;
    }
    if (detect) {
        if (!arena) {
            arena = static_cast<char *>(mmap(nullptr, arenaSize, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
            arenaEnd = arena + arenaSize;
            arenaPos = arena;
            libraries = new std::vector<std::pair<std::uintptr_t, std::uintptr_t>>;
            dl_iterate_phdr(collect, nullptr);
        }
        shadow = new std::unordered_map<std::uintptr_t, Cell>;
        syncs = new std::map<const void *, Clock>;
        races = new std::set<std::string>;
    }
    for (int i = 0; i < threadCount; ++i) {
        auto &w = workers[i];
        w.op = &ops[static_cast<std::size_t>(i)];
        w.finished = w.blocked = false;
        w.steps = 0;
        w.clock = {};
        w.clock[i] = 1;
    }
    plan = &preemptions;
    planPos = 0;
    switches = accesses = 0;
    detection = detect;
    armPreemption();
    futexWake(workers[0].wake);
    futexWait(mainWake);
    detection = false;
    Result r;
    for (int i = 0; i < threadCount; ++i) {
        r.steps.push_back(workers[i].steps);
    }
    r.switches = switches;
    r.accesses = accesses;
    if (detect) {
        r.races.assign(races->begin(), races->end());
        delete shadow;
        delete syncs;
        delete races;
    }
    return r;
}

} // namespace sched

using namespace sched;

// ---- allocation
extern "C" {
void *malloc(std::size_t n) { return useArena() ? arenaAlloc(n, 16) : __libc_malloc(n); }
void free(void *p)
{
    if (!inArena(p)) {
        __libc_free(p);
    }
}
void *calloc(std::size_t a, std::size_t b) { return useArena() ? arenaAlloc(a * b, 16) : __libc_calloc(a, b); }
void *realloc(void *p, std::size_t n)
{
    if (inArena(p) || (useArena() && !p)) {
        void *r = useArena() ? arenaAlloc(n, 16) : __libc_malloc(n);
        if (p) {
            const auto m = static_cast<std::size_t *>(p)[-1];
            std::memcpy(r, p, m < n ? m : n);
        }
        return r;
    }
    return __libc_realloc(p, n);
}
void *memalign(std::size_t a, std::size_t n) { return useArena() ? arenaAlloc(n, a) : __libc_memalign(a, n); }
void *aligned_alloc(std::size_t a, std::size_t n) { return memalign(a, n); }
int posix_memalign(void **p, std::size_t a, std::size_t n)
{
    *p = memalign(a, n);
    return 0;
}

// ---- locks
#define REAL(name) static const auto real = reinterpret_cast<decltype(&name)>(dlsym(RTLD_NEXT, #name))
int pthread_mutex_lock(pthread_mutex_t *m) noexcept
{
    REAL(pthread_mutex_lock);
    if (!active || depth) {
        return real(m);
    }
    point();
    waitFor([m] { return pthread_mutex_trylock(m) != EBUSY; });
    synchronize(m);
    return 0;
}
int pthread_mutex_unlock(pthread_mutex_t *m) noexcept
{
    REAL(pthread_mutex_unlock);
    if (active && !depth) {
        synchronize(m);
        const auto r = real(m);
        point();
        return r;
    }
    return real(m);
}
int pthread_rwlock_rdlock(pthread_rwlock_t *m) noexcept
{
    REAL(pthread_rwlock_rdlock);
    if (!active || depth) {
        return real(m);
    }
    point();
    waitFor([m] { return pthread_rwlock_tryrdlock(m) != EBUSY; });
    synchronize(m);
    return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t *m) noexcept
{
    REAL(pthread_rwlock_wrlock);
    if (!active || depth) {
        return real(m);
    }
    point();
    waitFor([m] { return pthread_rwlock_trywrlock(m) != EBUSY; });
    synchronize(m);
    return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t *m) noexcept
{
    REAL(pthread_rwlock_unlock);
    if (active && !depth) {
        synchronize(m);
        const auto r = real(m);
        point();
        return r;
    }
    return real(m);
}

static std::map<void *, int> *pending()
{
    static auto *p = new std::map<void *, int>;
    return p;
}
int __cxa_guard_acquire(std::uint64_t *guard)
{
    auto *const done = reinterpret_cast<unsigned char *>(guard);
    if (active && !depth) {
        point();
        waitFor([guard] {
            Guard g;
            return !pending()->count(guard);
        });
        synchronize(guard);
    }
    Guard g;
    if (*done) {
        return 0;
    }
    if (active) {
        (*pending())[guard] = self;
    }
    return 1;
}
void __cxa_guard_release(std::uint64_t *guard)
{
    synchronize(guard);
    Guard g;
    if (active) {
        pending()->erase(guard);
    }
    *reinterpret_cast<unsigned char *>(guard) = 1;
}
void __cxa_guard_abort(std::uint64_t *guard)
{
    synchronize(guard);
    Guard g;
    if (active) {
        pending()->erase(guard);
    }
}
int pthread_once(pthread_once_t *once, void (*fn)(void))
{
    REAL(pthread_once);
    if (!active || depth) {
        return real(once, fn);
    }
    point();
    waitFor([once] {
        Guard g;
        return !pending()->count(once);
    });
    synchronize(once);
    if (*once == 2) {
        return 0;
    }
    {
        Guard g;
        (*pending())[once] = self;
    }
    fn();
    synchronize(once);
    Guard g;
    pending()->erase(once);
    *once = 2;
    return 0;
}

// ---- instrumentation
#define PC __builtin_return_address(0)
#define PLAIN(n)                                                                                                                                     \
    void __tsan_read##n(void *p) { access(p, n, false, PC); }                                                                                        \
    void __tsan_write##n(void *p) { access(p, n, true, PC); }                                                                                        \
    void __tsan_volatile_read##n(void *p) { access(p, n, false, PC); }                                                                               \
    void __tsan_volatile_write##n(void *p) { access(p, n, true, PC); }                                                                               \
    void __tsan_read_write##n(void *p)                                                                                                               \
    {                                                                                                                                                \
        access(p, n, false, PC);                                                                                                                     \
        access(p, n, true, PC);                                                                                                                      \
    }
PLAIN(1)
PLAIN(2)
PLAIN(4)
PLAIN(8)
PLAIN(16)
#define UNALIGNED(n)                                                                                                                                 \
    void __tsan_unaligned_read##n(void *p) { access(p, n, false, PC); }                                                                              \
    void __tsan_unaligned_write##n(void *p) { access(p, n, true, PC); }                                                                              \
    void __tsan_unaligned_volatile_read##n(void *p) { access(p, n, false, PC); }                                                                     \
    void __tsan_unaligned_volatile_write##n(void *p) { access(p, n, true, PC); }                                                                     \
    void __tsan_unaligned_read_write##n(void *p)                                                                                                     \
    {                                                                                                                                                \
        access(p, n, false, PC);                                                                                                                     \
        access(p, n, true, PC);                                                                                                                      \
    }
UNALIGNED(2)
UNALIGNED(4)
UNALIGNED(8)
UNALIGNED(16)
void __tsan_init() { }
void __tsan_func_entry(void *) { }
void __tsan_func_exit() { }
void __tsan_ignore_thread_begin() { }
void __tsan_ignore_thread_end() { }
void __tsan_vptr_read(void *p) { access(p, 8, false, PC); }
void __tsan_vptr_update(void *p, void *v)
{
    if (*static_cast<void **>(p) != v) {
        access(p, 8, true, PC);
    }
}
void __tsan_read_range(void *p, unsigned long n) { access(p, n, false, PC); }
void __tsan_write_range(void *p, unsigned long n) { access(p, n, true, PC); }
void *__tsan_memcpy(void *d, const void *s, std::size_t n)
{
    if (n) {
        access(s, n, false, PC);
        access(d, n, true, PC);
    }
    return std::memcpy(d, s, n);
}
void *__tsan_memmove(void *d, const void *s, std::size_t n)
{
    if (n) {
        access(s, n, false, PC);
        access(d, n, true, PC);
    }
    return std::memmove(d, s, n);
}
void *__tsan_memset(void *d, int v, std::size_t n)
{
    if (n) {
        access(d, n, true, PC);
    }
    return std::memset(d, v, n);
}

using a8 = std::uint8_t;
using a16 = std::uint16_t;
using a32 = std::uint32_t;
using a64 = std::uint64_t;
#define RMW(T, name, builtin)                                                                                                                        \
    T __tsan_atomic##name(volatile T *p, T v, int)                                                                                                   \
    {                                                                                                                                                \
        access(const_cast<T *>(p), sizeof(T), true, PC, true);                                                                                       \
        synchronize(const_cast<T *>(p));                                                                                                             \
        return builtin(p, v, __ATOMIC_SEQ_CST);                                                                                                      \
    }
#define ATOMIC(T, n)                                                                                                                                 \
    T __tsan_atomic##n##_load(const volatile T *p, int)                                                                                              \
    {                                                                                                                                                \
        access(const_cast<T *>(p), sizeof(T), false, PC, true);                                                                                      \
        synchronize(const_cast<T *>(p));                                                                                                             \
        return __atomic_load_n(p, __ATOMIC_SEQ_CST);                                                                                                 \
    }                                                                                                                                                \
    void __tsan_atomic##n##_store(volatile T *p, T v, int)                                                                                           \
    {                                                                                                                                                \
        access(const_cast<T *>(p), sizeof(T), true, PC, true);                                                                                       \
        synchronize(const_cast<T *>(p));                                                                                                             \
        __atomic_store_n(p, v, __ATOMIC_SEQ_CST);                                                                                                    \
    }                                                                                                                                                \
    RMW(T, n##_exchange, __atomic_exchange_n)                                                                                                        \
    RMW(T, n##_fetch_add, __atomic_fetch_add)                                                                                                        \
    RMW(T, n##_fetch_sub, __atomic_fetch_sub)                                                                                                        \
    RMW(T, n##_fetch_and, __atomic_fetch_and)                                                                                                        \
    RMW(T, n##_fetch_or, __atomic_fetch_or)                                                                                                          \
    RMW(T, n##_fetch_xor, __atomic_fetch_xor)                                                                                                        \
    RMW(T, n##_fetch_nand, __atomic_fetch_nand)                                                                                                      \
    int __tsan_atomic##n##_compare_exchange_strong(volatile T *p, T *e, T v, int, int)                                                               \
    {                                                                                                                                                \
        access(const_cast<T *>(p), sizeof(T), true, PC, true);                                                                                       \
        synchronize(const_cast<T *>(p));                                                                                                             \
        return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                                                      \
    }                                                                                                                                                \
    int __tsan_atomic##n##_compare_exchange_weak(volatile T *p, T *e, T v, int a, int b)                                                             \
    {                                                                                                                                                \
        return __tsan_atomic##n##_compare_exchange_strong(p, e, v, a, b);                                                                            \
    }                                                                                                                                                \
    T __tsan_atomic##n##_compare_exchange_val(volatile T *p, T e, T v, int a, int b)                                                                 \
    {                                                                                                                                                \
        __tsan_atomic##n##_compare_exchange_strong(p, &e, v, a, b);                                                                                  \
        return e;                                                                                                                                    \
    }
ATOMIC(a8, 8)
ATOMIC(a16, 16)
ATOMIC(a32, 32)
ATOMIC(a64, 64)
void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int) { }
}
