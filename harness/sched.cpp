#include "sched.h"

#include <dlfcn.h>
#include <errno.h>
#include <malloc.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <cstdlib>
#include <cstring>
#include <new>
#include <thread>

namespace {

struct th {
    sem_t sem{};
    std::int64_t prio{0};
};

struct rng {
    std::uint64_t s{1};
    std::uint64_t next() {
        s += 0x9e3779b97f4a7c15ULL;
        std::uint64_t z = s;
        z = (z ^ (z >> 30U)) * 0xbf58476d1ce4e5b9ULL;
        z = (z ^ (z >> 27U)) * 0x94d049bb133111ebULL;
        return z ^ (z >> 31U);
    }
    std::uint64_t below(std::uint64_t n) { return next() % n; }
};

thread_local th* me = nullptr;
thread_local int hush = 0;

bool on = false;
std::vector<th*> ready;  // threads that may run, the running one included
rng rnd;
std::uint64_t nsteps = 0;
int mode = 0;                // 0 random, 1 priorities, 2 priorities that change at publications
std::uint64_t odds = 16;     // random: one in so many
std::vector<std::uint64_t> changes; // priorities: steps at which the running thread falls back
std::int64_t lowest = 0;
std::uint64_t run_length = 0;
sem_t all_done;
sem_t over;

void spin();

void give(th* t) {
    if (t == me) return;
    run_length = 0;
    auto* self = me;
    sem_post(&t->sem);
    while (sem_wait(&self->sem) != 0) {}
}

th* other() {
    if (ready.size() < 2) return nullptr;
    if (mode != 0) {
        th* best = nullptr;
        for (auto* t : ready) {
            if (t != me && (best == nullptr || t->prio > best->prio)) best = t;
        }
        return best;
    }
    for (;;) {
        auto* t = ready[rnd.below(ready.size())];
        if (t != me) return t;
    }
}

// Switching matters where threads meet: at memory that more than one of them
// has used and that somebody has written since the engine was started.
struct granule {
    std::uint8_t owner;
    std::uint8_t flags; // 1 used by several, 2 written
};
constexpr unsigned granule_bits = 20;
granule granules[1U << granule_bits];
bool tracking = false;
thread_local std::uint8_t who = 0;

bool meeting(const volatile void* p, bool write) {
    if (!tracking || who == 0) return false;
    auto a = reinterpret_cast<std::uintptr_t>(p) >> 3U; // NOLINT
    auto& g = granules[(a * 0x9e3779b97f4a7c15ULL) >> (64U - granule_bits)];
    if (g.owner == 0) g.owner = who;
    else if (g.owner != who)
        g.flags |= 1U;
    if (write) g.flags |= 2U;
    return g.flags == 3;
}

void fall_back_at_step() {
    ++nsteps;
    if (std::binary_search(changes.begin(), changes.end(), nsteps)) me->prio = --lowest;
    auto* t = other();
    if (t != nullptr && t->prio > me->prio) give(t);
}

void point(bool meets) {
    if (me == nullptr || hush != 0 || !on) return;
    if (mode != 0) {
        // a thread that goes on for so long is waiting for another one
        if (++run_length > 3000) {
            run_length = 0;
            spin();
            return;
        }
        if (meets && mode == 1) fall_back_at_step();
        return;
    }
    ++nsteps;
    if (rnd.below(meets ? odds : odds * 64) != 0) return;
    auto* t = other();
    if (t != nullptr) give(t);
}

void touch(const volatile void* p, bool write) { point(meeting(p, write)); }

// before and after an atomic write, after the release of a lock
struct publication {
    bool meets;
    explicit publication(const volatile void* p) : meets(meeting(p, true)) {
        point(meets);
        step();
    }
    ~publication() { step(); }
    void step() const {
        if (mode == 2 && me != nullptr && hush == 0 && on) fall_back_at_step();
    }
};

// the thread cannot go on: somebody else has to
void spin() {
    if (me == nullptr || hush != 0 || !on) return;
    ++nsteps;
    me->prio = --lowest;
    auto* t = other();
    if (t != nullptr) give(t);
}

void newth(th* t) {
    sem_init(&t->sem, 0, 0);
    t->prio = static_cast<std::int64_t>(rnd.below(1000000)) + 1;
}

void leave_ready() { ready.erase(std::find(ready.begin(), ready.end(), me)); }

} // namespace

namespace sched {

bool active() { return on; }
bool controlled() { return me != nullptr; }
std::uint64_t steps() { return nsteps; }
void relax() { spin(); }
void track(bool b) { tracking = b; }
void act_as(int id) { who = static_cast<std::uint8_t>(id); }
quiet::quiet() { ++hush; }
quiet::~quiet() { --hush; }

void* wake(void* o) {
    auto* t = static_cast<th*>(o);
    if (t == nullptr) {
        t = new th(); // NOLINT
        sem_init(&t->sem, 0, 0);
    }
    t->prio = static_cast<std::int64_t>(rnd.below(1000000)) + 1;
    if (std::find(ready.begin(), ready.end(), t) == ready.end()) ready.push_back(t);
    return t;
}

void join(void* o) {
    me = static_cast<th*>(o);
    while (sem_wait(&me->sem) != 0) {}
}

void park() {
    auto* t = other();
    leave_ready();
    me = nullptr;
    if (t != nullptr) sem_post(&t->sem);
    else
        sem_post(&all_done);
}

void run(std::uint64_t seed, const std::vector<std::function<void()>>& bodies) {
    rnd.s = seed * 2654435761ULL + 12345;
    nsteps = 0;
    lowest = 0;
    ready.clear();
    changes.clear();
    mode = static_cast<int>(rnd.below(3));
    odds = 2ULL << (rnd.below(6));
    if (mode != 0) {
        auto d = rnd.below(mode == 1 ? 6 : 3) + 1;
        auto len = 8ULL << rnd.below(mode == 1 ? 7 : 4);
        for (std::uint64_t i = 0; i < d; ++i) changes.push_back(rnd.below(len) + 1);
        std::sort(changes.begin(), changes.end());
    }
    sem_init(&all_done, 0, 0);
    sem_init(&over, 0, 0);
    std::vector<std::thread> ts;
    std::vector<th> me_of(bodies.size());
    for (auto& t : me_of) {
        newth(&t);
        ready.push_back(&t);
    }
    for (std::size_t i = 0; i < bodies.size(); ++i) {
        ts.emplace_back([&, i] {
            me = &me_of[i];
            while (sem_wait(&me->sem) != 0) {}
            bodies[i]();
            park();
            while (sem_wait(&over) != 0) {}
        });
    }
    on = true;
    if (!ready.empty()) {
        sem_post(&ready[rnd.below(ready.size())]->sem);
        while (sem_wait(&all_done) != 0) {}
    }
    on = false;
    for (std::size_t i = 0; i < ts.size(); ++i) sem_post(&over);
    for (auto& t : ts) t.join();
}

} // namespace sched

// ------------------------------------------------------ instrumentation

// 1: begin of a piece that runs as one step, -1: end
extern "C" void hv_quiet(int d) {
    hush += d;
    if (d < 0) point(true);
}

extern "C" void hv_pause() { spin(); }

extern "C" {

void __tsan_init() {}
void AnnotateBenignRaceSized(const char*, int, const volatile void*, unsigned long, const char*) {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void** p, void*) { touch(p, true); }
void __tsan_vptr_read(void** p) { touch(p, false); }
void __tsan_read_range(void* p, unsigned long) { touch(p, false); }
void __tsan_write_range(void* p, unsigned long) { touch(p, true); }
#define RW(n)                                                                  \
    void __tsan_read##n(void* p) { touch(p, false); } \
    void __tsan_write##n(void* p) { touch(p, true); } \
    void __tsan_unaligned_read##n(void* p) { touch(p, false); } \
    void __tsan_unaligned_write##n(void* p) { touch(p, true); } \
    void __tsan_volatile_read##n(void* p) { touch(p, false); } \
    void __tsan_volatile_write##n(void* p) { touch(p, true); } 
RW(1)
RW(2)
RW(4)
RW(8)
RW(16)

void __tsan_atomic_thread_fence(int) { point(true); }
void __tsan_atomic_signal_fence(int) {}

#define AT(n, T)                                                               \
    T __tsan_atomic##n##_load(const volatile T* a, int) {                      \
        touch(a, false);                                                           \
        return __atomic_load_n(a, __ATOMIC_SEQ_CST);                           \
    }                                                                          \
    void __tsan_atomic##n##_store(volatile T* a, T v, int) {                   \
        publication pub{a};                                                    \
        __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                              \
    }                                                                          \
    T __tsan_atomic##n##_exchange(volatile T* a, T v, int) {                   \
        publication pub{a};                                                    \
        return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST);                    \
    }                                                                          \
    T __tsan_atomic##n##_fetch_add(volatile T* a, T v, int) {                  \
        publication pub{a};                                                    \
        return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST);                     \
    }                                                                          \
    T __tsan_atomic##n##_fetch_sub(volatile T* a, T v, int) {                  \
        publication pub{a};                                                    \
        return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST);                     \
    }                                                                          \
    T __tsan_atomic##n##_fetch_and(volatile T* a, T v, int) {                  \
        publication pub{a};                                                    \
        return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST);                     \
    }                                                                          \
    T __tsan_atomic##n##_fetch_or(volatile T* a, T v, int) {                   \
        publication pub{a};                                                    \
        return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST);                      \
    }                                                                          \
    T __tsan_atomic##n##_fetch_xor(volatile T* a, T v, int) {                  \
        publication pub{a};                                                    \
        return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST);                     \
    }                                                                          \
    T __tsan_atomic##n##_fetch_nand(volatile T* a, T v, int) {                 \
        publication pub{a};                                                    \
        return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST);                    \
    }                                                                          \
    bool __tsan_atomic##n##_compare_exchange_strong(volatile T* a, T* c, T v,  \
                                                    int, int) {                \
        publication pub{a};                                                    \
        return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST,   \
                                           __ATOMIC_SEQ_CST);                  \
    }                                                                          \
    bool __tsan_atomic##n##_compare_exchange_weak(volatile T* a, T* c, T v,    \
                                                  int, int) {                  \
        publication pub{a};                                                    \
        return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST,   \
                                           __ATOMIC_SEQ_CST);                  \
    }                                                                          \
    T __tsan_atomic##n##_compare_exchange_val(volatile T* a, T c, T v, int,    \
                                              int) {                           \
        publication pub{a};                                                    \
        __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST,         \
                                    __ATOMIC_SEQ_CST);                         \
        return c;                                                              \
    }
AT(8, unsigned char)
AT(16, unsigned short)
AT(32, unsigned int)
AT(64, unsigned long)
AT(128, unsigned __int128)

// ------------------------------------------------------ blocking calls

#define REAL(ret, name, ...)                                                   \
    using fn = ret (*)(__VA_ARGS__);                                           \
    static fn real = nullptr;                                                  \
    if (real == nullptr) real = reinterpret_cast<fn>(dlsym(RTLD_NEXT, #name)); // NOLINT

int pthread_mutex_lock(pthread_mutex_t* m) {
    REAL(int, pthread_mutex_lock, pthread_mutex_t*)
    auto meets = meeting(m, true);
    if (me == nullptr || !on) return real(m);
    point(meets);
    for (;;) {
        int r = pthread_mutex_trylock(m);
        if (r != EBUSY) return r;
        if (hush != 0) return real(m);
        spin();
    }
}

int pthread_mutex_unlock(pthread_mutex_t* m) {
    REAL(int, pthread_mutex_unlock, pthread_mutex_t*)
    int r = real(m);
    if (me != nullptr && on) publication pub{m};
    return r;
}

int pthread_rwlock_rdlock(pthread_rwlock_t* m) {
    REAL(int, pthread_rwlock_rdlock, pthread_rwlock_t*)
    auto meets = meeting(m, true);
    if (me == nullptr || !on) return real(m);
    point(meets);
    for (;;) {
        int r = pthread_rwlock_tryrdlock(m);
        if (r != EBUSY) return r;
        if (hush != 0) return real(m);
        spin();
    }
}

int pthread_rwlock_wrlock(pthread_rwlock_t* m) {
    REAL(int, pthread_rwlock_wrlock, pthread_rwlock_t*)
    auto meets = meeting(m, true);
    if (me == nullptr || !on) return real(m);
    point(meets);
    for (;;) {
        int r = pthread_rwlock_trywrlock(m);
        if (r != EBUSY) return r;
        if (hush != 0) return real(m);
        spin();
    }
}

int pthread_rwlock_unlock(pthread_rwlock_t* m) {
    REAL(int, pthread_rwlock_unlock, pthread_rwlock_t*)
    int r = real(m);
    if (me != nullptr && on) publication pub{m};
    return r;
}

int sched_yield() {
    REAL(int, sched_yield, void)
    if (me == nullptr || !on) return real();
    spin();
    return 0;
}

// the first use of a static object is one step
int __cxa_guard_acquire(long long* g) {
    auto* b = reinterpret_cast<unsigned char*>(g); // NOLINT
    for (;;) {
        if (__atomic_load_n(b, __ATOMIC_ACQUIRE) != 0) return 0;
        unsigned char z = 0;
        if (__atomic_compare_exchange_n(b + 1, &z, 1, false, __ATOMIC_ACQ_REL, __ATOMIC_ACQUIRE)) break;
    }
    if (__atomic_load_n(b, __ATOMIC_ACQUIRE) != 0) {
        __atomic_store_n(b + 1, 0, __ATOMIC_RELEASE);
        return 0;
    }
    ++hush;
    return 1;
}

void __cxa_guard_release(long long* g) noexcept {
    auto* b = reinterpret_cast<unsigned char*>(g); // NOLINT
    __atomic_store_n(b, 1, __ATOMIC_RELEASE);
    __atomic_store_n(b + 1, 0, __ATOMIC_RELEASE);
    --hush;
}

void __cxa_guard_abort(long long* g) noexcept {
    __atomic_store_n(reinterpret_cast<unsigned char*>(g) + 1, 0, __ATOMIC_RELEASE); // NOLINT
    --hush;
}
}

// ------------------------------------------------------ memory

// what has been released is overwritten and not handed out again for a while
namespace {
constexpr std::size_t ring_size = 1U << 14U;
void* ring[ring_size];
std::size_t ring_at = 0;

void release(void* p) {
    if (p == nullptr) return;
    if (!on) {
        std::free(p);
        return;
    }
    std::memset(p, 0xdd, malloc_usable_size(p));
    void* o = nullptr;
    // only one thread runs
    o = ring[ring_at];
    ring[ring_at] = p;
    ring_at = (ring_at + 1) % ring_size;
    std::free(o);
}
} // namespace

void* operator new(std::size_t n) {
    void* p = std::malloc(n);
    if (p == nullptr) std::abort();
    return p;
}
void* operator new(std::size_t n, std::align_val_t a) {
    void* p = std::aligned_alloc(static_cast<std::size_t>(a), (n + static_cast<std::size_t>(a) - 1) & ~(static_cast<std::size_t>(a) - 1));
    if (p == nullptr) std::abort();
    return p;
}
void operator delete(void* p) noexcept { release(p); }
void operator delete(void* p, std::size_t) noexcept { release(p); }
void operator delete(void* p, std::align_val_t) noexcept { release(p); }
void operator delete(void* p, std::size_t, std::align_val_t) noexcept { release(p); }
