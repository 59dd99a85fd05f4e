/*
 * A scheduler for concurrent sessions. The library is compiled with the compiler's memory-access instrumentation
 * (-fsanitize=thread) but linked with this file instead of the race detector: every instrumented access of shared memory
 * is a point where control may pass to another thread. Exactly one thread of the session runs at a time, and the seeded
 * generator below decides who, so a schedule is a function of the seed and repeats exactly, whatever else the machine does.
 * While a lock is held or a static is being initialised control stays where it is.
 */
#include <condition_variable>
#include <cstdint>
#include <mutex>
#include <vector>

extern "C" int __real_pthread_mutex_lock(pthread_mutex_t*);
extern "C" int __real_pthread_mutex_unlock(pthread_mutex_t*);

namespace {
std::mutex m_;
std::condition_variable cv_;
std::vector<int> live_;      // threads of the session that have not finished
int turn_ = -1, expected_ = 0;
uint64_t rng_ = 1;
thread_local int self_ = -1;
thread_local int held_ = 0;         // locks and initialisations under way
thread_local int budget_ = 0;       // switches left in this call
thread_local unsigned rate_ = 1;    // one access in `rate_` may switch

uint32_t rnd() { rng_ ^= rng_ << 13; rng_ ^= rng_ >> 7; rng_ ^= rng_ << 17; return (uint32_t) (rng_ >> 24); }

struct Hold { Hold() { held_++; } ~Hold() { held_--; } };

void pass() {
    Hold h;
    std::unique_lock<std::mutex> l(m_);
    if (live_.size() < 2) return;
    turn_ = live_[rnd() % live_.size()];
    if (turn_ == self_) return;
    cv_.notify_all();
    cv_.wait(l, [] { return turn_ == self_; });
}
inline void point() {
    if (self_ < 0 || held_ || budget_ <= 0) return;
    if (rnd() % rate_) return;
    budget_--;
    pass();
}
}

// the driver's side
void sched_begin(int n, uint64_t seed) { expected_ = n; rng_ = seed * 0x9E3779B97F4A7C15ull + 0x1234567; for (int i = 0; i < 8; i++) rnd(); live_.clear(); turn_ = -1; }
void sched_enter(int t) {
    Hold h;
    std::unique_lock<std::mutex> l(m_);
    self_ = t;
    live_.push_back(t);
    if ((int) live_.size() == expected_) {
        // the order of arrival must not matter
        for (size_t i = 1; i < live_.size(); i++) for (size_t j = i; j && live_[j] < live_[j - 1]; j--) std::swap(live_[j], live_[j - 1]);
        turn_ = live_[0];
        cv_.notify_all();
    }
    cv_.wait(l, [] { return turn_ == self_; });
}
void sched_call() { static const unsigned rates[] = {1, 2, 3, 5, 9, 17, 65, 401}; rate_ = rates[rnd() % 8]; budget_ = 40; }
void sched_leave() {
    Hold h;
    std::unique_lock<std::mutex> l(m_);
    for (size_t i = 0; i < live_.size(); i++) if (live_[i] == self_) { live_.erase(live_.begin() + i); break; }
    self_ = -1;
    if (!live_.empty()) turn_ = live_[rnd() % live_.size()];
    cv_.notify_all();
}

extern "C" {
#define ACCESS(n) \
    void __tsan_read##n(void*) { point(); } void __tsan_write##n(void*) { point(); } \
    void __tsan_unaligned_read##n(void*) { point(); } void __tsan_unaligned_write##n(void*) { point(); } \
    void __tsan_volatile_read##n(void*) { point(); } void __tsan_volatile_write##n(void*) { point(); } \
    void __tsan_read##n##_pc(void*, void*) { point(); } void __tsan_write##n##_pc(void*, void*) { point(); }
ACCESS(1) ACCESS(2) ACCESS(4) ACCESS(8) ACCESS(16)
void __tsan_read_range(void*, unsigned long) { point(); }
void __tsan_write_range(void*, unsigned long) { point(); }
void __tsan_vptr_update(void**, void*) {}
void __tsan_vptr_read(void**) {}
void __tsan_func_entry(void*) { point(); }
void __tsan_func_exit() {}
void __tsan_init() {}
#define ATOMICS(n, T) \
    T __tsan_atomic##n##_load(const volatile T* a, int) { point(); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
    void __tsan_atomic##n##_store(volatile T* a, T v, int) { point(); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##n##_exchange(volatile T* a, T v, int) { point(); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##n##_fetch_add(volatile T* a, T v, int) { point(); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##n##_fetch_sub(volatile T* a, T v, int) { point(); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##n##_fetch_and(volatile T* a, T v, int) { point(); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##n##_fetch_or(volatile T* a, T v, int) { point(); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##n##_fetch_xor(volatile T* a, T v, int) { point(); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##n##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { point(); return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##n##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) { point(); return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }
ATOMICS(8, uint8_t) ATOMICS(16, uint16_t) ATOMICS(32, uint32_t) ATOMICS(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

// initialisation of function-local statics: one thread at a time, to the end
int __cxa_guard_acquire(uint64_t* g) { if (*reinterpret_cast<uint8_t*>(g)) return 0; held_++; return 1; }
void __cxa_guard_release(uint64_t* g) { *reinterpret_cast<uint8_t*>(g) = 1; held_--; }
void __cxa_guard_abort(uint64_t*) { held_--; }

int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { held_++; return __real_pthread_mutex_lock(m); }
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { int r = __real_pthread_mutex_unlock(m); held_--; return r; }
}
