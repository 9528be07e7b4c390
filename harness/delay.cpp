// Interposed pthread calls: random delays around synchronisation, injected
// thread creation failures. Linked into the executable (not under TSan).
#include <dlfcn.h>
#include <errno.h>
#include <pthread.h>
#include <sched.h>
#include <stdint.h>
#include <time.h>
#include <atomic>
#include "delay.hpp"

std::atomic<int> delay_mode(0);         // 0 off, otherwise intensity
std::atomic<long> delay_events(0), delay_taken(0);
std::atomic<long> create_fail_at(-1);   // k-th pthread_create from now fails
std::atomic<long> creates(0), create_failures(0);
std::atomic<uint64_t> delay_seed(1);

static thread_local uint64_t st = 0;
static uint64_t rnd() {
    if (!st) { st = delay_seed.fetch_add(0x9E3779B97F4A7C15ull) | 1; }
    st ^= st << 13; st ^= st >> 7; st ^= st << 17;
    return st;
}
static void nap(long ns) { timespec t = {0, ns}; nanosleep(&t, nullptr); }
// where: 0 before lock, 1 after lock (held), 2 after unlock, 3 before wait
// (held, predicate already checked), 4 after wait, 5 before notify, 6 after
void delay_point(int where) {
    int m = delay_mode.load(std::memory_order_relaxed);
    if (!m) return;
    delay_events.fetch_add(1, std::memory_order_relaxed);
    uint64_t r = rnd() % 1000;
    uint64_t p = m == 1 ? 30 : m == 2 ? 150 : 400;
    if (where == 3) p = m == 1 ? 300 : 700;   // the window of lost wake-ups
    if (r >= p) return;
    delay_taken.fetch_add(1, std::memory_order_relaxed);
    uint64_t k = rnd() % 100;
    if (k < 40) sched_yield();
    else if (k < 75) nap(1000 + long(rnd() % 20000));
    else if (k < 97) nap(20000 + long(rnd() % 150000));
    else nap(1000000 + long(rnd() % 3000000));
}
template <class F> static F next(const char* n) { return reinterpret_cast<F>(dlsym(RTLD_NEXT, n)); }
extern "C" {
int pthread_mutex_lock(pthread_mutex_t* m) {
    static int (*real)(pthread_mutex_t*) = next<int (*)(pthread_mutex_t*)>("pthread_mutex_lock");
    delay_point(0);
    int r = real(m);
    delay_point(1);
    return r;
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
    static int (*real)(pthread_mutex_t*) = next<int (*)(pthread_mutex_t*)>("pthread_mutex_unlock");
    int r = real(m);
    delay_point(2);
    return r;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
    static int (*real)(pthread_cond_t*, pthread_mutex_t*) = next<int (*)(pthread_cond_t*, pthread_mutex_t*)>("pthread_cond_wait");
    delay_point(3);
    int r = real(c, m);
    delay_point(4);
    return r;
}
int pthread_cond_signal(pthread_cond_t* c) {
    static int (*real)(pthread_cond_t*) = next<int (*)(pthread_cond_t*)>("pthread_cond_signal");
    delay_point(5);
    int r = real(c);
    delay_point(6);
    return r;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
    static int (*real)(pthread_cond_t*) = next<int (*)(pthread_cond_t*)>("pthread_cond_broadcast");
    delay_point(5);
    int r = real(c);
    delay_point(6);
    return r;
}
int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*f)(void*), void* x) {
    static int (*real)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*) = next<int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)>("pthread_create");
    creates.fetch_add(1);
    long k = create_fail_at.load();
    if (k >= 0 && create_fail_at.fetch_sub(1) == 0) { create_failures.fetch_add(1); delay_point(4); return EAGAIN; }
    return real(t, a, f, x);
}
}
