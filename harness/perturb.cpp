#include "perturb.hpp"

#include <dlfcn.h>
#include <pthread.h>
#include <sched.h>
#include <time.h>

namespace vf {
Perturb &perturb() { static Perturb p; return p; }

static thread_local uint64_t tl_state = 0;
static std::atomic<uint64_t> tl_next{1};

static uint64_t rnd() {
    if (tl_state == 0) tl_state = perturb().seed.load() * 0x9e3779b97f4a7c15ull + tl_next.fetch_add(1) * 0xbf58476d1ce4e5b9ull + 1;
    tl_state += 0x9e3779b97f4a7c15ull;
    uint64_t z = tl_state;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}

void perturb_point() {
    int lv = perturb().level.load(std::memory_order_relaxed);
    if (!lv) return;
    uint64_t r = rnd();
    if (r % 100 >= static_cast<uint64_t>(lv)) return;
    perturb().delays.fetch_add(1, std::memory_order_relaxed);
    switch ((r >> 32) % 6) {
        case 0: case 1: sched_yield(); break;
        case 2: for (int i = 0; i < 8; i++) sched_yield(); break;
        default: {
            timespec ts = {0, static_cast<long>(1000 * (1 + (r >> 40) % ((r >> 36) % 8 == 0 ? 900 : 60)))};
            nanosleep(&ts, nullptr);
        }
    }
}
}  // namespace vf

template <class F> static F next(const char *name, const char *version) {
    void *p = version ? dlvsym(RTLD_NEXT, name, version) : nullptr;
    if (!p) p = dlsym(RTLD_NEXT, name);
    return reinterpret_cast<F>(p);
}

extern "C" {
int pthread_mutex_lock(pthread_mutex_t *m) {
    static auto f = next<int (*)(pthread_mutex_t *)>("pthread_mutex_lock", nullptr);
    vf::perturb().locks.fetch_add(1, std::memory_order_relaxed);
    vf::perturb_point();
    return f(m);
}
int pthread_mutex_unlock(pthread_mutex_t *m) {
    static auto f = next<int (*)(pthread_mutex_t *)>("pthread_mutex_unlock", nullptr);
    int r = f(m);
    vf::perturb_point();
    return r;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
    static auto f = next<int (*)(pthread_cond_t *, pthread_mutex_t *)>("pthread_cond_wait", "GLIBC_2.3.2");
    vf::perturb().waits.fetch_add(1, std::memory_order_relaxed);
    int sp = vf::perturb().spurious.load(std::memory_order_relaxed);
    if (sp && static_cast<int>(vf::rnd() % 1000) < sp) {
        vf::perturb().spurious_wakeups.fetch_add(1, std::memory_order_relaxed);
        pthread_mutex_unlock(m);
        vf::perturb_point();
        return pthread_mutex_lock(m);
    }
    vf::perturb_point();
    return f(c, m);
}
int pthread_cond_signal(pthread_cond_t *c) {
    static auto f = next<int (*)(pthread_cond_t *)>("pthread_cond_signal", "GLIBC_2.3.2");
    vf::perturb().notifies.fetch_add(1, std::memory_order_relaxed);
    vf::perturb_point();
    int r = f(c);
    vf::perturb_point();
    return r;
}
int pthread_cond_broadcast(pthread_cond_t *c) {
    static auto f = next<int (*)(pthread_cond_t *)>("pthread_cond_broadcast", "GLIBC_2.3.2");
    vf::perturb().notifies.fetch_add(1, std::memory_order_relaxed);
    vf::perturb_point();
    return f(c);
}
}
