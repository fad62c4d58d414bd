// Schedule perturbation: an LD_PRELOAD library that, once armed (vf_sched_arm, or VF_SCHED_NOW=1), makes the calling thread sleep for a
// random time before taking and after releasing a mutex and before writing to a file. VF_SCHED=seed:percent:max_us:percent_of_writes:max_us_of_writes
#include <atomic>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <dlfcn.h>
#include <pthread.h>
#include <unistd.h>

static std::atomic<int> armed{0}, slept{0};
static std::atomic<uint64_t> threads{0};
static std::atomic<unsigned> epoch{1};
static uint64_t seed = 1;
static unsigned prob = 0, maxus = 0, wprob = 0, wmaxus = 0;
static int limit = 4000;
static thread_local uint64_t state;
static thread_local bool inside;
static thread_local unsigned myEpoch;
static thread_local unsigned scale;        // a thread is always delayed (0), never delayed after an unlock (1) or delayed at random

extern "C" __attribute__((visibility("default"))) void vf_sched_arm() { armed = 1; }
extern "C" __attribute__((visibility("default"))) int vf_sched_count() { return slept; }
// for checks that run the library in their own process: percent 0 turns the perturbation off
extern "C" __attribute__((visibility("default"))) void vf_sched_set(uint64_t s, unsigned percent, unsigned us) {
    armed = 0;
    seed = s;
    prob = percent;
    maxus = us;
    slept = 0;
    threads = 0;
    epoch++;
    armed = percent > 0;
}

__attribute__((constructor)) static void init() {
    if (const char *s = getenv("VF_SCHED")) {
        unsigned long long a = 1;
        sscanf(s, "%llu:%u:%u:%u:%u", &a, &prob, &maxus, &wprob, &wmaxus);
        seed = a;
    }
    if (getenv("VF_SCHED_NOW"))
        armed = 1;
}

static void nap(unsigned p, unsigned us) {
    if (!armed || !p || inside)
        return;
    if (myEpoch != epoch) {
        myEpoch = epoch;
        state = (seed * 0x9E3779B97F4A7C15ull + ++threads * 0xD1B54A32D192ED03ull) | 1;
        scale = (state >> 40) % 4;
    }
    if (scale == 0)
        p = 100;
    else if (scale == 1 && us == maxus)
        return;
    state ^= state << 13; state ^= state >> 7; state ^= state << 17;
    if ((state >> 20) % 100 < p && slept < limit) {
        slept++;
        inside = true;
        usleep((state >> 33) % (us + 1));
        inside = false;
    }
}

template<typename T> static T next(const char *name) { return reinterpret_cast<T>(dlsym(RTLD_NEXT, name)); }

extern "C" __attribute__((visibility("default"))) int pthread_mutex_unlock(pthread_mutex_t *m) {
    static auto f = next<int (*)(pthread_mutex_t *)>("pthread_mutex_unlock");
    int r = f(m);
    nap(prob, maxus);
    return r;
}

extern "C" __attribute__((visibility("default"))) int pthread_mutex_lock(pthread_mutex_t *m) {
    static auto f = next<int (*)(pthread_mutex_t *)>("pthread_mutex_lock");
    nap(prob / 2, maxus);
    return f(m);
}

extern "C" __attribute__((visibility("default"))) size_t fwrite(const void *p, size_t s, size_t n, FILE *f) {
    static auto w = next<size_t (*)(const void *, size_t, size_t, FILE *)>("fwrite");
    nap(wprob, wmaxus);
    return w(p, s, n, f);
}
