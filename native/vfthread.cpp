// Persistent native threads (unknown to Python) that perform C calls on request.
#include <condition_variable>
#include <mutex>
#include <thread>
#include <vector>

#define X extern "C" __attribute__((visibility("default")))
typedef long (*Fn)(long, long, long);

namespace {
struct Worker {
    std::mutex m;
    std::condition_variable cv;
    Fn fn = nullptr;
    long a = 0, b = 0, c = 0, r = 0;
    bool busy = false, done = false;

    void loop() {
        for (;;) {
            std::unique_lock<std::mutex> l(m);
            cv.wait(l, [&] { return busy && !done; });
            Fn f = fn;
            long x = a, y = b, z = c;
            l.unlock();
            long v = f(x, y, z);
            l.lock();
            r = v;
            done = true;
            cv.notify_all();
        }
    }

    long call(Fn f, long x, long y, long z) {
        std::unique_lock<std::mutex> l(m);
        cv.wait(l, [&] { return !busy; });
        fn = f; a = x; b = y; c = z;
        busy = true;
        done = false;
        cv.notify_all();
        cv.wait(l, [&] { return done; });
        busy = false;
        long v = r;
        cv.notify_all();
        return v;
    }
};
std::mutex gm;
std::vector<Worker *> ws;
}

X long t_call(int tid, void *fn, long a, long b, long c) {
    Worker *w;
    {
        std::lock_guard<std::mutex> l(gm);
        while (static_cast<int>(ws.size()) <= tid) {
            w = new Worker();
            std::thread([w] { w->loop(); }).detach();
            ws.push_back(w);
        }
        w = ws[tid];
    }
    return w->call(reinterpret_cast<Fn>(fn), a, b, c);
}
