// Concurrent logging against handlers that come and go; everything observable is recorded for the Python oracle.
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <thread>
#include <vector>
#include "VapourSynth4.h"

namespace {
struct H {
    std::atomic<int> inside{0}, freed{0}, bad{0};
    std::atomic<bool> removed{false};
    std::vector<int> got;
    VSLogHandle *handle = nullptr;
    long addedAt = 0, addStart = 0, removeStart = 0, removedAt = 0;
    int removeResult = -1, freedAtReturn = -1;
    int spin = 0;
};
void VS_CC onMsg(int type, const char *msg, void *u) {
    H *h = static_cast<H *>(u);
    if (h->inside.fetch_add(1))
        h->bad |= 1;    // two messages at once
    if (h->freed)
        h->bad |= 2;    // after the free callback
    if (h->removed)
        h->bad |= 4;    // after removal returned
    int t, i, k;
    if (sscanf(msg, "m %d %d %d", &t, &i, &k) == 3) {
        std::string want = "m " + std::to_string(t) + " " + std::to_string(i) + " " + std::to_string(k) + " " + std::string(k, 'x');
        if (want != msg || type != (t + i) % 4)
            h->bad |= 8;
        h->got.push_back(t * 100000 + i);
    } else
        h->got.push_back(-1);
    for (volatile int s = 0; s < h->spin; s = s + 1) {}
    h->inside.fetch_sub(1);
}
void VS_CC onFree(void *u) { static_cast<H *>(u)->freed.fetch_add(1); }
}

// plan: nhandlers x {delayBeforeAdd, delayBeforeRemove (-1: stays until freeCore), spin}
// out: per handler {count, bad, freed, freedAtReturn, removeResult, addStart, addedAt, removeStart, removedAt, msgs...}; then per thread and message {start, end}
extern "C" __attribute__((visibility("default"))) long vflog_run(const VSAPI *vsapi, int nthreads, const int *nmsgs, const int *gap, int nhandlers, const int *plan, int witness, long *out, long cap) {
    VSCore *core = vsapi->createCore(ccfDisableAutoLoading);
    std::vector<H> hs(nhandlers);
    std::atomic<long> clock{1};
    std::vector<std::vector<std::pair<long, long>>> when(nthreads);
    std::atomic<int> ready{0};
    std::atomic<bool> go{false};
    auto add = [&](H &h) {
        h.addStart = clock++;
        h.handle = vsapi->addLogHandler(onMsg, onFree, &h, core);
        h.addedAt = clock++;
    };
    for (int i = 0; i < nhandlers; i++)
        hs[i].spin = plan[i * 3 + 2];
    if (witness)
        add(hs[0]);
    std::vector<std::thread> ts;
    for (int t = 0; t < nthreads; t++)
        ts.emplace_back([&, t] {
            ready++;
            while (!go)
                std::this_thread::yield();
            for (int i = 0; i < nmsgs[t]; i++) {
                int k = (t * 7 + i * 13) % 40;
                std::string m = "m " + std::to_string(t) + " " + std::to_string(i) + " " + std::to_string(k) + " " + std::string(k, 'x');
                long a = clock++;
                vsapi->logMessage((t + i) % 4, m.c_str(), core);
                when[t].push_back({ a, clock++ });
                for (volatile int s = 0; s < gap[t]; s = s + 1) {}
            }
        });
    // each handler other than the witness has its own controlling thread
    for (int i = witness ? 1 : 0; i < nhandlers; i++)
        ts.emplace_back([&, i] {
            ready++;
            while (!go)
                std::this_thread::yield();
            H &h = hs[i];
            for (volatile int s = 0; s < plan[i * 3]; s = s + 1) {}
            add(h);
            if (plan[i * 3 + 1] >= 0) {
                for (volatile int s = 0; s < plan[i * 3 + 1]; s = s + 1) {}
                h.removeStart = clock++;
                h.removeResult = vsapi->removeLogHandler(h.handle, core);
                h.removed = true;
                h.freedAtReturn = h.freed;
                h.removedAt = clock++;
            }
        });
    while (ready < static_cast<int>(ts.size()))
        std::this_thread::yield();
    go = true;
    for (auto &t : ts)
        t.join();
    long end = clock++;
    vsapi->freeCore(core);
    long n = 0;
    auto put = [&](long v) { if (n < cap) out[n] = v; n++; };
    for (auto &h : hs) {
        put(static_cast<long>(h.got.size())); put(h.bad); put(h.freed); put(h.freedAtReturn); put(h.removeResult);
        put(h.addStart); put(h.addedAt); put(h.removeStart ? h.removeStart : end); put(h.removedAt ? h.removedAt : end);
        for (int g : h.got)
            put(g);
    }
    for (auto &w : when)
        for (auto &p : w) {
            put(p.first);
            put(p.second);
        }
    return n;
}
