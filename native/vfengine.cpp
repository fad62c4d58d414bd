// Engine harness: builds a generated graph of self-checking filters, lets several client threads drive it and records every broken promise.
// The whole run is described by a vector of ints (see vf/engine.py); violations come back as lines "Cxx text".
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <cstdio>
#include <cstring>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <string>
#include <thread>
#include <vector>
#include "VapourSynth4.h"

namespace {
typedef uint64_t u64;
constexpr int SAMPLES = VS_AUDIO_FRAME_SAMPLES;

u64 mix(u64 a, u64 b) {
    u64 x = a * 0x9E3779B97F4A7C15ull + b + 0x632BE59BD9B4E019ull;
    x ^= x >> 32; x *= 0xD6E8FEB86659FD93ull; x ^= x >> 32; x *= 0xD6E8FEB86659FD93ull; x ^= x >> 32;
    return x;
}

struct Req { int phase, input, mul, div, off; };
struct Nested { int node, mul, off, at; };     // a frame fetched synchronously inside the filter: at 0 the first activation, 1 the last one
struct Run;
struct N {
    Run *run;
    int idx, kind, media, w, h, frames, mode, failMod, failRem, failPhase, delayInit, delayFinal, flags, cacheMode, fixed, maxSize, maxHist, dropEarly;
    std::vector<int> inputs, patterns;
    std::vector<Req> reqs;
    std::vector<Nested> nested;
    std::vector<VSNode *> nestedDeps;
    int phases = 0;
    VSNode *node = nullptr;
    std::vector<VSNode *> deps;     // references owned by the filter
    VSVideoInfo vi = {};
    VSAudioInfo ai = {};
    std::atomic<int> running{0}, ready{0}, freed{0}, calls{0};
    std::atomic<void *> owner{nullptr};
    int last = -1, upper = 0;   // linear sources
    std::mutex curLock;
    std::map<int, int> cur;
    std::atomic<int> sameFrame{0};
};
struct FD { u64 magic; N *node; int n, phase; void *ctx; std::vector<std::pair<int, int>> got; };   // got: (input, wanted frame) requested so far
struct Exp { bool ok; u64 v; std::set<std::pair<int, int>> errs; };

enum { F_RELEASE = 1, F_DUP = 2, F_PASS = 4, F_INPLACE = 8, F_MULTIGET = 16, F_NEWPROPS = 32, F_PLANES = 64 };

struct Pending { Run *run; int node, n, chain, chainNode; bool keep; std::atomic<int> done{0}; };

struct Run {
    const VSAPI *vsapi;
    VSCore *core = nullptr;
    std::vector<std::unique_ptr<N>> nodes;
    u64 seed = 0;
    std::mutex lock;
    std::vector<std::string> bad;
    std::atomic<long> progress{0}, fds{0}, activations{0}, deliveries{0}, errors{0}, overlaps{0}, nestedGets{0};
    std::atomic<int> inCallback{0};
    std::mutex pendLock;
    std::condition_variable pendCond;
    int outstanding = 0;
    std::vector<std::unique_ptr<Pending>> pend;
    struct Kept { const VSFrame *f; int node, n; };
    std::vector<Kept> kept;
    std::vector<std::string> messages;
    std::map<std::pair<int, int>, Exp> memo;
    std::atomic<int> clientsDone{0};

    void fail(const std::string &s) {
        std::lock_guard<std::mutex> l(lock);
        if (bad.size() < 20)
            bad.push_back(s);
    }
    int clampFrame(int node, int n) const { return n >= nodes[node]->frames ? nodes[node]->frames - 1 : n; }
    static int want(const Req &r, int n) { int x = n * r.mul / r.div + r.off; return x < 0 ? 0 : x; }
    bool fails(const N &d, int n) const { return d.failMod && n % d.failMod == d.failRem; }

    const Exp &expect(int i, int n) {   // only called before the threads start
        auto key = std::make_pair(i, n);
        auto it = memo.find(key);
        if (it != memo.end())
            return it->second;
        N &d = *nodes[i];
        Exp e{true, mix(mix(seed, i + 1), n), {}};
        if (fails(d, n) && d.failPhase == 0) {
            e.ok = false;
            e.errs.insert({i, n});
        } else {
            int phase = 0;
            for (; phase < d.phases && e.ok; phase++)
                for (auto &r : d.reqs)
                    if (r.phase == phase) {
                        const Exp &s = expect(d.inputs[r.input], clampFrame(d.inputs[r.input], want(r, n)));
                        if (!s.ok) {
                            e.ok = false;
                            e.errs.insert(s.errs.begin(), s.errs.end());
                        } else
                            e.v = mix(e.v, s.v);
                    }
            if (e.ok && fails(d, n)) {
                e.ok = false;
                e.errs.insert({i, n});
            }
            if (e.ok && (d.flags & F_PASS))
                e.v = expect(d.inputs[d.reqs[0].input], clampFrame(d.inputs[d.reqs[0].input], want(d.reqs[0], n))).v;
        }
        return memo[key] = e;
    }
    const Exp &at(int i, int n) const { return memo.at({i, n}); }

    std::string name(int i, int n) const { return "node " + std::to_string(i) + " frame " + std::to_string(n); }
    static u64 byteAt(u64 v, int plane, int y) { return mix(v, plane * 65536 + y) & 0xFF; }

    void fill(const N &d, VSFrame *f, u64 v) {
        if (d.media == 0) {
            int np = vsapi->getVideoFrameFormat(f)->numPlanes;
            for (int p = 0; p < np; p++) {
                uint8_t *w = vsapi->getWritePtr(f, p);
                ptrdiff_t st = vsapi->getStride(f, p);
                int hh = vsapi->getFrameHeight(f, p), ww = vsapi->getFrameWidth(f, p);
                for (int y = 0; y < hh; y++)
                    memset(w + st * y, static_cast<int>(byteAt(v, p, y)), ww);
            }
        } else {
            for (int c = 0; c < 2; c++)
                memset(vsapi->getWritePtr(f, c), static_cast<int>(byteAt(v, c, 0)), 2 * vsapi->getFrameLength(f));
        }
        vsapi->mapSetInt(vsapi->getFramePropertiesRW(f), "v", static_cast<int64_t>(v), maReplace);
    }
    std::string compare(const N &d, const VSFrame *f, u64 v) {
        int err = 0;
        int64_t pv = vsapi->mapGetInt(vsapi->getFramePropertiesRO(f), "v", 0, &err);
        if (err || static_cast<u64>(pv) != v)
            return "property of another frame";
        if (d.media == 0) {
            if (vsapi->getFrameType(f) != mtVideo || vsapi->getFrameWidth(f, 0) != d.w || vsapi->getFrameHeight(f, 0) != d.h)
                return "frame of another kind";
            int np = vsapi->getVideoFrameFormat(f)->numPlanes;
            for (int p = 0; p < np; p++) {
                const uint8_t *r = vsapi->getReadPtr(f, p);
                ptrdiff_t st = vsapi->getStride(f, p);
                int hh = vsapi->getFrameHeight(f, p), ww = vsapi->getFrameWidth(f, p);
                for (int y = 0; y < hh; y++) {
                    uint8_t b = static_cast<uint8_t>(byteAt(v, p, y));
                    const uint8_t *q = r + st * y;
                    if (q[0] != b || memcmp(q, q + 1, ww - 1))
                        return "samples of another frame (plane " + std::to_string(p) + " row " + std::to_string(y) + ")";
                }
            }
        } else {
            if (vsapi->getFrameType(f) != mtAudio)
                return "frame of another kind";
            int len = 2 * vsapi->getFrameLength(f);
            if (len != 2 * SAMPLES)
                return "wrong length";
            for (int c = 0; c < 2; c++) {
                const uint8_t *q = vsapi->getReadPtr(f, c);
                if (q[0] != static_cast<uint8_t>(byteAt(v, c, 0)) || memcmp(q, q + 1, len - 1))
                    return "samples of another frame (channel " + std::to_string(c) + ")";
            }
        }
        return "";
    }
    VSFrame *fresh(const N &d, const VSFrame *props) {
        return d.media == 0 ? vsapi->newVideoFrame(&d.vi.format, d.w, d.h, props, core) : vsapi->newAudioFrame(&d.ai.format, SAMPLES, props, core);
    }
    void spin(int us, u64 h) {
        if (!us)
            return;
        int t = static_cast<int>(h % (us + 1));
        if (h & 0x10000)
            std::this_thread::sleep_for(std::chrono::microseconds(t));
        else {
            auto end = std::chrono::steady_clock::now() + std::chrono::microseconds(t);
            while (std::chrono::steady_clock::now() < end) {}
        }
    }
    void judge(int node, int n, const VSFrame *f, const char *err, const char *how);
};

void Run::judge(int node, int n, const VSFrame *f, const char *err, const char *how) {
    N &d = *nodes[node];
    std::string what = std::string(how) + " of " + name(node, n);
    deliveries++;
    if (n < 0 || n >= d.frames) {
        if (f)
            fail("C03 " + what + " (out of range) delivered a frame");
        else if (!err || !strstr(err, std::to_string(n).c_str()))
            fail("C03 " + what + " (out of range) reported: " + (err ? err : "(null)"));
        return;
    }
    const Exp &e = at(node, n);
    if (e.ok) {
        if (!f)
            return fail("C03 " + what + " failed although nothing it depends on does: " + (err ? err : "(null)"));
        if (err && *err)
            fail("C03 " + what + " delivered a frame and an error: " + err);
        std::string c = compare(d, f, e.v);
        if (!c.empty())
            fail("C03 " + what + " delivered: " + c);
    } else {
        errors++;
        if (f)
            return fail("C03 " + what + " delivered a frame although it depends on a failing one");
        int a = -1, b = -1;
        if (!err || sscanf(err, "E:%d:%d:", &a, &b) != 2 || !e.errs.count({a, b}) || err != "E:" + std::to_string(a) + ":" + std::to_string(b) + ":é message")
            fail("C03 " + what + " failed with a message no filter it depends on gave: " + (err ? err : "(null)"));
    }
}

const VSFrame *VS_CC getFrame(int n, int reason, void *inst, void **frameData, VSFrameContext *ctx, VSCore *core, const VSAPI *vsapi) {
    N &d = *static_cast<N *>(inst);
    Run &r = *d.run;
    r.progress++;
    r.activations++;
    std::string me = r.name(d.idx, n) + " reason " + std::to_string(reason);
    if (d.freed)
        r.fail("C05 " + me + ": called after its free callback");
    // entering
    int before = d.running.fetch_add(1);
    if (before)
        r.overlaps++;
    if (before && (d.mode == fmUnordered || d.mode == fmFrameState))
        r.fail("C06 " + me + ": two threads inside a serialised filter, mode " + std::to_string(d.mode));
    int rbefore = reason == arAllFramesReady ? d.ready.fetch_add(1) : 0;
    if (rbefore && d.mode == fmParallelRequests)
        r.fail("C06 " + me + ": two threads with arAllFramesReady in a fmParallelRequests filter");
    if (core != r.core || vsapi != r.vsapi)
        r.fail("C06 " + me + ": wrong core or api");
    FD *fd = static_cast<FD *>(frameData[0]);
    if (d.mode == fmFrameState) {
        void *o = d.owner.load();
        if (o && o != ctx)
            r.fail("C06 " + me + ": another frame was started before the previous one was finished in a fmFrameState filter");
        d.owner = ctx;
    }
    if (n < 0 || n >= d.frames)
        r.fail("C06 " + me + ": frame number out of range");

    const VSFrame *ret = nullptr;
    bool finished = false;
    auto error = [&]() {
        vsapi->setFilterError(("E:" + std::to_string(d.idx) + ":" + std::to_string(n) + ":é message").c_str(), ctx);
        finished = true;
    };
    auto nest = [&](int at) {
        for (size_t i = 0; i < d.nested.size(); i++)
            if (d.nested[i].at == at) {
                const Nested &q = d.nested[i];
                int m = n * q.mul + q.off;
                char buf[256] = "";
                const VSFrame *f = vsapi->getFrame(m, d.nestedDeps[i], buf, sizeof(buf));
                r.progress++;
                r.nestedGets++;
                r.judge(q.node, m, f, buf, "nested request");
                vsapi->freeFrame(f);
            }
    };
    auto finish = [&]() {   // the output frame
        nest(1);
        if (r.fails(d, n))
            return error();
        u64 v = r.at(d.idx, n).v;
        const VSFrame *src = nullptr;
        if (!d.reqs.empty() && !(d.flags & F_NEWPROPS))
            src = vsapi->getFrameFilter(Run::want(d.reqs[0], n), d.deps[d.reqs[0].input], ctx);
        if (d.flags & F_PASS)
            ret = src;
        else if ((d.flags & F_INPLACE) && src) {
            VSFrame *f = vsapi->copyFrame(src, core);
            r.fill(d, f, v);
            vsapi->freeFrame(src);
            ret = f;
        } else if ((d.flags & F_PLANES) && src && d.media == 0) {
            const VSFrame *ps[3] = {src, src, src};
            int pl[3] = {0, 1, 2};
            VSFrame *f = vsapi->newVideoFrame2(&d.vi.format, d.w, d.h, ps, pl, src, core);
            r.fill(d, f, v);
            vsapi->freeFrame(src);
            ret = f;
        } else {
            VSFrame *f = r.fresh(d, src);
            r.fill(d, f, v);
            vsapi->freeFrame(src);
            ret = f;
        }
        finished = true;
    };
    auto request = [&](int phase) {
        for (auto &q : d.reqs)
            if (q.phase == phase) {
                int m = Run::want(q, n);
                vsapi->requestFrameFilter(m, d.deps[q.input], ctx);
                fd->got.push_back({q.input, m});
                if (d.flags & F_DUP)
                    vsapi->requestFrameFilter(m, d.deps[q.input], ctx);
            }
    };

    if (reason == arInitial) {
        if (frameData[0] || frameData[1] || frameData[2] || frameData[3])
            r.fail("C06 " + me + ": per-frame data is not clear at arInitial");
        r.spin(d.delayInit, mix(r.seed, mix(d.idx, n * 4)));
        nest(0);
        if (r.fails(d, n) && d.failPhase == 0)
            error();
        else if (!d.phases) {
            if (d.kind == 2) {      // linear source: fill in the gap when it is small enough
                if (d.last < n && n - d.last - 1 <= d.upper)
                    for (int i = d.last + 1; i < n; i++)
                        if (!r.fails(d, i)) {
                            VSFrame *f = r.fresh(d, nullptr);
                            r.fill(d, f, r.at(d.idx, i).v);
                            vsapi->cacheFrame(f, i, ctx);
                            vsapi->freeFrame(f);
                        }
                d.last = n;
            }
            finish();
        } else {
            fd = new FD{0xFD00FD00FD00FD00ull, &d, n, 0, ctx, {}};
            r.fds++;
            frameData[0] = fd;
            frameData[1] = ctx;
            frameData[2] = frameData[3] = fd;
            request(0);
        }
    } else if (reason == arAllFramesReady || reason == arError) {
        if (!fd || fd->magic != 0xFD00FD00FD00FD00ull || fd->node != &d || fd->n != n || fd->ctx != ctx || frameData[1] != ctx || frameData[2] != fd || frameData[3] != fd) {
            r.fail("C06 " + me + ": per-frame data is not what this frame stored");
            error();
            fd = nullptr;
        } else {
            bool anyBad = false;
            for (auto &g : fd->got)
                anyBad |= !r.at(d.inputs[g.first], r.clampFrame(d.inputs[g.first], g.second)).ok;
            if (reason == arError) {
                if (!anyBad)
                    r.fail("C06 " + me + ": error activation although no requested frame fails");
                r.spin(d.delayFinal, mix(r.seed, mix(d.idx, n * 4 + 2)));
                finished = true;
            } else {
                if (anyBad)
                    r.fail("C06 " + me + ": all-ready activation although a requested frame fails");
                for (auto &g : fd->got) {
                    int gets = (d.flags & F_MULTIGET) ? 2 : 1;
                    for (int k = 0; k < gets; k++) {
                        const VSFrame *f = vsapi->getFrameFilter(g.second, d.deps[g.first], ctx);
                        if (!f) {
                            r.fail("C06 " + me + ": requested frame " + std::to_string(g.second) + " of input " + std::to_string(g.first) + " is not available");
                            continue;
                        }
                        int si = d.inputs[g.first], sn = r.clampFrame(si, g.second);
                        if (r.at(si, sn).ok) {
                            std::string c = r.compare(*r.nodes[si], f, r.at(si, sn).v);
                            if (!c.empty())
                                r.fail("C03 " + me + ": requested frame " + std::to_string(sn) + " of node " + std::to_string(si) + " arrived with " + c);
                        }
                        vsapi->freeFrame(f);
                    }
                }
                r.spin(d.delayFinal, mix(r.seed, mix(d.idx, n * 4 + 1)));
                fd->phase++;
                if (fd->phase < d.phases) {
                    if (d.flags & F_RELEASE) {
                        // keep what finish() needs and what is requested again
                        std::vector<std::pair<int, int>> left;
                        for (size_t i = 0; i < fd->got.size(); i++) {
                            auto &g = fd->got[i];
                            if (d.inputs[g.first] == d.inputs[d.reqs[0].input] && r.clampFrame(d.inputs[g.first], g.second) == r.clampFrame(d.inputs[g.first], Run::want(d.reqs[0], n)))
                                left.push_back(g);
                            else
                                vsapi->releaseFrameEarly(d.deps[g.first], r.clampFrame(d.inputs[g.first], g.second), ctx);
                        }
                        fd->got = left;
                    }
                    request(fd->phase);
                } else
                    finish();
            }
        }
        if (finished && fd) {
            fd->magic = 0;
            delete fd;
            r.fds--;
            frameData[0] = nullptr;
        }
    } else
        r.fail("C06 " + me + ": unknown activation reason");
    if (d.freed)
        r.fail("C05 " + me + ": freed while running");
    if (d.mode == fmFrameState && finished)
        d.owner = nullptr;
    if (reason == arAllFramesReady)
        d.ready--;
    d.running--;
    return ret;
}

void VS_CC freeFilter(void *inst, VSCore *core, const VSAPI *vsapi) {
    N &d = *static_cast<N *>(inst);
    if (d.freed++)
        d.run->fail("C05 node " + std::to_string(d.idx) + ": freed twice");
    if (d.running)
        d.run->fail("C05 node " + std::to_string(d.idx) + ": freed while a request on it is running");
    if (core != d.run->core)
        d.run->fail("C05 node " + std::to_string(d.idx) + ": freed with another core");
    // nobody may still need it: every filter that uses it must have been freed first
    for (auto &o : d.run->nodes)
        if (o->node && !o->freed)
            for (int in : o->inputs)
                if (in == d.idx)
                    d.run->fail("C05 node " + std::to_string(d.idx) + ": freed while node " + std::to_string(o->idx) + " uses it");
    for (auto x : d.deps)
        vsapi->freeNode(x);
    d.deps.clear();
    for (auto x : d.nestedDeps)
        vsapi->freeNode(x);
    d.nestedDeps.clear();
}

void VS_CC onLog(int type, const char *msg, void *u) {
    Run *r = static_cast<Run *>(u);
    std::lock_guard<std::mutex> l(r->lock);
    r->messages.push_back(std::to_string(type) + " " + msg);
}

void issue(Run &r, int node, int n, bool keep, int chain, int chainNode);

void VS_CC onFrame(void *u, const VSFrame *f, int n, VSNode *node, const char *err) {
    Pending &p = *static_cast<Pending *>(u);
    Run &r = *p.run;
    r.progress++;
    if (r.inCallback.fetch_add(1))
        r.fail("C03 two completion callbacks at the same time");
    if (p.done.fetch_add(1))
        r.fail("C03 request of " + r.name(p.node, p.n) + " completed twice");
    else {
        if (n != p.n || node != r.nodes[p.node]->node)
            r.fail("C03 request of " + r.name(p.node, p.n) + " completed as frame " + std::to_string(n));
        r.judge(p.node, p.n, f, err, "asynchronous request");
        int next = (n < 0 ? 0 : n % 1000) + 1 < r.nodes[p.chainNode]->frames ? (n < 0 ? 0 : n) + 1 : 0;
        if (p.chain & 8) {      // fetch it synchronously inside the callback
            char buf[256] = "";
            const VSFrame *g = r.vsapi->getFrame(next, r.nodes[p.chainNode]->node, buf, sizeof(buf));
            r.progress++;
            r.nestedGets++;
            r.judge(p.chainNode, next, g, buf, "request inside a callback");
            r.vsapi->freeFrame(g);
        }
        if (p.chain & 7)
            issue(r, p.chainNode, next, p.keep, p.chain - 1, p.node);
    }
    if (f) {
        if (p.keep) {
            std::lock_guard<std::mutex> l(r.lock);
            r.kept.push_back({f, p.node, p.n});
        } else
            r.vsapi->freeFrame(f);
    }
    r.inCallback--;
    r.vsapi->freeNode(node);
    std::lock_guard<std::mutex> l(r.pendLock);
    r.outstanding--;
    r.pendCond.notify_all();
}

void issue(Run &r, int node, int n, bool keep, int chain, int chainNode) {
    Pending *p;
    {
        std::lock_guard<std::mutex> l(r.pendLock);
        r.pend.emplace_back(new Pending{&r, node, n, chain, chainNode, keep});
        p = r.pend.back().get();
        r.outstanding++;
    }
    r.vsapi->addNodeRef(r.nodes[node]->node);
    r.vsapi->getFrameAsync(n, r.nodes[node]->node, onFrame, p);
}

struct Op { int op, a, b, c, d; };

void client(Run &r, const std::vector<Op> &ops) {
    const VSAPI *vsapi = r.vsapi;
    for (auto &o : ops) {
        switch (o.op) {
        case 0: {
            char buf[256] = "";
            const VSFrame *f = vsapi->getFrame(o.b, r.nodes[o.a]->node, buf, sizeof(buf));
            r.progress++;
            r.judge(o.a, o.b, f, buf, "synchronous request");
            if (f && o.c) {
                std::lock_guard<std::mutex> l(r.lock);
                r.kept.push_back({f, o.a, o.b});
            } else
                vsapi->freeFrame(f);
            break;
        }
        case 1: issue(r, o.a, o.b, o.c, o.d & 15, o.d >> 4); break;
        case 2: {
            std::unique_lock<std::mutex> l(r.pendLock);
            r.pendCond.wait(l, [&] { return r.outstanding <= o.a; });
            break;
        }
        case 3: vsapi->setCacheMode(r.nodes[o.a]->node, o.b); break;
        case 4: vsapi->setCacheOptions(r.nodes[o.a]->node, o.b, o.c, o.d); break;
        case 5: vsapi->clearNodeCache(r.nodes[o.a]->node); break;
        case 6: vsapi->clearCoreCaches(r.core); break;
        case 7:
            if (vsapi->setThreadCount(o.a, r.core) < 1)
                r.fail("C04 setThreadCount returned a count below 1");
            break;
        case 8: vsapi->setMaxCacheSize(o.a, r.core); break;
        case 9: std::this_thread::sleep_for(std::chrono::microseconds(o.a)); break;
        case 10: {      // a burst of requests
            for (int i = 0; i < o.c; i++)
                issue(r, o.a, (o.b + i * o.d) % r.nodes[o.a]->frames, false, 0, 0);
            break;
        }
        }
    }
    r.clientsDone++;
}
}

// spec: see vf/engine.py. Returns the number of bytes written to report; the last line is "STAT ...".
extern "C" __attribute__((visibility("default"))) int vfengine_run(const VSAPI *vsapi, const int *s, int len, char *report, int cap) {
    const int *p = s;
    Run *rp = new Run();
    Run &r = *rp;
    r.vsapi = vsapi;
    int threads = *p++, mem = *p++, coreFlags = *p++;
    r.seed = *p++;
    int quiet = *p++, freeOrder = *p++, zombie = *p++, earlyFree = *p++;
    int nn = *p++, nc = *p++;
    r.core = vsapi->createCore(ccfDisableAutoLoading | coreFlags);
    VSCore *core = r.core;
    vsapi->addLogHandler(onLog, nullptr, rp, core);
    vsapi->setThreadCount(threads, core);
    if (mem)
        vsapi->setMaxCacheSize(mem, core);
    for (int i = 0; i < nn; i++) {
        r.nodes.emplace_back(new N());
        N &d = *r.nodes.back();
        d.run = rp;
        d.idx = i;
        d.kind = *p++; d.media = *p++; d.w = *p++; d.h = *p++; d.frames = *p++; d.mode = *p++; d.failMod = *p++; d.failRem = *p++; d.failPhase = *p++;
        d.delayInit = *p++; d.delayFinal = *p++; d.flags = *p++; d.cacheMode = *p++; d.fixed = *p++; d.maxSize = *p++; d.maxHist = *p++; d.dropEarly = *p++;
        int ni = *p++;
        for (int k = 0; k < ni; k++) {
            d.inputs.push_back(*p++);
            d.patterns.push_back(*p++);
        }
        int nr = *p++;
        for (int k = 0; k < nr; k++) {
            Req q;
            q.phase = *p++; q.input = *p++; q.mul = *p++; q.div = *p++; q.off = *p++;
            d.reqs.push_back(q);
            if (q.phase + 1 > d.phases)
                d.phases = q.phase + 1;
        }
        int ng = *p++;
        for (int k = 0; k < ng; k++) {
            Nested q;
            q.node = *p++; q.mul = *p++; q.off = *p++; q.at = *p++;
            d.nested.push_back(q);
        }
    }
    std::vector<std::vector<Op>> clients(nc);
    std::set<int> used;
    for (int c = 0; c < nc; c++) {
        int no = *p++;
        for (int k = 0; k < no; k++) {
            Op o;
            o.op = *p++; o.a = *p++; o.b = *p++; o.c = *p++; o.d = *p++;
            clients[c].push_back(o);
            if (o.op <= 1 || (o.op >= 3 && o.op <= 5) || o.op == 10)
                used.insert(o.a);
            if (o.op == 1)
                used.insert(o.d >> 4);
        }
    }
    for (auto &d : r.nodes)
        for (int n = 0; n < d->frames; n++)
            r.expect(d->idx, n);
    for (auto &dp : r.nodes) {
        N &d = *dp;
        std::vector<VSFilterDependency> deps;
        for (size_t k = 0; k < d.inputs.size(); k++) {
            VSNode *x = vsapi->addNodeRef(r.nodes[d.inputs[k]]->node);
            d.deps.push_back(x);
            deps.push_back({x, d.patterns[k]});
        }
        for (auto &q : d.nested)
            d.nestedDeps.push_back(vsapi->addNodeRef(r.nodes[q.node]->node));
        std::string nm = "vfe" + std::to_string(d.idx);
        if (d.media == 0) {
            vsapi->queryVideoFormat(&d.vi.format, cfYUV, stInteger, 8, d.idx % 2 ? 0 : 0, 0, core);
            d.vi.width = d.w; d.vi.height = d.h; d.vi.numFrames = d.frames; d.vi.fpsNum = 25; d.vi.fpsDen = 1;
            d.node = vsapi->createVideoFilter2(nm.c_str(), &d.vi, getFrame, freeFilter, d.mode, deps.data(), static_cast<int>(deps.size()), &d, core);
        } else {
            vsapi->queryAudioFormat(&d.ai.format, stInteger, 16, 3, core);
            d.ai.sampleRate = 48000; d.ai.numSamples = static_cast<int64_t>(d.frames) * SAMPLES;
            d.node = vsapi->createAudioFilter2(nm.c_str(), &d.ai, getFrame, freeFilter, d.mode, deps.data(), static_cast<int>(deps.size()), &d, core);
        }
        if (!d.node) {
            int k = snprintf(report, cap, "HARNESS could not create node %d\n", d.idx);
            return k;
        }
        if (d.kind == 2)
            d.upper = vsapi->setLinearFilter(d.node);
    }
    for (auto &d : r.nodes) {
        if (d->cacheMode != -2)
            vsapi->setCacheMode(d->node, d->cacheMode);
        if (d->fixed != -2)
            vsapi->setCacheOptions(d->node, d->fixed, d->maxSize, d->maxHist);
    }
    // nodes the clients never name can go right away, the filters on top of them keep them
    std::vector<bool> held(nn, true);
    for (int i = 0; i < nn; i++)
        if (r.nodes[i]->dropEarly && !used.count(i)) {
            vsapi->freeNode(r.nodes[i]->node);
            held[i] = false;
        }
    std::vector<std::thread> ths;
    for (int c = 0; c < nc; c++)
        ths.emplace_back([&r, &clients, c] { client(r, clients[c]); });
    // wait for the clients and all requests, giving up when nothing moves any more
    bool hung = false;
    auto settle = [&](auto done) {
        long seen = -1;
        auto since = std::chrono::steady_clock::now();
        while (!done()) {
            std::this_thread::sleep_for(std::chrono::microseconds(200));
            long now = r.progress;
            if (now != seen) {
                seen = now;
                since = std::chrono::steady_clock::now();
            } else if (std::chrono::steady_clock::now() - since > std::chrono::seconds(quiet)) {
                hung = true;
                return;
            }
        }
    };
    settle([&] { return r.clientsDone == nc; });
    auto writeOut = [&]() {
        std::string t;
        for (auto &b : r.bad)
            t += b + "\n";
        t += "STAT activations " + std::to_string(r.activations) + " deliveries " + std::to_string(r.deliveries) + " errors " + std::to_string(r.errors) + " overlaps " + std::to_string(r.overlaps) + " nested " + std::to_string(r.nestedGets) + "\n";
        int k = static_cast<int>(t.size()) < cap - 1 ? static_cast<int>(t.size()) : cap - 1;
        memcpy(report, t.data(), k);
        report[k] = 0;
        return k;
    };
    auto giveUp = [&](const char *what) {
        for (auto &t : ths)
            if (t.joinable())
                t.detach();
        new std::vector<std::vector<Op>>(std::move(clients));   // still in use
        std::lock_guard<std::mutex> l(r.lock);
        r.bad.push_back(std::string("C03 C04 C06 ") + "no progress for " + std::to_string(quiet) + " s: " + what);
        return writeOut();
    };
    if (hung)
        return giveUp("a client is still waiting for a frame");
    for (auto &t : ths)
        t.join();
    auto dropNodes = [&]() {
        for (int k = 0; k < nn; k++) {
            int i = freeOrder == 0 ? k : freeOrder == 1 ? nn - 1 - k : static_cast<int>((k * 7 + freeOrder) % nn);
            if (freeOrder >= 2 && nn % 7 == 0)
                i = k;
            if (held[i])
                vsapi->freeNode(r.nodes[i]->node);
            held[i] = false;
        }
    };
    if (earlyFree)
        dropNodes();    // requests may still be running, they hold their own references
    settle([&] { std::lock_guard<std::mutex> l(r.pendLock); return r.outstanding == 0; });
    if (hung)
        return giveUp("an asynchronous request never completed");
    for (auto &q : r.pend)
        if (q->done != 1)
            r.fail("C03 request of " + r.name(q->node, q->n) + " completed " + std::to_string(q->done) + " times");
    // frames delivered earlier still hold what they held
    for (auto &k : r.kept) {
        std::string c = r.compare(*r.nodes[k.node], k.f, r.at(k.node, k.n).v);
        if (!c.empty())
            r.fail("C04 " + r.name(k.node, k.n) + " changed after it was delivered: " + c);
    }
    auto freeKept = [&]() {
        for (auto &k : r.kept)
            vsapi->freeFrame(k.f);
        r.kept.clear();
    };
    if (!(zombie & 2))
        freeKept();
    if (!(zombie & 1))
        dropNodes();
    auto allFreed = [&]() {
        for (auto &d : r.nodes)
            if (d->freed != 1)
                r.fail("C05 node " + std::to_string(d->idx) + ": free callback called " + std::to_string(d->freed) + " times after everything was released");
    };
    if (!(zombie & 1))
        allFreed();
    if (r.fds)
        r.fail("C06 " + std::to_string(r.fds) + " frames were started but never finished");
    int alive = 0;
    for (auto &d : r.nodes)
        alive += !d->freed;
    bool framesHeld = !r.kept.empty();
    r.progress++;
    std::atomic<bool> coreDone{false};
    std::thread fr([&] { vsapi->freeCore(core); coreDone = true; });
    settle([&] { return coreDone.load(); });
    if (hung) {
        fr.detach();
        return giveUp("freeCore never returned");
    }
    fr.join();
    bool sawNodes = false, sawBytes = false;
    for (auto &m : r.messages) {
        int k;
        const char *q = strstr(m.c_str(), "Core freed but ");
        if (q && strstr(q, "filter instance")) {
            sawNodes = true;
            if (sscanf(q, "Core freed but %d", &k) != 1 || k != alive)
                r.fail("C05 at core free: " + m + " while " + std::to_string(alive) + " are alive");
        } else if (q && strstr(q, "bytes")) {
            sawBytes = true;
            if (!framesHeld && !(zombie & 1))
                r.fail("C05 at core free: " + m + " although no frame is held");
        }
    }
    if (alive && !sawNodes)
        r.fail("C05 core freed with living filters without a message");
    if (framesHeld && !sawBytes)
        r.fail("C05 core freed with living frames without a message");
    if (zombie & 2) {
        for (auto &k : r.kept) {
            std::string c = r.compare(*r.nodes[k.node], k.f, r.at(k.node, k.n).v);
            if (!c.empty())
                r.fail("C04 " + r.name(k.node, k.n) + " changed when the core was freed: " + c);
        }
        freeKept();
    }
    if (zombie & 1) {
        dropNodes();
        allFreed();
    }
    int k = writeOut();
    delete rp;
    return k;
}
