// A plugin written against API 3 (VapourSynth.h): sources, filters of every mode, linear sources, argument and
// property description. Filters check how they are called and report a violation as a filter error "V3: ...".
#include <algorithm>
#include <atomic>
#include <chrono>
#include <cstdio>
#include <cstring>
#include <memory>
#include <mutex>
#include <string>
#include <thread>
#include <vector>
#include "VapourSynth.h"

namespace {

std::string hex(const char *p, int n) {
    static const char *d = "0123456789abcdef";
    std::string s;
    for (int i = 0; i < n; i++) {
        s += d[(static_cast<unsigned char>(p[i]) >> 4)];
        s += d[p[i] & 15];
    }
    return s;
}

std::string flt(double v) {
    char b[64];
    snprintf(b, sizeof(b), "%.17g", v);
    return b;
}

std::string describe(const VSMap *m, const VSAPI *vsapi, bool refs) {
    std::string t;
    for (int k = 0; k < vsapi->propNumKeys(m); k++) {
        const char *key = vsapi->propGetKey(m, k);
        char ty = vsapi->propGetType(m, key);
        int n = vsapi->propNumElements(m, key);
        t += std::string(key) + " " + ty + " " + std::to_string(n);
        for (int i = 0; i < n; i++) {
            int err = 77;
            t += " ";
            if (ty == ptInt)
                t += std::to_string(vsapi->propGetInt(m, key, i, &err));
            else if (ty == ptFloat)
                t += flt(vsapi->propGetFloat(m, key, i, &err));
            else if (ty == ptData) {
                const char *p = vsapi->propGetData(m, key, i, &err);
                int s = vsapi->propGetDataSize(m, key, i, nullptr);
                t += "x" + hex(p, s);
                if (p[s])
                    t += "!unterminated";
            } else if (ty == ptNode) {
                VSNodeRef *r = vsapi->propGetNode(m, key, i, &err);
                t += refs && r ? std::to_string(vsapi->getVideoInfo(r)->numFrames) : "?";
                vsapi->freeNode(r);
            } else if (ty == ptFrame) {
                const VSFrameRef *r = vsapi->propGetFrame(m, key, i, &err);
                t += refs && r ? std::to_string(vsapi->getFrameWidth(r, 0)) : "?";
                vsapi->freeFrame(r);
            } else if (ty == ptFunction) {
                VSFuncRef *r = vsapi->propGetFunc(m, key, i, &err);
                t += r ? "f" : "?";
                vsapi->freeFunc(r);
            } else
                err = 0;
            if (err)
                t += "!" + std::to_string(err);
        }
        // one past the end and another type
        int e1 = 0, e2 = 0;
        if (ty == ptInt) {
            vsapi->propGetInt(m, key, n, &e1);
            vsapi->propGetData(m, key, 0, &e2);
            int e3 = 0;
            const int64_t *a = vsapi->propGetIntArray(m, key, &e3);
            if (n && e3)
                t += "!array" + std::to_string(e3);
            for (int i = 0; i < n; i++)
                if (!a || a[i] != vsapi->propGetInt(m, key, i, nullptr))
                    t += "!array";
        } else if (ty == ptFloat) {
            vsapi->propGetFloat(m, key, n, &e1);
            vsapi->propGetInt(m, key, 0, &e2);
        }
        if ((ty == ptInt || ty == ptFloat) && (e1 != peIndex || (n && e2 != peType)))
            t += "!errors" + std::to_string(e1) + "," + std::to_string(e2);
        t += "\n";
    }
    return t;
}

struct Data {
    std::vector<VSNodeRef *> nodes;
    VSVideoInfo vi = {};
    int kind = 0, mul = 1, add = 0, shift = 0, mode = 0, flags = 0, seed = 0, delay = 0, freed = 0;
    bool linear = false;
    std::vector<int> fail;
    std::string name;
    std::mutex m;
    int inside = 0, owner = -1, last = -1;
    std::atomic<bool> bad{false};
    std::string why;
    void violation(const std::string &s) {
        std::lock_guard<std::mutex> l(m);
        if (!bad)
            why = s;
        bad = true;
    }
};

enum { SOURCE, MAP, SUM, SHIFT, PROPS };

void VS_CC init(VSMap *in, VSMap *out, void **instanceData, VSNode *node, VSCore *core, const VSAPI *vsapi) {
    Data *d = static_cast<Data *>(*instanceData);
    vsapi->setVideoInfo(&d->vi, 1, node);
}

uint32_t pattern(int seed, int n, int p, int x, int y) {
    return static_cast<uint32_t>(seed) * 2654435761u + static_cast<uint32_t>(n * 7 + p * 11 + x * 3 + y * 5) * 40503u;
}

template<typename T, typename F>
void each(VSFrameRef *f, int p, const VSAPI *vsapi, F fn) {
    uint8_t *w = vsapi->getWritePtr(f, p);
    for (int y = 0; y < vsapi->getFrameHeight(f, p); y++)
        for (int x = 0; x < vsapi->getFrameWidth(f, p); x++) {
            T *t = reinterpret_cast<T *>(w + static_cast<ptrdiff_t>(y) * vsapi->getStride(f, p)) + x;
            *t = fn(*t, x, y);
        }
}

template<typename T>
const T &at(const VSFrameRef *f, int p, int x, int y, const VSAPI *vsapi) {
    return *(reinterpret_cast<const T *>(vsapi->getReadPtr(f, p) + static_cast<ptrdiff_t>(y) * vsapi->getStride(f, p)) + x);
}

int clampn(int n, const VSVideoInfo *vi) {
    return std::max(0, std::min(n, vi->numFrames - 1));
}

const VSFrameRef *produce(Data *d, int n, VSFrameContext *ctx, VSCore *core, const VSAPI *vsapi) {
    const VSFormat *fmt = d->vi.format;
    uint32_t maxv = !fmt ? 0 : fmt->sampleType == stInteger ? (fmt->bitsPerSample == 32 ? 0xffffffffu : (1u << fmt->bitsPerSample) - 1) : 255;
    if (d->kind == SOURCE) {
        VSFrameRef *f = vsapi->newVideoFrame(fmt, d->vi.width, d->vi.height, nullptr, core);
        for (int p = 0; p < fmt->numPlanes; p++) {
            auto v = [&](int x, int y) { return pattern(d->seed, n, p, x, y) >> 8 & maxv; };
            if (fmt->sampleType == stFloat)
                each<float>(f, p, vsapi, [&](float, int x, int y) { return static_cast<float>(v(x, y)) / 256.0f; });
            else if (fmt->bytesPerSample == 1)
                each<uint8_t>(f, p, vsapi, [&](uint8_t, int x, int y) { return static_cast<uint8_t>(v(x, y)); });
            else if (fmt->bytesPerSample == 2)
                each<uint16_t>(f, p, vsapi, [&](uint16_t, int x, int y) { return static_cast<uint16_t>(v(x, y)); });
            else
                each<uint32_t>(f, p, vsapi, [&](uint32_t, int x, int y) { return v(x, y); });
        }
        VSMap *m = vsapi->getFramePropsRW(f);
        vsapi->propSetInt(m, "src", d->seed * 1000 + n, paReplace);
        int64_t a[3] = { n, -n, d->seed };
        vsapi->propSetIntArray(m, "arr", a, n % 4);
        vsapi->propSetData(m, "tag", ("n" + std::to_string(n)).c_str(), -1, paAppend);
        vsapi->propSetFloat(m, "half", n / 2.0, paAppend);
        vsapi->propSetFloat(m, "half", 0.5, paAppend);
        vsapi->propSetFloat(m, "half", 9.0, paTouch);
        vsapi->propSetInt(m, "touched", 1, paTouch);
        return f;
    }
    std::vector<const VSFrameRef *> src;
    for (size_t i = 0; i < d->nodes.size(); i++) {
        int k = d->kind == SHIFT ? clampn(n + d->shift, vsapi->getVideoInfo(d->nodes[i])) : clampn(n, vsapi->getVideoInfo(d->nodes[i]));
        src.push_back(vsapi->getFrameFilter(k, d->nodes[i], ctx));
        if (!src.back()) {
            d->violation("a requested frame is not available");
            for (auto s : src)
                vsapi->freeFrame(s);
            vsapi->setFilterError("V3: no frame", ctx);
            return nullptr;
        }
    }
    VSFrameRef *f = nullptr;
    if (d->kind == SHIFT || d->kind == PROPS) {
        f = vsapi->copyFrame(src[0], core);
        VSMap *m = vsapi->getFramePropsRW(f);
        if (d->kind == PROPS) {
            std::string t = describe(vsapi->getFramePropsRO(src[0]), vsapi, true);
            const VSFormat *ff = vsapi->getFrameFormat(src[0]);
            t += std::string("format ") + ff->name + " " + std::to_string(ff->id) + (ff == d->vi.format || !d->vi.format ? "" : " other pointer") + "\n";
            vsapi->propSetData(m, "desc", t.c_str(), static_cast<int>(t.size()), paReplace);
        } else {
            vsapi->propSetInt(m, "shifted", d->shift, paAppend);
            vsapi->propDeleteKey(m, "tag");
        }
    } else {
        if (d->kind == MAP) {
            // the first plane comes from a plane of the source, the rest is new
            const VSFrameRef *ps[3] = { src[0], nullptr, nullptr };
            int pl[3] = { 0, 0, 0 };
            f = d->mul == 1 && d->add == 0 ? vsapi->newVideoFrame2(fmt, d->vi.width, d->vi.height, ps, pl, src[0], core) : vsapi->newVideoFrame(fmt, d->vi.width, d->vi.height, src[0], core);
        } else {
            f = vsapi->newVideoFrame(fmt, d->vi.width, d->vi.height, nullptr, core);
            vsapi->copyFrameProps(src.back(), f, core);
        }
        for (int p = 0; p < fmt->numPlanes; p++) {
            auto go = [&](auto tag) {
                using T = decltype(tag);
                each<T>(f, p, vsapi, [&](T, int x, int y) {
                    if (d->kind == MAP) {
                        if (fmt->sampleType == stFloat)
                            return static_cast<T>(at<T>(src[0], p, x, y, vsapi) * d->mul + d->add);
                        return static_cast<T>((static_cast<uint64_t>(at<T>(src[0], p, x, y, vsapi)) * static_cast<uint64_t>(d->mul) + static_cast<uint64_t>(d->add)) & maxv);
                    }
                    double s = 0;
                    uint64_t u = 0;
                    for (auto g : src) {
                        s += at<T>(g, p, x, y, vsapi);
                        u += static_cast<uint64_t>(at<T>(g, p, x, y, vsapi));
                    }
                    return fmt->sampleType == stFloat ? static_cast<T>(s) : static_cast<T>(u & maxv);
                });
            };
            if (fmt->sampleType == stFloat)
                go(float());
            else if (fmt->bytesPerSample == 1)
                go(uint8_t());
            else if (fmt->bytesPerSample == 2)
                go(uint16_t());
            else
                go(uint32_t());
        }
    }
    for (auto s : src)
        vsapi->freeFrame(s);
    return f;
}

const VSFrameRef *VS_CC getFrame(int n, int ar, void **instanceData, void **frameData, VSFrameContext *ctx, VSCore *core, const VSAPI *vsapi) {
    Data *d = static_cast<Data *>(*instanceData);
    {
        std::lock_guard<std::mutex> l(d->m);
        bool serial = d->mode == fmUnordered || d->mode == fmSerial || (d->mode == fmParallelRequests && ar != arInitial);
        if (serial) {
            if (d->inside++ && !d->bad) {
                d->bad = true;
                d->why = "two calls at once";
            }
        }
        if (d->mode == fmSerial && ar == arInitial) {
            if (d->owner != -1 && !d->bad) {
                d->bad = true;
                d->why = "frame " + std::to_string(n) + " started while " + std::to_string(d->owner) + " is unfinished";
            }
            d->owner = n;
        }
        if (d->linear && ar == arInitial) {
            if (n > d->last + 1 && n <= d->last + 3 && d->last >= 0 && !d->bad) {
                d->bad = true;
                d->why = "linear source skipped from " + std::to_string(d->last) + " to " + std::to_string(n);
            }
            d->last = n;
        }
    }
    struct Leave {
        Data *d;
        int ar;
        bool done = true;
        ~Leave() {
            std::lock_guard<std::mutex> l(d->m);
            if (d->mode == fmUnordered || d->mode == fmSerial || (d->mode == fmParallelRequests && ar != arInitial))
                d->inside--;
            if (d->mode == fmSerial && done)
                d->owner = -1;
        }
    } leave{d, ar};
    if (d->delay)
        std::this_thread::sleep_for(std::chrono::microseconds((n * 37 + ar * 91 + d->seed) % 5 * d->delay));
    if (n < 0 || n >= d->vi.numFrames)
        d->violation("frame " + std::to_string(n) + " requested of " + std::to_string(d->vi.numFrames));
    if (ar != arInitial && ar != arAllFramesReady && ar != arError)
        d->violation("activation reason " + std::to_string(ar));
    if (d->bad) {
        std::lock_guard<std::mutex> l(d->m);
        vsapi->setFilterError(("V3: " + d->why).c_str(), ctx);
        return nullptr;
    }
    if (ar == arError)
        return nullptr;
    if (std::find(d->fail.begin(), d->fail.end(), n) != d->fail.end() && (ar == arInitial) == d->nodes.empty()) {
        vsapi->setFilterError(("made to fail " + std::to_string(n)).c_str(), ctx);
        return nullptr;
    }
    if (d->nodes.empty())
        return ar == arInitial ? produce(d, n, ctx, core, vsapi) : nullptr;
    if (ar == arInitial) {
        if (*frameData)
            d->violation("frame data not empty at first");
        *frameData = new int(n);
        for (auto x : d->nodes) {
            int k = d->kind == SHIFT ? n + d->shift : n;
            if (k < 0)
                k = 0;
            // past the end: the last frame, by asking for it or beyond it
            vsapi->requestFrameFilter(d->seed & 1 ? k : clampn(k, vsapi->getVideoInfo(x)), x, ctx);
        }
        leave.done = false;
        return nullptr;
    }
    int *fd = static_cast<int *>(*frameData);
    if (!fd || *fd != n)
        d->violation("frame data lost");
    delete fd;
    *frameData = nullptr;
    return produce(d, n, ctx, core, vsapi);
}

std::atomic<int> alive{0};

void VS_CC freeData(void *instanceData, VSCore *core, const VSAPI *vsapi) {
    Data *d = static_cast<Data *>(instanceData);
    for (auto x : d->nodes)
        vsapi->freeNode(x);
    alive--;
    delete d;
}

int geti(const VSMap *in, const char *key, int def, const VSAPI *vsapi) {
    int err;
    int64_t v = vsapi->propGetInt(in, key, 0, &err);
    return err ? def : static_cast<int>(v);
}

void finish(std::unique_ptr<Data> &d, const VSMap *in, VSMap *out, VSCore *core, const VSAPI *vsapi) {
    const int modes[] = { fmParallel, fmParallelRequests, fmUnordered, fmSerial };
    d->mode = modes[geti(in, "mode", 0, vsapi) & 3];
    d->flags = geti(in, "flags", 0, vsapi);
    d->delay = geti(in, "delay", 0, vsapi);
    int n = vsapi->propNumElements(in, "fail");
    for (int i = 0; i < n; i++)
        d->fail.push_back(static_cast<int>(vsapi->propGetInt(in, "fail", i, nullptr)));
    d->linear = (d->flags & nfMakeLinear) && d->nodes.empty();
    alive++;
    Data *p = d.release();
    vsapi->createFilter(in, out, "V3Filter", init, getFrame, freeData, p->mode, p->flags, p, core);
}

void VS_CC create(const VSMap *in, VSMap *out, void *userData, VSCore *core, const VSAPI *vsapi) {
    std::unique_ptr<Data> d(new Data);
    d->kind = static_cast<int>(reinterpret_cast<intptr_t>(userData));
    d->seed = geti(in, "seed", 0, vsapi);
    d->mul = geti(in, "mul", 1, vsapi);
    d->add = geti(in, "add", 0, vsapi);
    d->shift = geti(in, "shift", 0, vsapi);
    if (d->kind == SOURCE) {
        d->vi.format = vsapi->registerFormat(geti(in, "family", cmGray, vsapi), geti(in, "st", 0, vsapi), geti(in, "bits", 8, vsapi), geti(in, "ssw", 0, vsapi), geti(in, "ssh", 0, vsapi), core);
        if (!d->vi.format) {
            vsapi->setError(out, "Source: no such format");
            return;
        }
        d->vi.width = geti(in, "width", 16, vsapi);
        d->vi.height = geti(in, "height", 16, vsapi);
        d->vi.numFrames = geti(in, "length", 1, vsapi);
        d->vi.fpsNum = geti(in, "fpsnum", 25, vsapi);
        d->vi.fpsDen = geti(in, "fpsden", 1, vsapi);
    } else {
        int n = vsapi->propNumElements(in, "clip");
        for (int i = 0; i < n; i++)
            d->nodes.push_back(vsapi->propGetNode(in, "clip", i, nullptr));
        d->vi = *vsapi->getVideoInfo(d->nodes[0]);
        for (auto x : d->nodes) {
            const VSVideoInfo *v = vsapi->getVideoInfo(x);
            d->vi.numFrames = std::max(d->vi.numFrames, v->numFrames);
            if (d->kind != PROPS && d->kind != SHIFT && (!v->format || !v->width || v->format != d->vi.format || v->width != d->vi.width || v->height != d->vi.height || (v->format->sampleType == stFloat && v->format->bitsPerSample != 32))) {
                for (auto y : d->nodes)
                    vsapi->freeNode(y);
                vsapi->setError(out, "clips must have the same constant format and size");
                return;
            }
        }
    }
    finish(d, in, out, core, vsapi);
}

void VS_CC info(const VSMap *in, VSMap *out, void *, VSCore *core, const VSAPI *vsapi) {
    VSNodeRef *c = vsapi->propGetNode(in, "clip", 0, nullptr);
    const VSVideoInfo *v = vsapi->getVideoInfo(c);
    if (v->format) {
        const VSFormat *f = v->format;
        int64_t a[] = { f->id, f->colorFamily, f->sampleType, f->bitsPerSample, f->bytesPerSample, f->subSamplingW, f->subSamplingH, f->numPlanes };
        vsapi->propSetIntArray(out, "format", a, 8);
        vsapi->propSetData(out, "name", f->name, -1, paReplace);
        vsapi->propSetInt(out, "same", f == vsapi->getFormatPreset(f->id, core) && f == vsapi->registerFormat(f->colorFamily, f->sampleType, f->bitsPerSample, f->subSamplingW, f->subSamplingH, core), paReplace);
    }
    int64_t b[] = { v->width, v->height, v->numFrames, v->fpsNum, v->fpsDen };
    vsapi->propSetIntArray(out, "vi", b, 5);
    vsapi->freeNode(c);
}

// returns its arguments as text; calls every function passed with the first int
void VS_CC args(const VSMap *in, VSMap *out, void *, VSCore *core, const VSAPI *vsapi) {
    std::string t = describe(in, vsapi, true);
    int n = vsapi->propNumElements(in, "m");
    for (int i = 0; i < n; i++) {
        VSFuncRef *f = vsapi->propGetFunc(in, "m", i, nullptr);
        VSMap *a = vsapi->createMap(), *r = vsapi->createMap();
        vsapi->propSetInt(a, "x", geti(in, "i", -1, vsapi), paReplace);
        vsapi->callFunc(f, a, r, core, vsapi);
        if (vsapi->getError(r))
            t += "called error\n";
        else
            t += "called " + describe(r, vsapi, true);
        vsapi->freeMap(a);
        vsapi->freeMap(r);
        vsapi->freeFunc(f);
    }
    vsapi->propSetData(out, "text", t.c_str(), static_cast<int>(t.size()), paReplace);
}

// returns every argument under the name "o" + key; what: 0 copies by elements, 1 sets an error after that, 2 returns nothing
void VS_CC echo(const VSMap *in, VSMap *out, void *, VSCore *core, const VSAPI *vsapi) {
    for (int k = 0; k < vsapi->propNumKeys(in); k++) {
        std::string key = vsapi->propGetKey(in, k);
        std::string o = "o" + key;
        int n = vsapi->propNumElements(in, key.c_str());
        char ty = vsapi->propGetType(in, key.c_str());
        if (ty == ptData && !n)
            vsapi->propSetData(out, o.c_str(), "", 0, paTouch);
        if (ty == ptInt && !n)
            vsapi->propSetInt(out, o.c_str(), 0, paTouch);
        if (ty == ptFloat && !n)
            vsapi->propSetFloat(out, o.c_str(), 0, paTouch);
        for (int i = 0; i < n; i++) {
            if (ty == ptInt)
                vsapi->propSetInt(out, o.c_str(), vsapi->propGetInt(in, key.c_str(), i, nullptr), paAppend);
            else if (ty == ptFloat)
                vsapi->propSetFloat(out, o.c_str(), vsapi->propGetFloat(in, key.c_str(), i, nullptr), paAppend);
            else if (ty == ptData)
                vsapi->propSetData(out, o.c_str(), vsapi->propGetData(in, key.c_str(), i, nullptr), vsapi->propGetDataSize(in, key.c_str(), i, nullptr), paAppend);
            else if (ty == ptNode) {
                VSNodeRef *r = vsapi->propGetNode(in, key.c_str(), i, nullptr);
                VSNodeRef *r2 = vsapi->cloneNodeRef(r);
                vsapi->propSetNode(out, o.c_str(), r2, paAppend);
                vsapi->freeNode(r);
                vsapi->freeNode(r2);
            } else if (ty == ptFrame) {
                const VSFrameRef *r = vsapi->propGetFrame(in, key.c_str(), i, nullptr);
                const VSFrameRef *r2 = vsapi->cloneFrameRef(r);
                vsapi->propSetFrame(out, o.c_str(), r2, paAppend);
                vsapi->freeFrame(r);
                vsapi->freeFrame(r2);
            } else if (ty == ptFunction) {
                VSFuncRef *r = vsapi->propGetFunc(in, key.c_str(), i, nullptr);
                VSFuncRef *r2 = vsapi->cloneFuncRef(r);
                vsapi->propSetFunc(out, o.c_str(), r2, paAppend);
                vsapi->freeFunc(r);
                vsapi->freeFunc(r2);
            }
        }
    }
    int what = geti(in, "what", 0, vsapi);
    if (what == 1)
        vsapi->setError(out, "error on request");
    else if (what == 2)
        vsapi->clearMap(out);
}

// calls std functions (API 4) with the arguments of the map "std.NAME"
void VS_CC viaStd(const VSMap *in, VSMap *out, void *, VSCore *core, const VSAPI *vsapi) {
    VSPlugin *std_ = vsapi->getPluginByNs("std", core);
    if (!std_ || std_ != vsapi->getPluginById("com.vapoursynth.std", core)) {
        vsapi->setError(out, "std not found");
        return;
    }
    VSNodeRef *c = vsapi->propGetNode(in, "clip", 0, nullptr);
    VSMap *a = vsapi->createMap();
    vsapi->propSetNode(a, geti(in, "splice", 0, vsapi) ? "clips" : "clip", c, paReplace);
    if (geti(in, "splice", 0, vsapi))
        vsapi->propSetNode(a, "clips", c, paAppend);
    vsapi->freeNode(c);
    if (vsapi->propNumElements(in, "n") == 1)
        vsapi->propSetInt(a, vsapi->propGetData(in, "arg", 0, nullptr), vsapi->propGetInt(in, "n", 0, nullptr), paReplace);
    VSMap *r = vsapi->invoke(std_, vsapi->propGetData(in, "func", 0, nullptr), a);
    vsapi->freeMap(a);
    if (vsapi->getError(r))
        vsapi->setError(out, vsapi->getError(r));
    else {
        VSNodeRef *x = vsapi->propGetNode(r, "clip", 0, nullptr);
        vsapi->propSetNode(out, "clip", x, paReplace);
        vsapi->freeNode(x);
    }
    vsapi->freeMap(r);
}

void VS_CC mine(const VSMap *in, VSMap *out, void *userData, VSCore *core, const VSAPI *vsapi) {
    int64_t *n = static_cast<int64_t *>(userData);
    vsapi->propSetInt(out, "val", *n * vsapi->propGetInt(in, "x", 0, nullptr), paReplace);
}

void VS_CC freeMine(void *userData) {
    alive--;
    delete static_cast<int64_t *>(userData);
}

void VS_CC func(const VSMap *in, VSMap *out, void *, VSCore *core, const VSAPI *vsapi) {
    alive++;
    VSFuncRef *f = vsapi->createFunc(mine, new int64_t(vsapi->propGetInt(in, "k", 0, nullptr)), freeMine, core, vsapi);
    vsapi->propSetFunc(out, "func", f, paReplace);
    vsapi->freeFunc(f);
}

void VS_CC count(const VSMap *in, VSMap *out, void *, VSCore *core, const VSAPI *vsapi) {
    vsapi->propSetInt(out, "alive", alive.load(), paReplace);
}

#define ID(k) reinterpret_cast<void *>(static_cast<intptr_t>(k))
}

VS_EXTERNAL_API(void) VapourSynthPluginInit(VSConfigPlugin configFunc, VSRegisterFunction registerFunc, VSPlugin *plugin) {
    configFunc("verif.v3", "v3", "API 3 test plugin", VAPOURSYNTH_API_VERSION, 1, plugin);
    const std::string common = "mode:int:opt;flags:int:opt;delay:int:opt;fail:int[]:opt:empty;seed:int:opt;";
    registerFunc("Source", ("family:int;st:int;bits:int;ssw:int;ssh:int;width:int;height:int;length:int;fpsnum:int:opt;fpsden:int:opt;" + common).c_str(), create, ID(SOURCE), plugin);
    registerFunc("Map", ("clip:clip;mul:int:opt;add:int:opt;" + common).c_str(), create, ID(MAP), plugin);
    registerFunc("Sum", ("clip:clip[];" + common).c_str(), create, ID(SUM), plugin);
    registerFunc("Shift", ("clip:clip;shift:int;" + common).c_str(), create, ID(SHIFT), plugin);
    registerFunc("Props", ("clip:clip;" + common).c_str(), create, ID(PROPS), plugin);
    registerFunc("Info", "clip:clip;", info, nullptr, plugin);
    registerFunc("Args", "i:int[]:opt:empty;f:float[]:opt:empty;d:data[]:opt:empty;c:clip[]:opt:empty;v:frame[]:opt:empty;m:func[]:opt:empty;", args, nullptr, plugin);
    registerFunc("Echo", "i:int[]:opt:empty;f:float[]:opt:empty;d:data[]:opt:empty;c:clip[]:opt;v:frame[]:opt;m:func[]:opt;what:int:opt;", echo, nullptr, plugin);
    registerFunc("ViaStd", "clip:clip;func:data;arg:data:opt;n:int:opt;splice:int:opt;", viaStd, nullptr, plugin);
    registerFunc("Func", "k:int;", func, nullptr, plugin);
    registerFunc("Alive", "", count, nullptr, plugin);
}
