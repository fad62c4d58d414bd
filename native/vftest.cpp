// Test source filters used by the checks: deliver exactly the samples they are given.
#include "VapourSynth4.h"
#include "VSHelper4.h"
#include <cstring>
#include <memory>
#include <string>
#include <vector>

namespace {
struct Src {
    VSVideoInfo vi = {};
    VSAudioInfo ai = {};
    std::vector<const VSFrame *> frames;
    const VSAPI *vsapi;
    ~Src() { for (auto f : frames) vsapi->freeFrame(f); }
};

const VSFrame *VS_CC getFrame(int n, int activationReason, void *inst, void **, VSFrameContext *, VSCore *, const VSAPI *vsapi) {
    Src *d = static_cast<Src *>(inst);
    if (activationReason == arInitial)
        return vsapi->addFrameRef(d->frames[n]);
    return nullptr;
}
void VS_CC freeSrc(void *inst, VSCore *, const VSAPI *) { delete static_cast<Src *>(inst); }

void setProps(const VSMap *in, VSMap *props, int n, const VSAPI *vsapi) {
    int nk = vsapi->mapNumKeys(in);
    for (int i = 0; i < nk; i++) {
        std::string k = vsapi->mapGetKey(in, i);
        if (k.compare(0, 2, "p_"))
            continue;
        std::string name = k.substr(2);
        int num = vsapi->mapNumElements(in, k.c_str());
        if (n >= num)
            continue;
        int e;
        switch (vsapi->mapGetType(in, k.c_str())) {
        case ptInt: {
            int64_t v = vsapi->mapGetInt(in, k.c_str(), n, &e);
            if (v != INT64_MIN) vsapi->mapSetInt(props, name.c_str(), v, maReplace); // INT64_MIN: leave the property out
            break;
        }
        case ptFloat: vsapi->mapSetFloat(props, name.c_str(), vsapi->mapGetFloat(in, k.c_str(), n, &e), maReplace); break;
        case ptData: vsapi->mapSetData(props, name.c_str(), vsapi->mapGetData(in, k.c_str(), n, &e), vsapi->mapGetDataSize(in, k.c_str(), n, &e), vsapi->mapGetDataTypeHint(in, k.c_str(), n, &e), maReplace); break;
        }
    }
}

void VS_CC createVideo(const VSMap *in, VSMap *out, void *, VSCore *core, const VSAPI *vsapi) {
    std::unique_ptr<Src> d(new Src());
    d->vsapi = vsapi;
    int e;
    d->vi.width = vsapi->mapGetIntSaturated(in, "width", 0, &e);
    d->vi.height = vsapi->mapGetIntSaturated(in, "height", 0, &e);
    d->vi.numFrames = vsapi->mapGetIntSaturated(in, "length", 0, &e);
    d->vi.fpsNum = vsapi->mapGetInt(in, "fpsnum", 0, &e);
    d->vi.fpsDen = vsapi->mapGetInt(in, "fpsden", 0, &e);
    if (!vsapi->getVideoFormatByID(&d->vi.format, vsapi->mapGetIntSaturated(in, "format", 0, &e), core)) {
        vsapi->mapSetError(out, "vft: bad format");
        return;
    }
    const uint8_t *p = reinterpret_cast<const uint8_t *>(vsapi->mapGetData(in, "data", 0, &e));
    size_t size = vsapi->mapGetDataSize(in, "data", 0, &e), pos = 0;
    uint32_t rng = 12345;
    for (int n = 0; n < d->vi.numFrames; n++) {
        VSFrame *f = vsapi->newVideoFrame(&d->vi.format, d->vi.width, d->vi.height, nullptr, core);
        for (int pl = 0; pl < d->vi.format.numPlanes; pl++) {
            uint8_t *dst = vsapi->getWritePtr(f, pl);
            ptrdiff_t st = vsapi->getStride(f, pl);
            int h = vsapi->getFrameHeight(f, pl);
            size_t row = static_cast<size_t>(vsapi->getFrameWidth(f, pl)) * d->vi.format.bytesPerSample;
            for (int y = 0; y < h; y++) {
                if (pos + row > size) {
                    vsapi->freeFrame(f);
                    vsapi->mapSetError(out, "vft: not enough data");
                    return;
                }
                memcpy(dst + st * y, p + pos, row);
                pos += row;
                for (ptrdiff_t x = row; x < st; x++) {   // padding holds noise: no filter may depend on it
                    rng = rng * 1664525u + 1013904223u;
                    dst[st * y + x] = static_cast<uint8_t>(rng >> 24);
                }
            }
        }
        setProps(in, vsapi->getFramePropertiesRW(f), n, vsapi);
        d->frames.push_back(f);
    }
    vsapi->createVideoFilter(out, "Source", &d->vi, getFrame, freeSrc, fmParallel, nullptr, 0, d.get(), core);
    d.release();
}

void VS_CC createAudio(const VSMap *in, VSMap *out, void *, VSCore *core, const VSAPI *vsapi) {
    std::unique_ptr<Src> d(new Src());
    d->vsapi = vsapi;
    int e;
    if (!vsapi->queryAudioFormat(&d->ai.format, vsapi->mapGetIntSaturated(in, "sampletype", 0, &e), vsapi->mapGetIntSaturated(in, "bits", 0, &e), vsapi->mapGetInt(in, "layout", 0, &e), core)) {
        vsapi->mapSetError(out, "vft: bad format");
        return;
    }
    d->ai.sampleRate = vsapi->mapGetIntSaturated(in, "rate", 0, &e);
    d->ai.numSamples = vsapi->mapGetInt(in, "length", 0, &e);
    d->ai.numFrames = static_cast<int>((d->ai.numSamples + VS_AUDIO_FRAME_SAMPLES - 1) / VS_AUDIO_FRAME_SAMPLES);
    const uint8_t *p = reinterpret_cast<const uint8_t *>(vsapi->mapGetData(in, "data", 0, &e)); // channel after channel
    int64_t bps = d->ai.format.bytesPerSample;
    if (vsapi->mapGetDataSize(in, "data", 0, &e) < d->ai.numSamples * bps * d->ai.format.numChannels) {
        vsapi->mapSetError(out, "vft: not enough data");
        return;
    }
    for (int n = 0; n < d->ai.numFrames; n++) {
        int64_t start = static_cast<int64_t>(n) * VS_AUDIO_FRAME_SAMPLES;
        int len = static_cast<int>(std::min<int64_t>(VS_AUDIO_FRAME_SAMPLES, d->ai.numSamples - start));
        VSFrame *f = vsapi->newAudioFrame(&d->ai.format, len, nullptr, core);
        for (int c = 0; c < d->ai.format.numChannels; c++)
            memcpy(vsapi->getWritePtr(f, c), p + (c * d->ai.numSamples + start) * bps, len * bps);
        setProps(in, vsapi->getFramePropertiesRW(f), n, vsapi);
        d->frames.push_back(f);
    }
    vsapi->createAudioFilter(out, "ASource", &d->ai, getFrame, freeSrc, fmParallel, nullptr, 0, d.get(), core);
    d.release();
}

// A source that fails on chosen frames: frames >= the listed ones are passed through otherwise.
struct FailD { VSNode *node; std::vector<int> fail; const VSAPI *vsapi; std::string msg; };
const VSFrame *VS_CC failGet(int n, int ar, void *inst, void **, VSFrameContext *ctx, VSCore *, const VSAPI *vsapi) {
    FailD *d = static_cast<FailD *>(inst);
    if (ar == arInitial) {
        vsapi->requestFrameFilter(n, d->node, ctx);
    } else if (ar == arAllFramesReady) {
        for (int f : d->fail)
            if (f == n) {
                vsapi->setFilterError((d->msg + "vft-fail " + std::to_string(n)).c_str(), ctx);
                return nullptr;
            }
        return vsapi->getFrameFilter(n, d->node, ctx);
    }
    return nullptr;
}
void VS_CC failFree(void *inst, VSCore *, const VSAPI *vsapi) { FailD *d = static_cast<FailD *>(inst); vsapi->freeNode(d->node); delete d; }
void VS_CC createFail(const VSMap *in, VSMap *out, void *, VSCore *core, const VSAPI *vsapi) {
    FailD *d = new FailD();
    d->vsapi = vsapi;
    d->node = vsapi->mapGetNode(in, "clip", 0, nullptr);
    for (int i = 0; i < vsapi->mapNumElements(in, "frames"); i++)
        d->fail.push_back(vsapi->mapGetIntSaturated(in, "frames", i, nullptr));
    int err;
    if (const char *m = vsapi->mapGetData(in, "msg", 0, &err); !err)
        d->msg = m;
    VSFilterDependency deps[] = {{d->node, rpStrictSpatial}};
    if (vsapi->getNodeType(d->node) == mtVideo)
        vsapi->createVideoFilter(out, "Fail", vsapi->getVideoInfo(d->node), failGet, failFree, fmParallel, deps, 1, d, core);
    else
        vsapi->createAudioFilter(out, "Fail", vsapi->getAudioInfo(d->node), failGet, failFree, fmParallel, deps, 1, d, core);
}
}

static void VS_CC corePtr(const VSMap *, VSMap *out, void *, VSCore *core, const VSAPI *vsapi) {
    vsapi->mapSetInt(out, "val", static_cast<int64_t>(reinterpret_cast<intptr_t>(core)), maReplace);
}

// Typed sets a property of any type on every frame, Kinds describes every property in the data property "kinds".
struct TypedD { VSNode *node; std::string key; int type, count; int64_t salt; std::vector<VSNode *> anodes; };

static const VSFrame *VS_CC noFrame(int, int, void *, void **, VSFrameContext *, VSCore *, const VSAPI *) { return nullptr; }
static void VS_CC noFree(void *, VSCore *, const VSAPI *) {}
static void VS_CC typedFunc(const VSMap *, VSMap *out, void *userData, VSCore *, const VSAPI *vsapi) { vsapi->mapSetInt(out, "v", reinterpret_cast<intptr_t>(userData), maReplace); }

static const VSFrame *VS_CC typedGet(int n, int ar, void *inst, void **, VSFrameContext *ctx, VSCore *core, const VSAPI *vsapi) {
    TypedD *d = static_cast<TypedD *>(inst);
    if (ar == arInitial) {
        vsapi->requestFrameFilter(n, d->node, ctx);
    } else if (ar == arAllFramesReady) {
        const VSFrame *src = vsapi->getFrameFilter(n, d->node, ctx);
        VSFrame *f = vsapi->copyFrame(src, core);
        vsapi->freeFrame(src);
        VSMap *m = vsapi->getFramePropertiesRW(f);
        const char *k = d->key.c_str();
        vsapi->mapDeleteKey(m, k);
        if (!d->count)
            vsapi->mapSetEmpty(m, k, d->type);
        for (int i = 0; i < d->count; i++) {
            int64_t v = d->salt * 1000 + n * 10 + i;
            int w = static_cast<int>((d->salt + n + i) % 50) + 1;
            if (d->type == ptInt) {
                vsapi->mapSetInt(m, k, v, maAppend);
            } else if (d->type == ptFloat) {
                vsapi->mapSetFloat(m, k, static_cast<double>(v) + 0.5, maAppend);
            } else if (d->type == ptData) {
                std::string t = std::to_string(v);
                vsapi->mapSetData(m, k, t.c_str(), static_cast<int>(t.size()), static_cast<int>((d->salt + i) % 3) - 1, maAppend);
            } else if (d->type == ptVideoNode) {
                vsapi->mapSetNode(m, k, d->node, maAppend);
            } else if (d->type == ptAudioNode) {
                vsapi->mapSetNode(m, k, d->anodes[i], maAppend);
            } else if (d->type == ptVideoFrame) {
                VSVideoFormat g;
                vsapi->getVideoFormatByID(&g, pfGray8, core);
                vsapi->mapConsumeFrame(m, k, vsapi->newVideoFrame(&g, w, 1, nullptr, core), maAppend);
            } else if (d->type == ptAudioFrame) {
                VSAudioFormat g;
                vsapi->queryAudioFormat(&g, stInteger, 16, 3, core);
                vsapi->mapConsumeFrame(m, k, vsapi->newAudioFrame(&g, w, nullptr, core), maAppend);
            } else if (d->type == ptFunction) {
                vsapi->mapConsumeFunction(m, k, vsapi->createFunction(typedFunc, reinterpret_cast<void *>(static_cast<intptr_t>(v)), nullptr, core), maAppend);
            }
        }
        return f;
    }
    return nullptr;
}

static void VS_CC typedFree(void *inst, VSCore *, const VSAPI *vsapi) {
    TypedD *d = static_cast<TypedD *>(inst);
    vsapi->freeNode(d->node);
    for (auto a : d->anodes)
        vsapi->freeNode(a);
    delete d;
}

static void VS_CC createTyped(const VSMap *in, VSMap *out, void *, VSCore *core, const VSAPI *vsapi) {
    TypedD *d = new TypedD();
    d->node = vsapi->mapGetNode(in, "clip", 0, nullptr);
    d->key = vsapi->mapGetData(in, "key", 0, nullptr);
    d->type = vsapi->mapGetIntSaturated(in, "type", 0, nullptr);
    d->count = vsapi->mapGetIntSaturated(in, "count", 0, nullptr);
    d->salt = vsapi->mapGetInt(in, "salt", 0, nullptr);
    if (d->type == ptAudioNode)
        for (int i = 0; i < d->count; i++) {
            VSAudioInfo ai = {};
            vsapi->queryAudioFormat(&ai.format, stInteger, 16, 3, core);
            ai.sampleRate = 48000;
            ai.numSamples = d->salt * 10 + i + 1;
            d->anodes.push_back(vsapi->createAudioFilter2("TypedA", &ai, noFrame, noFree, fmParallel, nullptr, 0, nullptr, core));
        }
    VSFilterDependency deps[] = {{d->node, rpStrictSpatial}};
    vsapi->createVideoFilter(out, "Typed", vsapi->getVideoInfo(d->node), typedGet, typedFree, fmParallel, deps, 1, d, core);
}

static const VSFrame *VS_CC kindsGet(int n, int ar, void *inst, void **, VSFrameContext *ctx, VSCore *core, const VSAPI *vsapi) {
    TypedD *d = static_cast<TypedD *>(inst);
    if (ar == arInitial) {
        vsapi->requestFrameFilter(n, d->node, ctx);
    } else if (ar == arAllFramesReady) {
        const VSFrame *src = vsapi->getFrameFilter(n, d->node, ctx);
        VSFrame *f = vsapi->copyFrame(src, core);
        vsapi->freeFrame(src);
        VSMap *m = vsapi->getFramePropertiesRW(f);
        std::string s;
        for (int j = 0; j < vsapi->mapNumKeys(m); j++) {
            const char *k = vsapi->mapGetKey(m, j);
            int t = vsapi->mapGetType(m, k);
            s += std::string(k) + " " + std::to_string(t);
            for (int i = 0; i < vsapi->mapNumElements(m, k); i++) {
                s += " ";
                if (t == ptInt) {
                    s += std::to_string(vsapi->mapGetInt(m, k, i, nullptr));
                } else if (t == ptFloat) {
                    s += std::to_string(vsapi->mapGetFloat(m, k, i, nullptr));
                } else if (t == ptData) {
                    s += std::to_string(vsapi->mapGetDataTypeHint(m, k, i, nullptr)) + "/" + std::string(vsapi->mapGetData(m, k, i, nullptr), vsapi->mapGetDataSize(m, k, i, nullptr));
                } else if (t == ptVideoNode) {
                    VSNode *x = vsapi->mapGetNode(m, k, i, nullptr);
                    s += std::to_string(vsapi->getVideoInfo(x)->numFrames);
                    vsapi->freeNode(x);
                } else if (t == ptAudioNode) {
                    VSNode *x = vsapi->mapGetNode(m, k, i, nullptr);
                    s += std::to_string(vsapi->getAudioInfo(x)->numSamples);
                    vsapi->freeNode(x);
                } else if (t == ptVideoFrame) {
                    const VSFrame *x = vsapi->mapGetFrame(m, k, i, nullptr);
                    s += std::to_string(vsapi->getFrameWidth(x, 0));
                    vsapi->freeFrame(x);
                } else if (t == ptAudioFrame) {
                    const VSFrame *x = vsapi->mapGetFrame(m, k, i, nullptr);
                    s += std::to_string(vsapi->getFrameLength(x));
                    vsapi->freeFrame(x);
                } else if (t == ptFunction) {
                    VSFunction *x = vsapi->mapGetFunction(m, k, i, nullptr);
                    VSMap *a = vsapi->createMap(), *r = vsapi->createMap();
                    vsapi->callFunction(x, a, r);
                    s += std::to_string(vsapi->mapGetInt(r, "v", 0, nullptr));
                    vsapi->freeMap(a);
                    vsapi->freeMap(r);
                    vsapi->freeFunction(x);
                }
            }
            s += "\n";
        }
        vsapi->clearMap(m);
        vsapi->mapSetData(m, "kinds", s.c_str(), static_cast<int>(s.size()), dtBinary, maReplace);
        return f;
    }
    return nullptr;
}

static void VS_CC createKinds(const VSMap *in, VSMap *out, void *, VSCore *core, const VSAPI *vsapi) {
    TypedD *d = new TypedD();
    d->node = vsapi->mapGetNode(in, "clip", 0, nullptr);
    VSFilterDependency deps[] = {{d->node, rpStrictSpatial}};
    vsapi->createVideoFilter(out, "Kinds", vsapi->getVideoInfo(d->node), kindsGet, typedFree, fmParallel, deps, 1, d, core);
}

VS_EXTERNAL_API(void) VapourSynthPluginInit2(VSPlugin *plugin, const VSPLUGINAPI *vspapi) {
    vspapi->configPlugin("com.vf.test", "vft", "sources for the checks", 1, VAPOURSYNTH_API_VERSION, 0, plugin);
    vspapi->registerFunction("Source", "format:int;width:int;height:int;length:int;data:data;fpsnum:int:opt;fpsden:int:opt;any", "clip:vnode;", createVideo, nullptr, plugin);
    vspapi->registerFunction("ASource", "sampletype:int;bits:int;layout:int;rate:int;length:int;data:data;any", "clip:anode;", createAudio, nullptr, plugin);
    vspapi->registerFunction("Fail", "clip:vnode;frames:int[];msg:data:opt;", "clip:vnode;", createFail, nullptr, plugin);
    vspapi->registerFunction("AFail", "clip:anode;frames:int[];msg:data:opt;", "clip:anode;", createFail, nullptr, plugin);
    vspapi->registerFunction("Typed", "clip:vnode;key:data;type:int;count:int;salt:int;", "clip:vnode;", createTyped, nullptr, plugin);
    vspapi->registerFunction("Kinds", "clip:vnode;", "clip:vnode;", createKinds, nullptr, plugin);
    vspapi->registerFunction("CorePtr", "", "val:int;", corePtr, nullptr, plugin);
}
