// Takes the place of src/core/vsresize.cpp, which needs a zimg newer than the one in apt.
// Its only function, Bilinear, is a stand-in: it interpolates the input linearly at the exact
// position every output sample has under centred resizing plus src_left/src_top. PreMultiply and
// MaskedMerge invoke it to bring masks to chroma resolution.
#include "VapourSynth4.h"
#include "VSConstants4.h"
#include <algorithm>
#include <cmath>
#include <cstdint>

namespace {
struct Bilinear {
    VSNode *node;
    VSVideoInfo vi;
    const VSVideoInfo *in;
    double left, top;
};

template<class T> double rd(const uint8_t *p, ptrdiff_t stride, int y, int x) { return static_cast<double>(reinterpret_cast<const T *>(p + stride * y)[x]); }
template<class T> T wr(double v) { return static_cast<T>(v); }
template<> uint8_t wr(double v) { return static_cast<uint8_t>(std::floor(v + 0.5)); }
template<> uint16_t wr(double v) { return static_cast<uint16_t>(std::floor(v + 0.5)); }

template<class T> void plane(const Bilinear *d, const VSFrame *src, VSFrame *dst, const VSAPI *vsapi) {
    int w = d->vi.width, h = d->vi.height, sw = d->in->width, sh = d->in->height;
    const uint8_t *s = vsapi->getReadPtr(src, 0);
    uint8_t *o = vsapi->getWritePtr(dst, 0);
    ptrdiff_t ss = vsapi->getStride(src, 0), os = vsapi->getStride(dst, 0);
    for (int y = 0; y < h; y++)
        for (int x = 0; x < w; x++) {
            double fy = std::clamp((y + 0.5) * sh / h - 0.5 + d->top, 0.0, sh - 1.0), fx = std::clamp((x + 0.5) * sw / w - 0.5 + d->left, 0.0, sw - 1.0);
            int y0 = static_cast<int>(fy), x0 = static_cast<int>(fx), y1 = std::min(y0 + 1, sh - 1), x1 = std::min(x0 + 1, sw - 1);
            double ay = fy - y0, ax = fx - x0;
            double v = (1 - ay) * ((1 - ax) * rd<T>(s, ss, y0, x0) + ax * rd<T>(s, ss, y0, x1)) + ay * ((1 - ax) * rd<T>(s, ss, y1, x0) + ax * rd<T>(s, ss, y1, x1));
            reinterpret_cast<T *>(o + os * y)[x] = wr<T>(v);
        }
}

const VSFrame *VS_CC getFrame(int n, int reason, void *inst, void **, VSFrameContext *ctx, VSCore *core, const VSAPI *vsapi) {
    Bilinear *d = static_cast<Bilinear *>(inst);
    if (reason == arInitial) {
        vsapi->requestFrameFilter(n, d->node, ctx);
    } else if (reason == arAllFramesReady) {
        const VSFrame *src = vsapi->getFrameFilter(n, d->node, ctx);
        VSFrame *dst = vsapi->newVideoFrame(&d->vi.format, d->vi.width, d->vi.height, src, core);
        if (d->vi.format.bytesPerSample == 1)
            plane<uint8_t>(d, src, dst, vsapi);
        else if (d->vi.format.bytesPerSample == 4)
            plane<float>(d, src, dst, vsapi);
        else if (d->vi.format.sampleType == stFloat)
            plane<_Float16>(d, src, dst, vsapi);
        else
            plane<uint16_t>(d, src, dst, vsapi);
        vsapi->freeFrame(src);
        return dst;
    }
    return nullptr;
}

void VS_CC freeFn(void *inst, VSCore *, const VSAPI *vsapi) {
    Bilinear *d = static_cast<Bilinear *>(inst);
    vsapi->freeNode(d->node);
    delete d;
}

void VS_CC create(const VSMap *in, VSMap *out, void *, VSCore *core, const VSAPI *vsapi) {
    int e;
    Bilinear *d = new Bilinear;
    d->node = vsapi->mapGetNode(in, "clip", 0, nullptr);
    d->in = vsapi->getVideoInfo(d->node);
    d->vi = *d->in;
    d->vi.width = vsapi->mapGetIntSaturated(in, "width", 0, &e);
    d->vi.height = vsapi->mapGetIntSaturated(in, "height", 0, &e);
    d->left = vsapi->mapGetFloat(in, "src_left", 0, &e);
    d->top = vsapi->mapGetFloat(in, "src_top", 0, &e);
    if (d->vi.format.colorFamily != cfGray || d->vi.width < 1 || d->vi.height < 1) {
        vsapi->mapSetError(out, "Bilinear stand-in: only gray clips");
        vsapi->freeNode(d->node);
        delete d;
        return;
    }
    VSFilterDependency deps[] = {{d->node, rpStrictSpatial}};
    vsapi->createVideoFilter(out, "Bilinear", &d->vi, getFrame, freeFn, fmParallel, deps, 1, d, core);
}
}

void resizeInitialize(VSPlugin *plugin, const VSPLUGINAPI *vspapi) {
    vspapi->configPlugin("com.vapoursynth.resize", "resize", "stand-in", 1, VAPOURSYNTH_API_VERSION, 0, plugin);
    vspapi->registerFunction("Bilinear", "clip:vnode;width:int:opt;height:int:opt;src_left:float:opt;src_top:float:opt;", "clip:vnode;", create, nullptr, plugin);
}
