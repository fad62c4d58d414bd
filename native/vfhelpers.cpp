// The inline functions of VSHelper4.h, exported for the Python checks.
#include "VapourSynth4.h"
#include "VSHelper4.h"
#include "VSConstants4.h"
#define X extern "C" __attribute__((visibility("default")))
X int h_isConstantVideoFormat(const VSVideoInfo *vi) { return vsh::isConstantVideoFormat(vi); }
X int h_isSameVideoFormat(const VSVideoFormat *a, const VSVideoFormat *b) { return vsh::isSameVideoFormat(a, b); }
X int h_isSameVideoPresetFormat(unsigned p, const VSVideoFormat *a, VSCore *core, const VSAPI *vsapi) { return vsh::isSameVideoPresetFormat(p, a, core, vsapi); }
X int h_isSameVideoInfo(const VSVideoInfo *a, const VSVideoInfo *b) { return vsh::isSameVideoInfo(a, b); }
X int h_isSameAudioFormat(const VSAudioFormat *a, const VSAudioFormat *b) { return vsh::isSameAudioFormat(a, b); }
X int h_isSameAudioInfo(const VSAudioInfo *a, const VSAudioInfo *b) { return vsh::isSameAudioInfo(a, b); }
X void h_muldivRational(int64_t *n, int64_t *d, int64_t m, int64_t v) { vsh::muldivRational(n, d, m, v); }
X void h_reduceRational(int64_t *n, int64_t *d) { vsh::reduceRational(n, d); }
X void h_addRational(int64_t *n, int64_t *d, int64_t an, int64_t ad) { vsh::addRational(n, d, an, ad); }
X int h_int64ToIntS(int64_t i) { return vsh::int64ToIntS(i); }
X void h_bitblt(void *d, ptrdiff_t ds, const void *s, ptrdiff_t ss, size_t row, size_t h) { vsh::bitblt(d, ds, s, ss, row, h); }
