From a5758dbf4bfb80fd91b49bbb4e69263c062473f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:10 +0000
Subject: [PATCH 01/57] fix: Crop and CropAbs accepted areas whose extent
 overflows int

The bounds check added the offset and the size in int, so a width or offset
near INT_MAX wrapped around and passed, and CropRel wrapped the same way when
left and right together exceed INT_MAX.
---
 src/core/simplefilters.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/simplefilters.cpp b/src/core/simplefilters.cpp
index 6b82c43..9569a6a 100644
--- a/src/core/simplefilters.cpp
+++ b/src/core/simplefilters.cpp
@@ -119,7 +119,7 @@ static int cropVerify(int x, int y, int width, int height, int srcwidth, int src
         snprintf(msg, len, "Crop: negative/zero cropping dimensions not allowed");
 
     if (srcheight > 0 && srcwidth > 0)
-        if (srcheight < height + y || srcwidth < width + x)
+        if (srcheight < static_cast<int64_t>(height) + y || srcwidth < static_cast<int64_t>(width) + x)
             snprintf(msg, len, "Crop: cropped area extends beyond frame dimensions");
 
     if (fi) {
@@ -228,8 +228,8 @@ static void VS_CC cropRelCreate(const VSMap *in, VSMap *out, void *userData, VSC
     d->x = vsapi->mapGetIntSaturated(in, "left", 0, &err);
     d->y = vsapi->mapGetIntSaturated(in, "top", 0, &err);
 
-    d->height = d->vi->height - d->y - vsapi->mapGetIntSaturated(in, "bottom", 0, &err);
-    d->width = d->vi->width - d->x - vsapi->mapGetIntSaturated(in, "right", 0, &err);
+    d->height = int64ToIntS(static_cast<int64_t>(d->vi->height) - d->y - vsapi->mapGetIntSaturated(in, "bottom", 0, &err));
+    d->width = int64ToIntS(static_cast<int64_t>(d->vi->width) - d->x - vsapi->mapGetIntSaturated(in, "right", 0, &err));
 
     // passthrough for the no cropping case
     if (d->x == 0 && d->y == 0 && d->width == d->vi->width && d->height == d->vi->height) {
-- 
2.43.0


From 609504706a0202126ff625f862c4fda054f49b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:10 +0000
Subject: [PATCH 02/57] fix: AddBorders overflowed int when computing the
 output dimensions

Borders whose sum with the frame size exceeds INT_MAX wrapped to a small or
negative dimension, and the frame function then wrote past the smaller frame.
---
 src/core/simplefilters.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/core/simplefilters.cpp b/src/core/simplefilters.cpp
index 9569a6a..68eb013 100644
--- a/src/core/simplefilters.cpp
+++ b/src/core/simplefilters.cpp
@@ -298,7 +298,15 @@ static const VSFrame *VS_CC addBordersGetframe(int n, int activationReason, void
             return nullptr;
         }
 
-        dst = vsapi->newVideoFrame(fi, vsapi->getFrameWidth(src, 0) + d->left + d->right, vsapi->getFrameHeight(src, 0) + d->top + d->bottom, src, core);
+        int64_t dstwidth = static_cast<int64_t>(vsapi->getFrameWidth(src, 0)) + d->left + d->right;
+        int64_t dstheight = static_cast<int64_t>(vsapi->getFrameHeight(src, 0)) + d->top + d->bottom;
+        if (dstwidth > INT_MAX || dstheight > INT_MAX) {
+            vsapi->freeFrame(src);
+            vsapi->setFilterError("AddBorders: resulting frame dimensions are too large", frameCtx);
+            return nullptr;
+        }
+
+        dst = vsapi->newVideoFrame(fi, static_cast<int>(dstwidth), static_cast<int>(dstheight), src, core);
 
         int bytesPerSample = fi->bytesPerSample;
 
@@ -432,6 +440,9 @@ static void VS_CC addBordersCreate(const VSMap *in, VSMap *out, void *userData,
         RETERROR("AddBorders: invalid number of color values specified");
     }
 
+    if (static_cast<int64_t>(vi.height) + d->top + d->bottom > INT_MAX || static_cast<int64_t>(vi.width) + d->left + d->right > INT_MAX)
+        RETERROR("AddBorders: resulting frame dimensions are too large");
+
     vi.height += vi.height ? (d->top + d->bottom) : 0;
     vi.width += vi.width ? (d->left + d->right) : 0;
 
-- 
2.43.0


From 71e9fb0c22c7316179b3ef7714854564c27ce49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:28 +0000
Subject: [PATCH 03/57] fix: color values beyond 32 bits were accepted for 32
 bit integer formats

The conversion saturates, so the range check that follows it could not see
that the value was too large.
---
 src/core/simplefilters.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/simplefilters.cpp b/src/core/simplefilters.cpp
index 68eb013..1803e2c 100644
--- a/src/core/simplefilters.cpp
+++ b/src/core/simplefilters.cpp
@@ -52,7 +52,7 @@ static inline uint32_t doubleToUInt32S(double v) {
 static inline uint32_t doubleToIntPixelValue(double v, int bits, int *err) {
     *err = 0;
 
-    if (!isfinite(v) || v < 0) {
+    if (!isfinite(v) || v < 0 || v >= 4294967295.5) {
         *err = 1;
         return 0;
     }
-- 
2.43.0


From 1b8a26753fad15d9d6fe2ca00fbe5a6bc39d617f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:51 +0000
Subject: [PATCH 04/57] fix: Lut and Lut2 passed through planes with the wrong
 sample size

When only some planes are processed and the output has a different number of
bytes per sample the remaining planes were attached unconverted to a frame of
the output format, so their samples were misinterpreted and reading them went
past the end of the plane.
---
 src/core/lutfilters.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/core/lutfilters.cpp b/src/core/lutfilters.cpp
index d1dd677..cdec913 100644
--- a/src/core/lutfilters.cpp
+++ b/src/core/lutfilters.cpp
@@ -281,6 +281,10 @@ static void VS_CC lutCreate(const VSMap *in, VSMap *out, void *userData, VSCore
 
         getPlanesArg(in, d->process, vsapi);
 
+        for (int plane = 0; plane < d->vi_out.format.numPlanes; plane++)
+            if (!d->process[plane] && d->vi_out.format.bytesPerSample != d->vi->format.bytesPerSample)
+                RETERROR("Lut: unprocessed planes can only be passed through when the output has the same sample size as the input");
+
         VSFunction *func = vsapi->mapGetFunction(in, "function", 0, &err);
         int lut_elem = vsapi->mapNumElements(in, "lut");
         int lutf_elem = vsapi->mapNumElements(in, "lutf");
@@ -592,6 +596,10 @@ static void VS_CC lut2Create(const VSMap *in, VSMap *out, void *userData, VSCore
 
         getPlanesArg(in, d->process, vsapi);
 
+        for (int plane = 0; plane < d->vi_out.format.numPlanes; plane++)
+            if (!d->process[plane] && d->vi_out.format.bytesPerSample != d->vi[0]->format.bytesPerSample)
+                RETERROR("Lut2: unprocessed planes can only be passed through when the output has the same sample size as the input");
+
         VSFunction *func = vsapi->mapGetFunction(in, "function", 0, &err);
         int lut_elem = vsapi->mapNumElements(in, "lut");
         int lutf_elem = vsapi->mapNumElements(in, "lutf");
-- 
2.43.0


From 9a30e3d0f6af43803065becc9baa496431e56126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:01 +0000
Subject: [PATCH 05/57] fix: Merge wrote past its weight array when given more
 than three weights

The weights were copied before their number is compared with the number of
planes.
---
 src/core/mergefilters.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/mergefilters.cpp b/src/core/mergefilters.cpp
index e54e37f..75a2fcd 100644
--- a/src/core/mergefilters.cpp
+++ b/src/core/mergefilters.cpp
@@ -391,7 +391,7 @@ static void VS_CC mergeCreate(const VSMap *in, VSMap *out, void *userData, VSCor
     int nweight = vsapi->mapNumElements(in, "weight");
     for (int i = 0; i < 3; i++)
         d->fweight[i] = 0.5f;
-    for (int i = 0; i < nweight; i++)
+    for (int i = 0; i < std::min(nweight, 3); i++)
         d->fweight[i] = (float)vsapi->mapGetFloat(in, "weight", i, 0);
 
     if (nweight == 2) {
-- 
2.43.0


From 71c4766e2117f028d0101cc8583d60b23bb0f879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:01 +0000
Subject: [PATCH 06/57] fix: MaskedMerge accepted masks of another sample type

Only the bit depth was compared, so a 16 bit integer mask was used as half
float samples with a half float clip and the other way around.
---
 src/core/mergefilters.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/mergefilters.cpp b/src/core/mergefilters.cpp
index 75a2fcd..9e6708f 100644
--- a/src/core/mergefilters.cpp
+++ b/src/core/mergefilters.cpp
@@ -609,7 +609,7 @@ static void VS_CC maskedMergeCreate(const VSMap *in, VSMap *out, void *userData,
     if (!isConstantVideoFormat(d->vi) || !isSameVideoInfo(d->vi, vsapi->getVideoInfo(d->nodes[1])))
         RETERROR(("MaskedMerge: both clips must have the same constant format and dimensions, passed " + videoInfoToString(d->vi, vsapi) + " and " + videoInfoToString(vsapi->getVideoInfo(d->nodes[1]), vsapi)).c_str());
 
-    if (maskvi->width != d->vi->width || maskvi->height != d->vi->height || maskvi->format.bitsPerSample != d->vi->format.bitsPerSample
+    if (maskvi->width != d->vi->width || maskvi->height != d->vi->height || maskvi->format.bitsPerSample != d->vi->format.bitsPerSample || maskvi->format.sampleType != d->vi->format.sampleType
         || (!isSameVideoFormat(&maskvi->format, &d->vi->format) && maskvi->format.colorFamily != cfGray && !d->first_plane))
         RETERROR(("MaskedMerge: mask clip must have same dimensions as main clip and be the same format or grayscale, passed " + videoInfoToString(d->vi, vsapi) + " and " + videoInfoToString(maskvi, vsapi)).c_str());
 
-- 
2.43.0


From daf963d0e806c05a51af9503fe3d285da273e489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:12 +0000
Subject: [PATCH 07/57] fix: Expr lost the constant of a sum whose other terms
 cancel out

---
 src/core/expr/expr.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/expr/expr.cpp b/src/core/expr/expr.cpp
index 4b5e282..07a94da 100644
--- a/src/core/expr/expr.cpp
+++ b/src/core/expr/expr.cpp
@@ -801,7 +801,7 @@ public:
                 head = addNode;
             }
         } else {
-            head = tree.makeNode({ ExprOpType::CONSTANT, 0.0f });
+            head = tree.makeNode({ ExprOpType::CONSTANT, scalarTerm });
         }
 
         return head;
-- 
2.43.0


From 5389ac958d12428b5a47db1e5eaebc2526c4f5bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:58 +0000
Subject: [PATCH 08/57] fix: Expr split roots of products into roots of
 possibly negative factors

---
 src/core/expr/expr.cpp | 52 +++++++++++++++++++++++++++++++-----------
 1 file changed, 39 insertions(+), 13 deletions(-)

diff --git a/src/core/expr/expr.cpp b/src/core/expr/expr.cpp
index 07a94da..600f000 100644
--- a/src/core/expr/expr.cpp
+++ b/src/core/expr/expr.cpp
@@ -526,22 +526,48 @@ class ExponentMap {
     // e.g. 3 * v0^2 * v1^3
     // map = { 0: 2, 1: 3 }, coeff = 3
     std::map<int, float> map; // key = valueNum, value = exponent
-    std::vector<int> origSequence;
+    std::vector<std::pair<int, float>> origSequence; // valueNum, exponent
     float coeff;
 
+    // (a ** b) ** c = a ** (b * c)
+    //
+    // With a non-integer c this would lose the sign elimination of an even b.
+    static bool canExpandPow(const ExpressionTreeNode &value, float exp)
+    {
+        if (value.op != ExprOpType::POW || !isConstant(*value.right))
+            return false;
+
+        float base = value.right->op.imm.f;
+        return isInteger(exp) || !isInteger(base) || std::fmod(base, 2.0f) != 0.0f;
+    }
+
+    // (a * b) ** c = (a ** c) * (b ** c)
+    //
+    // With a non-integer c only the product is known to be non-negative.
+    static bool canExpandMulDiv(const ExpressionTreeNode &value, float exp)
+    {
+        return (value.op == ExprOpType::MUL || value.op == ExprOpType::DIV) && isInteger(exp);
+    }
+
     bool expandOrigSequence(ValueIndex &index)
     {
         bool changed = false;
 
         for (size_t i = 0; i < origSequence.size(); ++i) {
-            const ExpressionTreeNode *value = index.at(origSequence[i]);
+            const ExpressionTreeNode *value = index.at(origSequence[i].first);
+            float exp = origSequence[i].second;
+
+            if (canExpandPow(*value, exp)) {
+                index[value->left->valueNum] = value->left;
 
-            if (value->op == ExprOpType::POW && isConstant(*value->right)) {
-                origSequence[i] = value->left->valueNum;
+                origSequence[i] = { value->left->valueNum, exp * value->right->op.imm.f };
                 changed = true;
-            } else if (value->op == ExprOpType::MUL || value->op == ExprOpType::DIV) {
-                origSequence[i] = value->left->valueNum;
-                origSequence.insert(origSequence.begin() + i + 1, value->right->valueNum);
+            } else if (canExpandMulDiv(*value, exp)) {
+                index[value->left->valueNum] = value->left;
+                index[value->right->valueNum] = value->right;
+
+                origSequence[i] = { value->left->valueNum, exp };
+                origSequence.insert(origSequence.begin() + i + 1, { value->right->valueNum, value->op == ExprOpType::MUL ? exp : -exp });
                 changed = true;
             }
         }
@@ -557,19 +583,19 @@ class ExponentMap {
             const ExpressionTreeNode *value = index.at(it->first);
             bool erase = false;
 
-            if (value->op == ExprOpType::POW && isConstant(*value->right)) {
+            if (canExpandPow(*value, it->second)) {
                 index[value->left->valueNum] = value->left;
 
                 map[value->left->valueNum] += it->second * value->right->op.imm.f;
                 erase = true;
-            } else if (value->op == ExprOpType::MUL) {
+            } else if (value->op == ExprOpType::MUL && canExpandMulDiv(*value, it->second)) {
                 index[value->left->valueNum] = value->left;
                 index[value->right->valueNum] = value->right;
 
                 map[value->left->valueNum] += it->second;
                 map[value->right->valueNum] += it->second;
                 erase = true;
-            } else if (value->op == ExprOpType::DIV) {
+            } else if (value->op == ExprOpType::DIV && canExpandMulDiv(*value, it->second)) {
                 index[value->left->valueNum] = value->left;
                 index[value->right->valueNum] = value->right;
 
@@ -608,7 +634,7 @@ public:
     void addTerm(int valueNum, float exp)
     {
         map[valueNum] += exp;
-        origSequence.push_back(valueNum);
+        origSequence.push_back({ valueNum, exp });
     }
 
     void addCoeff(float val) { coeff += val; }
@@ -652,8 +678,8 @@ public:
     bool isCanonical(const ValueIndex &index) const
     {
         std::vector<std::pair<int, float>> tmp;
-        for (int x : origSequence) {
-            tmp.push_back({ x, 1.0f });
+        for (const auto &term : origSequence) {
+            tmp.push_back({ term.first, 1.0f });
         }
         return std::is_sorted(tmp.begin(), tmp.end(), CanonicalCompare{ index });
     }
-- 
2.43.0


From c1e7e340ae9671fd095f3d21d620c607d77984ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:51 +0000
Subject: [PATCH 09/57] fix: separable convolution read past the end of its row
 buffer with AVX-512

---
 src/core/kernel/x86/convolution_impl.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/kernel/x86/convolution_impl.h b/src/core/kernel/x86/convolution_impl.h
index 71cdf45..36338ff 100644
--- a/src/core/kernel/x86/convolution_impl.h
+++ b/src/core/kernel/x86/convolution_impl.h
@@ -702,7 +702,8 @@ void conv_plane_x(const void *src, ptrdiff_t src_stride, void *dst, ptrdiff_t ds
     // Multi-pass threshold = 9 (v), 13 (h).
     auto kernel_v = select_conv_scanline_v_for<ISA>(T{})(params.matrixsize);
     auto kernel_h = select_conv_scanline_h_for<ISA>(T{})(params.matrixsize);
-    T *tmp1 = vsh::vsh_aligned_malloc<T>((width + 64) * sizeof(T), ISA::ALIGN);
+    // 32 before + whole HBLK vectors + lookahead of 12.
+    T *tmp1 = vsh::vsh_aligned_malloc<T>((width + 64 + ISA::HBLK) * sizeof(T), ISA::ALIGN);
     void *tmp2 = (params.matrixsize > 9 && std::is_integral<T>::value) ? vsh::vsh_aligned_malloc((width + ISA::TMP_PAD) * sizeof(int32_t), ISA::ALIGN) : nullptr;
 
     for (unsigned i = 0; i < height; ++i) {
-- 
2.43.0


From 8bdb3ae58ba66702b8538fa9bb7290af5c01804d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:39 +0000
Subject: [PATCH 10/57] fix: StackVertical and StackHorizontal overflowed int
 when summing dimensions

---
 src/core/simplefilters.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/core/simplefilters.cpp b/src/core/simplefilters.cpp
index 1803e2c..1c9c6f1 100644
--- a/src/core/simplefilters.cpp
+++ b/src/core/simplefilters.cpp
@@ -1102,10 +1102,15 @@ static void VS_CC stackCreate(const VSMap *in, VSMap *out, void *userData, VSCor
                 }
             }
 
-            if (d->vertical)
+            if (d->vertical) {
+                if (vi->height > INT_MAX - d->vi.height)
+                    RETERROR("StackVertical: resulting clip is too high");
                 d->vi.height += vi->height;
-            else
+            } else {
+                if (vi->width > INT_MAX - d->vi.width)
+                    RETERROR("StackHorizontal: resulting clip is too wide");
                 d->vi.width += vi->width;
+            }
         }
 
         std::vector<VSFilterDependency> deps;
-- 
2.43.0


From 0c56204f46dc20856727e3005e7e8207e9551fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:01 +0000
Subject: [PATCH 11/57] fix: BlankClip overflowed when computing the default
 length from large frame rates

---
 src/core/simplefilters.cpp | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/core/simplefilters.cpp b/src/core/simplefilters.cpp
index 1c9c6f1..a9720d4 100644
--- a/src/core/simplefilters.cpp
+++ b/src/core/simplefilters.cpp
@@ -1179,6 +1179,25 @@ static void VS_CC blankClipFree(void *instanceData, VSCore *core, const VSAPI *v
     delete d;
 }
 
+// (fpsNum * 10) / fpsDen saturated to int, fpsNum * 10 may not fit in an int64_t
+static int tenSecondLength(int64_t fpsNum, int64_t fpsDen) {
+    int64_t length = fpsNum / fpsDen;
+    if (length > INT_MAX)
+        return INT_MAX;
+    length *= 10;
+    int64_t rem = fpsNum % fpsDen;
+    int64_t acc = 0;
+    for (int i = 0; i < 10; i++) {
+        if (acc >= fpsDen - rem) {
+            acc -= fpsDen - rem;
+            length++;
+        } else {
+            acc += rem;
+        }
+    }
+    return int64ToIntS(length);
+}
+
 static void VS_CC blankClipCreate(const VSMap *in, VSMap *out, void *userData, VSCore *core, const VSAPI *vsapi) {
     std::unique_ptr<BlankClipData> d(new BlankClipData());
     bool hasvi = false;
@@ -1256,7 +1275,7 @@ static void VS_CC blankClipCreate(const VSMap *in, VSMap *out, void *userData, V
     if (err) {
         if (!hasvi) {
             if (d->vi.fpsNum > 0 && d->vi.fpsDen > 0)
-                d->vi.numFrames = int64ToIntS((d->vi.fpsNum * 10) / d->vi.fpsDen);
+                d->vi.numFrames = tenSecondLength(d->vi.fpsNum, d->vi.fpsDen);
             else
                 d->vi.numFrames = 300;
         }
-- 
2.43.0


From d0620bf97f4621cd3271083eb57e9b491b59b8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:17 +0000
Subject: [PATCH 12/57] fix: muldivRational overflowed and could divide by zero
 on large rationals

---
 include/VSHelper4.h | 63 +++++++++++++++++++++++++++++++++++----------
 1 file changed, 49 insertions(+), 14 deletions(-)

diff --git a/include/VSHelper4.h b/include/VSHelper4.h
index 0061a2d..30e356b 100644
--- a/include/VSHelper4.h
+++ b/include/VSHelper4.h
@@ -114,7 +114,18 @@ static inline VSH4_BOOLEAN_TYPE VSH4_MANGLE_FUNCTION_NAME(isSameAudioInfo)(const
     return a1->sampleRate == a2->sampleRate && VSH4_MANGLE_FUNCTION_NAME(isSameAudioFormat)(&a1->format, &a2->format);
 }
 
-/* multiplies and divides a rational number, such as a frame duration, in place and reduces the result */
+/* greatest common divisor */
+static inline uint64_t VSH4_MANGLE_FUNCTION_NAME(gcdRational)(uint64_t a, uint64_t b) {
+    while (b != 0) {
+        uint64_t t = a;
+        a = b;
+        b = t % b;
+    }
+    return a;
+}
+
+/* multiplies and divides a rational number, such as a frame duration, in place and reduces the result
+   if the result can't be represented exactly it is approximated */
 static inline void VSH4_MANGLE_FUNCTION_NAME(muldivRational)(int64_t *num, int64_t *den, int64_t mul, int64_t div) {
     /* do nothing if the rational number is invalid */
     if (!*den)
@@ -123,20 +134,44 @@ static inline void VSH4_MANGLE_FUNCTION_NAME(muldivRational)(int64_t *num, int64
     /* nobody wants to accidentally divide by zero */
     assert(div);
 
-    int64_t a, b;
-    *num *= mul;
-    *den *= div;
-    a = *num;
-    b = *den;
-    while (b != 0) {
-        int64_t t = a;
-        a = b;
-        b = t % b;
+    uint64_t n[2], d[2], g;
+    int i, j;
+    int negNum = (*num < 0) != (mul < 0);
+    int negDen = (*den < 0) != (div < 0);
+    n[0] = (*num < 0) ? 0 - (uint64_t)*num : (uint64_t)*num;
+    d[0] = (*den < 0) ? 0 - (uint64_t)*den : (uint64_t)*den;
+    n[1] = (mul < 0) ? 0 - (uint64_t)mul : (uint64_t)mul;
+    d[1] = (div < 0) ? 0 - (uint64_t)div : (uint64_t)div;
+
+    /* reducing before multiplying keeps everything that can be represented exactly exact */
+    for (i = 0; i < 2; i++) {
+        for (j = 0; j < 2; j++) {
+            g = VSH4_MANGLE_FUNCTION_NAME(gcdRational)(n[i], d[j]);
+            n[i] /= g;
+            d[j] /= g;
+        }
     }
-    if (a < 0)
-        a = -a;
-    *num /= a;
-    *den /= a;
+
+    while ((n[0] && n[1] > (uint64_t)INT64_MAX / n[0]) || d[1] > (uint64_t)INT64_MAX / d[0]) {
+        uint64_t *maxn = (n[0] > n[1]) ? &n[0] : &n[1];
+        uint64_t *maxd = (d[0] > d[1]) ? &d[0] : &d[1];
+        if (n[0] <= 1 && n[1] <= 1) {
+            d[0] = INT64_MAX;
+            d[1] = 1;
+        } else if (d[0] == 1 && d[1] == 1) {
+            n[0] = INT64_MAX;
+            n[1] = 1;
+        } else {
+            *maxn /= 2;
+            *maxd /= 2;
+        }
+    }
+
+    n[0] *= n[1];
+    d[0] *= d[1];
+    g = VSH4_MANGLE_FUNCTION_NAME(gcdRational)(n[0], d[0]);
+    *num = negNum ? -(int64_t)(n[0] / g) : (int64_t)(n[0] / g);
+    *den = negDen ? -(int64_t)(d[0] / g) : (int64_t)(d[0] / g);
 }
 
 /* reduces a rational number */
-- 
2.43.0


From 41461715e85feb74e4f9d330ce5e3a7363e8e665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:37 +0000
Subject: [PATCH 13/57] fix: str frame properties set from Python were
 truncated at the first null character

---
 src/cython/vapoursynth.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cython/vapoursynth.pyx b/src/cython/vapoursynth.pyx
index ff695af..ea7b0be 100644
--- a/src/cython/vapoursynth.pyx
+++ b/src/cython/vapoursynth.pyx
@@ -1448,7 +1448,8 @@ cdef class FrameProps(object):
                     if funcs.mapSetFloat(m, b, float(v), 1) != 0:
                         raise Error('Not all values are of the same type')
                 elif isinstance(v, str):
-                    if funcs.mapSetData(m, b, v.encode('utf-8'), -1, dtUtf8, 1) != 0:
+                    s = v.encode('utf-8')
+                    if funcs.mapSetData(m, b, s, <int>len(s), dtUtf8, 1) != 0:
                         raise Error('Not all values are of the same type')
                 elif isinstance(v, (bytes, bytearray)):
                     if funcs.mapSetData(m, b, v, <int>len(v), dtBinary, 1) != 0:
-- 
2.43.0


From 4f867d9003f8122e86d03ebf38939fc651a036b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:37 +0000
Subject: [PATCH 14/57] fix: a failed frame property assignment from Python
 could leave some of the values set

---
 src/cython/vapoursynth.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cython/vapoursynth.pyx b/src/cython/vapoursynth.pyx
index ea7b0be..aee13f0 100644
--- a/src/cython/vapoursynth.pyx
+++ b/src/cython/vapoursynth.pyx
@@ -1456,7 +1456,7 @@ cdef class FrameProps(object):
                         raise Error('Not all values are of the same type')
                 else:
                     raise Error('Setter was passed an unsupported type (' + type(v).__name__ + ')')
-        except Error:
+        except:
             self.__delitem__(name)
             raise
 
-- 
2.43.0


From 32c8930f0f9bd3eb8b60ec7648066b0e6e960688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:37 +0000
Subject: [PATCH 15/57] fix: PropToClip crashed on properties holding audio
 frames

---
 src/core/simplefilters.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/core/simplefilters.cpp b/src/core/simplefilters.cpp
index a9720d4..4faa228 100644
--- a/src/core/simplefilters.cpp
+++ b/src/core/simplefilters.cpp
@@ -2153,7 +2153,7 @@ static const VSFrame *VS_CC propToClipGetFrame(int n, int activationReason, void
         vsapi->freeFrame(src);
 
         if (dst) {
-            if (!isSameVideoFormat(&d->vi.format, vsapi->getVideoFrameFormat(dst)) || d->vi.height != vsapi->getFrameHeight(dst, 0) || d->vi.width != vsapi->getFrameWidth(dst, 0)) {
+            if (vsapi->getFrameType(dst) != mtVideo || !isSameVideoFormat(&d->vi.format, vsapi->getVideoFrameFormat(dst)) || d->vi.height != vsapi->getFrameHeight(dst, 0) || d->vi.width != vsapi->getFrameWidth(dst, 0)) {
                 vsapi->freeFrame(dst);
                 vsapi->setFilterError("PropToClip: retrieved frame doesn't match output format or dimensions", frameCtx);
                 return nullptr;
@@ -2200,6 +2200,12 @@ static void VS_CC propToClipCreate(const VSMap *in, VSMap *out, void *userData,
         RETERROR(("PropToClip: no frame stored in property: " + d->prop + " index " + std::to_string(d->index)).c_str());
     }
 
+    if (vsapi->getFrameType(msrc) != mtVideo) {
+        vsapi->freeFrame(msrc);
+        vsapi->freeFrame(src);
+        RETERROR(("PropToClip: no video frame stored in property: " + d->prop + " index " + std::to_string(d->index)).c_str());
+    }
+
     d->vi.format = *vsapi->getVideoFrameFormat(msrc);
     d->vi.width = vsapi->getFrameWidth(msrc, 0);
     d->vi.height = vsapi->getFrameHeight(msrc, 0);
-- 
2.43.0


From 7f0f9c43f1d130e969248b9411abadeaf9c5ae26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:44 +0000
Subject: [PATCH 16/57] fix: mapGetIntArray returned 0 for _ColorRange values
 other than 0 and 1

---
 src/core/vsapi.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/core/vsapi.cpp b/src/core/vsapi.cpp
index 8df20d0..fd7d38a 100644
--- a/src/core/vsapi.cpp
+++ b/src/core/vsapi.cpp
@@ -875,8 +875,10 @@ static const int64_t *VS_CC mapGetIntArray(const VSMap *map, const char *key, in
     if (arr) {
         if (remapRange) {
             auto *intArr = reinterpret_cast<const VSIntArray *>(arr);
-            if (intArr->size() == 1)
-                return flipRangeProperty(intArr->at(0)) == 1 ? &staticOne : &staticZero;
+            if (intArr->size() == 1 && intArr->at(0) == 0)
+                return &staticOne;
+            else if (intArr->size() == 1 && intArr->at(0) == 1)
+                return &staticZero;
             else
                 return intArr->getDataPointer();
 
-- 
2.43.0


From d5228ddafec86bd5d180f07f9669527e1fa304a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:44 +0000
Subject: [PATCH 17/57] fix: RemoveFrameProps didn't remove the range property
 when given its deprecated name

---
 src/core/simplefilters.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/core/simplefilters.cpp b/src/core/simplefilters.cpp
index 4faa228..afca953 100644
--- a/src/core/simplefilters.cpp
+++ b/src/core/simplefilters.cpp
@@ -2432,8 +2432,11 @@ static void VS_CC removeFramePropsCreate(const VSMap *in, VSMap *out, void *user
     int num_props = vsapi->mapNumElements(in, "props");
     d->all = (num_props < 0);
 
-    for (int i = 0; i < num_props; i++)
-        d->delProps.push_back(std::regex(globToRegex(vsapi->mapGetData(in, "props", i, nullptr)), std::regex::ECMAScript));
+    for (int i = 0; i < num_props; i++) {
+        const char *pattern = vsapi->mapGetData(in, "props", i, nullptr);
+        // the deprecated _ColorRange is an alias and always stored as _Range
+        d->delProps.push_back(std::regex(globToRegex(!strcmp(pattern, "_ColorRange") ? "_Range" : pattern), std::regex::ECMAScript));
+    }
 
     d->node = vsapi->mapGetNode(in, "clip", 0, nullptr);
 
-- 
2.43.0


From 6b448df33a239979cb18687797b9b4e9d50bec3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:07 +0000
Subject: [PATCH 18/57] fix: reading _ColorRange aborted the process when
 _Range isn't an integer

---
 src/core/vsapi.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/core/vsapi.cpp b/src/core/vsapi.cpp
index fd7d38a..7aa6d8b 100644
--- a/src/core/vsapi.cpp
+++ b/src/core/vsapi.cpp
@@ -317,21 +317,31 @@ static const char *remapColorRange(const char *key) {
     return !strcmp(key, "_ColorRange") ? "_Range" : key;
 }
 
+// only integer values are accessible through the _ColorRange alias
+static VSArrayBase *findRemapped(const VSMap *map, const char *key) {
+    if (!strcmp(key, "_ColorRange")) {
+        VSArrayBase *val = map->find("_Range");
+        if (val && val->type() == ptInt)
+            return val;
+    }
+    return map->find(key);
+}
+
 static int VS_CC mapNumElements(const VSMap *map, const char *key) VS_NOEXCEPT {
     assert(map && key);
-    VSArrayBase *val = map->find(remapColorRange(key));
+    VSArrayBase *val = findRemapped(map, key);
     return val ? static_cast<int>(val->size()) : -1;
 }
 
 static int VS_CC mapGetType(const VSMap *map, const char *key) VS_NOEXCEPT {
     assert(map && key);
-    VSArrayBase *val = map->find(remapColorRange(key));
+    VSArrayBase *val = findRemapped(map, key);
     return val ? val->type() : ptUnset;
 }
 
 static char VS_CC propGetType3(const VSMap *map, const char *key) VS_NOEXCEPT {
     assert(map && key);
-    VSArrayBase *val = map->find(remapColorRange(key));
+    VSArrayBase *val = findRemapped(map, key);
     VSPropertyType pt = val ? val->type() : ptUnset;
     switch (pt) {
         case ptInt:
-- 
2.43.0


From 965b03a4ecc98222d02a8e88c9f9005c7f7cad52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:58 +0000
Subject: [PATCH 19/57] fix: BlankAudio with keep returned frames of the wrong
 length

---
 src/core/audiofilters.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/core/audiofilters.cpp b/src/core/audiofilters.cpp
index 7e967c5..28259cb 100644
--- a/src/core/audiofilters.cpp
+++ b/src/core/audiofilters.cpp
@@ -1247,15 +1247,18 @@ static const VSFrame *VS_CC blankAudioGetframe(int n, int activationReason, void
         }
 
         VSFrame *frame = nullptr;
-        if (!d->f) {
+        // the last frame may be shorter than the others
+        if (!d->f || vsapi->getFrameLength(d->f) != samples) {
             frame = vsapi->newAudioFrame(&d->ai.format, samples, nullptr, core);
             for (int channel = 0; channel < d->ai.format.numChannels; channel++)
                 memset(vsapi->getWritePtr(frame, channel), 0, samples * d->ai.format.bytesPerSample);
         }
 
         if (d->keep) {
-            if (frame)
+            if (frame) {
+                vsapi->freeFrame(d->f);
                 d->f = frame;
+            }
             return vsapi->addFrameRef(d->f);
         } else {
             return frame;
-- 
2.43.0


From f02c201488614e600e5c01e3a345b96d4ffe7948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:58 +0000
Subject: [PATCH 20/57] fix: AudioTrim overflowed when checking the end of the
 requested range

---
 src/core/audiofilters.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/audiofilters.cpp b/src/core/audiofilters.cpp
index 28259cb..c8790b1 100644
--- a/src/core/audiofilters.cpp
+++ b/src/core/audiofilters.cpp
@@ -123,7 +123,7 @@ static void VS_CC audioTrimCreate(const VSMap *in, VSMap *out, void *userData, V
     if (lengthset && length < 1)
         RETERROR("AudioTrim: invalid length specified (less than 1)");
 
-    if ((lastset && last >= d->ai.numSamples) || (lengthset && (d->first + length) > d->ai.numSamples))
+    if ((lastset && last >= d->ai.numSamples) || (lengthset && length > d->ai.numSamples - d->first))
         RETERROR("AudioTrim: last sample beyond clip end");
 
     if (lastset) {
-- 
2.43.0


From b5776e9ccec41562d5d1f0007fb751654080c447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:08 +0000
Subject: [PATCH 21/57] fix: writing to a frame after copying it in Python
 could also change the copy

---
 src/cython/vapoursynth.pyx | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/cython/vapoursynth.pyx b/src/cython/vapoursynth.pyx
index aee13f0..7f4b52f 100644
--- a/src/cython/vapoursynth.pyx
+++ b/src/cython/vapoursynth.pyx
@@ -1701,7 +1701,13 @@ cdef class VideoFrame(RawFrame):
 
     def copy(self):
         self._ensure_open()
-        return createVideoFrame(self.funcs.copyFrame(self.constf, self.core), self.funcs, self.core)
+        cdef VSFrame *f = self.funcs.copyFrame(self.constf, self.core)
+        # planes with writable views can still be modified through them so the copy can't share the memory
+        if self.f != NULL:
+            for plane in range(self.funcs.getVideoFrameFormat(f).numPlanes):
+                if not self.flags & (2 << plane):
+                    self.funcs.getWritePtr(f, plane)
+        return createVideoFrame(f, self.funcs, self.core)
 
     def readchunks(self):
         self._ensure_open()
@@ -1923,7 +1929,11 @@ cdef class AudioFrame(RawFrame):
 
     def copy(self):
         self._ensure_open()
-        return createAudioFrame(self.funcs.copyFrame(self.constf, self.core), self.funcs, self.core)
+        cdef VSFrame *f = self.funcs.copyFrame(self.constf, self.core)
+        # writable views can still be used to modify this frame so the copy can't share the memory
+        if self.f != NULL and not self.flags & 2:
+            self.funcs.getWritePtr(f, 0)
+        return createAudioFrame(f, self.funcs, self.core)
 
     @property
     def channels(self):
-- 
2.43.0


From 1b4aded2006fc895997585468ba34ebd79b9d1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:47 +0000
Subject: [PATCH 22/57] fix: AudioResample crashed on extreme sample rate
 ratios instead of refusing them

---
 src/core/audioresampling.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/core/audioresampling.cpp b/src/core/audioresampling.cpp
index 996ec46..9dd7fab 100644
--- a/src/core/audioresampling.cpp
+++ b/src/core/audioresampling.cpp
@@ -264,11 +264,15 @@ static std::string buildResampleBank(ResampleBank &bank, int inRate, int outRate
     // The kernel has to stop the lower of the two nyquist frequencies. Decimation lowers the
     // cutoff, which stretches the kernel over proportionally more input samples.
     double ratio = std::min(1.0, static_cast<double>(bank.p) / static_cast<double>(bank.q));
-    bank.halfTaps = static_cast<int>(std::ceil(resampleTapsPerSide / ratio));
-    bank.tapCount = 2 * bank.halfTaps;
+    double halfTaps = std::ceil(resampleTapsPerSide / ratio);
 
-    if (bank.tapCount > resampleMaxTaps)
+    // checked before the conversion to int, the most extreme ratios don't fit in one
+    if (2 * halfTaps > resampleMaxTaps)
         return "the sample rate ratio requires an impractically long filter, convert in several steps instead";
+
+    bank.halfTaps = static_cast<int>(halfTaps);
+    bank.tapCount = 2 * bank.halfTaps;
+
     if (static_cast<uint64_t>(bank.p) * static_cast<uint64_t>(bank.tapCount) * sizeof(float) > resampleMaxBankBytes)
         return "the sample rate ratio reduces to a fraction with too many phases to build a filter for";
 
-- 
2.43.0


From 80c318e7a3578f6d2e96490dc3141d7c1af7945d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:47 +0000
Subject: [PATCH 23/57] fix: FrameEval and ModifyFrame crashed when the
 function returned audio

---
 src/core/simplefilters.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/core/simplefilters.cpp b/src/core/simplefilters.cpp
index afca953..c8d53c7 100644
--- a/src/core/simplefilters.cpp
+++ b/src/core/simplefilters.cpp
@@ -1445,6 +1445,12 @@ static const VSFrame *VS_CC frameEvalGetFrameWithProps(int n, int activationReas
             return nullptr;
         }
 
+        if (vsapi->getNodeType(node) != mtVideo) {
+            vsapi->freeNode(node);
+            vsapi->setFilterError("FrameEval: Function didn't return a video clip", frameCtx);
+            return nullptr;
+        }
+
         frameData[0] = node;
 
         vsapi->requestFrameFilter(n, node, frameCtx);
@@ -1500,6 +1506,12 @@ static const VSFrame *VS_CC frameEvalGetFrameNoProps(int n, int activationReason
             return nullptr;
         }
 
+        if (vsapi->getNodeType(node) != mtVideo) {
+            vsapi->freeNode(node);
+            vsapi->setFilterError("FrameEval: Function didn't return a video clip", frameCtx);
+            return nullptr;
+        }
+
         frameData[0] = node;
 
         vsapi->requestFrameFilter(n, node, frameCtx);
@@ -1623,6 +1635,12 @@ static const VSFrame *VS_CC modifyFrameGetFrame(int n, int activationReason, voi
             return nullptr;
         }
 
+        if (vsapi->getFrameType(f) != mtVideo) {
+            vsapi->freeFrame(f);
+            vsapi->setFilterError("ModifyFrame: Returned frame not a video frame", frameCtx);
+            return nullptr;
+        }
+
         if (d->vi.format.colorFamily != cfUndefined && !isSameVideoFormat(&d->vi.format, vsapi->getVideoFrameFormat(f))) {
             vsapi->freeFrame(f);
             vsapi->setFilterError("ModifyFrame: Returned frame has the wrong format", frameCtx);
-- 
2.43.0


From 3abdada98d9714ef8709914b430b5695a5e6a091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:48 +0000
Subject: [PATCH 24/57] fix: error messages that aren't valid UTF-8 left frame
 requests unanswered in Python

---
 src/cython/vapoursynth.pyx | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/cython/vapoursynth.pyx b/src/cython/vapoursynth.pyx
index 7f4b52f..23036e6 100644
--- a/src/cython/vapoursynth.pyx
+++ b/src/cython/vapoursynth.pyx
@@ -962,7 +962,7 @@ cdef class Func(object):
             self.funcs.callFunction(self.ref, inm, outm)
             error = self.funcs.mapGetError(outm)
             if error:
-                msg_str = error.decode('utf-8')
+                msg_str = error.decode('utf-8', 'replace')
                 env = _env_current()
                 py_exc = env.retrieve_exception(msg_str) if env is not None else None
                 raise py_exc or Error(msg_str)
@@ -1052,7 +1052,7 @@ cdef void __stdcall frameDoneCallback(void *data, const VSFrame *f, int n, VSNod
             elif f == NULL:
                 error_str = 'Internal error - no error message.'
                 if errormsg != NULL:
-                    error_str = errormsg.decode('utf-8')
+                    error_str = errormsg.decode('utf-8', 'replace')
                 py_exc = d.env.retrieve_exception(error_str) if d.env is not None else None
                 error = py_exc or Error(error_str)
             else:
@@ -2423,7 +2423,7 @@ cdef class VideoNode(RawNode):
 
         if f == NULL:
             if (errorMsg[0]):
-                msg_str = ep.decode('utf-8')
+                msg_str = ep.decode('utf-8', 'replace')
                 py_exc = env.retrieve_exception(msg_str) if env is not None else None
                 raise py_exc or Error(msg_str)
             else:
@@ -2745,7 +2745,7 @@ cdef class AudioNode(RawNode):
 
         if f == NULL:
             if (errorMsg[0]):
-                msg_str = ep.decode('utf-8')
+                msg_str = ep.decode('utf-8', 'replace')
                 py_exc = env.retrieve_exception(msg_str) if env is not None else None
                 raise py_exc or Error(msg_str)
             else:
@@ -3564,7 +3564,7 @@ cdef class Function(object):
         if err:
             emsg = err
             self.funcs.freeMap(outm)
-            msg_str = emsg.decode('utf-8')
+            msg_str = emsg.decode('utf-8', 'replace')
             env = _env_current()
             py_exc = env.retrieve_exception(msg_str) if env is not None else None
             raise py_exc or Error(msg_str)
-- 
2.43.0


From 3707dceb663e0e24a9081d7f5869647e8bba0032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:48 +0000
Subject: [PATCH 25/57] fix: frames() could wait forever for a callback while
 holding the GIL

---
 src/cython/vapoursynth.pyx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cython/vapoursynth.pyx b/src/cython/vapoursynth.pyx
index 23036e6..708a57e 100644
--- a/src/cython/vapoursynth.pyx
+++ b/src/cython/vapoursynth.pyx
@@ -35,6 +35,7 @@ import os
 import enum
 import ctypes
 import threading
+import time
 import traceback
 import gc
 import sys
@@ -2233,7 +2234,9 @@ cdef class RawNode(object):
         try:
             while (not finished) or (curr_frames > 0) or running > 0:
                 if sidx not in reorder:
-                    # Spin. Reorder being empty should never happen.
+                    # All requested frames have been delivered but the callback requesting more of them
+                    # hasn't finished in the thread it runs in. It needs the GIL to do so.
+                    time.sleep(0)
                     continue
 
                 # Get next requested frame
-- 
2.43.0


From d6c1ddc64b873f24b4dd8cee19da2986eb55c7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:48 +0000
Subject: [PATCH 26/57] fix: output() crashed or overflowed its buffer on
 unexpected _Alpha properties

---
 src/cython/vapoursynth.pyx | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/cython/vapoursynth.pyx b/src/cython/vapoursynth.pyx
index 708a57e..e465469 100644
--- a/src/cython/vapoursynth.pyx
+++ b/src/cython/vapoursynth.pyx
@@ -2545,6 +2545,8 @@ cdef class VideoNode(RawNode):
                 if alpha is not None:
                     if y4m:
                         raise ValueError("Can only apply y4m headers to clips without alpha")
+                    if not isinstance(alpha, VideoFrame):
+                        raise ValueError("The _Alpha frame property isn't a single video frame")
 
                     constf = (<VideoFrame>alpha).constf
                     fi = lib.getVideoFrameFormat(constf)
@@ -2557,6 +2559,14 @@ cdef class VideoNode(RawNode):
                         if stride == <ptrdiff_t>rowSize:
                             write(PyMemoryView_FromMemory(<char *>readPtr, rowSize * height, PyBUF_READ))
                         else:
+                            # the alpha frame can be bigger than the clip it belongs to
+                            if rowSize * height > buffer_size:
+                                free(buffer)
+                                buffer_size = rowSize * height
+                                buffer = <uint8_t *>malloc(buffer_size)
+                                if not buffer:
+                                    raise Error("Failed to allocate memory for output buffer")
+
                             with nogil:
                                 bitblt(buffer, rowSize, readPtr, stride, rowSize, height)
                             write(PyMemoryView_FromMemory(<char *>buffer, rowSize * height, PyBUF_READ))
-- 
2.43.0


From 24b7db0993ee8c98923179ee2b3cf370de9d5814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:48 +0000
Subject: [PATCH 27/57] fix: output() gave float clips the Y4M identifiers of
 integer ones

---
 src/cython/vapoursynth.pyx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cython/vapoursynth.pyx b/src/cython/vapoursynth.pyx
index e465469..fb78c76 100644
--- a/src/cython/vapoursynth.pyx
+++ b/src/cython/vapoursynth.pyx
@@ -2489,7 +2489,9 @@ cdef class VideoNode(RawNode):
                 else:
                     raise NotImplementedError("Unsupported subsampling for Y4M")
 
-                if self.format.bits_per_sample > 8:
+                if self.format.sample_type == stFloat:
+                    y4mformat += "ph" if self.format.bits_per_sample == 16 else "ps"
+                elif self.format.bits_per_sample > 8:
                     y4mformat += f"p{self.format.bits_per_sample}"
             else:
                 raise ValueError("Can only use GRAY and YUV for Y4M-Streams")
-- 
2.43.0


From 778cc64383b9f39219e5e605558d275f2c42b2d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:56 +0000
Subject: [PATCH 28/57] fix: unknown format ids were accepted as the undefined
 format

getVideoFormatByID documents that it fails for anything that isn't a format id
and Python's get_video_format that invalid ids throw.
---
 src/core/vscore.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/core/vscore.cpp b/src/core/vscore.cpp
index 49a9fbc..d19a9f1 100644
--- a/src/core/vscore.cpp
+++ b/src/core/vscore.cpp
@@ -1297,11 +1297,14 @@ bool VSCore::queryVideoFormat(VSVideoFormat &f, VSColorFamily colorFamily, VSSam
 
 bool VSCore::getVideoFormatByID(VSVideoFormat &f, uint32_t id) noexcept {
     // is a V3 id?
+    bool success;
     if ((id & 0xFF000000) == 0 && (id & 0x00FFFFFF)) {
-        return VideoFormatFromV3(f, getV3VideoFormat(id));
+        success = VideoFormatFromV3(f, getV3VideoFormat(id));
     } else {
-        return queryVideoFormat(f, static_cast<VSColorFamily>((id >> 28) & 0xF), static_cast<VSSampleType>((id >> 24) & 0xF), (id >> 16) & 0xFF, (id >> 8) & 0xFF, (id >> 0) & 0xFF);
+        success = queryVideoFormat(f, static_cast<VSColorFamily>((id >> 28) & 0xF), static_cast<VSSampleType>((id >> 24) & 0xF), (id >> 16) & 0xFF, (id >> 8) & 0xFF, (id >> 0) & 0xFF);
     }
+    // only pfNone identifies the undefined format, all other ids ending up as it are unknown
+    return success && (f.colorFamily != cfUndefined || id == pfNone);
 }
 
 uint32_t VSCore::queryVideoFormatID(VSColorFamily colorFamily, VSSampleType sampleType, int bitsPerSample, int subSamplingW, int subSamplingH) const noexcept {
-- 
2.43.0


From 9bab0c784a5fbeae2c41c89e377d762743c8c89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:23 +0000
Subject: [PATCH 29/57] fix: create_video_frame terminated the process on bad
 dimensions or formats

---
 src/cython/vapoursynth.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cython/vapoursynth.pyx b/src/cython/vapoursynth.pyx
index fb78c76..060efa4 100644
--- a/src/cython/vapoursynth.pyx
+++ b/src/cython/vapoursynth.pyx
@@ -3176,6 +3176,9 @@ cdef class Core(object):
         if not self.funcs.getVideoFormatByID(&fmt, format, self.core):
             raise Error('Invalid format id specified')
 
+        if fmt.colorFamily == cfUndefined or width <= 0 or height <= 0:
+            raise Error('Frames must have a defined format and positive dimensions')
+
         cdef VSFrame* ref = self.funcs.newVideoFrame(&fmt, width, height, NULL, self.core)
         return createVideoFrame(ref, self.funcs, self.core)
 
-- 
2.43.0


From e3e1c0dc573cfbac6da029ca3959872de1431f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:41 +0000
Subject: [PATCH 30/57] fix: removing a Python log handler twice could remove a
 handler added later

---
 src/cython/vapoursynth.pyx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cython/vapoursynth.pyx b/src/cython/vapoursynth.pyx
index 060efa4..89e2b7e 100644
--- a/src/cython/vapoursynth.pyx
+++ b/src/cython/vapoursynth.pyx
@@ -3204,8 +3204,13 @@ cdef class Core(object):
     def remove_log_handler(self, LogHandle handle):
         cdef VSLogHandle *h = handle.handle
         cdef bint result
+        # the address of a removed handler can be reused by one added later
+        if h == NULL:
+            return False
         with nogil:
             result = self.funcs.removeLogHandler(h, self.core)
+        if result:
+            handle.handle = NULL
         return result
 
     def clear_cache(self):
-- 
2.43.0


From 03513d3f0c19d7ec6a6bd1f792e1cd1775215088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:57 +0000
Subject: [PATCH 31/57] fix: log messages that aren't valid UTF-8 never reached
 Python log handlers

---
 src/cython/vapoursynth.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cython/vapoursynth.pyx b/src/cython/vapoursynth.pyx
index 89e2b7e..a40f842 100644
--- a/src/cython/vapoursynth.pyx
+++ b/src/cython/vapoursynth.pyx
@@ -385,7 +385,7 @@ cdef void _unset_logger(EnvironmentData env):
 
 cdef void __stdcall _logCb(int msgType, const char *msg, void *userData) noexcept nogil:
     with gil:
-        message = msg.decode("utf-8")
+        message = msg.decode('utf-8', 'replace')
         (<object>userData)(msgType, message)
 
 cdef void __stdcall _logFree(void* userData) noexcept nogil:
@@ -3024,7 +3024,7 @@ cdef LogHandle createLogHandle(object handler_func):
 
 cdef void __stdcall log_handler_wrapper(int msgType, const char *msg, void *userData) noexcept nogil:
     with gil:
-        (<LogHandle>userData).handler_func(msgType, msg.decode('utf-8'))
+        (<LogHandle>userData).handler_func(msgType, msg.decode('utf-8', 'replace'))
 
 cdef void __stdcall log_handler_free(void *userData) noexcept nogil:
     with gil:
-- 
2.43.0


From 47b105814702e5c0dc68713125fd3c05c2b306ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:29 +0000
Subject: [PATCH 32/57] fix: LoadPlugin terminated the process on paths that
 can't be looked up

---
 src/core/vscore.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/core/vscore.cpp b/src/core/vscore.cpp
index d19a9f1..1abef7e 100644
--- a/src/core/vscore.cpp
+++ b/src/core/vscore.cpp
@@ -2245,7 +2245,10 @@ static void VS_CC configPlugin3(const char *identifier, const char *defaultNames
 
 VSPlugin::VSPlugin(const std::filesystem::path &relFilename, const std::string &forcedNamespace, const std::string &forcedId, bool altSearchPath, bool loadCPUOptimized, std::string separator, VSCore *core)
     : fnamespace(forcedNamespace), id(forcedId), core(core) {
-    std::filesystem::path fullPath = std::filesystem::absolute(relFilename);
+    std::error_code ec;
+    std::filesystem::path fullPath = std::filesystem::absolute(relFilename, ec);
+    if (ec)
+        throw VSException("Failed to load " + relFilename.u8string() + ". Error given: " + ec.message());
 
 #ifdef VS_TARGET_CPU_X86
     if (loadCPUOptimized) {
@@ -2263,7 +2266,8 @@ VSPlugin::VSPlugin(const std::filesystem::path &relFilename, const std::string &
 
             std::filesystem::path abiLevelPath = std::filesystem::path(fullPath).replace_extension();
             abiLevelPath += newExtension;
-            if (std::filesystem::exists(abiLevelPath)) {
+            std::error_code ec;
+            if (std::filesystem::exists(abiLevelPath, ec)) {
                 fullPath = abiLevelPath;
                 return true;
             }
-- 
2.43.0


From a03be59d99d98acfa2b8b4fb3b821c016382cb17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:34 +0000
Subject: [PATCH 33/57] fix: a plugin manifest consisting only of line breaks
 terminated the process

---
 src/core/vscore.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/vscore.cpp b/src/core/vscore.cpp
index 1abef7e..2cc0ffc 100644
--- a/src/core/vscore.cpp
+++ b/src/core/vscore.cpp
@@ -1871,7 +1871,7 @@ bool VSCore::loadPluginManifest(const std::filesystem::path &path) {
     std::vector<std::string> lines;
 
     size_t lastPos = contents.find_first_not_of("\r\n", 0);
-    size_t pos = contents.find_first_of("\r\n", lastPos + 1);
+    size_t pos = contents.find_first_of("\r\n", lastPos);
     while (pos != std::string::npos) {
         lines.push_back(contents.substr(lastPos, pos - lastPos));
         lastPos = contents.find_first_not_of("\r\n", pos + 1);
-- 
2.43.0


From 4fbef5d2d1342c307047b3a48a83f9ef431aeedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:58 +0000
Subject: [PATCH 34/57] fix: invalid asynchronous requests reached filters as
 error activations with frame numbers out of range

---
 src/core/vsthreadpool.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/core/vsthreadpool.cpp b/src/core/vsthreadpool.cpp
index b648e8c..0c2357e 100644
--- a/src/core/vsthreadpool.cpp
+++ b/src/core/vsthreadpool.cpp
@@ -117,6 +117,17 @@ void VSThreadPool::runTasks(bool &stop) {
             VSFrameContext *frameContext = iter->get();
             VSNode *node = frameContext->key.first;
 
+/////////////////////////////////////////////////////////////////////////////////////////////
+// Invalid external requests are returned without ever entering the filter
+
+            if (frameContext->first && frameContext->hasError()) {
+                PVSFrameContext mainContextRef = std::move(*iter);
+                tasks.erase(iter);
+                returnFrame(frameContext, nullptr, lock);
+                ranTask = true;
+                break;
+            }
+
 /////////////////////////////////////////////////////////////////////////////////////////////
 // Fast path if a frame is cached
 
-- 
2.43.0


From 7c99348e85ce6b0ce06279e09477822e49a91d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:58 +0000
Subject: [PATCH 35/57] fix: Python signatures gave required arguments that
 accept empty arrays a default value

---
 src/cython/vapoursynth.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cython/vapoursynth.pyx b/src/cython/vapoursynth.pyx
index a40f842..d0fbf4a 100644
--- a/src/cython/vapoursynth.pyx
+++ b/src/cython/vapoursynth.pyx
@@ -816,7 +816,7 @@ def _construct_parameter(signature):
     type = _construct_type(signature)
 
     __,*opt = signature.split(":")
-    if opt:
+    if "opt" in opt:
         default_value = None
     else:
         default_value = inspect.Parameter.empty
-- 
2.43.0


From ec3ab4b4be3ba0de637fd07c753733858217c069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:07 +0000
Subject: [PATCH 36/57] fix: SetVideoCache and SetAudioCache terminated the
 process on invalid modes

---
 src/core/internalfilters.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/core/internalfilters.cpp b/src/core/internalfilters.cpp
index 0865032..31ddc8b 100644
--- a/src/core/internalfilters.cpp
+++ b/src/core/internalfilters.cpp
@@ -41,8 +41,14 @@ static void VS_CC setCache(const VSMap *in, VSMap *out, void *userData, VSCore *
     int err;
     VSNode *node = vsapi->mapGetNode(in, "clip", 0, nullptr);
     int mode = vsapi->mapGetIntSaturated(in, "mode", 0, &err);
-    if (!err)
+    if (!err) {
+        if (mode < cmAuto || mode > cmForceEnable) {
+            vsapi->mapSetError(out, (vsapi->getNodeType(node) == mtVideo) ? "SetVideoCache: invalid cache mode specified" : "SetAudioCache: invalid cache mode specified");
+            vsapi->freeNode(node);
+            return;
+        }
         vsapi->setCacheMode(node, mode);
+    }
     int fixedsize = vsapi->mapGetIntSaturated(in, "fixedsize", 0, &err);
     if (err)
         fixedsize = -1;
-- 
2.43.0


From 1f773f593a558d0189b6038f1211ef078f9b6333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:07 +0000
Subject: [PATCH 37/57] fix: mapDeleteKey read the key after deleting it

---
 src/core/vsapi.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/vsapi.cpp b/src/core/vsapi.cpp
index 7aa6d8b..e47e9c1 100644
--- a/src/core/vsapi.cpp
+++ b/src/core/vsapi.cpp
@@ -506,8 +506,9 @@ static const VSFrame *VS_CC mapGetFrame(const VSMap *map, const char *key, int i
 
 static int VS_CC mapDeleteKey(VSMap *map, const char *key) VS_NOEXCEPT {
     assert(map && key);
+    bool remapColorRange = !strcmp(key, "_ColorRange"); // the key may belong to the map and become invalid
     bool result = map->erase(key);
-    if (!strcmp(key, "_ColorRange"))
+    if (remapColorRange)
         result = map->erase("_Range") || result;
     return result;
 }
-- 
2.43.0


From 638e60f67e5d18be67ff36d0e4eb9cabd28ea7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:31 +0000
Subject: [PATCH 38/57] fix: vspipe JSON output of doubles was garbage when
 large or tiny and invalid JSON when not finite

---
 src/vspipe/vsjson.cpp | 6 +++++-
 src/vspipe/vspipe.cpp | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/vspipe/vsjson.cpp b/src/vspipe/vsjson.cpp
index bc06c81..4238959 100644
--- a/src/vspipe/vsjson.cpp
+++ b/src/vspipe/vsjson.cpp
@@ -20,6 +20,7 @@
 
 #include "vsjson.h"
 #include <charconv>
+#include <cmath>
 
 static bool isAsciiPrintable(const std::string &s) {
     for (const auto c : s)
@@ -29,7 +30,10 @@ static bool isAsciiPrintable(const std::string &s) {
 }
 
 static std::string doubleToString(double v) {
-    char buffer[100];
+    // JSON has no representation of infinities and nan
+    if (!std::isfinite(v))
+        return "null";
+    char buffer[512];
     auto res = std::to_chars(buffer, buffer + sizeof(buffer), v, std::chars_format::fixed);
     return std::string(buffer, res.ptr - buffer);
 }
diff --git a/src/vspipe/vspipe.cpp b/src/vspipe/vspipe.cpp
index 5c19fd7..32ab74d 100644
--- a/src/vspipe/vspipe.cpp
+++ b/src/vspipe/vspipe.cpp
@@ -288,7 +288,7 @@ static void outputFrame(const VSFrame *frame, VSPipeOutputData *data) {
 }
 
 static std::string doubleToString(double v) {
-    char buffer[100];
+    char buffer[400];
     auto res = std::to_chars(buffer, buffer + sizeof(buffer), v, std::chars_format::fixed, 20);
     return std::string(buffer, res.ptr - buffer);
 }
-- 
2.43.0


From 196a09265d506e0539a33b6cf0455d122175c8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:31 +0000
Subject: [PATCH 39/57] fix: vspipe JSON output cut off strings at null
 characters

---
 src/vspipe/vsjson.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vspipe/vsjson.cpp b/src/vspipe/vsjson.cpp
index 4238959..29ee007 100644
--- a/src/vspipe/vsjson.cpp
+++ b/src/vspipe/vsjson.cpp
@@ -99,7 +99,7 @@ std::string convertVSMapToJSON(const VSMap *map, const VSAPI *vsapi) {
                     int typeHint = vsapi->mapGetDataTypeHint(map, key, j, nullptr);
                     jsonStr += (j ? ", " : "");
                     if (typeHint == dtUtf8 || (typeHint == dtUnknown && vsapi->mapGetDataSize(map, key, j, nullptr) < 200 && isAsciiPrintable(std::string(vsapi->mapGetData(map, key, j, nullptr), vsapi->mapGetDataSize(map, key, j, nullptr)))))
-                        jsonStr += escapeJSONString(vsapi->mapGetData(map, key, j, nullptr));
+                        jsonStr += escapeJSONString(std::string(vsapi->mapGetData(map, key, j, nullptr), vsapi->mapGetDataSize(map, key, j, nullptr)));
                     else
                         jsonStr += "\"[binary data size: " + std::to_string(vsapi->mapGetDataSize(map, key, j, nullptr)) + "]\"";
                 }
-- 
2.43.0


From 230101a24c098ce947bc603286ff807a12baa87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:31 +0000
Subject: [PATCH 40/57] fix: vspipe JSON output was invalid for frames with
 node, frame or function properties

---
 src/vspipe/vsjson.cpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/vspipe/vsjson.cpp b/src/vspipe/vsjson.cpp
index 29ee007..eb48975 100644
--- a/src/vspipe/vsjson.cpp
+++ b/src/vspipe/vsjson.cpp
@@ -104,6 +104,23 @@ std::string convertVSMapToJSON(const VSMap *map, const VSAPI *vsapi) {
                         jsonStr += "\"[binary data size: " + std::to_string(vsapi->mapGetDataSize(map, key, j, nullptr)) + "]\"";
                 }
                 break;
+            case ptVideoNode:
+            case ptAudioNode:
+                for (int j = 0; j < numElems; j++)
+                    jsonStr += (j ? ", \"[node]\"" : "\"[node]\"");
+                break;
+            case ptVideoFrame:
+            case ptAudioFrame:
+                for (int j = 0; j < numElems; j++)
+                    jsonStr += (j ? ", \"[frame]\"" : "\"[frame]\"");
+                break;
+            case ptFunction:
+                for (int j = 0; j < numElems; j++)
+                    jsonStr += (j ? ", \"[function]\"" : "\"[function]\"");
+                break;
+            default:
+                jsonStr += "null";
+                break;
             }
 
             if (numElems > 1)
-- 
2.43.0


From 2fc8425284848d9f4494b7e1ed2baa20a4dcb7e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:31 +0000
Subject: [PATCH 41/57] fix: vspipe freed a map twice when the requested range
 is invalid

---
 src/vspipe/vspipe.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/vspipe/vspipe.cpp b/src/vspipe/vspipe.cpp
index 32ab74d..220d339 100644
--- a/src/vspipe/vspipe.cpp
+++ b/src/vspipe/vspipe.cpp
@@ -1199,7 +1199,6 @@ int main(int argc, char **argv) {
 
             if (mapError) {
                 fprintf(stderr, "%s\n", vsapi->mapGetError(mapError));
-                vsapi->freeMap(mapError);
                 vsapi->freeMap(result);
                 vsapi->freeMap(alphaResult);
                 vsapi->freeNode(node);
-- 
2.43.0


From 8861818e076054cc3dde84f681609ff9782957a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:31 +0000
Subject: [PATCH 42/57] fix: vspipe silently ignored empty and out of range
 numeric arguments

---
 src/vspipe/vspipe.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vspipe/vspipe.cpp b/src/vspipe/vspipe.cpp
index 220d339..9aa3762 100644
--- a/src/vspipe/vspipe.cpp
+++ b/src/vspipe/vspipe.cpp
@@ -628,12 +628,12 @@ static const char *colorFamilyToString(int colorFamily) {
 
 static bool svToInt64(const std::string_view &s, int64_t &result) {
     auto res = std::from_chars(s.data(), s.data() + s.size(), result);
-    return (res.ptr == s.data() + s.size());
+    return (res.ec == std::errc() && res.ptr == s.data() + s.size());
 }
 
 static bool svToInt(const std::string_view &s, int &result) {
     auto res = std::from_chars(s.data(), s.data() + s.size(), result);
-    return (res.ptr == s.data() + s.size());
+    return (res.ec == std::errc() && res.ptr == s.data() + s.size());
 }
 
 static bool printVersion(const VSAPI *vsapi) {
-- 
2.43.0


From 3e237d2a2b242d3cafad5cbaeed0336e2fa5afd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:47 +0000
Subject: [PATCH 43/57] fix: vspipe reported success when the last buffered
 output could not be written

---
 src/vspipe/vspipe.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/vspipe/vspipe.cpp b/src/vspipe/vspipe.cpp
index 9aa3762..4eeac61 100644
--- a/src/vspipe/vspipe.cpp
+++ b/src/vspipe/vspipe.cpp
@@ -1260,12 +1260,12 @@ int main(int argc, char **argv) {
                 success = !outputNode(opts, data.get(), vssapi->getCore(se));
         }
 
-        if (outFile)
-            fflush(outFile);
-        if (timecodesFile)
-            fflush(timecodesFile);
-        if (jsonFile)
-            fflush(jsonFile);
+        for (FILE *f : { outFile, timecodesFile, jsonFile }) {
+            if (f && fflush(f) && success) {
+                fprintf(stderr, "Error: failed to write buffered output, errno: %d\n", errno);
+                success = false;
+            }
+        }
 
         std::chrono::duration<double> elapsedSeconds = std::chrono::steady_clock::now() - data->startTime;
         if (opts.mode == VSPipeMode::Output) {
-- 
2.43.0


From be080f1d00e8c3cd3ffeb34f11b8db0af98c06e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:28 +0000
Subject: [PATCH 44/57] fix: vspipe wrote invalid graphs for arguments with
 double quotes

---
 src/vspipe/printgraph.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vspipe/printgraph.cpp b/src/vspipe/printgraph.cpp
index eadd0ad..fbbacd9 100644
--- a/src/vspipe/printgraph.cpp
+++ b/src/vspipe/printgraph.cpp
@@ -72,7 +72,7 @@ static std::string replaceAll(const std::string &s, const std::string &from, con
 }
 
 static std::string escapeDotString(const std::string &s) {
-    return replaceAll(replaceAll(replaceAll(replaceAll(s, "\\", "\\\\"), "\r\n", "\\n"), "\r", "\\n"), "\n", "\\n");
+    return replaceAll(replaceAll(replaceAll(replaceAll(replaceAll(s, "\\", "\\\\"), "\"", "\\\""), "\r\n", "\\n"), "\r", "\\n"), "\n", "\\n");
 }
 
 static std::string mangleNode(VSNode *node, const VSAPI *vsapi) {
-- 
2.43.0


From ce5b37ed802c6c7241a9ef5efc30c5d4a1098ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:07 +0000
Subject: [PATCH 45/57] fix: freeScript leaked the environment and core if
 releasing a variable changed the script's variables

---
 src/cython/vapoursynth.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cython/vapoursynth.pyx b/src/cython/vapoursynth.pyx
index d0fbf4a..6ad4eb4 100644
--- a/src/cython/vapoursynth.pyx
+++ b/src/cython/vapoursynth.pyx
@@ -3957,7 +3957,8 @@ cdef public api void vpy4_freeScript(VSScript *se) noexcept nogil:
     with gil:
         if se.pyenvdict:
             pyenvdict = <dict>se.pyenvdict
-            for key in pyenvdict:
+            # Releasing a variable may run code that adds or removes other variables
+            for key in list(pyenvdict):
                 pyenvdict[key] = None
             pyenvdict.clear()
             try:
-- 
2.43.0


From fa55ae587651b2b99e0fb54e6ad92db504ea028e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:07 +0000
Subject: [PATCH 46/57] fix: VSScript set __file__ to a path that was not
 absolute

---
 src/cython/vapoursynth.pyx | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/cython/vapoursynth.pyx b/src/cython/vapoursynth.pyx
index 6ad4eb4..e9ad574 100644
--- a/src/cython/vapoursynth.pyx
+++ b/src/cython/vapoursynth.pyx
@@ -3839,7 +3839,7 @@ cdef void _vpy_replace_pyenvdict(VSScript *se, dict pyenvdict):
         se.pyenvdict = <void*>pyenvdict
 
 
-cdef int _vpy_evaluate(VSScript *se, bytes script, str filename):
+cdef int _vpy_evaluate(VSScript *se, bytes script, str filename, str path):
     try:
         pyenvdict = {}
         if se.pyenvdict:
@@ -3853,7 +3853,7 @@ cdef int _vpy_evaluate(VSScript *se, bytes script, str filename):
             filename = "<string>"
             pyenvdict.pop("__file__", None)
         else:
-            pyenvdict["__file__"] = filename
+            pyenvdict["__file__"] = path
 
         code = compile(script, filename=filename, dont_inherit=True, mode="exec")
 
@@ -3914,15 +3914,16 @@ cdef public api int vpy4_evaluateBuffer(VSScript *se, const char *buffer, const
             if buffer == NULL:
                 raise RuntimeError("NULL buffer passed.")
 
-            fn = None
+            fn = path = None
             if scriptFilename:
                 fn = scriptFilename.decode('utf-8')
+                path = os.path.abspath(fn) # before the working directory changes
 
             if se.setCWD:
                 with __chdir(fn, 1):
-                    return _vpy_evaluate(se, buffer, fn)
+                    return _vpy_evaluate(se, buffer, fn, path)
             else:
-                return _vpy_evaluate(se, buffer, fn)
+                return _vpy_evaluate(se, buffer, fn, path)
 
         except BaseException, e:
             errstr = 'File reading exception:\n' + str(e)
-- 
2.43.0


From fd012dfbe8ebda2b91380a18c3d7982f981352fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:55 +0000
Subject: [PATCH 47/57] fix: VSScript silently ignored everything after a null
 byte in script files

---
 src/cython/vapoursynth.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cython/vapoursynth.pyx b/src/cython/vapoursynth.pyx
index e9ad574..9aa7f0e 100644
--- a/src/cython/vapoursynth.pyx
+++ b/src/cython/vapoursynth.pyx
@@ -3940,6 +3940,8 @@ cdef public api int vpy4_evaluateFile(VSScript *se, const char *scriptFilename)
 
             with open(scriptFilename.decode('utf-8'), 'rb') as f:
                 script = f.read(1024*1024*16)
+            if b'\0' in script:
+                raise ValueError("source code cannot contain null bytes")
             return vpy4_evaluateBuffer(se, script, scriptFilename)
         except BaseException, e:
             errstr = 'File reading exception:\n' + str(e)
-- 
2.43.0


From 14f05e8466d02a83ba0e97a0a48c4a554c85853c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:41 +0000
Subject: [PATCH 48/57] fix: objects of destroyed environments crashed the
 process when used

---
 src/cython/vapoursynth.pyx | 41 ++++++++++++++++++++++++++++++++++++--
 1 file changed, 39 insertions(+), 2 deletions(-)

diff --git a/src/cython/vapoursynth.pyx b/src/cython/vapoursynth.pyx
index 9aa7f0e..1fde332 100644
--- a/src/cython/vapoursynth.pyx
+++ b/src/cython/vapoursynth.pyx
@@ -452,6 +452,8 @@ cdef class EnvironmentPolicyAPI:
 
     def get_core_ptr(self, EnvironmentData environment_data):
         self.ensure_policy_matches()
+        if environment_data.core is None:
+            raise ValueError("The environment has no core.")
         return ctypes.c_void_p(<uintptr_t>environment_data.core.core)
 
     def destroy_environment(self, EnvironmentData env):
@@ -1163,9 +1165,11 @@ cdef void dictToMap(dict ndict, VSMap *inm, VSCore *core, const VSAPI *funcs) ex
                 if funcs.mapSetData(inm, ckey, v, <int>len(v), dtBinary, 1) != 0:
                     raise Error('not all values are of the same type in ' + key)
             elif isinstance(v, RawNode):
+                (<RawNode>v).ensure_valid()
                 if funcs.mapSetNode(inm, ckey, (<RawNode>v).node, 1) != 0:
                     raise Error('not all values are of the same type in ' + key)
             elif isinstance(v, RawFrame):
+                (<RawFrame>v)._ensure_open()
                 if funcs.mapSetFrame(inm, ckey, (<RawFrame>v).constf, 1) != 0:
                     raise Error('not all values are of the same type in ' + key)
             elif isinstance(v, Func):
@@ -1198,9 +1202,11 @@ cdef void typedDictToMap(dict ndict, dict atypes, VSMap *inm, VSCore *core, cons
 
         for v in val:
             if (atypes[key][:5] == 'vnode' and isinstance(v, VideoNode)) or (atypes[key][:5] == 'anode' and isinstance(v, AudioNode)):
+                (<RawNode>v).ensure_valid()
                 if funcs.mapSetNode(inm, ckey, (<RawNode>v).node, 1) != 0:
                     raise Error('not all values are of the same type in ' + key)
             elif ((atypes[key][:6] == 'vframe') and isinstance(v, VideoFrame)) or (atypes[key][:6] == 'aframe' and isinstance(v, AudioFrame)):
+                (<RawFrame>v)._ensure_open()
                 if funcs.mapSetFrame(inm, ckey, (<RawFrame>v).constf, 1) != 0:
                     raise Error('not all values are of the same type in ' + key)
             elif atypes[key][:4] == 'func' and isinstance(v, Func):
@@ -1430,9 +1436,11 @@ cdef class FrameProps(object):
         try:
             for v in val:
                 if isinstance(v, RawNode):
+                    (<RawNode>v).ensure_valid()
                     if funcs.mapSetNode(m, b, (<RawNode>v).node, 1) != 0:
                         raise Error('Not all values are of the same type')
                 elif isinstance(v, RawFrame):
+                    (<RawFrame>v)._ensure_open()
                     if funcs.mapSetFrame(m, b, (<RawFrame>v).constf, 1) != 0:
                         raise Error('Not all values are of the same type')
                 elif isinstance(v, Func):
@@ -2285,24 +2293,29 @@ cdef class RawNode(object):
 
     @property
     def node_name(self):
+        self.ensure_valid()
         return self.funcs.getNodeName(self.node).decode("utf-8")
 
     @property
     def timings(self):
+        self.ensure_valid()
         return self.funcs.getNodeProcessingTime(self.node, False)
 
     @timings.setter
     def timings(self, bint value):
         if value != 0:
             raise ValueError("You can only set timings to 0, to reset its counter!")
+        self.ensure_valid()
         self.funcs.getNodeProcessingTime(self.node, True)
 
     @property
     def mode(self):
+        self.ensure_valid()
         return FilterMode(self.funcs.getNodeFilterMode(self.node))
 
     @property
     def dependencies(self):
+        self.ensure_valid()
         return tuple(
             createNode(self.funcs.addNodeRef(self.funcs.getNodeDependency(self.node, idx).source), self.funcs, self.core)
             for idx in range(self.funcs.getNumNodeDependencies(self.node))
@@ -2437,6 +2450,7 @@ cdef class VideoNode(RawNode):
     def set_output(self, int index = 0, VideoNode alpha = None, int alt_output = 0):
         self.ensure_valid()
         if alpha is not None:
+            alpha.ensure_valid()
             if (self.vi.width != alpha.vi.width) or (self.vi.height != alpha.vi.height):
                 raise Error('Alpha clip dimensions must match the main video')
             if (self.num_frames != alpha.num_frames):
@@ -2879,6 +2893,7 @@ cdef class AudioNode(RawNode):
             fileobj.flush()
 
     def set_output(self, int index = 0):
+        self.ensure_valid()
         _get_output_dict("set_output")[index] = self
 
     @property
@@ -3041,20 +3056,24 @@ cdef class CoreTimings(object):
 
     @property
     def enabled(self):
+        self.core.ensure_valid()
         return bool(self.core.funcs.getCoreNodeTiming(self.core.core))
 
     @enabled.setter
     def enabled(self, bint enabled):
+        self.core.ensure_valid()
         self.core.funcs.setCoreNodeTiming(self.core.core, enabled)
 
     @property
     def freed_nodes(self):
+        self.core.ensure_valid()
         return self.core.funcs.getFreedNodeProcessingTime(self.core.core, False)
 
     @freed_nodes.setter
     def freed_nodes(self, bint value):
         if value != 0:
             raise ValueError("You can only set freed_nodes to 0, to reset its counter!")
+        self.core.ensure_valid()
         self.core.funcs.getFreedNodeProcessingTime(self.core.core, True)
 
     def __repr__(self):
@@ -3152,19 +3171,23 @@ cdef class Core(object):
             raise AttributeError('No attribute with the name ' + name + ' exists. Did you mistype a plugin namespace or forget to install a plugin?')
 
     def plugins(self):
+        self.ensure_valid()
         cdef VSPlugin *plugin = self.funcs.getNextPlugin(NULL, self.core)
         while plugin:
             tmp = createPlugin(plugin, self.funcs, self)
-            plugin = self.funcs.getNextPlugin(plugin, self.core)
             yield tmp
+            self.ensure_valid()
+            plugin = self.funcs.getNextPlugin(plugin, self.core)
 
     def query_video_format(self, int color_family, int sample_type, int bits_per_sample, int subsampling_w = 0, int subsampling_h = 0):
+        self.ensure_valid()
         cdef VSVideoFormat fmt
         if not self.funcs.queryVideoFormat(&fmt, color_family, sample_type, bits_per_sample, subsampling_w, subsampling_h, self.core):
             raise Error('Invalid format specified')
         return createVideoFormat(&fmt, self.funcs, self.core)
 
     def get_video_format(self, uint32_t id):
+        self.ensure_valid()
         cdef VSVideoFormat fmt
         if not self.funcs.getVideoFormatByID(&fmt, id, self.core):
             raise Error('Invalid format id specified')
@@ -3172,6 +3195,7 @@ cdef class Core(object):
             return createVideoFormat(&fmt, self.funcs, self.core)
 
     def create_video_frame(self, int format, int width, int height):
+        self.ensure_valid()
         cdef VSVideoFormat fmt
         if not self.funcs.getVideoFormatByID(&fmt, format, self.core):
             raise Error('Invalid format id specified')
@@ -3183,6 +3207,7 @@ cdef class Core(object):
         return createVideoFrame(ref, self.funcs, self.core)
 
     def log_message(self, int message_type, str message):
+        self.ensure_valid()
         # released gil, the log api dispatches to handlers that acquire the gil so calling in
         # while holding it can deadlock against a thread mid message delivery
         cdef bytes message_bytes = message.encode('utf-8')
@@ -3191,6 +3216,7 @@ cdef class Core(object):
             self.funcs.logMessage(message_type, message_cstr, self.core)
 
     def add_log_handler(self, handler_func):
+        self.ensure_valid()
         handler_func(mtDebug, 'New message handler installed from python')
         cdef LogHandle lh = createLogHandle(handler_func)
         Py_INCREF(lh)
@@ -3202,6 +3228,7 @@ cdef class Core(object):
         return lh
 
     def remove_log_handler(self, LogHandle handle):
+        self.ensure_valid()
         cdef VSLogHandle *h = handle.handle
         cdef bint result
         # the address of a removed handler can be reused by one added later
@@ -3214,10 +3241,12 @@ cdef class Core(object):
         return result
 
     def clear_cache(self):
+        self.ensure_valid()
         self.funcs.clearCoreCaches(self.core)
 
     @property
     def core_version(self):
+        self.ensure_valid()
         cdef VSCoreInfo2 v
         self.funcs.getCoreInfo2(self.core, &v)
 
@@ -3225,6 +3254,7 @@ cdef class Core(object):
 
     @property
     def api_version(self):
+        self.ensure_valid()
         cdef VSCoreInfo2 v
         self.funcs.getCoreInfo2(self.core, &v)
 
@@ -3255,6 +3285,7 @@ cdef class Core(object):
         )
 
     def __str__(self):
+        self.ensure_valid()
         cdef VSCoreInfo2 v
         self.funcs.getCoreInfo2(self.core, &v)
 
@@ -3399,6 +3430,7 @@ cdef class Plugin(object):
         raise Error('Class cannot be instantiated directly')
 
     def __getattr__(self, name):
+        self.core.ensure_valid()
         tname = name.encode('utf-8')
         cdef const char *cname = tname
         cdef VSPluginFunction *func = self.funcs.getPluginFunctionByName(cname, self.plugin)
@@ -3409,14 +3441,17 @@ cdef class Plugin(object):
             raise AttributeError('There is no function named ' + name)
 
     def functions(self):
+        self.core.ensure_valid()
         cdef VSPluginFunction *func = self.funcs.getNextPluginFunction(NULL, self.plugin)
         while func:
             tmp = createFunction(func, self, self.funcs)
-            func = self.funcs.getNextPluginFunction(func, self.plugin)
             yield tmp
+            self.core.ensure_valid()
+            func = self.funcs.getNextPluginFunction(func, self.plugin)
 
     @property
     def version(self):
+        self.core.ensure_valid()
         ver = <int>self.funcs.getPluginVersion(self.plugin)
 
         ver_major = (ver >> 16)
@@ -3426,6 +3461,7 @@ cdef class Plugin(object):
 
     @property
     def plugin_path(self):
+        self.core.ensure_valid()
         cdef const char *ppath = self.funcs.getPluginPath(self.plugin)
         if ppath:
             return ppath.decode('utf-8')
@@ -3507,6 +3543,7 @@ cdef class Function(object):
         cdef VSMap *inm
         cdef VSMap *outm
         cdef char *cname
+        self.plugin.core.ensure_valid()
         arglist = list(args)
         if self.plugin.injected_arg is not None:
             arglist.insert(0, self.plugin.injected_arg)
-- 
2.43.0


From ea0aed858a0a97e7d114080839d331a7f2705454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:41 +0000
Subject: [PATCH 49/57] fix: passing a callable to a function object crashed
 the process

---
 src/cython/vapoursynth.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cython/vapoursynth.pyx b/src/cython/vapoursynth.pyx
index 1fde332..a979475 100644
--- a/src/cython/vapoursynth.pyx
+++ b/src/cython/vapoursynth.pyx
@@ -981,6 +981,8 @@ cdef Func createFuncPython(object func, VSCore *core, const VSAPI *funcs):
     cdef EnvironmentData env = _env_current()
     if env is None:
         raise Error('Internal environment id not set. Did the environment die?')
+    if core == NULL:
+        core = vsscript_get_core_internal(env).core
     fdata = createFuncData(func, core, env)
 
     Py_INCREF(fdata)
-- 
2.43.0


From 362b67e6eede12d4c0abf6e0258efed56a39c006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:58 +0000
Subject: [PATCH 50/57] fix: Expr crashed the process on integer powers with
 huge exponents

---
 src/core/expr/expr.cpp | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/core/expr/expr.cpp b/src/core/expr/expr.cpp
index 600f000..27601a1 100644
--- a/src/core/expr/expr.cpp
+++ b/src/core/expr/expr.cpp
@@ -474,6 +474,9 @@ void applyValueNumbering(ExpressionTree &tree)
     });
 }
 
+// Every step of an expanded power is a separate node.
+constexpr float maxExpandedExponent = 4096.0f;
+
 ExpressionTreeNode *emitIntegerPow(ExpressionTree &tree, const ExpressionTreeNode &node, int exponent)
 {
     if (exponent == 1)
@@ -1342,7 +1345,28 @@ bool applyStrengthReduction(ExpressionTree &tree)
         //
         // This step is required, or else the canonical expressions generated by the algebraic pass will evaluate incorrectly
         // when processed by the inexact pow() functions used in JIT, e.g. negative bases are unsupported!
-        if (node.op == ExprOpType::POW && isConstant(*node.right) && isInteger(node.right->op.imm.f) && node.right->op.imm.f > 0) {
+        //
+        // Exponents that are too large to expand only have the sign of the base separated.
+        if (node.op == ExprOpType::POW && isConstant(*node.right) && isInteger(node.right->op.imm.f) && node.right->op.imm.f > maxExpandedExponent) {
+            if (node.left->op != ExprOpType::ABS) {
+                bool odd = std::fmod(node.right->op.imm.f, 2.0f) == 1.0f;
+                ExpressionTreeNode *base = node.left;
+                ExpressionTreeNode *absNode = tree.makeNode(ExprOpType::ABS);
+                absNode->setLeft(base);
+                node.setLeft(absNode);
+
+                if (odd) {
+                    // x ** N = x * abs(x) ** (N - 1)
+                    ExpressionTreeNode *dup = tree.clone(&node);
+                    dup->right->op.imm.f -= 1.0f;
+                    ExpressionTreeNode *sign = tree.clone(base);
+                    replaceNode(node, ExpressionTreeNode{ ExprOpType::MUL });
+                    node.setLeft(sign);
+                    node.setRight(dup);
+                }
+                changed = true;
+            }
+        } else if (node.op == ExprOpType::POW && isConstant(*node.right) && isInteger(node.right->op.imm.f) && node.right->op.imm.f > 0) {
             ExpressionTreeNode *replacement = emitIntegerPow(tree, *node.left, static_cast<int>(node.right->op.imm.f));
             replaceNode(node, *replacement);
             changed = true;
-- 
2.43.0


From b956a3aea2976c5539c158a8609d4ab8de249599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:50 +0000
Subject: [PATCH 51/57] fix: destroying an environment crashed the process when
 frames had been requested while it wasn't current

---
 src/cython/vapoursynth.pyx | 106 ++++++++++++++++++++++++-------------
 1 file changed, 69 insertions(+), 37 deletions(-)

diff --git a/src/cython/vapoursynth.pyx b/src/cython/vapoursynth.pyx
index a979475..f908a53 100644
--- a/src/cython/vapoursynth.pyx
+++ b/src/cython/vapoursynth.pyx
@@ -443,6 +443,7 @@ cdef class EnvironmentPolicyAPI:
         return env
 
     def set_logger(self, env, logger):
+        vsscript_get_core_internal(env)
         Py_INCREF(logger)
         _set_logger(env, _logCb, _logFree, <void *>logger)
 
@@ -461,9 +462,7 @@ cdef class EnvironmentPolicyAPI:
         if not env.alive:
             return
 
-        futs = env.active_futures
-        env.active_futures = None
-        wait_futures(futs)
+        _wait_for_requests(env)
 
         callbacks = env.on_destroy
         env.on_destroy = None
@@ -479,6 +478,10 @@ cdef class EnvironmentPolicyAPI:
                     else:
                         sys.stderr.write(formatted)
 
+        # The callbacks may have requested more frames
+        _wait_for_requests(env)
+        env.active_futures = None
+
         # Invalidate all remaining nodes and frames from this environment
         for node in list(env.known_nodes):
             if not isinstance(node, RawNode):
@@ -505,6 +508,7 @@ cdef class EnvironmentPolicyAPI:
         cdef Core c = env.core
         if c is not None:
             if c.core:
+                _core_environments.pop(<uintptr_t>c.core, None)
                 if c.funcs:
                     with nogil:
                         c.funcs.freeCore(c.core)
@@ -601,6 +605,32 @@ cdef clear_policy(delay=False):
 cdef EnvironmentData _env_current():
     return get_policy().get_current_environment()
 
+# Maps the core pointers to the environments that own them.
+cdef object _core_environments = weakref.WeakValueDictionary()
+
+# Objects always belong to the environment that owns their core, another environment or none at all
+# can be the current one when they're created.
+cdef EnvironmentData _env_of_core(VSCore *core):
+    env = _core_environments.get(<uintptr_t>core)
+    return env if env is not None else _env_current()
+
+# Environment teardown waits for all requests of its own nodes and all requests made while it was current.
+cdef _track_request(EnvironmentData owner, EnvironmentData env, object fut):
+    if owner is not None:
+        if owner.active_futures is None:
+            raise Error("Frame requested from an environment that has been destroyed.")
+        owner.active_futures.add(fut)
+    if env is not None and env is not owner and env.active_futures is not None:
+        env.active_futures.add(fut)
+
+cdef _wait_for_requests(EnvironmentData env):
+    # finished requests may have started new ones
+    while True:
+        futs = [fut for fut in env.active_futures if not fut.done()]
+        if not futs:
+            return
+        wait_futures(futs)
+
 
 # Make sure the policy is cleared at exit.
 atexit.register(lambda: clear_policy(delay=True))
@@ -1016,12 +1046,13 @@ cdef class CallbackData(object):
         # just the future returning form
         self.fut = Future()
         self.fut.set_running_or_notify_cancel()
-        if env is not None and env.active_futures is not None:
-            env.active_futures.add(self.fut)
 
 
 cdef createCallbackData(const VSAPI* funcs, RawNode node, object cb):
-    cbd = CallbackData(node, _env_current(), cb)
+    owner = _env_of_core(node.core.core)
+    env = _env_current()
+    cbd = CallbackData(node, env if env is not None else owner, cb)
+    _track_request(owner, env, cbd.fut)
     cbd.funcs = funcs
     return cbd
 
@@ -1797,7 +1828,7 @@ cdef class VideoFrame(RawFrame):
 cdef VideoFrame createConstVideoFrame(const VSFrame *constf, const VSAPI *funcs, VSCore *core):
     cdef:
         VideoFrame instance = VideoFrame.__new__(VideoFrame)
-        EnvironmentData env = _env_current()
+        EnvironmentData env = _env_of_core(core)
     instance.constf = constf
     instance.f = NULL
     instance.funcs = funcs
@@ -1814,7 +1845,7 @@ cdef VideoFrame createConstVideoFrame(const VSFrame *constf, const VSAPI *funcs,
 cdef VideoFrame createVideoFrame(VSFrame *f, const VSAPI *funcs, VSCore *core):
     cdef:
         VideoFrame instance = VideoFrame.__new__(VideoFrame)
-        EnvironmentData env = _env_current()
+        EnvironmentData env = _env_of_core(core)
     instance.constf = f
     instance.f = f
     instance.funcs = funcs
@@ -2007,7 +2038,7 @@ cdef AudioFrame createConstAudioFrame(const VSFrame *constf, const VSAPI *funcs,
     cdef:
         AudioFrame instance = AudioFrame.__new__(AudioFrame)
         const VSAudioFormat *format = funcs.getAudioFrameFormat(constf)
-        EnvironmentData env = _env_current()
+        EnvironmentData env = _env_of_core(core)
     instance.constf = constf
     instance.f = NULL
     instance.funcs = funcs
@@ -2027,7 +2058,7 @@ cdef AudioFrame createAudioFrame(VSFrame *f, const VSAPI *funcs, VSCore *core):
     cdef:
         AudioFrame instance = AudioFrame.__new__(AudioFrame)
         const VSAudioFormat *format = funcs.getAudioFrameFormat(f)
-        EnvironmentData env = _env_current()
+        EnvironmentData env = _env_of_core(core)
     instance.constf = f
     instance.f = f
     instance.funcs = funcs
@@ -2431,23 +2462,22 @@ cdef class VideoNode(RawNode):
         # tracked so environment teardown can wait for blocking requests as well
         fut = Future()
         fut.set_running_or_notify_cancel()
-        if env is not None and env.active_futures is not None:
-            env.active_futures.add(fut)
+        _track_request(_env_of_core(self.core.core), env, fut)
         try:
             with nogil:
                 f = self.funcs.getFrame(n, self.node, errorMsg, 4096)
-        finally:
-            fut.set_result(None)
 
-        if f == NULL:
-            if (errorMsg[0]):
-                msg_str = ep.decode('utf-8', 'replace')
-                py_exc = env.retrieve_exception(msg_str) if env is not None else None
-                raise py_exc or Error(msg_str)
+            if f == NULL:
+                if (errorMsg[0]):
+                    msg_str = ep.decode('utf-8', 'replace')
+                    py_exc = env.retrieve_exception(msg_str) if env is not None else None
+                    raise py_exc or Error(msg_str)
+                else:
+                    raise Error('Internal error - no error given')
             else:
-                raise Error('Internal error - no error given')
-        else:
-            return createConstVideoFrame(f, self.funcs, self.core.core)
+                return createConstVideoFrame(f, self.funcs, self.core.core)
+        finally:
+            fut.set_result(None)
 
     def set_output(self, int index = 0, VideoNode alpha = None, int alt_output = 0):
         self.ensure_valid()
@@ -2701,7 +2731,7 @@ cdef class VideoNode(RawNode):
 cdef VideoNode createVideoNode(VSNode *node, const VSAPI *funcs, Core core):
     cdef:
         VideoNode instance = VideoNode.__new__(VideoNode)
-        EnvironmentData env = _env_current()
+        EnvironmentData env = _env_of_core(core.core)
     instance.core = core
     instance.node = node
     instance.funcs = funcs
@@ -2766,23 +2796,22 @@ cdef class AudioNode(RawNode):
         # tracked so environment teardown can wait for blocking requests as well
         fut = Future()
         fut.set_running_or_notify_cancel()
-        if env is not None and env.active_futures is not None:
-            env.active_futures.add(fut)
+        _track_request(_env_of_core(self.core.core), env, fut)
         try:
             with nogil:
                 f = self.funcs.getFrame(n, self.node, errorMsg, 4096)
-        finally:
-            fut.set_result(None)
 
-        if f == NULL:
-            if (errorMsg[0]):
-                msg_str = ep.decode('utf-8', 'replace')
-                py_exc = env.retrieve_exception(msg_str) if env is not None else None
-                raise py_exc or Error(msg_str)
+            if f == NULL:
+                if (errorMsg[0]):
+                    msg_str = ep.decode('utf-8', 'replace')
+                    py_exc = env.retrieve_exception(msg_str) if env is not None else None
+                    raise py_exc or Error(msg_str)
+                else:
+                    raise Error('Internal error - no error given')
             else:
-                raise Error('Internal error - no error given')
-        else:
-            return createConstAudioFrame(f, self.funcs, self.core.core)
+                return createConstAudioFrame(f, self.funcs, self.core.core)
+        finally:
+            fut.set_result(None)
 
     def output(self, object fileobj not None, bint wav = False, bint w64 = False, object progress_update = None, int prefetch = 0, int backlog = -1):
         self.ensure_valid()
@@ -3006,7 +3035,7 @@ cdef class AudioNode(RawNode):
 cdef AudioNode createAudioNode(VSNode *node, const VSAPI *funcs, Core core):
     cdef:
         AudioNode instance = AudioNode.__new__(AudioNode)
-        EnvironmentData env = _env_current()
+        EnvironmentData env = _env_of_core(core.core)
 
     instance.core = core
     instance.node = node
@@ -3350,8 +3379,11 @@ cdef Core _get_core(threads = None):
     return vsscript_get_core_internal(env)
 
 cdef Core vsscript_get_core_internal(EnvironmentData env):
+    if not env.alive:
+        raise Error('The environment has been destroyed.')
     if env.core is None:
         env.core = createCore(env)
+        _core_environments[<uintptr_t>env.core.core] = env
     return env.core
 
 cdef class _CoreProxy(object):
@@ -3811,6 +3843,7 @@ cdef class VSScriptEnvironmentPolicy:
 
         if se and se.core:
             env.core = createCore2(se.core)
+            _core_environments[<uintptr_t>env.core.core] = env
             se.core = NULL # unset the core to indicate it's been used
 
         self._env_map[script_id] = env
@@ -4010,7 +4043,6 @@ cdef public api void vpy4_freeScript(VSScript *se) noexcept nogil:
                 env = _get_vsscript_policy().get_environment(se.id)
                 if env is not None:
                     env.outputs.clear()
-                    env.core = None
             except:
                 pass
 
-- 
2.43.0


From 8a106d492feb5f2fa9ac53e0df0f01c817a5f748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:18 +0000
Subject: [PATCH 52/57] fix: get_core_ptr returned an invalid pointer for
 environments without a core

---
 src/cython/vapoursynth.pyx | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/cython/vapoursynth.pyx b/src/cython/vapoursynth.pyx
index f908a53..b38879d 100644
--- a/src/cython/vapoursynth.pyx
+++ b/src/cython/vapoursynth.pyx
@@ -453,9 +453,7 @@ cdef class EnvironmentPolicyAPI:
 
     def get_core_ptr(self, EnvironmentData environment_data):
         self.ensure_policy_matches()
-        if environment_data.core is None:
-            raise ValueError("The environment has no core.")
-        return ctypes.c_void_p(<uintptr_t>environment_data.core.core)
+        return ctypes.c_void_p(<uintptr_t>vsscript_get_core_internal(environment_data).core)
 
     def destroy_environment(self, EnvironmentData env):
         self.ensure_policy_matches()
-- 
2.43.0


From c200cf1f41df4e8a454640cbaefd4e9933a41246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:18 +0000
Subject: [PATCH 53/57] fix: comparing environments with other objects raised
 AttributeError

---
 src/cython/vapoursynth.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cython/vapoursynth.pyx b/src/cython/vapoursynth.pyx
index b38879d..c1ade95 100644
--- a/src/cython/vapoursynth.pyx
+++ b/src/cython/vapoursynth.pyx
@@ -729,6 +729,8 @@ cdef class Environment(object):
         return ctx
 
     def __eq__(self, other):
+        if not isinstance(other, Environment):
+            return NotImplemented
         return other.env_id == self.env_id
 
     def __repr__(self):
-- 
2.43.0


From 4dba4fbfa5790059dc66e0b2b118c7730f3ad72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:18 +0000
Subject: [PATCH 54/57] fix: unregister_policy failed if a destruction callback
 created an environment

---
 src/cython/vapoursynth.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cython/vapoursynth.pyx b/src/cython/vapoursynth.pyx
index c1ade95..2229dca 100644
--- a/src/cython/vapoursynth.pyx
+++ b/src/cython/vapoursynth.pyx
@@ -527,7 +527,7 @@ cdef class EnvironmentPolicyAPI:
 
     def unregister_policy(self):
         self.ensure_policy_matches()
-        for environment in self._known_environments.values():
+        for environment in list(self._known_environments.values()):
             self.destroy_environment(environment)
         clear_policy(delay=False)
 
-- 
2.43.0


From 627359391c933dee3fd18b28f7dd603513b6a1f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:56 +0000
Subject: [PATCH 55/57] fix: vspipe could finish and free its state while the
 last frame was still being written

---
 src/vspipe/vspipe.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/vspipe/vspipe.cpp b/src/vspipe/vspipe.cpp
index 4eeac61..fc6f58a 100644
--- a/src/vspipe/vspipe.cpp
+++ b/src/vspipe/vspipe.cpp
@@ -140,6 +140,7 @@ struct VSPipeOutputData {
     std::string errorMessage;
 
     /* Only used to keep the main thread waiting during processing */
+    bool done = false;
     std::condition_variable condition;
     std::mutex mutex;
 
@@ -432,6 +433,7 @@ static void VS_CC frameDoneCallback(void *userData, const VSFrame *f, int n, VSN
 
     if (data->totalFrames == data->completedFrames && data->totalFrames == data->completedAlphaFrames) {
         std::lock_guard<std::mutex> lock(data->mutex);
+        data->done = true;
         data->condition.notify_one();
     }
 }
@@ -604,7 +606,8 @@ static bool outputNode(const VSPipeOptions &opts, VSPipeOutputData *data, VSCore
             data->vsapi->getFrameAsync(n, data->alphaNode, frameDoneCallback, data);
     }
 
-    data->condition.wait(lock, [&]() { return data->totalFrames == data->completedFrames && data->totalFrames == data->completedAlphaFrames; });
+    // The frame counters are updated before a frame has been written so they can't be used to determine if all output is done
+    data->condition.wait(lock, [&]() { return data->done; });
 
     if (data->outputError) {
         for (auto &iter : data->reorderMap) {
-- 
2.43.0


From bb616b14e264c54e592d738f110e18fb14ea32d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:56 +0000
Subject: [PATCH 56/57] fix: frame requests made inside a filter call
 deadlocked when the memory limit was exceeded

---
 src/core/vscore.h         |  1 +
 src/core/vsthreadpool.cpp | 11 ++++++++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/core/vscore.h b/src/core/vscore.h
index f006060..663732f 100644
--- a/src/core/vscore.h
+++ b/src/core/vscore.h
@@ -597,6 +597,7 @@ private:
     bool external;
     bool lockOnOutput;
     bool reserveThread;
+    bool reserveProcessing = false;
 
     /// internal return only
     SemiStaticVector<PVSFrameContext, NUM_FRAMECONTEXT_FAST_REQS> notifyCtxList;
diff --git a/src/core/vsthreadpool.cpp b/src/core/vsthreadpool.cpp
index 0c2357e..66544e6 100644
--- a/src/core/vsthreadpool.cpp
+++ b/src/core/vsthreadpool.cpp
@@ -453,8 +453,14 @@ void VSThreadPool::startExternal(const PVSFrameContext &context) {
     std::lock_guard<std::mutex> l(taskLock);
     context->reqOrder = ++reqCounter;
     context->reserveThread = context->reserveThread && (allThreads.count(std::this_thread::get_id()) > 0);
-    if (context->reserveThread)
+    if (context->reserveThread) {
         --activeThreads;
+        // A thread that waits for a frame inside a filter call won't finish that call before the frame is done, don't let
+        // admission control hold back the tasks needed to produce it until then
+        context->reserveProcessing = (core->currentProcessingNode != nullptr);
+        if (context->reserveProcessing)
+            processingThreads.fetch_sub(1, std::memory_order_relaxed);
+    }
     assert(context);
     // A reserveThread request comes from a pool thread that immediately blocks waiting for this exact
     // frame. Parking it in altTasks during a flush would deadlock: the blocked thread never becomes idle,
@@ -474,6 +480,9 @@ void VSThreadPool::returnFrame(VSFrameContext *rCtx, const PVSFrame &f, std::uni
     completedExternalFrames.fetch_add(1, std::memory_order_relaxed);
     bool outputLock = rCtx->lockOnOutput;
     bool reserveThread = rCtx->reserveThread;
+    // has to be restored before the waiting thread can continue
+    if (rCtx->reserveProcessing)
+        processingThreads.fetch_add(1, std::memory_order_relaxed);
     // we need to unlock here so the callback may request more frames without causing a deadlock
     // AND so that slow callbacks will only block operations in this thread, not all the others
     lock.unlock();
-- 
2.43.0


From 6504f85b0cb3c8d4f01dc3cc16a29de86023b632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:14 +0000
Subject: [PATCH 57/57] fix: API 3 filters could not return clips with variable
 format

---
 src/core/vscore.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/vscore.cpp b/src/core/vscore.cpp
index 2cc0ffc..e071606 100644
--- a/src/core/vscore.cpp
+++ b/src/core/vscore.cpp
@@ -727,7 +727,8 @@ VSNode::VSNode(const VSMap *in, VSMap *out, const std::string &name, vs3::VSFilt
         throw VSException(vs_internal_vsapi.mapGetError(out));
     }
 
-    if (vi.format.colorFamily == 0) {
+    // setVideoInfo3() always sets the flags, a clip with variable format legitimately has no format pointer
+    if (vi.format.colorFamily == 0 && (v3vi.format || !v3vi.flags)) {
         throw VSException("Filter " + name + " didn't set videoinfo");
     }
 
-- 
2.43.0

