From 73566fb5ccd64be89f34c6593d2775c1d3532c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:37 +0000
Subject: [PATCH 001/136] fix: cvi: the first average belongs to the lag window
 too (period 1 read it before it was written)

---
 indicators/cvi.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/indicators/cvi.cc b/indicators/cvi.cc
index 2327a0a..30588dd 100644
--- a/indicators/cvi.cc
+++ b/indicators/cvi.cc
@@ -31,6 +31,7 @@ int ti_cvi(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
     ti_buffer *lag = ti_buffer_new(period);
 
     TI_REAL val = high[0]-low[0];
+    ti_buffer_qpush(lag, val);
 
     int i;
     for (i = 1; i < period*2-1; ++i) {
-- 
2.43.0


From d0eb3e1b7d10e78bd13d8d56e47f589b1aae0b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:37 +0000
Subject: [PATCH 002/136] fix: vidya: do not read past a series of
 long_period-1 bars

---
 indicators/vidya.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/indicators/vidya.cc b/indicators/vidya.cc
index 4c89e29..7dfb104 100644
--- a/indicators/vidya.cc
+++ b/indicators/vidya.cc
@@ -40,7 +40,7 @@ int ti_vidya(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_
     TI_REAL long_sum2 = 0;
 
     int i;
-    for (i = 0; i < long_period; ++i) {
+    for (i = 0; i < long_period && i < size; ++i) {
         long_sum += input[i];
         long_sum2 += input[i] * input[i];
 
-- 
2.43.0


From db4b1ccd0337be64ccf7a35b7d1a136bc46535a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:37 +0000
Subject: [PATCH 003/136] fix: hma: the half window of period 1 is one bar, not
 zero

---
 indicators/hma.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/indicators/hma.cc b/indicators/hma.cc
index ea30265..50bda63 100644
--- a/indicators/hma.cc
+++ b/indicators/hma.cc
@@ -29,7 +29,7 @@ int ti_hma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
     /* HMA(input, N) = WMA((2 * WMA(input, N/2) - WMA(input, N)), sqrt(N)) */
     /* Need to do three WMAs, with periods N, N/2, and sqrt N.*/
 
-    const int period2 = (int)(period / 2);
+    const int period2 = period > 1 ? (int)(period / 2) : 1;
     const int periodsqrt = (int)(sqrt(period));
 
     const TI_REAL weights = period * (period+1) / 2;
-- 
2.43.0


From 5d68429fa7fd03e1b2bd114f419a0789241de32d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:37 +0000
Subject: [PATCH 004/136] fix: zlema: periods below 3 have no lag; do not start
 before the first bar

---
 indicators/zlema.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/indicators/zlema.cc b/indicators/zlema.cc
index e1926b7..6c9a3c2 100644
--- a/indicators/zlema.cc
+++ b/indicators/zlema.cc
@@ -9,7 +9,8 @@
 
 
 int ti_zlema_start(TI_REAL const *options) {
-    return ((int)options[0] - 1) / 2 - 1;
+    const int lag = ((int)options[0] - 1) / 2;
+    return lag > 0 ? lag - 1 : 0;
 }
 
 
@@ -26,11 +27,11 @@ int ti_zlema(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_
 
     const TI_REAL per = 2 / ((TI_REAL)period + 1);
 
-    TI_REAL val = input[lag-1];
+    TI_REAL val = input[lag > 0 ? lag-1 : 0];
     *output++ = val;
 
     int i;
-    for (i = lag; i < size; ++i) {
+    for (i = lag > 0 ? lag : 1; i < size; ++i) {
         TI_REAL c = input[i];
         TI_REAL l = input[i-lag];
 
-- 
2.43.0


From 7633702a6ac5582c7340b8a103bb370e006e5bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:37 +0000
Subject: [PATCH 005/136] fix: dpo: periods 1 and 2 look further back than
 their window

---
 indicators/dpo.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/indicators/dpo.cc b/indicators/dpo.cc
index abc51f2..761f632 100644
--- a/indicators/dpo.cc
+++ b/indicators/dpo.cc
@@ -9,7 +9,9 @@
 
 
 int ti_dpo_start(TI_REAL const *options) {
-    return (int)options[0]-1;
+    const int period = (int)options[0];
+    const int back = period / 2 + 1;
+    return back > period-1 ? back : period-1;
 }
 
 
@@ -32,12 +34,12 @@ int ti_dpo(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
         sum += input[i];
     }
 
-    *output++ = input[period-1-back] - (sum * scale);
+    if (period-1 >= back) *output++ = input[period-1-back] - (sum * scale);
 
     for (i = period; i < size; ++i) {
         sum += input[i];
         sum -= input[i-period];
-        *output++ = input[i-back] - (sum * scale);
+        if (i >= back) *output++ = input[i-back] - (sum * scale);
     }
 
     assert(output - outputs[0] == size - ti_dpo_start(options));
-- 
2.43.0


From c4fdbfa57a71935936368f2ad13b680d01ab2419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:37 +0000
Subject: [PATCH 006/136] fix: pvt: a bar without volume must not drop the
 history; guard short series in the reference

---
 indicators/pvt.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/indicators/pvt.cc b/indicators/pvt.cc
index cd78758..e74a7ea 100644
--- a/indicators/pvt.cc
+++ b/indicators/pvt.cc
@@ -24,10 +24,10 @@ int ti_pvt(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
 
     int i = 1;
     for (; i < 2 && i < size; ++i) {
-        *pvt++ = volume[i] && volume[i-1] ? volume[i] * (close[i] - close[i-1]) / close[i-1] + volume[i-1] : 0;
+        *pvt++ = volume[i] * (close[i] - close[i-1]) / close[i-1] + volume[i-1];
     }
     for (; i < size; i++) {
-        *pvt = volume[i] && volume[i-1] ? *(pvt - 1) + volume[i] * (close[i] - close[i-1]) / close[i-1] : 0;
+        *pvt = *(pvt - 1) + volume[i] * (close[i] - close[i-1]) / close[i-1];
         pvt++;
     }
 
@@ -40,6 +40,8 @@ DONTOPTIMIZE int ti_pvt_ref(int size, TI_REAL const *const *inputs, TI_REAL cons
     
     TI_REAL *pvt = outputs[0];
 
+    if (size <= ti_pvt_start(options)) { return TI_OKAY; }
+
     *pvt++ = volume[1] * (close[1] - close[0]) / close[0] + volume[0];
     for (int i = 2; i < size; i++) {
         *pvt = *(pvt - 1) + volume[i] * (close[i] - close[i - 1]) / close[i - 1];
@@ -94,7 +96,7 @@ int ti_pvt_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs,
     } 
  
     if (progress == 0 && index < size) {
-        last_pvt = volume[index] && starting ? volume[index] * (close[index] - last_close) / last_close + starting : 0;
+        last_pvt = volume[index] * (close[index] - last_close) / last_close + starting;
         last_close = close[index];
 
         *pvt++ = last_pvt;
@@ -104,7 +106,7 @@ int ti_pvt_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs,
     }
 
     for (; index < size; index++) {
-        last_pvt += volume[index] && last_pvt ? volume[index] * (close[index] - last_close) / last_close : 0;
+        last_pvt += volume[index] * (close[index] - last_close) / last_close;
         last_close = close[index];
 
         *pvt++ = last_pvt;
-- 
2.43.0


From 567b1db3d070af5919f03239ed2171d28c3aece9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:17 +0000
Subject: [PATCH 007/136] fix: lma_ref: return before sizing buffers for a
 series shorter than the window; whole-bar window

---
 indicators/lma.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/indicators/lma.cc b/indicators/lma.cc
index 899d200..a741bc7 100644
--- a/indicators/lma.cc
+++ b/indicators/lma.cc
@@ -55,10 +55,11 @@ int ti_lma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
 
 DONTOPTIMIZE int ti_lma_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
     TI_REAL const *const series = inputs[0];
-    const TI_REAL period = options[0];
+    const int period = options[0];
     TI_REAL *lma = outputs[0];
 
     if (period < 1) { return TI_INVALID_OPTION; }
+    if (size <= ti_lma_start(options)) { return TI_OKAY; }
 
     std::vector<TI_REAL> wma_price(size-period+1);
     std::vector<TI_REAL> sma_price(size-period+1);
@@ -66,9 +67,9 @@ DONTOPTIMIZE int ti_lma_ref(int size, TI_REAL const *const *inputs, TI_REAL cons
     TI_REAL* arr[1];
  
     arr[0] = wma_price.data();
-    ti_wma(size, &series, &period, arr);
+    ti_wma(size, &series, options, arr);
     arr[0] = sma_price.data();
-    ti_sma(size, &series, &period, arr);
+    ti_sma(size, &series, options, arr);
 
     for (int i = 0; i < size-period+1; ++i) {
         lma[i] = 2*wma_price[i] - sma_price[i];
-- 
2.43.0


From dd692344f86b3e2f2d72a62ff6343c571cbe9c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:17 +0000
Subject: [PATCH 008/136] fix: dwma_ref: return before sizing the buffer for a
 series shorter than the window; whole-bar window

---
 indicators/dwma.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/indicators/dwma.cc b/indicators/dwma.cc
index 14dc5df..494b90f 100644
--- a/indicators/dwma.cc
+++ b/indicators/dwma.cc
@@ -77,10 +77,11 @@ int ti_dwma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_R
 DONTOPTIMIZE
 int ti_dwma_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
     TI_REAL const *const series = inputs[0];
-    const TI_REAL period = options[0];
+    const int period = options[0];
     TI_REAL *dwma = outputs[0];
 
     if (period < 1) { return TI_INVALID_OPTION; }
+    if (size <= ti_dwma_start(options)) { return TI_OKAY; }
 
     std::vector<TI_REAL> smooth1(size-period+1);
     TI_REAL *arr[1] = {smooth1.data()};
-- 
2.43.0


From 2fb14f3afb63226eed2de547a5c4fddd14780641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:17 +0000
Subject: [PATCH 009/136] fix: vwap_ref: write nothing for a series shorter
 than the window

---
 indicators/vwap.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/indicators/vwap.cc b/indicators/vwap.cc
index 1f4eed7..000b870 100644
--- a/indicators/vwap.cc
+++ b/indicators/vwap.cc
@@ -58,6 +58,7 @@ int ti_vwap_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options,
     TI_REAL *vwap = outputs[0];
 
     if (period < 1) { return TI_INVALID_OPTION; }
+    if (size <= ti_vwap_start(options)) { return TI_OKAY; }
 
     int outsize = size - ti_typprice_start(&period);
     TI_REAL *typprice = (TI_REAL*)malloc(sizeof(TI_REAL) * outsize);
-- 
2.43.0


From f7a72cae92e7696f4b748b9311153382581a97f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:17 +0000
Subject: [PATCH 010/136] fix: copp_ref: a series of exactly start bars has no
 output; guard each rate of change by its own price

---
 indicators/copp.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/indicators/copp.cc b/indicators/copp.cc
index 8c46749..85b7eb3 100644
--- a/indicators/copp.cc
+++ b/indicators/copp.cc
@@ -84,7 +84,7 @@ int ti_copp_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options,
         if (options[i] < 1) { return TI_INVALID_OPTION; }
     }
     if (roc_longer_period < roc_shorter_period) { return TI_INVALID_OPTION; }
-    if (size < ti_copp_start(options)) { return TI_OKAY; }
+    if (size <= ti_copp_start(options)) { return TI_OKAY; }
 
     // wma of (roc1 + roc2) / 2 * 100
 
-- 
2.43.0


From a83ed7f9a84ab19b96c427184be39850d0fbbdda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:17 +0000
Subject: [PATCH 011/136] fix: rmi_ref: return before sizing buffers for a
 series shorter than the lookback

---
 indicators/rmi.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/indicators/rmi.cc b/indicators/rmi.cc
index 33c4671..28d3179 100644
--- a/indicators/rmi.cc
+++ b/indicators/rmi.cc
@@ -61,6 +61,8 @@ int ti_rmi_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, T
     if (lookback_period < 1) { return TI_INVALID_OPTION; }
 
     int start = ti_rmi_start(options);
+    if (size <= start) { return TI_OKAY; }
+
     TI_REAL *gains = (TI_REAL*)malloc(sizeof(TI_REAL) * (size-start));
     TI_REAL *losses = (TI_REAL*)malloc(sizeof(TI_REAL) * (size-start));
 
-- 
2.43.0


From 02621b02efc426b38911b16de04fa79aaf76c12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:17 +0000
Subject: [PATCH 012/136] fix: smi_ref: return before sizing buffers for a
 series shorter than the window

---
 indicators/smi.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/indicators/smi.cc b/indicators/smi.cc
index 8f65e5b..4beb2cf 100644
--- a/indicators/smi.cc
+++ b/indicators/smi.cc
@@ -129,6 +129,8 @@ int ti_smi_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, T
 
     for (int i = 0; i < 3; ++i) { if (options[i] < 1) { return TI_INVALID_OPTION; } }
 
+    if (size <= ti_smi_start(options)) { return TI_OKAY; }
+
     int outsize = size - ti_max_start(&q_period);
 
     TI_REAL *max = (TI_REAL*)malloc(sizeof(TI_REAL) * outsize);
-- 
2.43.0


From b65f14f4d12f4d1e73043316888a22b9ce108de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:17 +0000
Subject: [PATCH 013/136] fix: posc_ref: validate options and return early for
 a series shorter than the window, like posc

---
 indicators/posc.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/indicators/posc.cc b/indicators/posc.cc
index ce6c559..4c811d5 100644
--- a/indicators/posc.cc
+++ b/indicators/posc.cc
@@ -98,6 +98,10 @@ int ti_posc_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options,
     const TI_REAL ema_period = options[1];
     TI_REAL *posc = outputs[0];
 
+    if (period < 1) { return TI_INVALID_OPTION; }
+    if (ema_period < 1) { return TI_INVALID_OPTION; }
+    if (size <= ti_posc_start(options)) { return TI_OKAY; }
+
     int start = ti_linregslope_start(options);
     TI_REAL *b = (TI_REAL*)malloc(sizeof(TI_REAL) * (size - start));
 
-- 
2.43.0


From 1bd9d090c42eed6691512861e3a47831caa96ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:46 +0000
Subject: [PATCH 014/136] fix: copp: a zero price drops only the rate of change
 it is the base of, as in the reference

---
 indicators/copp.cc | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/indicators/copp.cc b/indicators/copp.cc
index 85b7eb3..8152ef2 100644
--- a/indicators/copp.cc
+++ b/indicators/copp.cc
@@ -46,9 +46,8 @@ int ti_copp(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_R
     for (; i < roc_longer_period + wma_period-1; ++i, step(price, rocs)) {
         price = series[i];
 
-        rocs = price[roc_shorter_period] && price[roc_longer_period]
-            ? ((price / price[roc_shorter_period] - 1) + (price / price[roc_longer_period] - 1)) / 2. * 100.
-            : 0.;
+        rocs = ((price[roc_shorter_period] ? price / price[roc_shorter_period] - 1 : 0.)
+            + (price[roc_longer_period] ? price / price[roc_longer_period] - 1 : 0.)) / 2. * 100.;
 
         flat_rocs_sum += rocs;
         weighted_rocs_sum += rocs * (i + 1 - roc_longer_period);
@@ -56,9 +55,8 @@ int ti_copp(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_R
     for (; i < size; ++i, step(price, rocs)) {
         price = series[i];
 
-        rocs = price[roc_shorter_period] && price[roc_longer_period]
-            ? ((price / price[roc_shorter_period] - 1) + (price / price[roc_longer_period] - 1)) / 2. * 100.
-            : 0.;
+        rocs = ((price[roc_shorter_period] ? price / price[roc_shorter_period] - 1 : 0.)
+            + (price[roc_longer_period] ? price / price[roc_longer_period] - 1 : 0.)) / 2. * 100.;
 
         weighted_rocs_sum += rocs * wma_period;
         flat_rocs_sum += rocs;
@@ -203,9 +201,8 @@ int ti_copp_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs
     for (; i < size && progress < -START + roc_longer_period + wma_period-1; ++i, ++progress, step(price, rocs)) {
         price = series[i];
 
-        rocs = price[roc_shorter_period] && price[roc_longer_period]
-            ? ((price / price[roc_shorter_period] - 1) + (price / price[roc_longer_period] - 1)) / 2. * 100.
-            : 0.;
+        rocs = ((price[roc_shorter_period] ? price / price[roc_shorter_period] - 1 : 0.)
+            + (price[roc_longer_period] ? price / price[roc_longer_period] - 1 : 0.)) / 2. * 100.;
 
         flat_rocs_sum += rocs;
         weighted_rocs_sum += rocs * (progress + 1 - (-START + roc_longer_period));
@@ -213,9 +210,8 @@ int ti_copp_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs
     for (; i < size; ++i, ++progress, step(price, rocs)) {
         price = series[i];
 
-        rocs = price[roc_shorter_period] && price[roc_longer_period]
-            ? ((price / price[roc_shorter_period] - 1) + (price / price[roc_longer_period] - 1)) / 2. * 100.
-            : 0.;
+        rocs = ((price[roc_shorter_period] ? price / price[roc_shorter_period] - 1 : 0.)
+            + (price[roc_longer_period] ? price / price[roc_longer_period] - 1 : 0.)) / 2. * 100.;
 
         weighted_rocs_sum += rocs * wma_period;
         flat_rocs_sum += rocs;
-- 
2.43.0


From 8fa493fd8ba8819c2219d884f45a6cad6b95bcfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:45 +0000
Subject: [PATCH 015/136] fix: mhlma: with ma_period 1 the first bar already
 has an output

---
 indicators/mhlma.cc | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/indicators/mhlma.cc b/indicators/mhlma.cc
index 38957b8..1ea233d 100644
--- a/indicators/mhlma.cc
+++ b/indicators/mhlma.cc
@@ -49,6 +49,13 @@ int ti_mhlma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_
 
         sum += mhl;
         ema = mhl;
+
+        if (ma_period == 1) {
+            *mhlsma++ = sum;
+            *mhlema++ = ema;
+
+            sum -= mhl;
+        }
     }
     for (; i < period && i < ma_period-1 && i < size; ++i, step(mhl)) {
         if (hh <= series[i]) {
@@ -234,6 +241,13 @@ int ti_mhlma_stream_run(ti_stream *stream, int size, TI_REAL const *const *input
 
         sum += mhl;
         ema = mhl;
+
+        if (ma_period == 1) {
+            *mhlsma++ = sum;
+            *mhlema++ = ema;
+
+            sum -= mhl;
+        }
     }
     for (; progress < -ma_period+1 + period && progress < 0 && i < size; ++i, ++progress, step(mhl, price)) {
         price = series[i];
-- 
2.43.0


From 9e380fd5363a2bedf6377f9d4ca9f929dfb90cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:45 +0000
Subject: [PATCH 016/136] fix: ce: with period 1 the first bar already has an
 output

---
 indicators/ce.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/indicators/ce.cc b/indicators/ce.cc
index b4ef418..415e73b 100644
--- a/indicators/ce.cc
+++ b/indicators/ce.cc
@@ -50,6 +50,11 @@ int ti_ce(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REA
         min = low[i];
         max_idx = 0;
         min_idx = 0;
+
+        if (period == 1) {
+            *ce_high++ = max - coef * atr;
+            *ce_low++ = min + coef * atr;
+        }
     }
     for (; i < period-1 && i < size; ++i) {
         const TI_REAL truerange = std::max(high[i], close[i-1]) - std::min(low[i], close[i-1]);
@@ -243,6 +248,11 @@ int ti_ce_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs,
         max_idx = progress;
         min_idx = progress;
 
+        if (period == 1) {
+            *ce_high++ = max - coef * atr;
+            *ce_low++ = min + coef * atr;
+        }
+
         prev_close = close[i];
     }
     for (i; progress < 0 && i < size; ++i, ++progress, step(price_high, price_low)) {
-- 
2.43.0


From d856d2bc35e1b52be6ce3ca6a35ff2f7e47fea73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:45 +0000
Subject: [PATCH 017/136] fix: cmi: with period 1 the first bar already has an
 output; cmi_ref must not size a buffer below zero

---
 indicators/cmi.cc | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/indicators/cmi.cc b/indicators/cmi.cc
index 7dadbea..496f416 100644
--- a/indicators/cmi.cc
+++ b/indicators/cmi.cc
@@ -44,6 +44,12 @@ int ti_cmi(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
         ll = tr;
         hh_idx = 0;
         ll_idx = 0;
+
+        if (period == 1) {
+            *cmi++ = log((hh - ll) / sum) / log(period) * 100;
+
+            sum -= tr;
+        }
     }
     for (; i < period-1 && i < size; ++i, step(tr)) {
         tr = std::max(high[i], close[i-1]) - std::min(low[i], close[i-1]);
@@ -94,6 +100,8 @@ DONTOPTIMIZE int ti_cmi_ref(int size, TI_REAL const *const *inputs, TI_REAL cons
 
     if (period < 1) { return TI_INVALID_OPTION; }
 
+    if (size <= ti_cmi_start(options)) { return TI_OKAY; }
+
     TI_REAL *tr = new TI_REAL[size];
     TI_REAL *sum = new TI_REAL[size-(int)period+1];
 
@@ -186,6 +194,12 @@ int ti_cmi_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs,
         ll = tr;
         hh_idx = progress;
         ll_idx = progress;
+
+        if (period == 1) {
+            *cmi++ = log((hh - ll) / sum) / log(period) * 100;
+
+            sum -= tr;
+        }
     }
     for (; progress < 0 && i < size; ++i, ++progress, step(tr, price_close)) {
         price_close = close[i];
-- 
2.43.0


From 09d88dde88b983198438d84634287aa095bbdd36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:45 +0000
Subject: [PATCH 018/136] fix: smi: with q_period 1 the first bar already has
 an output

---
 indicators/smi.cc | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/indicators/smi.cc b/indicators/smi.cc
index 4beb2cf..c6405a5 100644
--- a/indicators/smi.cc
+++ b/indicators/smi.cc
@@ -34,8 +34,8 @@ int ti_smi(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
     TI_REAL ema_s_num;
     TI_REAL ema_r_den;
     TI_REAL ema_s_den;
-    TI_REAL ll;
-    TI_REAL hh;
+    TI_REAL ll = std::numeric_limits<TI_REAL>::infinity();
+    TI_REAL hh = -std::numeric_limits<TI_REAL>::infinity();
     int hh_idx;
     int ll_idx;
 
@@ -43,12 +43,6 @@ int ti_smi(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
 
     int i = 0;
 
-    for (; i < size && progress == -q_period + 1; ++i, ++progress) {
-        hh = high[i];
-        hh_idx = progress;
-        ll = low[i];
-        ll_idx = progress;
-    }
     for (; i < size && progress < 0; ++i, ++progress) {
         if (hh <= high[i]) {
             hh = high[i];
-- 
2.43.0


From 3fc33fe45eeb5c77c2a2b6b67b0eaa5c47407601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:45 +0000
Subject: [PATCH 019/136] fix: evwma_ref: sum volumes as reals, not as int

---
 indicators/evwma.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/indicators/evwma.cc b/indicators/evwma.cc
index d676696..af8a9c4 100644
--- a/indicators/evwma.cc
+++ b/indicators/evwma.cc
@@ -71,7 +71,7 @@ DONTOPTIMIZE int ti_evwma_ref(int size, TI_REAL const *const *inputs, TI_REAL co
         *evwma++ = filt;
     }
     for (; i < size; ++i) {
-        const TI_REAL N = std::accumulate(volume + i - period + 1, volume + i + 1, 0);
+        const TI_REAL N = std::accumulate(volume + i - period + 1, volume + i + 1, (TI_REAL)0);
 
         filt = filt * (1 - volume[i] / (gamma * N)) + volume[i] / (gamma * N) * close[i];
 
-- 
2.43.0


From 7a6d0a92450fabc60cdcab8bd9f1e7926abd8101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:18 +0000
Subject: [PATCH 020/136] fix: ehma_ref: ti_ema truncates the half and
 square-root windows; smooth with the real ones as ehma does

---
 indicators/ehma.cc | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/indicators/ehma.cc b/indicators/ehma.cc
index 72634dd..2c092db 100644
--- a/indicators/ehma.cc
+++ b/indicators/ehma.cc
@@ -68,19 +68,21 @@ DONTOPTIMIZE int ti_ehma_ref(int size, TI_REAL const *const *inputs, TI_REAL con
     TI_REAL n = period;
     TI_REAL n05 = sqrt(period);
 
-    TI_REAL* arr_[1];
+    // ti_ema takes integral windows only
+    auto ema = [size](TI_REAL const *in, TI_REAL window, TI_REAL *out) {
+        for (int i = 0; i < size; ++i) {
+            out[i] = i ? (in[i] - out[i-1]) * 2. / (window + 1.) + out[i-1] : in[i];
+        }
+    };
 
-    arr_[0] = ema_n2.data();
-    ti_ema(size, &series, &n2, arr_);
-    arr_[0] = ema_n.data();
-    ti_ema(size, &series, &n, arr_);
+    ema(series, n2, ema_n2.data());
+    ema(series, n, ema_n.data());
 
     for (int i = 0; i < size; ++i) {
         subtr[i] = 2. * ema_n2[i] - ema_n[i];
     }
 
-    arr_[0] = subtr.data();
-    ti_ema(size, arr_, &n05, outputs);
+    ema(subtr.data(), n05, outputs[0]);
 
     return TI_OKAY;
 }
-- 
2.43.0


From 19961aba8e10660e7b8cb3f7fd61dd2ff4b8f93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:18 +0000
Subject: [PATCH 021/136] fix: ce: the stream constructor reports a failed
 allocation instead of throwing

---
 indicators/ce.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/indicators/ce.cc b/indicators/ce.cc
index 415e73b..2466bbc 100644
--- a/indicators/ce.cc
+++ b/indicators/ce.cc
@@ -182,7 +182,7 @@ int ti_ce_stream_new(TI_REAL const *options, ti_stream **stream) {
     const TI_REAL coef = options[1];
 
     if (period < 1) { return TI_INVALID_OPTION; }
-    ti_ce_stream *ptr = new ti_ce_stream();
+    ti_ce_stream *ptr = new(std::nothrow) ti_ce_stream();
     if (!ptr) { return TI_OUT_OF_MEMORY; }
     *stream = ptr;
 
-- 
2.43.0


From 0fa4dab4bb34bd674da2d846bbd5d520e9ad2e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:18 +0000
Subject: [PATCH 022/136] fix: copp: the stream constructor reports a failed
 allocation instead of throwing

---
 indicators/copp.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/indicators/copp.cc b/indicators/copp.cc
index 8152ef2..2cddb5a 100644
--- a/indicators/copp.cc
+++ b/indicators/copp.cc
@@ -144,7 +144,7 @@ int ti_copp_stream_new(TI_REAL const *options, ti_stream **stream) {
     }
     if (roc_longer_period < roc_shorter_period) { return TI_INVALID_OPTION; }
 
-    ti_copp_stream *ptr = new ti_copp_stream();
+    ti_copp_stream *ptr = new(std::nothrow) ti_copp_stream();
     if (!ptr) { return TI_OUT_OF_MEMORY; }
 
     *stream = ptr;
-- 
2.43.0


From 96e774f8ec999e7cc8755cc560b286ddb0f79f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:18 +0000
Subject: [PATCH 023/136] fix: kc: the stream constructor reports a failed
 allocation instead of throwing

---
 indicators/kc.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/indicators/kc.cc b/indicators/kc.cc
index b9c1cc1..5cc755a 100644
--- a/indicators/kc.cc
+++ b/indicators/kc.cc
@@ -93,7 +93,7 @@ int ti_kc_stream_new(TI_REAL const *options, ti_stream **stream) {
     if (period < 0) { return TI_INVALID_OPTION; }
     if (multiple < 0) { return TI_INVALID_OPTION; }
 
-    ti_kc_stream *ptr = new ti_kc_stream();
+    ti_kc_stream *ptr = new(std::nothrow) ti_kc_stream();
     if (!ptr) { return TI_OUT_OF_MEMORY; }
     *stream = ptr;
 
-- 
2.43.0


From 4f042efd8eaadfd792a33b3dabb3a182f9074211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:18 +0000
Subject: [PATCH 024/136] fix: pbands: the stream constructor reports a failed
 allocation instead of throwing

---
 indicators/pbands.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/indicators/pbands.cc b/indicators/pbands.cc
index 9571533..74fae50 100644
--- a/indicators/pbands.cc
+++ b/indicators/pbands.cc
@@ -132,7 +132,7 @@ int ti_pbands_stream_new(TI_REAL const *options, ti_stream **stream) {
     const TI_REAL period = options[0];
     if (period < 1) { return TI_INVALID_OPTION; }
 
-    ti_pbands_stream *ptr = new ti_pbands_stream();
+    ti_pbands_stream *ptr = new(std::nothrow) ti_pbands_stream();
     if (!ptr) { return TI_OUT_OF_MEMORY; }
     *stream = ptr;
 
-- 
2.43.0


From 1480176d47ef45c32f1313c20e49c42ec00f5e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:18 +0000
Subject: [PATCH 025/136] fix: posc: the stream constructor reports a failed
 allocation instead of throwing

---
 indicators/posc.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/indicators/posc.cc b/indicators/posc.cc
index 4c811d5..769eb6b 100644
--- a/indicators/posc.cc
+++ b/indicators/posc.cc
@@ -159,7 +159,7 @@ int ti_posc_stream_new(TI_REAL const *options, ti_stream **stream) {
     if (period < 1) { return TI_INVALID_OPTION; }
     if (ema_period < 1) { return TI_INVALID_OPTION; }
 
-    ti_posc_stream *ptr = new ti_posc_stream();
+    ti_posc_stream *ptr = new(std::nothrow) ti_posc_stream();
     if (!ptr) { return TI_OUT_OF_MEMORY; }
     *stream = ptr;
 
-- 
2.43.0


From 2d46c01fd103a620b173d924c8cdc38d50773931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:18 +0000
Subject: [PATCH 026/136] fix: rvi: the stream constructor reports a failed
 allocation instead of throwing

---
 indicators/rvi.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/indicators/rvi.cc b/indicators/rvi.cc
index 3e745b5..d8fa70d 100644
--- a/indicators/rvi.cc
+++ b/indicators/rvi.cc
@@ -91,7 +91,7 @@ int ti_rvi_stream_new(TI_REAL const *options, ti_stream **stream) {
     if (ema_period < 1) { return TI_INVALID_OPTION; }
     if (stddev_period < 1) { return TI_INVALID_OPTION; }
 
-    ti_rvi_stream *ptr = new ti_rvi_stream();
+    ti_rvi_stream *ptr = new(std::nothrow) ti_rvi_stream();
     if (!ptr) { return TI_OUT_OF_MEMORY; }
     *stream = ptr;
 
-- 
2.43.0


From ce6274f2a6123adc6b2dcfa230db5c759448593c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:18 +0000
Subject: [PATCH 027/136] fix: smi: the stream constructor reports a failed
 allocation instead of throwing

---
 indicators/smi.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/indicators/smi.cc b/indicators/smi.cc
index c6405a5..daecd41 100644
--- a/indicators/smi.cc
+++ b/indicators/smi.cc
@@ -192,7 +192,7 @@ int ti_smi_stream_new(TI_REAL const *options, ti_stream **stream) {
 
     for (int i = 0; i < 3; ++i) { if (options[i] < 1) { return TI_INVALID_OPTION; } }
 
-    ti_smi_stream *ptr = new ti_smi_stream;
+    ti_smi_stream *ptr = new(std::nothrow) ti_smi_stream();
     if (!ptr) { return TI_OUT_OF_MEMORY; }
     *stream = ptr;
 
-- 
2.43.0


From d2cfdf6ca1caadc7a645d8eb82f9e81ff460fda0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:18 +0000
Subject: [PATCH 028/136] fix: cmi: delete the stream by its own type, so that
 its buffers are released

---
 indicators/cmi.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/indicators/cmi.cc b/indicators/cmi.cc
index 496f416..4eed615 100644
--- a/indicators/cmi.cc
+++ b/indicators/cmi.cc
@@ -164,7 +164,7 @@ int ti_cmi_stream_new(TI_REAL const *options, ti_stream **stream) {
 }
 
 void ti_cmi_stream_free(ti_stream *stream) {
-    delete stream;
+    delete static_cast<ti_cmi_stream*>(stream);
 }
 
 int ti_cmi_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs, TI_REAL *const *outputs) {
-- 
2.43.0


From d9770a608cd8249de0ed30b78b5268b4a1234d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:06 +0000
Subject: [PATCH 029/136] fix: ahma: the stream constructor reports a failed
 buffer allocation instead of throwing

---
 indicators/ahma.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/indicators/ahma.cc b/indicators/ahma.cc
index 23ae23a..be34bf3 100644
--- a/indicators/ahma.cc
+++ b/indicators/ahma.cc
@@ -80,7 +80,12 @@ int ti_ahma_stream_new(TI_REAL const *options, ti_stream **stream) {
 
     ptr->options.period = period;
 
-    ptr->state.filt.resize(period+1);
+    try {
+        ptr->state.filt.resize(period+1);
+    } catch (std::bad_alloc& e) {
+        delete ptr;
+        return TI_OUT_OF_MEMORY;
+    }
 
     return TI_OKAY;
 }
-- 
2.43.0


From e16a26d8e46e0b47cea0ad475598f24cc9583766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:06 +0000
Subject: [PATCH 030/136] fix: arsi: the stream constructor reports a failed
 buffer allocation instead of throwing

---
 indicators/arsi.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/indicators/arsi.cc b/indicators/arsi.cc
index b329f98..f16b9ef 100644
--- a/indicators/arsi.cc
+++ b/indicators/arsi.cc
@@ -175,7 +175,12 @@ int ti_arsi_stream_new(TI_REAL const *options, ti_stream **stream) {
 
     ptr->options.cycpart = cycpart;
 
-    ptr->state.Price.resize(cycpart * 50 + 1);
+    try {
+        ptr->state.Price.resize(cycpart * 50 + 1);
+    } catch (std::bad_alloc& e) {
+        delete ptr;
+        return TI_OUT_OF_MEMORY;
+    }
 
     return TI_OKAY;
 }
-- 
2.43.0


From 8f78d6202ab101915d5ca48412fcf5cc9268097a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:06 +0000
Subject: [PATCH 031/136] fix: cmi: the stream constructor reports a failed
 buffer allocation instead of throwing

---
 indicators/cmi.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/indicators/cmi.cc b/indicators/cmi.cc
index 4eed615..c9fa0b6 100644
--- a/indicators/cmi.cc
+++ b/indicators/cmi.cc
@@ -157,8 +157,13 @@ int ti_cmi_stream_new(TI_REAL const *options, ti_stream **stream) {
 
     ptr->options.period = period;
 
-    ptr->state.tr.resize(period);
-    ptr->state.price_close.resize(2);
+    try {
+        ptr->state.tr.resize(period);
+        ptr->state.price_close.resize(2);
+    } catch (std::bad_alloc& e) {
+        delete ptr;
+        return TI_OUT_OF_MEMORY;
+    }
 
     return TI_OKAY;
 }
-- 
2.43.0


From bbe9285413e71d354dd36da4d1bfb33839d8b7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:06 +0000
Subject: [PATCH 032/136] fix: edcf: the stream constructor reports a failed
 buffer allocation instead of throwing

---
 indicators/edcf.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/indicators/edcf.cc b/indicators/edcf.cc
index a269e2a..ef75af6 100644
--- a/indicators/edcf.cc
+++ b/indicators/edcf.cc
@@ -94,8 +94,13 @@ int ti_edcf_stream_new(TI_REAL const *options, ti_stream **stream) {
 
     ptr->options.length = length;
 
-    ptr->state.coef.resize(2*length);
-    ptr->state.distance2.resize(2*length);
+    try {
+        ptr->state.coef.resize(2*length);
+        ptr->state.distance2.resize(2*length);
+    } catch (std::bad_alloc& e) {
+        delete ptr;
+        return TI_OUT_OF_MEMORY;
+    }
 
     return TI_OKAY;
 }
-- 
2.43.0


From b855637786d3d4143df773ca5dfbf56fe8e138af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:06 +0000
Subject: [PATCH 033/136] fix: emsd: the stream constructor reports a failed
 buffer allocation instead of throwing

---
 indicators/emsd.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/indicators/emsd.cc b/indicators/emsd.cc
index 1b9cc41..9600e07 100644
--- a/indicators/emsd.cc
+++ b/indicators/emsd.cc
@@ -143,7 +143,12 @@ int ti_emsd_stream_new(TI_REAL const *options, ti_stream **stream) {
     ptr->options.period = period;
     ptr->options.ma_period = ma_period;
 
-    ptr->state.price.resize(period);
+    try {
+        ptr->state.price.resize(period);
+    } catch (std::bad_alloc& e) {
+        delete ptr;
+        return TI_OUT_OF_MEMORY;
+    }
 
     ptr->constants.period_reciprocal = 1. / period;
     ptr->constants.ma_period_plus1_reciprocal = 1. / (ma_period + 1.);
-- 
2.43.0


From ee66cb1a70e83d89b638e58375ecdfe9eb1769d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:06 +0000
Subject: [PATCH 034/136] fix: er: the stream constructor reports a failed
 buffer allocation instead of throwing

---
 indicators/er.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/indicators/er.cc b/indicators/er.cc
index 4000814..ba48074 100644
--- a/indicators/er.cc
+++ b/indicators/er.cc
@@ -93,7 +93,12 @@ int ti_er_stream_new(TI_REAL const *options, ti_stream **stream) {
 
     ptr->options.period = period;
 
-    ptr->state.price.resize(period+1);
+    try {
+        ptr->state.price.resize(period+1);
+    } catch (std::bad_alloc& e) {
+        delete ptr;
+        return TI_OUT_OF_MEMORY;
+    }
 
     return TI_OKAY;
 }
-- 
2.43.0


From eaadff7a17b96464bb08f089cc16e10af13e2d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:06 +0000
Subject: [PATCH 035/136] fix: hf: the stream constructor reports a failed
 buffer allocation instead of throwing

---
 indicators/hf.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/indicators/hf.cc b/indicators/hf.cc
index 624b418..a014e5d 100644
--- a/indicators/hf.cc
+++ b/indicators/hf.cc
@@ -132,8 +132,13 @@ int ti_hf_stream_new(TI_REAL const *options, ti_stream **stream) {
     ptr->options.k = k;
     ptr->options.threshold = threshold;
 
-    ptr->state.price.resize(2*k+1);
-    ptr->state.absbuf.resize(2*k+1);
+    try {
+        ptr->state.price.resize(2*k+1);
+        ptr->state.absbuf.resize(2*k+1);
+    } catch (std::bad_alloc& e) {
+        delete ptr;
+        return TI_OUT_OF_MEMORY;
+    }
 
     return TI_OKAY;
 }
-- 
2.43.0


From 0e7a7eb3d7327882dc545272efaee8f4d6b841c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:06 +0000
Subject: [PATCH 036/136] fix: mhlma: the stream constructor reports a failed
 buffer allocation instead of throwing

---
 indicators/mhlma.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/indicators/mhlma.cc b/indicators/mhlma.cc
index 1ea233d..548662c 100644
--- a/indicators/mhlma.cc
+++ b/indicators/mhlma.cc
@@ -200,8 +200,13 @@ int ti_mhlma_stream_new(TI_REAL const *options, ti_stream **stream) {
     ptr->options.period = period;
     ptr->options.ma_period = ma_period;
 
-    ptr->state.mhl.resize(ma_period);
-    ptr->state.price.resize(period);
+    try {
+        ptr->state.mhl.resize(ma_period);
+        ptr->state.price.resize(period);
+    } catch (std::bad_alloc& e) {
+        delete ptr;
+        return TI_OUT_OF_MEMORY;
+    }
 
     return TI_OKAY;
 }
-- 
2.43.0


From fc1b17840a73e0a8347d2fc0e94171aed715e78a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:06 +0000
Subject: [PATCH 037/136] fix: shmma: the stream constructor reports a failed
 buffer allocation instead of throwing

---
 indicators/shmma.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/indicators/shmma.cc b/indicators/shmma.cc
index cc721de..973e720 100644
--- a/indicators/shmma.cc
+++ b/indicators/shmma.cc
@@ -101,7 +101,12 @@ int ti_shmma_stream_new(TI_REAL const *options, ti_stream **stream) {
 
     ptr->options.period = period;
 
-    ptr->state.price.resize(period);
+    try {
+        ptr->state.price.resize(period);
+    } catch (std::bad_alloc& e) {
+        delete ptr;
+        return TI_OUT_OF_MEMORY;
+    }
 
     return TI_OKAY;
 }
-- 
2.43.0


From 235d6ee2e76bab95ce939b806c2a47965ae454c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:06 +0000
Subject: [PATCH 038/136] fix: evwma: the stream constructor releases the
 stream when its buffer cannot be allocated

---
 indicators/evwma.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/indicators/evwma.cc b/indicators/evwma.cc
index af8a9c4..eaa802a 100644
--- a/indicators/evwma.cc
+++ b/indicators/evwma.cc
@@ -119,6 +119,7 @@ int ti_evwma_stream_new(TI_REAL const *options, ti_stream **stream) {
     try {
         ptr->state.volume.resize(period+1);
     } catch (std::bad_alloc& e) {
+        delete ptr;
         return TI_OUT_OF_MEMORY;
     }
 
-- 
2.43.0


From f077b00613387ea9612497681e0fc55ada8f12e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:06 +0000
Subject: [PATCH 039/136] fix: pwma: the stream constructor releases the stream
 when its buffer cannot be allocated

---
 indicators/pwma.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/indicators/pwma.cc b/indicators/pwma.cc
index e65dded..1f1b333 100644
--- a/indicators/pwma.cc
+++ b/indicators/pwma.cc
@@ -103,6 +103,7 @@ int ti_pwma_stream_new(TI_REAL const *options, ti_stream **stream) {
     try {
         ptr->state.price.resize(period+1);
     } catch (std::bad_alloc& e) {
+        delete ptr;
         return TI_OUT_OF_MEMORY;
     }
 
-- 
2.43.0


From 701c910fd320112a0d30f15c91af506df54b8c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:06 +0000
Subject: [PATCH 040/136] fix: rmi: the stream constructor releases the stream
 when its buffer cannot be allocated

---
 indicators/rmi.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/indicators/rmi.cc b/indicators/rmi.cc
index 28d3179..5effbea 100644
--- a/indicators/rmi.cc
+++ b/indicators/rmi.cc
@@ -122,6 +122,7 @@ int ti_rmi_stream_new(TI_REAL const *options, ti_stream **stream) {
     try {
         ptr->state.price.resize(lookback_period + 1);
     } catch (std::bad_alloc& e) {
+        delete ptr;
         return TI_OUT_OF_MEMORY;
     }
 
-- 
2.43.0


From a90d4b0cf2259c17d6e9f24394ac430893cb62c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:06 +0000
Subject: [PATCH 041/136] fix: swma: the stream constructor releases the stream
 when its buffer cannot be allocated

---
 indicators/swma.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/indicators/swma.cc b/indicators/swma.cc
index 2880cbb..d9d0e7a 100644
--- a/indicators/swma.cc
+++ b/indicators/swma.cc
@@ -115,6 +115,7 @@ int ti_swma_stream_new(TI_REAL const *options, ti_stream **stream) {
     try {
         ptr->state.price.resize(period);
     } catch (std::bad_alloc& e) {
+        delete ptr;
         return TI_OUT_OF_MEMORY;
     }
 
-- 
2.43.0


From 3a1d2e7f067b2bd0f7e80d100496cdf9d869f87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:06 +0000
Subject: [PATCH 042/136] fix: dwma: the stream constructor reports a failed
 buffer allocation instead of throwing, and releases the stream

---
 indicators/dwma.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/indicators/dwma.cc b/indicators/dwma.cc
index 494b90f..740cfb5 100644
--- a/indicators/dwma.cc
+++ b/indicators/dwma.cc
@@ -130,14 +130,14 @@ int ti_dwma_stream_new(TI_REAL const *options, ti_stream **stream) {
 
     ptr->constants.denom = (1. + period) * period / 2.;
 
-    ptr->state.price.resize(period);
-    
     ptr->state.numer1 = 0;
     ptr->state.sum1 = 0;
 
     try {
+        ptr->state.price.resize(period);
         ptr->state.filt1.resize(period);
     } catch (std::bad_alloc& e) {
+        delete ptr;
         return TI_OUT_OF_MEMORY;
     }
 
-- 
2.43.0


From 1e8bcb9cb2c6604ca4575d88f84847fbbe3bc00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:28 +0000
Subject: [PATCH 043/136] fix: idwma: the stream constructor reports a failed
 buffer allocation instead of throwing

---
 indicators/idwma.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/indicators/idwma.cc b/indicators/idwma.cc
index 2416bd9..bdd86cb 100644
--- a/indicators/idwma.cc
+++ b/indicators/idwma.cc
@@ -108,10 +108,15 @@ int ti_idwma_stream_new(TI_REAL const *options, ti_stream **stream) {
     ptr->options.period = period;
     ptr->options.exponent = exponent;
 
-    ptr->state.price.resize(period);
+    try {
+        ptr->state.price.resize(period);
+        ptr->constants.coefficients.resize(period);
+    } catch (std::bad_alloc& e) {
+        delete ptr;
+        return TI_OUT_OF_MEMORY;
+    }
 
     ptr->constants.denom = 0;
-    ptr->constants.coefficients.resize(period);
 
     for (int i = 0; i < period; ++i) {
         ptr->constants.coefficients[i] = 1 / pow(i+1, exponent);
-- 
2.43.0


From 17b2e12eb22872cc81f5dca26a37cf8085fbfd60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:28 +0000
Subject: [PATCH 044/136] fix: buffer: ti_buffer_new returns null when the
 allocation fails

---
 utils/buffer.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/utils/buffer.c b/utils/buffer.c
index eb493aa..8417bcf 100644
--- a/utils/buffer.c
+++ b/utils/buffer.c
@@ -13,6 +13,7 @@
 ti_buffer *ti_buffer_new(int size) {
     const int s = (int)sizeof(ti_buffer) + (size-1) * (int)sizeof(TI_REAL);
     ti_buffer *ret = (ti_buffer*)malloc((unsigned int)s);
+    if (!ret) return 0;
     ret->size = size;
     ret->pushes = 0;
     ret->index = 0;
-- 
2.43.0


From 939ea9da1fa7935b5fa95b204caa3841417b296a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:53 +0000
Subject: [PATCH 045/136] fix: adxr: report a failed buffer allocation

---
 indicators/adxr.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/indicators/adxr.cc b/indicators/adxr.cc
index cdc0aac..6f47b77 100644
--- a/indicators/adxr.cc
+++ b/indicators/adxr.cc
@@ -58,6 +58,7 @@ int ti_adxr(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_R
     }
 
     ti_buffer *adxr = ti_buffer_new(period-1);
+    if (!adxr) return TI_OUT_OF_MEMORY;
     const int first_adxr = ti_adxr_start(options);
 
     for (i = period; i < size; ++i) {
-- 
2.43.0


From f51326e5ff7817278a24fb7b887aa9841207c77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:53 +0000
Subject: [PATCH 046/136] fix: cci: report a failed buffer allocation

---
 indicators/cci.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/indicators/cci.cc b/indicators/cci.cc
index c709377..0edf33b 100644
--- a/indicators/cci.cc
+++ b/indicators/cci.cc
@@ -35,6 +35,7 @@ int ti_cci(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
     TI_REAL *output = outputs[0];
 
     ti_buffer *sum = ti_buffer_new(period);
+    if (!sum) return TI_OUT_OF_MEMORY;
 
     int i, j;
     for (i = 0; i < size; ++i) {
-- 
2.43.0


From 156ea80d396c13966b1c5085198c93205cb812e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:53 +0000
Subject: [PATCH 047/136] fix: cvi: report a failed buffer allocation

---
 indicators/cvi.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/indicators/cvi.cc b/indicators/cvi.cc
index 30588dd..4f2eac4 100644
--- a/indicators/cvi.cc
+++ b/indicators/cvi.cc
@@ -29,6 +29,7 @@ int ti_cvi(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
     const TI_REAL per = 2 / ((TI_REAL)period + 1);
 
     ti_buffer *lag = ti_buffer_new(period);
+    if (!lag) return TI_OUT_OF_MEMORY;
 
     TI_REAL val = high[0]-low[0];
     ti_buffer_qpush(lag, val);
-- 
2.43.0


From 6ff37115c9d2fc341dfb796bd2aad28391c53228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:53 +0000
Subject: [PATCH 048/136] fix: hma: report a failed buffer allocation

---
 indicators/hma.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/indicators/hma.cc b/indicators/hma.cc
index 50bda63..4f9517d 100644
--- a/indicators/hma.cc
+++ b/indicators/hma.cc
@@ -58,6 +58,7 @@ int ti_hma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
     }
 
     ti_buffer *buff = ti_buffer_new(periodsqrt);
+    if (!buff) return TI_OUT_OF_MEMORY;
 
     for (i = period-1; i < size; ++i) {
         weight_sum += input[i] * period;
-- 
2.43.0


From 2d2f47cdae6a4d0fcfda0df43ba646740d8e7020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:53 +0000
Subject: [PATCH 049/136] fix: mass: report a failed buffer allocation

---
 indicators/mass.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/indicators/mass.cc b/indicators/mass.cc
index 4a09e0e..10292d8 100644
--- a/indicators/mass.cc
+++ b/indicators/mass.cc
@@ -37,6 +37,7 @@ int ti_mass(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_R
     TI_REAL ema2 = ema;
 
     ti_buffer *sum = ti_buffer_new(period);
+    if (!sum) return TI_OUT_OF_MEMORY;
 
     int i;
     for (i = 0; i < size; ++i) {
-- 
2.43.0


From 721ef558be7a78549c9704da2e65bc24916f5f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:53 +0000
Subject: [PATCH 050/136] fix: stochrsi: report a failed buffer allocation

---
 indicators/stochrsi.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/indicators/stochrsi.cc b/indicators/stochrsi.cc
index 592a1cb..45e6bcc 100644
--- a/indicators/stochrsi.cc
+++ b/indicators/stochrsi.cc
@@ -24,6 +24,7 @@ int ti_stochrsi(int size, TI_REAL const *const *inputs, TI_REAL const *options,
     if (size <= ti_stochrsi_start(options)) return TI_OKAY;
 
     ti_buffer *rsi = ti_buffer_new(period);
+    if (!rsi) return TI_OUT_OF_MEMORY;
 
     TI_REAL smooth_up = 0, smooth_down = 0;
 
-- 
2.43.0


From 9808aefe81182ed20ec4e8844e68f3c328548810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:53 +0000
Subject: [PATCH 051/136] fix: abands: report a failed buffer allocation

---
 indicators/abands.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/indicators/abands.cc b/indicators/abands.cc
index e246740..e0fdedb 100644
--- a/indicators/abands.cc
+++ b/indicators/abands.cc
@@ -37,6 +37,11 @@ int ti_abands(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI
 
     ti_buffer *buffer_high = ti_buffer_new(period);
     ti_buffer *buffer_low = ti_buffer_new(period);
+    if (!buffer_high || !buffer_low) {
+        ti_buffer_free(buffer_high);
+        ti_buffer_free(buffer_low);
+        return TI_OUT_OF_MEMORY;
+    }
     TI_REAL close_sum = 0;
 
     for (int i = 0; i < period; ++i) {
-- 
2.43.0


From 7dfac1da8c1da7331eec8e5ebed366a71845fc98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:53 +0000
Subject: [PATCH 052/136] fix: mfi: report a failed buffer allocation

---
 indicators/mfi.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/indicators/mfi.cc b/indicators/mfi.cc
index 039fbfb..5ab48d1 100644
--- a/indicators/mfi.cc
+++ b/indicators/mfi.cc
@@ -33,6 +33,11 @@ int ti_mfi(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
 
     ti_buffer *up = ti_buffer_new(period);
     ti_buffer *down = ti_buffer_new(period);
+    if (!up || !down) {
+        ti_buffer_free(up);
+        ti_buffer_free(down);
+        return TI_OUT_OF_MEMORY;
+    }
 
     for (i = 1; i < size; ++i) {
         const TI_REAL typ = TYPPRICE(i);
-- 
2.43.0


From 2aeacc815ecf2afd34dcf6ad6dd63f3b5dc57a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:53 +0000
Subject: [PATCH 053/136] fix: stoch: report a failed buffer allocation

---
 indicators/stoch.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/indicators/stoch.cc b/indicators/stoch.cc
index 88cf9f8..4841091 100644
--- a/indicators/stoch.cc
+++ b/indicators/stoch.cc
@@ -43,6 +43,11 @@ int ti_stoch(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_
 
     ti_buffer *k_sum = ti_buffer_new(kslow);
     ti_buffer *d_sum = ti_buffer_new(dperiod);
+    if (!k_sum || !d_sum) {
+        ti_buffer_free(k_sum);
+        ti_buffer_free(d_sum);
+        return TI_OUT_OF_MEMORY;
+    }
 
     int i, j;
     for (i = 0; i < size; ++i) {
-- 
2.43.0


From bedac6ac75a6995435fcb4b8dfe954a2cdb2c4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:53 +0000
Subject: [PATCH 054/136] fix: ultosc: report a failed buffer allocation

---
 indicators/ultosc.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/indicators/ultosc.cc b/indicators/ultosc.cc
index db0f267..56776d6 100644
--- a/indicators/ultosc.cc
+++ b/indicators/ultosc.cc
@@ -34,6 +34,11 @@ int ti_ultosc(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI
 
     ti_buffer *bp_buf = ti_buffer_new(long_period);
     ti_buffer *r_buf = ti_buffer_new(long_period);
+    if (!bp_buf || !r_buf) {
+        ti_buffer_free(bp_buf);
+        ti_buffer_free(r_buf);
+        return TI_OUT_OF_MEMORY;
+    }
 
     TI_REAL bp_short_sum = 0, bp_medium_sum = 0;
     TI_REAL r_short_sum = 0, r_medium_sum = 0;
-- 
2.43.0


From 4b0e88cec019ba16a35efcc57623d933f7f74de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:29 +0000
Subject: [PATCH 055/136] fix: mesastoch: the filter recursion needs two past
 values also when period is 1 or 2

---
 indicators/mesastoch.cc | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/indicators/mesastoch.cc b/indicators/mesastoch.cc
index 2c3ce5d..a616c0d 100644
--- a/indicators/mesastoch.cc
+++ b/indicators/mesastoch.cc
@@ -41,6 +41,7 @@ int ti_mesastoch(int size, TI_REAL const *const *inputs, TI_REAL const *options,
     int lowestC_idx;
 
     ringbuf<0> filt(period);
+    ringbuf<3> sfilt;
     ringbuf<3> HP;
     ringbuf<2> stoc;
     ringbuf<3> result;
@@ -53,10 +54,11 @@ int ti_mesastoch(int size, TI_REAL const *const *inputs, TI_REAL const *options,
     const TI_REAL c1 = 1 - c2 - c3;
 
     int i = 2;
-    for (; i < ti_mesastoch_start(options) && i < size; ++i, step(HP, filt)) {
+    for (; i < ti_mesastoch_start(options) && i < size; ++i, step(HP, sfilt, filt)) {
         HP = (1 - alpha1 / 2.)*(1 - alpha1 / 2.)*(series[i] - 2*series[i-1] + series[i-2]) +
             2.*(1. - alpha1)*HP[1] - (1 - alpha1) * (1 - alpha1)*HP[2];
-        filt = c1 * (HP + HP[1]) / 2. + c2 * filt[1] + c3 * filt[2];
+        sfilt = c1 * (HP + HP[1]) / 2. + c2 * sfilt[1] + c3 * sfilt[2];
+        filt = sfilt;
 
         if (highestC <= filt) {
             highestC = filt;
@@ -68,10 +70,11 @@ int ti_mesastoch(int size, TI_REAL const *const *inputs, TI_REAL const *options,
         }
     }
 
-    for (; i < size; ++i, step(HP, filt, stoc, result)) {
+    for (; i < size; ++i, step(HP, sfilt, filt, stoc, result)) {
         HP = (1 - alpha1 / 2.)*(1 - alpha1 / 2.)*(series[i] - 2*series[i-1] + series[i-2]) +
             2.*(1. - alpha1)*HP[1] - (1 - alpha1) * (1 - alpha1)*HP[2];
-        filt = c1 * (HP + HP[1]) / 2. + c2 * filt[1] + c3 * filt[2];
+        sfilt = c1 * (HP + HP[1]) / 2. + c2 * sfilt[1] + c3 * sfilt[2];
+        filt = sfilt;
 
         if (highestC <= filt) {
             highestC_idx = i;
@@ -111,6 +114,7 @@ int ti_mesastoch_ref(int size, TI_REAL const *const *inputs, TI_REAL const *opti
     if (max_cycle_considered < 1) { return TI_INVALID_OPTION; }
 
     std::deque<TI_REAL> filt(period);
+    std::deque<TI_REAL> sfilt(3);
     std::deque<TI_REAL> HP(3);
     std::deque<TI_REAL> stoc(2);
     std::deque<TI_REAL> result(3);
@@ -126,6 +130,7 @@ int ti_mesastoch_ref(int size, TI_REAL const *const *inputs, TI_REAL const *opti
     int i = 2;
     for (; i < ti_mesastoch_start(options); ++i) {
         filt.pop_back(); filt.push_front(0);
+        sfilt.pop_back(); sfilt.push_front(0);
         HP.pop_back(); HP.push_front(0);
         stoc.pop_back(); stoc.push_front(0);
         result.pop_back(); result.push_front(0);
@@ -138,11 +143,13 @@ int ti_mesastoch_ref(int size, TI_REAL const *const *inputs, TI_REAL const *opti
         c2 = b1;
         c3 = -a1*a1;
         c1 = 1 - c2 - c3;
-        filt[0] = c1 * (HP[0] + HP[1]) / 2. + c2 * filt[1] + c3 * filt[2];
+        sfilt[0] = c1 * (HP[0] + HP[1]) / 2. + c2 * sfilt[1] + c3 * sfilt[2];
+        filt[0] = sfilt[0];
     }
 
     for (; i < size; ++i) {
         filt.pop_back(); filt.push_front(0);
+        sfilt.pop_back(); sfilt.push_front(0);
         HP.pop_back(); HP.push_front(0);
         stoc.pop_back(); stoc.push_front(0);
         result.pop_back(); result.push_front(0);
@@ -155,7 +162,8 @@ int ti_mesastoch_ref(int size, TI_REAL const *const *inputs, TI_REAL const *opti
         c2 = b1;
         c3 = -a1*a1;
         c1 = 1 - c2 - c3;
-        filt[0] = c1 * (HP[0] + HP[1]) / 2. + c2 * filt[1] + c3 * filt[2];
+        sfilt[0] = c1 * (HP[0] + HP[1]) / 2. + c2 * sfilt[1] + c3 * sfilt[2];
+        filt[0] = sfilt[0];
 
         highestC = *std::max_element(filt.begin(), filt.end());
         lowestC = *std::min_element(filt.begin(), filt.end());
@@ -184,6 +192,7 @@ struct ti_mesastoch_stream : ti_stream {
 
     struct {
         ringbuf<0> filt;
+        ringbuf<3> sfilt;
         ringbuf<3> HP;
         ringbuf<2> stoc;
         ringbuf<3> result;
@@ -258,6 +267,7 @@ int ti_mesastoch_stream_run(ti_stream *stream, int size, TI_REAL const *const *i
     TI_REAL lowestC_idx = ptr->state.lowestC_idx;
 
     auto& filt = ptr->store.filt;
+    auto& sfilt = ptr->store.sfilt;
     auto& HP = ptr->store.HP;
     auto& stoc = ptr->store.stoc;
     auto& result = ptr->store.result;
@@ -267,13 +277,14 @@ int ti_mesastoch_stream_run(ti_stream *stream, int size, TI_REAL const *const *i
     for (; i < size && progress < -period; ++i, ++progress, step(price)) {
         price = series[i];
     }
-    for (; i < size && progress < 0; ++i, ++progress, step(price, HP, filt)) {
+    for (; i < size && progress < 0; ++i, ++progress, step(price, HP, sfilt, filt)) {
         price = series[i];
 
         HP = (1 - alpha1 / 2.)*(1 - alpha1 / 2.)*(series[i] - 2*price[1] + price[2]) +
             2.*(1. - alpha1)*HP[1] - (1 - alpha1) * (1 - alpha1)*HP[2];
 
-        filt = c1 * (HP + HP[1]) / 2. + c2 * filt[1] + c3 * filt[2];
+        sfilt = c1 * (HP + HP[1]) / 2. + c2 * sfilt[1] + c3 * sfilt[2];
+        filt = sfilt;
 
         if (highestC <= filt) {
             highestC = filt;
@@ -284,14 +295,15 @@ int ti_mesastoch_stream_run(ti_stream *stream, int size, TI_REAL const *const *i
             lowestC_idx = progress;
         }
     }
-    for (; i < size; ++i, ++progress, step(price, HP, filt, stoc, result)) {
+    for (; i < size; ++i, ++progress, step(price, HP, sfilt, filt, stoc, result)) {
         price = series[i];
 
         HP = (1 - alpha1 / 2.)*(1 - alpha1 / 2.)*(series[i] - 2*price[1] + price[2]) +
             2.*(1. - alpha1)*HP[1] - (1 - alpha1) * (1 - alpha1)*HP[2];
 
 
-        filt = c1 * (HP + HP[1]) / 2. + c2 * filt[1] + c3 * filt[2];
+        sfilt = c1 * (HP + HP[1]) / 2. + c2 * sfilt[1] + c3 * sfilt[2];
+        filt = sfilt;
 
         if (highestC <= filt) {
             highestC_idx = progress;
-- 
2.43.0


From 49463cf7d616ba6f57fe101bd2e464d00a2675a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:00 +0000
Subject: [PATCH 056/136] fix: pbands_ref: reject the options pbands rejects
 and return early for a series shorter than the window

---
 indicators/pbands.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/indicators/pbands.cc b/indicators/pbands.cc
index 74fae50..3d57c9c 100644
--- a/indicators/pbands.cc
+++ b/indicators/pbands.cc
@@ -79,6 +79,9 @@ int ti_pbands_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options
     TI_REAL *pbands_lower = outputs[0];
     TI_REAL *pbands_upper = outputs[1];
 
+    if (period < 1) { return TI_INVALID_OPTION; }
+    if (size <= ti_pbands_start(options)) { return TI_OKAY; }
+
     int start = ti_linregslope_start(options);
     TI_REAL *b = (TI_REAL*)malloc(sizeof(TI_REAL) * (size - start));
 
-- 
2.43.0


From 36b302157cdb79eddd0b2dfaccde32a221395382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:12 +0000
Subject: [PATCH 057/136] fix: mesastoch_ref: do not read past a series shorter
 than its start offset

---
 indicators/mesastoch.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/indicators/mesastoch.cc b/indicators/mesastoch.cc
index a616c0d..539deaf 100644
--- a/indicators/mesastoch.cc
+++ b/indicators/mesastoch.cc
@@ -112,6 +112,7 @@ int ti_mesastoch_ref(int size, TI_REAL const *const *inputs, TI_REAL const *opti
 
     if (period < 1) { return TI_INVALID_OPTION; }
     if (max_cycle_considered < 1) { return TI_INVALID_OPTION; }
+    if (size <= ti_mesastoch_start(options)) { return TI_OKAY; }
 
     std::deque<TI_REAL> filt(period);
     std::deque<TI_REAL> sfilt(3);
-- 
2.43.0


From be81d8322b702f5e436f5d5fcd4f36d9e75dd579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:43 +0000
Subject: [PATCH 058/136] fix: hurst: take the mean over the window, so that an
 undefined log return leaves with its bar, as in the reference

---
 indicators/hurst.cc | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/indicators/hurst.cc b/indicators/hurst.cc
index b31c325..846e845 100644
--- a/indicators/hurst.cc
+++ b/indicators/hurst.cc
@@ -28,18 +28,19 @@ int ti_hurst(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_
     if (period < 2) { return TI_INVALID_OPTION; }
 
     ringbuf<0> r(period);
-    TI_REAL sum = 0;
 
     int i = 1;
     for (; i < period && i < size; ++i, step(r)) {
         r = series[i] && series[i-1] ? log(series[i] / series[i-1]) : 0;
-        sum += r;
     }
     for (; i < size; ++i, step(r)) {
         r = series[i] && series[i-1] ? log(series[i] / series[i-1]) : 0;
-        sum += r;
 
-        TI_REAL mean = sum / period;
+        TI_REAL mean = 0;
+        for (int j = 0; j < period; ++j) {
+            mean += r[j];
+        }
+        mean /= period;
 
         TI_REAL cum_meandev = 0;
         TI_REAL max_cum_meandev = -std::numeric_limits<TI_REAL>::infinity();
@@ -60,8 +61,6 @@ int ti_hurst(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_
         TI_REAL H = R ? log(R/S) / log(period) : 0;
         *hurst++ = H;
         *fractal_dim++ = 2 - H;
-
-        sum -= r[period-1];
     }
 
     return TI_OKAY;
@@ -171,7 +170,6 @@ int ti_hurst_stream_run(ti_stream *stream, int size, TI_REAL const *const *input
 
     auto &r = ptr->state.r;
     auto &price = ptr->state.price;
-    TI_REAL sum = ptr->state.sum;
 
     int i = 0;
     for (; progress < -period+1 && i < size; ++i, ++progress, step(price)) {
@@ -181,15 +179,17 @@ int ti_hurst_stream_run(ti_stream *stream, int size, TI_REAL const *const *input
         price = series[i];
 
         r = price && price[1] ? log(price / price[1]) : 0;
-        sum += r;
     }
     for (; i < size; ++i, ++progress, step(price, r)) {
         price = series[i];
 
         r = price && price[1] ? log(price / price[1]) : 0;
-        sum += r;
 
-        TI_REAL mean = sum / period;
+        TI_REAL mean = 0;
+        for (int j = 0; j < period; ++j) {
+            mean += r[j];
+        }
+        mean /= period;
 
         TI_REAL cum_meandev = 0;
         TI_REAL max_cum_meandev = -std::numeric_limits<TI_REAL>::infinity();
@@ -210,12 +210,9 @@ int ti_hurst_stream_run(ti_stream *stream, int size, TI_REAL const *const *input
         TI_REAL H = R ? log(R/S) / log(period) : 0;
         *hurst++ = H;
         *fractal_dim++ = 2 - H;
-
-        sum -= r[period-1];
     }
 
     ptr->progress = progress;
-    ptr->state.sum = sum;
 
     return TI_OKAY;
 }
-- 
2.43.0


From 7531708b8ad93f9d2ece5450a716d89cb304d331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:30 +0000
Subject: [PATCH 059/136] fix: decay: reject a period below one

---
 indicators/decay.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/indicators/decay.cc b/indicators/decay.cc
index 3d7fbec..fb6058a 100644
--- a/indicators/decay.cc
+++ b/indicators/decay.cc
@@ -20,6 +20,8 @@ int ti_decay(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_
     const int period = (int)options[0];
     const TI_REAL scale = 1.0 / period;
 
+    if (period < 1) { return TI_INVALID_OPTION; }
+
     int i = 0;
     for (; i < 1 && i < size; ++i) {
         *output++ = input[0];
-- 
2.43.0


From a90f962943149fcacccd7d1c6fd14db9d5e2a5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:30 +0000
Subject: [PATCH 060/136] fix: edecay: reject a period below one

---
 indicators/edecay.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/indicators/edecay.cc b/indicators/edecay.cc
index 3554ba6..58a8d8e 100644
--- a/indicators/edecay.cc
+++ b/indicators/edecay.cc
@@ -20,6 +20,8 @@ int ti_edecay(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI
     TI_REAL *output = outputs[0];
     const TI_REAL scale = 1.0 - 1.0 / period;
 
+    if (period < 1) { return TI_INVALID_OPTION; }
+
     int i = 0;
     for (; i < 1 && i < size; ++i) {
         *output++ = input[0];
-- 
2.43.0


From 7c0d7615387110edd456b41ebc7b4e99707e128d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:30 +0000
Subject: [PATCH 061/136] fix: mgdyn: reject a non-positive N

---
 indicators/mgdyn.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/indicators/mgdyn.cc b/indicators/mgdyn.cc
index c20d178..b70a13f 100644
--- a/indicators/mgdyn.cc
+++ b/indicators/mgdyn.cc
@@ -21,6 +21,8 @@ int ti_mgdyn(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_
     
     TI_REAL *mgdyn = outputs[0];
 
+    if (!(N > 0)) { return TI_INVALID_OPTION; }
+
     TI_REAL filt;
 
     int i = 0;
@@ -42,6 +44,8 @@ DONTOPTIMIZE int ti_mgdyn_ref(int size, TI_REAL const *const *inputs, TI_REAL co
     
     TI_REAL *mgdyn = outputs[0];
 
+    if (!(N > 0)) { return TI_INVALID_OPTION; }
+
     TI_REAL filt;
 
     int i = 0;
@@ -75,6 +79,8 @@ struct ti_mgdyn_stream : ti_stream {
 int ti_mgdyn_stream_new(TI_REAL const *options, ti_stream **stream) {
     const TI_REAL N = options[0];
 
+    if (!(N > 0)) { return TI_INVALID_OPTION; }
+
     ti_mgdyn_stream *ptr = new(std::nothrow) ti_mgdyn_stream();
     if (!ptr) { return TI_OUT_OF_MEMORY; }
     *stream = ptr;
-- 
2.43.0


From 40ec887967cde21129dfeb1ebee44a16d750b2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:30 +0000
Subject: [PATCH 062/136] fix: vi: too few bars are not an invalid option

---
 indicators/vi.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/indicators/vi.cc b/indicators/vi.cc
index 9f2133d..1e5a4e5 100644
--- a/indicators/vi.cc
+++ b/indicators/vi.cc
@@ -26,7 +26,8 @@ int ti_vi(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REA
     TI_REAL *vi_p = outputs[0];
     TI_REAL *vi_m = outputs[1];
 
-    if (period < 1 || period >= size) return TI_INVALID_OPTION;
+    if (period < 1) return TI_INVALID_OPTION;
+    if (size <= ti_vi_start(options)) return TI_OKAY;
 
     TI_REAL last_vm_p_period = 0;
     TI_REAL last_vm_m_period = 0;
@@ -61,7 +62,8 @@ DONTOPTIMIZE int ti_vi_ref(int size, TI_REAL const *const *inputs, TI_REAL const
     TI_REAL *vi_p = outputs[0];
     TI_REAL *vi_m = outputs[1];
 
-    if (period < 1 || period >= size) return TI_INVALID_OPTION;
+    if (period < 1) return TI_INVALID_OPTION;
+    if (size <= ti_vi_start(options)) return TI_OKAY;
 
     std::vector<TI_REAL> vm_p(size);
     std::vector<TI_REAL> vm_m(size);    
-- 
2.43.0


From 3063d217f311dd79e276fcf9c04c3ee476db789e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:30 +0000
Subject: [PATCH 063/136] fix: kc: the stream accepts a zero period that the
 batch function rejects

---
 indicators/kc.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/indicators/kc.cc b/indicators/kc.cc
index 5cc755a..3cbe357 100644
--- a/indicators/kc.cc
+++ b/indicators/kc.cc
@@ -90,7 +90,7 @@ int ti_kc_stream_new(TI_REAL const *options, ti_stream **stream) {
     const TI_REAL period = options[0];
     const TI_REAL multiple = options[1];
 
-    if (period < 0) { return TI_INVALID_OPTION; }
+    if (period < 1) { return TI_INVALID_OPTION; }
     if (multiple < 0) { return TI_INVALID_OPTION; }
 
     ti_kc_stream *ptr = new(std::nothrow) ti_kc_stream();
-- 
2.43.0


From ae4155d56b8351469d66b7f7baf4e8b8f241b554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:30 +0000
Subject: [PATCH 064/136] fix: copp: validate the stream options like the batch
 function does

---
 indicators/copp.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/indicators/copp.cc b/indicators/copp.cc
index 2cddb5a..9a3549d 100644
--- a/indicators/copp.cc
+++ b/indicators/copp.cc
@@ -142,7 +142,7 @@ int ti_copp_stream_new(TI_REAL const *options, ti_stream **stream) {
     for (int i = 0; i < 3; ++i) {
         if (options[i] < 1) { return TI_INVALID_OPTION; }
     }
-    if (roc_longer_period < roc_shorter_period) { return TI_INVALID_OPTION; }
+    if (options[1] < options[0]) { return TI_INVALID_OPTION; }
 
     ti_copp_stream *ptr = new(std::nothrow) ti_copp_stream();
     if (!ptr) { return TI_OUT_OF_MEMORY; }
-- 
2.43.0


From 060ad6a2d0128cbf89e40ad17fabbb925c307b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:30 +0000
Subject: [PATCH 065/136] fix: kst: validate the reference options like the
 batch function does

---
 indicators/kst.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/indicators/kst.cc b/indicators/kst.cc
index 9f6560a..93aa0c1 100755
--- a/indicators/kst.cc
+++ b/indicators/kst.cc
@@ -113,7 +113,7 @@ int ti_kst_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, T
     TI_REAL *kst_signal = outputs[1];
 
 
-    if(!(roc[0] < roc[1] && roc[1] < roc[2] && roc[2] < roc[3])) {
+    if(!((int)roc[0] < (int)roc[1] && (int)roc[1] < (int)roc[2] && (int)roc[2] < (int)roc[3])) {
         return TI_INVALID_OPTION;
     }
     for (int i = 0; i < 8; ++i) {
-- 
2.43.0


From b8d6561d7cbb676802339e9520430a2c0e13901d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:30 +0000
Subject: [PATCH 066/136] fix: frama: the stream validates the average period
 like the batch function does

---
 indicators/frama.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/indicators/frama.cc b/indicators/frama.cc
index 341612d..6c1adf4 100644
--- a/indicators/frama.cc
+++ b/indicators/frama.cc
@@ -141,6 +141,7 @@ int ti_frama_stream_new(TI_REAL const *options, ti_stream **stream) {
     TI_REAL average_period = options[1];
 
     if (period < 1) { return TI_INVALID_OPTION; }
+    if (average_period < 2) { return TI_INVALID_OPTION; }
     if ((int)period % 2 != 0) { return TI_INVALID_OPTION; }
 
     ti_frama_stream *ptr = new(std::nothrow) ti_frama_stream();
-- 
2.43.0


From d0941ca8f4c7de48a04e1a30f96153ca2ca11860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:51 +0000
Subject: [PATCH 067/136] fix: fi: the reference rejects the options the batch
 function rejects

---
 indicators/fi.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/indicators/fi.cc b/indicators/fi.cc
index fc5ccc7..7405d34 100644
--- a/indicators/fi.cc
+++ b/indicators/fi.cc
@@ -41,6 +41,7 @@ int ti_fi_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI
     TI_REAL const period = options[0];
     TI_REAL *fi = outputs[0];
 
+    if (period < 1) { return TI_INVALID_OPTION; }
     if (size <= ti_fi_start(options)) { return TI_OKAY; }
 
     for (int i = 1; i < size; ++i) {
-- 
2.43.0


From 018cd0d5310e7138ec96e2f911dd417c26c43084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:51 +0000
Subject: [PATCH 068/136] fix: pfe: the reference rejects the options the batch
 function rejects

---
 indicators/pfe.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/indicators/pfe.cc b/indicators/pfe.cc
index 2e2b9a7..4b7704f 100644
--- a/indicators/pfe.cc
+++ b/indicators/pfe.cc
@@ -84,6 +84,7 @@ int ti_pfe_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, T
     TI_REAL *pfe = outputs[0];
 
     if (period < 1) { return TI_INVALID_OPTION; }
+    if (ema_period < 1) { return TI_INVALID_OPTION; }
     if (size <= ti_pfe_start(options)) { return TI_OKAY; }
 
     for (int i = period; i < size; ++i) {
-- 
2.43.0


From f02b2149dfc43f00303801a6bc9d395f2655dab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:48 +0000
Subject: [PATCH 069/136] fix: ehma: the reference has to return the
 out-of-memory code when an allocation fails

---
 indicators/ehma.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/indicators/ehma.cc b/indicators/ehma.cc
index 2c092db..24365f3 100644
--- a/indicators/ehma.cc
+++ b/indicators/ehma.cc
@@ -53,7 +53,7 @@ int ti_ehma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_R
     return TI_OKAY;
 }
 
-DONTOPTIMIZE int ti_ehma_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
+DONTOPTIMIZE int ti_ehma_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) try {
     TI_REAL const *const series = inputs[0];
     const int period = options[0];
     TI_REAL *ehma = outputs[0];
@@ -85,6 +85,8 @@ DONTOPTIMIZE int ti_ehma_ref(int size, TI_REAL const *const *inputs, TI_REAL con
     ema(subtr.data(), n05, outputs[0]);
 
     return TI_OKAY;
+} catch (std::bad_alloc&) {
+    return TI_OUT_OF_MEMORY;
 }
 
 struct ti_ehma_stream : ti_stream {
-- 
2.43.0


From d4469458a81757ffadaec3e8db417257649e10b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:48 +0000
Subject: [PATCH 070/136] fix: t3: the reference has to return the
 out-of-memory code when an allocation fails

---
 indicators/t3.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/indicators/t3.cc b/indicators/t3.cc
index a197159..e828670 100644
--- a/indicators/t3.cc
+++ b/indicators/t3.cc
@@ -76,7 +76,7 @@ int ti_t3(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REA
     return TI_OKAY;
 }
 
-DONTOPTIMIZE int ti_t3_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
+DONTOPTIMIZE int ti_t3_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) try {
     TI_REAL const *const series = inputs[0];
     const TI_REAL period = options[0];
     const TI_REAL v = options[1];
@@ -112,6 +112,8 @@ DONTOPTIMIZE int ti_t3_ref(int size, TI_REAL const *const *inputs, TI_REAL const
     std::memcpy(t3, output.data(), sizeof(TI_REAL) * size);
 
     return TI_OKAY;
+} catch (std::bad_alloc&) {
+    return TI_OUT_OF_MEMORY;
 }
 
 struct ti_t3_stream : ti_stream {
-- 
2.43.0


From 8de90a25af292fb94b74ffbfbae1b51b975180c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:48 +0000
Subject: [PATCH 071/136] fix: vi: the reference has to return the
 out-of-memory code when an allocation fails

---
 indicators/vi.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/indicators/vi.cc b/indicators/vi.cc
index 1e5a4e5..0d297d3 100644
--- a/indicators/vi.cc
+++ b/indicators/vi.cc
@@ -54,7 +54,7 @@ int ti_vi(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REA
     return TI_OKAY;
 }
 
-DONTOPTIMIZE int ti_vi_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
+DONTOPTIMIZE int ti_vi_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) try {
     TI_REAL const *const high = inputs[0];
     TI_REAL const *const low = inputs[1];
     TI_REAL const *const close = inputs[2];
@@ -101,6 +101,8 @@ DONTOPTIMIZE int ti_vi_ref(int size, TI_REAL const *const *inputs, TI_REAL const
     }
     
     return TI_OKAY;
+} catch (std::bad_alloc&) {
+    return TI_OUT_OF_MEMORY;
 }
 
 struct ti_vi_stream : ti_stream {
-- 
2.43.0


From c8ca2c160dc8129379a224435a7fb298496b7015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:48 +0000
Subject: [PATCH 072/136] fix: dwma: the reference has to return the
 out-of-memory code when an allocation fails

---
 indicators/dwma.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/indicators/dwma.cc b/indicators/dwma.cc
index 740cfb5..3a210b3 100644
--- a/indicators/dwma.cc
+++ b/indicators/dwma.cc
@@ -75,7 +75,7 @@ int ti_dwma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_R
 }
 
 DONTOPTIMIZE
-int ti_dwma_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
+int ti_dwma_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) try {
     TI_REAL const *const series = inputs[0];
     const int period = options[0];
     TI_REAL *dwma = outputs[0];
@@ -90,6 +90,8 @@ int ti_dwma_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options,
     ti_wma(size-period+1, arr, options, outputs);
 
     return TI_OKAY;
+} catch (std::bad_alloc&) {
+    return TI_OUT_OF_MEMORY;
 }
 
 struct ti_dwma_stream : ti_stream {
-- 
2.43.0


From 5fc3a64a34b4ba91c0aec31b9f72f0da13110ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:48 +0000
Subject: [PATCH 073/136] fix: lma: the reference has to return the
 out-of-memory code when an allocation fails

---
 indicators/lma.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/indicators/lma.cc b/indicators/lma.cc
index a741bc7..d3b1a66 100644
--- a/indicators/lma.cc
+++ b/indicators/lma.cc
@@ -53,7 +53,7 @@ int ti_lma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
     return TI_OKAY;
 }
 
-DONTOPTIMIZE int ti_lma_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
+DONTOPTIMIZE int ti_lma_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) try {
     TI_REAL const *const series = inputs[0];
     const int period = options[0];
     TI_REAL *lma = outputs[0];
@@ -76,6 +76,8 @@ DONTOPTIMIZE int ti_lma_ref(int size, TI_REAL const *const *inputs, TI_REAL cons
     }
 
     return TI_OKAY;
+} catch (std::bad_alloc&) {
+    return TI_OUT_OF_MEMORY;
 }
 
 struct ti_lma_stream : ti_stream {
-- 
2.43.0


From fa50a3fe43fa4d4d7d06cd70d51cf24243349ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:48 +0000
Subject: [PATCH 074/136] fix: mesastoch: the reference has to return the
 out-of-memory code when an allocation fails

---
 indicators/mesastoch.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/indicators/mesastoch.cc b/indicators/mesastoch.cc
index 539deaf..69c6427 100644
--- a/indicators/mesastoch.cc
+++ b/indicators/mesastoch.cc
@@ -104,7 +104,7 @@ int ti_mesastoch(int size, TI_REAL const *const *inputs, TI_REAL const *options,
     return TI_OUT_OF_MEMORY;
 }
 
-int ti_mesastoch_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
+int ti_mesastoch_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) try {
     TI_REAL const *const series = inputs[0];
     int period = options[0];
     int max_cycle_considered = options[1];
@@ -176,6 +176,8 @@ int ti_mesastoch_ref(int size, TI_REAL const *const *inputs, TI_REAL const *opti
     }
 
     return TI_OKAY;
+} catch (std::bad_alloc&) {
+    return TI_OUT_OF_MEMORY;
 }
 
 struct ti_mesastoch_stream : ti_stream {
-- 
2.43.0


From 740d69f92e26eedcf40a9cf1ffb41cf127f9a9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:48 +0000
Subject: [PATCH 075/136] fix: ichi: the reference has to return the
 out-of-memory code when an allocation fails

---
 indicators/ichi.cc | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/indicators/ichi.cc b/indicators/ichi.cc
index 09f2504..e73d128 100644
--- a/indicators/ichi.cc
+++ b/indicators/ichi.cc
@@ -4,6 +4,7 @@
  */
 
 
+#include <vector>
 #include <new>
 #include <algorithm>
 #include <limits>
@@ -182,7 +183,7 @@ int ti_ichi(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_R
     return TI_OUT_OF_MEMORY;
 }
 
-DONTOPTIMIZE int ti_ichi_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
+DONTOPTIMIZE int ti_ichi_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) try {
     TI_REAL const *const high = inputs[0];
     TI_REAL const *const low = inputs[1];
     const int period9 = options[0];
@@ -197,12 +198,18 @@ DONTOPTIMIZE int ti_ichi_ref(int size, TI_REAL const *const *inputs, TI_REAL con
         return TI_INVALID_OPTION;
     }
 
-    TI_REAL *hh9 = new TI_REAL[size];
-    TI_REAL *ll9 = new TI_REAL[size];
-    TI_REAL *hh26 = new TI_REAL[size];
-    TI_REAL *ll26 = new TI_REAL[size];
-    TI_REAL *hh52 = new TI_REAL[size];
-    TI_REAL *ll52 = new TI_REAL[size];
+    std::vector<TI_REAL> hh9_mem(size);
+    TI_REAL *hh9 = hh9_mem.data();
+    std::vector<TI_REAL> ll9_mem(size);
+    TI_REAL *ll9 = ll9_mem.data();
+    std::vector<TI_REAL> hh26_mem(size);
+    TI_REAL *hh26 = hh26_mem.data();
+    std::vector<TI_REAL> ll26_mem(size);
+    TI_REAL *ll26 = ll26_mem.data();
+    std::vector<TI_REAL> hh52_mem(size);
+    TI_REAL *hh52 = hh52_mem.data();
+    std::vector<TI_REAL> ll52_mem(size);
+    TI_REAL *ll52 = ll52_mem.data();
 
     const TI_REAL numbers[] = {(TI_REAL)period9, (TI_REAL)period26, (TI_REAL)period52};
 
@@ -230,14 +237,10 @@ DONTOPTIMIZE int ti_ichi_ref(int size, TI_REAL const *const *inputs, TI_REAL con
         *ichi_senkou_span_B++ = (hh52[i-period26] + ll52[i-period26]) / 2.;
     }
 
-    delete[] hh9;
-    delete[] ll9;
-    delete[] hh26;
-    delete[] ll26;
-    delete[] hh52;
-    delete[] ll52;
 
     return TI_OKAY;
+} catch (std::bad_alloc&) {
+    return TI_OUT_OF_MEMORY;
 }
 
 struct ti_ichi_stream : ti_stream {
-- 
2.43.0


From 235c2d0f35ab5b7b2d3114b0f6d4ebfb9ae71e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:48 +0000
Subject: [PATCH 076/136] fix: hfema: the reference has to return the
 out-of-memory code when an allocation fails

---
 indicators/hfema.cc | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/indicators/hfema.cc b/indicators/hfema.cc
index f76d033..813361c 100644
--- a/indicators/hfema.cc
+++ b/indicators/hfema.cc
@@ -76,7 +76,7 @@ int lessthan(void *one, void *two) {
     return *(TI_REAL*)one < *(TI_REAL*)two;
 }
 
-int ti_hfema_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
+int ti_hfema_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) try {
     TI_REAL const *const series = inputs[0];
     int ema_period = options[0];
     int k = options[1];
@@ -87,10 +87,12 @@ int ti_hfema_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options,
     if (k < 1) { return TI_INVALID_OPTION; }
     if (threshold < 0) { return TI_INVALID_OPTION; }
 
-    TI_REAL *ema = new TI_REAL[size];
+    std::vector<TI_REAL> ema_mem(size);
+    TI_REAL *ema = ema_mem.data();
     ti_ema(size, &series, options, &ema);
 
-    TI_REAL *data = new TI_REAL[2*k+1];
+    std::vector<TI_REAL> data_mem(2*k+1);
+    TI_REAL *data = data_mem.data();
 
     for (int i = 2*k; i < size; ++i) {
         for (int j = 0; j < 2*k+1; ++j) {
@@ -109,10 +111,10 @@ int ti_hfema_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options,
         *hfema++ = fabs(candidate - median_price) <= threshold * 1.4826 * median_deviation ? candidate : median_price;
     }
 
-    delete[] data;
-    delete[] ema;
 
     return TI_OKAY;
+} catch (std::bad_alloc&) {
+    return TI_OUT_OF_MEMORY;
 }
 
 struct ti_hfema_stream : ti_stream {
-- 
2.43.0


From 1b92fa8ecee442dd68d9d8768e5c21b13d941b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:48 +0000
Subject: [PATCH 077/136] fix: hfsma: the reference has to return the
 out-of-memory code when an allocation fails

---
 indicators/hfsma.cc | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/indicators/hfsma.cc b/indicators/hfsma.cc
index b27cad0..45403cf 100644
--- a/indicators/hfsma.cc
+++ b/indicators/hfsma.cc
@@ -72,7 +72,7 @@ int ti_hfsma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_
     return TI_OUT_OF_MEMORY;
 }
 
-int ti_hfsma_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
+int ti_hfsma_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) try {
     const TI_REAL *const series = inputs[0];
     int sma_period = options[0];
     int k = options[1];
@@ -83,10 +83,12 @@ int ti_hfsma_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options,
     if (k < 1) { return TI_INVALID_OPTION; }
     if (threshold < 0) { return TI_INVALID_OPTION; }
 
-    TI_REAL *sma = new TI_REAL[size];
+    std::vector<TI_REAL> sma_mem(size);
+    TI_REAL *sma = sma_mem.data();
     ti_sma(size, &series, options, &sma);
 
-    TI_REAL *data = new TI_REAL[2*(int)k+1];
+    std::vector<TI_REAL> data_mem(2*(int)k+1);
+    TI_REAL *data = data_mem.data();
 
     for (int i = 2*k; i < size - ti_sma_start(options); ++i) {
         for (int j = 0; j < 2*k+1; ++j) {
@@ -105,10 +107,10 @@ int ti_hfsma_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options,
         *hfsma++ = fabs(candidate - median_price) <= threshold * 1.4826 * median_deviation ? candidate : median_price;
     }
 
-    delete[] data;
-    delete[] sma;
 
     return TI_OKAY;
+} catch (std::bad_alloc&) {
+    return TI_OUT_OF_MEMORY;
 }
 
 struct ti_hfsma_stream : ti_stream {
-- 
2.43.0


From f5ab002d667606ec1b4155ef464d777157fc4d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:48 +0000
Subject: [PATCH 078/136] fix: mama: the reference has to return the
 out-of-memory code when an allocation fails

---
 indicators/mama.cc | 65 ++++++++++++++++++++++++----------------------
 1 file changed, 34 insertions(+), 31 deletions(-)

diff --git a/indicators/mama.cc b/indicators/mama.cc
index 0a054cc..02ddece 100644
--- a/indicators/mama.cc
+++ b/indicators/mama.cc
@@ -4,6 +4,7 @@
  */
 
 
+#include <vector>
 #include <new>
 #include <algorithm>
 
@@ -88,7 +89,7 @@ int ti_mama(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_R
     return TI_OUT_OF_MEMORY;
 }
 
-int ti_mama_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
+int ti_mama_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) try {
     TI_REAL const *series = inputs[0];
     const TI_REAL fastlimit = options[0];
     const TI_REAL slowlimit = options[1];
@@ -104,21 +105,36 @@ int ti_mama_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options,
     // Straightforward translation of the original definition in EasyLanguage
     TI_REAL const *price = series;
 
-    TI_REAL *smooth = (TI_REAL*)calloc(size, sizeof(TI_REAL));
-    TI_REAL *detrender = (TI_REAL*)calloc(size, sizeof(TI_REAL));
-    TI_REAL *I1 = (TI_REAL*)calloc(size, sizeof(TI_REAL));
-    TI_REAL *Q1 = (TI_REAL*)calloc(size, sizeof(TI_REAL));
-    TI_REAL *jI = (TI_REAL*)calloc(size, sizeof(TI_REAL));
-    TI_REAL *jQ = (TI_REAL*)calloc(size, sizeof(TI_REAL));
-    TI_REAL *I2 = (TI_REAL*)calloc(size, sizeof(TI_REAL));
-    TI_REAL *Q2 = (TI_REAL*)calloc(size, sizeof(TI_REAL));
-    TI_REAL *Re = (TI_REAL*)calloc(size, sizeof(TI_REAL));
-    TI_REAL *Im = (TI_REAL*)calloc(size, sizeof(TI_REAL));
-    TI_REAL *period = (TI_REAL*)calloc(size, sizeof(TI_REAL));
-    TI_REAL *smoothperiod = (TI_REAL*)calloc(size, sizeof(TI_REAL));
-    TI_REAL *phase = (TI_REAL*)calloc(size, sizeof(TI_REAL));
-    TI_REAL *deltaphase = (TI_REAL*)calloc(size, sizeof(TI_REAL));
-    TI_REAL *alpha = (TI_REAL*)calloc(size, sizeof(TI_REAL));
+    std::vector<TI_REAL> smooth_mem(size);
+    TI_REAL *smooth = smooth_mem.data();
+    std::vector<TI_REAL> detrender_mem(size);
+    TI_REAL *detrender = detrender_mem.data();
+    std::vector<TI_REAL> I1_mem(size);
+    TI_REAL *I1 = I1_mem.data();
+    std::vector<TI_REAL> Q1_mem(size);
+    TI_REAL *Q1 = Q1_mem.data();
+    std::vector<TI_REAL> jI_mem(size);
+    TI_REAL *jI = jI_mem.data();
+    std::vector<TI_REAL> jQ_mem(size);
+    TI_REAL *jQ = jQ_mem.data();
+    std::vector<TI_REAL> I2_mem(size);
+    TI_REAL *I2 = I2_mem.data();
+    std::vector<TI_REAL> Q2_mem(size);
+    TI_REAL *Q2 = Q2_mem.data();
+    std::vector<TI_REAL> Re_mem(size);
+    TI_REAL *Re = Re_mem.data();
+    std::vector<TI_REAL> Im_mem(size);
+    TI_REAL *Im = Im_mem.data();
+    std::vector<TI_REAL> period_mem(size);
+    TI_REAL *period = period_mem.data();
+    std::vector<TI_REAL> smoothperiod_mem(size);
+    TI_REAL *smoothperiod = smoothperiod_mem.data();
+    std::vector<TI_REAL> phase_mem(size);
+    TI_REAL *phase = phase_mem.data();
+    std::vector<TI_REAL> deltaphase_mem(size);
+    TI_REAL *deltaphase = deltaphase_mem.data();
+    std::vector<TI_REAL> alpha_mem(size);
+    TI_REAL *alpha = alpha_mem.data();
 
     for (int i = 6; i < size; ++i) {
         smooth[i] = (4 * price[i] + 3 * price[i-1] + 2 * price[i-2] + price[i-3]) / 10.;
@@ -173,23 +189,10 @@ int ti_mama_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options,
         ++fama;
     }
 
-    free(smooth);
-    free(detrender);
-    free(I1);
-    free(Q1);
-    free(jI);
-    free(jQ);
-    free(I2);
-    free(Q2);
-    free(Re);
-    free(Im);
-    free(period);
-    free(smoothperiod);
-    free(phase);
-    free(deltaphase);
-    free(alpha);
 
     return TI_OKAY;
+} catch (std::bad_alloc&) {
+    return TI_OUT_OF_MEMORY;
 }
 
 struct ti_mama_stream : ti_stream {
-- 
2.43.0


From ad2665952b3088d94cbc503e573c9d7244b58502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:48 +0000
Subject: [PATCH 079/136] fix: cmi: return the out-of-memory code when an
 allocation fails

---
 indicators/cmi.cc | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/indicators/cmi.cc b/indicators/cmi.cc
index c9fa0b6..0038315 100644
--- a/indicators/cmi.cc
+++ b/indicators/cmi.cc
@@ -4,6 +4,7 @@
  */
 
 
+#include <vector>
 #include <new>
 #include <algorithm>
 
@@ -18,7 +19,7 @@ int ti_cmi_start(TI_REAL const *options) {
     return period-1;
 }
 
-int ti_cmi(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
+int ti_cmi(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) try {
     TI_REAL const *const high = inputs[0];
     TI_REAL const *const low = inputs[1];
     TI_REAL const *const close = inputs[2];
@@ -89,9 +90,11 @@ int ti_cmi(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
     }
 
     return TI_OKAY;
+} catch (std::bad_alloc&) {
+    return TI_OUT_OF_MEMORY;
 }
 
-DONTOPTIMIZE int ti_cmi_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
+DONTOPTIMIZE int ti_cmi_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) try {
     TI_REAL const *const high = inputs[0];
     TI_REAL const *const low = inputs[1];
     TI_REAL const *const close = inputs[2];
@@ -102,8 +105,10 @@ DONTOPTIMIZE int ti_cmi_ref(int size, TI_REAL const *const *inputs, TI_REAL cons
 
     if (size <= ti_cmi_start(options)) { return TI_OKAY; }
 
-    TI_REAL *tr = new TI_REAL[size];
-    TI_REAL *sum = new TI_REAL[size-(int)period+1];
+    std::vector<TI_REAL> tr_mem(size);
+    TI_REAL *tr = tr_mem.data();
+    std::vector<TI_REAL> sum_mem(size-(int)period+1);
+    TI_REAL *sum = sum_mem.data();
 
     ti_tr(size, inputs, NULL, &tr);
     ti_sum(size, &tr, &period, &sum);
@@ -116,9 +121,9 @@ DONTOPTIMIZE int ti_cmi_ref(int size, TI_REAL const *const *inputs, TI_REAL cons
         *cmi++ = log((hh - ll) / ink) / log(period) * 100;
     }
 
-    delete[] tr;
-    delete[] sum;
     return TI_OKAY;
+} catch (std::bad_alloc&) {
+    return TI_OUT_OF_MEMORY;
 }
 
 struct ti_cmi_stream : ti_stream {
-- 
2.43.0


From 4655b52c42868ef7fb72569f6d986ec8f43c9bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:48 +0000
Subject: [PATCH 080/136] fix: mhlma: return the out-of-memory code when an
 allocation fails

---
 indicators/mhlma.cc | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/indicators/mhlma.cc b/indicators/mhlma.cc
index 548662c..5210116 100644
--- a/indicators/mhlma.cc
+++ b/indicators/mhlma.cc
@@ -4,6 +4,7 @@
  */
 
 
+#include <vector>
 #include <new>
 #include <algorithm>
 
@@ -19,7 +20,7 @@ int ti_mhlma_start(TI_REAL const *options) {
     return ma_period-1;
 }
 
-int ti_mhlma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
+int ti_mhlma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) try {
     TI_REAL const *const series = inputs[0];
     const int period = options[0];
     const int ma_period = options[1];
@@ -125,9 +126,11 @@ int ti_mhlma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_
     }
 
     return TI_OKAY;
+} catch (std::bad_alloc&) {
+    return TI_OUT_OF_MEMORY;
 }
 
-DONTOPTIMIZE int ti_mhlma_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
+DONTOPTIMIZE int ti_mhlma_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) try {
     TI_REAL const *const series = inputs[0];
     const TI_REAL period = options[0];
     const TI_REAL ma_period = options[1];
@@ -136,7 +139,8 @@ DONTOPTIMIZE int ti_mhlma_ref(int size, TI_REAL const *const *inputs, TI_REAL co
 
     if (period < 1 || ma_period < 1) { return TI_INVALID_OPTION; }
 
-    TI_REAL *mhl = new TI_REAL[size];
+    std::vector<TI_REAL> mhl_mem(size);
+    TI_REAL *mhl = mhl_mem.data();
 
     for (int i = 0; i < size; ++i) {
         TI_REAL hh = *std::max_element(std::max<TI_REAL const*>(series+i-(int)period+1, series), series+i+1);
@@ -144,7 +148,8 @@ DONTOPTIMIZE int ti_mhlma_ref(int size, TI_REAL const *const *inputs, TI_REAL co
         mhl[i] = (hh + ll) / 2.;
     }
 
-    TI_REAL *ema_buf = new TI_REAL[size];
+    std::vector<TI_REAL> ema_buf_mem(size);
+    TI_REAL *ema_buf = ema_buf_mem.data();
 
     ti_sma(size, &mhl, &ma_period, &mhlsma);
 
@@ -153,10 +158,10 @@ DONTOPTIMIZE int ti_mhlma_ref(int size, TI_REAL const *const *inputs, TI_REAL co
         mhlema[i-(int)ma_period+1] = ema_buf[i];
     }
 
-    delete[] mhl;
-    delete[] ema_buf;
 
     return TI_OKAY;
+} catch (std::bad_alloc&) {
+    return TI_OUT_OF_MEMORY;
 }
 
 struct ti_mhlma_stream : ti_stream {
-- 
2.43.0


From d390b3a65c03fda55b89c67542f2f6c65c5fb903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:48 +0000
Subject: [PATCH 081/136] fix: hf: return the out-of-memory code when an
 allocation fails

---
 indicators/hf.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/indicators/hf.cc b/indicators/hf.cc
index a014e5d..7f968f5 100644
--- a/indicators/hf.cc
+++ b/indicators/hf.cc
@@ -21,7 +21,7 @@ int ti_hf_start(TI_REAL const *options) {
     return 2*k;
 }
 
-int ti_hf(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
+int ti_hf(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) try {
     TI_REAL const *const series = inputs[0];
     const int k = options[0];
     const TI_REAL threshold = options[1];
@@ -58,9 +58,11 @@ int ti_hf(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REA
     }
 
     return TI_OKAY;
+} catch (std::bad_alloc&) {
+    return TI_OUT_OF_MEMORY;
 }
 
-DONTOPTIMIZE int ti_hf_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
+DONTOPTIMIZE int ti_hf_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) try {
     TI_REAL const *const series = inputs[0];
     const int k = options[0];
     const TI_REAL threshold = options[1];
@@ -95,6 +97,8 @@ DONTOPTIMIZE int ti_hf_ref(int size, TI_REAL const *const *inputs, TI_REAL const
     }
 
     return TI_OKAY;
+} catch (std::bad_alloc&) {
+    return TI_OUT_OF_MEMORY;
 }
 
 struct ti_hf_stream : ti_stream {
-- 
2.43.0


From 59a95884bab797256f9e0646f6f4ca0d9cb767ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:48 +0000
Subject: [PATCH 082/136] fix: edcf: return the out-of-memory code when an
 allocation fails

---
 indicators/edcf.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/indicators/edcf.cc b/indicators/edcf.cc
index ef75af6..82d48b5 100644
--- a/indicators/edcf.cc
+++ b/indicators/edcf.cc
@@ -19,7 +19,7 @@ int ti_edcf_start(TI_REAL const *options) {
     return 2*length-1;
 }
 
-int ti_edcf(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
+int ti_edcf(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) try {
     TI_REAL const *const series = inputs[0];
     TI_REAL length = options[0];
     TI_REAL *edcf = outputs[0];
@@ -60,6 +60,8 @@ int ti_edcf(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_R
     }
 
     return TI_OKAY;
+} catch (std::bad_alloc&) {
+    return TI_OUT_OF_MEMORY;
 }
 
 struct ti_edcf_stream : ti_stream {
-- 
2.43.0


From b2b5b6c61ab4737c1bbe2fd7f32320ddfcecb8d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:48 +0000
Subject: [PATCH 083/136] fix: idwma: return the out-of-memory code when an
 allocation fails

---
 indicators/idwma.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/indicators/idwma.cc b/indicators/idwma.cc
index bdd86cb..1876905 100644
--- a/indicators/idwma.cc
+++ b/indicators/idwma.cc
@@ -19,7 +19,7 @@ int ti_idwma_start(TI_REAL const *options) {
     return period-1;
 }
 
-int ti_idwma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
+int ti_idwma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) try {
     TI_REAL const *const series = inputs[0];
     const int period = options[0];
     const TI_REAL exponent = options[1];
@@ -45,6 +45,8 @@ int ti_idwma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_
     }
 
     return TI_OKAY;
+} catch (std::bad_alloc&) {
+    return TI_OUT_OF_MEMORY;
 }
 
 DONTOPTIMIZE int ti_idwma_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
-- 
2.43.0


From cc785f27c6f5a89f3aafcf3d957ae421f7a523a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:48 +0000
Subject: [PATCH 084/136] fix: rmf: return the out-of-memory code when an
 allocation fails

---
 indicators/rmf.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/indicators/rmf.cc b/indicators/rmf.cc
index 199545a..c233f1b 100644
--- a/indicators/rmf.cc
+++ b/indicators/rmf.cc
@@ -22,7 +22,7 @@ int ti_rmf_start(TI_REAL const *options) {
     return median_period-1;
 }
 
-int ti_rmf(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
+int ti_rmf(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) try {
     TI_REAL const *const series = inputs[0];
     TI_REAL critical_period = options[0];
     TI_REAL median_period = options[1];
@@ -64,6 +64,8 @@ int ti_rmf(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
     }
 
     return TI_OKAY;
+} catch (std::bad_alloc&) {
+    return TI_OUT_OF_MEMORY;
 }
 
 struct ti_rmf_stream : ti_stream {
-- 
2.43.0


From 75159e719ef186c964a37147c2d3b0e07e901a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:48 +0000
Subject: [PATCH 085/136] fix: rmi: the reference has to return the
 out-of-memory code when an allocation fails

---
 indicators/rmi.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/indicators/rmi.cc b/indicators/rmi.cc
index 5effbea..d134e68 100644
--- a/indicators/rmi.cc
+++ b/indicators/rmi.cc
@@ -65,6 +65,7 @@ int ti_rmi_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, T
 
     TI_REAL *gains = (TI_REAL*)malloc(sizeof(TI_REAL) * (size-start));
     TI_REAL *losses = (TI_REAL*)malloc(sizeof(TI_REAL) * (size-start));
+    if (!gains || !losses) { free(gains); free(losses); return TI_OUT_OF_MEMORY; }
 
     for (int i = lookback_period; i < size; ++i) {
         gains[i-start] = MAX(0, series[i] - series[i-(int)lookback_period]);
-- 
2.43.0


From 22d8fed6a0aaaf406f0e9c79c02b6f6c52f8eec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:48 +0000
Subject: [PATCH 086/136] fix: posc: the reference has to return the
 out-of-memory code when an allocation fails

---
 indicators/posc.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/indicators/posc.cc b/indicators/posc.cc
index 769eb6b..07a2093 100644
--- a/indicators/posc.cc
+++ b/indicators/posc.cc
@@ -104,6 +104,7 @@ int ti_posc_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options,
 
     int start = ti_linregslope_start(options);
     TI_REAL *b = (TI_REAL*)malloc(sizeof(TI_REAL) * (size - start));
+    if (!b) { return TI_OUT_OF_MEMORY; }
 
     ti_linregslope(size, &close, &period, &b);
 
-- 
2.43.0


From 85f73aa0f3b2331dfda4f04946f5502ff6abf7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:48 +0000
Subject: [PATCH 087/136] fix: pbands: the reference has to return the
 out-of-memory code when an allocation fails

---
 indicators/pbands.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/indicators/pbands.cc b/indicators/pbands.cc
index 3d57c9c..39f1d2d 100644
--- a/indicators/pbands.cc
+++ b/indicators/pbands.cc
@@ -84,6 +84,7 @@ int ti_pbands_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options
 
     int start = ti_linregslope_start(options);
     TI_REAL *b = (TI_REAL*)malloc(sizeof(TI_REAL) * (size - start));
+    if (!b) { return TI_OUT_OF_MEMORY; }
 
     ti_linregslope(size, &close, &period, &b);
 
-- 
2.43.0


From a6440231e43316b56be10d17c14688caec2c0963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:48 +0000
Subject: [PATCH 088/136] fix: vwap: the reference has to return the
 out-of-memory code when an allocation fails

---
 indicators/vwap.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/indicators/vwap.cc b/indicators/vwap.cc
index 000b870..71665e8 100644
--- a/indicators/vwap.cc
+++ b/indicators/vwap.cc
@@ -62,6 +62,7 @@ int ti_vwap_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options,
 
     int outsize = size - ti_typprice_start(&period);
     TI_REAL *typprice = (TI_REAL*)malloc(sizeof(TI_REAL) * outsize);
+    if (!typprice) { return TI_OUT_OF_MEMORY; }
     ti_typprice(size, inputs, 0, &typprice);
     
     TI_REAL sum = 0;
-- 
2.43.0


From 19a78217563815776bfea613677e9ee801ae62cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:48 +0000
Subject: [PATCH 089/136] fix: smi: the reference has to return the
 out-of-memory code when an allocation fails

---
 indicators/smi.cc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/indicators/smi.cc b/indicators/smi.cc
index daecd41..b92c4c4 100644
--- a/indicators/smi.cc
+++ b/indicators/smi.cc
@@ -129,13 +129,19 @@ int ti_smi_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, T
 
     TI_REAL *max = (TI_REAL*)malloc(sizeof(TI_REAL) * outsize);
     TI_REAL *min = (TI_REAL*)malloc(sizeof(TI_REAL) * outsize);
+    TI_REAL *num = (TI_REAL*)malloc(sizeof(TI_REAL) * outsize);
+    TI_REAL *den = (TI_REAL*)malloc(sizeof(TI_REAL) * outsize);
+    if (!max || !min || !num || !den) {
+        free(max);
+        free(min);
+        free(num);
+        free(den);
+        return TI_OUT_OF_MEMORY;
+    }
 
     ti_max(size, &high, &q_period, &max);
     ti_min(size, &low, &q_period, &min);
 
-    TI_REAL *num = (TI_REAL*)malloc(sizeof(TI_REAL) * outsize);
-    TI_REAL *den = (TI_REAL*)malloc(sizeof(TI_REAL) * outsize);
-
     for (int i = 0; i < outsize; ++i) {
         num[i] = close[size-outsize + i] - 0.5 * (max[i] + min[i]);
         den[i] = max[i] - min[i];
-- 
2.43.0


From 18b4f06c4ce7f70e179ca3a9078942cd34b1da4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:48 +0000
Subject: [PATCH 090/136] fix: tsi: the reference has to return the
 out-of-memory code when an allocation fails

---
 indicators/tsi.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/indicators/tsi.cc b/indicators/tsi.cc
index f07cd9f..25847f8 100644
--- a/indicators/tsi.cc
+++ b/indicators/tsi.cc
@@ -66,12 +66,15 @@ int ti_tsi_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, T
 
     for (int i = 0; i < 2; ++i) { if (options[i] < 1) { return TI_INVALID_OPTION; } }
 
+    if (size <= ti_tsi_start(options)) { return TI_OKAY; }
+
     TI_REAL _one = 1;
     int outsize = size - ti_mom_start(&_one);
     TI_REAL *momentum = (TI_REAL*)malloc(sizeof(TI_REAL) * outsize);
-    ti_mom(size, &series, &_one, &momentum);
-
     TI_REAL *absmomentum = (TI_REAL*)malloc(sizeof(TI_REAL) * outsize);
+    if (!momentum || !absmomentum) { free(momentum); free(absmomentum); return TI_OUT_OF_MEMORY; }
+
+    ti_mom(size, &series, &_one, &momentum);
     ti_abs(outsize, &momentum, 0, &absmomentum);
 
     ti_ema(outsize, &momentum, &y_period, &momentum);
-- 
2.43.0


From 2c49656ed0d98ba051a8aad9bfdb8ca6e55a2da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:48 +0000
Subject: [PATCH 091/136] fix: ce: the reference has to return the
 out-of-memory code when an allocation fails

---
 indicators/ce.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/indicators/ce.cc b/indicators/ce.cc
index 2466bbc..efdfb27 100644
--- a/indicators/ce.cc
+++ b/indicators/ce.cc
@@ -133,10 +133,10 @@ int ti_ce_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI
 	if (!atr) { return TI_OUT_OF_MEMORY; }
     ti_atr(size, inputs, &period, &atr);
     TI_REAL *max = (TI_REAL*)calloc(1, (size - ti_max_start(&period)) * sizeof(TI_REAL));
-	if (!atr) { return TI_OUT_OF_MEMORY; }
+	if (!max) { free(atr); return TI_OUT_OF_MEMORY; }
 	ti_max(size, &high, &period, &max);
     TI_REAL *min = (TI_REAL*)calloc(1, (size - ti_min_start(&period)) * sizeof(TI_REAL));
-	if (!atr) { return TI_OUT_OF_MEMORY; }
+	if (!min) { free(atr); free(max); return TI_OUT_OF_MEMORY; }
 	ti_min(size, &low, &period, &min);
 
 
-- 
2.43.0


From 5cc8c05004db21dc5b539d02cfc30740dd7110c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:48 +0000
Subject: [PATCH 092/136] fix: copp: the reference has to return the
 out-of-memory code when an allocation fails

---
 indicators/copp.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/indicators/copp.cc b/indicators/copp.cc
index 9a3549d..955ca5e 100644
--- a/indicators/copp.cc
+++ b/indicators/copp.cc
@@ -93,6 +93,13 @@ int ti_copp_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options,
 
     TI_REAL *interm = (TI_REAL*)malloc(sizeof(TI_REAL) * roc_long_len);
 
+    if (!roc_short || !roc_long || !interm) {
+        free(roc_short);
+        free(roc_long);
+        free(interm);
+        return TI_OUT_OF_MEMORY;
+    }
+
     // int wma_len = roc_long_len-ti_wma_start(&wma_period);
     // TI_REAL *wma = malloc(sizeof(TI_REAL[wma_len]));
 
-- 
2.43.0


From 90d634a65397b612c11cb3a6e740249d50484ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:48 +0000
Subject: [PATCH 093/136] fix: kst: the reference has to return the
 out-of-memory code when an allocation fails

---
 indicators/kst.cc | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/indicators/kst.cc b/indicators/kst.cc
index 93aa0c1..df02ab6 100755
--- a/indicators/kst.cc
+++ b/indicators/kst.cc
@@ -122,6 +122,8 @@ int ti_kst_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, T
         }
     }
 
+    if (size <= ti_kst_start(options)) { return TI_OKAY; }
+
     int size_roc[4];
     int size_ema[4];
     TI_REAL *roc_mem[4];
@@ -132,9 +134,16 @@ int ti_kst_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, T
         size_ema[i] = size_roc[i] - ti_ema_start(ma + i);
 
         roc_mem[i] = (TI_REAL*)malloc(sizeof(TI_REAL) * size_roc[i]);
-        ti_roc(size, &series, roc + i, roc_mem + i);
-
         ema_mem[i] = (TI_REAL*)malloc(sizeof(TI_REAL) * size_ema[i]);
+        if (!roc_mem[i] || !ema_mem[i]) {
+            for (int j = 0; j <= i; ++j) {
+                free(roc_mem[j]);
+                free(ema_mem[j]);
+            }
+            return TI_OUT_OF_MEMORY;
+        }
+
+        ti_roc(size, &series, roc + i, roc_mem + i);
         ti_ema(size_roc[i], roc_mem + i, ma + i, ema_mem + i);
     }
 
-- 
2.43.0


From 277a0edd566a46ac62b775017a1fb071e6911f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:48 +0000
Subject: [PATCH 094/136] fix: gf4: do not read or write beyond a series of
 fewer than five bars

---
 indicators/gf4.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/indicators/gf4.cc b/indicators/gf4.cc
index 0260cb5..dc76ba7 100644
--- a/indicators/gf4.cc
+++ b/indicators/gf4.cc
@@ -51,7 +51,7 @@ int ti_gf4(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
     TI_REAL csum_reciproc = 1./(B0 + A1 + A2 + A3 + A4);
 
     int i = 0;
-    for (; i < 5; ++i, step(f)) {
+    for (; i < 5 && i < size; ++i, step(f)) {
         f = series[i];
         *gf4++ = f;
     }
@@ -83,7 +83,7 @@ DONTOPTIMIZE int ti_gf4_ref(int size, TI_REAL const *const *inputs, TI_REAL cons
     TI_REAL csum_reciproc = 1./(B0 + A1 + A2 + A3 + A4);
 
     int i = 0;
-    for (; i < 5; ++i, step(f)) {
+    for (; i < 5 && i < size; ++i, step(f)) {
         f = series[i];
         *gf4++ = f;
     }
-- 
2.43.0


From 12dbe96c560247b708df654173c8372131820bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:41 +0000
Subject: [PATCH 095/136] fix: kst: no output and no read beyond the series
 when there are too few bars

---
 indicators/kst.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/indicators/kst.cc b/indicators/kst.cc
index df02ab6..628d6e0 100755
--- a/indicators/kst.cc
+++ b/indicators/kst.cc
@@ -55,6 +55,8 @@ int ti_kst(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
         }
     }
 
+    if (size <= ti_kst_start(options)) { return TI_OKAY; }
+
     TI_REAL max_ma;
     MAX4(max_ma, ma1, ma2, ma3, ma4);
 
-- 
2.43.0


From e052a89430586386011ec1dc080f050672bb7525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:41 +0000
Subject: [PATCH 096/136] fix: frama: return the out-of-memory code when a
 member of the stream cannot be allocated

---
 indicators/frama.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/indicators/frama.cc b/indicators/frama.cc
index 6c1adf4..e38e065 100644
--- a/indicators/frama.cc
+++ b/indicators/frama.cc
@@ -136,7 +136,7 @@ struct ti_frama_stream : ti_stream {
     } constants;
 };
 
-int ti_frama_stream_new(TI_REAL const *options, ti_stream **stream) {
+int ti_frama_stream_new(TI_REAL const *options, ti_stream **stream) try {
     TI_REAL period = options[0];
     TI_REAL average_period = options[1];
 
@@ -157,6 +157,8 @@ int ti_frama_stream_new(TI_REAL const *options, ti_stream **stream) {
     ptr->constants.w = log(2.0 / (1.0 + average_period));
 
     return TI_OKAY;
+} catch (std::bad_alloc&) {
+    return TI_OUT_OF_MEMORY;
 }
 
 void ti_frama_stream_free(ti_stream *stream) {
-- 
2.43.0


From 0cd8f3fed16d16e97abe9f8c906185538ce15add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:41 +0000
Subject: [PATCH 097/136] fix: rmf: return the out-of-memory code when a member
 of the stream cannot be allocated

---
 indicators/rmf.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/indicators/rmf.cc b/indicators/rmf.cc
index c233f1b..4371cad 100644
--- a/indicators/rmf.cc
+++ b/indicators/rmf.cc
@@ -86,7 +86,7 @@ struct ti_rmf_stream : ti_stream {
     } constants;
 };
 
-int ti_rmf_stream_new(TI_REAL const *options, ti_stream **stream) {
+int ti_rmf_stream_new(TI_REAL const *options, ti_stream **stream) try {
     TI_REAL critical_period = options[0];
     TI_REAL median_period = options[1];
 
@@ -107,6 +107,8 @@ int ti_rmf_stream_new(TI_REAL const *options, ti_stream **stream) {
     ptr->constants.alpha = (cos(2*PI/critical_period) + sin(2*PI/critical_period) - 1.) / cos(2*PI/critical_period);
 
     return TI_OKAY;
+} catch (std::bad_alloc&) {
+    return TI_OUT_OF_MEMORY;
 }
 
 void ti_rmf_stream_free(ti_stream *stream) {
-- 
2.43.0


From 4d9dde307d5353371fbda72c33739a4cffe3beba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:41 +0000
Subject: [PATCH 098/136] fix: vi: return the out-of-memory code when a member
 of the stream cannot be allocated

---
 indicators/vi.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/indicators/vi.cc b/indicators/vi.cc
index 0d297d3..31f3de9 100644
--- a/indicators/vi.cc
+++ b/indicators/vi.cc
@@ -126,7 +126,7 @@ struct ti_vi_stream : ti_stream {
     } constants;
 };
 
-int ti_vi_stream_new(TI_REAL const *options, ti_stream **stream) {
+int ti_vi_stream_new(TI_REAL const *options, ti_stream **stream) try {
     const TI_REAL period = options[0];
 
     if (period < 1) return TI_INVALID_OPTION;
@@ -141,6 +141,8 @@ int ti_vi_stream_new(TI_REAL const *options, ti_stream **stream) {
     ptr->options.period = period;
 
     return TI_OKAY;
+} catch (std::bad_alloc&) {
+    return TI_OUT_OF_MEMORY;
 }
 
 void ti_vi_stream_free(ti_stream *stream) {
-- 
2.43.0


From 15202389a4849993da579eae13067726c8106e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:41 +0000
Subject: [PATCH 099/136] fix: hfsma: the stream has to keep sma_period prices,
 and to release its buffers when out of memory

---
 indicators/hfsma.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/indicators/hfsma.cc b/indicators/hfsma.cc
index 45403cf..d40eea1 100644
--- a/indicators/hfsma.cc
+++ b/indicators/hfsma.cc
@@ -158,10 +158,10 @@ int ti_hfsma_stream_new(TI_REAL const *options, ti_stream **stream) {
 
     try {
         ptr->state.a.resize(2*k+1);
-        ptr->state.price.resize(2*k+1);
+        ptr->state.price.resize(std::max(sma_period, 2*k+1));
         ptr->state.smoothed_price.resize(2*k+1);
     } catch (std::bad_alloc& e) {
-        delete *stream;
+        delete ptr;
         return TI_OUT_OF_MEMORY;
     }
 
-- 
2.43.0


From f999088bf6c6140d541f48e13472a90ebaa3a481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:41 +0000
Subject: [PATCH 100/136] fix: hfema: release the buffers of the stream when
 out of memory

---
 indicators/hfema.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/indicators/hfema.cc b/indicators/hfema.cc
index 813361c..eb93171 100644
--- a/indicators/hfema.cc
+++ b/indicators/hfema.cc
@@ -161,7 +161,7 @@ int ti_hfema_stream_new(TI_REAL const *options, ti_stream **stream) {
         ptr->state.a.resize(2*k+1);
         ptr->state.price.resize(2*k+1);
     } catch (std::bad_alloc& e) {
-        delete *stream;
+        delete ptr;
         return TI_OUT_OF_MEMORY;
     }
 
-- 
2.43.0


From 423d7f3515e6cdc099060fbfdc07a751171cc7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:23 +0000
Subject: [PATCH 101/136] fix: kst: a rate of change from zero is zero, as in
 ti_roc and the reference

---
 indicators/kst.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/indicators/kst.cc b/indicators/kst.cc
index 628d6e0..b2910f6 100755
--- a/indicators/kst.cc
+++ b/indicators/kst.cc
@@ -66,7 +66,7 @@ int ti_kst(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
     TI_REAL per4 = 2. / (ma4 + 1);
     TI_REAL per_signal = 2. / (9. + 1.);
 
-    #define ROC(idx, period) ((series[idx] - series[idx-period]) / series[idx-period])
+    #define ROC(idx, period) (series[idx-period] ? (series[idx] - series[idx-period]) / series[idx-period] : 0)
 
     TI_REAL _1 = ROC(roc1, roc1);
     TI_REAL _2 = ROC(roc2, roc2);
-- 
2.43.0


From fd52a05ba42fa3c892e51dc0cfd74edd540664e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:15 +0000
Subject: [PATCH 102/136] fix: ichi: release the buffers of the stream when out
 of memory

---
 indicators/ichi.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/indicators/ichi.cc b/indicators/ichi.cc
index e73d128..4e67fa7 100644
--- a/indicators/ichi.cc
+++ b/indicators/ichi.cc
@@ -307,7 +307,7 @@ int ti_ichi_stream_new(TI_REAL const *options, ti_stream **stream) {
         ptr->state.price_high.resize(period52);
         ptr->state.price_low.resize(period52);
     } catch (std::bad_alloc& e) {
-        delete *stream;
+        delete ptr;
         return TI_OUT_OF_MEMORY;
     }
 
-- 
2.43.0


From f9de255a6c83747d38f4c58b6655a41abade6c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:15 +0000
Subject: [PATCH 103/136] fix: edcf: return the out-of-memory code when a
 member of the stream cannot be allocated

---
 indicators/edcf.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/indicators/edcf.cc b/indicators/edcf.cc
index 82d48b5..33d77e6 100644
--- a/indicators/edcf.cc
+++ b/indicators/edcf.cc
@@ -81,7 +81,7 @@ struct ti_edcf_stream : ti_stream {
     } constants;
 };
 
-int ti_edcf_stream_new(TI_REAL const *options, ti_stream **stream) {
+int ti_edcf_stream_new(TI_REAL const *options, ti_stream **stream) try {
     TI_REAL lookback = options[0];
     TI_REAL length = options[0];
 
@@ -105,6 +105,8 @@ int ti_edcf_stream_new(TI_REAL const *options, ti_stream **stream) {
     }
 
     return TI_OKAY;
+} catch (std::bad_alloc&) {
+    return TI_OUT_OF_MEMORY;
 }
 
 void ti_edcf_stream_free(ti_stream *stream) {
-- 
2.43.0


From 49eb2980ff152501bb00c32bb349dd61d10aa750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:54 +0000
Subject: [PATCH 104/136] fix: vi: a stream run reports a failed allocation
 instead of throwing

---
 indicators/vi.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/indicators/vi.cc b/indicators/vi.cc
index 31f3de9..9fceeec 100644
--- a/indicators/vi.cc
+++ b/indicators/vi.cc
@@ -149,7 +149,7 @@ void ti_vi_stream_free(ti_stream *stream) {
     delete static_cast<ti_vi_stream*>(stream);
 }
 
-int ti_vi_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs, TI_REAL *const *outputs) {
+int ti_vi_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs, TI_REAL *const *outputs) try {
     ti_vi_stream *ptr = static_cast<ti_vi_stream*>(stream);
     TI_REAL const *const high = inputs[0];
     TI_REAL const *const low = inputs[1];
@@ -224,5 +224,7 @@ int ti_vi_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs,
     ptr->state.last_TR_period = last_TR_period;
 
     return TI_OKAY;
+} catch (std::bad_alloc&) {
+    return TI_OUT_OF_MEMORY;
 }
 
-- 
2.43.0


From 03f23bd63cd6a801995134dc25ec989a6a01fbb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:54 +0000
Subject: [PATCH 105/136] fix: hfema: a stream run reports a failed allocation
 instead of throwing

---
 indicators/hfema.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/indicators/hfema.cc b/indicators/hfema.cc
index eb93171..3a76a14 100644
--- a/indicators/hfema.cc
+++ b/indicators/hfema.cc
@@ -172,7 +172,7 @@ void ti_hfema_stream_free(ti_stream *stream) {
     delete static_cast<ti_hfema_stream*>(stream);
 }
 
-int ti_hfema_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs, TI_REAL *const *outputs) {
+int ti_hfema_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs, TI_REAL *const *outputs) try {
     ti_hfema_stream *ptr = static_cast<ti_hfema_stream*>(stream);
     TI_REAL const *const series = inputs[0];
     TI_REAL *hfema = outputs[0];
@@ -218,4 +218,6 @@ int ti_hfema_stream_run(ti_stream *stream, int size, TI_REAL const *const *input
     ptr->state.ema = ema;
 
     return TI_OKAY;
+} catch (std::bad_alloc&) {
+    return TI_OUT_OF_MEMORY;
 }
-- 
2.43.0


From 2cc848cc4ff7bf8b5e6bea358f83db68348e95e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:54 +0000
Subject: [PATCH 106/136] fix: hf: a stream run reports a failed allocation
 instead of throwing

---
 indicators/hf.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/indicators/hf.cc b/indicators/hf.cc
index 7f968f5..cf1bfe4 100644
--- a/indicators/hf.cc
+++ b/indicators/hf.cc
@@ -151,7 +151,7 @@ void ti_hf_stream_free(ti_stream *stream) {
     delete static_cast<ti_hf_stream*>(stream);
 }
 
-int ti_hf_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs, TI_REAL *const *outputs) {
+int ti_hf_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs, TI_REAL *const *outputs) try {
     ti_hf_stream *ptr = static_cast<ti_hf_stream*>(stream);
     TI_REAL const *const series = inputs[0];
     TI_REAL *hf = outputs[0];
@@ -192,4 +192,6 @@ int ti_hf_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs,
     ptr->progress = progress;
 
     return TI_OKAY;
+} catch (std::bad_alloc&) {
+    return TI_OUT_OF_MEMORY;
 }
-- 
2.43.0


From 9bc2e47f589849ab32a3614dc1e18833634fb798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:54 +0000
Subject: [PATCH 107/136] fix: hfsma: a stream run reports a failed allocation
 instead of throwing

---
 indicators/hfsma.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/indicators/hfsma.cc b/indicators/hfsma.cc
index d40eea1..3c0d4ff 100644
--- a/indicators/hfsma.cc
+++ b/indicators/hfsma.cc
@@ -172,7 +172,7 @@ void ti_hfsma_stream_free(ti_stream *stream) {
     delete static_cast<ti_hfsma_stream*>(stream);
 }
 
-int ti_hfsma_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs, TI_REAL *const *outputs) {
+int ti_hfsma_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs, TI_REAL *const *outputs) try {
     ti_hfsma_stream *ptr = static_cast<ti_hfsma_stream*>(stream);
     const TI_REAL *const series = inputs[0];
     TI_REAL *hfsma = outputs[0];
@@ -224,4 +224,6 @@ int ti_hfsma_stream_run(ti_stream *stream, int size, TI_REAL const *const *input
     ptr->state.sum = sum;
 
     return TI_OKAY;
+} catch (std::bad_alloc&) {
+    return TI_OUT_OF_MEMORY;
 }
-- 
2.43.0


From 750ddc7ba67b13696b50b5d0b470b08a6fcbba4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:54 +0000
Subject: [PATCH 108/136] fix: edcf: a stream run reports a failed allocation
 instead of throwing

---
 indicators/edcf.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/indicators/edcf.cc b/indicators/edcf.cc
index 33d77e6..5fb4f57 100644
--- a/indicators/edcf.cc
+++ b/indicators/edcf.cc
@@ -113,7 +113,7 @@ void ti_edcf_stream_free(ti_stream *stream) {
     delete static_cast<ti_edcf_stream*>(stream);
 }
 
-int ti_edcf_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs, TI_REAL *const *outputs) {
+int ti_edcf_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs, TI_REAL *const *outputs) try {
     ti_edcf_stream *ptr = static_cast<ti_edcf_stream*>(stream);
     TI_REAL const *const series = inputs[0];
     TI_REAL *edcf = outputs[0];
@@ -152,4 +152,6 @@ int ti_edcf_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs
     ptr->progress = progress;
 
     return TI_OKAY;
+} catch (std::bad_alloc&) {
+    return TI_OUT_OF_MEMORY;
 }
-- 
2.43.0


From e8e5b740d4087daef509baa1d9f40b8cf2f8c344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:54 +0000
Subject: [PATCH 109/136] fix: frama: a stream run reports a failed allocation
 instead of throwing

---
 indicators/frama.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/indicators/frama.cc b/indicators/frama.cc
index e38e065..086e466 100644
--- a/indicators/frama.cc
+++ b/indicators/frama.cc
@@ -165,7 +165,7 @@ void ti_frama_stream_free(ti_stream *stream) {
     delete static_cast<ti_frama_stream*>(stream);
 }
 
-int ti_frama_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs, TI_REAL *const *outputs) {
+int ti_frama_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs, TI_REAL *const *outputs) try {
     ti_frama_stream *ptr = static_cast<ti_frama_stream*>(stream);
     TI_REAL const *high = inputs[0];
     TI_REAL const *low = inputs[1];
@@ -329,4 +329,6 @@ int ti_frama_stream_run(ti_stream *stream, int size, TI_REAL const *const *input
     ptr->state.min2_idx = min2_idx;
 
     return TI_OKAY;
+} catch (std::bad_alloc&) {
+    return TI_OUT_OF_MEMORY;
 }
-- 
2.43.0


From 84da08c4121951a9532d451f8d7148b093e4b890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:54 +0000
Subject: [PATCH 110/136] fix: rmf: a stream run reports a failed allocation
 instead of throwing

---
 indicators/rmf.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/indicators/rmf.cc b/indicators/rmf.cc
index 4371cad..cf35e3d 100644
--- a/indicators/rmf.cc
+++ b/indicators/rmf.cc
@@ -115,7 +115,7 @@ void ti_rmf_stream_free(ti_stream *stream) {
     delete static_cast<ti_rmf_stream*>(stream);
 }
 
-int ti_rmf_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs, TI_REAL *const *outputs) {
+int ti_rmf_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs, TI_REAL *const *outputs) try {
     ti_rmf_stream *ptr = static_cast<ti_rmf_stream*>(stream);
     TI_REAL const *const series = inputs[0];
     TI_REAL *rmf = outputs[0];
@@ -155,4 +155,6 @@ int ti_rmf_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs,
     ptr->state.rmf_val = rmf_val;
 
     return TI_OKAY;
+} catch (std::bad_alloc&) {
+    return TI_OUT_OF_MEMORY;
 }
-- 
2.43.0


From 7bbe465c202398d8efd8cc5b81ce136c92f81325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:28 +0000
Subject: [PATCH 111/136] fix: ringbuf<2>: honour the period and the comparison
 in find_max and find_min

---
 utils/ringbuf.hh | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/utils/ringbuf.hh b/utils/ringbuf.hh
index 955eddb..89ca25d 100644
--- a/utils/ringbuf.hh
+++ b/utils/ringbuf.hh
@@ -105,12 +105,15 @@ struct ringbuf<2> {
 
     template<class Cmp = std::less<TI_REAL>>
     TI_REAL* find_max(int period) {
-        if (a1 >= a2) { return &a1; }
+        assert(period <= 2);
+        assert(period > 0);
+
+        Cmp cmp;
+        if (period < 2 || !cmp(a1, a2)) { return &a1; }
         else { return &a2; }
     }
     TI_REAL* find_min(int period) {
-        if (a1 <= a2) { return &a1; }
-        else { return &a2; }
+        return find_max<std::greater<TI_REAL>>(period);
     }
 
     TI_REAL* phbegin() { return &a1; }
-- 
2.43.0


From 4d1a1581e75937096de500c98d4f6955ae03d14e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:01 +0000
Subject: [PATCH 112/136] fix: binding: reject surplus, duplicate and unknown
 arguments

---
 bindings/python/tindicators/impl.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/bindings/python/tindicators/impl.py b/bindings/python/tindicators/impl.py
index c3d2c57..e2efcf1 100644
--- a/bindings/python/tindicators/impl.py
+++ b/bindings/python/tindicators/impl.py
@@ -98,6 +98,13 @@ class _Indicator:
         inputs_lst = self.__parse(args, kwargs, 0, self.info.inputs)
         options_lst = self.__parse(args, kwargs, len(self.info.inputs), self.info.options)
 
+        names = self.info.inputs + self.info.options
+        if len(args) > len(names):
+            raise TypeError(f'{self.info.name} takes {len(names)} arguments but {len(args)} were given')
+        for name in kwargs:
+            if name not in names[len(args):]:
+                raise TypeError(f'{self.info.name} got an unexpected or duplicate argument {name!r}')
+
         options = (c_double * len(self.info.options))()  # double options[]
         for idx, option in enumerate(options_lst):
             options[idx] = option
-- 
2.43.0


From a30445bc644d3e4b33b6db2b84c46c292d3b4dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:01 +0000
Subject: [PATCH 113/136] fix: binding: cut the input series to their common
 length

---
 bindings/python/tindicators/impl.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bindings/python/tindicators/impl.py b/bindings/python/tindicators/impl.py
index e2efcf1..b8fa66f 100644
--- a/bindings/python/tindicators/impl.py
+++ b/bindings/python/tindicators/impl.py
@@ -109,13 +109,13 @@ class _Indicator:
         for idx, option in enumerate(options_lst):
             options[idx] = option
 
-        insize = len(inputs_lst[0])
+        insize = min(map(len, inputs_lst))
         start_amount = self.__start(options)
         outsize = insize - start_amount
 
         inputs = (POINTER(c_double * insize) * len(self.info.inputs))()  # double *inputs[]
         for idx in range(len(self.info.inputs)):
-            inp = (c_double * insize)(*inputs_lst[idx])  # ensures that the array is not temporary
+            inp = (c_double * insize)(*list(inputs_lst[idx])[:insize])  # ensures that the array is not temporary
             inputs[idx] = pointer(inp)
 
         outputs = (POINTER(c_double * outsize) * len(self.info.outputs))()  # double *outputs[]
-- 
2.43.0


From 141168c0fee68956887dfbca080b4927416e8ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:01 +0000
Subject: [PATCH 114/136] fix: binding: series too short for the start offset
 give not-a-number entries only

---
 bindings/python/tindicators/impl.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bindings/python/tindicators/impl.py b/bindings/python/tindicators/impl.py
index b8fa66f..a6dcfa2 100644
--- a/bindings/python/tindicators/impl.py
+++ b/bindings/python/tindicators/impl.py
@@ -111,6 +111,7 @@ class _Indicator:
 
         insize = min(map(len, inputs_lst))
         start_amount = self.__start(options)
+        start_amount = min(max(start_amount, 0), insize)
         outsize = insize - start_amount
 
         inputs = (POINTER(c_double * insize) * len(self.info.inputs))()  # double *inputs[]
-- 
2.43.0


From e5871d05a4fa6e9b65659b3f37bf892f6f105028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:01 +0000
Subject: [PATCH 115/136] fix: binding: option values of any spelling name the
 result

---
 bindings/python/tindicators/impl.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bindings/python/tindicators/impl.py b/bindings/python/tindicators/impl.py
index a6dcfa2..d2ff737 100644
--- a/bindings/python/tindicators/impl.py
+++ b/bindings/python/tindicators/impl.py
@@ -9,6 +9,7 @@ import numpy as np
 from collections import namedtuple
 import os
 import platform
+import re
 from datetime import datetime
 
 
@@ -147,7 +148,7 @@ class _Indicator:
         return result if len(self.info.outputs) > 1 else result[0]
 
     def __construct_elaborated_name(self, name, options_lst):
-        return name + '_'.join(str(opt).replace('.', 'p').replace('-', 'm') for opt in [''] + options_lst)
+        return name + '_'.join(re.sub(r'\W', '_', str(opt).replace('.', 'p').replace('-', 'm')) for opt in [''] + options_lst)
 
     def __parse(self, args, kwargs, offset, names):
         size = len(names)
-- 
2.43.0


From c82fc2fdafb0f7c641944ad0902a390da120676a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:29 +0000
Subject: [PATCH 116/136] fix: gf3: take A1, A2 and A3 from their own
 coefficient tables

---
 indicators/gf3.cc | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/indicators/gf3.cc b/indicators/gf3.cc
index f2a9e0f..9745d57 100644
--- a/indicators/gf3.cc
+++ b/indicators/gf3.cc
@@ -38,9 +38,9 @@ int ti_gf3(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
     const int idx = period/2-1;
 
     const TI_REAL B0 = tables.B0[idx];
-    const TI_REAL A1 = tables.B0[idx];
-    const TI_REAL A2 = tables.B0[idx];
-    const TI_REAL A3 = tables.B0[idx];
+    const TI_REAL A1 = tables.A1[idx];
+    const TI_REAL A2 = tables.A2[idx];
+    const TI_REAL A3 = tables.A3[idx];
     const TI_REAL csum_recipr = 1. / (B0 + A1 + A2 + A3);
 
     int i = 0;
@@ -66,9 +66,9 @@ DONTOPTIMIZE int ti_gf3_ref(int size, TI_REAL const *const *inputs, TI_REAL cons
     const int idx = period/2-1;
 
     const TI_REAL B0 = tables.B0[idx];
-    const TI_REAL A1 = tables.B0[idx];
-    const TI_REAL A2 = tables.B0[idx];
-    const TI_REAL A3 = tables.B0[idx];
+    const TI_REAL A1 = tables.A1[idx];
+    const TI_REAL A2 = tables.A2[idx];
+    const TI_REAL A3 = tables.A3[idx];
     const TI_REAL csum_recipr = 1. / (B0 + A1 + A2 + A3);
 
     int i = 0;
@@ -117,9 +117,9 @@ int ti_gf3_stream_new(TI_REAL const *options, ti_stream **stream) {
 
     const int idx = period/2-1;
     ptr->constants.B0 = tables.B0[idx];
-    ptr->constants.A1 = tables.B0[idx];
-    ptr->constants.A2 = tables.B0[idx];
-    ptr->constants.A3 = tables.B0[idx];
+    ptr->constants.A1 = tables.A1[idx];
+    ptr->constants.A2 = tables.A2[idx];
+    ptr->constants.A3 = tables.A3[idx];
     ptr->constants.csum_recipr = 1. / (ptr->constants.B0 + ptr->constants.A1 + ptr->constants.A2 + ptr->constants.A3);
 
     return TI_OKAY;
-- 
2.43.0


From a631ec53608b9344e96ec1923ddeeba92ebb10fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:29 +0000
Subject: [PATCH 117/136] fix: gf4: subtract the fourth feedback term of the
 Gaussian recursion

---
 indicators/gf4.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/indicators/gf4.cc b/indicators/gf4.cc
index dc76ba7..620f946 100644
--- a/indicators/gf4.cc
+++ b/indicators/gf4.cc
@@ -48,7 +48,7 @@ int ti_gf4(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
     const TI_REAL A3 = tables.A3[idx];
     const TI_REAL A4 = tables.A4[idx];
 
-    TI_REAL csum_reciproc = 1./(B0 + A1 + A2 + A3 + A4);
+    TI_REAL csum_reciproc = 1./(B0 + A1 + A2 + A3 - A4);
 
     int i = 0;
     for (; i < 5 && i < size; ++i, step(f)) {
@@ -56,7 +56,7 @@ int ti_gf4(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
         *gf4++ = f;
     }
     for (; i < size; ++i, step(f)) {
-        f = (B0*series[i] + A1*f[1] + A2*f[2] + A3*f[3] + A4*f[4]) * csum_reciproc;
+        f = (B0*series[i] + A1*f[1] + A2*f[2] + A3*f[3] - A4*f[4]) * csum_reciproc;
         *gf4++ = f;
     }
 
@@ -80,7 +80,7 @@ DONTOPTIMIZE int ti_gf4_ref(int size, TI_REAL const *const *inputs, TI_REAL cons
     const TI_REAL A2 = tables.A2[idx];
     const TI_REAL A3 = tables.A3[idx];
     const TI_REAL A4 = tables.A4[idx];
-    TI_REAL csum_reciproc = 1./(B0 + A1 + A2 + A3 + A4);
+    TI_REAL csum_reciproc = 1./(B0 + A1 + A2 + A3 - A4);
 
     int i = 0;
     for (; i < 5 && i < size; ++i, step(f)) {
@@ -88,7 +88,7 @@ DONTOPTIMIZE int ti_gf4_ref(int size, TI_REAL const *const *inputs, TI_REAL cons
         *gf4++ = f;
     }
     for (; i < size; ++i, step(f)) {
-        f = (B0*series[i] + A1*f[1] + A2*f[2] + A3*f[3] + A4*f[4]) * csum_reciproc;
+        f = (B0*series[i] + A1*f[1] + A2*f[2] + A3*f[3] - A4*f[4]) * csum_reciproc;
         *gf4++ = f;
     }
 
@@ -142,7 +142,7 @@ int ti_gf4_stream_new(TI_REAL const *options, ti_stream **stream) {
         + tables.A1[idx]
         + tables.A2[idx]
         + tables.A3[idx]
-        + tables.A4[idx]
+        - tables.A4[idx]
     );
 
     return TI_OKAY;
@@ -174,7 +174,7 @@ int ti_gf4_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs,
         *gf4++ = f;
     }
     for (; i < size; ++i, ++progress, step(f)) {
-        f = (B0*series[i] + A1*f[1] + A2*f[2] + A3*f[3] + A4*f[4]) * csum_reciproc;
+        f = (B0*series[i] + A1*f[1] + A2*f[2] + A3*f[3] - A4*f[4]) * csum_reciproc;
         *gf4++ = f;
     }
 
-- 
2.43.0


From 1b3250cdbcf3c63455ed215e8e13c927dc9c84a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:15 +0000
Subject: [PATCH 118/136] fix: mesastoch: use pi, not 3.141459, in the
 smoothing pole

---
 indicators/mesastoch.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/indicators/mesastoch.cc b/indicators/mesastoch.cc
index 69c6427..9b4a8bf 100644
--- a/indicators/mesastoch.cc
+++ b/indicators/mesastoch.cc
@@ -47,7 +47,7 @@ int ti_mesastoch(int size, TI_REAL const *const *inputs, TI_REAL const *options,
     ringbuf<3> result;
 
     const TI_REAL alpha1 = (cos(DEG2RAD(.707*360 / mcc)) + sin(DEG2RAD(.707*360 / mcc)) - 1) / cos(DEG2RAD(.707*360 / mcc));
-    const TI_REAL a1 = exp(-1.414*3.141459/10.);
+    const TI_REAL a1 = exp(-1.414*3.14159/10.);
     const TI_REAL b1 = 2*a1*cos(DEG2RAD(1.414*180./10.));
     const TI_REAL c2 = b1;
     const TI_REAL c3 = -a1*a1;
@@ -139,7 +139,7 @@ int ti_mesastoch_ref(int size, TI_REAL const *const *inputs, TI_REAL const *opti
         alpha1 = (cos(DEG2RAD(.707*360 / mcc)) + sin(DEG2RAD(.707*360 / mcc)) - 1) / cos(DEG2RAD(.707*360 / mcc));
         HP[0] = (1 - alpha1 / 2.)*(1 - alpha1 / 2.)*(series[i] - 2*series[i-1] + series[i-2]) +
             2.*(1. - alpha1)*HP[1] - (1 - alpha1) * (1 - alpha1)*HP[2];
-        a1 = exp(-1.414*3.141459/10.);
+        a1 = exp(-1.414*3.14159/10.);
         b1 = 2*a1*cos(DEG2RAD(1.414*180./10.));
         c2 = b1;
         c3 = -a1*a1;
@@ -158,7 +158,7 @@ int ti_mesastoch_ref(int size, TI_REAL const *const *inputs, TI_REAL const *opti
         alpha1 = (cos(DEG2RAD(.707*360 / mcc)) + sin(DEG2RAD(.707*360 / mcc)) - 1) / cos(DEG2RAD(.707*360 / mcc));
         HP[0] = (1 - alpha1 / 2.)*(1 - alpha1 / 2.)*(series[i] - 2*series[i-1] + series[i-2]) +
             2.*(1. - alpha1)*HP[1] - (1 - alpha1) * (1 - alpha1)*HP[2];
-        a1 = exp(-1.414*3.141459/10.);
+        a1 = exp(-1.414*3.14159/10.);
         b1 = 2*a1*cos(DEG2RAD(1.414*180./10.));
         c2 = b1;
         c3 = -a1*a1;
@@ -230,7 +230,7 @@ int ti_mesastoch_stream_new(TI_REAL const *options, ti_stream **stream) {
     ptr->options.max_cycle_considered = max_cycle_considered;
 
     ptr->constants.alpha1 = (cos(DEG2RAD(.707*360 / mcc)) + sin(DEG2RAD(.707*360 / mcc)) - 1) / cos(DEG2RAD(.707*360 / mcc));
-    ptr->constants.a1 = exp(-1.414*3.141459/10.);
+    ptr->constants.a1 = exp(-1.414*3.14159/10.);
     ptr->constants.b1 = 2*(ptr->constants.a1)*cos(DEG2RAD(1.414*180./10.));
     ptr->constants.c2 = ptr->constants.b1;
     ptr->constants.c3 = -(ptr->constants.a1)*(ptr->constants.a1);
-- 
2.43.0


From fd24af4650320ead7f2e5494e07032e70312b6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:15 +0000
Subject: [PATCH 119/136] fix: rmta: process the first bar once when period is
 1

---
 indicators/rmta.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/indicators/rmta.cc b/indicators/rmta.cc
index 6e99da6..226ec45 100644
--- a/indicators/rmta.cc
+++ b/indicators/rmta.cc
@@ -35,7 +35,8 @@ int ti_rmta(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_R
         b = next_b;
     }
 
-    for (int i = period-1; i < size; ++i) {
+    if (period == 1) { *output++ = rmta; }
+    for (int i = period > 1 ? period-1 : 1; i < size; ++i) {
         TI_REAL next_b = (1. - alpha) * b + input[i];
         rmta = (1. - alpha) * rmta + alpha * (input[i] + next_b - b);
         b = next_b;
-- 
2.43.0


From 20bc1fb42bbb84ef98dd332ab9984a8c7dfd303c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:15 +0000
Subject: [PATCH 120/136] fix: trix: seed the second and third average when
 period is 1

---
 indicators/trix.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/indicators/trix.cc b/indicators/trix.cc
index 88b334d..cdabad2 100644
--- a/indicators/trix.cc
+++ b/indicators/trix.cc
@@ -27,7 +27,7 @@ int ti_trix(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_R
     const TI_REAL per = 2 / ((TI_REAL)period + 1);
 
     TI_REAL ema1 = input[0];
-    TI_REAL ema2 = 0, ema3 = 0;
+    TI_REAL ema2 = ema1, ema3 = ema1;
 
     int i;
     for (i = 1; i < start; ++i) {
-- 
2.43.0


From d97e46f778ef6e8319de99451d3d7c0601fa8925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:15 +0000
Subject: [PATCH 121/136] fix: emsd: output the root of the smoothed variance

---
 indicators/emsd.cc | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/indicators/emsd.cc b/indicators/emsd.cc
index 9600e07..8c1aee2 100644
--- a/indicators/emsd.cc
+++ b/indicators/emsd.cc
@@ -42,7 +42,7 @@ int ti_emsd(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_R
 
         TI_REAL variance = sum2/period - pow(sum/period, 2);
         ema = variance;
-        *emsd++ = sqrt(variance);
+        *emsd++ = sqrt(ema);
 
         sum -= series[i-period+1];
         sum2 -= series[i-period+1]*series[i-period+1];
@@ -53,7 +53,7 @@ int ti_emsd(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_R
 
         TI_REAL variance = sum2/period - (sum/period)*(sum/period);
         ema = (variance - ema) * 2 / (ma_period + 1) + ema;
-        *emsd++ = sqrt(variance);
+        *emsd++ = sqrt(ema);
 
         sum -= series[i-period+1];
         sum2 -= series[i-period+1]*series[i-period+1];
@@ -65,7 +65,7 @@ int ti_emsd(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_R
 DONTOPTIMIZE int ti_emsd_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
     TI_REAL const *const series = inputs[0];
     const TI_REAL period = options[0];
-    const TI_REAL ma_period = options[1];
+    const int ma_period = options[1];
     TI_REAL *emsd = outputs[0];
 
     if (period < 1) { return TI_INVALID_OPTION; }
@@ -86,7 +86,7 @@ DONTOPTIMIZE int ti_emsd_ref(int size, TI_REAL const *const *inputs, TI_REAL con
 
         TI_REAL variance = sum2/period - pow(sum/period, 2);
         ema = variance;
-        *emsd++ = sqrt(variance);
+        *emsd++ = sqrt(ema);
 
         sum -= series[i-(int)period+1];
         sum2 -= series[i-(int)period+1]*series[i-(int)period+1];
@@ -97,7 +97,7 @@ DONTOPTIMIZE int ti_emsd_ref(int size, TI_REAL const *const *inputs, TI_REAL con
 
         TI_REAL variance = sum2/period - (sum/period)*(sum/period);
         ema = (variance - ema) * 2 / (ma_period + 1) + ema;
-        *emsd++ = sqrt(variance);
+        *emsd++ = sqrt(ema);
 
         sum -= series[i-(int)period+1];
         sum2 -= series[i-(int)period+1]*series[i-(int)period+1];
@@ -189,7 +189,7 @@ int ti_emsd_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs
 
         TI_REAL variance = sum2*period_reciprocal - pow(sum*period_reciprocal, 2);
         ema = variance;
-        *emsd++ = sqrt(variance);
+        *emsd++ = sqrt(ema);
 
         sum -= price[period-1];
         sum2 -= price[period-1]*price[period-1];
@@ -202,7 +202,7 @@ int ti_emsd_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs
 
         TI_REAL variance = sum2*period_reciprocal - (sum*period_reciprocal)*(sum*period_reciprocal);
         ema = (variance - ema) * 2 * ma_period_plus1_reciprocal + ema;
-        *emsd++ = sqrt(variance);
+        *emsd++ = sqrt(ema);
 
         sum -= price[period-1];
         sum2 -= price[period-1]*price[period-1];
-- 
2.43.0


From 05f7e86fab832cade35a9a56062293ec0c19d8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:15 +0000
Subject: [PATCH 122/136] fix: mama: measure phase and period in degrees

---
 indicators/mama.cc | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/indicators/mama.cc b/indicators/mama.cc
index 02ddece..2e0c25b 100644
--- a/indicators/mama.cc
+++ b/indicators/mama.cc
@@ -12,6 +12,8 @@
 #include "../utils/ringbuf.hh"
 #include "../utils/minmax.h"
 
+static const TI_REAL PI = acos(-1);
+
 int ti_mama_start(TI_REAL const *options) {
     return 6;
 }
@@ -63,7 +65,7 @@ int ti_mama(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_R
         Re = .2*Re + .8*Re[1];
         Im = .2*Im + .8*Im[1];
 
-        if (Im != 0. && Re != 0.) { period = 360. / atan(Im / Re); }
+        if (Im != 0. && Re != 0.) { period = 2*PI / atan(Im / Re); }
         if (period > 1.5 * period[1]) { period = 1.5 * period[1]; }
         if (period < 0.67 * period[1]) { period = 0.67 * period[1]; }
         if (period < 6.) { period = 6.; }
@@ -71,7 +73,7 @@ int ti_mama(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_R
         period = .2*period + .8*period[1];
         smoothperiod = .33*period + .67*smoothperiod[1];
 
-        if (I1 != 0.) { phase = atan(Q1 / I1); }
+        if (I1 != 0.) { phase = atan(Q1 / I1) * 180. / PI; }
         else { phase = 0; }
 
         const TI_REAL deltaphase = std::max(1., phase[1] - phase);
@@ -158,7 +160,7 @@ int ti_mama_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options,
         Im[i] = .2*Im[i] + .8*Im[i-1];
 
         if (Im[i] != 0. && Re[i] != 0.) {
-            period[i] = 360. / atan(Im[i] / Re[i]);
+            period[i] = 2*PI / atan(Im[i] / Re[i]);
         }
         if (period[i] > 1.5 * period[i-1]) {
             period[i] = 1.5 * period[i-1];
@@ -175,7 +177,7 @@ int ti_mama_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options,
         period[i] = .2 * period[i] + .8 * period[i-1];
         smoothperiod[i] = .33 * period[i] + .67 * smoothperiod[i-1];
         if (I1[i] != 0.) {
-            phase[i] = atan(Q1[i] / I1[i]);
+            phase[i] = atan(Q1[i] / I1[i]) * 180. / PI;
         }
         deltaphase[i] = phase[i-1] - phase[i];
         if (deltaphase[i] < 1.) {
@@ -294,7 +296,7 @@ int ti_mama_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs
         Re = .2*(I2*I2[1] + Q2*Q2[1]) + .8*Re[1];
         Im = .2*(I2*Q2[1] - Q2*I2[1]) + .8*Im[1];
 
-        if (Im != 0. && Re != 0.) { period = 360. / atan(Im / Re); }
+        if (Im != 0. && Re != 0.) { period = 2*PI / atan(Im / Re); }
         if (period > 1.5 * period[1]) { period = 1.5 * period[1]; }
         if (period < 0.67 * period[1]) { period = 0.67 * period[1]; }
         if (period < 6.) { period = 6.; }
@@ -302,7 +304,7 @@ int ti_mama_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs
         period = .2*period + .8*period[1];
         smoothperiod = .33*period + .67*smoothperiod[1];
 
-        if (I1 != 0.) { phase = atan(Q1 / I1); }
+        if (I1 != 0.) { phase = atan(Q1 / I1) * 180. / PI; }
         else { phase = 0; }
 
         const TI_REAL deltaphase = std::max(1., phase[1] - phase);
-- 
2.43.0


From 0b3117df2b6793da88719111339e5e91087ff1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:04 +0000
Subject: [PATCH 123/136] fix: ultosc: drop the oldest value when a period
 equals the long period

---
 indicators/ultosc.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/indicators/ultosc.cc b/indicators/ultosc.cc
index 56776d6..20543d4 100644
--- a/indicators/ultosc.cc
+++ b/indicators/ultosc.cc
@@ -56,25 +56,25 @@ int ti_ultosc(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI
         r_short_sum += r;
         r_medium_sum += r;
 
-        ti_buffer_push(bp_buf, bp);
-        ti_buffer_push(r_buf, r);
-
         /* The long sum takes care of itself, but we're piggy-backing
          * the medium and short sums off the same buffers. */
         if (i > short_period) {
-            int short_index = bp_buf->index - short_period - 1;
+            int short_index = bp_buf->index - short_period;
             if (short_index < 0) short_index += long_period;
             bp_short_sum -= bp_buf->vals[short_index];
             r_short_sum -= r_buf->vals[short_index];
 
             if (i > medium_period) {
-                int medium_index = bp_buf->index - medium_period - 1;
+                int medium_index = bp_buf->index - medium_period;
                 if (medium_index < 0) medium_index += long_period;
                 bp_medium_sum -= bp_buf->vals[medium_index];
                 r_medium_sum -= r_buf->vals[medium_index];
             }
         }
 
+        ti_buffer_push(bp_buf, bp);
+        ti_buffer_push(r_buf, r);
+
         if (i >= long_period) {
             const TI_REAL first = bp_short_sum ? 4 * bp_short_sum / r_short_sum : 0;
             const TI_REAL second = bp_medium_sum ? 2 * bp_medium_sum / r_medium_sum : 0;
-- 
2.43.0


From 7f6756f6b33994859f8abf7e7ce841cafabf6c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:43 +0000
Subject: [PATCH 124/136] fix: pc: initialise the extreme indices (period 1
 read them unset)

---
 indicators/pc.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/indicators/pc.cc b/indicators/pc.cc
index ddb92a3..53111ca 100644
--- a/indicators/pc.cc
+++ b/indicators/pc.cc
@@ -28,9 +28,8 @@ int ti_pc (int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
 
     TI_REAL max = -std::numeric_limits<TI_REAL>::infinity();
     TI_REAL min = std::numeric_limits<TI_REAL>::infinity();
-    int max_idx;
-    int min_idx;
-
+    int max_idx = 0;
+    int min_idx = 0;
 
     int i = 0;
     for (; i < period - 1 && i < size; ++i) {
-- 
2.43.0


From 016d0fc2d421480d3f768753f37933cb9a94ca3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:43 +0000
Subject: [PATCH 125/136] fix: bbands: no NaN bands when rounding makes the
 variance negative

---
 indicators/bbands.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/indicators/bbands.cc b/indicators/bbands.cc
index d312c3e..21a39e1 100644
--- a/indicators/bbands.cc
+++ b/indicators/bbands.cc
@@ -36,7 +36,8 @@ int ti_bbands(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI
         sum2 += input[i] * input[i];
     }
 
-    TI_REAL sd = sqrt(sum2 * scale - (sum * scale) * (sum * scale));
+    TI_REAL var = sum2 * scale - (sum * scale) * (sum * scale);
+    TI_REAL sd = var < 0 ? 0 : sqrt(var); /* rounding can take it below zero */
     *middle = sum * scale;
     *lower++ = *middle - stddev * sd;
     *upper++ = *middle + stddev * sd;
@@ -49,7 +50,8 @@ int ti_bbands(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI
         sum -= input[i-period];
         sum2 -= input[i-period] * input[i-period];
 
-        sd = sqrt(sum2 * scale - (sum * scale) * (sum * scale));
+        var = sum2 * scale - (sum * scale) * (sum * scale);
+        sd = var < 0 ? 0 : sqrt(var);
         *middle = sum * scale;
         *upper++ = *middle + stddev * sd;
         *lower++ = *middle - stddev * sd;
-- 
2.43.0


From 400a9bb8b1cf406c1347344865df96c21d8aec17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:43 +0000
Subject: [PATCH 126/136] fix: volatility: no NaN when rounding makes the
 variance negative

---
 indicators/volatility.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/indicators/volatility.cc b/indicators/volatility.cc
index 8a4871b..d0dd252 100644
--- a/indicators/volatility.cc
+++ b/indicators/volatility.cc
@@ -38,7 +38,8 @@ int ti_volatility(int size, TI_REAL const *const *inputs, TI_REAL const *options
         sum2 += c * c;
     }
 
-    *output++ = sqrt(sum2 * scale - (sum * scale) * (sum * scale)) * annual;
+    TI_REAL var = sum2 * scale - (sum * scale) * (sum * scale);
+    *output++ = var < 0 ? 0 : sqrt(var) * annual; /* rounding can take it below zero */
 
     for (i = period+1; i < size; ++i) {
         const TI_REAL c = CHANGE(i);
@@ -49,7 +50,8 @@ int ti_volatility(int size, TI_REAL const *const *inputs, TI_REAL const *options
         sum -= cp;
         sum2 -= cp * cp;
 
-        *output++ = sqrt(sum2 * scale - (sum * scale) * (sum * scale)) * annual;
+        var = sum2 * scale - (sum * scale) * (sum * scale);
+        *output++ = var < 0 ? 0 : sqrt(var) * annual;
     }
 
     assert(output - outputs[0] == size - ti_volatility_start(options));
-- 
2.43.0


From be35f2e548455645e7dacc8d59d9984eb16b265e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:43 +0000
Subject: [PATCH 127/136] fix: stddev: no negative output when rounding makes
 the variance negative

---
 indicators/stddev.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/indicators/stddev.cc b/indicators/stddev.cc
index 3d0ab82..ac9d53e 100644
--- a/indicators/stddev.cc
+++ b/indicators/stddev.cc
@@ -35,7 +35,7 @@ int ti_stddev(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI
 
     {
         TI_REAL s2s2 = (sum2 * scale - (sum * scale) * (sum * scale));
-        if (s2s2 > 0.0) s2s2 = sqrt(s2s2);
+        s2s2 = s2s2 < 0 ? 0 : sqrt(s2s2);
         *output++ = s2s2;
     }
 
@@ -47,7 +47,7 @@ int ti_stddev(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI
         sum2 -= input[i-period] * input[i-period];
 
         TI_REAL s2s2 = (sum2 * scale - (sum * scale) * (sum * scale));
-        if (s2s2 > 0.0) s2s2 = sqrt(s2s2);
+        s2s2 = s2s2 < 0 ? 0 : sqrt(s2s2);
         *output++ = s2s2;
     }
 
-- 
2.43.0


From 37eca79368b17496f3c412fc240e4f5c51b6eaab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:43 +0000
Subject: [PATCH 128/136] fix: stderr: no negative output when rounding makes
 the variance negative

---
 indicators/stderr.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/indicators/stderr.cc b/indicators/stderr.cc
index 4094c7b..efdd576 100644
--- a/indicators/stderr.cc
+++ b/indicators/stderr.cc
@@ -37,7 +37,7 @@ int ti_stderr(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI
 
     {
         TI_REAL s2s2 = (sum2 * scale - (sum * scale) * (sum * scale));
-        if (s2s2 > 0.0) s2s2 = sqrt(s2s2);
+        s2s2 = s2s2 < 0 ? 0 : sqrt(s2s2);
         *output++ = mul * s2s2;
     }
 
@@ -49,7 +49,7 @@ int ti_stderr(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI
         sum2 -= input[i-period] * input[i-period];
 
         TI_REAL s2s2 = (sum2 * scale - (sum * scale) * (sum * scale));
-        if (s2s2 > 0.0) s2s2 = sqrt(s2s2);
+        s2s2 = s2s2 < 0 ? 0 : sqrt(s2s2);
         *output++ = mul * s2s2;
     }
 
-- 
2.43.0


From 3a7a2a1c9dcb652ee735e8c23b9af49537408301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:43 +0000
Subject: [PATCH 129/136] fix: emsd: no NaN when rounding makes the variance
 negative

---
 indicators/emsd.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/indicators/emsd.cc b/indicators/emsd.cc
index 8c1aee2..b86cf39 100644
--- a/indicators/emsd.cc
+++ b/indicators/emsd.cc
@@ -41,6 +41,7 @@ int ti_emsd(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_R
         sum2 += series[i]*series[i];
 
         TI_REAL variance = sum2/period - pow(sum/period, 2);
+        if (variance < 0) { variance = 0; } /* rounding */
         ema = variance;
         *emsd++ = sqrt(ema);
 
@@ -52,6 +53,7 @@ int ti_emsd(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_R
         sum2 += series[i]*series[i];
 
         TI_REAL variance = sum2/period - (sum/period)*(sum/period);
+        if (variance < 0) { variance = 0; } /* rounding */
         ema = (variance - ema) * 2 / (ma_period + 1) + ema;
         *emsd++ = sqrt(ema);
 
@@ -85,6 +87,7 @@ DONTOPTIMIZE int ti_emsd_ref(int size, TI_REAL const *const *inputs, TI_REAL con
         sum2 += series[i]*series[i];
 
         TI_REAL variance = sum2/period - pow(sum/period, 2);
+        if (variance < 0) { variance = 0; } /* rounding */
         ema = variance;
         *emsd++ = sqrt(ema);
 
@@ -96,6 +99,7 @@ DONTOPTIMIZE int ti_emsd_ref(int size, TI_REAL const *const *inputs, TI_REAL con
         sum2 += series[i]*series[i];
 
         TI_REAL variance = sum2/period - (sum/period)*(sum/period);
+        if (variance < 0) { variance = 0; } /* rounding */
         ema = (variance - ema) * 2 / (ma_period + 1) + ema;
         *emsd++ = sqrt(ema);
 
@@ -188,6 +192,7 @@ int ti_emsd_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs
         sum2 += series[i]*series[i];
 
         TI_REAL variance = sum2*period_reciprocal - pow(sum*period_reciprocal, 2);
+        if (variance < 0) { variance = 0; } /* rounding */
         ema = variance;
         *emsd++ = sqrt(ema);
 
@@ -201,6 +206,7 @@ int ti_emsd_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs
         sum2 += series[i]*series[i];
 
         TI_REAL variance = sum2*period_reciprocal - (sum*period_reciprocal)*(sum*period_reciprocal);
+        if (variance < 0) { variance = 0; } /* rounding */
         ema = (variance - ema) * 2 * ma_period_plus1_reciprocal + ema;
         *emsd++ = sqrt(ema);
 
-- 
2.43.0


From 1f28a0ba317af9917cbb9c42e5678f6b9321c56e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:43 +0000
Subject: [PATCH 130/136] fix: vidya: no infinite average when only the long
 deviation rounds to zero

---
 indicators/vidya.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/indicators/vidya.cc b/indicators/vidya.cc
index 7dfb104..2c5ef1f 100644
--- a/indicators/vidya.cc
+++ b/indicators/vidya.cc
@@ -56,7 +56,7 @@ int ti_vidya(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_
     if (long_period - 1 < size) {
         TI_REAL short_stddev = sqrt(short_sum2 * short_div - (short_sum * short_div) * (short_sum * short_div));
         TI_REAL long_stddev = sqrt(long_sum2 * long_div - (long_sum * long_div) * (long_sum * long_div));
-        TI_REAL k = short_stddev ? short_stddev / long_stddev : 0;
+        TI_REAL k = short_stddev && long_stddev ? short_stddev / long_stddev : 0;
         if (k != k) k = 0; /* In some conditions it works out that we take the sqrt(-0.0), which gives NaN.
                               That implies that k should be zero. */
         k *= alpha;
@@ -80,7 +80,7 @@ int ti_vidya(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_
         {
             TI_REAL short_stddev = sqrt(short_sum2 * short_div - (short_sum * short_div) * (short_sum * short_div));
             TI_REAL long_stddev = sqrt(long_sum2 * long_div - (long_sum * long_div) * (long_sum * long_div));
-            TI_REAL k = short_stddev ? short_stddev / long_stddev : 0;
+            TI_REAL k = short_stddev && long_stddev ? short_stddev / long_stddev : 0;
             if (k != k) k = 0;
             k *= alpha;
             val = (input[i]-val) * k + val;
-- 
2.43.0


From e667ccfee90b3e9fc39df7801fa7600f77e2f667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:59 +0000
Subject: [PATCH 131/136] fix: mfi: no division by a money flow that rounding
 made zero

---
 indicators/mfi.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/indicators/mfi.cc b/indicators/mfi.cc
index 5ab48d1..c55dfa3 100644
--- a/indicators/mfi.cc
+++ b/indicators/mfi.cc
@@ -57,7 +57,8 @@ int ti_mfi(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
         ytyp = typ;
 
         if (i >= period) {
-            *output++ = up->sum ? up->sum / (up->sum + down->sum) * 100.0 : 0;
+            const TI_REAL flow = up->sum + down->sum;
+            *output++ = flow ? up->sum / flow * 100.0 : 0;
         }
     }
 
-- 
2.43.0


From a0839bcebdca44d1e643585fc5c7f3b4ccdba184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:43 +0000
Subject: [PATCH 132/136] fix: vwma: no division by a total volume that
 rounding made zero

---
 indicators/vwma.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/indicators/vwma.cc b/indicators/vwma.cc
index 43b5b63..2ff7aa3 100644
--- a/indicators/vwma.cc
+++ b/indicators/vwma.cc
@@ -33,7 +33,7 @@ int ti_vwma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_R
         vsum += volume[i];
     }
 
-    *output++ = sum ? sum / vsum : 0;
+    *output++ = vsum ? sum / vsum : 0;
 
     for (i = period; i < size; ++i) {
         sum += input[i] * volume[i];
@@ -41,7 +41,7 @@ int ti_vwma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_R
         vsum += volume[i];
         vsum -= volume[i-period];
 
-        *output++ = sum ? sum / vsum : 0;
+        *output++ = vsum ? sum / vsum : 0;
     }
 
     assert(output - outputs[0] == size - ti_vwma_start(options));
-- 
2.43.0


From af08183157c2e2b4b3ae4cfdbd5fb1293830042a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:43 +0000
Subject: [PATCH 133/136] fix: vwap: no division by a total volume that
 rounding made zero

---
 indicators/vwap.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/indicators/vwap.cc b/indicators/vwap.cc
index 71665e8..8e979d4 100644
--- a/indicators/vwap.cc
+++ b/indicators/vwap.cc
@@ -34,14 +34,14 @@ int ti_vwap(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_R
         den += volume[i];
     }
     if (i > 0 && progress == 1) {
-        *vwap++ = num ? num / den : 0;
+        *vwap++ = den ? num / den : 0;
     }
     for (; i < size; ++i, ++progress) {
         num += (high[i] + low[i] + close[i]) / 3. * volume[i]
             - (high[i-(int)period] + low[i-(int)period] + close[i-(int)period]) / 3. * volume[i-(int)period];
         den += volume[i] - volume[i-(int)period];
 
-        *vwap++ = num ? num / den : 0;
+        *vwap++ = den ? num / den : 0;
     }
 
     return TI_OKAY;
@@ -183,7 +183,7 @@ int ti_vwap_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs
         num += (high[i] + low[i] + close[i]) / 3. * volume[i];
         den += volume[i];
 
-        *vwap++ = num ? num / den : 0;
+        *vwap++ = den ? num / den : 0;
 
         num -= (price_high[period-1] + price_low[period-1] + price_close[period-1]) / 3. * price_volume[period-1];
         den -= price_volume[period-1];
-- 
2.43.0


From df83fd8c9e19a1182ba114e45426c0c8c1a6523b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:43 +0000
Subject: [PATCH 134/136] fix: vosc: no division by an average volume that
 rounding made zero

---
 indicators/vosc.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/indicators/vosc.cc b/indicators/vosc.cc
index 822dc7e..2331871 100644
--- a/indicators/vosc.cc
+++ b/indicators/vosc.cc
@@ -41,7 +41,7 @@ int ti_vosc(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_R
     {
         const TI_REAL savg = short_sum * short_div;
         const TI_REAL lavg = long_sum * long_div;
-        *output++ = (savg - lavg) ? 100.0 * (savg - lavg) / lavg : 0;
+        *output++ = lavg ? 100.0 * (savg - lavg) / lavg : 0;
     }
 
     for (i = long_period; i < size; ++i) {
@@ -53,7 +53,7 @@ int ti_vosc(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_R
 
         const TI_REAL savg = short_sum * short_div;
         const TI_REAL lavg = long_sum * long_div;
-        *output++ = (savg - lavg) ? 100.0 * (savg - lavg) / lavg : 0;
+        *output++ = lavg ? 100.0 * (savg - lavg) / lavg : 0;
     }
 
     assert(output - outputs[0] == size - ti_vosc_start(options));
-- 
2.43.0


From fa3fd4956cc6ac5ca7a6d68bdf0b1fa2f25867b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:40 +0000
Subject: [PATCH 135/136] fix: ultosc: no division by a true range sum that
 rounding made zero

---
 indicators/ultosc.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/indicators/ultosc.cc b/indicators/ultosc.cc
index 20543d4..96b1d68 100644
--- a/indicators/ultosc.cc
+++ b/indicators/ultosc.cc
@@ -76,9 +76,9 @@ int ti_ultosc(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI
         ti_buffer_push(r_buf, r);
 
         if (i >= long_period) {
-            const TI_REAL first = bp_short_sum ? 4 * bp_short_sum / r_short_sum : 0;
-            const TI_REAL second = bp_medium_sum ? 2 * bp_medium_sum / r_medium_sum : 0;
-            const TI_REAL third = bp_buf->sum ? 1 * bp_buf->sum / r_buf->sum : 0;
+            const TI_REAL first = r_short_sum ? 4 * bp_short_sum / r_short_sum : 0;
+            const TI_REAL second = r_medium_sum ? 2 * bp_medium_sum / r_medium_sum : 0;
+            const TI_REAL third = r_buf->sum ? 1 * bp_buf->sum / r_buf->sum : 0;
             const TI_REAL ult = (first + second + third) * 100.0 / 7.0;
             *output++ = ult;
         }
-- 
2.43.0


From 8bd0ebabb37cee0a87ad22c81e3b2ca5c1e3d0c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:13 +0000
Subject: [PATCH 136/136] fix: vidya: a level short window has no deviation,
 whatever the rounding

---
 indicators/vidya.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/indicators/vidya.cc b/indicators/vidya.cc
index 2c5ef1f..dbb4a84 100644
--- a/indicators/vidya.cc
+++ b/indicators/vidya.cc
@@ -39,11 +39,15 @@ int ti_vidya(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_
     TI_REAL long_sum = 0;
     TI_REAL long_sum2 = 0;
 
+    int level = 0; /* Bars in a row without a change. The running sums keep rounding residues, whose ratio is arbitrary. */
+
     int i;
     for (i = 0; i < long_period && i < size; ++i) {
         long_sum += input[i];
         long_sum2 += input[i] * input[i];
 
+        level = i && input[i] == input[i-1] ? level + 1 : 0;
+
         if (i >= long_period - short_period) {
             short_sum += input[i];
             short_sum2 += input[i] * input[i];
@@ -56,7 +60,7 @@ int ti_vidya(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_
     if (long_period - 1 < size) {
         TI_REAL short_stddev = sqrt(short_sum2 * short_div - (short_sum * short_div) * (short_sum * short_div));
         TI_REAL long_stddev = sqrt(long_sum2 * long_div - (long_sum * long_div) * (long_sum * long_div));
-        TI_REAL k = short_stddev && long_stddev ? short_stddev / long_stddev : 0;
+        TI_REAL k = level < short_period - 1 && long_stddev ? short_stddev / long_stddev : 0;
         if (k != k) k = 0; /* In some conditions it works out that we take the sqrt(-0.0), which gives NaN.
                               That implies that k should be zero. */
         k *= alpha;
@@ -77,10 +81,12 @@ int ti_vidya(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_
         short_sum -= input[i-short_period];
         short_sum2 -= input[i-short_period] * input[i-short_period];
 
+        level = input[i] == input[i-1] ? level + 1 : 0;
+
         {
             TI_REAL short_stddev = sqrt(short_sum2 * short_div - (short_sum * short_div) * (short_sum * short_div));
             TI_REAL long_stddev = sqrt(long_sum2 * long_div - (long_sum * long_div) * (long_sum * long_div));
-            TI_REAL k = short_stddev && long_stddev ? short_stddev / long_stddev : 0;
+            TI_REAL k = level < short_period - 1 && long_stddev ? short_stddev / long_stddev : 0;
             if (k != k) k = 0;
             k *= alpha;
             val = (input[i]-val) * k + val;
-- 
2.43.0

