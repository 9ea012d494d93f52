From 0bbc5ee9eef5b3441e0cebb543a29bc487188d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:33 +0000
Subject: [PATCH 001/106] fix: log sampling state of a spectral axis after a
 wavelength offset

The state was reset when the offset was null and kept when it was not.
---
 RedshiftLibrary/src/lib/spectrum/spectralaxis.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/RedshiftLibrary/src/lib/spectrum/spectralaxis.cpp b/RedshiftLibrary/src/lib/spectrum/spectralaxis.cpp
index 73ad893..0d3221f 100644
--- a/RedshiftLibrary/src/lib/spectrum/spectralaxis.cpp
+++ b/RedshiftLibrary/src/lib/spectrum/spectralaxis.cpp
@@ -169,8 +169,9 @@ void CSpectrumSpectralAxis::ApplyOffset(Float64 wavelengthOffset) {
   for (Int32 i = 0; i < nSamples; i++) {
     m_Samples[i] += wavelengthOffset;
   }
-  if (!wavelengthOffset)
-    m_isLogSampled = false;
+  // an offset breaks (or creates) the log sampling: has to be checked again
+  if (wavelengthOffset)
+    m_isLogSampled = indeterminate;
 }
 
 /**
-- 
2.43.0


From 3f76aa33e3b9e0f7b6f0c63aa7ad84d8fe8d6509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:49 +0000
Subject: [PATCH 002/106] fix: insertion of a sub-grid replacing more samples
 than it brings

---
 .../RedshiftLibrary/common/vectorOperations.h        | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/RedshiftLibrary/RedshiftLibrary/common/vectorOperations.h b/RedshiftLibrary/RedshiftLibrary/common/vectorOperations.h
index 126927f..08f899c 100644
--- a/RedshiftLibrary/RedshiftLibrary/common/vectorOperations.h
+++ b/RedshiftLibrary/RedshiftLibrary/common/vectorOperations.h
@@ -50,6 +50,12 @@ inline void insertWithDuplicates(std::vector<T> &dest, Int32 pos,
                                  std::vector<T> src, Int32 ndup) {
   const auto src_first = src.cbegin();
   const auto src_end = src.cend();
+  if (ndup > Int32(src.size())) {
+    // more values to replace than replacing values
+    std::copy(src_first, src_end, dest.begin() + pos);
+    dest.erase(dest.begin() + pos + src.size(), dest.begin() + pos + ndup);
+    return;
+  }
   const auto src_last_insert = src.cend() - ndup;
   Int32 ninsert = src_last_insert - src_first;
   dest.insert(dest.begin() + pos, src_first, src_last_insert);
@@ -60,6 +66,12 @@ template <typename T>
 inline void insertWithDuplicates(std::vector<T> &dest, Int32 pos,
                                  std::size_t count, const T &value,
                                  Int32 ndup) {
+  if (ndup > Int32(count)) {
+    // more values to replace than replacing values
+    std::fill_n(dest.begin() + pos, count, value);
+    dest.erase(dest.begin() + pos + count, dest.begin() + pos + ndup);
+    return;
+  }
   Int32 ninsert = count - ndup;
   dest.insert(dest.begin() + pos, ninsert, value);
   std::fill(dest.begin() + pos + ninsert, dest.begin() + pos + count,
-- 
2.43.0


From 7b797fb6282920d46bdcff5a554e4dcd925f0eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:49 +0000
Subject: [PATCH 003/106] fix: false or misplaced extrema after low plateaus

---
 RedshiftLibrary/src/lib/extremum/extremum.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/RedshiftLibrary/src/lib/extremum/extremum.cpp b/RedshiftLibrary/src/lib/extremum/extremum.cpp
index b2d69b3..6e5b6bc 100644
--- a/RedshiftLibrary/src/lib/extremum/extremum.cpp
+++ b/RedshiftLibrary/src/lib/extremum/extremum.cpp
@@ -361,8 +361,9 @@ CExtremum::FindAllPeaks(const TFloat64List &xAxis, const TFloat64List &yAxis,
       cnt_plk = 0;
       continue;
     }
-    // Plank is getting larger
-    cnt_plk++;
+    // Plank is getting larger (only if it started going up)
+    if (plank)
+      cnt_plk++;
   }
 
   if (!m_allow_extrema_at_border)
@@ -370,6 +371,9 @@ CExtremum::FindAllPeaks(const TFloat64List &xAxis, const TFloat64List &yAxis,
   // last element: check if plank is extended
   if (godown(EndIndex - 1))
     return result;
+  // low plank (after a decrease) extending up to the border: no peak here!
+  if (goflat(EndIndex - 1) && !plank)
+    return result;
 
   cnt_plk += Int32(plank); // if no plank, cnt_plk+=0
   Int32 idx = EndIndex - round(cnt_plk / 2);
-- 
2.43.0


From c754c2f7a0210416ebfb8f3ed5855a1f2d8a4ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:49 +0000
Subject: [PATCH 004/106] fix: stale extrema ranks after the merit cut

---
 RedshiftLibrary/src/lib/extremum/extremum.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/RedshiftLibrary/src/lib/extremum/extremum.cpp b/RedshiftLibrary/src/lib/extremum/extremum.cpp
index 6e5b6bc..6e57a91 100644
--- a/RedshiftLibrary/src/lib/extremum/extremum.cpp
+++ b/RedshiftLibrary/src/lib/extremum/extremum.cpp
@@ -197,6 +197,7 @@ void CExtremum::Cut_Threshold(TFloat64List &maxX, TFloat64List &maxY,
 
   maxX = std::move(newX);
   maxY = std::move(newY);
+  SortIndexes(maxY);
 }
 
 TPointList CExtremum::FilterOutNeighboringPeaksAndTruncate(
-- 
2.43.0


From 439f802a5628fd6af860edd7179f7b3406016b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:23 +0000
Subject: [PATCH 005/106] fix: out-of-range read of the second-pass step in
 convertToRegular

---
 RedshiftLibrary/src/lib/operator/logZPdfResult.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/RedshiftLibrary/src/lib/operator/logZPdfResult.cpp b/RedshiftLibrary/src/lib/operator/logZPdfResult.cpp
index e6bbe00..5ec8cef 100644
--- a/RedshiftLibrary/src/lib/operator/logZPdfResult.cpp
+++ b/RedshiftLibrary/src/lib/operator/logZPdfResult.cpp
@@ -155,8 +155,6 @@ void CLogZPdfResult::convertToRegular(bool fine) {
   zstep.resize(1);
 
   auto param = getZGridParams()[0];
-  if (fine)
-    param.zstep = zstep[1];
   auto target_redshifts = param.getZGrid(logsampling);
 
   interpolateOnGrid(target_redshifts);
-- 
2.43.0


From 405afb3f45609b742c83d62a6951156a34d180cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:58 +0000
Subject: [PATCH 006/106] fix: prior lookup beyond the redshift table read past
 its end

---
 RedshiftLibrary/src/lib/statistics/priorhelper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RedshiftLibrary/src/lib/statistics/priorhelper.cpp b/RedshiftLibrary/src/lib/statistics/priorhelper.cpp
index 45644b6..6365e9a 100644
--- a/RedshiftLibrary/src/lib/statistics/priorhelper.cpp
+++ b/RedshiftLibrary/src/lib/statistics/priorhelper.cpp
@@ -414,7 +414,7 @@ Int32 CPriorHelper::getRedshiftIndex(Float64 redshift,
   }
   if (outsideZRangeExtensionMode == 0) {
     idz = std::max(idz, 0);
-    idz = std::min(idz, m_nZ);
+    idz = std::min(idz, m_nZ - 1);
   }
   return idz;
 }
-- 
2.43.0


From 329c06d9809e0f17431142fed40530b1db7b0176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:58 +0000
Subject: [PATCH 007/106] fix: prior tables with missing rows were read out of
 bounds

---
 RedshiftLibrary/src/lib/statistics/priorhelper.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/RedshiftLibrary/src/lib/statistics/priorhelper.cpp b/RedshiftLibrary/src/lib/statistics/priorhelper.cpp
index 6365e9a..19f6961 100644
--- a/RedshiftLibrary/src/lib/statistics/priorhelper.cpp
+++ b/RedshiftLibrary/src/lib/statistics/priorhelper.cpp
@@ -275,6 +275,10 @@ void CPriorHelper::loadFileEZ(const char *filePath,
     data.push_back(lineVals);
   }
   file.close();
+
+  if (nlinesRead < m_nZ)
+    THROWG(ErrorCode::INTERNAL_ERROR,
+           Formatter() << "read n=" << nlinesRead << " lines");
 }
 
 void CPriorHelper::loadFileZ(const char *filePath, TFloat64List &data) {
-- 
2.43.0


From d2a3549204cbbb39884f143386de5bb3beaee34c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:58 +0000
Subject: [PATCH 008/106] fix: median of large even-sized sets

---
 RedshiftLibrary/RedshiftLibrary/common/median.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/RedshiftLibrary/RedshiftLibrary/common/median.hpp b/RedshiftLibrary/RedshiftLibrary/common/median.hpp
index 7ff2f70..2675498 100644
--- a/RedshiftLibrary/RedshiftLibrary/common/median.hpp
+++ b/RedshiftLibrary/RedshiftLibrary/common/median.hpp
@@ -152,6 +152,11 @@ T CMedian<T>::FastFind(const typename std::vector<T>::const_iterator &begin,
     }
   }
 
+  // even size: mean of the two central values, as in BeersFind
+  if (!(n & 1))
+    return (0.5 *
+            (a_copy[k] + *std::min_element(a_copy.begin() + k + 1, a_copy.end())));
+
   return (a_copy[k]);
 }
 
-- 
2.43.0


From 4266df8f616e5d98c5991a36b269f8b0a4eb22cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:50 +0000
Subject: [PATCH 009/106] fix: igm range lost in a masked copy of a template

---
 RedshiftLibrary/src/lib/spectrum/template/template.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/RedshiftLibrary/src/lib/spectrum/template/template.cpp b/RedshiftLibrary/src/lib/spectrum/template/template.cpp
index 814215d..7503dbf 100644
--- a/RedshiftLibrary/src/lib/spectrum/template/template.cpp
+++ b/RedshiftLibrary/src/lib/spectrum/template/template.cpp
@@ -119,6 +119,8 @@ CTemplate::CTemplate(const CTemplate &other, const TFloat64List &mask)
       m_Igm_kend = -1; // not necessary but for security
       m_NoIsmIgmFluxAxis.clear();
     } else {
+      if (!MeiksinInitFailed())
+        m_Igm_kend = GetIgmEndIndex(m_IsmIgm_kstart, m_Ism_kend);
       m_NoIsmIgmFluxAxis =
           CSpectrumFluxAxis(other.m_NoIsmIgmFluxAxis.MaskAxis(mask));
 
-- 
2.43.0


From 8ccf1f7ae5ae9909041e315bc6e0d3798680e7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:50 +0000
Subject: [PATCH 010/106] fix: masked copy of a template without sample left in
 its attenuated range

---
 RedshiftLibrary/src/lib/spectrum/template/template.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/RedshiftLibrary/src/lib/spectrum/template/template.cpp b/RedshiftLibrary/src/lib/spectrum/template/template.cpp
index 7503dbf..81a4cf3 100644
--- a/RedshiftLibrary/src/lib/spectrum/template/template.cpp
+++ b/RedshiftLibrary/src/lib/spectrum/template/template.cpp
@@ -106,7 +106,8 @@ CTemplate::CTemplate(const CTemplate &other, const TFloat64List &mask)
                                           m_IsmIgm_kstart, m_Ism_kend);
     } catch (const AmzException &exception) {
       if (exception.getErrorCode() ==
-          ErrorCode::CRANGE_VECTBORDERS_OUTSIDERANGE) {
+              ErrorCode::CRANGE_VECTBORDERS_OUTSIDERANGE ||
+          exception.getErrorCode() == ErrorCode::CRANGE_NO_INTERSECTION) {
         rangeIsMasked = true;
       } else {
         throw exception;
-- 
2.43.0


From f8a8435043c2f58b99635ea08f0dcd66cd7e7fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:19 +0000
Subject: [PATCH 011/106] fix: stale fine grid after a change of axis, sign or
 interpolation method

---
 RedshiftLibrary/RedshiftLibrary/spectrum/rebin/rebin.h | 6 +++++-
 RedshiftLibrary/src/lib/spectrum/spectrum.cpp          | 3 +++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/RedshiftLibrary/RedshiftLibrary/spectrum/rebin/rebin.h b/RedshiftLibrary/RedshiftLibrary/spectrum/rebin/rebin.h
index cbe7860..5a50e52 100644
--- a/RedshiftLibrary/RedshiftLibrary/spectrum/rebin/rebin.h
+++ b/RedshiftLibrary/RedshiftLibrary/spectrum/rebin/rebin.h
@@ -67,7 +67,11 @@ public:
                CSpectrum &rebinedSpectrum, CMask &rebinedMask,
                const std::string opt_error_interp);
 
-  virtual void reset(){};
+  // the fine grid is kept by convert(), thus whatever the current method is
+  virtual void reset() {
+    m_FineGridInterpolated = false;
+    m_pfgFlux.clear();
+  };
   virtual const std::string &getType() = 0;
 
 protected:
diff --git a/RedshiftLibrary/src/lib/spectrum/spectrum.cpp b/RedshiftLibrary/src/lib/spectrum/spectrum.cpp
index 09197c3..7192dcd 100644
--- a/RedshiftLibrary/src/lib/spectrum/spectrum.cpp
+++ b/RedshiftLibrary/src/lib/spectrum/spectrum.cpp
@@ -204,6 +204,7 @@ void CSpectrum::SetSpectralAxis(const CSpectrumSpectralAxis &spectralaxis) {
            "CSpectrum::SetSpectralAxis: new spectral axis has "
            "not the same size than flux axis");
   }
+  m_rebin->reset();
   m_SpectralAxis = spectralaxis;
 }
 
@@ -213,6 +214,7 @@ void CSpectrum::SetSpectralAxis(CSpectrumSpectralAxis &&spectralaxis) {
            "CSpectrum::SetSpectralAxis: new spectral axis has "
            "not the same size than flux axis");
   }
+  m_rebin->reset();
   m_SpectralAxis = std::move(spectralaxis);
 }
 
@@ -341,6 +343,7 @@ void CSpectrum::EstimateContinuum() const {
  * Invert the flux axis
  */
 bool CSpectrum::InvertFlux() {
+  m_rebin->reset();
   m_RawFluxAxis.Invert();
   if (alreadyRemoved) {
     m_ContinuumFluxAxis.Invert();
-- 
2.43.0


From c712cd3b547ad2a845ba9e510202c4fc46ba1bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:19 +0000
Subject: [PATCH 012/106] fix: zero flux at the end of a spectrum resampled
 with the fine grid

---
 RedshiftLibrary/src/lib/spectrum/rebin/rebinFineGrid.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/RedshiftLibrary/src/lib/spectrum/rebin/rebinFineGrid.cpp b/RedshiftLibrary/src/lib/spectrum/rebin/rebinFineGrid.cpp
index f2bd3f5..d8b3f1d 100644
--- a/RedshiftLibrary/src/lib/spectrum/rebin/rebinFineGrid.cpp
+++ b/RedshiftLibrary/src/lib/spectrum/rebin/rebinFineGrid.cpp
@@ -74,6 +74,9 @@ void CRebinFineGrid::rebinFineGrid() {
   Float64 x = 0.0;
   for (k = 0; k < nTgt; k++) {
     x = lmin + k * m_dLambdaFineGrid;
+    // the last samples are closer to the first grid point beyond the end
+    if (x > lmax && x < lmax + m_dLambdaFineGrid)
+      x = lmax;
     if (x < spectralAxis[0] || x > spectralAxis[n - 1]) {
       m_pfgFlux[k] = 0.0;
     } else {
-- 
2.43.0


From 7206dc3131c0b8b6b7efdbcd1c9691a7ed72011c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:19 +0000
Subject: [PATCH 013/106] fix: log-sampled templates on another grid phase
 taken as aligned

---
 RedshiftLibrary/src/lib/spectrum/logrebinning.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RedshiftLibrary/src/lib/spectrum/logrebinning.cpp b/RedshiftLibrary/src/lib/spectrum/logrebinning.cpp
index 3eaa3ae..d4d8510 100644
--- a/RedshiftLibrary/src/lib/spectrum/logrebinning.cpp
+++ b/RedshiftLibrary/src/lib/spectrum/logrebinning.cpp
@@ -295,7 +295,7 @@ bool CSpectrumLogRebinning::checkTemplateAlignment(
   const TAxisSampleList &w = tpl->GetSpectralAxis().GetSamplesVector();
   const Float64 &lstart = lambdaRange_tpl.GetBegin();
   Int32 idx = CIndexing<Float64>::getCloserIndex(w, lstart);
-  return (lstart - w[idx]) / w[idx] <= 2E-7;
+  return std::abs(lstart - w[idx]) / w[idx] <= 2E-7;
 }
 
 TFloat64Range CSpectrumLogRebinning::logRebinTemplateCatalog(
-- 
2.43.0


From da2783c22a4dce20c9ad8e3d10b9c7655aa8e0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:07 +0000
Subject: [PATCH 014/106] fix: log rebinning refused a spectrum or template
 just covering its range

---
 .../src/lib/spectrum/logrebinning.cpp            | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/RedshiftLibrary/src/lib/spectrum/logrebinning.cpp b/RedshiftLibrary/src/lib/spectrum/logrebinning.cpp
index d4d8510..b0670ea 100644
--- a/RedshiftLibrary/src/lib/spectrum/logrebinning.cpp
+++ b/RedshiftLibrary/src/lib/spectrum/logrebinning.cpp
@@ -143,14 +143,16 @@ std::shared_ptr<CSpectrum> CSpectrumLogRebinning::loglambdaRebinSpectrum(
           loglambda_start_ref +
           ceil((loglambda_start_spc - loglambda_start_ref) / m_logGridStep) *
               m_logGridStep; // ceil to be bigger or equal the first sample
-      lambdaRange_spc.SetBegin(exp(loglambda_start_spc));
+      lambdaRange_spc.SetBegin(
+          std::max(exp(loglambda_start_spc), lambdaRange_spc.GetBegin()));
     }
     if (lambdaRange_spc.GetEnd() < m_lambdaRange_ref.GetEnd()) {
       loglambda_end_spc =
           loglambda_end_ref -
           ceil((loglambda_end_ref - loglambda_end_spc) / m_logGridStep) *
               m_logGridStep; // ceil to be less or equal the last sample
-      lambdaRange_spc.SetEnd(exp(loglambda_end_spc));
+      lambdaRange_spc.SetEnd(
+          std::min(exp(loglambda_end_spc), lambdaRange_spc.GetEnd()));
     }
     Float64 count_ = (loglambda_end_spc - loglambda_start_spc) /
                      m_logGridStep; // should integer at numerical precision...
@@ -170,9 +172,8 @@ std::shared_ptr<CSpectrum> CSpectrumLogRebinning::loglambdaRebinSpectrum(
   const CSpectrumSpectralAxis targetSpectralAxis =
       computeTargetLogSpectralAxis(lambdaRange_spc, loglambda_count_spc);
 
-  TFloat64Range spcLbdaRange(targetSpectralAxis[0] - 0.5 * m_logGridStep,
-                             targetSpectralAxis[loglambda_count_spc - 1] +
-                                 0.5 * m_logGridStep);
+  TFloat64Range spcLbdaRange(targetSpectralAxis[0],
+                             targetSpectralAxis[loglambda_count_spc - 1]);
 
   // rebin the spectrum
   spectrum.setRebinInterpMethod(m_rebinMethod);
@@ -264,9 +265,8 @@ std::shared_ptr<CTemplate> CSpectrumLogRebinning::loglambdaRebinTemplate(
   templateRebinedLog->m_igmCorrectionMeiksin = tpl->m_igmCorrectionMeiksin;
   CMask mskRebinedLog;
 
-  TFloat64Range tplLbdaRange(targetSpectralAxis[0] - 0.5 * m_logGridStep,
-                             targetSpectralAxis[loglambda_count_tpl - 1] +
-                                 0.5 * m_logGridStep);
+  TFloat64Range tplLbdaRange(targetSpectralAxis[0],
+                             targetSpectralAxis[loglambda_count_tpl - 1]);
 
   tpl->setRebinInterpMethod(m_rebinMethod);
   tpl->Rebin(tplLbdaRange, targetSpectralAxis, *templateRebinedLog,
-- 
2.43.0


From 805fa4866fc5fcabbcf10feefd8d8ed95b4b068d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:32 +0000
Subject: [PATCH 015/106] fix: continuum prior read out of bounds when fitting
 without dust

---
 RedshiftLibrary/src/lib/operator/templatefitting.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/RedshiftLibrary/src/lib/operator/templatefitting.cpp b/RedshiftLibrary/src/lib/operator/templatefitting.cpp
index df1c61c..3a7a5a3 100644
--- a/RedshiftLibrary/src/lib/operator/templatefitting.cpp
+++ b/RedshiftLibrary/src/lib/operator/templatefitting.cpp
@@ -163,8 +163,9 @@ TFittingIsmIgmResult COperatorTemplateFitting::BasicFit(
           ApplyDustCoeff(kEbmv, spcIndex);
       }
 
+      // without dust (kEbmv=-1) the prior is the one of the first coefficient
       const CPriorHelper::SPriorTZE &logpriorTZE =
-          apply_priore ? logpriore[kEbmv] : logpriorTZEempty;
+          apply_priore ? logpriore[std::max(kEbmv, 0)] : logpriorTZEempty;
       TFittingResult fitRes;
       for (Int32 spcIndex = 0; spcIndex < m_spectra.size(); spcIndex++) {
         fitRes.cross_result +=
-- 
2.43.0


From 5087f076dfdffd2135585b03e3a299abe3eb63d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:32 +0000
Subject: [PATCH 016/106] fix: IGM fit counting samples twice when the whole
 range is below Lyman alpha

---
 RedshiftLibrary/src/lib/operator/templatefitting.cpp         | 5 +++++
 RedshiftLibrary/src/lib/operator/templatefittingwithphot.cpp | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/RedshiftLibrary/src/lib/operator/templatefitting.cpp b/RedshiftLibrary/src/lib/operator/templatefitting.cpp
index 3a7a5a3..4a51e00 100644
--- a/RedshiftLibrary/src/lib/operator/templatefitting.cpp
+++ b/RedshiftLibrary/src/lib/operator/templatefitting.cpp
@@ -291,6 +291,11 @@ TCrossProductResult COperatorTemplateFitting::ComputeCrossProducts(
 
   if (m_option_igmFastProcessing) {
     if (kM == 0) {
+      if (sumsIgmSaved == 0) { // no sample outside the IGM range
+        sumCross_IGM = sumCross;
+        sumT_IGM = sumT;
+        sumS_IGM = sumS;
+      }
       m_sumCross_outsideIGM[spcIndex][kEbmv_] = sumCross - sumCross_IGM;
       m_sumT_outsideIGM[spcIndex][kEbmv_] = sumT - sumT_IGM;
       m_sumS_outsideIGM[spcIndex][kEbmv_] = sumS - sumS_IGM;
diff --git a/RedshiftLibrary/src/lib/operator/templatefittingwithphot.cpp b/RedshiftLibrary/src/lib/operator/templatefittingwithphot.cpp
index 536c7e2..e5d1f86 100644
--- a/RedshiftLibrary/src/lib/operator/templatefittingwithphot.cpp
+++ b/RedshiftLibrary/src/lib/operator/templatefittingwithphot.cpp
@@ -296,6 +296,11 @@ void COperatorTemplateFittingPhot::ComputePhotCrossProducts(
 
   if (m_option_igmFastProcessing) {
     if (kM == 0) {
+      if (!sumsIgmSaved) { // all bands are in the IGM range
+        sumCross_IGM = sumCross_phot;
+        sumT_IGM = sumT_phot;
+        sumS_IGM = sumS_phot;
+      }
       m_sumCross_outsideIGM_phot[kEbmv_] = sumCross_phot - sumCross_IGM;
       m_sumT_outsideIGM_phot[kEbmv_] = sumT_phot - sumT_IGM;
       m_sumS_outsideIGM_phot[kEbmv_] = sumS_phot - sumS_IGM;
-- 
2.43.0


From 59393118d2bfde77911c19782a09f2f2535a7040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:03 +0000
Subject: [PATCH 017/106] fix: IGM convolved over the range of the first
 observation only

---
 .../src/lib/processflow/inputcontext.cpp            | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/RedshiftLibrary/src/lib/processflow/inputcontext.cpp b/RedshiftLibrary/src/lib/processflow/inputcontext.cpp
index 6d113e1..e82be12 100644
--- a/RedshiftLibrary/src/lib/processflow/inputcontext.cpp
+++ b/RedshiftLibrary/src/lib/processflow/inputcontext.cpp
@@ -206,6 +206,17 @@ void CInputContext::Init() {
                                                      *clampedLambdaRange_ptr);
   }
 
+  // range covered by all the spectra
+  TFloat64Range fullLambdaRange;
+  for (auto const &lambdaRange_ptr : m_lambdaRanges)
+    fullLambdaRange =
+        lambdaRange_ptr == m_lambdaRanges.front()
+            ? *lambdaRange_ptr
+            : TFloat64Range(std::min(fullLambdaRange.GetBegin(),
+                                     lambdaRange_ptr->GetBegin()),
+                            std::max(fullLambdaRange.GetEnd(),
+                                     lambdaRange_ptr->GetEnd()));
+
   // validate spectra and initialize spectra continuum removal
   for (auto const &[spectrum_ptr, lambdaRange_ptr] :
        boost::combine(m_spectra, m_lambdaRanges)) {
@@ -216,7 +227,7 @@ void CInputContext::Init() {
     if (!m_igmcorrectionMeiksin->isConvolved() ||
         m_ParameterStore->Get<std::string>("lsf.lsfType") == "fromSpectrumData")
       m_igmcorrectionMeiksin->convolveByLSF(spectrum_ptr->GetLSF(),
-                                            *lambdaRange_ptr);
+                                            fullLambdaRange);
   }
 
   // insert extinction correction objects if needed
-- 
2.43.0


From 355a9f0085dd32ce2b2972da7ff32295d106181d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:03 +0000
Subject: [PATCH 018/106] fix: template fitting with IGM and no dust failed
 when no sample is below Lyman alpha

---
 RedshiftLibrary/src/lib/operator/templatefitting.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/RedshiftLibrary/src/lib/operator/templatefitting.cpp b/RedshiftLibrary/src/lib/operator/templatefitting.cpp
index 4a51e00..a3319f9 100644
--- a/RedshiftLibrary/src/lib/operator/templatefitting.cpp
+++ b/RedshiftLibrary/src/lib/operator/templatefitting.cpp
@@ -86,7 +86,6 @@ TFittingIsmIgmResult COperatorTemplateFitting::BasicFit(
 
   Int32 EbmvListSize = EbmvList.size();
   Int32 MeiksinListSize = MeiksinList.size();
-  m_option_igmFastProcessing = (MeiksinListSize > 1 ? true : false);
 
   bool apply_priore =
       !logpriore.empty() && !tpl->CalzettiInitFailed() &&
@@ -111,6 +110,8 @@ TFittingIsmIgmResult COperatorTemplateFitting::BasicFit(
   if (opt_extinction)
     opt_extinction = igmIsInRange(currentRanges);
 
+  m_option_igmFastProcessing = opt_extinction && MeiksinListSize > 1;
+
   if (opt_dustFitting || opt_extinction) {
     for (Int32 spcIndex = 0; spcIndex < m_spectra.size(); spcIndex++) {
       InitIsmIgmConfig(redshift, m_kStart[spcIndex], m_kEnd[spcIndex],
-- 
2.43.0


From c689d61401f212c44c3d1c5378cb088b1e52cc98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:14 +0000
Subject: [PATCH 019/106] fix: model photometry of a template fit without its
 amplitude

---
 RedshiftLibrary/src/lib/operator/templatefittingBase.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RedshiftLibrary/src/lib/operator/templatefittingBase.cpp b/RedshiftLibrary/src/lib/operator/templatefittingBase.cpp
index 0ed10ec..14d2a71 100644
--- a/RedshiftLibrary/src/lib/operator/templatefittingBase.cpp
+++ b/RedshiftLibrary/src/lib/operator/templatefittingBase.cpp
@@ -146,7 +146,7 @@ TPhotVal COperatorTemplateFittingBase::ComputeSpectrumModel(
                              CSpectrumSpectralAxis::nShiftForward);
   models->addModel(CSpectrum(std::move(modelwav), modelflux),
                    m_spectra[spcIndex]->getObsID());
-  return spcIndex > 0 ? TPhotVal() : getIntegratedFluxes();
+  return spcIndex > 0 ? TPhotVal() : getIntegratedFluxes(amplitude);
 }
 
 void COperatorTemplateFittingBase::RebinTemplate(
-- 
2.43.0


From 1adf9b5120b2091d1aa706acb0e4501b97b2dc18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:14 +0000
Subject: [PATCH 020/106] fix: sign of the photometric errors in the likelihood
 constant

---
 RedshiftLibrary/src/lib/operator/templatefittingwithphot.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/RedshiftLibrary/src/lib/operator/templatefittingwithphot.cpp b/RedshiftLibrary/src/lib/operator/templatefittingwithphot.cpp
index e5d1f86..e30b77e 100644
--- a/RedshiftLibrary/src/lib/operator/templatefittingwithphot.cpp
+++ b/RedshiftLibrary/src/lib/operator/templatefittingwithphot.cpp
@@ -325,9 +325,9 @@ Float64 COperatorTemplateFittingPhot::EstimateLikelihoodCstLog() const {
   const auto &photData = spectrum->GetPhotData();
   for (const auto &b : *m_photBandCat) {
     const std::string &bandName = b.first;
-    sumLogNoise += log(photData->GetFluxErr(bandName) * m_weight);
+    sumLogNoise += log(photData->GetFluxErr(bandName) / m_weight);
   }
-  cstlog -= m_photBandCat->size() * 0.5 * log(2 * M_PI) - sumLogNoise;
+  cstlog -= m_photBandCat->size() * 0.5 * log(2 * M_PI) + sumLogNoise;
 
   return cstlog;
 }
-- 
2.43.0


From 7372812b2fd69725d4f256d318e9bd31c4bda62d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:25 +0000
Subject: [PATCH 021/106] fix: fit of a single-template combination read the
 covariance out of range

---
 RedshiftLibrary/src/lib/operator/tplcombination.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/RedshiftLibrary/src/lib/operator/tplcombination.cpp b/RedshiftLibrary/src/lib/operator/tplcombination.cpp
index 7c7d479..1d3752c 100644
--- a/RedshiftLibrary/src/lib/operator/tplcombination.cpp
+++ b/RedshiftLibrary/src/lib/operator/tplcombination.cpp
@@ -283,12 +283,15 @@ void COperatorTplcombination::BasicFit(
 
 #define C(i) (gsl_vector_get(c, (i)))
 #define COV(i, j) (gsl_matrix_get(cov, (i), (j)))
-      Log.LogDebug(Formatter() << "# best fit: Y = " << C(0) << " X1 + " << C(1)
-                               << " X2 ...");
+      Log.LogDebug(Formatter() << "# best fit: Y = " << C(0) << " X1 + ...");
       Log.LogDebug(Formatter() << "# covariance matrix:");
       Log.LogDebug(Formatter() << "[");
-      Log.LogDebug(Formatter() << "  " << COV(0, 0) << ", " << COV(0, 1));
-      Log.LogDebug(Formatter() << "  " << COV(1, 0) << "," << COV(1, 1));
+      for (Int32 iddl = 0; iddl < nddl; iddl++) {
+        Formatter row;
+        for (Int32 iddc = 0; iddc < nddl; iddc++)
+          row << "  " << COV(iddl, iddc);
+        Log.LogDebug(row);
+      }
       Log.LogDebug(Formatter() << "]");
       Log.LogDebug(Formatter() << "# chisq/n = " << chisq / n);
 
-- 
2.43.0


From 25a00f920a146eca305aeba90b0abad11024b46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:25 +0000
Subject: [PATCH 022/106] fix: combined template amplitudes of the last
 attenuation reported, not of the best one

---
 .../src/lib/operator/tplcombination.cpp       | 33 +++++++++----------
 1 file changed, 15 insertions(+), 18 deletions(-)

diff --git a/RedshiftLibrary/src/lib/operator/tplcombination.cpp b/RedshiftLibrary/src/lib/operator/tplcombination.cpp
index 1d3752c..088049d 100644
--- a/RedshiftLibrary/src/lib/operator/tplcombination.cpp
+++ b/RedshiftLibrary/src/lib/operator/tplcombination.cpp
@@ -303,37 +303,34 @@ void COperatorTplcombination::BasicFit(
 
       // save the fitted amps and fitErrors, etc...
       Float64 a, err2, err, sA = 0, sE = 0;
+      TFloat64List amplitudes(nddl), amplitudeErrors(nddl),
+          amplitudeSigmas(nddl);
       for (Int32 iddl = 0; iddl < nddl; iddl++) {
         a = gsl_vector_get(c, iddl);
-        fittingResults.fittingAmplitudes[iddl] = a * normFactor;
+        amplitudes[iddl] = a * normFactor;
         err2 = COV(iddl, iddl);
         err = std::sqrt(err2);
-        fittingResults.fittingAmplitudeErrors[iddl] = err * normFactor;
-        fittingResults.fittingAmplitudeSigmas[iddl] = a / err;
+        amplitudeErrors[iddl] = err * normFactor;
+        amplitudeSigmas[iddl] = a / err;
         sA += a * a;
         sE += err2;
       }
       SNR = std::sqrt(sA / sE);
       fittingResults.fittingAmplitudesInterm[kEbmv_][kigm] =
-          fittingResults.fittingAmplitudes; // saving
-
-      // save covariance matrix into MtM
-      for (Int32 iddl = 0; iddl < nddl; iddl++) {
-        for (Int32 iddc = 0; iddc < nddl; iddc++) {
-          fittingResults.COV[iddl][iddc] = COV(iddl, iddc);
-        }
-      }
-      if (fittingResults.fittingAmplitudes.size() != nddl) {
-        Log.LogDebug(Formatter() << " Found nfittedamps(="
-                                 << fittingResults.fittingAmplitudes.size()
-                                 << ") "
-                                    "different than nddl(="
-                                 << nddl << ")");
-      }
+          amplitudes; // saving
 
       if (chisq < fittingResults.chiSquare) {
         fittingResults.chiSquare = chisq;
         fittingResults.SNR = SNR;
+        fittingResults.fittingAmplitudes = amplitudes;
+        fittingResults.fittingAmplitudeErrors = amplitudeErrors;
+        fittingResults.fittingAmplitudeSigmas = amplitudeSigmas;
+        // save covariance matrix into MtM
+        for (Int32 iddl = 0; iddl < nddl; iddl++) {
+          for (Int32 iddc = 0; iddc < nddl; iddc++) {
+            fittingResults.COV[iddl][iddc] = COV(iddl, iddc);
+          }
+        }
         fittingResults.MeiksinIdx =
             igmCorrectionAppliedOnce ? meiksinIdx : undefIdx;
         fittingResults.EbmvCoeff = coeffEBMV;
-- 
2.43.0


From 4362ffac22b9ccc25aa8807a2b17bd260c1bfacd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:25 +0000
Subject: [PATCH 023/106] fix: covariance of combined templates in the units of
 the normalised flux

---
 RedshiftLibrary/src/lib/operator/tplcombination.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/RedshiftLibrary/src/lib/operator/tplcombination.cpp b/RedshiftLibrary/src/lib/operator/tplcombination.cpp
index 088049d..9440233 100644
--- a/RedshiftLibrary/src/lib/operator/tplcombination.cpp
+++ b/RedshiftLibrary/src/lib/operator/tplcombination.cpp
@@ -328,7 +328,8 @@ void COperatorTplcombination::BasicFit(
         // save covariance matrix into MtM
         for (Int32 iddl = 0; iddl < nddl; iddl++) {
           for (Int32 iddc = 0; iddc < nddl; iddc++) {
-            fittingResults.COV[iddl][iddc] = COV(iddl, iddc);
+            fittingResults.COV[iddl][iddc] =
+                COV(iddl, iddc) * normFactor * normFactor;
           }
         }
         fittingResults.MeiksinIdx =
-- 
2.43.0


From 937f66c5b687ad25c7c461c5840799eed7e651de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:25 +0000
Subject: [PATCH 024/106] fix: masks ignored by the template combination

---
 RedshiftLibrary/src/lib/operator/tplcombination.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/RedshiftLibrary/src/lib/operator/tplcombination.cpp b/RedshiftLibrary/src/lib/operator/tplcombination.cpp
index 9440233..ffe4492 100644
--- a/RedshiftLibrary/src/lib/operator/tplcombination.cpp
+++ b/RedshiftLibrary/src/lib/operator/tplcombination.cpp
@@ -192,7 +192,9 @@ void COperatorTplcombination::BasicFit(
     ei = spcError[i + kStart] / normFactor;
 
     gsl_vector_set(y, i, yi);              // y[i] = yi
-    gsl_vector_set(w, i, 1.0 / (ei * ei)); // w[i] = 1/(ei*ei)
+    // w[i] = 1/(ei*ei), null for masked samples
+    gsl_vector_set(w, i,
+                   spcMaskAdditional[i + kStart] ? 1.0 / (ei * ei) : 0.0);
   }
   for (Int32 kigm = 0; kigm < nIGM; kigm++) {
     if (igmLoopUseless_WavelengthRange) {
-- 
2.43.0


From be0665675e848359b4fa8d80d2ffb7acb6aa2b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:25 +0000
Subject: [PATCH 025/106] fix: wavelengths of the combined template model
 redshifted twice

---
 RedshiftLibrary/src/lib/operator/tplcombination.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/RedshiftLibrary/src/lib/operator/tplcombination.cpp b/RedshiftLibrary/src/lib/operator/tplcombination.cpp
index ffe4492..facc2e9 100644
--- a/RedshiftLibrary/src/lib/operator/tplcombination.cpp
+++ b/RedshiftLibrary/src/lib/operator/tplcombination.cpp
@@ -646,7 +646,8 @@ COperatorTplcombination::ComputeSpectrumModel(
   const CSpectrumFluxAxis &extinction = identityTemplate.GetFluxAxis();
 
   Int32 modelSize = spectrum.GetSampleCount();
-  CSpectrumSpectralAxis modelSpcAxis = spectrum.GetSpectralAxis();
+  CSpectrumSpectralAxis modelSpcAxis =
+      spectrum.GetSpectralAxis(); // observed frame
 
   CSpectrumFluxAxis modelFlux(modelSize, 0.0);
   for (Int32 iddl = 0; iddl < nddl; iddl++) {
@@ -655,9 +656,6 @@ COperatorTplcombination::ComputeSpectrumModel(
       modelFlux[k] += amplitudes[iddl] * tmp[k] * extinction[k];
     }
   }
-  modelSpcAxis.ShiftByWaveLength((1.0 + redshift),
-                                 CSpectrumSpectralAxis::nShiftForward);
-
   // Deallocate the rebined template and mask buffers
   m_templatesRebined_bf.clear();
   m_masksRebined_bf.clear();
-- 
2.43.0


From fa1373665622db0355ef95efe211943f25913fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:01 +0000
Subject: [PATCH 026/106] fix: log-rebinned redshift ranges of the previous
 spectrum kept

---
 RedshiftLibrary/src/lib/processflow/inputcontext.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/RedshiftLibrary/src/lib/processflow/inputcontext.cpp b/RedshiftLibrary/src/lib/processflow/inputcontext.cpp
index e82be12..bcc27fd 100644
--- a/RedshiftLibrary/src/lib/processflow/inputcontext.cpp
+++ b/RedshiftLibrary/src/lib/processflow/inputcontext.cpp
@@ -86,6 +86,8 @@ the client has the responsibility to add these info to each spectrum
 */
 void CInputContext::RebinInputs() {
 
+  m_logRebin.clear(); // do not keep the ranges of the previous spectrum
+
   std::map<std::string, bool> fft_processing;
   m_use_LogLambaSpectrum =
       m_ParameterStore->hasToLogRebin(m_categories, fft_processing);
-- 
2.43.0


From 97b87f7964ced4e2f77c629a127b4060364637d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:29 +0000
Subject: [PATCH 027/106] fix: two attenuation bins between consecutive
 redshifts made an empty range in the FFT fit

---
 RedshiftLibrary/src/lib/operator/templatefittinglog.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/RedshiftLibrary/src/lib/operator/templatefittinglog.cpp b/RedshiftLibrary/src/lib/operator/templatefittinglog.cpp
index 8e83cf2..0f4a3c1 100644
--- a/RedshiftLibrary/src/lib/operator/templatefittinglog.cpp
+++ b/RedshiftLibrary/src/lib/operator/templatefittinglog.cpp
@@ -391,7 +391,8 @@ COperatorTemplateFittingLog::FindZRanges(const TFloat64List &redshifts) {
           break;
         Int32 iz = -1;
         TFloat64Index::getClosestLowerIndex(redshifts, z, iz);
-        zsplit.push_back(iz);
+        if (zsplit.empty() || iz > zsplit.back()) // no empty range
+          zsplit.push_back(iz);
       }
     }
 
-- 
2.43.0


From 1dd0ac91fe14ba39a0f6ab3ede126e7c043ae1df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:11 +0000
Subject: [PATCH 028/106] fix: air to vacuum conversion stopped after one
 iteration

---
 RedshiftLibrary/src/lib/line/airvacuum.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/RedshiftLibrary/src/lib/line/airvacuum.cpp b/RedshiftLibrary/src/lib/line/airvacuum.cpp
index 8bd8b4e..5215e7e 100644
--- a/RedshiftLibrary/src/lib/line/airvacuum.cpp
+++ b/RedshiftLibrary/src/lib/line/airvacuum.cpp
@@ -97,8 +97,11 @@ TFloat64List CAirVacuum::AirToVac(const TFloat64List &waveAir) const {
                 << m_name);
 
   do {
-    // delta = VacToAir(waveVac) - waveAir;
-    delta = VacToAir(waveVac);
+    // delta = waveVac / n - waveAir (without domain check, the intermediate
+    // wavelengths may be just above the upper limit)
+    delta = AirRefractiveIndex(waveVac);
+    std::transform(waveVac.begin(), waveVac.end(), delta.begin(), delta.begin(),
+                   std::divides<Float64>());
     std::transform(delta.begin(), delta.end(), waveAir.begin(), delta.begin(),
                    std::minus<Float64>());
 
@@ -106,10 +109,10 @@ TFloat64List CAirVacuum::AirToVac(const TFloat64List &waveAir) const {
     std::transform(waveVac.begin(), waveVac.end(), delta.begin(),
                    waveVac.begin(), std::minus<Float64>());
 
-    precision =
+    precision = std::abs(
         *std::max_element(delta.begin(), delta.end(), [](Float64 x, Float64 y) {
-          return (abs(x) < abs(y));
-        });
+          return (std::abs(x) < std::abs(y));
+        }));
     if (precision <= minprecision)
       break;
 
-- 
2.43.0


From e87fe0e80434c687ee75efba307c8b5cdfae749c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:11 +0000
Subject: [PATCH 029/106] fix: derivative and mode centring of the asymmetric
 line profile

---
 RedshiftLibrary/src/lib/line/lineprofileASYM.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/RedshiftLibrary/src/lib/line/lineprofileASYM.cpp b/RedshiftLibrary/src/lib/line/lineprofileASYM.cpp
index 2f180fa..9a88f85 100644
--- a/RedshiftLibrary/src/lib/line/lineprofileASYM.cpp
+++ b/RedshiftLibrary/src/lib/line/lineprofileASYM.cpp
@@ -93,7 +93,9 @@ Float64 CLineProfileASYM::GetXSurc(Float64 xc, Float64 &sigma,
     Float64 sigmaz = std::sqrt(1 - muz * muz);
     Float64 gamma1 = ((4 - M_PI) / 2.0) * pow(delta * std::sqrt(2 / M_PI), 3.) /
                      pow(1 - 2 * delta * delta / M_PI, 3. / 2.);
-    m0 = muz - gamma1 * sigmaz / 2.0 - 0.5 * exp(-2 * M_PI / m_asym_alpha);
+    m0 = muz - gamma1 * sigmaz / 2.0 -
+         std::copysign(0.5, m_asym_alpha) *
+             exp(-2 * M_PI / std::abs(m_asym_alpha));
   }
 
   xc = xc + sigma * m0;
@@ -140,7 +142,7 @@ Float64 CLineProfileASYM::GetLineProfileDerivX0(Float64 x, Float64 x0,
   Float64 val =
       xsurc / sigma * exp(-0.5 * xsurc2) *
           (1.0 + erf(m_asym_alpha / sqrt(2.0) * xsurc)) -
-      m_asym_alpha / sqrt(2 * M_PI) / sigma * exp(-(1 + alpha2) / 2 * xsurc2);
+      m_asym_alpha * sqrt(2 / M_PI) / sigma * exp(-(1 + alpha2) / 2 * xsurc2);
   return val;
 }
 
-- 
2.43.0


From 2113d6b9801e4ce11111d5f2575409a31cc96295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:51 +0000
Subject: [PATCH 030/106] fix: limiting a line amplitude wrote the lines of its
 element outside the range and divided by a null nominal amplitude

---
 RedshiftLibrary/src/lib/linemodel/elementparam.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/RedshiftLibrary/src/lib/linemodel/elementparam.cpp b/RedshiftLibrary/src/lib/linemodel/elementparam.cpp
index a65b8ba..a940cb0 100644
--- a/RedshiftLibrary/src/lib/linemodel/elementparam.cpp
+++ b/RedshiftLibrary/src/lib/linemodel/elementparam.cpp
@@ -250,10 +250,13 @@ bool TLineModelElementParam::LimitFittedAmplitude(Int32 line_index,
     m_FittedAmplitudes[line_index] = std::max(0.0, limit);
 
     // now update the amplitude of the other lines
+    if (m_NominalAmplitudes[line_index] == 0.0)
+      return limited;
     Float64 amplitudeRef =
         GetFittedAmplitude(line_index) / m_NominalAmplitudes[line_index];
     for (Int32 index = 0; index != size(); ++index) {
-      m_FittedAmplitudes[index] = m_NominalAmplitudes[index] * amplitudeRef;
+      if (!std::isnan(m_FittedAmplitudes[index]))
+        m_FittedAmplitudes[index] = m_NominalAmplitudes[index] * amplitudeRef;
     }
   }
   return limited;
-- 
2.43.0


From 93441a8253020d8c41a72581f885ddf3c70dd345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:51 +0000
Subject: [PATCH 031/106] fix: ratio rule ignored the nominal amplitudes of the
 two lines

---
 .../src/lib/line/ruleOIIRatioRange.cpp           | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/RedshiftLibrary/src/lib/line/ruleOIIRatioRange.cpp b/RedshiftLibrary/src/lib/line/ruleOIIRatioRange.cpp
index 0d1ecc0..96db8e5 100644
--- a/RedshiftLibrary/src/lib/line/ruleOIIRatioRange.cpp
+++ b/RedshiftLibrary/src/lib/line/ruleOIIRatioRange.cpp
@@ -107,6 +107,13 @@ void CRuleRatioRange::Correct(CLMEltListVector &LineModelElementList) {
       LineModelElementList.getElementParam()[iEltB]->GetFittedAmplitude(idB);
   Float64 erB =
       LineModelElementList.getElementParam()[iEltB]->GetFittedAmplitudeStd(idB);
+  Float64 const nominalA =
+      LineModelElementList.getElementParam()[iEltA]->GetNominalAmplitude(idA);
+  Float64 const nominalB =
+      LineModelElementList.getElementParam()[iEltB]->GetNominalAmplitude(idB);
+  if (nominalA == 0.0 || nominalB == 0.0)
+    return;
+
   Int32 i1 = iEltA;
   Int32 i2 = iEltB;
   Float64 amp1 = ampA;
@@ -154,8 +161,13 @@ void CRuleRatioRange::Correct(CLMEltListVector &LineModelElementList) {
   constructLogMsg(m_LineA, ampA, correctedA);
   constructLogMsg(m_LineB, ampB, correctedB);
 
-  LineModelElementList.SetElementAmplitude(i1, corrected1, er1);
-  LineModelElementList.SetElementAmplitude(i2, corrected2, er2);
+  // element amplitudes giving the corrected amplitudes to the two lines
+  Float64 const nominal1 = i1 == iEltA ? nominalA : nominalB;
+  Float64 const nominal2 = i1 == iEltA ? nominalB : nominalA;
+  LineModelElementList.SetElementAmplitude(i1, corrected1 / nominal1,
+                                           er1 / nominal1);
+  LineModelElementList.SetElementAmplitude(i2, corrected2 / nominal2,
+                                           er2 / nominal2);
 }
 
 void CRuleRatioRange::constructLogMsg(const std::string &lineStrA, Float64 ampA,
-- 
2.43.0


From cb460d4c97f9d28772e0cff32fc9c2164b30c8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:37 +0000
Subject: [PATCH 032/106] fix: range parameter without two values read out of
 bounds

---
 RedshiftLibrary/RedshiftLibrary/processflow/parameterstore.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/RedshiftLibrary/RedshiftLibrary/processflow/parameterstore.h b/RedshiftLibrary/RedshiftLibrary/processflow/parameterstore.h
index 00830ce..f25417f 100644
--- a/RedshiftLibrary/RedshiftLibrary/processflow/parameterstore.h
+++ b/RedshiftLibrary/RedshiftLibrary/processflow/parameterstore.h
@@ -168,6 +168,9 @@ template <>
 inline TFloat64Range
 CParameterStore::Get<TFloat64Range>(const std::string &name) const {
   TFloat64List fl = GetList<Float64>(name);
+  if (fl.size() != 2)
+    THROWG(ErrorCode::BAD_PARAMETER_VALUE,
+           Formatter() << "Parameter " << name << " is not a range");
   return TFloat64Range(fl[0], fl[1]);
 }
 
-- 
2.43.0


From 19d5bbc2a3defac40413126ece51c9df2f1aaa23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:57 +0000
Subject: [PATCH 033/106] fix: classification failed when a spectrum model has
 no redshift solver

---
 .../src/lib/method/classificationsolve.cpp           | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/RedshiftLibrary/src/lib/method/classificationsolve.cpp b/RedshiftLibrary/src/lib/method/classificationsolve.cpp
index 874fccb..496d2ab 100644
--- a/RedshiftLibrary/src/lib/method/classificationsolve.cpp
+++ b/RedshiftLibrary/src/lib/method/classificationsolve.cpp
@@ -54,12 +54,16 @@ std::shared_ptr<CSolveResult> CClassificationSolve::compute() {
   std::map<std::string, Float64> logEvidences;
   std::map<std::string, bool> hasResult;
   std::string stage = "redshiftSolver";
+  auto const &parameterStore = inputContext->GetParameterStore();
   for (const std::string &spectrumModel : inputContext->m_categories) {
-    const std::string &method =
-        inputContext->GetParameterStore()->Get<std::string>(
-            spectrumModel + "." + stage + ".method");
+    // a model without redshift solver (line measurement only) has no result
+    std::string const methodName = spectrumModel + "." + stage + ".method";
+    bool const hasMethod = parameterStore->Has<std::string>(methodName);
+    std::string const method =
+        hasMethod ? parameterStore->Get<std::string>(methodName) : "";
 
-    if (resultStore->hasSolveResult(spectrumModel, stage, method)) {
+    if (hasMethod &&
+        resultStore->hasSolveResult(spectrumModel, stage, method)) {
       results[spectrumModel] = std::dynamic_pointer_cast<const CPdfSolveResult>(
           resultStore->GetSolveResult(spectrumModel, stage, method).lock());
       hasResult[spectrumModel] = true;
-- 
2.43.0


From d03c0b61edc68e01478160acb2b344728eb95c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:57 +0000
Subject: [PATCH 034/106] fix: undefined evidence gave undefined class
 probabilities

---
 RedshiftLibrary/src/lib/method/classificationsolve.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RedshiftLibrary/src/lib/method/classificationsolve.cpp b/RedshiftLibrary/src/lib/method/classificationsolve.cpp
index 496d2ab..6039e10 100644
--- a/RedshiftLibrary/src/lib/method/classificationsolve.cpp
+++ b/RedshiftLibrary/src/lib/method/classificationsolve.cpp
@@ -94,7 +94,7 @@ std::shared_ptr<CSolveResult> CClassificationSolve::compute() {
       sum += Proba;
     }
   }
-  if (sum <= 0) {
+  if (!(sum > 0)) { // also true when sum is not a number
     THROWG(ErrorCode::NO_CLASSIFICATION,
            "Classification failed, all probabilities undefined");
   }
-- 
2.43.0


From c94327e1743889efe845548080d87ed1d806687a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:58 +0000
Subject: [PATCH 035/106] fix: endless recursion of the continuum with odd
 reflection on a spectrum not of raw type

---
 .../src/lib/continuum/irregularsamplingmedian.cpp           | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/RedshiftLibrary/src/lib/continuum/irregularsamplingmedian.cpp b/RedshiftLibrary/src/lib/continuum/irregularsamplingmedian.cpp
index e95f33e..c5a8c3e 100644
--- a/RedshiftLibrary/src/lib/continuum/irregularsamplingmedian.cpp
+++ b/RedshiftLibrary/src/lib/continuum/irregularsamplingmedian.cpp
@@ -189,11 +189,15 @@ Float64 CContinuumIrregularSamplingMedian::FitBorder(const CSpectrum &s,
   const CSpectrumSpectralAxis &spectralAxis = s.GetSpectralAxis();
   const CSpectrumFluxAxis &fluxAxis = s.GetRawFluxAxis();
 
+  // the fit is on the raw flux, whatever the current type of the spectrum
+  // (with another type, the fit would need the continuum being estimated)
+  const CSpectrum rawSpectrum(spectralAxis, fluxAxis);
+
   TFloat64Range range = TFloat64Range(spectralAxis[kstart], spectralAxis[kend]);
 
   Float64 a;
   Float64 b;
-  bool ret = s.GetLinearRegInRange(range, a, b);
+  bool ret = rawSpectrum.GetLinearRegInRange(range, a, b);
   Int32 k = isRightBorder ? kend : kstart;
   Float64 fitValue = ret ? spectralAxis[k] * a + b : fluxAxis[k];
 
-- 
2.43.0


From 2b92dd42ad67b97ab2e17ef51bc16bf1d4f8e1c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:58 +0000
Subject: [PATCH 036/106] fix: undefined continuum when the kernel is below
 four samples

---
 RedshiftLibrary/src/lib/continuum/irregularsamplingmedian.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/RedshiftLibrary/src/lib/continuum/irregularsamplingmedian.cpp b/RedshiftLibrary/src/lib/continuum/irregularsamplingmedian.cpp
index c5a8c3e..b6edea0 100644
--- a/RedshiftLibrary/src/lib/continuum/irregularsamplingmedian.cpp
+++ b/RedshiftLibrary/src/lib/continuum/irregularsamplingmedian.cpp
@@ -355,8 +355,8 @@ bool CContinuumIrregularSamplingMedian::ProcessRemoveContinuum(
 
   {
     // mean smoothing
-    // mean smooth size=meanSmoothAmplitude/4
-    ysmoobig = MeanSmooth(ysmoobig, (Int32)meanSmoothAmplitude / 4);
+    // mean smooth size=meanSmoothAmplitude/4 (one sample at least)
+    ysmoobig = MeanSmooth(ysmoobig, max(1, meanSmoothAmplitude / 4));
   }
 
   // Copy spectrum before k0
-- 
2.43.0


From c9a3ae8087f1b1fe5ea5206ffc63cc576cc04a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:58 +0000
Subject: [PATCH 037/106] fix: noise of the continuum-free flux lost with the
 raw continuum method

---
 RedshiftLibrary/src/lib/spectrum/spectrum.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/RedshiftLibrary/src/lib/spectrum/spectrum.cpp b/RedshiftLibrary/src/lib/spectrum/spectrum.cpp
index 7192dcd..87a86e8 100644
--- a/RedshiftLibrary/src/lib/spectrum/spectrum.cpp
+++ b/RedshiftLibrary/src/lib/spectrum/spectrum.cpp
@@ -316,6 +316,7 @@ void CSpectrum::EstimateContinuum() const {
   } else if (m_estimationMethod == "raw") {
     Int32 nbSamples = this->GetSampleCount();
     m_WithoutContinuumFluxAxis.SetSize(nbSamples);
+    m_WithoutContinuumFluxAxis.setError(m_RawFluxAxis.GetError());
     for (Int32 k = 0; k < nbSamples; k++) {
       m_WithoutContinuumFluxAxis[k] = 0.0;
     }
-- 
2.43.0


From 61281eeb376d1bc568c2ab7280f451ab8d228795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:29 +0000
Subject: [PATCH 038/106] fix: log blocked for ever after a handler raised

---
 RedshiftLibrary/src/lib/log/log.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/RedshiftLibrary/src/lib/log/log.cpp b/RedshiftLibrary/src/lib/log/log.cpp
index 89e9c27..26952cb 100644
--- a/RedshiftLibrary/src/lib/log/log.cpp
+++ b/RedshiftLibrary/src/lib/log/log.cpp
@@ -56,9 +56,23 @@ CLog::CLog() {
 
 CLog::~CLog() {}
 
+namespace {
+// holds the mutex for the current scope, also when a handler raises
+class CScopedLock {
+public:
+  explicit CScopedLock(CMutex &mutex) : m_Mutex(mutex) { m_Mutex.Lock(); }
+  ~CScopedLock() { m_Mutex.Unlock(); }
+  CScopedLock(const CScopedLock &) = delete;
+  CScopedLock &operator=(const CScopedLock &) = delete;
+
+private:
+  CMutex &m_Mutex;
+};
+} // namespace
+
 void CLog::logEntry(const std::string &msg, CLog::ELevel logLevel,
                     bool withTimestamp) {
-  m_Mutex.Lock();
+  CScopedLock const lock(m_Mutex);
   std::string messageToLog = GetHeader(logLevel) + msg;
   if (withTimestamp)
     messageToLog = timeStampString() + messageToLog;
@@ -69,7 +83,6 @@ void CLog::logEntry(const std::string &msg, CLog::ELevel logLevel,
       }
     }
   }
-  m_Mutex.Unlock();
 }
 
 std::string CLog::timeStampString() {
-- 
2.43.0


From 9cbe6e2371718dfb8f500bb3696f9962e07a4a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:21 +0000
Subject: [PATCH 039/106] fix: refresh the model of every observation before
 the merit with rules

CRulesManager::computeMerit applied the rules and then refreshed only the
current observation's model, so that the merit of the other observations
was the one of the amplitudes before the rules.
---
 RedshiftLibrary/src/lib/linemodel/rulesmanager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RedshiftLibrary/src/lib/linemodel/rulesmanager.cpp b/RedshiftLibrary/src/lib/linemodel/rulesmanager.cpp
index 3135228..62b8072 100644
--- a/RedshiftLibrary/src/lib/linemodel/rulesmanager.cpp
+++ b/RedshiftLibrary/src/lib/linemodel/rulesmanager.cpp
@@ -55,7 +55,7 @@ CRulesManager::CRulesManager(
 
 Float64 CRulesManager::computeMerit(Int32 iratio) {
   applyRules(true);
-  getModel().refreshModel();
+  refreshAllModels();
   return getLeastSquareMerit();
 }
 
-- 
2.43.0


From 721294e0a0bb7090961a1f434c13d3a5dde5870e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:28 +0000
Subject: [PATCH 040/106] fix: simultaneous Balmer fit of the hybrid method
 raised as soon as it was reached

The residual of the model leaves the observation index past the end: the
joint fit that follows raised 'Invalid spectrum index'. The residual before
the fit was also the one of a model not yet refreshed for the redshift, the
joint fit was kept with negative amplitudes, and a rejected fit restored the
amplitudes of the other lines divided by the nominal of another line.
---
 .../src/lib/linemodel/hybridfitter.cpp        | 61 ++++++++-----------
 1 file changed, 24 insertions(+), 37 deletions(-)

diff --git a/RedshiftLibrary/src/lib/linemodel/hybridfitter.cpp b/RedshiftLibrary/src/lib/linemodel/hybridfitter.cpp
index 452faf0..215385d 100644
--- a/RedshiftLibrary/src/lib/linemodel/hybridfitter.cpp
+++ b/RedshiftLibrary/src/lib/linemodel/hybridfitter.cpp
@@ -268,55 +268,42 @@ void CHybridFitter::improveBalmerFit(Float64 redshift) {
       continue;
     }
 
-    // simulatneous fit with linsolve
-    Float64 modelErr_init =
-        getModelResidualRmsUnderElements({iElt_lineA}, true);
-    Float64 ampA = getElementParam()[iElt_lineA]->GetFittedAmplitude(lineA_id);
-    Float64 amp_errorA =
-        getElementParam()[iElt_lineA]->GetFittedAmplitudeStd(lineA_id);
-    Float64 ampE = getElementParam()[iElt_lineE]->GetFittedAmplitude(lineE_id);
-    Float64 amp_errorE =
-        getElementParam()[iElt_lineE]->GetFittedAmplitudeStd(lineE_id);
-    TFloat64List ampsMore;
-    TFloat64List ampErrorsMore;
-    for (Int32 imore = 0; imore < ilinesMore.size(); imore++) {
-      Float64 amp = getElementParam()[ilinesMore[imore]]->GetFittedAmplitude(0);
-      Float64 ampErr =
-          getElementParam()[ilinesMore[imore]]->GetFittedAmplitudeStd(0);
-      ampsMore.push_back(amp);
-      ampErrorsMore.push_back(ampErr);
-    }
-
     TInt32List eltsIdx;
     eltsIdx.push_back(iElt_lineA);
     eltsIdx.push_back(iElt_lineE);
     for (Int32 imore = 0; imore < ilinesMore.size(); imore++) {
       eltsIdx.push_back(ilinesMore[imore]);
     }
-    TFloat64List ampsfitted;
-    TFloat64List errorsfitted;
-    fitAmplitudesLinSolve(eltsIdx, ampsfitted, errorsfitted, redshift);
+
+    // keep the current amplitudes
+    std::vector<TFloat64List> amps;
+    std::vector<TFloat64List> ampErrors;
+    std::vector<TPolynomCoeffs> polynomCoeffs;
+    for (auto idx : eltsIdx) {
+      auto const &param = getElementParam()[idx];
+      amps.push_back(param->m_FittedAmplitudes);
+      ampErrors.push_back(param->m_FittedAmplitudesStd);
+      polynomCoeffs.push_back(param->GetPolynomCoeffs());
+    }
+    getModel().refreshModelUnderElements(eltsIdx);
+    Float64 modelErr_init =
+        getModelResidualRmsUnderElements({iElt_lineA}, true);
+    m_spectraIndex.reset(); // dummy implementation
+
+    // simultaneous fit with linsolve
+    fitAmplitudesLinSolvePositive(eltsIdx, redshift);
 
     // decide if the fit is better than previous amps
     getModel().refreshModelUnderElements(eltsIdx);
     Float64 modelErr_withfit =
         getModelResidualRmsUnderElements({iElt_lineA}, true);
+    m_spectraIndex.reset(); // dummy implementation
     if (modelErr_withfit > modelErr_init) {
-      Float64 nominal_ampA =
-          getElementParam()[iElt_lineA]->GetNominalAmplitude(lineA_id);
-      Float64 nominal_ampE =
-          getElementParam()[iElt_lineE]->GetNominalAmplitude(lineE_id);
-      m_ElementsVector->SetElementAmplitude(iElt_lineA, ampA / nominal_ampA,
-                                            amp_errorA / nominal_ampA);
-      m_ElementsVector->SetElementAmplitude(iElt_lineE, ampE / nominal_ampE,
-                                            amp_errorE / nominal_ampE);
-      for (Int32 imore = 0; imore < ilinesMore.size(); imore++) {
-        Float64 nominal_ampMore =
-            getElementParam()[ilinesMore[imore]]->GetNominalAmplitude(
-                linesMoreIds[imore]);
-        m_ElementsVector->SetElementAmplitude(
-            ilinesMore[imore], ampsMore[imore] / nominal_ampMore,
-            ampErrorsMore[imore] / nominal_ampMore);
+      for (std::size_t i = 0; i < eltsIdx.size(); ++i) {
+        auto const &param = getElementParam()[eltsIdx[i]];
+        param->m_FittedAmplitudes = amps[i];
+        param->m_FittedAmplitudesStd = ampErrors[i];
+        param->SetPolynomCoeffs(polynomCoeffs[i]);
       }
     }
   }
-- 
2.43.0


From f8ac0c1ecf9ceeaf3aaab3ed3c5840f602cb66fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:28 +0000
Subject: [PATCH 041/106] fix: joint fit of wavelength offsets raised after its
 first offset

The residual under the elements leaves the observation index past the end,
and the fit at the next offset raised 'Invalid spectrum index'.
---
 RedshiftLibrary/src/lib/linemodel/svdfitter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/RedshiftLibrary/src/lib/linemodel/svdfitter.cpp b/RedshiftLibrary/src/lib/linemodel/svdfitter.cpp
index 0489024..6ee13c7 100644
--- a/RedshiftLibrary/src/lib/linemodel/svdfitter.cpp
+++ b/RedshiftLibrary/src/lib/linemodel/svdfitter.cpp
@@ -301,6 +301,7 @@ void CSvdFitter::fitAmplitudesLinSolveAndLambdaOffset(TInt32List EltsIdx,
     getModel().refreshModelUnderElements(EltsIdx);
 
     sumFit += getModelResidualRmsUnderElements(EltsIdx, false);
+    m_spectraIndex.reset(); // dummy implementation
 
     if (sumFit < bestMerit) {
       bestMerit = sumFit;
-- 
2.43.0


From 7611ced1d1ef78731388fda92e2925e9a0d9b45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:35 +0000
Subject: [PATCH 042/106] fix: residual of the joint offset fit compared the
 continuum-free flux with the full model

The model under the elements holds the continuum: with a continuum component
the offset kept was not the one of the smallest residual.
---
 RedshiftLibrary/src/lib/linemodel/svdfitter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RedshiftLibrary/src/lib/linemodel/svdfitter.cpp b/RedshiftLibrary/src/lib/linemodel/svdfitter.cpp
index 6ee13c7..ab7938d 100644
--- a/RedshiftLibrary/src/lib/linemodel/svdfitter.cpp
+++ b/RedshiftLibrary/src/lib/linemodel/svdfitter.cpp
@@ -300,7 +300,7 @@ void CSvdFitter::fitAmplitudesLinSolveAndLambdaOffset(TInt32List EltsIdx,
     Float64 sumFit = 0.0;
     getModel().refreshModelUnderElements(EltsIdx);
 
-    sumFit += getModelResidualRmsUnderElements(EltsIdx, false);
+    sumFit += getModelResidualRmsUnderElements(EltsIdx, true);
     m_spectraIndex.reset(); // dummy implementation
 
     if (sumFit < bestMerit) {
-- 
2.43.0


From e9513b3826b0eda3b26e144c4621c11b6e4077c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:35 +0000
Subject: [PATCH 043/106] fix: residual under the lines not weighted by the
 noise without continuum

With noContinuum and the template continua the flux axis of the model has no
error of its own, so the weights were all one: use the errors of the spectrum.
---
 RedshiftLibrary/src/lib/linemodel/spectrummodel.cpp | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/RedshiftLibrary/src/lib/linemodel/spectrummodel.cpp b/RedshiftLibrary/src/lib/linemodel/spectrummodel.cpp
index 076539e..dff4a64 100644
--- a/RedshiftLibrary/src/lib/linemodel/spectrummodel.cpp
+++ b/RedshiftLibrary/src/lib/linemodel/spectrummodel.cpp
@@ -386,12 +386,7 @@ std::pair<Float64, Float64>
 CSpectrumModel::getModelSquaredResidualUnderElements(TInt32List const &EltsIdx,
                                                      bool with_continuum,
                                                      bool with_weight) const {
-  // before elementlistcutting this variable was
-  // CElementList::m_ErrorNoContinuum, a reference initialized twice in
-  // CElementList constructor, first init to m_spcFluxAxisNoContinuum.GetError()
-  // and after to spectrumFluxAxis.GetError
-  const CSpectrumNoiseAxis &errorNoContinuum =
-      m_SpectrumModel.GetFluxAxis().GetError();
+  const CSpectrumNoiseAxis &errorNoContinuum = m_inputSpc->GetErrorAxis();
   const CSpectrumFluxAxis &fluxRef =
       with_continuum ? getSpcFluxAxis() : getSpcFluxAxisNoContinuum();
 
-- 
2.43.0


From a2610b81217446e2c7b52ff91acfdb1ae4e9e733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:47 +0000
Subject: [PATCH 044/106] fix: best ratio rebuilt from a line limited by the
 absorption limit

---
 RedshiftLibrary/src/lib/linemodel/tplratiomanager.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/RedshiftLibrary/src/lib/linemodel/tplratiomanager.cpp b/RedshiftLibrary/src/lib/linemodel/tplratiomanager.cpp
index 035a72e..db40311 100644
--- a/RedshiftLibrary/src/lib/linemodel/tplratiomanager.cpp
+++ b/RedshiftLibrary/src/lib/linemodel/tplratiomanager.cpp
@@ -431,7 +431,6 @@ void CTplratioManager::updateTplratioResults(Int32 idx, Float64 _merit,
   // needed ?) NB: this is only needed for the index=savedIdxFitted
   // ultimately
   for (Int32 iElt = 0; iElt < s; iElt++) {
-    bool savedAmp = false;
     bool allampzero = true;
 
     for (Int32 line_idx = 0;
@@ -448,6 +447,10 @@ void CTplratioManager::updateTplratioResults(Int32 idx, Float64 _merit,
                               ->m_FittedAmplitudesStd[line_idx];
       Float64 nominal_amp = m_elementsVector->getElementParam()[iElt]
                                 ->m_NominalAmplitudes[line_idx];
+      // lines limited by the absorption limit underestimate the amplitude of
+      // the element: keep the largest one
+      if (amp / nominal_amp <= m_FittedAmpTplratio[idx][iElt])
+        continue;
       m_FittedAmpTplratio[idx][iElt] = amp / nominal_amp;
       Log.LogDebug(Formatter()
                    << "    model : fit tplratio mode, tplratio_fittedamp: "
@@ -468,13 +471,10 @@ void CTplratioManager::updateTplratioResults(Int32 idx, Float64 _merit,
       TSymIgmParams params_igm =
           m_elementsVector->getElementParam()[iElt]->GetSymIgmParams(0);
       m_LyaIgmIdxTplratio[idx][iElt] = params_igm.m_igmidx;
-
-      savedAmp = true;
-      break;
     }
     // TODO: this case should be treated more
     // carefully, save dtm, mtm, and more...
-    if (allampzero && !savedAmp)
+    if (allampzero)
       m_FittedAmpTplratio[idx][iElt] = 0.0;
   }
   return;
-- 
2.43.0


From 329df2c7a3218f132c17f0e6b07465eacaab1cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:20 +0000
Subject: [PATCH 045/106] fix: saved model without its lines when there is no
 continuum

---
 RedshiftLibrary/src/lib/linemodel/linemodelfitting.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/RedshiftLibrary/src/lib/linemodel/linemodelfitting.cpp b/RedshiftLibrary/src/lib/linemodel/linemodelfitting.cpp
index 254a1b7..7927779 100644
--- a/RedshiftLibrary/src/lib/linemodel/linemodelfitting.cpp
+++ b/RedshiftLibrary/src/lib/linemodel/linemodelfitting.cpp
@@ -383,6 +383,10 @@ Float64 CLineModelFitting::fit(Float64 redshift,
 
     for (Int32 itratio = 0; itratio < ntplratio; itratio++) {
 
+      if (getContinuumComponent() == "noContinuum") {
+        m_models->reinitAllModels();
+      }
+
       if (m_lineRatioManager->init(redshift, itratio))
         continue;
 
@@ -404,9 +408,6 @@ Float64 CLineModelFitting::fit(Float64 redshift,
 
         m_lineRatioManager->saveResults(itratio);
       }
-      if (getContinuumComponent() == "noContinuum") {
-        m_models->reinitAllModels();
-      }
     }
   }
 
-- 
2.43.0


From 14e9b27fd7b259b8ec2f446600dff9ece64fba54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:47 +0000
Subject: [PATCH 046/106] fix: continuum re-estimated with one catalogue of
 ratios kept for the others

---
 .../RedshiftLibrary/linemodel/spectrummodel.h   |  1 +
 .../src/lib/linemodel/linemodelfitting.cpp      | 17 +++++++++++++++++
 .../src/lib/linemodel/spectrummodel.cpp         |  5 +++++
 3 files changed, 23 insertions(+)

diff --git a/RedshiftLibrary/RedshiftLibrary/linemodel/spectrummodel.h b/RedshiftLibrary/RedshiftLibrary/linemodel/spectrummodel.h
index 6418faf..efe12e5 100644
--- a/RedshiftLibrary/RedshiftLibrary/linemodel/spectrummodel.h
+++ b/RedshiftLibrary/RedshiftLibrary/linemodel/spectrummodel.h
@@ -38,6 +38,7 @@ public:
 
   const CSpectrum &GetModelSpectrum() const;
   const CSpectrumFluxAxis &GetModelContinuum() const;
+  void SetModelContinuum(const CSpectrumFluxAxis &continuum);
 
   CSpectrum GetObservedSpectrumWithLinesRemoved(
       CLine::EType lineTypeFilter = CLine::EType::nType_All);
diff --git a/RedshiftLibrary/src/lib/linemodel/linemodelfitting.cpp b/RedshiftLibrary/src/lib/linemodel/linemodelfitting.cpp
index 7927779..ef1e81f 100644
--- a/RedshiftLibrary/src/lib/linemodel/linemodelfitting.cpp
+++ b/RedshiftLibrary/src/lib/linemodel/linemodelfitting.cpp
@@ -372,6 +372,8 @@ Float64 CLineModelFitting::fit(Float64 redshift,
   // 'on the fly' initialization
   Float64 bestMerit = INFINITY;
   Float64 bestMeritPrior = 0.0;
+  // continua re-estimated by the fit of the best ratio (one per observation)
+  std::vector<CSpectrumFluxAxis> bestContinua;
 
   for (Int32 k = 0; k < nContinuum; k++) {
 
@@ -385,6 +387,10 @@ Float64 CLineModelFitting::fit(Float64 redshift,
 
       if (getContinuumComponent() == "noContinuum") {
         m_models->reinitAllModels();
+      } else if (contreest_iterations > 0 && itratio > 0) {
+        // forget the continuum re-estimated with the previous ratio
+        prepareAndLoadContinuum(k, redshift);
+        computeSpectrumFluxWithoutContinuum();
       }
 
       if (m_lineRatioManager->init(redshift, itratio))
@@ -406,6 +412,12 @@ Float64 CLineModelFitting::fit(Float64 redshift,
         continuumModelSolution =
             m_continuumManager->GetContinuumModelSolutionCopy();
 
+        if (contreest_iterations > 0 && m_lineRatioType == "tplRatio") {
+          bestContinua.clear();
+          for (auto &spcIndex : m_spectraIndex)
+            bestContinua.push_back(getSpectrumModel().GetModelContinuum());
+        }
+
         m_lineRatioManager->saveResults(itratio);
       }
     }
@@ -423,6 +435,11 @@ Float64 CLineModelFitting::fit(Float64 redshift,
     }
   }
   if (m_lineRatioType == "tplRatio") {
+    if (!bestContinua.empty()) {
+      size_t iobs = 0;
+      for (auto &spcIndex : m_spectraIndex)
+        getSpectrumModel().SetModelContinuum(bestContinua[iobs++]);
+    }
     m_lineRatioManager->resetToBestRatio(redshift);
     Int32 modelSolutionLevel = Int32(enableLogging);
     modelSolution = GetModelSolution(modelSolutionLevel);
diff --git a/RedshiftLibrary/src/lib/linemodel/spectrummodel.cpp b/RedshiftLibrary/src/lib/linemodel/spectrummodel.cpp
index dff4a64..3b54213 100644
--- a/RedshiftLibrary/src/lib/linemodel/spectrummodel.cpp
+++ b/RedshiftLibrary/src/lib/linemodel/spectrummodel.cpp
@@ -75,6 +75,11 @@ const CSpectrumFluxAxis &CSpectrumModel::GetModelContinuum() const {
   return m_ContinuumFluxAxis;
 }
 
+void CSpectrumModel::SetModelContinuum(const CSpectrumFluxAxis &continuum) {
+  m_ContinuumFluxAxis = continuum;
+  initModelWithContinuum();
+}
+
 void CSpectrumModel::initModelWithContinuum() {
   m_SpectrumModel.SetFluxAxis(m_ContinuumFluxAxis);
   for (Int32 i = 0; i < m_SpectrumModel.GetSampleCount(); i++) {
-- 
2.43.0


From 37f46ebfe8b03fab727206505f0eb6c29d8e1d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:58 +0000
Subject: [PATCH 047/106] fix: refuse spectra whose flux, error or other arrays
 differ in length from the wavelengths

---
 .../python/pylibamazed/AbstractSpectrumReader.py   | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/pylibamazed/python/pylibamazed/AbstractSpectrumReader.py b/pylibamazed/python/pylibamazed/AbstractSpectrumReader.py
index c3ccbba..7da6856 100644
--- a/pylibamazed/python/pylibamazed/AbstractSpectrumReader.py
+++ b/pylibamazed/python/pylibamazed/AbstractSpectrumReader.py
@@ -241,6 +241,12 @@ class AbstractSpectrumReader:
                 "Names of error, wavelength, flux and other arrays should be the same"
             )
 
+        if not self._lengths_are_consistent():
+            raise APIException(
+                ErrorCode.INVALID_SPECTRUM,
+                "Lengths of error, wavelength, flux and other arrays should be the same"
+            )
+
         self._merge_spectrum_in_dataframe()
         self._apply_filters(self._get_filters())
         self._check_wavelengths()
@@ -313,6 +319,14 @@ class AbstractSpectrumReader:
                     return False
         return True
 
+    def _lengths_are_consistent(self) -> bool:
+        """Checks that, for each observation, all the arrays have as many samples as the wavelengths."""
+        for obs_id in self.waves.keys():
+            expected_length = len(self.waves.get(obs_id))
+            if any(len(container.get(obs_id)) != expected_length for container in self._all_containers()):
+                return False
+        return True
+
     def _editable_waves(self, obs_id=""):
         return self.editable_spectra.get(obs_id)["waves"]
 
-- 
2.43.0


From ff87acbb46281279784b7ab80bd01eb2ac79d3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:58 +0000
Subject: [PATCH 048/106] fix: report a spectrum emptied by its filters

---
 pylibamazed/python/pylibamazed/AbstractSpectrumReader.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pylibamazed/python/pylibamazed/AbstractSpectrumReader.py b/pylibamazed/python/pylibamazed/AbstractSpectrumReader.py
index 7da6856..6852d7b 100644
--- a/pylibamazed/python/pylibamazed/AbstractSpectrumReader.py
+++ b/pylibamazed/python/pylibamazed/AbstractSpectrumReader.py
@@ -272,6 +272,14 @@ class AbstractSpectrumReader:
 
     def _check_wavelengths(self):
         """Looks if lambda range specified in parameters is contained in spectrum range."""
+        empty_obs = [obs_id for obs_id in self.waves.keys() if self.editable_spectra.get(obs_id).empty]
+        merge = self.parameters.get_multiobs_method() == "merge"
+        if empty_obs and (not merge or len(empty_obs) == self.waves.size()):
+            raise APIException(
+                ErrorCode.INVALID_SPECTRUM,
+                "Filtered spectrum is empty"
+            )
+
         for obs_id in self.waves.keys():
             [params_lambda_min, params_lambda_max] = self.parameters.get_lambda_range(obs_id)
             obs_waves = np.array(self.waves.get(obs_id))
-- 
2.43.0


From 8b5b27193a5f4f42450c076d6b46d334e10ad1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:58 +0000
Subject: [PATCH 049/106] fix: accept the documented filter instruction ~^

---
 pylibamazed/python/pylibamazed/Filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylibamazed/python/pylibamazed/Filter.py b/pylibamazed/python/pylibamazed/Filter.py
index 868da36..eec4be5 100644
--- a/pylibamazed/python/pylibamazed/Filter.py
+++ b/pylibamazed/python/pylibamazed/Filter.py
@@ -53,7 +53,7 @@ class FilterItem:
     - value: with which value we want to make the comparison
     """
 
-    allowed_instructions = ["<", ">", "<=", ">=", "=", "in", "~in", "!=", "&", "~&", "0&", "^"]
+    allowed_instructions = ["<", ">", "<=", ">=", "=", "in", "~in", "!=", "&", "~&", "0&", "^", "~^"]
 
     def __init__(self, key: str, instruction: str, value: any):
         self.check_instruction(instruction)
-- 
2.43.0


From eb07566db70262c60adcb2b61e3045080ceb4932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:12 +0000
Subject: [PATCH 050/106] fix: filters on the Wave, Flux and Err columns were
 accepted in the parameters then refused by the reader

---
 pylibamazed/python/pylibamazed/AbstractSpectrumReader.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pylibamazed/python/pylibamazed/AbstractSpectrumReader.py b/pylibamazed/python/pylibamazed/AbstractSpectrumReader.py
index 6852d7b..4d2f8f1 100644
--- a/pylibamazed/python/pylibamazed/AbstractSpectrumReader.py
+++ b/pylibamazed/python/pylibamazed/AbstractSpectrumReader.py
@@ -78,6 +78,9 @@ class AbstractSpectrumReader:
 
     """
 
+    # names used in the parameters for the mandatory columns of the spectrum
+    parameters_column_names = {"Wave": "waves", "Flux": "fluxes", "Err": "errors"}
+
     def __init__(
         self,
         observation_id: str,
@@ -262,7 +265,11 @@ class AbstractSpectrumReader:
         self._add_photometric_data()
 
     def _get_filters(self):
-        return self.filter_loader_class().get_filters(self.parameters)
+        filters = self.filter_loader_class().get_filters(self.parameters)
+        if filters is not None:
+            for item in filters.items:
+                item.key = self.parameters_column_names.get(item.key, item.key)
+        return filters
 
     def _apply_filters(self, filters: FilterList) -> None:
         if filters is None:
-- 
2.43.0


From 852b77bf00bd81992e0d2f95f4f457be3d487fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:10 +0000
Subject: [PATCH 051/106] fix: the version 2 schema refused the entry names
 that the library reads

---
 pylibamazed/auxdir/pylibamazed/jsonschema-v2/general.json | 2 +-
 .../pylibamazed/jsonschema-v2/line_model_priors.json      | 4 ++--
 .../pylibamazed/jsonschema-v2/line_model_solve.json       | 8 ++++----
 pylibamazed/auxdir/pylibamazed/jsonschema-v2/lsf.json     | 2 +-
 pylibamazed/auxdir/pylibamazed/jsonschema-v2/lya_fit.json | 4 ++--
 .../auxdir/pylibamazed/jsonschema-v2/spectrum_model.json  | 4 ++--
 6 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/pylibamazed/auxdir/pylibamazed/jsonschema-v2/general.json b/pylibamazed/auxdir/pylibamazed/jsonschema-v2/general.json
index 1eeb56d..6225bf7 100644
--- a/pylibamazed/auxdir/pylibamazed/jsonschema-v2/general.json
+++ b/pylibamazed/auxdir/pylibamazed/jsonschema-v2/general.json
@@ -55,7 +55,7 @@
       ],
       "items": false
     },
-    "airvacuumMethod": {
+    "airVacuumMethod": {
       "type": "string",
       "enum": [
         "",
diff --git a/pylibamazed/auxdir/pylibamazed/jsonschema-v2/line_model_priors.json b/pylibamazed/auxdir/pylibamazed/jsonschema-v2/line_model_priors.json
index e0f4d04..80a51a4 100644
--- a/pylibamazed/auxdir/pylibamazed/jsonschema-v2/line_model_priors.json
+++ b/pylibamazed/auxdir/pylibamazed/jsonschema-v2/line_model_priors.json
@@ -7,7 +7,7 @@
     "betaA",
     "betaTE",
     "betaZ",
-    "catalogDirpath"
+    "catalogDirPath"
   ],
   "additionalProperties": false,
   "properties": {
@@ -26,7 +26,7 @@
       "title": "Beta Z",
       "description": "Weight to redshift prior (redshift bins), the chi2 penalty is thus `-2 betaZ log(P(z))`"
     },
-    "catalogDirpath": {
+    "catalogDirPath": {
       "type": "string",
       "title": "Catalog directory path",
       "description": "Absolute path to the calibration file containing the parameters probability, empty string unset all priors"
diff --git a/pylibamazed/auxdir/pylibamazed/jsonschema-v2/line_model_solve.json b/pylibamazed/auxdir/pylibamazed/jsonschema-v2/line_model_solve.json
index e8614a0..399d773 100644
--- a/pylibamazed/auxdir/pylibamazed/jsonschema-v2/line_model_solve.json
+++ b/pylibamazed/auxdir/pylibamazed/jsonschema-v2/line_model_solve.json
@@ -25,10 +25,10 @@
         "lineRatioType",
         "continuumComponent",
         "strongLinesPrior",
-        "euclidNHaemittersStrength",
+        "nOfZPriorStrength",
         "pdfCombination",
         "nSigmaSupport",
-        "haPrior",
+        "hAlphaPrior",
         "extremaCountB",
         "enablePhotometry",
         "lya",
@@ -226,7 +226,7 @@
           "title": "Strong lines prior",
           "description": "\n * **-1**: no prior \n * **else**: use this value (positive below 1) as a low probability when no strong line is measured (the measured amplitude is s>0) & probability is set to 1 when a strong line is observed"
         },
-        "euclidNHaemittersStrength": {
+        "nOfZPriorStrength": {
           "type": "number",
           "title": "Pozetti N(z) prior",
           "description": "Strength (beta) of the penalty. The chi2 penalty is -2 beta log(P(z)). No penalty for a negative or zero values"
@@ -245,7 +245,7 @@
           "title": "Support size",
           "description": "Full (not half) size of each line support in sigma of the gaussian profile "
         },
-        "haPrior": {
+        "hAlphaPrior": {
           "type": "number",
           "title": "Ha prior",
           "description": "\n * **-1**: no prior \n * **positive below 1**: low multiplicative prior probability (posterior penalization) when Ha line is not measured (the measured amplitude is <=0 or is not the strongest measured line) \n * **else**: prior probability is set to 1 when Ha line is strongest measured line, typical value between 1e-1 to 1e-5"
diff --git a/pylibamazed/auxdir/pylibamazed/jsonschema-v2/lsf.json b/pylibamazed/auxdir/pylibamazed/jsonschema-v2/lsf.json
index 795b5b7..e548425 100644
--- a/pylibamazed/auxdir/pylibamazed/jsonschema-v2/lsf.json
+++ b/pylibamazed/auxdir/pylibamazed/jsonschema-v2/lsf.json
@@ -36,7 +36,7 @@
       "title": "Source size",
       "description": "Must be specified if and only if LSFType=gaussianNISPVSSPSF201707"
     },
-    "gaussianVariablewidthFileName": {
+    "gaussianVariableWidthFileName": {
       "type": "string",
       "title": "Path to file where width array is saved",
       "description": "Must be specified if and only if LSFType=gaussianVariableWidth"
diff --git a/pylibamazed/auxdir/pylibamazed/jsonschema-v2/lya_fit.json b/pylibamazed/auxdir/pylibamazed/jsonschema-v2/lya_fit.json
index d5c7a1e..56edae2 100644
--- a/pylibamazed/auxdir/pylibamazed/jsonschema-v2/lya_fit.json
+++ b/pylibamazed/auxdir/pylibamazed/jsonschema-v2/lya_fit.json
@@ -80,12 +80,12 @@
           "title": "Delta fit step",
           "description": "Tabulation of Lya offset, step value (in Angtr\u00f6ms)"
         },
-        "swicthFixedToFit": {
+        "switchFixedToFit": {
           "type": "boolean",
           "title": "Force Lya fit",
           "description": "For `ASYMFIXED` profiles only: \n * **true**: fit Lya shape (alpha, width & offset) and forget values from template-ratio catalog \n * **false**: use Lya shape values from template-ratio catalog."
         },
-        "swicthFitToFixed": {
+        "switchFitToFixed": {
           "type": "boolean",
           "title": "Force lya fit disabling",
           "description": "For ASYMFIT profiles only: \n * **true**: set hard coded values for Lya shape (alpha=2.0, width=2.0, offset=0.0) \n * **false**: fit or use template-ratio values depending on lyaforcefit parameter."
diff --git a/pylibamazed/auxdir/pylibamazed/jsonschema-v2/spectrum_model.json b/pylibamazed/auxdir/pylibamazed/jsonschema-v2/spectrum_model.json
index d5808a1..80295fc 100644
--- a/pylibamazed/auxdir/pylibamazed/jsonschema-v2/spectrum_model.json
+++ b/pylibamazed/auxdir/pylibamazed/jsonschema-v2/spectrum_model.json
@@ -46,12 +46,12 @@
       "type": "string",
       "title": "Template directory"
     },
-    "linemeasDzHalf": {
+    "lineMeasDzHalf": {
       "type": "number",
       "title": "Redshift range radius",
       "description": "Radius for redshift range around Zref "
     },
-    "linemeasRedshiftStep": {
+    "lineMeasRedshiftStep": {
       "type": "number",
       "title": "Redshift step"
     },
-- 
2.43.0


From 67de63ab52ef12e4e9effa5a8297765aa5c0f883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:23 +0000
Subject: [PATCH 052/106] fix: every version 2 template fitting configuration
 failed on an unknown schema type

---
 .../pylibamazed/jsonschema-v2/template_fitting_solve.json       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylibamazed/auxdir/pylibamazed/jsonschema-v2/template_fitting_solve.json b/pylibamazed/auxdir/pylibamazed/jsonschema-v2/template_fitting_solve.json
index aed9869..25c5cf9 100644
--- a/pylibamazed/auxdir/pylibamazed/jsonschema-v2/template_fitting_solve.json
+++ b/pylibamazed/auxdir/pylibamazed/jsonschema-v2/template_fitting_solve.json
@@ -19,7 +19,7 @@
   "properties": {
     "fftProcessing": {
       "description": "Using FFT for Least-square template fitting (in log lambda)",
-      "type": "bool"
+      "type": "boolean"
     },
     "overlapThreshold": {
       "description": "Minimal fraction of the spectrum to be covered by the redshifted template to proceed (at each redshift)",
-- 
2.43.0


From 41fef72667062440588ce8598e58fe8bf5e58916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:34 +0000
Subject: [PATCH 053/106] fix: the version 2 schema described the line
 measurement and reliability sections with another structure than the one the
 library reads

---
 .../jsonschema-v2/linemeas_solver.json        | 313 ++++++++++--------
 .../jsonschema-v2/reliability_solver.json     |  11 +-
 2 files changed, 170 insertions(+), 154 deletions(-)

diff --git a/pylibamazed/auxdir/pylibamazed/jsonschema-v2/linemeas_solver.json b/pylibamazed/auxdir/pylibamazed/jsonschema-v2/linemeas_solver.json
index 6fca5bb..79d116d 100644
--- a/pylibamazed/auxdir/pylibamazed/jsonschema-v2/linemeas_solver.json
+++ b/pylibamazed/auxdir/pylibamazed/jsonschema-v2/linemeas_solver.json
@@ -5,160 +5,179 @@
   "type": "object",
   "additionalProperties": false,
   "required": [
-    "lineModel"
+    "method",
+    "lineMeasSolve"
   ],
   "properties": {
-    "lineModel": {
-      "required": [
-        "continuumComponent",
-        "improveBalmerFit",
-        "lineTypeFilter",
-        "lineForceFilter",
-        "polynomialDegree",
-        "lya",
-        "lineCatalog",
-        "nSigmaSupport",
-        "lineWidthType",
-        "fittingMethod",
-        "velocityFit",
-        "lbdaOffsetFit",
-        "ampOffsetFit",
-        "lineRatioType"
+    "method": {
+      "type": "string",
+      "enum": [
+        "lineMeasSolve"
       ],
+      "title": "Method",
+      "description": "Name of the method to apply for the line measurement"
+    },
+    "lineMeasSolve": {
       "type": "object",
+      "title": "Line measurement parameters",
       "additionalProperties": false,
+      "required": [
+        "lineModel"
+      ],
       "properties": {
-        "continuumComponent": {
-          "type": "string",
-          "enum": [
-            "fromSpectrum",
-            "tplFit",
-            "tplFitAuto",
-            "noContinuum"
-          ],
-          "title": "Continuum processing method",
-          "description": "Selects the method for processing the continuum: \n * **fromSpectrum**: remove an estimated continuum (the continuum estmation is then tuned via continuumRemoval parameters). The redshift is thus only estimated from the lines \n * **tplfit** : fit a set of redshifted template (aka \"fullmodel\" ie contiuum model + line model) \n * **tplfitauto** : same than \"tplFit\", but switch to \"fromSpectrum\" if the fitted continuum amplitude is found significantly negative (at all z)"
-        },
-        "improveBalmerFit": {
-          "type": "boolean",
-          "title": "Wether to improve Balmer fit",
-          "description": "Used only if `lineRatioType=rules`"
-        },
-        "lineTypeFilter": {
-          "type": "string",
-          "enum": [
-            "E",
-            "A",
-            "no"
-          ],
-          "title": "Filter on lines type",
-          "description": "Restrictions on the type of line to fit: \n * **E**: Emission \n * **A**: Absorption \n * **no**: fit all"
-        },
-        "lineForceFilter": {
-          "type": "string",
-          "enum": [
-            "W",
-            "S",
-            "no"
-          ],
-          "title": "Filter on lines force",
-          "description": "Restrict the strength category of lines to fit: \n * **W**: Weak \n * **S**: strong \n * **no**: fit all"
-        },
-        "polynomialDegree": {
-          "type": "integer",
-          "title": "Polynomial degree",
-          "description": "Value between 0 and 2, referring to the polynom degree to represent the continuum below lines. Useful only if ampOffsetFit=True."
-        },
-        "lya": {
-          "$ref": "lya_fit.json"
-        },
-        "lineCatalog": {
-          "type": "string",
-          "title": "Line catalog path",
-          "description": "Path to line catalog file"
-        },
-        "nSigmaSupport": {
-          "type": "number",
-          "title": "Support size",
-          "description": "Full (not half) size of each line support in sigma of the gaussian profile."
-        },
-        "lineWidthType": {
-          "type": "string",
-          "enum": [
-            "combined",
-            "instrumentDriven",
-            "velocityDriven"
-          ],
-          "title": "Line width type",
-          "description": "Selects which component are included in the line width \n * **instrumentDriven**: only instrument resolution (no intrinsic line width due to velocity dispersion) \n * **velocityDriven**: only line velocity dispersion (assuming negligible instrument PSF) \n * **combined**: both instrument resolution and velocity dispersion"
-        },
-        "fittingMethod": {
-          "type": "string",
-          "enum": [
-            "individual",
-            "svd",
-            "hybrid",
-            "lbfgsb"
-          ],
-          "title": "Line fitting method",
-          "description": "Line fitting method: \n* **individual**: independant fit of all lines amplitude \n * **svd**: joint fit of all lines amplitude (sparsity not exploited) \n * **hybrid**: svd only for groups of lines sharings pixels (eg. Ha and N2), independant fit for the other lines \n * **lbfgsb**: like hybrid but using non-linear least-square fit instead of svd to fit jointly the 3 Gaussian parameters (amplitude, position and width). Based on l-bfgs-b algorithm (bounded gradient descent). \n Note: it is not relevant when lineRatioType = tplRatio, because one set of ratio corresponds to a unique amplitude fitted for all lines, and thus it is using the individual fitter"
-        },
-        "velocityFit": {
-          "type": "boolean",
-          "title": "Wether to fit line width",
-          "discription": "Wether 2nd pass includes line width fitting. Used only if `fittingMethod=lbfgsb` (for linemeas)."
-        },
-        "emVelocityFitMin": {
-          "type": "number",
-          "title": "Emission lines velocity min",
-          "description": "Tabulation of velocity for line width fitting in km s-1: minimal value for emission lines. To specify only if fittingMethod is lbfgsb."
-        },
-        "emVelocityFitMax": {
-          "type": "number",
-          "title": "Emission lines velocity max",
-          "description": "Tabulation of velocity for line width fitting in km s-1: maximal value for emission lines. To specify only if fittingMethod is lbfgsb."
-        },
-        "absVelocityFitMin": {
-          "type": "number",
-          "title": "Aborption lines velocity min",
-          "description": "Tabulation of velocity for line width fitting in km s-1: minimal value for absorption lines. To specify only if fittingMethod is lbfgsb."
-        },
-        "absVelocityFitMax": {
-          "type": "number",
-          "title": "Aborption lines velocity max",
-          "description": "Tabulation of velocity for line width fitting in km s-1: maximal value for absorption lines. To specify only if fittingMethod is lbfgsb."
-        },
-        "lbdaOffsetFit": {
-          "type": "boolean",
-          "title": "Wether to fit wavelength offset",
-          "description": "Wether to include wavelength offset fitting. Relevant only for `fittingMethod=svd`, `hybrid` or `lbfgsb`"
-        },
-        "ampOffsetFit": {
-          "type": "boolean",
-          "title": "Wether to fit amplitude offset",
-          "description": "Wether to use line's polynomial offset in the profile fitting. Relevant only for `fittingMethod=svd`, `hybrid` or `lbfgsb`"
-        },
-        "lineRatioType": {
-          "type": "string",
-          "enum": [
-            "tplRatio",
-            "rules",
-            "tplCorr"
-          ],
-          "title": "Line ratio type",
-          "description": "\n * **rules**: fit all lines amplitude independently with eventualy some constraints (see rules parameter below) \n * **tplRatio**: fit one amplitude with fixed line ratios coming from template-ratio catalogs"
-        },
-        "rules": {
-          "type": "string",
-          "enum": [
-            "all",
-            "no",
-            "strongWeak",
-            "balmerSingle",
-            "ratioRange"
+        "lineModel": {
+          "required": [
+            "continuumComponent",
+            "improveBalmerFit",
+            "lineTypeFilter",
+            "lineForceFilter",
+            "polynomialDegree",
+            "lya",
+            "lineCatalog",
+            "nSigmaSupport",
+            "lineWidthType",
+            "fittingMethod",
+            "velocityFit",
+            "lbdaOffsetFit",
+            "ampOffsetFit",
+            "lineRatioType"
           ],
-          "title": "Rules",
-          "description": "Selects used rules (only for `lineRatioType=rules`)"
+          "type": "object",
+          "additionalProperties": false,
+          "properties": {
+            "continuumComponent": {
+              "type": "string",
+              "enum": [
+                "fromSpectrum",
+                "tplFit",
+                "tplFitAuto",
+                "noContinuum"
+              ],
+              "title": "Continuum processing method",
+              "description": "Selects the method for processing the continuum: \n * **fromSpectrum**: remove an estimated continuum (the continuum estmation is then tuned via continuumRemoval parameters). The redshift is thus only estimated from the lines \n * **tplfit** : fit a set of redshifted template (aka \"fullmodel\" ie contiuum model + line model) \n * **tplfitauto** : same than \"tplFit\", but switch to \"fromSpectrum\" if the fitted continuum amplitude is found significantly negative (at all z)"
+            },
+            "improveBalmerFit": {
+              "type": "boolean",
+              "title": "Wether to improve Balmer fit",
+              "description": "Used only if `lineRatioType=rules`"
+            },
+            "lineTypeFilter": {
+              "type": "string",
+              "enum": [
+                "E",
+                "A",
+                "no"
+              ],
+              "title": "Filter on lines type",
+              "description": "Restrictions on the type of line to fit: \n * **E**: Emission \n * **A**: Absorption \n * **no**: fit all"
+            },
+            "lineForceFilter": {
+              "type": "string",
+              "enum": [
+                "W",
+                "S",
+                "no"
+              ],
+              "title": "Filter on lines force",
+              "description": "Restrict the strength category of lines to fit: \n * **W**: Weak \n * **S**: strong \n * **no**: fit all"
+            },
+            "polynomialDegree": {
+              "type": "integer",
+              "title": "Polynomial degree",
+              "description": "Value between 0 and 2, referring to the polynom degree to represent the continuum below lines. Useful only if ampOffsetFit=True."
+            },
+            "lya": {
+              "$ref": "lya_fit.json"
+            },
+            "lineCatalog": {
+              "type": "string",
+              "title": "Line catalog path",
+              "description": "Path to line catalog file"
+            },
+            "nSigmaSupport": {
+              "type": "number",
+              "title": "Support size",
+              "description": "Full (not half) size of each line support in sigma of the gaussian profile."
+            },
+            "lineWidthType": {
+              "type": "string",
+              "enum": [
+                "combined",
+                "instrumentDriven",
+                "velocityDriven"
+              ],
+              "title": "Line width type",
+              "description": "Selects which component are included in the line width \n * **instrumentDriven**: only instrument resolution (no intrinsic line width due to velocity dispersion) \n * **velocityDriven**: only line velocity dispersion (assuming negligible instrument PSF) \n * **combined**: both instrument resolution and velocity dispersion"
+            },
+            "fittingMethod": {
+              "type": "string",
+              "enum": [
+                "individual",
+                "svd",
+                "hybrid",
+                "lbfgsb"
+              ],
+              "title": "Line fitting method",
+              "description": "Line fitting method: \n* **individual**: independant fit of all lines amplitude \n * **svd**: joint fit of all lines amplitude (sparsity not exploited) \n * **hybrid**: svd only for groups of lines sharings pixels (eg. Ha and N2), independant fit for the other lines \n * **lbfgsb**: like hybrid but using non-linear least-square fit instead of svd to fit jointly the 3 Gaussian parameters (amplitude, position and width). Based on l-bfgs-b algorithm (bounded gradient descent). \n Note: it is not relevant when lineRatioType = tplRatio, because one set of ratio corresponds to a unique amplitude fitted for all lines, and thus it is using the individual fitter"
+            },
+            "velocityFit": {
+              "type": "boolean",
+              "title": "Wether to fit line width",
+              "discription": "Wether 2nd pass includes line width fitting. Used only if `fittingMethod=lbfgsb` (for linemeas)."
+            },
+            "emVelocityFitMin": {
+              "type": "number",
+              "title": "Emission lines velocity min",
+              "description": "Tabulation of velocity for line width fitting in km s-1: minimal value for emission lines. To specify only if fittingMethod is lbfgsb."
+            },
+            "emVelocityFitMax": {
+              "type": "number",
+              "title": "Emission lines velocity max",
+              "description": "Tabulation of velocity for line width fitting in km s-1: maximal value for emission lines. To specify only if fittingMethod is lbfgsb."
+            },
+            "absVelocityFitMin": {
+              "type": "number",
+              "title": "Aborption lines velocity min",
+              "description": "Tabulation of velocity for line width fitting in km s-1: minimal value for absorption lines. To specify only if fittingMethod is lbfgsb."
+            },
+            "absVelocityFitMax": {
+              "type": "number",
+              "title": "Aborption lines velocity max",
+              "description": "Tabulation of velocity for line width fitting in km s-1: maximal value for absorption lines. To specify only if fittingMethod is lbfgsb."
+            },
+            "lbdaOffsetFit": {
+              "type": "boolean",
+              "title": "Wether to fit wavelength offset",
+              "description": "Wether to include wavelength offset fitting. Relevant only for `fittingMethod=svd`, `hybrid` or `lbfgsb`"
+            },
+            "ampOffsetFit": {
+              "type": "boolean",
+              "title": "Wether to fit amplitude offset",
+              "description": "Wether to use line's polynomial offset in the profile fitting. Relevant only for `fittingMethod=svd`, `hybrid` or `lbfgsb`"
+            },
+            "lineRatioType": {
+              "type": "string",
+              "enum": [
+                "tplRatio",
+                "rules",
+                "tplCorr"
+              ],
+              "title": "Line ratio type",
+              "description": "\n * **rules**: fit all lines amplitude independently with eventualy some constraints (see rules parameter below) \n * **tplRatio**: fit one amplitude with fixed line ratios coming from template-ratio catalogs"
+            },
+            "rules": {
+              "type": "string",
+              "enum": [
+                "all",
+                "no",
+                "strongWeak",
+                "balmerSingle",
+                "ratioRange"
+              ],
+              "title": "Rules",
+              "description": "Selects used rules (only for `lineRatioType=rules`)"
+            }
+          }
         }
       }
     }
diff --git a/pylibamazed/auxdir/pylibamazed/jsonschema-v2/reliability_solver.json b/pylibamazed/auxdir/pylibamazed/jsonschema-v2/reliability_solver.json
index 0a29609..afd3be8 100644
--- a/pylibamazed/auxdir/pylibamazed/jsonschema-v2/reliability_solver.json
+++ b/pylibamazed/auxdir/pylibamazed/jsonschema-v2/reliability_solver.json
@@ -12,13 +12,10 @@
     "method": {
       "title": "Method",
       "description": "Name of the method to apply for reliability estimation.",
-      "type": "array",
-      "items": {
-        "type": "string",
-        "enum": [
-          "deepLearningSolver"
-        ]
-      }
+      "type": "string",
+      "enum": [
+        "deepLearningSolver"
+      ]
     },
     "deepLearningSolver": {
       "title": "Deep learning solver",
-- 
2.43.0


From 114f06d6f387ee70b65d6d4b0b69bcb088cfca51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:34 +0000
Subject: [PATCH 054/106] fix: the version 2 schema accepted a line model
 solver without line model and unknown line model entries

---
 .../auxdir/pylibamazed/jsonschema-v2/line_model_solve.json    | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pylibamazed/auxdir/pylibamazed/jsonschema-v2/line_model_solve.json b/pylibamazed/auxdir/pylibamazed/jsonschema-v2/line_model_solve.json
index 399d773..8b9d58b 100644
--- a/pylibamazed/auxdir/pylibamazed/jsonschema-v2/line_model_solve.json
+++ b/pylibamazed/auxdir/pylibamazed/jsonschema-v2/line_model_solve.json
@@ -4,9 +4,13 @@
   "title": "Line model solver",
   "description": "Parameters for line model solve schema",
   "type": "object",
+  "required": [
+    "lineModel"
+  ],
   "additionalProperties": false,
   "properties": {
     "lineModel": {
+      "additionalProperties": false,
       "required": [
         "improveBalmerFit",
         "lineCatalog",
-- 
2.43.0


From c196e96a8fcff7fd375eb1694b235a6da44d3cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:34 +0000
Subject: [PATCH 055/106] fix: templateDir was mandatory in the version 2
 schema for the methods that report it as unused

---
 .../auxdir/pylibamazed/jsonschema-v2/spectrum_model.json       | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pylibamazed/auxdir/pylibamazed/jsonschema-v2/spectrum_model.json b/pylibamazed/auxdir/pylibamazed/jsonschema-v2/spectrum_model.json
index 80295fc..c092313 100644
--- a/pylibamazed/auxdir/pylibamazed/jsonschema-v2/spectrum_model.json
+++ b/pylibamazed/auxdir/pylibamazed/jsonschema-v2/spectrum_model.json
@@ -7,8 +7,7 @@
     "stages",
     "redshiftRange",
     "redshiftStep",
-    "redshiftSampling",
-    "templateDir"
+    "redshiftSampling"
   ],
   "additionalProperties": false,
   "properties": {
-- 
2.43.0


From 7e6920c0653a642161f664b62fca7983d02d095d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:01 +0000
Subject: [PATCH 056/106] fix: the source size of the NISPVSSPSF201707 lsf was
 never required and reported as unused

---
 pylibamazed/python/pylibamazed/ParametersChecker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylibamazed/python/pylibamazed/ParametersChecker.py b/pylibamazed/python/pylibamazed/ParametersChecker.py
index bec4140..3962a7f 100644
--- a/pylibamazed/python/pylibamazed/ParametersChecker.py
+++ b/pylibamazed/python/pylibamazed/ParametersChecker.py
@@ -178,7 +178,7 @@ class ParametersChecker:
 
     def _check_GaussianNISPSIM_lsf_type(self):
         self._check_dependant_parameter_presence(
-            self.accessor.get_lsf_type() == "GaussianNISPSIM201707",
+            self.accessor.get_lsf_type() in ["gaussianNISPVSSPSF201707", "GaussianNISPSIM201707"],
             self.accessor.get_lsf_sourcesize() is not None,
             "lsf sourceSize",
             "lsf sourceSize"
-- 
2.43.0


From 014278479bce6e0f5038131114d26a8e16d487cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:01 +0000
Subject: [PATCH 057/106] fix: medianEvenReflection false was reported as a
 missing parameter

---
 pylibamazed/python/pylibamazed/ParametersChecker.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pylibamazed/python/pylibamazed/ParametersChecker.py b/pylibamazed/python/pylibamazed/ParametersChecker.py
index 3962a7f..019184f 100644
--- a/pylibamazed/python/pylibamazed/ParametersChecker.py
+++ b/pylibamazed/python/pylibamazed/ParametersChecker.py
@@ -270,7 +270,7 @@ class ParametersChecker:
     def _check_IrregularSamplingMedian_kernel_width(self, fromTemplateCatalog=False):
         self._check_dependant_parameter_presence(
             self.median_kernel_presence_condition(fromTemplateCatalog),
-            self.accessor.get_continuum_removal_median_kernel_width(fromTemplateCatalog),
+            self.accessor.get_continuum_removal_median_kernel_width(fromTemplateCatalog) is not None,
             "continuumRemoval medianKernelWidth",
             "continuumRemoval medianKernelWidth"
         )
@@ -278,7 +278,7 @@ class ParametersChecker:
     def _check_IrregularSamplingMedian_kernel_reflection(self, fromTemplateCatalog=False):
         self._check_dependant_parameter_presence(
             self.median_kernel_presence_condition(fromTemplateCatalog),
-            self.accessor.get_continuum_median_kernel_reflection(fromTemplateCatalog),
+            self.accessor.get_continuum_median_kernel_reflection(fromTemplateCatalog) is not None,
             "continuumRemoval medianEvenReflection",
             "continuumRemoval medianEvenReflection"
         )
-- 
2.43.0


From 4447e5c018b63d8c6642508e77a0930d9797cff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:01 +0000
Subject: [PATCH 058/106] fix: the continuum removal asked for a line
 measurement was replaced by the default one

---
 pylibamazed/python/pylibamazed/ParametersAccessor.py | 3 +++
 pylibamazed/python/pylibamazed/ParametersChecker.py  | 7 ++++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/pylibamazed/python/pylibamazed/ParametersAccessor.py b/pylibamazed/python/pylibamazed/ParametersAccessor.py
index e17b9b3..1324c36 100644
--- a/pylibamazed/python/pylibamazed/ParametersAccessor.py
+++ b/pylibamazed/python/pylibamazed/ParametersAccessor.py
@@ -401,6 +401,9 @@ class ParametersAccessor:
     def get_linemeas_linemodel_section(self, spectrum_model: str) -> dict:
         return self._get_on_None(self.get_linemeas_solve_section(spectrum_model), "lineModel")
 
+    def get_linemeas_continuum_component(self, spectrum_model: str) -> str:
+        return self._get_on_None(self.get_linemeas_linemodel_section(spectrum_model), "continuumComponent")
+
     def get_linemeas_line_ratio_type(self, spectrum_model: str) -> str:
         return self._get_on_None(self.get_linemeas_linemodel_section(spectrum_model), "lineRatioType")
 
diff --git a/pylibamazed/python/pylibamazed/ParametersChecker.py b/pylibamazed/python/pylibamazed/ParametersChecker.py
index 019184f..1ff6a8a 100644
--- a/pylibamazed/python/pylibamazed/ParametersChecker.py
+++ b/pylibamazed/python/pylibamazed/ParametersChecker.py
@@ -247,11 +247,16 @@ class ParametersChecker:
                 self.accessor.get_linemodel_continuum_component(spectrum_model)
             linemodel_continuum_reestimation = \
                 self.accessor.get_linemodel_continuum_reestimation(spectrum_model)
+            linemeas_continuum_component = None
+            if self.accessor.get_linemeas_method(spectrum_model) is not None:
+                linemeas_continuum_component = \
+                    self.accessor.get_linemeas_continuum_component(spectrum_model)
 
             if template_fitting_spectrum_component not in [None, "raw"] \
                 or template_combination_spectrum_component not in [None, "raw"] \
                     or linemodel_continuum_component in ["fromSpectrum", "tplFitAuto"] \
-                    or linemodel_continuum_reestimation not in [None, "never"]:
+                    or linemodel_continuum_reestimation not in [None, "no"] \
+                    or linemeas_continuum_component in ["fromSpectrum", "tplFitAuto"]:
                 continuum_removal_necessity = True
         return continuum_removal_necessity
 
-- 
2.43.0


From 783e161f0c239dd14fc88b942e00f46148892f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:01 +0000
Subject: [PATCH 059/106] fix: continuumReestimation was overwritten with a non
 hybrid fit and left out with a hybrid one

---
 pylibamazed/python/pylibamazed/ParametersChecker.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pylibamazed/python/pylibamazed/ParametersChecker.py b/pylibamazed/python/pylibamazed/ParametersChecker.py
index 1ff6a8a..c17c096 100644
--- a/pylibamazed/python/pylibamazed/ParametersChecker.py
+++ b/pylibamazed/python/pylibamazed/ParametersChecker.py
@@ -474,7 +474,9 @@ class ParametersChecker:
         )
 
     def linemodelsolve_continuumreestimation_presence_condition(self, spectrum_model):
-        return self.accessor.get_linemodel_fitting_method(spectrum_model) == "hybrid"
+        return self.accessor.get_linemodel_continuum_component(spectrum_model) == "fromSpectrum" or (
+            self.accessor.get_linemodel_fitting_method(spectrum_model) == "hybrid"
+            and self.accessor.get_linemodel_continuum_reestimation(spectrum_model) is not None)
 
     def _check_linemodelsolve_continuumreestimation(self, spectrum_model):
         self._check_dependant_parameter_presence(
-- 
2.43.0


From aa93f0b77a30782da417a0d80cb4c05724797894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:01 +0000
Subject: [PATCH 060/106] fix: all extended parameters shared the default
 continuum removal section

---
 pylibamazed/python/pylibamazed/ParametersExtender.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pylibamazed/python/pylibamazed/ParametersExtender.py b/pylibamazed/python/pylibamazed/ParametersExtender.py
index a9948eb..3635827 100644
--- a/pylibamazed/python/pylibamazed/ParametersExtender.py
+++ b/pylibamazed/python/pylibamazed/ParametersExtender.py
@@ -81,14 +81,15 @@ class ParametersExtender:
     def _extend_continuum_removal(self):
         is_present = self.checker.continuum_removal_presence_condition()
         if not is_present:
-            self.extended_accessor.parameters["continuumRemoval"] = self.default_continuum_removal_section
+            self.extended_accessor.parameters["continuumRemoval"] = \
+                copy.deepcopy(self.default_continuum_removal_section)
 
     def _extend_template_catalog_continuum_removal(self):
         is_present = self.checker.template_catalog_continuum_removal_presence_condition()
         if not is_present:
             self.extended_accessor.get_template_catalog_section(True)
             self.extended_accessor.get_template_catalog_section()["continuumRemoval"] = \
-                self.default_continuum_removal_section
+                copy.deepcopy(self.default_continuum_removal_section)
 
     def _extend_continuum_reestimation(self):
         for spectrum_model in self.initial_accessor.get_spectrum_models([]):
-- 
2.43.0


From b89c6e9b031c7025bf3b0acfd836e439acfec994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:41 +0000
Subject: [PATCH 061/106] fix: the version 1 conversion renamed column names,
 bands and paths equal to an old entry name

---
 .../python/pylibamazed/ParametersConverter.py | 30 ++++++++++++++-----
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/pylibamazed/python/pylibamazed/ParametersConverter.py b/pylibamazed/python/pylibamazed/ParametersConverter.py
index 17b36ac..be6a9f1 100644
--- a/pylibamazed/python/pylibamazed/ParametersConverter.py
+++ b/pylibamazed/python/pylibamazed/ParametersConverter.py
@@ -36,7 +36,7 @@
 # The fact that you are presently reading this means that you have had
 # knowledge of the CeCILL-C license and that you accept its terms.
 # ============================================================================
-import json
+import copy
 from abc import ABC, abstractmethod
 
 import pandas as pd
@@ -80,20 +80,36 @@ class ParametersConverterV2(ParametersConverter):
 
 
 class ParametersConverterV1(ParametersConverter):
+    # Entries holding names or paths chosen by the user, not to be renamed
+    user_defined_entries = [
+        "additional_cols", "calibrationDir", "catalog_dirpath", "filters", "GaussianVariablewidthFileName",
+        "linecatalog", "photometryBand", "photometryTransmissionDir", "reliability_model", "template_dir",
+        "tplratio_catalog"
+    ]
+
     def convert(self, raw_params: dict) -> dict:
-        params = raw_params.copy()
-        params_str = json.dumps(params)
         renaming_df = pd.read_csv(v1_to_treed_filename)
-        for _, row in renaming_df.iterrows():
-            params_str = params_str.replace(
-                f"\"{row.loc['old_name']}\"", f"\"{row.loc['new_name']}\"")
-        renamed_params = json.loads(params_str)
+        new_names = dict(zip(renaming_df["old_name"], renaming_df["new_name"]))
+        renamed_params = self._rename(raw_params, new_names)
 
         self.update_redshift_part(renamed_params)
         self.update_linemeas_part(renamed_params)
         self.update_reliability_part(renamed_params)
         return renamed_params
 
+    def _rename(self, node, new_names: dict):
+        if isinstance(node, dict):
+            return {
+                new_names.get(key, key):
+                    copy.deepcopy(value) if key in self.user_defined_entries else self._rename(value, new_names)
+                for key, value in node.items()
+            }
+        if isinstance(node, list):
+            return [self._rename(value, new_names) for value in node]
+        if isinstance(node, str):
+            return new_names.get(node, node)
+        return node
+
     def update_redshift_part(self, renamed_params):
         redshift_methods = ["lineModelSolve", "templateFittingSolve", "tplCombinationSolve"]
         for spectrum_model in renamed_params.get("spectrumModels", []):
-- 
2.43.0


From 2f20331b23ed543a9a67a46580c3ca2718e15e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:41 +0000
Subject: [PATCH 062/106] fix: the version 1 rule balmersingle was not
 converted to balmerSingle

---
 pylibamazed/auxdir/pylibamazed/rename_params_v1_to_treed.csv | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylibamazed/auxdir/pylibamazed/rename_params_v1_to_treed.csv b/pylibamazed/auxdir/pylibamazed/rename_params_v1_to_treed.csv
index e8b5741..65cc198 100644
--- a/pylibamazed/auxdir/pylibamazed/rename_params_v1_to_treed.csv
+++ b/pylibamazed/auxdir/pylibamazed/rename_params_v1_to_treed.csv
@@ -20,7 +20,7 @@ nocontinuum,noContinuum,value,value
 onlyextrema,onlyextrema,value,value
 bestchi2,bestChi2,value,value
 strongweak,strongWeak,value,value
-balmerSingle,balmerSingle,value,value
+balmersingle,balmerSingle,value,value
 ratiorange,ratioRange,value,value
 GaussianConstantWidth,gaussianConstantWidth,value,value
 GaussianConstantResolution,gaussianConstantResolution,value,value
-- 
2.43.0


From 58ae27b6ae5e0b11cee866df6e8d8ef573d36bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:41 +0000
Subject: [PATCH 063/106] fix: a listed spectrum model, a v1 line measurement
 or reliability without its section was not reported as a parameter error

---
 .../python/pylibamazed/ParametersChecker.py     |  6 ++++++
 .../python/pylibamazed/ParametersConverter.py   | 17 +++++++++++++++++
 2 files changed, 23 insertions(+)

diff --git a/pylibamazed/python/pylibamazed/ParametersChecker.py b/pylibamazed/python/pylibamazed/ParametersChecker.py
index c17c096..572dd06 100644
--- a/pylibamazed/python/pylibamazed/ParametersChecker.py
+++ b/pylibamazed/python/pylibamazed/ParametersChecker.py
@@ -100,10 +100,16 @@ class ParametersChecker:
             self._check_object(object)
 
     def _check_general(self):
+        self._check_spectrum_models_sections()
         self._check_photometry_transmission_dir()
         self._check_photometry_band()
         self._check_filters()
 
+    def _check_spectrum_models_sections(self):
+        for spectrum_model in self.accessor.get_spectrum_models([]):
+            if self.accessor.get_spectrum_model_section(spectrum_model) is None:
+                self._raise_missing_param_error(f"section {spectrum_model}")
+
     def _check_photometry_transmission_dir(self):
         parameter_name = "photometryTransmissionDir"
         self._check_dependant_parameter_presence(
diff --git a/pylibamazed/python/pylibamazed/ParametersConverter.py b/pylibamazed/python/pylibamazed/ParametersConverter.py
index be6a9f1..9ff5f72 100644
--- a/pylibamazed/python/pylibamazed/ParametersConverter.py
+++ b/pylibamazed/python/pylibamazed/ParametersConverter.py
@@ -92,6 +92,7 @@ class ParametersConverterV1(ParametersConverter):
         new_names = dict(zip(renaming_df["old_name"], renaming_df["new_name"]))
         renamed_params = self._rename(raw_params, new_names)
 
+        self.check_sections(renamed_params)
         self.update_redshift_part(renamed_params)
         self.update_linemeas_part(renamed_params)
         self.update_reliability_part(renamed_params)
@@ -110,6 +111,22 @@ class ParametersConverterV1(ParametersConverter):
             return new_names.get(node, node)
         return node
 
+    def check_sections(self, renamed_params):
+        for spectrum_model in renamed_params.get("spectrumModels", []):
+            section = renamed_params.get(spectrum_model)
+            if section is None:
+                self._raise_missing_param_error(f"section {spectrum_model}")
+            if section.get("linemeas_method") == "lineMeasSolve" and "lineMeasSolve" not in section:
+                self._raise_missing_param_error(f"lineMeasSolve for object {spectrum_model}")
+            if section.get("enable_reliability") and "reliabilityModel" not in section:
+                self._raise_missing_param_error(f"reliability_model for object {spectrum_model}")
+
+    def _raise_missing_param_error(self, param_name: str) -> None:
+        raise APIException(
+            ErrorCode.INVALID_PARAMETER_FILE,
+            f"Missing parameter {param_name}"
+        )
+
     def update_redshift_part(self, renamed_params):
         redshift_methods = ["lineModelSolve", "templateFittingSolve", "tplCombinationSolve"]
         for spectrum_model in renamed_params.get("spectrumModels", []):
-- 
2.43.0


From e730f348a436247ea857e875fdafeb665c2346a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:41 +0000
Subject: [PATCH 064/106] fix: an unknown parameters version was reported as a
 missing schema file

---
 pylibamazed/python/pylibamazed/Parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylibamazed/python/pylibamazed/Parameters.py b/pylibamazed/python/pylibamazed/Parameters.py
index cae312d..b08d8f3 100644
--- a/pylibamazed/python/pylibamazed/Parameters.py
+++ b/pylibamazed/python/pylibamazed/Parameters.py
@@ -55,11 +55,11 @@ class Parameters(ParametersAccessor):
                  Extender=ParametersExtender):
 
         version = self.get_json_schema_version(raw_params)
+        converter = ConverterSelector().get_converter(version)
 
         if make_checks:
             Checker(raw_params).json_schema_check(version)
 
-        converter = ConverterSelector().get_converter(version)
         converted_parameters = converter().convert(raw_params)
 
         if make_checks:
-- 
2.43.0


From 9a0f46b1b95d14a4b91c5d33cbc39ce30d2d41e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:41 +0000
Subject: [PATCH 065/106] fix: lambda range bounds returned by
 get_lambda_range_min and get_lambda_range_max

---
 pylibamazed/python/pylibamazed/Parameters.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pylibamazed/python/pylibamazed/Parameters.py b/pylibamazed/python/pylibamazed/Parameters.py
index b08d8f3..9aa01cd 100644
--- a/pylibamazed/python/pylibamazed/Parameters.py
+++ b/pylibamazed/python/pylibamazed/Parameters.py
@@ -222,7 +222,7 @@ class Parameters(ParametersAccessor):
         if self.get_multiobs_method() != "full":
             return self.get_lambda_range()[0]
         else:
-            ret = 10 ^ 9
+            ret = 10 ** 9
             for obs_id in self.get_observation_ids():
                 cur = self.get_lambda_range(obs_id)[0]
                 if cur < ret:
@@ -231,7 +231,7 @@ class Parameters(ParametersAccessor):
 
     def get_lambda_range_max(self):
         if self.get_multiobs_method() != "full":
-            return self.get_lambda_range()[0]
+            return self.get_lambda_range()[1]
         else:
             ret = 0
             for obs_id in self.get_observation_ids():
-- 
2.43.0


From 12cc73b0d14adbd7da176128a537f7f4f400b2ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:53 +0000
Subject: [PATCH 066/106] fix: a line model with photometry but no weight was
 not reported as a parameter error

---
 pylibamazed/python/pylibamazed/ParametersAccessor.py | 4 ++++
 pylibamazed/python/pylibamazed/ParametersChecker.py  | 9 +++++++++
 2 files changed, 13 insertions(+)

diff --git a/pylibamazed/python/pylibamazed/ParametersAccessor.py b/pylibamazed/python/pylibamazed/ParametersAccessor.py
index 1324c36..96247a1 100644
--- a/pylibamazed/python/pylibamazed/ParametersAccessor.py
+++ b/pylibamazed/python/pylibamazed/ParametersAccessor.py
@@ -283,6 +283,10 @@ class ParametersAccessor:
             "enablePhotometry"
         )
 
+    def get_line_model_photometry_weight(self, spectrum_model: str) -> float:
+        linemodel_section = self.get_linemodel_solve_linemodel_section(spectrum_model)
+        return self._get_on_None(self._get_on_None(linemodel_section, "photometry"), "weight")
+
     def get_solve_method_igm_fit(self, spectrum_model: str, solve_method: str) -> bool:
         igmfit = None
         if solve_method == "lineModelSolve":
diff --git a/pylibamazed/python/pylibamazed/ParametersChecker.py b/pylibamazed/python/pylibamazed/ParametersChecker.py
index 572dd06..656c42b 100644
--- a/pylibamazed/python/pylibamazed/ParametersChecker.py
+++ b/pylibamazed/python/pylibamazed/ParametersChecker.py
@@ -428,6 +428,7 @@ class ParametersChecker:
         self._check_linemodelsolve_continuumreestimation(spectrum_model)
 
         self._check_lineModelSolve_exclusive_fft_photometry(spectrum_model)
+        self._check_linemodelsolve_photometry_weight(spectrum_model)
         self._check_linemodelsolve_continuumfit_section(spectrum_model)
         self._check_linemodelsolve_continuumfit_ism(spectrum_model)
         self._check_linemodelsolve_secondpass_section(spectrum_model)
@@ -503,6 +504,14 @@ class ParametersChecker:
                 f"on spectrum model {spectrum_model}"
             )
 
+    def _check_linemodelsolve_photometry_weight(self, spectrum_model: str) -> None:
+        self._check_dependant_parameter_presence(
+            self.accessor.get_line_model_photometry(spectrum_model),
+            self.accessor.get_line_model_photometry_weight(spectrum_model) is not None,
+            f"object {spectrum_model} lineModelSolve photometry weight",
+            f"object {spectrum_model} lineModelSolve photometry weight"
+        )
+
     def _check_linemodelsolve_continuumfit_section(self, spectrum_model):
         self._check_dependant_parameter_presence(
             self.accessor.get_linemodel_continuum_component(spectrum_model) in ["tplFit", "tplFitAuto"],
-- 
2.43.0


From 24d8e899e4d23d127216a172e485719f74e0d13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:51 +0000
Subject: [PATCH 067/106] fix: check_linemeas_validity raised an unrelated
 error

---
 pylibamazed/python/pylibamazed/Parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylibamazed/python/pylibamazed/Parameters.py b/pylibamazed/python/pylibamazed/Parameters.py
index 9aa01cd..8792ca0 100644
--- a/pylibamazed/python/pylibamazed/Parameters.py
+++ b/pylibamazed/python/pylibamazed/Parameters.py
@@ -213,7 +213,7 @@ class Parameters(ParametersAccessor):
             if method == "lineModelSolve":
                 if self.get_linemeas_method(spectrum_model):
                     raise APIException(
-                        ErrorCode.INCOHERENT_CONFIG_OPTION,
+                        ErrorCode.INCOHERENT_CONFIG_OPTIONS,
                         "Cannot run LineMeasSolve from catalog when sequencial processing is selected"
                         "simultaneously."
                     )
-- 
2.43.0


From 23cfe77de8f646f289c091495e925448df3c31dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:51 +0000
Subject: [PATCH 068/106] fix: any value was accepted as deepLearningSolver
 section in the version 2 schema

---
 .../auxdir/pylibamazed/jsonschema-v2/reliability_solver.json     | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pylibamazed/auxdir/pylibamazed/jsonschema-v2/reliability_solver.json b/pylibamazed/auxdir/pylibamazed/jsonschema-v2/reliability_solver.json
index afd3be8..48357ef 100644
--- a/pylibamazed/auxdir/pylibamazed/jsonschema-v2/reliability_solver.json
+++ b/pylibamazed/auxdir/pylibamazed/jsonschema-v2/reliability_solver.json
@@ -19,6 +19,7 @@
     },
     "deepLearningSolver": {
       "title": "Deep learning solver",
+      "type": "object",
       "required": [
         "reliabilityModel"
       ],
-- 
2.43.0


From c3e5976bf9b98fd39921bde1aefd575a287f5c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:25 +0000
Subject: [PATCH 069/106] fix: version 1 parameters stating their version were
 refused

---
 pylibamazed/auxdir/pylibamazed/jsonschema-v1/general.json | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pylibamazed/auxdir/pylibamazed/jsonschema-v1/general.json b/pylibamazed/auxdir/pylibamazed/jsonschema-v1/general.json
index e15362b..58be4dc 100644
--- a/pylibamazed/auxdir/pylibamazed/jsonschema-v1/general.json
+++ b/pylibamazed/auxdir/pylibamazed/jsonschema-v1/general.json
@@ -14,6 +14,10 @@
   ],
   "additionalProperties": false,
   "properties": {
+    "version": {
+      "type": "number",
+      "title": "Parameters file version"
+    },
     "calibrationDir": {
       "description": "To be removed"
     },
-- 
2.43.0


From a7ed8fab29729a926d2a5a6b6a7668b3cd35500d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:56 +0000
Subject: [PATCH 070/106] fix: templateFittingSolve refused the accepted
 component noContinuum

---
 RedshiftLibrary/src/lib/method/templatefittingsolve.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RedshiftLibrary/src/lib/method/templatefittingsolve.cpp b/RedshiftLibrary/src/lib/method/templatefittingsolve.cpp
index 9c776a2..12e02d5 100644
--- a/RedshiftLibrary/src/lib/method/templatefittingsolve.cpp
+++ b/RedshiftLibrary/src/lib/method/templatefittingsolve.cpp
@@ -128,7 +128,7 @@ std::shared_ptr<CSolveResult> CTemplateFittingSolve::compute() {
   EType _type = nType_raw;
   if (opt_spcComponent == "raw") {
     _type = nType_raw;
-  } else if (opt_spcComponent == "nocontinuum") {
+  } else if (opt_spcComponent == "noContinuum") {
     _type = nType_noContinuum;
     scopeStr = "templatefitting_nocontinuum";
   } else if (opt_spcComponent == "continuum") {
-- 
2.43.0


From 935f79b732ab8fc2053b0d0e14deeeb6320e59bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:56 +0000
Subject: [PATCH 071/106] fix: message on an empty template catalog named the
 first letter of the model only

---
 RedshiftLibrary/src/lib/method/templatefittingsolve.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RedshiftLibrary/src/lib/method/templatefittingsolve.cpp b/RedshiftLibrary/src/lib/method/templatefittingsolve.cpp
index 12e02d5..04fe44c 100644
--- a/RedshiftLibrary/src/lib/method/templatefittingsolve.cpp
+++ b/RedshiftLibrary/src/lib/method/templatefittingsolve.cpp
@@ -160,7 +160,7 @@ std::shared_ptr<CSolveResult> CTemplateFittingSolve::compute() {
   if (tplCatalog.GetTemplateCount(m_category) == 0) {
     THROWG(ErrorCode::BAD_TEMPLATECATALOG,
            Formatter() << "Empty template catalog for category "
-                       << m_category[0]);
+                       << m_category);
   }
   Log.LogInfo(Formatter() << "Iterating over " << m_category.size()
                           << " tplCategories");
-- 
2.43.0


From f8eec8a317019495cf26d5f0b2a213ea6f650684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:56 +0000
Subject: [PATCH 072/106] fix: component types and log sampling of a failed
 template fitting leaked into the next methods

---
 .../RedshiftLibrary/spectrum/spectrum.h       | 16 +++++++++++++++
 .../src/lib/method/templatefittingsolve.cpp   | 20 +++++++++++--------
 .../src/lib/method/tplcombinationsolve.cpp    | 19 +++++-------------
 3 files changed, 33 insertions(+), 22 deletions(-)

diff --git a/RedshiftLibrary/RedshiftLibrary/spectrum/spectrum.h b/RedshiftLibrary/RedshiftLibrary/spectrum/spectrum.h
index ee5410d..1716cdd 100644
--- a/RedshiftLibrary/RedshiftLibrary/spectrum/spectrum.h
+++ b/RedshiftLibrary/RedshiftLibrary/spectrum/spectrum.h
@@ -340,5 +340,21 @@ inline CSpectrum CSpectrum::extract(Int32 startIdx, Int32 endIdx) const {
 
 using CCSpectrumVectorPtr =
     std::shared_ptr<std::vector<std::shared_ptr<const CSpectrum>>>;
+// restore the component type of a spectrum (or a template) when leaving scope,
+// even with exceptions
+class CAutoRestoreSpectrumType {
+public:
+  CAutoRestoreSpectrumType(const CSpectrum &spectrum)
+      : m_spectrum(spectrum), m_type(spectrum.GetType()) {}
+  ~CAutoRestoreSpectrumType() { m_spectrum.SetType(m_type); }
+  CAutoRestoreSpectrumType(CAutoRestoreSpectrumType const &) = delete;
+  CAutoRestoreSpectrumType &
+  operator=(CAutoRestoreSpectrumType const &) = delete;
+
+private:
+  const CSpectrum &m_spectrum;
+  const CSpectrum::EType m_type;
+};
+
 } // namespace NSEpic
 #endif
diff --git a/RedshiftLibrary/src/lib/method/templatefittingsolve.cpp b/RedshiftLibrary/src/lib/method/templatefittingsolve.cpp
index 04fe44c..b286239 100644
--- a/RedshiftLibrary/src/lib/method/templatefittingsolve.cpp
+++ b/RedshiftLibrary/src/lib/method/templatefittingsolve.cpp
@@ -36,6 +36,8 @@
 // The fact that you are presently reading this means that you have had
 // knowledge of the CeCILL-C license and that you accept its terms.
 // ============================================================================
+#include <list>
+
 #include "RedshiftLibrary/method/templatefittingsolve.h"
 #include "RedshiftLibrary/method/templatefittingsolveresult.h"
 
@@ -99,6 +101,13 @@ std::shared_ptr<CSolveResult> CTemplateFittingSolve::compute() {
            "fftProcessing not "
            "implemented with photometry enabled");
 
+  // restored at the end, even with exceptions
+  struct CRestoreSampling {
+    const CTemplateCatalog &m_catalog;
+    const bool m_logsampling;
+    ~CRestoreSampling() { m_catalog.m_logsampling = m_logsampling; }
+  } restoreSampling{tplCatalog, tplCatalog.m_logsampling};
+
   if (fft_processing) {
     m_templateFittingOperator =
         std::make_shared<COperatorTemplateFittingLog>(m_redshifts);
@@ -232,10 +241,10 @@ void CTemplateFittingSolve::Solve(
     _ntype = 3;
   }
 
-  std::vector<CSpectrum::EType> save_spcTypes;
+  std::list<CAutoRestoreSpectrumType> restoreTypes;
   for (auto spc : Context.getSpectra())
-    save_spcTypes.push_back(spc->GetType());
-  const CSpectrum::EType save_tplType = tpl->GetType();
+    restoreTypes.emplace_back(*spc);
+  restoreTypes.emplace_back(*tpl);
 
   for (Int32 i = 0; i < _ntype; i++) {
     if (spctype == nType_all) {
@@ -281,11 +290,6 @@ void CTemplateFittingSolve::Solve(
     resultStore->StoreScopedPerTemplateResult(tpl, scopeStr.c_str(),
                                               templateFittingResult);
   }
-
-  int i = 0;
-  for (auto spc : Context.getSpectra())
-    spc->SetType(save_spcTypes[i++]);
-  tpl->SetType(save_tplType);
 }
 
 ChisquareArray CTemplateFittingSolve::BuildChisquareArray(
diff --git a/RedshiftLibrary/src/lib/method/tplcombinationsolve.cpp b/RedshiftLibrary/src/lib/method/tplcombinationsolve.cpp
index b8c5556..398be4a 100644
--- a/RedshiftLibrary/src/lib/method/tplcombinationsolve.cpp
+++ b/RedshiftLibrary/src/lib/method/tplcombinationsolve.cpp
@@ -37,6 +37,7 @@
 // knowledge of the CeCILL-C license and that you accept its terms.
 // ============================================================================
 #include <cfloat>
+#include <list>
 
 #include "RedshiftLibrary/log/log.h"
 #include "RedshiftLibrary/method/tplcombinationsolve.h"
@@ -185,12 +186,10 @@ bool CTplCombinationSolve::Solve(
   if (spctype == nType_all)
     _ntype = 3;
 
-  const CSpectrum::EType save_spcType = spc.GetType();
-  std::vector<CSpectrum::EType> save_tplTypes(tplList.size());
-  std::transform(tplList.begin(), tplList.end(), save_tplTypes.begin(),
-                 [](std::shared_ptr<const NSEpic::CTemplate> tpl) {
-                   return tpl->GetType();
-                 });
+  std::list<CAutoRestoreSpectrumType> restoreTypes;
+  restoreTypes.emplace_back(spc);
+  for (auto const &tpl : tplList)
+    restoreTypes.emplace_back(*tpl);
 
   for (Int32 i = 0; i < _ntype; i++) {
     if (spctype == nType_all)
@@ -224,14 +223,6 @@ bool CTplCombinationSolve::Solve(
     resultStore->StoreScopedGlobalResult(scopeStr.c_str(), result);
   }
 
-  // restore component types
-  spc.SetType(save_spcType);
-  auto it = save_tplTypes.begin();
-  std::for_each(tplList.begin(), tplList.end(),
-                [&it](std::shared_ptr<const NSEpic::CTemplate> tpl) {
-                  tpl->SetType(*it);
-                  it++;
-                });
   return true;
 }
 
-- 
2.43.0


From 757b66f76e3ad1171ffb58ec810acd08ff2d9778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:56 +0000
Subject: [PATCH 073/106] fix: line model without template continuum needed the
 continuumFit thresholds

---
 RedshiftLibrary/src/lib/linemodel/continuummanager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RedshiftLibrary/src/lib/linemodel/continuummanager.cpp b/RedshiftLibrary/src/lib/linemodel/continuummanager.cpp
index 8b8a78c..598b37d 100644
--- a/RedshiftLibrary/src/lib/linemodel/continuummanager.cpp
+++ b/RedshiftLibrary/src/lib/linemodel/continuummanager.cpp
@@ -29,7 +29,7 @@ CContinuumManager::CContinuumManager(const CSpcModelVectorPtr &models,
   std::shared_ptr<const CParameterStore> ps = Context.GetParameterStore();
   setContinuumComponent(ps->GetScoped<std::string>("continuumComponent"));
 
-  if (m_ContinuumComponent != "noContinuum") {
+  if (isContinuumComponentTplfitxx()) {
     m_opt_fitcontinuum_neg_threshold =
         ps->GetScoped<Float64>("continuumFit.negativeThreshold");
     m_opt_fitcontinuum_null_amp_threshold =
-- 
2.43.0


From 440299d68cca1f41eaf8d612b64598a2c2df0f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:56 +0000
Subject: [PATCH 074/106] fix: line model without template continuum needed the
 continuumFit priors

---
 RedshiftLibrary/src/lib/operator/linemodel.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/RedshiftLibrary/src/lib/operator/linemodel.cpp b/RedshiftLibrary/src/lib/operator/linemodel.cpp
index 2557b99..179892d 100644
--- a/RedshiftLibrary/src/lib/operator/linemodel.cpp
+++ b/RedshiftLibrary/src/lib/operator/linemodel.cpp
@@ -108,8 +108,9 @@ void COperatorLineModel::ComputeFirstPass() {
 
   // commom between firstpass and secondpass processes
   // TODO not pretty, maybe move fitcontinuum_prior help building to operator
-  m_phelperContinuum =
-      m_fittingManager->getContinuumManager()->SetFitContinuum_PriorHelper();
+  if (m_fittingManager->isContinuumComponentTplfitxx())
+    m_phelperContinuum =
+        m_fittingManager->getContinuumManager()->SetFitContinuum_PriorHelper();
 
   Log.LogInfo("  Operator-Linemodel: start processing");
 
-- 
2.43.0


From 877cab5ce17a8b431b5bc618878a251123b2f194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:56 +0000
Subject: [PATCH 075/106] fix: multiObsMethod full with a single observation
 could not read its lambdaRange

---
 RedshiftLibrary/src/lib/processflow/inputcontext.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/RedshiftLibrary/src/lib/processflow/inputcontext.cpp b/RedshiftLibrary/src/lib/processflow/inputcontext.cpp
index bcc27fd..1410f3d 100644
--- a/RedshiftLibrary/src/lib/processflow/inputcontext.cpp
+++ b/RedshiftLibrary/src/lib/processflow/inputcontext.cpp
@@ -188,9 +188,12 @@ void CInputContext::Init() {
   // non clamped lambdaRange: to be clamped depending on used spectra
   for (auto spectrum : m_spectra) {
     TFloat64Range lambdaRange;
-    if (m_spectra.size() > 1)
-      lambdaRange = m_ParameterStore->Get<TFloat64Range>(
-          Formatter() << "lambdaRange." << spectrum->getObsID());
+    const std::string obsLambdaRange = "lambdaRange." + spectrum->getObsID();
+    // a single observation can also have its own lambdaRange (multiobs "full")
+    if (m_spectra.size() > 1 ||
+        (!spectrum->getObsID().empty() &&
+         m_ParameterStore->Has<TFloat64Range>(obsLambdaRange)))
+      lambdaRange = m_ParameterStore->Get<TFloat64Range>(obsLambdaRange);
     else
       lambdaRange = m_ParameterStore->Get<TFloat64Range>("lambdaRange");
     m_lambdaRanges.push_back(std::make_shared<TFloat64Range>(lambdaRange));
-- 
2.43.0


From 32e3b16142ade95ac4c3edba72b30282435e0d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:58 +0000
Subject: [PATCH 076/106] fix: amplitudes corrected by the template ratio were
 written outside their list

---
 RedshiftLibrary/src/lib/line/catalogsTplRatio.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/RedshiftLibrary/src/lib/line/catalogsTplRatio.cpp b/RedshiftLibrary/src/lib/line/catalogsTplRatio.cpp
index ec84330..4daced2 100644
--- a/RedshiftLibrary/src/lib/line/catalogsTplRatio.cpp
+++ b/RedshiftLibrary/src/lib/line/catalogsTplRatio.cpp
@@ -196,7 +196,8 @@ Float64 CLineCatalogsTplRatio::GetBestFit(const TInt32List &validLinesIndex,
   // coeff min normalization
   // coeffMin = sqrt(coeffMin);
   // coeffMin /= 1.0;
-  amplitudesCorrected.clear();
+  // lines without correction keep their fitted amplitude
+  amplitudesCorrected = fittedAmplitudes;
   if (coeffMin < 0.)
     return coeffMin;
 
-- 
2.43.0


From 75abf7b80e86ca0de5391072efc4a6d80e391a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:58 +0000
Subject: [PATCH 077/106] fix: line filters leaving no line made the line model
 read outside its element list

---
 RedshiftLibrary/src/lib/linemodel/linemodelfitting.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/RedshiftLibrary/src/lib/linemodel/linemodelfitting.cpp b/RedshiftLibrary/src/lib/linemodel/linemodelfitting.cpp
index ef1e81f..b647407 100644
--- a/RedshiftLibrary/src/lib/linemodel/linemodelfitting.cpp
+++ b/RedshiftLibrary/src/lib/linemodel/linemodelfitting.cpp
@@ -152,6 +152,10 @@ void CLineModelFitting::initMembers(
     const std::shared_ptr<COperatorTemplateFittingBase> &TFOperator,
     ElementComposition element_composition) {
 
+  if (m_RestLineList.empty())
+    THROWG(ErrorCode::BAD_LINECATALOG,
+           "No line in the catalog matches the line type and force filters");
+
   m_nominalWidthDefault = 13.4; // euclid 1 px
   m_continuumFitValues = std::make_shared<CTplModelSolution>();
   m_models = std::make_shared<CSpcModelVector>(m_spectraIndex);
-- 
2.43.0


From 311c06500f149aaa69686134c899d3f3e6bc8864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:58 +0000
Subject: [PATCH 078/106] fix: log resampled spectra had no continuum removal
 settings nor observation ID

---
 RedshiftLibrary/src/lib/processflow/inputcontext.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/RedshiftLibrary/src/lib/processflow/inputcontext.cpp b/RedshiftLibrary/src/lib/processflow/inputcontext.cpp
index 1410f3d..9131d6d 100644
--- a/RedshiftLibrary/src/lib/processflow/inputcontext.cpp
+++ b/RedshiftLibrary/src/lib/processflow/inputcontext.cpp
@@ -251,6 +251,13 @@ void CInputContext::Init() {
       rebinedSpectrum_ptr->ValidateSpectrum(*lambdaRange_ptr,
                                             enableInputSpcCorrect);
       rebinedSpectrum_ptr->SetLSF(spectrum_ptr->GetLSF());
+      rebinedSpectrum_ptr->setObsID(spectrum_ptr->getObsID());
+      // same continuum removal (the input flux is already smoothed)
+      rebinedSpectrum_ptr->SetContinuumEstimationMethod(
+          spectrum_ptr->GetContinuumEstimationMethod());
+      rebinedSpectrum_ptr->SetMedianWinsize(spectrum_ptr->GetMedianWinsize());
+      rebinedSpectrum_ptr->SetMedianEvenReflection(
+          spectrum_ptr->GetMedianEvenReflection());
     }
   }
   // template orthogonalisation with linemodel
-- 
2.43.0


From caf62c11b3252e457a82b35ac6c3996260defd3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:58 +0000
Subject: [PATCH 079/106] fix: a template not covering the range left a partial
 list of log resampled templates

---
 RedshiftLibrary/src/lib/spectrum/logrebinning.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/RedshiftLibrary/src/lib/spectrum/logrebinning.cpp b/RedshiftLibrary/src/lib/spectrum/logrebinning.cpp
index b0670ea..e79f65d 100644
--- a/RedshiftLibrary/src/lib/spectrum/logrebinning.cpp
+++ b/RedshiftLibrary/src/lib/spectrum/logrebinning.cpp
@@ -369,11 +369,13 @@ TFloat64Range CSpectrumLogRebinning::logRebinTemplateCatalog(
         std::const_pointer_cast<const CTemplateCatalog>(tplcat)
             ->GetTemplateList(TStringList{spectrumModel});
     tplcat->m_logsampling = true;
-    for (auto tpl : TplList) {
-      std::shared_ptr<CTemplate> rebinnedTpl =
-          loglambdaRebinTemplate(tpl, lambdaRange_tpl, loglambda_count_tpl);
+    // add them once all are rebinned, not to leave a partial list on error
+    std::vector<std::shared_ptr<CTemplate>> rebinnedTplList;
+    for (auto tpl : TplList)
+      rebinnedTplList.push_back(
+          loglambdaRebinTemplate(tpl, lambdaRange_tpl, loglambda_count_tpl));
+    for (auto const &rebinnedTpl : rebinnedTplList)
       tplcat->Add(rebinnedTpl);
-    }
   }
   tplcat->m_logsampling = false;
 
-- 
2.43.0


From 999404e59f27059b300d5029fe0c5283f01d89af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:56 +0000
Subject: [PATCH 080/106] fix: log resampled templates had no continuum removal
 settings

---
 RedshiftLibrary/src/lib/spectrum/logrebinning.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/RedshiftLibrary/src/lib/spectrum/logrebinning.cpp b/RedshiftLibrary/src/lib/spectrum/logrebinning.cpp
index e79f65d..f9740ff 100644
--- a/RedshiftLibrary/src/lib/spectrum/logrebinning.cpp
+++ b/RedshiftLibrary/src/lib/spectrum/logrebinning.cpp
@@ -263,6 +263,10 @@ std::shared_ptr<CTemplate> CSpectrumLogRebinning::loglambdaRebinTemplate(
       make_shared<CTemplate>(tpl->GetName(), tpl->GetCategory());
   templateRebinedLog->m_ismCorrectionCalzetti = tpl->m_ismCorrectionCalzetti;
   templateRebinedLog->m_igmCorrectionMeiksin = tpl->m_igmCorrectionMeiksin;
+  templateRebinedLog->SetContinuumEstimationMethod(
+      tpl->GetContinuumEstimationMethod());
+  templateRebinedLog->SetMedianWinsize(tpl->GetMedianWinsize());
+  templateRebinedLog->SetMedianEvenReflection(tpl->GetMedianEvenReflection());
   CMask mskRebinedLog;
 
   TFloat64Range tplLbdaRange(targetSpectralAxis[0],
-- 
2.43.0


From 8fa758efcda5c9b7f464a7f4dec9c200bd41a622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:56 +0000
Subject: [PATCH 081/106] fix: useLogLambdaSampling used a template continuum
 computed at the wavelengths of the input sampling

---
 .../RedshiftLibrary/operator/templatefittingBase.h   |  4 ++++
 RedshiftLibrary/src/lib/operator/linemodel.cpp       | 12 +++++++++---
 .../src/lib/operator/templatefittingBase.cpp         | 10 ++++++++--
 3 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/RedshiftLibrary/RedshiftLibrary/operator/templatefittingBase.h b/RedshiftLibrary/RedshiftLibrary/operator/templatefittingBase.h
index 895254c..8806b06 100644
--- a/RedshiftLibrary/RedshiftLibrary/operator/templatefittingBase.h
+++ b/RedshiftLibrary/RedshiftLibrary/operator/templatefittingBase.h
@@ -95,6 +95,8 @@ public:
   void setMaskBuilder(const std::shared_ptr<CMaskBuilder> &maskBuilder) {
     m_maskBuilder = maskBuilder;
   }
+  // fit and compute the models on the log-lambda resampled spectra
+  void useLogSampledSpectra();
 
 protected:
   virtual void RebinTemplate(const std::shared_ptr<const CTemplate> &tpl,
@@ -131,6 +133,8 @@ protected:
                                          Float64 &ampl) const;
 
   std::vector<std::shared_ptr<const CSpectrum>> m_spectra;
+  std::vector<std::shared_ptr<const CSpectrum>>
+      m_modelSpectra; // give the sampling of the models
   std::vector<std::shared_ptr<const TFloat64Range>> m_lambdaRanges;
   TFloat64List m_redshifts;
 
diff --git a/RedshiftLibrary/src/lib/operator/linemodel.cpp b/RedshiftLibrary/src/lib/operator/linemodel.cpp
index 179892d..c995e3a 100644
--- a/RedshiftLibrary/src/lib/operator/linemodel.cpp
+++ b/RedshiftLibrary/src/lib/operator/linemodel.cpp
@@ -86,13 +86,19 @@ void COperatorLineModel::ComputeFirstPass() {
       ps->GetScoped<std::string>("lineModel.continuumComponent");
 
   makeTFOperator(m_Redshifts);
-  if (!m_templateFittingOperator->IsFFTProcessing()) {
+  bool const useLogSampling =
+      (m_opt_continuumcomponent == "tplFit" ||
+       m_opt_continuumcomponent == "tplFitAuto") &&
+      ps->GetScoped<bool>("lineModel.useLogLambdaSampling");
+  if (!m_templateFittingOperator->IsFFTProcessing() && !useLogSampling) {
     m_fittingManager =
         std::make_shared<CLineModelFitting>(m_templateFittingOperator);
   } else { // create a default
     const TFloat64List &redshifts = m_Redshifts;
-    m_fittingManager = std::make_shared<CLineModelFitting>(
-        std::make_shared<COperatorTemplateFitting>(redshifts));
+    auto tfOperator = std::make_shared<COperatorTemplateFitting>(redshifts);
+    if (useLogSampling) // the continuum is needed on the sampling of the model
+      tfOperator->useLogSampledSpectra();
+    m_fittingManager = std::make_shared<CLineModelFitting>(tfOperator);
   }
 
   // TODO: check option tplfit
diff --git a/RedshiftLibrary/src/lib/operator/templatefittingBase.cpp b/RedshiftLibrary/src/lib/operator/templatefittingBase.cpp
index 14d2a71..e5b4d2e 100644
--- a/RedshiftLibrary/src/lib/operator/templatefittingBase.cpp
+++ b/RedshiftLibrary/src/lib/operator/templatefittingBase.cpp
@@ -48,13 +48,19 @@ using namespace std;
 
 COperatorTemplateFittingBase::COperatorTemplateFittingBase(
     const TFloat64List &redshifts)
-    : m_spectra(Context.getSpectra()),
+    : m_spectra(Context.getSpectra()), m_modelSpectra(m_spectra),
       m_lambdaRanges(Context.getClampedLambdaRanges()), m_redshifts(redshifts),
       m_templateRebined_bf(m_spectra.size()),
       m_spcSpectralAxis_restframe(m_spectra.size()),
       m_mskRebined_bf(m_spectra.size()),
       m_maskBuilder(std::make_shared<CMaskBuilder>()){};
 
+void COperatorTemplateFittingBase::useLogSampledSpectra() {
+  m_spectra = Context.getRebinnedSpectra();
+  m_modelSpectra = m_spectra;
+  m_lambdaRanges = Context.getRebinnedClampedLambdaRanges();
+}
+
 /**
  * \brief this function estimates the likelihood_cstLog term withing the
  * wavelength range
@@ -164,7 +170,7 @@ void COperatorTemplateFittingBase::RebinTemplate(
   // redshift in restframe the tgtSpectralAxis, i.e., division by (1+Z)
   // Shouldn't ShiftByWaveLength be static ?
   m_spcSpectralAxis_restframe[spcIndex].ShiftByWaveLength(
-      Context.getSpectra()[spcIndex]->GetSpectralAxis(), onePlusRedshift,
+      m_modelSpectra[spcIndex]->GetSpectralAxis(), onePlusRedshift,
       CSpectrumSpectralAxis::nShiftBackward);
   m_spcSpectralAxis_restframe[spcIndex].ClampLambdaRange(
       lambdaRange_restframe, spcLambdaRange_restframe);
-- 
2.43.0


From 27207e148a702b782e99d30ab02deee506e6a835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:39 +0000
Subject: [PATCH 082/106] fix: line filters leaving no line for one model made
 the initialisation of all fail

---
 RedshiftLibrary/src/lib/linemodel/templatesortho.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/RedshiftLibrary/src/lib/linemodel/templatesortho.cpp b/RedshiftLibrary/src/lib/linemodel/templatesortho.cpp
index ff8e81e..6bfc19c 100644
--- a/RedshiftLibrary/src/lib/linemodel/templatesortho.cpp
+++ b/RedshiftLibrary/src/lib/linemodel/templatesortho.cpp
@@ -190,7 +190,8 @@ std::shared_ptr<CTemplate> CTemplatesOrthogonalization::OrthogonalizeTemplate(
   std::shared_ptr<CTemplate> tplOrtho =
       std::make_shared<CTemplate>(inputTemplate);
 
-  if (!m_enableOrtho)
+  // nothing to orthogonalize with when the filters leave no line
+  if (!m_enableOrtho || Context.getCLineMap().empty())
     return tplOrtho;
 
   std::string opt_continuumcomponent = "fromSpectrum";
-- 
2.43.0


From ace673c3e701999ed40950e0de79c70e74a7cd19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:52 +0000
Subject: [PATCH 083/106] fix: warnings of the template orthogonalisation were
 only given to the first spectrum

---
 .../RedshiftLibrary/spectrum/template/catalog.h   |  4 ++++
 .../src/lib/linemodel/templatesortho.cpp          | 15 +++++++++++++++
 2 files changed, 19 insertions(+)

diff --git a/RedshiftLibrary/RedshiftLibrary/spectrum/template/catalog.h b/RedshiftLibrary/RedshiftLibrary/spectrum/template/catalog.h
index d62a0cc..8a32425 100644
--- a/RedshiftLibrary/RedshiftLibrary/spectrum/template/catalog.h
+++ b/RedshiftLibrary/RedshiftLibrary/spectrum/template/catalog.h
@@ -39,11 +39,13 @@
 #ifndef _REDSHIFT_SPECTRUM_TEMPLATE_CATALOG_
 #define _REDSHIFT_SPECTRUM_TEMPLATE_CATALOG_
 
+#include <map>
 #include <vector>
 
 #include <boost/filesystem.hpp>
 
 #include "RedshiftLibrary/common/datatypes.h"
+#include "RedshiftLibrary/common/flag.h"
 #include "RedshiftLibrary/spectrum/template/template.h"
 
 namespace NSEpic {
@@ -103,6 +105,8 @@ public:
   mutable bool m_logsampling = 0; // non-log by default
   mutable bool m_orthogonal = 0;  // non-log by default
   Float64 m_ortho_LSFWidth = NAN;
+  // warnings of the last orthogonalization, by category and sampling
+  std::map<std::string, std::map<bool, TWarningMsgList>> m_ortho_warnings;
 
 private:
   // this const version must stay private, since it returns non const templates.
diff --git a/RedshiftLibrary/src/lib/linemodel/templatesortho.cpp b/RedshiftLibrary/src/lib/linemodel/templatesortho.cpp
index 6bfc19c..b8b6e6e 100644
--- a/RedshiftLibrary/src/lib/linemodel/templatesortho.cpp
+++ b/RedshiftLibrary/src/lib/linemodel/templatesortho.cpp
@@ -36,6 +36,8 @@
 // The fact that you are presently reading this means that you have had
 // knowledge of the CeCILL-C license and that you accept its terms.
 // ============================================================================
+#include <algorithm>
+
 #include "RedshiftLibrary/linemodel/templatesortho.h"
 #include "RedshiftLibrary/linemodel/linemodelfitting.h"
 #include "RedshiftLibrary/processflow/autoscope.h"
@@ -67,6 +69,15 @@ void CTemplatesOrthogonalization::Orthogonalize(
   bool needOrthogonalization = prepareTplCatForOrthogonalization(
       tplCatalog, inputContext, spectrumModel, samplingList);
 
+  // the templates orthogonalized for a previous spectrum keep their warnings
+  for (auto const &[sampling, warnings] :
+       tplCatalog->m_ortho_warnings[spectrumModel])
+    if (!needOrthogonalization ||
+        std::find(samplingList.begin(), samplingList.end(), sampling) ==
+            samplingList.end())
+      for (auto const &[code, message] : warnings)
+        Flag.warning(code, message);
+
   if (!needOrthogonalization) {
     tplCatalog->m_logsampling = currentsampling;
     tplCatalog->m_orthogonal = 0;
@@ -74,6 +85,7 @@ void CTemplatesOrthogonalization::Orthogonalize(
   }
 
   for (bool sampling : samplingList) {
+    const size_t previousWarnings = Flag.getListMessages().size();
     tplCatalog->m_logsampling = sampling;
     // orthogonalize all templates
     tplCatalog->m_orthogonal = 0;
@@ -97,6 +109,9 @@ void CTemplatesOrthogonalization::Orthogonalize(
       else
         tplCatalog->Add(_orthoTpl);
     }
+    auto const &warnings = Flag.getListMessages();
+    tplCatalog->m_ortho_warnings[spectrumModel][sampling].assign(
+        warnings.begin() + previousWarnings, warnings.end());
   }
   tplCatalog->m_logsampling = currentsampling;
   tplCatalog->m_orthogonal = 0;
-- 
2.43.0


From 1f32497045bacd8ea5bfabe21f2bb7c40cb86181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:15 +0000
Subject: [PATCH 084/106] fix: line profiles with IGM assumed at least four
 extinction curves

---
 RedshiftLibrary/RedshiftLibrary/line/lineprofileSYMIGM.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/RedshiftLibrary/RedshiftLibrary/line/lineprofileSYMIGM.h b/RedshiftLibrary/RedshiftLibrary/line/lineprofileSYMIGM.h
index 197e2fb..7fdb618 100644
--- a/RedshiftLibrary/RedshiftLibrary/line/lineprofileSYMIGM.h
+++ b/RedshiftLibrary/RedshiftLibrary/line/lineprofileSYMIGM.h
@@ -81,7 +81,8 @@ public:
   void resetParams() override;
   Int32 getIGMIdxCount() const override;
   Int32 GetIgmIdx() const {
-    return m_igmidx != undefIdx ? m_igmidx : 3;
+    return m_igmidx != undefIdx ? m_igmidx
+                                 : m_igmCorrectionMeiksin->getIdxCount() / 2;
   }; // use median extinction curve if undefined
 
 private:
-- 
2.43.0


From 3c9975b5d52dd784efaff720e51e94dd076686fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:20 +0000
Subject: [PATCH 085/106] fix: IGM curves convolved with the LSF of the first
 spectrum were used for all spectra

---
 .../RedshiftLibrary/spectrum/fluxcorrectionmeiksin.h      | 4 ++++
 RedshiftLibrary/src/lib/processflow/inputcontext.cpp      | 8 ++++++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/RedshiftLibrary/RedshiftLibrary/spectrum/fluxcorrectionmeiksin.h b/RedshiftLibrary/RedshiftLibrary/spectrum/fluxcorrectionmeiksin.h
index da05e50..bddc6c6 100644
--- a/RedshiftLibrary/RedshiftLibrary/spectrum/fluxcorrectionmeiksin.h
+++ b/RedshiftLibrary/RedshiftLibrary/spectrum/fluxcorrectionmeiksin.h
@@ -71,6 +71,10 @@ public:
   void convolveByLSF(const std::shared_ptr<const CLSF> &lsf,
                      const TFloat64Range &lambdaRange);
   bool isConvolved() { return m_convolved; };
+  void resetConvolution() {
+    m_corrections.clear();
+    m_convolved = false;
+  };
   Int32 getIdxCount() const {
     return m_rawCorrections[0].fluxcorr.size();
   }; // harcoded value from the number of cols in the ascii files
diff --git a/RedshiftLibrary/src/lib/processflow/inputcontext.cpp b/RedshiftLibrary/src/lib/processflow/inputcontext.cpp
index 9131d6d..26e91a1 100644
--- a/RedshiftLibrary/src/lib/processflow/inputcontext.cpp
+++ b/RedshiftLibrary/src/lib/processflow/inputcontext.cpp
@@ -222,6 +222,11 @@ void CInputContext::Init() {
                             std::max(fullLambdaRange.GetEnd(),
                                      lambdaRange_ptr->GetEnd()));
 
+  // forget the IGM convolved by the LSF of the previous spectrum
+  if (m_igmcorrectionMeiksin->isConvolved() &&
+      m_ParameterStore->Get<std::string>("lsf.lsfType") == "fromSpectrumData")
+    m_igmcorrectionMeiksin->resetConvolution();
+
   // validate spectra and initialize spectra continuum removal
   for (auto const &[spectrum_ptr, lambdaRange_ptr] :
        boost::combine(m_spectra, m_lambdaRanges)) {
@@ -229,8 +234,7 @@ void CInputContext::Init() {
     spectrum_ptr->InitSpectrumContinuum(*m_ParameterStore);
     // convolve IGM by LSF
 
-    if (!m_igmcorrectionMeiksin->isConvolved() ||
-        m_ParameterStore->Get<std::string>("lsf.lsfType") == "fromSpectrumData")
+    if (!m_igmcorrectionMeiksin->isConvolved())
       m_igmcorrectionMeiksin->convolveByLSF(spectrum_ptr->GetLSF(),
                                             fullLambdaRange);
   }
-- 
2.43.0


From 6f465819607c939387a252840802199e758be840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:50 +0000
Subject: [PATCH 086/106] fix: results with a single line could not be written
 to the output file

---
 pylibamazed/python/pylibamazed/H5Writer.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pylibamazed/python/pylibamazed/H5Writer.py b/pylibamazed/python/pylibamazed/H5Writer.py
index 5f6a00b..2eeba6e 100644
--- a/pylibamazed/python/pylibamazed/H5Writer.py
+++ b/pylibamazed/python/pylibamazed/H5Writer.py
@@ -37,6 +37,7 @@
 # knowledge of the CeCILL-C license and that you accept its terms.
 # ============================================================================
 
+import numpy as np
 import pandas as pd
 from pylibamazed.AbstractOutput import root_stages, spectrum_model_stages
 from pylibamazed.Exception import APIException
@@ -64,6 +65,13 @@ def _create_dataset_from_dict(h5_node, name, source, compress=False):
                            compression="lzf")
 
 
+def _write_attributes(h5_node, source):
+    for attr_name, attr in source.items():
+        if isinstance(attr, np.ndarray) and attr.dtype.kind == "U":
+            attr = attr.astype("S")  # h5py does not support numpy unicode arrays
+        h5_node.attrs[attr_name] = attr
+
+
 class H5Writer():
 
     def __init__(self, output):
@@ -91,8 +99,7 @@ class H5Writer():
                                           dataset)
             else:
                 object_results_node.create_group(ds)
-                for attr_name, attr in dataset.items():
-                    object_results_node.get(ds).attrs[attr_name] = attr
+                _write_attributes(object_results_node.get(ds), dataset)
 
     def write_hdf5_candidate_level(self, object_type, object_results_node):
         if self.output.parameters.get_redshift_solver_method(object_type):
@@ -112,8 +119,7 @@ class H5Writer():
                         continue
                     elif ds_dim == 1:
                         candidate.create_group(ds)
-                        for attr_name, attr in dataset.items():
-                            candidate.get(ds).attrs[attr_name] = attr
+                        _write_attributes(candidate.get(ds), dataset)
                     else:
                         try:
                             _create_dataset_from_dict(candidate,
-- 
2.43.0


From 9594392c8ef558893af6714c7069212cbd8e5fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:44 +0000
Subject: [PATCH 087/106] fix: candidates around a removed duplicate kept
 overlapping integration windows

---
 .../src/lib/statistics/pdfcandidatesz.cpp     | 28 +++++++++++++------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/RedshiftLibrary/src/lib/statistics/pdfcandidatesz.cpp b/RedshiftLibrary/src/lib/statistics/pdfcandidatesz.cpp
index 94417e0..ba29661 100644
--- a/RedshiftLibrary/src/lib/statistics/pdfcandidatesz.cpp
+++ b/RedshiftLibrary/src/lib/statistics/pdfcandidatesz.cpp
@@ -111,10 +111,16 @@ CPdfCandidatesZ::SetIntegrationRanges(const TFloat64Range PdfZRange,
 
   // trim overlapping ranges
   TStringList duplicates = {};
-  for (auto candidateKey = candidatesKeys.begin();
-       candidateKey != candidatesKeys.end() - 1; ++candidateKey) {
-    std::string &candidateKeyHigh = *candidateKey;
-    std::string &candidateKeyLow = *(candidateKey + 1);
+  // candidates compared so far and not removed, the last one being the closest
+  TStringList keptKeys = {candidatesKeys.front()};
+  for (auto candidateKey = candidatesKeys.begin() + 1;
+       candidateKey != candidatesKeys.end();) {
+    if (keptKeys.empty()) {
+      keptKeys.push_back(*candidateKey++);
+      continue;
+    }
+    std::string const candidateKeyHigh = keptKeys.back();
+    std::string const &candidateKeyLow = *candidateKey;
     Float64 &zHigh = candidates[candidateKeyHigh]->Redshift;
     Float64 &zLow = candidates[candidateKeyLow]->Redshift;
 
@@ -126,8 +132,10 @@ CPdfCandidatesZ::SetIntegrationRanges(const TFloat64Range PdfZRange,
     Float64 overlap =
         ranges[candidateKeyLow].GetEnd() - ranges[candidateKeyHigh].GetBegin();
 
-    if (overlap <= 0)
+    if (overlap <= 0) {
+      keptKeys.push_back(*candidateKey++);
       continue;
+    }
 
     // in the case of duplicates, split equally the overlap between both
     // candidates
@@ -142,19 +150,21 @@ CPdfCandidatesZ::SetIntegrationRanges(const TFloat64Range PdfZRange,
       Float64 midOverlap = ranges[candidateKeyLow].GetEnd() - 0.5 * overlap;
       ranges[candidateKeyLow].SetEnd(midOverlap);
       ranges[candidateKeyHigh].SetBegin(midOverlap);
+      keptKeys.push_back(*candidateKey++);
     } else {
       Log.LogInfo(Formatter()
                   << " CPdfCandidatesZ::SetIntegrationRanges: very close "
                      "candidates are identified "
                   << zHigh << " and " << zLow);
-      std::string candidateKeyToRemove;
       if (candidates[candidateKeyLow]->ValProba >
           candidates[candidateKeyHigh]->ValProba) {
-        candidateKeyToRemove = candidateKeyHigh;
+        // the low candidate is then compared to the previous one
+        duplicates.push_back(candidateKeyHigh);
+        keptKeys.pop_back();
       } else {
-        candidateKeyToRemove = candidateKeyLow;
+        duplicates.push_back(candidateKeyLow);
+        ++candidateKey;
       }
-      duplicates.push_back(candidateKeyToRemove);
     }
   }
 
-- 
2.43.0


From 07d3ee7b2266f7391d475312355c1bc7ac648a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:25 +0000
Subject: [PATCH 088/106] fix: the model of template combination was stored
 without the observation name

---
 RedshiftLibrary/src/lib/operator/tplcombination.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/RedshiftLibrary/src/lib/operator/tplcombination.cpp b/RedshiftLibrary/src/lib/operator/tplcombination.cpp
index facc2e9..2222571 100644
--- a/RedshiftLibrary/src/lib/operator/tplcombination.cpp
+++ b/RedshiftLibrary/src/lib/operator/tplcombination.cpp
@@ -661,7 +661,8 @@ COperatorTplcombination::ComputeSpectrumModel(
   m_masksRebined_bf.clear();
   std::shared_ptr<CModelSpectrumResult> ret =
       std::make_shared<CModelSpectrumResult>();
-  ret->addModel(CSpectrum(std::move(modelSpcAxis), std::move(modelFlux)), "");
+  ret->addModel(CSpectrum(std::move(modelSpcAxis), std::move(modelFlux)),
+                spectrum.getObsID());
   return ret;
 }
 
-- 
2.43.0


From 4b9bb384b33c14cac1840c3f96513bb3b1eaf645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:22 +0000
Subject: [PATCH 089/106] fix: candidates with a null Lyman alpha amplitude had
 an invalid line profile

---
 RedshiftLibrary/src/lib/linemodel/tplratiomanager.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/RedshiftLibrary/src/lib/linemodel/tplratiomanager.cpp b/RedshiftLibrary/src/lib/linemodel/tplratiomanager.cpp
index db40311..8f38666 100644
--- a/RedshiftLibrary/src/lib/linemodel/tplratiomanager.cpp
+++ b/RedshiftLibrary/src/lib/linemodel/tplratiomanager.cpp
@@ -570,11 +570,15 @@ void CTplratioManager::resetToBestRatio(Float64 redshift) {
 
   // Lya
   for (Int32 iElts = 0; iElts < m_elementsVector->getElementParam().size();
-       iElts++)
+       iElts++) {
+    // no parameters were fitted if all amplitudes are null
+    if (std::isnan(m_LyaWidthCoeffTplratio[m_savedIdxFitted][iElts]))
+      continue;
     m_elementsVector->getElementParam()[iElts]->SetAsymfitParams(
         {m_LyaWidthCoeffTplratio[m_savedIdxFitted][iElts],
          m_LyaAsymCoeffTplratio[m_savedIdxFitted][iElts],
          m_LyaDeltaCoeffTplratio[m_savedIdxFitted][iElts]});
+  }
 
   for (Int32 iElts = 0; iElts < m_elementsVector->getElementParam().size();
        iElts++)
-- 
2.43.0


From 18e23f501b37e10bf4bd7366aff47f456bb998f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:31 +0000
Subject: [PATCH 090/106] fix: a named spectrum was created with uninitialised
 continuum settings

---
 RedshiftLibrary/src/lib/spectrum/spectrum.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/RedshiftLibrary/src/lib/spectrum/spectrum.cpp b/RedshiftLibrary/src/lib/spectrum/spectrum.cpp
index 87a86e8..4f69a81 100644
--- a/RedshiftLibrary/src/lib/spectrum/spectrum.cpp
+++ b/RedshiftLibrary/src/lib/spectrum/spectrum.cpp
@@ -58,7 +58,8 @@ CSpectrum::CSpectrum()
       m_rebin(std::unique_ptr<CRebin>(new CRebinLinear(*this))) {}
 
 CSpectrum::CSpectrum(const std::string &name)
-    : m_Name(name), m_rebin(std::unique_ptr<CRebin>(new CRebinLinear(*this))){};
+    : m_medianWindowSize(-1), m_medianEvenReflection(true), m_Name(name),
+      m_rebin(std::unique_ptr<CRebin>(new CRebinLinear(*this))){};
 
 CSpectrum::CSpectrum(const CSpectrum &other, const TFloat64List &mask)
     : m_estimationMethod(other.m_estimationMethod),
-- 
2.43.0


From efeb237d916c854db486733cc22f89de8d3da722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:25 +0000
Subject: [PATCH 091/106] fix: log sampling check read past the end of an axis
 with less than two samples

---
 RedshiftLibrary/src/lib/spectrum/spectralaxis.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/RedshiftLibrary/src/lib/spectrum/spectralaxis.cpp b/RedshiftLibrary/src/lib/spectrum/spectralaxis.cpp
index 0d3221f..402d4e2 100644
--- a/RedshiftLibrary/src/lib/spectrum/spectralaxis.cpp
+++ b/RedshiftLibrary/src/lib/spectrum/spectralaxis.cpp
@@ -344,6 +344,11 @@ Int32 CSpectrumSpectralAxis::GetIndexAtWaveLength(Float64 waveLength) const {
  * Check if spectralAxis is well rebinned in log
  */
 bool CSpectrumSpectralAxis::CheckLoglambdaSampling() const {
+  if (m_Samples.size() < 2) {
+    m_isLogSampled = false;
+    return false;
+  }
+
   Float64 logGridStep = log(m_Samples[1] / m_Samples[0]);
 
   Float64 relativelogGridStepTol =
-- 
2.43.0


From da3aad88cc5d94dd0264993b2dee0982c6a546d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:25 +0000
Subject: [PATCH 092/106] fix: wavelength lookup read an empty axis

---
 RedshiftLibrary/src/lib/spectrum/spectralaxis.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/RedshiftLibrary/src/lib/spectrum/spectralaxis.cpp b/RedshiftLibrary/src/lib/spectrum/spectralaxis.cpp
index 402d4e2..678ea58 100644
--- a/RedshiftLibrary/src/lib/spectrum/spectralaxis.cpp
+++ b/RedshiftLibrary/src/lib/spectrum/spectralaxis.cpp
@@ -325,7 +325,9 @@ TInt32Range CSpectrumSpectralAxis::GetIndexesAtWaveLengthRange(
  *
  */
 Int32 CSpectrumSpectralAxis::GetIndexAtWaveLength(Float64 waveLength) const {
-  Int32 m;
+  if (m_Samples.empty())
+    THROWG(ErrorCode::EMPTY_LIST, "spectral axis is empty");
+
   Int32 lo = 0;
   Int32 hi = GetSamplesCount() - 1;
 
-- 
2.43.0


From dc858c2aa3604863cce05bd6d04d6c23f67ffe58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:25 +0000
Subject: [PATCH 093/106] fix: enclosing interval of a range not inside the
 values read past their end

---
 RedshiftLibrary/RedshiftLibrary/common/range.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/RedshiftLibrary/RedshiftLibrary/common/range.h b/RedshiftLibrary/RedshiftLibrary/common/range.h
index b348c6c..38ce44b 100644
--- a/RedshiftLibrary/RedshiftLibrary/common/range.h
+++ b/RedshiftLibrary/RedshiftLibrary/common/range.h
@@ -302,7 +302,8 @@ public:
       THROWG(ErrorCode::EMPTY_LIST, "Input ordered values is an empty vector.");
     }
 
-    if (m_Begin < ordered_values.front() || m_End > ordered_values.back()) {
+    if (!(m_Begin >= ordered_values.front() &&
+          m_Begin <= ordered_values.back() && m_End <= ordered_values.back())) {
       THROWG(ErrorCode::CRANGE_VECTBORDERS_OUTSIDERANGE,
              Formatter() << "]" << m_Begin << "," << m_End
                          << "[ not inside ordered_values");
@@ -327,7 +328,8 @@ public:
     if (ordered_values.size() == 0) {
       THROWG(ErrorCode::EMPTY_LIST, "Input ordered values is an empty vector.");
     }
-    if (m_Begin < ordered_values.front() || m_End > ordered_values.back()) {
+    if (!(m_Begin >= ordered_values.front() &&
+          m_Begin <= ordered_values.back() && m_End <= ordered_values.back())) {
       THROWG(ErrorCode::CRANGE_VECTBORDERS_OUTSIDERANGE,
              Formatter() << "]" << m_Begin << "," << m_End
                          << "[ not inside ordered_values");
-- 
2.43.0


From 1b68845bdf591521f4ec30daafd8bb85ecf21aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:25 +0000
Subject: [PATCH 094/106] fix: flux smoothing with a negative half width read
 out of the samples

---
 RedshiftLibrary/src/lib/spectrum/fluxaxis.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/RedshiftLibrary/src/lib/spectrum/fluxaxis.cpp b/RedshiftLibrary/src/lib/spectrum/fluxaxis.cpp
index 2d7a22b..0b7222d 100644
--- a/RedshiftLibrary/src/lib/spectrum/fluxaxis.cpp
+++ b/RedshiftLibrary/src/lib/spectrum/fluxaxis.cpp
@@ -96,7 +96,7 @@ void CSpectrumFluxAxis::clear() {
 }
 
 bool CSpectrumFluxAxis::ApplyMedianSmooth(Int32 kernelHalfWidth) {
-  if (kernelHalfWidth == 0)
+  if (kernelHalfWidth <= 0)
     return false;
 
   if (GetSamplesCount() < (kernelHalfWidth) + 1)
@@ -121,7 +121,7 @@ bool CSpectrumFluxAxis::ApplyMedianSmooth(Int32 kernelHalfWidth) {
 }
 
 bool CSpectrumFluxAxis::ApplyMeanSmooth(Int32 kernelHalfWidth) {
-  if (kernelHalfWidth == 0)
+  if (kernelHalfWidth <= 0)
     return false;
 
   if (GetSamplesCount() < (kernelHalfWidth) + 1)
-- 
2.43.0


From 6a67f86262dbcf32e73174e4dc9f06fa0e25c864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:25 +0000
Subject: [PATCH 095/106] fix: linear regression in a reversed range used
 arrays of negative length

---
 RedshiftLibrary/src/lib/spectrum/spectrum.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/RedshiftLibrary/src/lib/spectrum/spectrum.cpp b/RedshiftLibrary/src/lib/spectrum/spectrum.cpp
index 4f69a81..6887d5b 100644
--- a/RedshiftLibrary/src/lib/spectrum/spectrum.cpp
+++ b/RedshiftLibrary/src/lib/spectrum/spectrum.cpp
@@ -405,6 +405,8 @@ bool CSpectrum::GetLinearRegInRange(TFloat64Range wlRange, Float64 &a,
 
   TInt32Range iRange = m_SpectralAxis.GetIndexesAtWaveLengthRange(wlRange);
   Int32 n = iRange.GetLength() + 1;
+  if (n < 1)
+    return false;
   Float64 x[n];
   Float64 y[n];
   Float64 w[n];
-- 
2.43.0


From 77231f16f723c487cd8f9d07623c0875f113780d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:25 +0000
Subject: [PATCH 096/106] fix: Calzetti correction read past the end of a table
 with less than two wavelengths or with missing values

---
 RedshiftLibrary/src/lib/spectrum/fluxcorrectioncalzetti.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/RedshiftLibrary/src/lib/spectrum/fluxcorrectioncalzetti.cpp b/RedshiftLibrary/src/lib/spectrum/fluxcorrectioncalzetti.cpp
index 6b248b7..489692a 100644
--- a/RedshiftLibrary/src/lib/spectrum/fluxcorrectioncalzetti.cpp
+++ b/RedshiftLibrary/src/lib/spectrum/fluxcorrectioncalzetti.cpp
@@ -44,6 +44,9 @@ using namespace NSEpic;
 CalzettiCorrection::CalzettiCorrection(TFloat64List _lbda,
                                        TFloat64List _fluxcorr)
     : lbda(_lbda), fluxcorr(_fluxcorr) {
+  if (lbda.size() < 2 || lbda.size() != fluxcorr.size())
+    THROWG(ErrorCode::BAD_CALZETTICORR,
+           "invalid number of lambdas or of corrections");
   Float64 lbdaGridStep = lbda[1] - lbda[0];
   Float64 relativeLbdaGridStepTol = 1e-8;
   for (std::size_t t = 2; t < lbda.size(); t++) {
-- 
2.43.0


From 8b5527f4900c3d6e6f37b4d081b0861b49ba4866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:25 +0000
Subject: [PATCH 097/106] fix: integration ranges without candidates read an
 empty list

---
 RedshiftLibrary/src/lib/statistics/pdfcandidatesz.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/RedshiftLibrary/src/lib/statistics/pdfcandidatesz.cpp b/RedshiftLibrary/src/lib/statistics/pdfcandidatesz.cpp
index ba29661..6fd27c4 100644
--- a/RedshiftLibrary/src/lib/statistics/pdfcandidatesz.cpp
+++ b/RedshiftLibrary/src/lib/statistics/pdfcandidatesz.cpp
@@ -112,8 +112,8 @@ CPdfCandidatesZ::SetIntegrationRanges(const TFloat64Range PdfZRange,
   // trim overlapping ranges
   TStringList duplicates = {};
   // candidates compared so far and not removed, the last one being the closest
-  TStringList keptKeys = {candidatesKeys.front()};
-  for (auto candidateKey = candidatesKeys.begin() + 1;
+  TStringList keptKeys = {};
+  for (auto candidateKey = candidatesKeys.begin();
        candidateKey != candidatesKeys.end();) {
     if (keptKeys.empty()) {
       keptKeys.push_back(*candidateKey++);
-- 
2.43.0


From dd957d0d2c4746963213cf5b5dced0f2e9aac154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:25 +0000
Subject: [PATCH 098/106] fix: separation check of an empty list of peaks read
 out of the list

---
 RedshiftLibrary/src/lib/extremum/extremum.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RedshiftLibrary/src/lib/extremum/extremum.cpp b/RedshiftLibrary/src/lib/extremum/extremum.cpp
index 6e57a91..ba57842 100644
--- a/RedshiftLibrary/src/lib/extremum/extremum.cpp
+++ b/RedshiftLibrary/src/lib/extremum/extremum.cpp
@@ -138,7 +138,7 @@ TPointList CExtremum::Find(const TFloat64List &xAxis, const TFloat64List &yAxis,
 void CExtremum::assertPeakSeparation(TFloat64List &maxX) const {
 
   std::sort(maxX.begin(), maxX.end());
-  for (Int32 i = 0; i < maxX.size() - 1; i++) {
+  for (Int32 i = 0; i + 1 < maxX.size(); i++) {
     TFloat64Range windowh(
         maxX[i + 1] - m_extrema_separation / 2 * (1 + maxX[i + 1]),
         maxX[i + 1] + m_extrema_separation / 2 * (1 + maxX[i + 1]));
-- 
2.43.0


From 05d7b5d942be52995503c62f8c698b263db09cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:25 +0000
Subject: [PATCH 099/106] fix: photometric band without samples read an empty
 list

---
 RedshiftLibrary/src/lib/photometry/photometricband.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/RedshiftLibrary/src/lib/photometry/photometricband.cpp b/RedshiftLibrary/src/lib/photometry/photometricband.cpp
index c5b384a..241f5bb 100644
--- a/RedshiftLibrary/src/lib/photometry/photometricband.cpp
+++ b/RedshiftLibrary/src/lib/photometry/photometricband.cpp
@@ -55,6 +55,9 @@ CPhotometricBand::CPhotometricBand(TFloat64List trans, TFloat64List lambda)
                                       "wavelength have not the same size");
   }
 
+  if (m_lambda.empty())
+    THROWG(ErrorCode::EMPTY_LIST, "photometric band is empty");
+
   // initialize min lambda
   m_minLambda = *std::min_element(m_lambda.cbegin(), m_lambda.cend());
 
-- 
2.43.0


From 64456134c4f2f4e200039af17e7afb19e9e8eb34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:25 +0000
Subject: [PATCH 100/106] fix: peak detection with a window smaller than the
 sampling used an empty window

---
 RedshiftLibrary/src/lib/operator/peakdetection.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/RedshiftLibrary/src/lib/operator/peakdetection.cpp b/RedshiftLibrary/src/lib/operator/peakdetection.cpp
index 89be03d..6b999d0 100644
--- a/RedshiftLibrary/src/lib/operator/peakdetection.cpp
+++ b/RedshiftLibrary/src/lib/operator/peakdetection.cpp
@@ -203,6 +203,7 @@ void CPeakDetection::FindPossiblePeaks(
                                   spectralAxis[i] - m_winsize / 2.0));
     Int32 stop = std::min(s, spectralAxis.GetIndexAtWaveLength(
                                  spectralAxis[i] + m_winsize / 2.0));
+    stop = std::max(stop, start + 1);
 
     med[i] = medianFilter.Find(fluxVector.begin() + start,
                                fluxVector.begin() + stop);
-- 
2.43.0


From 573d84d768c5e21ac0874729693e58b4d53f27af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:34 +0000
Subject: [PATCH 101/106] fix: rebinning from or to a single sample read before
 its wavelength

---
 RedshiftLibrary/src/lib/spectrum/rebin/rebin.cpp    | 2 +-
 RedshiftLibrary/src/lib/spectrum/rebin/rebinNgp.cpp | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/RedshiftLibrary/src/lib/spectrum/rebin/rebin.cpp b/RedshiftLibrary/src/lib/spectrum/rebin/rebin.cpp
index 3d96da3..a15ff05 100644
--- a/RedshiftLibrary/src/lib/spectrum/rebin/rebin.cpp
+++ b/RedshiftLibrary/src/lib/spectrum/rebin/rebin.cpp
@@ -105,7 +105,7 @@ Float64 CRebin::computeXStepCompensation(
   if (cursor < targetSpectralAxis.GetSamplesCount() - 1) {
     xDestStep = Xtgt[cursor + 1] - Xtgt[cursor];
     xStepCompensation = xSrcStep / xDestStep;
-  } else {
+  } else if (cursor > 0) {
     xDestStep = Xtgt[cursor] - Xtgt[cursor - 1];
     xStepCompensation = xSrcStep / xDestStep;
   }
diff --git a/RedshiftLibrary/src/lib/spectrum/rebin/rebinNgp.cpp b/RedshiftLibrary/src/lib/spectrum/rebin/rebinNgp.cpp
index 4a6fa76..b82aaf1 100644
--- a/RedshiftLibrary/src/lib/spectrum/rebin/rebinNgp.cpp
+++ b/RedshiftLibrary/src/lib/spectrum/rebin/rebinNgp.cpp
@@ -64,7 +64,9 @@ void CRebinNgp::rebin(CSpectrumFluxAxis &rebinedFluxAxis,
     // n);
     k = CIndexing<Float64>::getCloserIndex(Xsrc, Xtgt[cursor]);
     Float64 xSrcStep = NAN;
-    if (k == Xsrc.size() - 1)
+    if (Xsrc.size() < 2)
+      xSrcStep = NAN;
+    else if (k == Xsrc.size() - 1)
       xSrcStep = Xsrc[k] - Xsrc[k - 1];
     else
       xSrcStep = Xsrc[k + 1] - Xsrc[k];
-- 
2.43.0


From ffbc6bb96a6c572dd9cb1270467a3ef7c35ac629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:27 +0000
Subject: [PATCH 102/106] fix: template without IGM curve for the redshift read
 a curve out of the table when used after the error

---
 RedshiftLibrary/src/lib/spectrum/template/template.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/RedshiftLibrary/src/lib/spectrum/template/template.cpp b/RedshiftLibrary/src/lib/spectrum/template/template.cpp
index 81a4cf3..98c34e3 100644
--- a/RedshiftLibrary/src/lib/spectrum/template/template.cpp
+++ b/RedshiftLibrary/src/lib/spectrum/template/template.cpp
@@ -341,13 +341,16 @@ void CTemplate::InitIsmIgmConfig(
     // get last index in spectral axis where igm can be applied
     m_Igm_kend = GetIgmEndIndex(m_IsmIgm_kstart, m_Ism_kend);
 
-    if (m_meiksinRedshiftIdx == undefIdx && m_Igm_kend != undefIdx)
+    if (m_meiksinRedshiftIdx == undefIdx && m_Igm_kend != undefIdx) {
+      Int32 const Igm_kend = m_Igm_kend;
+      m_Igm_kend = undefIdx; // no igm extinction to apply
       THROWG(ErrorCode::INTERNAL_ERROR,
              Formatter() << "CTemplate::InitIsmIgmConfig: missing "
                             "igm extinction curve for redshift z="
                          << redshift << " and wavelength range =["
                          << m_SpectralAxis[m_IsmIgm_kstart] << " ; "
-                         << m_SpectralAxis[m_Igm_kend] << "]");
+                         << m_SpectralAxis[Igm_kend] << "]");
+    }
   }
 
   if (m_NoIsmIgmFluxAxis.isEmpty()) // initialize when called for the first time
-- 
2.43.0


From 5aa3069386c68d3818e4bc35c10770d09f355c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:30 +0000
Subject: [PATCH 103/106] fix: median continuum of a single sample converted an
 infinite width to an integer

---
 RedshiftLibrary/src/lib/continuum/irregularsamplingmedian.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/RedshiftLibrary/src/lib/continuum/irregularsamplingmedian.cpp b/RedshiftLibrary/src/lib/continuum/irregularsamplingmedian.cpp
index b6edea0..17c4775 100644
--- a/RedshiftLibrary/src/lib/continuum/irregularsamplingmedian.cpp
+++ b/RedshiftLibrary/src/lib/continuum/irregularsamplingmedian.cpp
@@ -273,6 +273,10 @@ bool CContinuumIrregularSamplingMedian::ProcessRemoveContinuum(
 
   Int32 norig = s.GetSampleCount();
 
+  // no resolution with less than two samples
+  if (!(resolution > 0.))
+    return false;
+
   Int32 meanSmoothAmplitude = round(m_MeanSmoothAmplitude / resolution);
 
   // set default
-- 
2.43.0


From 2c49e205367b3f5c761756a81f22a461c2ad771f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:52:20 +0000
Subject: [PATCH 104/106] fix: templates of a directory shared by several
 objects were loaded once per object

---
 pylibamazed/python/pylibamazed/CalibrationLibrary.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pylibamazed/python/pylibamazed/CalibrationLibrary.py b/pylibamazed/python/pylibamazed/CalibrationLibrary.py
index ed0ef2a..612a5bc 100644
--- a/pylibamazed/python/pylibamazed/CalibrationLibrary.py
+++ b/pylibamazed/python/pylibamazed/CalibrationLibrary.py
@@ -157,7 +157,7 @@ class CalibrationLibrary:
         self.reliability_models = {}
         self.reliability_parameters = dict()
 
-    def _load_templates(self, object_type, path):
+    def _load_templates(self, object_type, path, categories=None):
         """
         Load a template catalog from a directory
         Notes
@@ -170,12 +170,15 @@ class CalibrationLibrary:
         :type object_type: str
         :param path: path of the directory containing templates
         :type path: str
+        :param categories: categories to load, all those of the directory by default
+        :type categories: list
         """
 
         full_path = os.path.join(self.calibration_dir, path)
         # Template directory contains category directories
-        categories = os.listdir(full_path)
-        if not categories:
+        found = os.listdir(full_path)
+        categories = found if categories is None else [c for c in found if c in categories]
+        if not found:
             raise APIException(ErrorCode.INVALID_DIRECTORY,
                                "No template category directory found in {}".format(full_path))
         for category in categories:
@@ -213,7 +216,8 @@ class CalibrationLibrary:
         # Temporary hack before handling process flow in api
         if "all" not in self.templates_catalogs:
             self.templates_catalogs["all"] = CTemplateCatalog()
-        self._load_templates("all", template_dir)
+        # each object is fitted with its own category only
+        self._load_templates("all", template_dir, [object_type])
 
     def load_linecatalog(self, object_type, solve_method):
         line_catalog_file = os.path.join(
-- 
2.43.0


From 13a438eca3c450a4f48bd9aae9907596e4104ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:52:20 +0000
Subject: [PATCH 105/106] fix: line catalogue with numeric velocity groups only
 was refused

---
 pylibamazed/python/pylibamazed/CalibrationLibrary.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pylibamazed/python/pylibamazed/CalibrationLibrary.py b/pylibamazed/python/pylibamazed/CalibrationLibrary.py
index 612a5bc..9d494d1 100644
--- a/pylibamazed/python/pylibamazed/CalibrationLibrary.py
+++ b/pylibamazed/python/pylibamazed/CalibrationLibrary.py
@@ -236,7 +236,8 @@ class CalibrationLibrary:
                 line_catalog_file,
                 sep='\t',
                 dtype={"WaveLength": float, "AmplitudeGroupName": str, "EnableFitWaveLengthOffset": bool,
-                       "Name": str, "Type": str, "NominalAmplitude": float
+                       "Name": str, "Type": str, "NominalAmplitude": float,
+                       "DispersionVelocityGroupName": str
                        }
             )
         except pd.errors.ParserError as e:
-- 
2.43.0


From b1611ffacf1dc1a2c25808427af332a8473b5d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:14:48 +0000
Subject: [PATCH 106/106] fix: cumulated SNR of the emission lines counted
 overlapping lines twice when the ranges merged out of order

---
 RedshiftLibrary/src/lib/linemodel/linemodelfitting.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/RedshiftLibrary/src/lib/linemodel/linemodelfitting.cpp b/RedshiftLibrary/src/lib/linemodel/linemodelfitting.cpp
index b647407..f9dbe36 100644
--- a/RedshiftLibrary/src/lib/linemodel/linemodelfitting.cpp
+++ b/RedshiftLibrary/src/lib/linemodel/linemodelfitting.cpp
@@ -663,6 +663,7 @@ std::pair<Float64, Float64> CLineModelFitting::getCumulSNRStrongEL() const {
         support.SetBegin(std::min(xinf, yinf));
         support.SetEnd(std::max(xsup, ysup));
         isStrongList[k] = isStrongList[k] || isStrongList[l];
+        l = k; // the extended range may overlap a range already skipped
       }
     }
 
-- 
2.43.0

