From dcf80337e67fb5fcf7514c161fb2db6c3eef5370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:05 +0000
Subject: [PATCH 01/44] fix: 3D image functions set a shared integrand's
 parameter pointer from several threads at once

---
 function_objects/func_bpbar3d.cpp          | 6 ++++--
 function_objects/func_brokenexpdisk3d.cpp  | 6 ++++--
 function_objects/func_expdisk3d.cpp        | 6 ++++--
 function_objects/func_ferrersbar3d.cpp     | 6 ++++--
 function_objects/func_gaussianring3d.cpp   | 6 ++++--
 function_objects/func_peanut_dattathri.cpp | 6 ++++--
 function_objects/func_triaxbar3d.cpp       | 6 ++++--
 7 files changed, 28 insertions(+), 14 deletions(-)

diff --git a/function_objects/func_bpbar3d.cpp b/function_objects/func_bpbar3d.cpp
index 2cd148c..c1820a1 100644
--- a/function_objects/func_bpbar3d.cpp
+++ b/function_objects/func_bpbar3d.cpp
@@ -244,11 +244,13 @@ double BPBar3D::GetValue( double x, double y )
   xyParameters[17] = z_bp_max;
   xyParameters[18] = h_bp;
   xyParameters[19] = twosigma_squared;
-  F.params = xyParameters;
+  // use a local copy of F: GetValue() is called simultaneously by multiple threads
+  gsl_function  integrand = F;
+  integrand.params = xyParameters;
 
   // printf("Calling Integrate...\n");
   // integrate out to +/- integLimit
-  totalIntensity = Integrate(F, -integrationLimit, integrationLimit);
+  totalIntensity = Integrate(integrand, -integrationLimit, integrationLimit);
   // printf("Done.\n");
 
   return totalIntensity;
diff --git a/function_objects/func_brokenexpdisk3d.cpp b/function_objects/func_brokenexpdisk3d.cpp
index 7a99cbf..5e0cc99 100644
--- a/function_objects/func_brokenexpdisk3d.cpp
+++ b/function_objects/func_brokenexpdisk3d.cpp
@@ -201,7 +201,9 @@ double BrokenExponentialDisk3D::GetValue( double x, double y )
   xyParameters[13] = scaledZ0;
   xyParameters[14] = two_to_alpha;
   xyParameters[15] = alphaVert;
-  F.params = xyParameters;
+  // use a local copy of F: GetValue() is called simultaneously by multiple threads
+  gsl_function  integrand = F;
+  integrand.params = xyParameters;
 
   // integrate out to +/- integLimit, which is larger of (multiple of break radius)
   // and (multiple of h2)
@@ -209,7 +211,7 @@ double BrokenExponentialDisk3D::GetValue( double x, double y )
   // Setup() call above; for some reason doing it that way makes the whole thing
   // take ~ 4 times longer!)
   integLimit = fmax(INTEGRATION_MULTIPLIER * r_b, INTEGRATION_MULTIPLIER * h2);
-  totalIntensity = Integrate(F, -integLimit, integLimit);
+  totalIntensity = Integrate(integrand, -integLimit, integLimit);
 
   return totalIntensity;
 }
diff --git a/function_objects/func_expdisk3d.cpp b/function_objects/func_expdisk3d.cpp
index 8cf2254..85f41c3 100644
--- a/function_objects/func_expdisk3d.cpp
+++ b/function_objects/func_expdisk3d.cpp
@@ -206,14 +206,16 @@ double ExponentialDisk3D::GetValue( double x, double y )
   xyParameters[8] = scaledZ0;
   xyParameters[9] = two_to_alpha;
   xyParameters[10] = alpha;
-  F.params = xyParameters;
+  // use a local copy of F: GetValue() is called simultaneously by multiple threads
+  gsl_function  integrand = F;
+  integrand.params = xyParameters;
 
   // integrate out to +/- integLimit, which is multiple of exp. scale length
   // (NOTE: it seems like it would be faster to precalculate integLimit in the
   // Setup() call above; for some reason doing it that way makes the whole thing
   // take ~ 4 times longer!)
   integLimit = INTEGRATION_MULTIPLIER * h;
-  totalIntensity = Integrate(F, -integLimit, integLimit);
+  totalIntensity = Integrate(integrand, -integLimit, integLimit);
 
   return totalIntensity;
 }
diff --git a/function_objects/func_ferrersbar3d.cpp b/function_objects/func_ferrersbar3d.cpp
index a08dd69..24528de 100644
--- a/function_objects/func_ferrersbar3d.cpp
+++ b/function_objects/func_ferrersbar3d.cpp
@@ -201,14 +201,16 @@ double FerrersBar3D::GetValue( double x, double y )
   xyParameters[9] = b2;
   xyParameters[10] = c2;
   xyParameters[11] = n;
-  F.params = xyParameters;
+  // use a local copy of F: GetValue() is called simultaneously by multiple threads
+  gsl_function  integrand = F;
+  integrand.params = xyParameters;
 
   // [] NOTE: ideally, we should compute the integration limits directly, given
   // the known orientation of the ellipsoid, as the inner and outer boundaries of
   // the ellipsoid along the current line of sight; this would be superior to our current
   // -number,+number integration...
   // integrate out to +/- integLimit
-  totalIntensity = Integrate(F, -integrationLimit, integrationLimit);
+  totalIntensity = Integrate(integrand, -integrationLimit, integrationLimit);
 
   return totalIntensity;
 }
diff --git a/function_objects/func_gaussianring3d.cpp b/function_objects/func_gaussianring3d.cpp
index 4385054..74aa587 100644
--- a/function_objects/func_gaussianring3d.cpp
+++ b/function_objects/func_gaussianring3d.cpp
@@ -199,11 +199,13 @@ double GaussianRing3D::GetValue( double x, double y )
   xyParameters[9] = a_ring;
   xyParameters[10] = h_z;
   xyParameters[11] = twosigma_squared;
-  F.params = xyParameters;
+  // use a local copy of F: GetValue() is called simultaneously by multiple threads
+  gsl_function  integrand = F;
+  integrand.params = xyParameters;
 
   // integrate out to +/- integLimit, which is multiple of ring radius
   integLimit = INTEGRATION_MULTIPLIER * a_ring;
-  totalIntensity = Integrate(F, -integLimit, integLimit);
+  totalIntensity = Integrate(integrand, -integLimit, integLimit);
 
   return totalIntensity;
 }
diff --git a/function_objects/func_peanut_dattathri.cpp b/function_objects/func_peanut_dattathri.cpp
index dfbf22e..d1eaa4e 100644
--- a/function_objects/func_peanut_dattathri.cpp
+++ b/function_objects/func_peanut_dattathri.cpp
@@ -196,14 +196,16 @@ double DattathriPeanut3D::GetValue( double x, double y )
   xyParameters[13] = sinInc;
   xyParameters[14] = cosPsi;
   xyParameters[15] = sinPsi;
-  F.params = xyParameters;
+  // use a local copy of F: GetValue() is called simultaneously by multiple threads
+  gsl_function  integrand = F;
+  integrand.params = xyParameters;
 
   // integrate out to +/- integLimit, which is multiple of exp. scale length
   // (NOTE: it seems like it would be faster to precalculate integLimit in the
   // Setup() call above; for some reason doing it that way makes the whole thing
   // take ~ 4 times longer!)
   integLimit = INTEGRATION_MULTIPLIER * R_bar_x;
-  totalIntensity = Integrate(F, -integLimit, integLimit);
+  totalIntensity = Integrate(integrand, -integLimit, integLimit);
 
   return totalIntensity;
 }
diff --git a/function_objects/func_triaxbar3d.cpp b/function_objects/func_triaxbar3d.cpp
index 3f06d1d..e1ab9ae 100644
--- a/function_objects/func_triaxbar3d.cpp
+++ b/function_objects/func_triaxbar3d.cpp
@@ -164,7 +164,9 @@ double TriaxBar3D::GetValue( double x, double y )
   xyParameters[8] = q;
   xyParameters[9] = q_z;
   xyParameters[10] = twosigma_squared;
-  F.params = xyParameters;
+  // use a local copy of F: GetValue() is called simultaneously by multiple threads
+  gsl_function  integrand = F;
+  integrand.params = xyParameters;
 
   // [] NOTE: ideally, we should compute the integration limits directly, given
   // the known orientation of the ellipsoid, as the inner and outer boundaries of
@@ -173,7 +175,7 @@ double TriaxBar3D::GetValue( double x, double y )
 
   // integrate out to +/- integLimit, which is multiple of Gaussian sigma^2
   integLimit = INTEGRATION_MULTIPLIER * twosigma_squared;
-  totalIntensity = Integrate(F, -integLimit, integLimit);
+  totalIntensity = Integrate(integrand, -integLimit, integLimit);
 
   return totalIntensity;
 }
-- 
2.43.0


From 84dc01eb3c023088127c1ecd345063db6c5ce3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:12 +0000
Subject: [PATCH 02/44] fix: use row count of oversampled image when
 downsampling non-square regions

---
 core/downsample.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/downsample.cpp b/core/downsample.cpp
index b8c5fc5..b622f03 100644
--- a/core/downsample.cpp
+++ b/core/downsample.cpp
@@ -76,7 +76,7 @@ void DownsampleAndReplace( const double *oversampledImage, int nOversampCols,
   i1 = startY - 1 + nMainPSFRows;
   // get number of columns and rows in sub-region of main image
   nCols_subregion = (int)((nOversampCols - 2*nOversampPSFCols)/oversampleScale);
-  nRows_subregion = (int)((nOversampCols - 2*nOversampPSFRows)/oversampleScale);
+  nRows_subregion = (int)((nOversampRows - 2*nOversampPSFRows)/oversampleScale);
   oversampleArea = oversampleScale*oversampleScale;
 
   // iterate over sub-region within main image [i,j = indices for main image]
-- 
2.43.0


From 0ecc31d5d79c228039138ebdde2f4b6347293baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:38 +0000
Subject: [PATCH 03/44] fix: pass the user's RNG seed to NLopt, so that PRAXIS
 fits are repeatable

---
 solvers/dispatch_solver.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/solvers/dispatch_solver.cpp b/solvers/dispatch_solver.cpp
index 04c9f30..a4fe559 100644
--- a/solvers/dispatch_solver.cpp
+++ b/solvers/dispatch_solver.cpp
@@ -43,6 +43,7 @@
 #ifndef NO_NLOPT
 #include "nmsimplex_fit.h"
 #include "nlopt_fit.h"
+#include <nlopt.h>
 #endif
 
 int DispatchToSolver( int solverID, int nParametersTot, int nFreeParameters, int nPixelsTot,
@@ -77,6 +78,10 @@ int DispatchToSolver( int solverID, int nParametersTot, int nFreeParameters, int
     case GENERIC_NLOPT_SOLVER:
       if (verboseLevel >= 0)
         printf("\nCalling NLOpt solver %s ..\n", solverName.c_str());
+      // some NLOpt algorithms (e.g., PRAXIS) use random numbers, which are seeded
+      // from the system clock unless we specify a seed
+      if (rngSeed > 0)
+        nlopt_srand(rngSeed);
       fitStatus = NLOptFit(nParametersTot, parameters, parameterInfo, modelObj, fracTolerance, 
       						verboseLevel, solverName, solverResults);
       break;
-- 
2.43.0


From 5c740097f51a73ed21870cbad137005238c5b84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:38 +0000
Subject: [PATCH 04/44] fix: use the user's RNG seed for Latin hypercube
 sampling in DE solver

---
 solvers/DESolver.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/solvers/DESolver.cpp b/solvers/DESolver.cpp
index 6f2efdb..838a155 100644
--- a/solvers/DESolver.cpp
+++ b/solvers/DESolver.cpp
@@ -118,8 +118,14 @@ void DESolver::Setup( double *min, double *max, int deStrategy, double diffScale
     double  intervalSize, p;
     // prep Latin hypercube sampling --> sampleIndices
     vector< vector<int> >  sampleIndices;   // [nDim][nPop]
-    random_device rd;
-    mt19937 g(rd());
+    // use the same seed as for the other random numbers, if user specified one
+    mt19937 g;
+    if (rngSeed > 0)
+      g.seed(rngSeed);
+    else {
+      random_device rd;
+      g.seed(rd());
+    }
     vector<int> singleParamSampleIndices(nPop);
   
     // set up the shuffled indices
-- 
2.43.0


From b602dbae621689c6bd68cfd31b48dac3db7bc198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:38 +0000
Subject: [PATCH 05/44] fix: bootstrap summary uses full-image coordinates and
 number of successful iterations; model leaves bootstrap mode afterwards

---
 core/bootstrap_errors.cpp       | 36 +++++++++++++++++++--------------
 core/model_object.cpp           | 10 +++++++++
 core/model_object.h             |  2 ++
 core/model_object_multimage.cpp | 10 +++++++++
 core/model_object_multimage.h   |  2 ++
 5 files changed, 45 insertions(+), 15 deletions(-)

diff --git a/core/bootstrap_errors.cpp b/core/bootstrap_errors.cpp
index 008e70a..9d47ca5 100644
--- a/core/bootstrap_errors.cpp
+++ b/core/bootstrap_errors.cpp
@@ -88,8 +88,8 @@ int BootstrapErrors( const double *bestfitParams, vector<mp_par> parameterLimits
 					const int nIterations, const int nFreeParams, const int whichStatistic, 
 					FILE *outputFile_ptr, unsigned long rngSeed, bool multimfitMode )
 {
-  double  *paramSigmas;
   double **outputParamArray;
+  double  *paramOffsets, *bestfitParams_offsetCorrected;
 //   double  lower, upper, plus, minus, halfwidth;
   int  i, nSuccessfulIterations;
   int  nParams = theModel->GetNParams();
@@ -104,8 +104,8 @@ int BootstrapErrors( const double *bestfitParams, vector<mp_par> parameterLimits
   for (i = 0; i < nParams; i++)
     outputParamArray[i] = (double *)calloc( (size_t)nIterations, sizeof(double) );
 
-//   paramOffsets = (double *) calloc(nParams, sizeof(double));
-//   bestfitParams_offsetCorrected = (double *) calloc(nParams, sizeof(double));
+  paramOffsets = (double *) calloc(nParams, sizeof(double));
+  bestfitParams_offsetCorrected = (double *) calloc(nParams, sizeof(double));
   
   // write column header info to file, if user requested saving to file
   if (outputFile_ptr != nullptr) {
@@ -125,25 +125,25 @@ int BootstrapErrors( const double *bestfitParams, vector<mp_par> parameterLimits
   else {
     // Apply image-offset corrections to best-fit parameters, so their values
     // get printed corrected
-//     theModel->GetImageOffsets(paramOffsets);
-//     for (i = 0; i < nParams; i++)
-//       bestfitParams_offsetCorrected[i] = bestfitParams[i] + paramOffsets[i];
+    theModel->GetImageOffsets(paramOffsets);
+    for (i = 0; i < nParams; i++)
+      bestfitParams_offsetCorrected[i] = bestfitParams[i] + paramOffsets[i];
     
     // Calculate sigmas and 68% confidence intervals for the parameters
     // vector to hold estimated sigmas for each parameter
     if (multimfitMode)
-      PrintBootstrapSummaryMultimfit(bestfitParams, outputParamArray, nParams, nIterations, 
-    								parameterLimits, theModel);
+      PrintBootstrapSummaryMultimfit(bestfitParams_offsetCorrected, outputParamArray, nParams, 
+    								nSuccessfulIterations, parameterLimits, theModel);
     else
-      PrintBootstrapSummary(bestfitParams, outputParamArray, nParams, nIterations, 
-    						parameterLimits, theModel);
+      PrintBootstrapSummary(bestfitParams_offsetCorrected, outputParamArray, nParams, 
+    						nSuccessfulIterations, parameterLimits, theModel);
   }
 
   for (i = 0; i < nParams; i++)
     free(outputParamArray[i]);
   free(outputParamArray);
-//   free(paramOffsets);
-//   free(bestfitParams_offsetCorrected);
+  free(paramOffsets);
+  free(bestfitParams_offsetCorrected);
 
   return nSuccessfulIterations;
 }
@@ -243,6 +243,9 @@ int BootstrapErrorsBase( const double *bestfitParams, vector<mp_par> parameterLi
   printf("\n");
 
  
+  // tell model to use original (non-resampled) data from now on
+  theModel->StopBootstrap();
+
   free(paramsVect);
   free(paramOffsets);
 
@@ -329,6 +332,9 @@ int BootstrapErrorsArrayOnly( const double *bestfitParams, vector<mp_par> parame
   if (verboseFlag)
     printf("\n");
 
+  // tell model to use original (non-resampled) data from now on
+  theModel->StopBootstrap();
+
   free(paramsVect);
   free(paramOffsets);
 
@@ -402,18 +408,18 @@ void PrintBootstrapSummaryMultimfit( const double *bestfitParams, double **outpu
         plus = upper - bestfitParams[i];
         minus = bestfitParams[i] - lower;
         halfwidth = (upper - lower)/2.0;
-        printf("%s = %g  +%g, -%g    [%g -- %g, %g];  (%g +/- %g)\n", imageParamLabels[i].c_str(),
+        printf("%s = %g  +%g, -%g    [%g -- %g, %g];  (%g +/- %g)\n", imageParamLabels[j].c_str(),
       	       	bestfitParams[i], plus, minus, lower, upper, halfwidth,
         		Mean(outputParamArray[i], nIterations), paramSigmas[i]);
       }
       else
-        printf("%s = %g     [fixed parameter]\n", imageParamLabels[i].c_str(),
+        printf("%s = %g     [fixed parameter]\n", imageParamLabels[j].c_str(),
         		bestfitParams[i]);
     }
   }
   
   // now print results for model parameters
-  i_last = i;
+  i_last = i + 1;
   printf("# Model parameters:\n");
   for (i = i_last; i < nParams; i++) {
     if (parameterLimits[i].fixed == 0) {
diff --git a/core/model_object.cpp b/core/model_object.cpp
index 3c022eb..644413d 100644
--- a/core/model_object.cpp
+++ b/core/model_object.cpp
@@ -2087,6 +2087,16 @@ int ModelObject::MakeBootstrapSample( )
 }
 
 
+/* ---------------- PUBLIC METHOD: StopBootstrap ----------------------- */
+/// Tells ModelObject object that bootstrap resampling is finished, so that subsequent
+/// fit-statistic calculations use the original data instead of the last bootstrap sample.
+void ModelObject::StopBootstrap( )
+{
+  doBootstrap = false;
+}
+
+
+
 
 
 /* ---------------- PUBLIC METHOD: PrintImage ------------------------- */
diff --git a/core/model_object.h b/core/model_object.h
index 7b81eac..6bfeac8 100644
--- a/core/model_object.h
+++ b/core/model_object.h
@@ -259,6 +259,8 @@ class ModelObject
     virtual int UseBootstrap( );
     
     virtual int MakeBootstrapSample( );
+
+    virtual void StopBootstrap( );
     
     // [x] 2D only (used in model_object_multimage.cpp)
     void GetDataImageDimensions( int *nColumns, int *nRows );
diff --git a/core/model_object_multimage.cpp b/core/model_object_multimage.cpp
index ea0147e..17e6c4b 100644
--- a/core/model_object_multimage.cpp
+++ b/core/model_object_multimage.cpp
@@ -762,4 +762,14 @@ int ModelObjectMultImage::MakeBootstrapSample( )
 
 
 
+/* ---------------- PUBLIC METHOD: StopBootstrap ----------------------- */
+/// This (overridden) version simply calls the StopBootstrap() method on each 
+/// of the ModelObject instances in modelObjectsVect.
+void ModelObjectMultImage::StopBootstrap( )
+{
+  for (int i = 0; i < nModelObjects; i++)
+    modelObjectsVect[i]->StopBootstrap();
+}
+
+
 /* END OF FILE: model_object_multimage.cpp ----------------------------- */
diff --git a/core/model_object_multimage.h b/core/model_object_multimage.h
index 19de69c..d86b57d 100644
--- a/core/model_object_multimage.h
+++ b/core/model_object_multimage.h
@@ -96,6 +96,8 @@ class ModelObjectMultImage : public ModelObject
     
     int MakeBootstrapSample( ) override;
 
+    void StopBootstrap( ) override;
+
     string PrintModelParamsHorizontalString( const double params[], 
     											const string& separator="\t" ) override;
 
-- 
2.43.0


From 7f0bb0778d0b9b2f35a696f46dcc25a77f33bba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:38 +0000
Subject: [PATCH 06/44] fix: initialise fit-statistic options in OptionsBase
 (multimfit left them undefined)

---
 core/options_base.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/options_base.h b/core/options_base.h
index 259ffd3..93acbcf 100644
--- a/core/options_base.h
+++ b/core/options_base.h
@@ -68,6 +68,9 @@ class OptionsBase
 
       printFitStatisticOnly = false;
       solver = MPFIT_SOLVER;
+      useModelForErrors = false;
+      useCashStatistic = false;
+      usePoissonMLR = false;
 
       subsamplingFlag = true;
 
-- 
2.43.0


From 4a8dd82e4be36de754004c7c552d902e03198f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:38 +0000
Subject: [PATCH 07/44] fix: image-info parser reported undefined line numbers
 and left perImageParamLimitsExist unset

---
 core/definitions_multimage.h     | 1 +
 core/imageparams_file_parser.cpp | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/definitions_multimage.h b/core/definitions_multimage.h
index f541799..0a5603d 100644
--- a/core/definitions_multimage.h
+++ b/core/definitions_multimage.h
@@ -69,6 +69,7 @@ class ImageInfo
       bzero(&y0_limitInfo, sizeof(mp_par));
       
       perImageFunctionsExist = false;
+      perImageParamLimitsExist = false;
     }
     
     string  dataImageFileName;
diff --git a/core/imageparams_file_parser.cpp b/core/imageparams_file_parser.cpp
index b180a3b..2873626 100644
--- a/core/imageparams_file_parser.cpp
+++ b/core/imageparams_file_parser.cpp
@@ -583,7 +583,7 @@ int ReadImageParamsFile( const string& configFileName, int& nImages,
     // store non-empty, non-comment lines in a vector of strings
     if ((inputLine.size() > 0) && (inputLine[0] != '#')) {
       inputLines.push_back(inputLine);
-      origLineNumbers.push_back(k);
+      origLineNumbers.push_back(currentLine);
     }
   }
   inputFileStream.close();
-- 
2.43.0


From 3abca08e5bacb5a66d83b677aa7db44e0ff1b4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:06 +0000
Subject: [PATCH 08/44] fix: multimfit bootstrap wrote deviates of masked
 images past the end of the deviates vector

---
 core/model_object_multimage.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/core/model_object_multimage.cpp b/core/model_object_multimage.cpp
index 17e6c4b..c7e6932 100644
--- a/core/model_object_multimage.cpp
+++ b/core/model_object_multimage.cpp
@@ -436,7 +436,11 @@ void ModelObjectMultImage::ComputeDeviates( double yResults[], double params[] )
 
     modelObjectsVect[i]->ComputeDeviates(yResults + startIndex, 
     									paramsForModelObjects[i]);
-    startIndex += modelObjectsVect[i]->GetNDataValues();
+    // in bootstrap mode, ModelObject instances only return deviates for valid pixels
+    if (doBootstrap)
+      startIndex += modelObjectsVect[i]->GetNValidPixels();
+    else
+      startIndex += modelObjectsVect[i]->GetNDataValues();
   }
 }
 
@@ -729,6 +733,7 @@ int ModelObjectMultImage::UseBootstrap( )
   int  status = 0;
   int  cumulativeStatus = 0;
   
+  doBootstrap = true;
   for (int i = 0; i < nModelObjects; i++) {
     status = modelObjectsVect[i]->UseBootstrap();
     if (status < 0)
@@ -767,6 +772,7 @@ int ModelObjectMultImage::MakeBootstrapSample( )
 /// of the ModelObject instances in modelObjectsVect.
 void ModelObjectMultImage::StopBootstrap( )
 {
+  doBootstrap = false;
   for (int i = 0; i < nModelObjects; i++)
     modelObjectsVect[i]->StopBootstrap();
 }
-- 
2.43.0


From d3d1f4dfc263504736f26f643bc592cb4874b8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:23 +0000
Subject: [PATCH 09/44] fix: ModelObject constructor left function and
 parameter counters uninitialised

---
 core/model_object.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/model_object.cpp b/core/model_object.cpp
index 644413d..a015ebd 100644
--- a/core/model_object.cpp
+++ b/core/model_object.cpp
@@ -158,6 +158,9 @@ ModelObject::ModelObject( )
   nFunctionSets = 0;
   nFunctionParams = 0;
   nParamsTot = 0;
+  nGlobalFunctions = 0;
+  nPerImageFunctionSets = 0;
+  nPerImageParams = 0;
   nOversampledRegions = 0;
   debugLevel = 0;
   verboseLevel = 0;
@@ -173,7 +176,7 @@ ModelObject::ModelObject( )
   maxRequestedThreads = 0;   // default value --> use all available processors/cores
   ompChunkSize = DEFAULT_OPENMP_CHUNK_SIZE;
   
-  nDataVals = nDataColumns = nDataRows = 0;
+  nDataVals = nValidDataVals = nDataColumns = nDataRows = 0;
   nModelVals = nModelColumns = nModelRows = 0;
   nPSFColumns = nPSFRows = 0;
 }
-- 
2.43.0


From 8313631f773d166bf7709201659b43ad2ac0497d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:37 +0000
Subject: [PATCH 10/44] fix: SaveVectorAsImage reported success for
 incompletely written files

CFITSIO ignores errors from flushing its last buffers, so a full disk or I/O
error near the end of the file went unnoticed. Re-read the saved image.
---
 core/image_io.cpp | 56 +++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 56 insertions(+)

diff --git a/core/image_io.cpp b/core/image_io.cpp
index 711f71d..5785791 100644
--- a/core/image_io.cpp
+++ b/core/image_io.cpp
@@ -94,6 +94,8 @@
 #include <vector>
 #include <tuple>
 #include "fftw3.h"
+#include <sys/stat.h>
+#include <cmath>
 #include "fitsio.h"
 
 #include "image_io.h"
@@ -305,6 +307,52 @@ double * ReadImageAsVector( const std::string filename, int *nColumns, int *nRow
 
 
 
+/* ---------------- FUNCTION: SavedImageIsComplete --------------------- */
+///    Re-reads a newly saved FITS image and checks that it has the expected size and
+/// pixel values. This is needed because CFITSIO ignores errors (e.g., a full disk)
+/// encountered when its last buffers are flushed, so that fits_close_file can report 
+/// success for an incomplete file.
+static bool SavedImageIsComplete( const std::string filename, const double *pixelVector, 
+								int nColumns, int nRows )
+{
+  fitsfile  *imfile_ptr;
+  int  status = 0;
+  int  nfound = 0;
+  long  naxes[2] = {0, 0};
+  long  firstPixel[2] = {1, 1};
+  long  nPixels = (long)nColumns * (long)nRows;
+  const long  chunkSize = 256;
+  double  savedPixels[chunkSize];
+  bool  complete = true;
+
+  if (fits_open_file(&imfile_ptr, filename.c_str(), READONLY, &status))
+    return false;
+  fits_read_keys_lng(imfile_ptr, "NAXIS", 1, 2, naxes, &nfound, &status);
+  if ((status != 0) || (naxes[0] != nColumns) || (naxes[1] != nRows))
+    complete = false;
+  for (long offset = 0; complete && (offset < nPixels); offset += chunkSize) {
+    long  nThisChunk = (nPixels - offset < chunkSize) ? (nPixels - offset) : chunkSize;
+    firstPixel[0] = offset % nColumns + 1;
+    firstPixel[1] = offset / nColumns + 1;
+    fits_read_pix(imfile_ptr, TDOUBLE, firstPixel, nThisChunk, nullptr, savedPixels,
+    				nullptr, &status);
+    if (status != 0)
+      complete = false;
+    for (long i = 0; complete && (i < nThisChunk); i++) {
+      float  saved = (float)savedPixels[i];
+      float  expected = (float)pixelVector[offset + i];
+      if ((saved != expected) && ! (std::isnan(saved) && std::isnan(expected)))
+        complete = false;
+    }
+  }
+  status = 0;
+  fits_close_file(imfile_ptr, &status);
+  
+  return complete;
+}
+
+
+
 /* ---------------- FUNCTION: SaveVectorAsImage ------------------------ */
 ///    Saves specified 1D array (representing an image with size nColumns x nRows)
 /// in specified filename as a FITS image, with strings stored in comments
@@ -366,6 +414,14 @@ int SaveVectorAsImage( double *pixelVector, const std::string filename, int nCol
     return -1;
   }
   
+  // (filenames using CFITSIO's extended syntax do not exist as such, and are not checked)
+  struct stat  fileInfo;
+  if ((stat(filename.c_str(), &fileInfo) == 0) && 
+  		(! SavedImageIsComplete(filename, pixelVector, nColumns, nRows))) {
+    fprintf(stderr, "\n*** WARNING: FITS file \"%s\" was not completely written!\n", filename.c_str());
+    return -1;
+  }
+
   return 0;
 }
 
-- 
2.43.0


From 103fc85fc3f97a0ba5ad9dc6ecbc49ebbb600788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:37 +0000
Subject: [PATCH 11/44] fix: imfit-mcmc ignored failures to open or write chain
 files

---
 cdream/dream.cpp   | 42 +++++++++++++++++++++++++++++++++++++++---
 core/mcmc_main.cpp |  6 +++++-
 2 files changed, 44 insertions(+), 4 deletions(-)

diff --git a/cdream/dream.cpp b/cdream/dream.cpp
index 0dc7cc1..81004a9 100644
--- a/cdream/dream.cpp
+++ b/cdream/dream.cpp
@@ -53,6 +53,27 @@ using namespace std;
 #include "utilities_pub.h"
 
 
+static void report_write_failure( const string& chainFilename )
+{
+  fprintf(stderr, "\n*** ERROR: Failure writing to MCMC output file \"%s\"!\n", chainFilename.c_str());
+}
+
+
+// Returns false (after printing an error message) if writing to any of the output
+// chain files has failed
+static bool chains_written( const vector<ostream*>& oout, const vector<string>& chainFilenames )
+{
+  bool ok = true;
+  for (int i = 0; i < (int)oout.size(); ++i) {
+    if (oout[i]->fail()) {
+      report_write_failure(chainFilenames[i]);
+      ok = false;
+    }
+  }
+  return ok;
+}
+
+
 int dream( const dream_pars* p, rng::RngStream* rng )
 {
   int inBurnIn = (p->burnIn > 0);
@@ -108,11 +129,13 @@ int dream( const dream_pars* p, rng::RngStream* rng )
 
   // PE: changed output chain-file names so they start with 1, not 0
   oout.resize(p->numChains, &cout);
+  vector<string> chainFilenames(p->numChains, "<standard output>");
   if (p->outputRootname != "" && p->outputRootname != "-") {
     for (int i = 0; i < p->numChains; ++i) {
       chainFilename.str("");
       chainFilename << p->outputRootname << "." << i + 1 << ".txt";
       oout[i] = new ofstream(chainFilename.str().c_str(), fmode);
+      chainFilenames[i] = chainFilename.str();
       oout[i]->setf(ios::scientific, ios::floatfield);
       oout[i]->precision(12);
       for (int n = 0; n < p->outputHeaderLines.size(); n++)
@@ -144,6 +167,8 @@ int dream( const dream_pars* p, rng::RngStream* rng )
       *oout[i] << 1 << endl;
     }
   }
+  // (also catches chain files which could not be opened)
+  bool writeError = ! chains_written(oout, chainFilenames);
 
   // =========================================================================
 
@@ -182,7 +207,7 @@ int dream( const dream_pars* p, rng::RngStream* rng )
   double delta_sum(0.0);
   double pCR_sum(0.0);
 
-  for (int t = prevLines + 1; t < p->maxEvals; ++t) {   // loop over time/generations
+  for (int t = prevLines + 1; (t < p->maxEvals) && (! writeError); ++t) {   // loop over time/generations
 
     // beginning of loop, generate crossover probabilities
     if (genNumber == 0) { 
@@ -468,6 +493,7 @@ int dream( const dream_pars* p, rng::RngStream* rng )
           *oout[i] << pCR[j] << " ";
         *oout[i] << acceptStep[i] << endl;
       }
+      writeError = ! chains_written(oout, chainFilenames);
     }
   }  // end of loop(i) over generations
   
@@ -475,8 +501,16 @@ int dream( const dream_pars* p, rng::RngStream* rng )
 
   for (int i(0); i < p->numChains; ++i) {
     // close output files
-    if (oout[i] != nullptr) 
-      delete oout[i];
+    if (oout[i] != &cout) {
+      ofstream * chainFile = (ofstream *)oout[i];
+      bool alreadyFailed = chainFile->fail();
+      chainFile->close();
+      if (chainFile->fail() && (! alreadyFailed)) {
+        report_write_failure(chainFilenames[i]);
+        writeError = true;
+      }
+      delete chainFile;
+    }
   }
 
   // PE: memory cleanup of added stuff
@@ -485,6 +519,8 @@ int dream( const dream_pars* p, rng::RngStream* rng )
   
   if (p->verboseLevel > 0)
     printf("%d likelihood function calls\n", nLikelihoodEvals);
+  if (writeError)
+    return DREAM_EXIT_ERROR;
   if (! converged) {
     if (p->verboseLevel > 0)
       printf("Maximum number of iterations reached.\n");
diff --git a/core/mcmc_main.cpp b/core/mcmc_main.cpp
index bc9aa02..4156088 100644
--- a/core/mcmc_main.cpp
+++ b/core/mcmc_main.cpp
@@ -443,7 +443,11 @@ int main(int argc, char *argv[])
 
   // OK, now we execute the MCMC process
   printf("\nStart of MCMC processing...\n");
-  dream(&dreamPars, &rng);
+  status = dream(&dreamPars, &rng);
+  if (status < 0) {
+    fprintf(stderr, "\n*** ERROR: MCMC processing failed!\n\n");
+    exit(-1);
+  }
   printf("\nMCMC chains written to output files %s.1.txt through %s.%d.txt", 
   		options->outputFileRoot.c_str(), options->outputFileRoot.c_str(), options->nChains);
 
-- 
2.43.0


From e66ac16270c5f6eaf3ad0c1399a439de3c4a4d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:37 +0000
Subject: [PATCH 12/44] fix: makemultimages ignored failures to save images

---
 core/makemultimages_main.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/makemultimages_main.cpp b/core/makemultimages_main.cpp
index 42e1eaa..acfd3dc 100644
--- a/core/makemultimages_main.cpp
+++ b/core/makemultimages_main.cpp
@@ -394,6 +394,9 @@ int main( int argc, char *argv[] )
     status = SaveVectorAsImage(theMultImageModel->GetModelImageVector(i), 
     							multImageOutputName, nColsThisImage, nRowsThisImage,
     							imageCommentsList);
+    if (status != 0)
+      fprintf(stderr,  "\n*** WARNING: Unable to save output image file \"%s\"!\n\n", 
+      			multImageOutputName.c_str());
   }
 
   
-- 
2.43.0


From 5f44d7c0e0632876d8000ef40f2bd2fb3bf11662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:37 +0000
Subject: [PATCH 13/44] fix: failures to open or completely write text output
 files went unreported

---
 core/imfit_main.cpp                    | 14 +++++++++-----
 core/makeimage_main.cpp                | 10 ++++++++--
 core/multimfit_main.cpp                | 11 +++++++----
 core/print_results.cpp                 |  2 +-
 core/print_results_multi.cpp           | 22 +++++++++++++++-------
 core/utilities.cpp                     | 17 +++++++++++++++++
 core/utilities_pub.h                   |  4 ++++
 profile_fitting/psfconvolve1d_main.cpp |  3 ++-
 8 files changed, 63 insertions(+), 20 deletions(-)

diff --git a/core/imfit_main.cpp b/core/imfit_main.cpp
index 6acb997..c6519a7 100644
--- a/core/imfit_main.cpp
+++ b/core/imfit_main.cpp
@@ -399,8 +399,12 @@ int main(int argc, char *argv[])
   if ((options->doBootstrap) && (options->bootstrapIterations > 0) && (! userInterrupted)) {
     if (options->saveBootstrap) {
       bootstrapSaveFile_ptr = fopen(options->outputBootstrapFileName.c_str(), "w");
+      if (bootstrapSaveFile_ptr == nullptr)
+        fprintf(stderr, "\n*** WARNING: Unable to open file \"%s\"; bootstrap output will not be saved!\n\n",
+        		options->outputBootstrapFileName.c_str());
       // write general info + best-fitting params as a commented-out header
-      SaveParameters2(bootstrapSaveFile_ptr, paramsVect, theModel, programHeader, "#");
+      else
+        SaveParameters2(bootstrapSaveFile_ptr, paramsVect, theModel, programHeader, "#");
     }
     
     printf("\nNow doing bootstrap resampling (%d iterations) to estimate errors...\n",
@@ -411,11 +415,11 @@ int main(int argc, char *argv[])
     									nFreeParams, theModel->WhichFitStatistic(), 
     									bootstrapSaveFile_ptr, options->rngSeed);
     gettimeofday(&timer_end_bootstrap, nullptr);
-    if (options->saveBootstrap) {
-      if (nSucessfulIterations > 0)
-        printf("Bootstrap-resampling output saved to file \"%s\".\n", options->outputBootstrapFileName.c_str());
+    if (bootstrapSaveFile_ptr != nullptr) {
       // even if we didn't have any successful iterations, we need to close the file
-      fclose(bootstrapSaveFile_ptr);
+      status = CloseOutputFile(bootstrapSaveFile_ptr, options->outputBootstrapFileName);
+      if ((nSucessfulIterations > 0) && (status == 0))
+        printf("Bootstrap-resampling output saved to file \"%s\".\n", options->outputBootstrapFileName.c_str());
     }
     didBootstrap = true;
   }
diff --git a/core/makeimage_main.cpp b/core/makeimage_main.cpp
index 3299346..a51029b 100644
--- a/core/makeimage_main.cpp
+++ b/core/makeimage_main.cpp
@@ -805,12 +805,18 @@ void DetermineFluxes( ModelObject *theModel, double *parameters,
     headerLines.push_back(columHeaderLine_for_file);
 
     FILE * file_ptr = fopen(options->saveFluxesFileName.c_str(), "w");
+    if (file_ptr == nullptr) {
+      fprintf(stderr, "\n*** WARNING: Unable to open file \"%s\"; fluxes were not saved!\n\n",
+      			options->saveFluxesFileName.c_str());
+      free(fluxes);
+      return;
+    }
     for (n = 0; n < (int)headerLines.size(); n++)
       fprintf(file_ptr, "%s", headerLines[n].c_str());
     for (n = 0; n < (int)saveFluxesLines.size(); n++)
       fprintf(file_ptr, "%s", saveFluxesLines[n].c_str());
-    fclose(file_ptr);
-    printf("\nEstimated fluxes saved to file %s.\n", options->saveFluxesFileName.c_str());
+    if (CloseOutputFile(file_ptr, options->saveFluxesFileName) == 0)
+      printf("\nEstimated fluxes saved to file %s.\n", options->saveFluxesFileName.c_str());
   }
 
   free(fluxes);
diff --git a/core/multimfit_main.cpp b/core/multimfit_main.cpp
index 9800ff1..8cdf4b9 100644
--- a/core/multimfit_main.cpp
+++ b/core/multimfit_main.cpp
@@ -752,6 +752,9 @@ int main(int argc, char *argv[])
   if ((options->doBootstrap) && (options->bootstrapIterations > 0) && (! userInterrupted)) {
     if (options->saveBootstrap) {
       bootstrapSaveFile_ptr = fopen(options->outputBootstrapFileName.c_str(), "w");
+      if (bootstrapSaveFile_ptr == nullptr)
+        fprintf(stderr, "\n*** WARNING: Unable to open file \"%s\"; bootstrap output will not be saved!\n\n",
+        		options->outputBootstrapFileName.c_str());
       // write general info + best-fitting params as a commented-out header
       // SaveParameters2(bootstrapSaveFile_ptr, paramsVect, theModel, programHeader, "#");
     }
@@ -764,11 +767,11 @@ int main(int argc, char *argv[])
     									nFreeParams, theMultImageModel->WhichFitStatistic(), 
     									bootstrapSaveFile_ptr, options->rngSeed, true);
     gettimeofday(&timer_end_bootstrap, NULL);
-    if (options->saveBootstrap) {
-      if (nSucessfulIterations > 0)
-        printf("\nBootstrap-resampling output saved to file \"%s\".\n", options->outputBootstrapFileName.c_str());
+    if (bootstrapSaveFile_ptr != nullptr) {
       // even if we didn't have any successful iterations, we need to close the file
-      fclose(bootstrapSaveFile_ptr);
+      status = CloseOutputFile(bootstrapSaveFile_ptr, options->outputBootstrapFileName);
+      if ((nSucessfulIterations > 0) && (status == 0))
+        printf("\nBootstrap-resampling output saved to file \"%s\".\n", options->outputBootstrapFileName.c_str());
     }
     didBootstrap = true;
   }
diff --git a/core/print_results.cpp b/core/print_results.cpp
index f7dceba..466be41 100644
--- a/core/print_results.cpp
+++ b/core/print_results.cpp
@@ -286,7 +286,7 @@ void SaveParameters( double *params, ModelObject *model, string& outputFilename,
   else
     PrintParameters(file_ptr, model, params, nullptr);
 
-  fclose(file_ptr);
+  CloseOutputFile(file_ptr, outputFilename);
 }
 
 
diff --git a/core/print_results_multi.cpp b/core/print_results_multi.cpp
index 2ca775f..3f99fca 100644
--- a/core/print_results_multi.cpp
+++ b/core/print_results_multi.cpp
@@ -69,6 +69,10 @@ void SaveMultImageParameters( double *params, ModelObjectMultImage *multModel,
       printf("\tSaving %s...\n", newFilename.c_str());
     }
     file_ptr = fopen(newFilename.c_str(), "w");
+    if (file_ptr == nullptr) {
+      fprintf(stderr, "\n*** WARNING: Unable to open output file \"%s\"!\n\n", newFilename.c_str());
+      continue;
+    }
     for (auto line: outputHeader)
       fprintf(file_ptr, "%s\n", line.c_str());
     dataFilename = multModel->GetDataFilename(i);
@@ -76,7 +80,7 @@ void SaveMultImageParameters( double *params, ModelObjectMultImage *multModel,
     multModel->GetParameterStringsForOneImage(stringsForFile, params, i);
     for (auto line: stringsForFile)
       fprintf(file_ptr, "%s", line.c_str());
-    fclose(file_ptr);
+    CloseOutputFile(file_ptr, newFilename);
   }
 }
 
@@ -133,12 +137,16 @@ void SaveImageInfoParameters( double *params, ModelObjectMultImage *multModel,
   
   if (stringsForFile.size() > 0) {
     file_ptr = fopen(outputFilename.c_str(), "w");
-    for (auto line: outputHeader)
-      fprintf(file_ptr, "%s\n", line.c_str());
-    fprintf(file_ptr, "\n# IMAGE PARAMETERS\n\n");
-    for (auto line: stringsForFile)
-      fprintf(file_ptr, "%s", line.c_str());
-    fclose(file_ptr);
+    if (file_ptr == nullptr)
+      fprintf(stderr, "\n*** WARNING: Unable to open output file \"%s\"!\n\n", outputFilename.c_str());
+    else {
+      for (auto line: outputHeader)
+        fprintf(file_ptr, "%s\n", line.c_str());
+      fprintf(file_ptr, "\n# IMAGE PARAMETERS\n\n");
+      for (auto line: stringsForFile)
+        fprintf(file_ptr, "%s", line.c_str());
+      CloseOutputFile(file_ptr, outputFilename);
+    }
   }
   
   free(imageDescriptionParams);
diff --git a/core/utilities.cpp b/core/utilities.cpp
index c651be6..09c88c4 100644
--- a/core/utilities.cpp
+++ b/core/utilities.cpp
@@ -635,4 +635,21 @@ string PrintMpPar( mp_par& p )
 
 
 
+/* ---------------- FUNCTION: CloseOutputFile() ----------------------- */
+/// Closes an output text file, printing a warning if it was not completely written.
+/// Returns 0 for success, -1 otherwise.
+int CloseOutputFile( FILE *file_ptr, const string& outputFilename )
+{
+  bool  writeError = (ferror(file_ptr) != 0);
+  
+  if ((fclose(file_ptr) != 0) || writeError) {
+    fprintf(stderr, "\n*** WARNING: Failure writing to output file \"%s\"!\n\n", 
+    		outputFilename.c_str());
+    return -1;
+  }
+  return 0;
+}
+
+
+
 /* END OF FILE: utilities.cpp -------------------------------------- */
diff --git a/core/utilities_pub.h b/core/utilities_pub.h
index 55f1c37..ed216f9 100644
--- a/core/utilities_pub.h
+++ b/core/utilities_pub.h
@@ -5,6 +5,7 @@
 #ifndef _UTILITIES_PUB_H_
 #define _UTILITIES_PUB_H_
 
+#include <stdio.h>
 #include <string>
 #include <vector>
 #include <tuple>
@@ -101,6 +102,9 @@ bool ImageFileExists( const char * filename );
 /// Checks to see if (local) file exists
 bool FileExists( const char * filename );
 
+/// Closes output text file; prints warning and returns -1 if it was not completely written
+int CloseOutputFile( FILE *file_ptr, const string& outputFilename );
+
 
 /// Returns string with current date-and-time (Dow Mon dd hh:mm:ss yyy)
 char * TimeStamp( void );
diff --git a/profile_fitting/psfconvolve1d_main.cpp b/profile_fitting/psfconvolve1d_main.cpp
index 53b0767..bce2b9e 100644
--- a/profile_fitting/psfconvolve1d_main.cpp
+++ b/profile_fitting/psfconvolve1d_main.cpp
@@ -274,7 +274,8 @@ void SaveProfile( std::string& fileName, double *xVals, double *yVals, int nData
     fprintf(file_ptr, "%f\t%f\n", xVals[i], yVals[i]);
   }
   
-  fclose(file_ptr);
+  if (CloseOutputFile(file_ptr, fileName) != 0)
+    exit(-1);
 }
 
 
-- 
2.43.0


From 3e50186e9a515df2486ee5808204f4416750297f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:47 +0000
Subject: [PATCH 14/44] fix: read errors in configuration, image-info, PSF and
 profile files went unnoticed

A read error part-way through a configuration or image-info file was treated as
end of file, makemultimages ignored a failed image-info parse, ReadImageAsVector
and GetPsfImage ignored failures to re-open the image, and the profile readers
looped forever on a read error.
---
 core/config_file_parser.cpp      |  8 ++++++++
 core/getimages.cpp               |  7 +++++++
 core/image_io.cpp                |  8 +++++++-
 core/imageparams_file_parser.cpp |  4 ++++
 core/makemultimages_main.cpp     |  5 +++++
 core/read_simple_params.cpp      | 13 +++++++++++--
 profile_fitting/read_profile.cpp | 13 +++++++++++--
 7 files changed, 53 insertions(+), 5 deletions(-)

diff --git a/core/config_file_parser.cpp b/core/config_file_parser.cpp
index 20b07a2..0fac7e3 100644
--- a/core/config_file_parser.cpp
+++ b/core/config_file_parser.cpp
@@ -525,6 +525,10 @@ int ReadConfigFile( const string& configFileName, const bool mode2D, vector<stri
       origLineNumbers.push_back(k);
     }
   }
+  if (inputFileStream.bad()) {
+    fprintf(stderr, "\n*** ERROR: Failure while reading file \"%s\"!\n\n", configFileName.c_str());
+    return -1;
+  }
   inputFileStream.close();
   
   // Clear the input vectors before we start appending things to them
@@ -617,6 +621,10 @@ int ReadConfigFile( const string& configFileName, const bool mode2D, vector<stri
       origLineNumbers.push_back(k);
     }
   }
+  if (inputFileStream.bad()) {
+    fprintf(stderr, "\n*** ERROR: Failure while reading file \"%s\"!\n\n", configFileName.c_str());
+    return -1;
+  }
   inputFileStream.close();
 
   // OK, locate the start of the function set (first line beginning with "X0")
diff --git a/core/getimages.cpp b/core/getimages.cpp
index c5b7e71..2a26e4c 100644
--- a/core/getimages.cpp
+++ b/core/getimages.cpp
@@ -124,6 +124,13 @@ std::tuple<double *, int, int, int> GetPsfImage( const string &psfFileName )
     return std::make_tuple(psfPixels, 0,0, -1);
 
   std::tie(nColumns_psf, nRows_psf, status) = GetImageSize(psfFileName);
+  if (status < 0) {
+    fprintf(stderr,  "\n*** ERROR: Unable to determine size of PSF image file \"%s\"!\n\n", 
+    			psfFileName.c_str());
+    fftw_free(psfPixels);
+    psfPixels = nullptr;
+    return std::make_tuple(psfPixels, 0,0, -1);
+  }
   long nPixels_psf = (long)nColumns_psf * (long)nRows_psf;
   printf("naxis1 [# pixels/row] = %d, naxis2 [# pixels/col] = %d; nPixels_tot = %ld\n", 
          nColumns_psf, nRows_psf, nPixels_psf);
diff --git a/core/image_io.cpp b/core/image_io.cpp
index 5785791..159f49a 100644
--- a/core/image_io.cpp
+++ b/core/image_io.cpp
@@ -260,9 +260,14 @@ double * ReadImageAsVector( const std::string filename, int *nColumns, int *nRow
   // further operations
   validHDU_flag = CheckForImage(filename);
   if (validHDU_flag > 0)
-    fits_open_file(&imfile_ptr, filename.c_str(), READONLY, &status);
+    problems = fits_open_file(&imfile_ptr, filename.c_str(), READONLY, &status);
   else
     return nullptr;
+  if ( problems ) {
+    fprintf(stderr, "\n*** WARNING: Problems opening FITS file \"%s\"!\n    FITSIO error messages follow:", filename.c_str());
+    PrintError(status);
+    return nullptr;
+  }
 
   /* read the NAXIS1 and NAXIS2 keyword to get image size */
   problems = fits_read_keys_lng(imfile_ptr, "NAXIS", 1, 2, naxes, &nfound,
@@ -288,6 +293,7 @@ double * ReadImageAsVector( const std::string filename, int *nColumns, int *nRow
   if ( problems ) {
     fprintf(stderr, "\n*** WARNING: Problems reading pixel data from FITS file \"%s\"!\n    FITSIO error messages follow:", filename.c_str());
     PrintError(status);
+    fftw_free(imageVector);
     return nullptr;
   }
 
diff --git a/core/imageparams_file_parser.cpp b/core/imageparams_file_parser.cpp
index 2873626..0304464 100644
--- a/core/imageparams_file_parser.cpp
+++ b/core/imageparams_file_parser.cpp
@@ -586,6 +586,10 @@ int ReadImageParamsFile( const string& configFileName, int& nImages,
       origLineNumbers.push_back(currentLine);
     }
   }
+  if (inputFileStream.bad()) {
+    fprintf(stderr, "\n*** ERROR: Failure while reading file \"%s\"!\n\n", configFileName.c_str());
+    return -1;
+  }
   inputFileStream.close();
   nInputLines = inputLines.size();
 
diff --git a/core/makemultimages_main.cpp b/core/makemultimages_main.cpp
index acfd3dc..dd281b3 100644
--- a/core/makemultimages_main.cpp
+++ b/core/makemultimages_main.cpp
@@ -173,6 +173,11 @@ int main( int argc, char *argv[] )
       return -1;
     }
     status = ReadImageParamsFile(options->imageInfoFile, nImages, imageInfoVect);
+    if (status < 0) {
+      fprintf(stderr, "\n*** ERROR: Problems parsing image-info file \"%s\"!\n\n", 
+             options->imageInfoFile.c_str());
+      return -1;
+    }
     std::tie(imageDescParamsVect, nImageDescParams) = GetImageDescriptionParams(imageInfoVect);
     printf("Image-description params from image-info file \"%s\": ", options->imageInfoFile.c_str());
     for (int i = 0; i < nImageDescParams; i++)
diff --git a/core/read_simple_params.cpp b/core/read_simple_params.cpp
index 4789763..15c6f0d 100644
--- a/core/read_simple_params.cpp
+++ b/core/read_simple_params.cpp
@@ -44,6 +44,7 @@ using namespace std;
 
 #define  MAXLINE   1024
 #define  FILE_OPEN_ERR_STRING "\n   Couldn't open file \"%s\"\n\n"
+#define  FILE_READ_ERR_STRING "\n   Error while reading file \"%s\"\n\n"
 #define  NO_DATA_ERR_STRING1 "\n   Missing data on line %ld of %s!\n\n"
 
 
@@ -59,13 +60,17 @@ long CountDataLines( string& fileName )
   }
 
   // First, count how many data lines there are:
-  while ( !feof(file_ptr) ) {
+  while ( !feof(file_ptr) && !ferror(file_ptr) ) {
     if ( fgets(buf, MAXLINE - 1, file_ptr) != nullptr ) {
       // Count line if it does *not* starts with "#":
       if ( strncmp(buf, "#", 1) != 0 )
         counter++;
     }
   }
+  if (ferror(file_ptr)) {
+    fprintf(stderr, FILE_READ_ERR_STRING, fileName.c_str());
+    exit(-1);
+  }
   fclose(file_ptr);
   return(counter);
 }
@@ -101,7 +106,7 @@ long ReadSimpleParameterFile( string& fileName, long startDataRow, long endDataR
     exit(-1);
   }
 
-  while ( !feof(file_ptr) ) {
+  while ( !feof(file_ptr) && !ferror(file_ptr) ) {
     nRow++;
     if ( fgets(buf, MAXLINE - 1, file_ptr) != nullptr ) {
       currentLine = buf;
@@ -129,6 +134,10 @@ long ReadSimpleParameterFile( string& fileName, long startDataRow, long endDataR
   }
   
   
+  if (ferror(file_ptr)) {
+    fprintf(stderr, FILE_READ_ERR_STRING, fileName.c_str());
+    exit(-1);
+  }
   fclose(file_ptr);
   
   return(j + 1);
diff --git a/profile_fitting/read_profile.cpp b/profile_fitting/read_profile.cpp
index 3c5f41a..a2fb6c8 100644
--- a/profile_fitting/read_profile.cpp
+++ b/profile_fitting/read_profile.cpp
@@ -44,6 +44,7 @@ using namespace std;
 
 #define  MAXLINE   1024
 #define  FILE_OPEN_ERR_STRING "\n   Couldn't open file \"%s\"\n\n"
+#define  FILE_READ_ERR_STRING "\n   Error while reading file \"%s\"\n\n"
 #define  NO_DATA_ERR_STRING1 "\n   Missing x and/or y data on line %ld of %s!\n\n"
 #define  NO_DATA_ERR_STRING3 "\n   Missing y_err data on line %ld of %s!\n\n"
 #define  NO_DATA_ERR_STRING4 "\n   Missing mask value on line %ld of %s!\n\n"
@@ -61,13 +62,17 @@ long CountDataLines( string& fileName )
   }
 
   // First, count how many data lines there are:
-  while ( !feof(file_ptr) ) {
+  while ( !feof(file_ptr) && !ferror(file_ptr) ) {
     if ( fgets(buf, MAXLINE - 1, file_ptr) != NULL ) {
       // Count line if it does *not* starts with "#":
       if ( strncmp(buf, "#", 1) != 0 )
         counter++;
     }
   }
+  if (ferror(file_ptr)) {
+    fprintf(stderr, FILE_READ_ERR_STRING, fileName.c_str());
+    exit(-1);
+  }
   fclose(file_ptr);
   return(counter);
 }
@@ -114,7 +119,7 @@ long ReadDataFile( string& fileName, long startDataRow, long endDataRow,
   else
     getMask = true;
     
-  while ( !feof(file_ptr) ) {
+  while ( !feof(file_ptr) && !ferror(file_ptr) ) {
     nRow++;
     if ( fgets(buf, MAXLINE - 1, file_ptr) != NULL ) {
       currentLine = buf;
@@ -156,6 +161,10 @@ long ReadDataFile( string& fileName, long startDataRow, long endDataRow,
   }
   
   
+  if (ferror(file_ptr)) {
+    fprintf(stderr, FILE_READ_ERR_STRING, fileName.c_str());
+    exit(-1);
+  }
   fclose(file_ptr);
   
   return(j + 1);
-- 
2.43.0


From 10d86215a4246ee449fdf089377831df41d80e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:06 +0000
Subject: [PATCH 15/44] fix: resuming imfit-mcmc lost or corrupted chains of a
 killed run

Chain files with different numbers of records restored an unset state; a torn
last record was continued on the same line; coordinates were not converted
back to those of the image section; a read error caused an endless loop.
---
 cdream/dream.cpp         | 16 ++++++-
 cdream/dream.h           |  2 +-
 cdream/restore_state.cpp | 92 +++++++++++++++++++++++++++++-----------
 3 files changed, 83 insertions(+), 27 deletions(-)

diff --git a/cdream/dream.cpp b/cdream/dream.cpp
index 81004a9..def81c7 100644
--- a/cdream/dream.cpp
+++ b/cdream/dream.cpp
@@ -115,9 +115,13 @@ int dream( const dream_pars* p, rng::RngStream* rng )
   // =========================================================================
   // read previous state
 
-  int prevLines = dream_restore_state(p, state, lik, pCR, inBurnIn);
+  // nRestored = number of previously written generations for each chain (one larger for
+  // some chains if the previous run was killed while writing a generation)
+  vector<int> nRestored;
+  int prevLines = dream_restore_state(p, state, lik, pCR, inBurnIn, nRestored);
   if (prevLines < 0) {
-    fprintf(stderr, "DREAM: previous MCMC output files not found!\n");
+    fprintf(stderr, "DREAM: previous MCMC output files not found or not usable!\n");
+    free(tempParams);
     return DREAM_EXIT_NO_OUTPUT_FILES;
   }
   // =========================================================================
@@ -293,6 +297,8 @@ int dream( const dream_pars* p, rng::RngStream* rng )
     for (int i = 0; i < p->numChains; ++i) {
       // loop over individual chains to calculate likelihoods of proposals
       // and determine acceptances
+      if (t < nRestored[i])
+        continue;
       if (updateDim[i] > 0) {
         do_calc = 1;
         for (int j = 0; j < p->nvar; ++j) {
@@ -326,6 +332,10 @@ int dream( const dream_pars* p, rng::RngStream* rng )
     }
 
     for (int i = 0; i < p->numChains; ++i) {
+      if (t < nRestored[i]) {
+        acceptStep[i] = 0;
+        continue;
+      }
       double newLikelihood = lik(t,i);
       double prevLikelihood = lik(t - 1,i);
       if (newLikelihood == -INFINITY) 
@@ -484,6 +494,8 @@ int dream( const dream_pars* p, rng::RngStream* rng )
     if (ireport >= p->report_interval) {
       ireport = 0;
       for (int i = 0; i < p->numChains; ++i) {
+        if (t < nRestored[i])
+          continue;
         for (int j = 0; j < p->nvar; j++)
           tempParams[j] = state(t,i,j);
         string paramString = theModel->PrintModelParamsHorizontalString(tempParams);
diff --git a/cdream/dream.h b/cdream/dream.h
index e1ceabb..580a8a9 100644
--- a/cdream/dream.h
+++ b/cdream/dream.h
@@ -26,7 +26,7 @@ const int  DREAM_EXIT_MAX_ITERATIONS = 1;
 
 
 int dream_restore_state( const dream_pars* p, Array3D<double>& state, 
-						Array2D<double>& lik, vector<double>& pCR, int& inBurnIn );
+						Array2D<double>& lik, vector<double>& pCR, int& inBurnIn, vector<int>& nRestored );
 
 void dream_initialize( const dream_pars* p, rng::RngStream* rng, 
 						Array2DView<double>& state, ArrayView<double>& lik );
diff --git a/cdream/restore_state.cpp b/cdream/restore_state.cpp
index f56e0b7..e5a2419 100644
--- a/cdream/restore_state.cpp
+++ b/cdream/restore_state.cpp
@@ -1,22 +1,41 @@
 #include <fstream>
 #include <iostream>
 #include <sstream>
+#include <string>
+#include <tuple>
 #include <vector>
+#include <algorithm>
 #include <stdio.h>
+#include <unistd.h>
 
 using namespace std;
 
 #include "dream.h"
 #include "array.h"
+#include "model_object.h"
 
+/// Reads the records in the existing chain files. The number of records restored for
+/// each chain is stored in nRestored; this can differ between chains if the previous run
+/// was killed while writing a generation. If the last line of a file is incomplete (ditto), 
+/// then it is removed from the file.
+///
+/// Returns the index of the last generation which is present in all chains, or -1 if the 
+/// chains could not be restored. (Returns 0 if this is not a resumed run.)
 int dream_restore_state( const dream_pars* p, Array3D<double>& state, Array2D<double>& lik,
-    					vector<double>& pCR, int& inBurnIn )
+    					vector<double>& pCR, int& inBurnIn, vector<int>& nRestored )
 {
   int prevLines = 0;
-  if (p->appendFile && (p->outputRootname != "" || p->outputRootname != "-")) {
+  nRestored.assign(p->numChains, 0);
+  if (p->appendFile && (p->outputRootname != "" && p->outputRootname != "-")) {
+    // Coordinates in the files are for the full image, unlike those in state
+    ModelObject * theModel = (ModelObject *)p->extraData;
+    vector<double> offsets(p->nvar, 0.0);
+    theModel->GetImageOffsets(offsets.data());
+    vector<streamoff> completeBytes(p->numChains, 0);
+    vector<bool> incompleteLine(p->numChains, false);
+
     if (p->verboseLevel > 0)
       printf("Restoring previous state... ");
-    prevLines = p->maxEvals;
     for (int i = 0; i < p->numChains; ++i) {
       if (p->verboseLevel > 0)
         printf("%d ", i);
@@ -25,29 +44,54 @@ int dream_restore_state( const dream_pars* p, Array3D<double>& state, Array2D<do
       chainFilename << p->outputRootname << "." << i + 1 << ".txt";
       ifstream ifile(chainFilename.str().c_str());
       if (! ifile) {
-        prevLines = -1;
         fprintf(stderr, "   pre-existing MCMC output file \"%s\" not found!", chainFilename.str().c_str());
-        break;
-      } else {
-        string input;
-        while (! getline(ifile, input).eof()) {
-          if (line >= p->maxEvals) 
-            break;
-          if (input.length() == 0) 
-            continue;
-          if (input[0] == '#') 
-            continue;
-          istringstream istr(input);
-          for (int j = 0; j < p->nvar; ++j) 
-            istr >> state(line,i,j); 
-          istr >> lik(line,i) >> inBurnIn;
-          for (int j(0); j < p->nCR; ++j) 
-            istr >> pCR[j];
-          ++line;
+        return -1;
+      }
+      string input;
+      while (getline(ifile, input)) {
+        if (ifile.eof()) {
+          // no newline at the end: not completely written
+          incompleteLine[i] = true;
+          break;
+        }
+        completeBytes[i] += input.length() + 1;
+        if ((line >= p->maxEvals) || (input.length() == 0) || (input[0] == '#')) 
+          continue;
+        istringstream istr(input);
+        for (int j = 0; j < p->nvar; ++j) {
+          istr >> state(line,i,j);
+          state(line,i,j) -= offsets[j];
+        }
+        istr >> lik(line,i) >> inBurnIn;
+        for (int j(0); j < p->nCR; ++j) 
+          istr >> pCR[j];
+        if (istr.fail()) {
+          fprintf(stderr, "   invalid record in MCMC output file \"%s\": %s\n", 
+          		chainFilename.str().c_str(), input.c_str());
+          return -1;
+        }
+        ++line;
+      }
+      if (ifile.bad()) {
+        fprintf(stderr, "   error while reading MCMC output file \"%s\"!", chainFilename.str().c_str());
+        return -1;
+      }
+      nRestored[i] = line;
+    }
+    prevLines = *min_element(nRestored.begin(), nRestored.end()) - 1;
+    if (prevLines < 0) {
+      fprintf(stderr, "   no previous states in MCMC output files!");
+      return -1;
+    }
+    for (int i = 0; i < p->numChains; ++i) {
+      if (incompleteLine[i]) {
+        ostringstream chainFilename("");
+        chainFilename << p->outputRootname << "." << i + 1 << ".txt";
+        if (truncate(chainFilename.str().c_str(), completeBytes[i]) != 0) {
+          fprintf(stderr, "   unable to remove incomplete record from MCMC output file \"%s\"!", 
+          		chainFilename.str().c_str());
+          return -1;
         }
-        ifile.close();
-        if (prevLines > line) 
-          prevLines = line - 1;
       }
     }
   }
-- 
2.43.0


From d12d6fb157d8b99f6f6f83624cbb6c4a44d9c74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:58 +0000
Subject: [PATCH 16/44] fix: imfit-mcmc crossover probabilities could become
 NaN

pCR was updated even when a crossover candidate had not been used yet, which
divides by zero; NaN likelihoods or pCR values were also misread on resuming.
---
 cdream/dream.cpp         |  5 ++++-
 cdream/restore_state.cpp | 28 +++++++++++++++++++++-------
 2 files changed, 25 insertions(+), 8 deletions(-)

diff --git a/cdream/dream.cpp b/cdream/dream.cpp
index def81c7..f1113ce 100644
--- a/cdream/dream.cpp
+++ b/cdream/dream.cpp
@@ -404,11 +404,14 @@ int dream( const dream_pars* p, rng::RngStream* rng )
       if (inBurnIn && p->pCR_update) {
         // get total delta
         delta_sum = 0.0;
+        bool allUsed = true;   // (relative jump size is undefined for unused candidates)
         for (int m = 0; m < p->nCR; ++m) {
           delta_sum += delta_tot[m];
           totalSteps[m] += L[m];
+          if (totalSteps[m] == 0)
+            allUsed = false;
         }
-        if (delta_sum > 0.0) {
+        if ((delta_sum > 0.0) && allUsed) {
           pCR_sum = 0.0;
           for (int m = 0; m < p->nCR; ++m) {
             pCR[m] = (delta_tot[m]/delta_sum) / totalSteps[m];  // relative jump size per step
diff --git a/cdream/restore_state.cpp b/cdream/restore_state.cpp
index e5a2419..41035b0 100644
--- a/cdream/restore_state.cpp
+++ b/cdream/restore_state.cpp
@@ -6,6 +6,7 @@
 #include <vector>
 #include <algorithm>
 #include <stdio.h>
+#include <stdlib.h>
 #include <unistd.h>
 
 using namespace std;
@@ -14,6 +15,19 @@ using namespace std;
 #include "array.h"
 #include "model_object.h"
 
+// Reads one value (istream >> double would not accept "inf" or "nan")
+static double read_value( istringstream& istr, bool& valid )
+{
+  string token;
+  char * end;
+  istr >> token;
+  double value = strtod(token.c_str(), &end);
+  if ((token.length() == 0) || (*end != '\0'))
+    valid = false;
+  return value;
+}
+
+
 /// Reads the records in the existing chain files. The number of records restored for
 /// each chain is stored in nRestored; this can differ between chains if the previous run
 /// was killed while writing a generation. If the last line of a file is incomplete (ditto), 
@@ -58,14 +72,14 @@ int dream_restore_state( const dream_pars* p, Array3D<double>& state, Array2D<do
         if ((line >= p->maxEvals) || (input.length() == 0) || (input[0] == '#')) 
           continue;
         istringstream istr(input);
-        for (int j = 0; j < p->nvar; ++j) {
-          istr >> state(line,i,j);
-          state(line,i,j) -= offsets[j];
-        }
-        istr >> lik(line,i) >> inBurnIn;
+        bool valid = true;
+        for (int j = 0; j < p->nvar; ++j)
+          state(line,i,j) = read_value(istr, valid) - offsets[j];
+        lik(line,i) = read_value(istr, valid);
+        inBurnIn = (int)read_value(istr, valid);
         for (int j(0); j < p->nCR; ++j) 
-          istr >> pCR[j];
-        if (istr.fail()) {
+          pCR[j] = read_value(istr, valid);
+        if (! valid) {
           fprintf(stderr, "   invalid record in MCMC output file \"%s\": %s\n", 
           		chainFilename.str().c_str(), input.c_str());
           return -1;
-- 
2.43.0


From daa81362bfdaede7c4b28c521409abf5c01aba60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:28 +0000
Subject: [PATCH 17/44] fix: imfit-mcmc refused to use the Cash statistic

The options object kept the default solver (Levenberg-Marquardt), so --cashstat
was always rejected, although MCMC uses no solver.
---
 core/options_mcmc.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/options_mcmc.h b/core/options_mcmc.h
index bfda539..855be0a 100644
--- a/core/options_mcmc.h
+++ b/core/options_mcmc.h
@@ -23,6 +23,7 @@ class MCMCOptions : public OptionsBase
     MCMCOptions( )
     {
       configFileName = DEFAULT_IMFIT_CONFIG_FILE;
+      solver = NO_FITTING;   // MCMC does not use any of the solvers
   
       noImage = true;
       imageFileName = "";
-- 
2.43.0


From 506be3b22f31477558075cdf83b839a2dbe72ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:40 +0000
Subject: [PATCH 18/44] fix: don't count user-interrupted fits as successful
 bootstrap iterations

---
 core/bootstrap_errors.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/core/bootstrap_errors.cpp b/core/bootstrap_errors.cpp
index 9d47ca5..06e7874 100644
--- a/core/bootstrap_errors.cpp
+++ b/core/bootstrap_errors.cpp
@@ -219,6 +219,12 @@ int BootstrapErrorsBase( const double *bestfitParams, vector<mp_par> parameterLi
       						verboseLevel);
 #endif
     }
+    // If user interrupted us (Ctrl-C), then the current fit was stopped prematurely
+    // and is not a valid resampling result, so we stop here
+#ifndef NO_SIGNALS
+    if (stopSignal_flag == 1)
+      break;
+#endif
     // Store parameters in array (and optionally write them to file) if fit was successful
     // Note that paramsVect has subsection-relative values of X0,Y0, so we need to
     // correct them with paramOffsets
@@ -311,6 +317,12 @@ int BootstrapErrorsArrayOnly( const double *bestfitParams, vector<mp_par> parame
       						verboseLevel);
 #endif
     }
+    // If user interrupted us (Ctrl-C), then the current fit was stopped prematurely
+    // and is not a valid resampling result, so we stop here
+#ifndef NO_SIGNALS
+    if (stopSignal_flag == 1)
+      break;
+#endif
     // Store parameters in array if fit was successful.
     // Note that paramsVect has image-subsection-relative values of X0,Y0, 
     // so we need to correct them with paramOffsets
-- 
2.43.0


From a229be5535716321af23e12fdae089aa492f0ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:40 +0000
Subject: [PATCH 19/44] fix: reset PointSource oversampling scale before
 computing main image

---
 core/model_object.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/core/model_object.cpp b/core/model_object.cpp
index a015ebd..720fb4b 100644
--- a/core/model_object.cpp
+++ b/core/model_object.cpp
@@ -1190,9 +1190,12 @@ void ModelObject::CreateModelImage( double params[] )
     // OversampledRegion::ComputeRegionAndDownsample result in PointSource objects 
     // getting assigned alternate psfInterpolators), so we have to reset PointSource 
     // objects to use the standard-resolution psfInterpolator object held by ModelObject
+    // (the same is true for the oversampling scale)
     for (FunctionObject *funcObj : functionObjects)
-      if (funcObj->IsPointSource())
+      if (funcObj->IsPointSource()) {
         funcObj->AddPsfInterpolator(psfInterpolator);
+        funcObj->SetOversamplingScale(1);
+      }
     
 #pragma omp parallel private(i,j,n,x,y,newValSum,tempSum,adjVal,storedError)
     {
@@ -1280,8 +1283,10 @@ double * ModelObject::GetSingleFunctionImage( double params[], int functionIndex
   
   // If requested function is PointSource, re-assign the PsfInterpolator object
   // (see comments in CreateModelImage for why we need to do this)
-  if (functionObjects[functionIndex]->IsPointSource())
+  if (functionObjects[functionIndex]->IsPointSource()) {
     functionObjects[functionIndex]->AddPsfInterpolator(psfInterpolator);
+    functionObjects[functionIndex]->SetOversamplingScale(1);
+  }
 
   // 1. OK, populate modelVector with the model image -- standard pixel scaling
   // OpenMP Parallel section; see CreateModelImage() for general notes on this
-- 
2.43.0


From 23ea73eb24a5b54c50987732fd4003b5db2a7e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:04 +0000
Subject: [PATCH 20/44] fix: multimfit bootstrap output includes image-section
 offsets

---
 core/model_object.h             |  3 ++-
 core/model_object_multimage.cpp | 25 ++++++++++++++++++++++++-
 core/model_object_multimage.h   |  3 +++
 3 files changed, 29 insertions(+), 2 deletions(-)

diff --git a/core/model_object.h b/core/model_object.h
index 6bfeac8..9a130d5 100644
--- a/core/model_object.h
+++ b/core/model_object.h
@@ -167,7 +167,8 @@ class ModelObject
 
     void GetFunctionLabels( vector<string>& functionLabels );
 
-    void  GetImageOffsets( double params[] );
+    // common, but specialized by ModelObjectMultImage
+    virtual void  GetImageOffsets( double params[] );
     
     virtual string GetParamHeader( );
 
diff --git a/core/model_object_multimage.cpp b/core/model_object_multimage.cpp
index c7e6932..9b0ce1f 100644
--- a/core/model_object_multimage.cpp
+++ b/core/model_object_multimage.cpp
@@ -653,6 +653,7 @@ string ModelObjectMultImage::PrintModelParamsHorizontalString( const double para
   double  x0, y0, paramVal;
   int  image1Offset_x0, image1Offset_y0;
   int  nParamsThisFunc, k, indexOffset, nImageParams;
+  vector<double>  paramOffsets(nParamsTot, 0.0);
   string  outputString = "";
 
   // pixel offsets for reference image
@@ -660,11 +661,14 @@ string ModelObjectMultImage::PrintModelParamsHorizontalString( const double para
   // number of image-description parameters
   nImageParams = (nModelObjects - 1)*N_IMAGE_PARAMS;
   
+  // pixel offsets for all images (including X0,Y0 of 2nd and later images)
+  GetImageOffsets(paramOffsets.data());
+
   // Line should start with parameter value (no initial separator)
   outputString = PrintToString("%#.10g", params[0]);
   // now we precede each subsequent parameter value with separator
   for (int i = 1; i < nImageParams; i++)
-    outputString += PrintToString("%s%#.10g", separator.c_str(), params[i]);
+    outputString += PrintToString("%s%#.10g", separator.c_str(), params[i] + paramOffsets[i]);
 
   indexOffset = nImageParams;
   for (int n = 0; n < nFunctions; n++) {
@@ -690,6 +694,25 @@ string ModelObjectMultImage::PrintModelParamsHorizontalString( const double para
 }
 
 
+/* ---------------- PUBLIC METHOD: GetImageOffsets --------------------- */
+/// Multi-image version: sets the X0,Y0 offsets of the image-description parameters
+/// (2nd and subsequent images) as well as those of each function set (reference image).
+/// As in ModelObject::GetImageOffsets, the input array is assumed to be all zeros.
+void ModelObjectMultImage::GetImageOffsets( double params[] )
+{
+  int  offsetX0, offsetY0;
+  int  nImageParams = (nModelObjects - 1)*N_IMAGE_PARAMS;
+
+  for (int i = 1; i < nModelObjects; i++) {
+    std::tie(offsetX0, offsetY0) = modelObjectsVect[i]->GetImageOffsets();
+    // X0,Y0 are last two parameters for each image
+    params[i*N_IMAGE_PARAMS - 2] = offsetX0;
+    params[i*N_IMAGE_PARAMS - 1] = offsetY0;
+  }
+  modelObjectsVect[0]->GetImageOffsets(params + nImageParams);
+}
+
+
 // FIXME: Update this to generate base model + image params headers
 // i = 0 up to (nModelObjects - 1)*N_IMAGE_PARAMS ==> image parameters
 // i = (nModelObjects - 1)*N_IMAGE_PARAMS up to nParamsTot ==> model parameters
diff --git a/core/model_object_multimage.h b/core/model_object_multimage.h
index d86b57d..0b514ce 100644
--- a/core/model_object_multimage.h
+++ b/core/model_object_multimage.h
@@ -101,6 +101,9 @@ class ModelObjectMultImage : public ModelObject
     string PrintModelParamsHorizontalString( const double params[], 
     											const string& separator="\t" ) override;
 
+    using ModelObject::GetImageOffsets;
+    void GetImageOffsets( double params[] ) override;
+
     string GetParamHeader( ) override;
 
 
-- 
2.43.0


From 8e700bc4c45a55f45d8db28ff3e40bc1d5b27f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:04 +0000
Subject: [PATCH 21/44] fix: multimfit image-info output file uses full-image
 coordinates

---
 core/print_results_multi.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/core/print_results_multi.cpp b/core/print_results_multi.cpp
index 3f99fca..da7f8bc 100644
--- a/core/print_results_multi.cpp
+++ b/core/print_results_multi.cpp
@@ -104,6 +104,14 @@ void SaveImageInfoParameters( double *params, ModelObjectMultImage *multModel,
   double  *paramErrs = nullptr;
 
   multModel->GetAllImageDescriptionParameters(params, imageDescriptionParams);
+  // correct X0,Y0 for image-section offsets (file should have full-image coordinates,
+  // as used in the input image-info file)
+  for (int i = 1; i < nImages; i++) {
+    int  offsetX0, offsetY0;
+    std::tie(offsetX0, offsetY0) = multModel->GetOffsetsForImage(i);
+    imageDescriptionParams[i*N_IMAGE_PARAMS - 2] += offsetX0;
+    imageDescriptionParams[i*N_IMAGE_PARAMS - 1] += offsetY0;
+  }
 
   whichSolver = solverResults.GetSolverType();
   if (whichSolver == MPFIT_SOLVER) {
-- 
2.43.0


From 86f419a8ad2cdb346c5ec51eaad7208605343957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:11 +0000
Subject: [PATCH 22/44] fix: multimfit image-info output file keeps NCOMBINED
 value and mask/error conventions

---
 core/print_results_multi.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/core/print_results_multi.cpp b/core/print_results_multi.cpp
index da7f8bc..a93d1d0 100644
--- a/core/print_results_multi.cpp
+++ b/core/print_results_multi.cpp
@@ -184,12 +184,18 @@ void PrintSingleImageInfoToStrings( const ImageInfo& imInfo, vector<string>& str
   if (imInfo.readNoise != 0.0)
     strings.push_back(PrintToString("READNOISE\t\t%g\n", imInfo.readNoise));
   if (imInfo.nCombined != 1)
-    strings.push_back(PrintToString("NCOMBINED\t\t%g\n", imInfo.nCombined));
+    strings.push_back(PrintToString("NCOMBINED\t\t%d\n", imInfo.nCombined));
   // mask, error, and PSF images
   if (imInfo.maskImage_present)
     strings.push_back(PrintToString("MASK    %s\n", imInfo.maskImageFileName.c_str()));
+  if (imInfo.maskFormat == MASK_ZERO_IS_BAD)
+    strings.push_back("MASK_ZERO_IS_BAD\n");
   if (imInfo.errorImage_present)
     strings.push_back(PrintToString("ERROR    %s\n", imInfo.errorImageFileName.c_str()));
+  if (imInfo.errorType == WEIGHTS_ARE_VARIANCES)
+    strings.push_back("ERRORS_ARE_VARIANCES\n");
+  else if (imInfo.errorType == WEIGHTS_ARE_WEIGHTS)
+    strings.push_back("ERRORS_ARE_WEIGHTS\n");
   if (imInfo.psfImage_present)
     strings.push_back(PrintToString("PSF    %s\n", imInfo.psfImageFileName.c_str()));
 
-- 
2.43.0


From 5130394565047c1bcf13b72a44d3ecc087588713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:36 +0000
Subject: [PATCH 23/44] fix: L-M fit reports statistic of the returned
 parameters, not of a rejected step

---
 solvers/mpfit.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/solvers/mpfit.cpp b/solvers/mpfit.cpp
index 4c7e31f..507099f 100644
--- a/solvers/mpfit.cpp
+++ b/solvers/mpfit.cpp
@@ -1049,8 +1049,9 @@ int mpfit( mp_func funct, int m, int npar, double *xall, mp_par *pars, mp_config
   }      
 
   if (result) {
-    result->bestnorm = mp_dmax1(fnorm,fnorm1);
-    result->bestnorm *= result->bestnorm;
+    // fnorm is the norm for the returned parameter values (fnorm1 can be that of a
+    // rejected trial step)
+    result->bestnorm = fnorm*fnorm;
     result->orignorm = orignorm;
     result->status   = info;
     result->niter    = iter;
-- 
2.43.0


From a67ab0ef8bde760b568b57835bc2e821616f9ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:45 +0000
Subject: [PATCH 24/44] fix: NLopt fits interrupted by the user return the best
 parameters seen so far (NEWUOA could return NaN or out-of-limits values)

---
 solvers/nlopt_fit.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/solvers/nlopt_fit.cpp b/solvers/nlopt_fit.cpp
index 0452a2f..9598529 100644
--- a/solvers/nlopt_fit.cpp
+++ b/solvers/nlopt_fit.cpp
@@ -81,6 +81,9 @@ const int  REPORT_STEPS_PER_VERBOSE_OUTPUT = 5;
 // Module variables -- used to control user feedback within myfunc_nlopt_gen
 static int  verboseOutput;
 static int  funcCallCount = 0;
+// best fit-statistic value encountered so far, and the corresponding parameter values
+static double  bestStatisticVal;
+static vector<double>  bestParams;
 nlopt_opt  theOptimizer;
 string  currentSolverName;
 
@@ -124,6 +127,10 @@ double myfunc_nlopt_gen( unsigned n, const double *x, double *grad, void *my_fun
   nlopt_result  junk;
   
   fitStatistic = theModel->GetFitStatistic(params);
+  if (fitStatistic < bestStatisticVal) {
+    bestStatisticVal = fitStatistic;
+    bestParams.assign(x, x + n);
+  }
   
   // feedback to user
   funcCallCount++;
@@ -313,10 +320,19 @@ int NLOptFit( int nParamsTot, double *paramVector, vector<mp_par> parameterLimit
   
   // record initial fit-statistic value
   initialStatisticVal = theModel->GetFitStatistic(paramVector);
+  bestStatisticVal = std::isnan(initialStatisticVal) ? HUGE_VAL : initialStatisticVal;
+  bestParams.assign(paramVector, paramVector + nParamsTot);
 
   // Specify level of verbosity and start the optimization
   verboseOutput = verbose;
   result = nlopt_optimize(theOptimizer, paramVector, &finalStatisticVal);
+  // Parameter values returned by NLopt after a forced stop are not always meaningful 
+  // (e.g., with NEWUOA they can be NaN or outside the limits)
+  if (result == NLOPT_FORCED_STOP) {
+    for (int i = 0; i < nParamsTot; i++)
+      paramVector[i] = bestParams[i];
+    finalStatisticVal = bestStatisticVal;
+  }
   if (verbose >= 0)
     InterpretResult(result, algorithmName);
 
-- 
2.43.0


From e7bb5d92fc65de90a4c60ca3b81247f13f1c1ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:45 +0000
Subject: [PATCH 25/44] fix: an interrupted multimfit run saves its parameters
 under the current_parameters name, like imfit does

---
 core/definitions_multimage.h | 1 +
 core/multimfit_main.cpp      | 5 ++++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/core/definitions_multimage.h b/core/definitions_multimage.h
index 0a5603d..49caa78 100644
--- a/core/definitions_multimage.h
+++ b/core/definitions_multimage.h
@@ -21,6 +21,7 @@ const int N_IMAGE_PARAMS = 5;  // pixScale, rotation, intensityScale, X0_0, Y0_0
 #define DEFAULT_MAKEMULTIMAGE_OUTPUT_FILENAME   "modelimage_multi"
 
 #define DEFAULT_BESTFIT_ROOTNAME   "bestfit_parameters_multimfit"
+#define USER_INTERRUPT_OUTPUT_ROOTNAME   "current_parameters_multimfit"
 
 
 
diff --git a/core/multimfit_main.cpp b/core/multimfit_main.cpp
index 8cdf4b9..6d72d37 100644
--- a/core/multimfit_main.cpp
+++ b/core/multimfit_main.cpp
@@ -729,6 +729,9 @@ int main(int argc, char *argv[])
       LOG_F(INFO, "* Done with fit.");
     							
     PrintResults(paramsVect, theMultImageModel, nFreeParams, fitStatus, resultsFromSolver);
+    // If user interrupted the fit (e.g. via Ctrl-C), save parameters in special files
+    if (userInterrupted)
+      options->outputParameterRootName = USER_INTERRUPT_OUTPUT_ROOTNAME;
     string  outputSummaryFile = options->outputParameterRootName + "_summary.dat";
     printf("\nSaving summary of fit in %s...\n", outputSummaryFile.c_str());
     SaveParameters(paramsVect, theMultImageModel, outputSummaryFile, programHeader,
@@ -846,7 +849,7 @@ int main(int argc, char *argv[])
   // Note that from this point on, we handle failures reported by SaveVectorAsImage as
   // "warnings" and don't immediately exit, since we're close to the end of the program
   // anyway, and the user might just have given us a bad path for one of the output images
-  if (options->saveModel) {
+  if ((options->saveModel) && (! userInterrupted)) {
     theMultImageModel->CreateAllModelImages(paramsVect);
     for (int i = 0; i < nDataImages; i++) {
       std::tie(nColumns_thisImage, nRows_thisImage) = theMultImageModel->GetImageDimensions(i);
-- 
2.43.0


From f5a6fe925b20127779598618eca009ee09d7a157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:34 +0000
Subject: [PATCH 26/44] fix: ReadImageAsVector reports a failed memory
 allocation instead of crashing

---
 core/image_io.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/core/image_io.cpp b/core/image_io.cpp
index 159f49a..e665b25 100644
--- a/core/image_io.cpp
+++ b/core/image_io.cpp
@@ -288,6 +288,12 @@ double * ReadImageAsVector( const std::string filename, int *nColumns, int *nRow
   
   // Read in the image data
   imageVector = fftw_alloc_real(nPixelsTot);
+  if (imageVector == nullptr) {
+    fprintf(stderr, "\n*** ERROR: Unable to allocate memory for image from FITS file \"%s\"!\n", filename.c_str());
+    fprintf(stderr, "    (Image size is %d x %d pixels)\n", n_columns, n_rows);
+    fits_close_file(imfile_ptr, &status);
+    return nullptr;
+  }
   problems = fits_read_pix(imfile_ptr, TDOUBLE, firstPixel, nPixelsTot, nullptr, imageVector,
                             nullptr, &status);
   if ( problems ) {
-- 
2.43.0


From 8ff7197c79e5f8084f615698706c4003f3d246dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:34 +0000
Subject: [PATCH 27/44] fix: ModelObject reports failed allocations of PSF,
 weight and deviates vectors instead of crashing

---
 core/model_object.cpp       | 30 ++++++++++++++++++++++++++++--
 core/model_object.h         |  2 +-
 core/setup_model_object.cpp |  6 +++++-
 3 files changed, 34 insertions(+), 4 deletions(-)

diff --git a/core/model_object.cpp b/core/model_object.cpp
index 720fb4b..4e5b6dd 100644
--- a/core/model_object.cpp
+++ b/core/model_object.cpp
@@ -838,6 +838,11 @@ int ModelObject::AddPSFVector( long nPixels_psf, int nColumns_psf, int nRows_psf
 
   // store PSF pixels locally (and check for bad pixel values)
   localPsfPixels = (double *) calloc((size_t)nPixels_psf, sizeof(double));
+  if (localPsfPixels == nullptr) {
+    fprintf(stderr, "*** ERROR: Unable to allocate memory for PSF image!\n");
+    fprintf(stderr, "    (Requested image size was %ld pixels)\n", nPixels_psf);
+    return -1;
+  }
   localPsfPixels_allocated = true;
   for (long i = 0; i < nPixels_psf; i++) {
   	pixVal = psfPixels[i];
@@ -992,6 +997,17 @@ int ModelObject::FinalSetupForFitting( )
     maskExists = true;
   }
 
+  // Make sure the chi^2 computation will have the memory it needs
+  if ((! useCashStatistic) && (! deviatesVectorAllocated)) {
+    deviatesVector = (double *) calloc((size_t)nDataVals, sizeof(double));
+    if (deviatesVector == nullptr) {
+      fprintf(stderr, "*** ERROR: Unable to allocate memory for deviates vector!\n");
+      fprintf(stderr, "    (Requested vector size was %ld pixels)\n", nDataVals);
+      return -1;
+    }
+    deviatesVectorAllocated = true;
+  }
+
   // Identify currently unmasked data pixels which have non-finite values and 
   // add those pixels to the mask
   for (z = 0; z < nDataVals; z++) {
@@ -1560,6 +1576,11 @@ int ModelObject::UseCashStatistic( )
   // nDataVals *might* have changed; we are currently assuming it hasn't!
   if (! weightVectorAllocated) {
     weightVector = (double *) calloc((size_t)nDataVals, sizeof(double));
+    if (weightVector == nullptr) {
+      fprintf(stderr, "*** ERROR: Unable to allocate memory for weight vector!\n");
+      fprintf(stderr, "    (Requested vector size was %ld pixels)\n", nDataVals);
+      return -1;
+    }
     weightVectorAllocated = true;
   }
   else {
@@ -1588,10 +1609,11 @@ int ModelObject::UseCashStatistic( )
 
 /* ---------------- PUBLIC METHOD: UsePoissonMLR ----------------------- */
 
-void ModelObject::UsePoissonMLR( )
+/// Returns -1 if memory allocation failed, otherwise 0.
+int ModelObject::UsePoissonMLR( )
 {
   poissonMLR = true;
-  UseCashStatistic();
+  return UseCashStatistic();
 }
 
 
@@ -1646,6 +1668,10 @@ double ModelObject::ChiSquared( double params[] )
   
   if (! deviatesVectorAllocated) {
     deviatesVector = (double *) calloc((size_t)nDataVals, sizeof(double));
+    if (deviatesVector == nullptr) {
+      fprintf(stderr, "*** ERROR: Unable to allocate memory for deviates vector!\n");
+      exit(-1);
+    }
     deviatesVectorAllocated = true;
   }
   
diff --git a/core/model_object.h b/core/model_object.h
index 9a130d5..d49a063 100644
--- a/core/model_object.h
+++ b/core/model_object.h
@@ -145,7 +145,7 @@ class ModelObject
 
     virtual int UseCashStatistic( );
 
-    virtual void UsePoissonMLR( );
+    virtual int UsePoissonMLR( );
  
     virtual int WhichFitStatistic( bool verbose=false );
  
diff --git a/core/setup_model_object.cpp b/core/setup_model_object.cpp
index 9d64ca8..bd4cd9b 100644
--- a/core/setup_model_object.cpp
+++ b/core/setup_model_object.cpp
@@ -128,7 +128,11 @@ ModelObject* SetupModelObject( std::shared_ptr<OptionsBase> options, vector<int>
       }
     } 
     else if (options->usePoissonMLR) {
-      newModelObj->UsePoissonMLR();
+      status = newModelObj->UsePoissonMLR();
+      if (status < 0) {
+        fprintf(stderr, "*** ERROR: Failure in ModelObject::UsePoissonMLR!\n\n");
+        exit(-1);
+      }
     }
     else {
       // normal chi^2 statistics, so we either add error/noise image, or calculate it
-- 
2.43.0


From 9bfc90124bfb325d3b139e0419c47f18bb0bfa42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:34 +0000
Subject: [PATCH 28/44] fix: Convolver1D checks its memory allocations

---
 profile_fitting/convolver1d.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/profile_fitting/convolver1d.cpp b/profile_fitting/convolver1d.cpp
index babf9ab..191d51f 100644
--- a/profile_fitting/convolver1d.cpp
+++ b/profile_fitting/convolver1d.cpp
@@ -114,6 +114,12 @@ int Convolver1D::DoFullSetup( int debugLevel, bool doFFTWMeasure )
   psf_fft_cmplx = (fftw_complex*) fftw_malloc(sizeof(fftw_complex) * nPixels_padded);
   multiplied_cmplx = (fftw_complex*) fftw_malloc(sizeof(fftw_complex) * nPixels_padded);
   convolvedProfile_cmplx = (fftw_complex*) fftw_malloc(sizeof(fftw_complex) * nPixels_padded);
+  if ( (profile_in_cmplx == NULL) || (profile_fft_cmplx == NULL) || (psf_in_cmplx == NULL)
+  		|| (psf_fft_cmplx == NULL) || (multiplied_cmplx == NULL) 
+  		|| (convolvedProfile_cmplx == NULL) ) {
+    fprintf(stderr, "*** ERROR: Convolver1D::DoFullSetup: memory allocation failure!\n");
+    return -2;
+  }
   fftVectorsAllocated = true;
 
   // set up FFTW plans
-- 
2.43.0


From 903beceba640269e37b8d6ae4c8663c11c6a5e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:34 +0000
Subject: [PATCH 29/44] fix: DREAM reports a failed allocation of the chain
 arrays instead of crashing

---
 cdream/array.h   | 2 ++
 cdream/dream.cpp | 8 +++++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/cdream/array.h b/cdream/array.h
index 8b5e551..dadc2fa 100644
--- a/cdream/array.h
+++ b/cdream/array.h
@@ -52,6 +52,7 @@ public:
   inline T& operator()(size_t x, size_t y) { return data[x*ny + y]; }
   inline T& operator[](int i) { return data[i]; }
   inline void set_all(const T& val) { for (size_t i(0); i < nx*ny; ++i) data[i] = val; }
+  inline bool allocated() const { return data != NULL; }
   inline size_t n_x() const { return nx; }
   inline size_t n_y() const { return ny; }
   inline size_t size() const { return nx*ny; }
@@ -73,6 +74,7 @@ public:
   inline T* pt(size_t x, size_t y, size_t z = 0) { return data + (x*ny*nz + y*nz + z); }
   inline T& operator()(size_t x, size_t y, size_t z) { return data[x*ny*nz + y*nz + z]; }
   inline void set_all(const T& val) { for (size_t i(0); i < nx*ny*nz; ++i) data[i] = val; }
+  inline bool allocated() const { return data != NULL; }
   inline size_t n_x() const { return nx; }
   inline size_t n_y() const { return ny; }
   inline size_t n_z() const { return nz; }
diff --git a/cdream/dream.cpp b/cdream/dream.cpp
index f1113ce..41267f8 100644
--- a/cdream/dream.cpp
+++ b/cdream/dream.cpp
@@ -103,6 +103,13 @@ int dream( const dream_pars* p, rng::RngStream* rng )
 
   Array2D<double> proposal(p->numChains, p->nvar);
   Array2D<double> proposal_two(p->numChains, p->nvar);
+  Array2D<int> CRm(p->numChains, p->loopSteps);
+  if (! (state.allocated() && lik.allocated() && proposal.allocated() 
+  		&& proposal_two.allocated() && CRm.allocated())) {
+    fprintf(stderr, "DREAM: unable to allocate memory for %d chains of length %d!\n", 
+    		p->numChains, p->maxEvals);
+    return DREAM_EXIT_ERROR;
+  }
   proposal.set_all(0.0);
   proposal_two.set_all(0.0);
 
@@ -203,7 +210,6 @@ int dream( const dream_pars* p, rng::RngStream* rng )
 
   vector<unsigned> L(p->nCR, 0);      // candidates for crossover
   vector<unsigned> totalSteps(p->nCR, 0);
-  Array2D<int> CRm(p->numChains, p->loopSteps);
   vector<double> delta_tot(p->nCR, 1.0);
   vector<double> sd(p->nvar, 0.0);
   vector<double> delta_normX(p->numChains, 0.0);
-- 
2.43.0


From 1410dc467e0f9f9d8a5079f03a9892a59760b7a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:08 +0000
Subject: [PATCH 30/44] fix: imfit and multimfit stop with an error if the
 solver ran out of memory, instead of saving the initial values as best fit

---
 core/imfit_main.cpp         |  4 ++++
 core/multimfit_main.cpp     | 10 +++++++++-
 solvers/dispatch_solver.cpp | 12 ++++++++++++
 solvers/dispatch_solver.h   |  4 ++++
 4 files changed, 29 insertions(+), 1 deletion(-)

diff --git a/core/imfit_main.cpp b/core/imfit_main.cpp
index c6519a7..3f01161 100644
--- a/core/imfit_main.cpp
+++ b/core/imfit_main.cpp
@@ -390,6 +390,10 @@ int main(int argc, char *argv[])
     if (stopSignal_flag == 1)
       userInterrupted = true;
 #endif
+    if (SolverOutOfMemory(options->solver, fitStatus)) {
+      fprintf(stderr, "\n*** ERROR: Not enough memory for solver -- no fit was done!\n\n");
+      exit(-1);
+    }
     							
     PrintResults(paramsVect, theModel, nFreeParams, fitStatus, resultsFromSolver);
   }
diff --git a/core/multimfit_main.cpp b/core/multimfit_main.cpp
index 6d72d37..b0f40df 100644
--- a/core/multimfit_main.cpp
+++ b/core/multimfit_main.cpp
@@ -490,7 +490,11 @@ int main(int argc, char *argv[])
     }
   } 
   else if (options->usePoissonMLR) {
-    theMultImageModel->UsePoissonMLR();
+    status = theMultImageModel->UsePoissonMLR();
+    if (status < 0) {
+      fprintf(stderr, "*** ERROR: Failure in ModelObjectMultImage::UsePoissonMLR!\n\n");
+      return -1;
+    }
   }
 
 
@@ -727,6 +731,10 @@ int main(int argc, char *argv[])
 #endif
     if (options->loggingOn)
       LOG_F(INFO, "* Done with fit.");
+    if (SolverOutOfMemory(options->solver, fitStatus)) {
+      fprintf(stderr, "\n*** ERROR: Not enough memory for solver -- no fit was done!\n\n");
+      exit(-1);
+    }
     							
     PrintResults(paramsVect, theMultImageModel, nFreeParams, fitStatus, resultsFromSolver);
     // If user interrupted the fit (e.g. via Ctrl-C), save parameters in special files
diff --git a/solvers/dispatch_solver.cpp b/solvers/dispatch_solver.cpp
index a4fe559..16ad41c 100644
--- a/solvers/dispatch_solver.cpp
+++ b/solvers/dispatch_solver.cpp
@@ -92,4 +92,16 @@ int DispatchToSolver( int solverID, int nParametersTot, int nFreeParameters, int
 }
 
 
+bool SolverOutOfMemory( int solverID, int fitStatus )
+{
+  if (solverID == MPFIT_SOLVER)
+    return (fitStatus == MP_ERR_MEMORY);
+#ifndef NO_NLOPT
+  if ((solverID == NMSIMPLEX_SOLVER) || (solverID == GENERIC_NLOPT_SOLVER))
+    return (fitStatus == NLOPT_OUT_OF_MEMORY);
+#endif
+  return false;
+}
+
+
 /* END OF FILE: dispatch_solver.cpp -------------------------------------- */
diff --git a/solvers/dispatch_solver.h b/solvers/dispatch_solver.h
index 88b6276..d023545 100644
--- a/solvers/dispatch_solver.h
+++ b/solvers/dispatch_solver.h
@@ -78,5 +78,9 @@ int DispatchToSolver( int solverID, int nParametersTot, int nFreeParameters, int
 					SolverResults *solverResults, string& solverName, 
 					unsigned long rngSeed=0, bool useLHS=false );
 
+/// Returns true if fitStatus (the value returned by DispatchToSolver) means that the
+/// solver was unable to allocate the memory it needed
+bool SolverOutOfMemory( int solverID, int fitStatus );
+
 
 #endif /* _DISPATCH_SOLVER_H_ */
-- 
2.43.0


From 4a5b2ca9e309336bea7b6411768a3cbeaccec8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:29 +0000
Subject: [PATCH 31/44] fix: failed bootstrap iterations are reported instead
 of silently dropped

---
 core/bootstrap_errors.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/core/bootstrap_errors.cpp b/core/bootstrap_errors.cpp
index 06e7874..d2abf75 100644
--- a/core/bootstrap_errors.cpp
+++ b/core/bootstrap_errors.cpp
@@ -184,6 +184,7 @@ int BootstrapErrorsBase( const double *bestfitParams, vector<mp_par> parameterLi
   if (status < 0) {
     fprintf(stderr, "Error encountered during bootstrap setup!\n");
     free(paramsVect);
+    free(paramOffsets);
     return -1;
   }
 
@@ -204,7 +205,10 @@ int BootstrapErrorsBase( const double *bestfitParams, vector<mp_par> parameterLi
   nSuccessfulIters = 0;
   for (nIter = 0; nIter < nIterations; nIter++) {
     fflush(stdout);
-    theModel->MakeBootstrapSample();
+    if (theModel->MakeBootstrapSample() < 0) {
+      fprintf(stderr, "Error encountered during bootstrap resampling!\n");
+      break;
+    }
     for (i = 0; i < nParams; i++)
       paramsVect[i] = bestfitParams[i];
     if ((whichStatistic == FITSTAT_CHISQUARE) || (whichStatistic == FITSTAT_POISSON_MLR)) {
@@ -241,6 +245,9 @@ int BootstrapErrorsBase( const double *bestfitParams, vector<mp_par> parameterLi
       }
       nSuccessfulIters += 1;
     }
+    else
+      fprintf(stderr, "\n*** WARNING: bootstrap iteration %d failed (solver status = %d) and is ignored!\n", 
+      		nIter + 1, status);
     
     // print/update progress bar
     nDone = nIter + 1;
@@ -289,6 +296,7 @@ int BootstrapErrorsArrayOnly( const double *bestfitParams, vector<mp_par> parame
   if (status < 0) {
     fprintf(stderr, "Error encountered during bootstrap setup!\n");
     free(paramsVect);
+    free(paramOffsets);
     return -1;
   }
 
@@ -302,7 +310,10 @@ int BootstrapErrorsArrayOnly( const double *bestfitParams, vector<mp_par> parame
   for (nIter = 0; nIter < nIterations; nIter++) {
   	if (verboseFlag)
   	  fflush(stdout);
-    theModel->MakeBootstrapSample();
+    if (theModel->MakeBootstrapSample() < 0) {
+      fprintf(stderr, "Error encountered during bootstrap resampling!\n");
+      break;
+    }
     for (i = 0; i < nParams; i++)
       paramsVect[i] = bestfitParams[i];
     if ((whichStatistic == FITSTAT_CHISQUARE) || (whichStatistic == FITSTAT_POISSON_MLR)) {
@@ -333,6 +344,9 @@ int BootstrapErrorsArrayOnly( const double *bestfitParams, vector<mp_par> parame
       }
       nSuccessfulIters += 1;
     }
+    else
+      fprintf(stderr, "\n*** WARNING: bootstrap iteration %d failed (solver status = %d) and is ignored!\n", 
+      		nIter + 1, status);
 
 	if (verboseFlag) {
       // print/update progress bar
-- 
2.43.0


From f0d589ef20de8398717105aa3a597ee1881315c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:30 +0000
Subject: [PATCH 32/44] fix: a failed bootstrap setup leaves the model in its
 normal (non-resampled) state

---
 core/model_object.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/model_object.cpp b/core/model_object.cpp
index 4e5b6dd..c2a917b 100644
--- a/core/model_object.cpp
+++ b/core/model_object.cpp
@@ -2083,6 +2083,8 @@ int ModelObject::UseBootstrap( )
   // later on, every time we need a new sample. But calling this now *does* force
   // allocation of the bootstrapIndices array....
   status = MakeBootstrapSample();
+  if (status < 0)
+    doBootstrap = false;   // no resampling indices, so continue to use original data
   return status;
 }
 
-- 
2.43.0


From 85e48e07b6cee545bef3b5895485f99b8e6670b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:33 +0000
Subject: [PATCH 33/44] fix: a failed allocation in PSF interpolation is
 reported instead of aborting

---
 function_objects/psf_interpolators.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/function_objects/psf_interpolators.cpp b/function_objects/psf_interpolators.cpp
index ff60889..2a09a0a 100644
--- a/function_objects/psf_interpolators.cpp
+++ b/function_objects/psf_interpolators.cpp
@@ -20,6 +20,7 @@
 #include <math.h>
 
 // The following requires GSL version 2.0 or later
+#include "gsl/gsl_errno.h"
 #include "gsl/gsl_spline2d.h"
 #include "psf_interpolators.h"
 
@@ -60,10 +61,20 @@ PsfInterpolator_bicubic::PsfInterpolator_bicubic( double *inputImage, int nCols_
   deltaYMin = -yBound;
   deltaYMax = yBound;
   
+  // handle possible memory-allocation failures ourselves (GSL's default is to abort)
+  int  result = GSL_ENOMEM;
+  gsl_error_handler_t *previousHandler = gsl_set_error_handler_off();
   xacc = gsl_interp_accel_alloc();
   yacc = gsl_interp_accel_alloc();
   splineInterp = gsl_spline2d_alloc(gsl_interp2d_bicubic, nColumns, nRows);
-  int result = gsl_spline2d_init(splineInterp, xArray, yArray, inputImage, nColumns, nRows);
+  if ((xacc != nullptr) && (yacc != nullptr) && (splineInterp != nullptr))
+    result = gsl_spline2d_init(splineInterp, xArray, yArray, inputImage, nColumns, nRows);
+  gsl_set_error_handler(previousHandler);
+  if (result != GSL_SUCCESS) {
+    fprintf(stderr, "*** ERROR: Unable to set up bicubic interpolation of PSF image (%s)!\n", 
+    		gsl_strerror(result));
+    exit(-1);
+  }
   
   interpolatorType = kInterpolator_bicubic;
 }
-- 
2.43.0


From 6156d358fd8ef81341b93a21c553e73200642fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:26 +0000
Subject: [PATCH 34/44] fix: incomplete configuration-file lines (FUNCTION
 without name, X0 as last line, etc.) are rejected instead of read past

---
 core/config_file_parser.cpp      | 19 +++++++++++++++++--
 core/imageparams_file_parser.cpp | 18 ++++++++++++++++++
 2 files changed, 35 insertions(+), 2 deletions(-)

diff --git a/core/config_file_parser.cpp b/core/config_file_parser.cpp
index 0fac7e3..c9c6a71 100644
--- a/core/config_file_parser.cpp
+++ b/core/config_file_parser.cpp
@@ -321,6 +321,16 @@ int VetConfigFile( vector<string>& inputLines, const vector<int>& origLineNumber
           break;
         }
       }
+      else {
+        // FUNCTION line must include name of function (check copy of line, since
+        // comment might contain function label)
+        string  functionLine = inputLines[i];
+        if (! ValidParameterLine(functionLine, true)) {
+          allOK = false;
+          *badLineNumber = origLineNumbers[i];
+          break;
+        }
+      }
     }
   }
   
@@ -415,10 +425,10 @@ int ParseFunctionSection( vector<string>& inputLines, const bool mode2D,
       i++;
       if (mode2D) {
         // X0 line should always be followed by Y0 line in 2D mode
-        if (inputLines[i].find("Y0", 0) == string::npos) {
+        if ((i >= (int)inputLines.size()) || (inputLines[i].find("Y0", 0) == string::npos)) {
           fprintf(stderr, "*** WARNING: A 'Y0' line must follow each 'X0' line in the configuration file!\n");
           fprintf(stderr, "   (X0 specification on input line %d should be followed by Y0 specification on next line)\n",
-          				origLineNumbers[i] - 1);
+          				origLineNumbers[i - 1]);
           return -1;
         }
         pLimitFound = AddParameterAndLimit(inputLines[i], parameterList, parameterLimits,
@@ -461,6 +471,11 @@ int ParseFunctionSection( vector<string>& inputLines, const bool mode2D,
       continue;
     }
     if (inOptionalParams) {
+      if (functionNumber < 1) {
+        fprintf(stderr, "*** WARNING: Optional parameters must follow a 'FUNCTION' line in the configuration file!\n");
+        fprintf(stderr, "    (Error on input line %d of configuration file)\n", origLineNumbers[i]);
+        return -1;
+      }
       AddOptionalParameter(inputLines[i], optionalParamsVect[functionNumber - 1]);
       i++;
     } else {
diff --git a/core/imageparams_file_parser.cpp b/core/imageparams_file_parser.cpp
index 0304464..c39350c 100644
--- a/core/imageparams_file_parser.cpp
+++ b/core/imageparams_file_parser.cpp
@@ -156,6 +156,24 @@ bool VetInputLines( const vector<string> &inputLines, const vector<int> &origLin
         errorCodes.push_back(IMAGEPARAMS_FILE_ERROR_BADLINE);
         nErrors += 1;
       }
+      else {
+        // image sizes and parameter limits consisting of two comma-separated values
+        vector<string>  stringPieces, subPieces;
+        string  valuePair;
+        SplitString(currentLine, stringPieces);
+        if ((stringPieces[0] == PARAMETER_NAME_NROWS_NCOLS) || (stringPieces[0] == PARAMETER_NAME_NCOLS_NROWS))
+          valuePair = stringPieces[1];
+        else if ((stringPieces.size() > 2) && (stringPieces[2].find(',', 0) != string::npos))
+          valuePair = stringPieces[2];
+        if (valuePair.length() > 0) {
+          SplitString(valuePair, subPieces, ",");
+          if (subPieces.size() != 2) {
+            badLineNumbers.push_back(origLineNumbers[i]);
+            errorCodes.push_back(IMAGEPARAMS_FILE_ERROR_BADLINE);
+            nErrors += 1;
+          }
+        }
+      }
     }
   }
 
-- 
2.43.0


From 902412f98b2eb2caa112316a4a835d33ff58daeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:17 +0000
Subject: [PATCH 35/44] fix: images without any pixels are rejected instead of
 crashing the program

---
 core/image_io.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/core/image_io.cpp b/core/image_io.cpp
index e665b25..1980deb 100644
--- a/core/image_io.cpp
+++ b/core/image_io.cpp
@@ -122,12 +122,17 @@ bool CheckHDUForImage( fitsfile *imageFile_ptr, int hduNum, int *status_ptr )
 {
   bool validImageFlag = false;
   int  hduType, naxis;
+  long  naxes[2] = {0, 0};
 
   fits_movabs_hdu(imageFile_ptr, hduNum, &hduType, status_ptr);
   if (hduType == IMAGE_HDU) {   /* primary array or image HDU */
     fits_get_img_dim(imageFile_ptr, &naxis, status_ptr);
-    if (naxis == 2)
-      validImageFlag = true;
+    if (naxis == 2) {
+      // (an image without any pixels is not usable)
+      fits_get_img_size(imageFile_ptr, 2, naxes, status_ptr);
+      if ((naxes[0] > 0) && (naxes[1] > 0))
+        validImageFlag = true;
+    }
   }
   return validImageFlag;
 }
-- 
2.43.0


From 1a29c425b249fc548ba9843cd4d111f4a9f8c3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:06 +0000
Subject: [PATCH 36/44] fix: masked non-finite pixels no longer turn the
 Poisson-MLR statistic into NaN

---
 core/model_object.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/model_object.cpp b/core/model_object.cpp
index c2a917b..6184d53 100644
--- a/core/model_object.cpp
+++ b/core/model_object.cpp
@@ -703,7 +703,8 @@ void ModelObject::GenerateExtraCashTerms( )
     dataVal = effectiveGain*(dataVector[z] + originalSky);
     // the following is strictly OK only for dataVal == 0 (lim_{x -> 0} x ln(x) = 0); 
     // the case of dataVal < 0 is undefined
-    if (dataVal <= 0.0)
+    // (non-finite pixels are masked; their terms must not turn the total into NaN)
+    if ((! isfinite(dataVal)) || (dataVal <= 0.0))
       extraTerm = 0.0;
     else
       extraTerm = dataVal*log(dataVal) - dataVal;
-- 
2.43.0


From b1ff99909cfa6e044b741c5faca3427998511ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:43 +0000
Subject: [PATCH 37/44] fix: flags in image-info files (MASK_ZERO_IS_BAD etc.)
 are accepted, as saved by multimfit

---
 core/imageparams_file_parser.cpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/core/imageparams_file_parser.cpp b/core/imageparams_file_parser.cpp
index c39350c..546579f 100644
--- a/core/imageparams_file_parser.cpp
+++ b/core/imageparams_file_parser.cpp
@@ -109,6 +109,21 @@ void ReportConfigError( const vector<int> &errorCodes,
 }
 
 
+// Returns true if the line is one of the flags, which need no value
+static bool IsFlagLine( const string &currentLine )
+{
+  vector<string>  stringPieces;
+  
+  SplitString(currentLine, stringPieces);
+  if (stringPieces.empty())
+    return false;
+  return ( (stringPieces[0] == PARAMETER_FLAG_MASK_ZERO_IS_GOOD)
+  			|| (stringPieces[0] == PARAMETER_FLAG_MASK_ZERO_IS_BAD)
+  			|| (stringPieces[0] == PARAMETER_FLAG_ERRORS_ARE_SIGMAS)
+  			|| (stringPieces[0] == PARAMETER_FLAG_ERRORS_ARE_VARIANCES)
+  			|| (stringPieces[0] == PARAMETER_FLAG_ERRORS_ARE_WEIGHTS) );
+}
+
 
 bool VetInputLines( const vector<string> &inputLines, const vector<int> &origLineNumbers,
 					vector<int> &errorCodes, vector<int> &badLineNumbers )
@@ -151,6 +166,8 @@ bool VetInputLines( const vector<string> &inputLines, const vector<int> &origLin
     }
     // Currently, we have two possibilities: FUNCTIONS_START or a parameter line
     if (! (currentLine.find("FUNCTIONS_START", 0) != string::npos)) {
+      if (IsFlagLine(currentLine))
+        continue;
       if (! ValidParameterLine(currentLine, true)) {
         badLineNumbers.push_back(origLineNumbers[i]);
         errorCodes.push_back(IMAGEPARAMS_FILE_ERROR_BADLINE);
-- 
2.43.0


From 53b237cbc767485d02bc2f2bbb3de652617934d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:43 +0000
Subject: [PATCH 38/44] fix: multimfit keeps the exposure time in its saved
 image-info file

---
 core/print_results_multi.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/print_results_multi.cpp b/core/print_results_multi.cpp
index a93d1d0..26dda1f 100644
--- a/core/print_results_multi.cpp
+++ b/core/print_results_multi.cpp
@@ -185,6 +185,8 @@ void PrintSingleImageInfoToStrings( const ImageInfo& imInfo, vector<string>& str
     strings.push_back(PrintToString("READNOISE\t\t%g\n", imInfo.readNoise));
   if (imInfo.nCombined != 1)
     strings.push_back(PrintToString("NCOMBINED\t\t%d\n", imInfo.nCombined));
+  if (imInfo.expTime != 1.0)
+    strings.push_back(PrintToString("EXPTIME\t\t%g\n", imInfo.expTime));
   // mask, error, and PSF images
   if (imInfo.maskImage_present)
     strings.push_back(PrintToString("MASK    %s\n", imInfo.maskImageFileName.c_str()));
-- 
2.43.0


From 88eae4560bf2d1daa6d61e912ebf06c56691332e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:28 +0000
Subject: [PATCH 39/44] fix: FlatBar central intensity is scaled by FLUX_SCALE,
 not by PIXEL_SCALE, in multi-image models

---
 function_objects/func_flatbar.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/function_objects/func_flatbar.cpp b/function_objects/func_flatbar.cpp
index 1166cb4..5a041fd 100644
--- a/function_objects/func_flatbar.cpp
+++ b/function_objects/func_flatbar.cpp
@@ -114,7 +114,7 @@ void FlatBar::Setup( double params[], int offsetIndex, double xc, double yc )
   PA = params[0 + offsetIndex] - imageRotation;
   ell = params[1 + offsetIndex];
   deltaPA_max = params[2 + offsetIndex];
-  I_0 = params[3 + offsetIndex ] * pixelScaling;
+  I_0 = params[3 + offsetIndex ] * intensityScale;
   h1 = params[4 + offsetIndex ] * pixelScaling;
   h2 = params[5 + offsetIndex ] * pixelScaling;
   r_b = params[6 + offsetIndex ] * pixelScaling;
-- 
2.43.0


From ba9d8408f4e12a36690c47e14ab9cf1cb3b677ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:28 +0000
Subject: [PATCH 40/44] fix: offsets between function sets shrink, like all
 sizes, with larger PIXEL_SCALE

---
 core/paramvector_processing.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/core/paramvector_processing.cpp b/core/paramvector_processing.cpp
index 90cb484..bcc1463 100644
--- a/core/paramvector_processing.cpp
+++ b/core/paramvector_processing.cpp
@@ -96,9 +96,10 @@ std::tuple<double, double, int> CalculateOffset_X0Y0( double X0_0_ref, double Y0
   double deltaX_n_im = deltaX_n_ref*cosTheta + deltaY_n_ref*sinTheta;
   double deltaY_n_im = -deltaX_n_ref*sinTheta + deltaY_n_ref*cosTheta;
 
-  // transform scaled offsets to current image
-  double X0_out = X0_0_im + pixScale_im*deltaX_n_im;
-  double Y0_out = Y0_0_im + pixScale_im*deltaY_n_im;
+  // transform scaled offsets to current image (whose pixels are pixScale_im times
+  // as large as those of the reference image)
+  double X0_out = X0_0_im + deltaX_n_im/pixScale_im;
+  double Y0_out = Y0_0_im + deltaY_n_im/pixScale_im;
   
   return std::make_tuple(X0_out, Y0_out, 0);
 }
-- 
2.43.0


From 0de14641200f7f3630cd7a1ff55c8edc1aeed857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:02:08 +0000
Subject: [PATCH 41/44] fix: multimfit's per-image best-fit files hold the
 parameter values of that image

---
 core/model_object.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/core/model_object.cpp b/core/model_object.cpp
index 6184d53..0af6b38 100644
--- a/core/model_object.cpp
+++ b/core/model_object.cpp
@@ -1873,6 +1873,10 @@ int ModelObject::PrintModelParamsToStrings( vector<string> &stringVector, double
     return -1;
   }
 
+  // parameter values as they apply to this image (differ from the input values only
+  // if image-description parameters were set by SetImageParameters)
+  vector<double>  adjustedParams(params, params + nParamsTot);
+
   for (int n = 0; n < nFunctions; n++) {
     if (fsetStartFlags[n] == true) {
       // start of new function set: extract x0,y0 and then skip over them
@@ -1929,9 +1933,10 @@ int ModelObject::PrintModelParamsToStrings( vector<string> &stringVector, double
     
     // print the function parameter values
     nParamsThisFunc = paramSizes[n];
+    functionObjects[n]->AdjustParametersForImage(params, adjustedParams.data(), indexOffset);
     for (int i = 0; i < nParamsThisFunc; i++) {
       paramName = GetParameterName(indexOffset + i);
-      paramVal = params[indexOffset + i];
+      paramVal = adjustedParams[indexOffset + i];
       // the following is placed in front of the unit string *if* we're not printing
       // the parameter errors (since that case we've already put a comment character
       // into the output line)
-- 
2.43.0


From 2141bbb3ad4b50e60603ce6a57ec6d8753b901b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:02:08 +0000
Subject: [PATCH 42/44] fix: TiltedSkyPlane slopes follow FLUX_SCALE,
 PIXEL_SCALE and IMAGE_PA in multi-image models

---
 function_objects/func_tilted-sky-plane.cpp | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/function_objects/func_tilted-sky-plane.cpp b/function_objects/func_tilted-sky-plane.cpp
index 9b59d81..a7180a8 100644
--- a/function_objects/func_tilted-sky-plane.cpp
+++ b/function_objects/func_tilted-sky-plane.cpp
@@ -42,6 +42,8 @@ const char  PARAM_LABELS[][20] = {"I_0", "m_x", "m_y"};
 const char  PARAM_UNITS[][30] = {"counts/pixel", "", ""};
 const char  FUNCTION_NAME[] = "Tilted sky-plane background function";
 
+const double  DEG2RAD = 0.017453292519943295;
+
 const char TiltedSkyPlane::className[] = "TiltedSkyPlane";
 
 
@@ -76,7 +78,13 @@ void TiltedSkyPlane::AdjustParametersForImage( const double inputFunctionParams[
 {
   // I_0
   adjustedFunctionParams[0 + offsetIndex] = intensityScale * inputFunctionParams[0 + offsetIndex];
-  // FIXME: figure out correct size rescaling via pixScaling for m_x and m_y (units of pixel^-1)
+  // m_x, m_y (counts/pixel along the axes of the reference image)
+  double  theta = imageRotation * DEG2RAD;
+  double  slopeScale = intensityScale / pixelScaling;
+  double  mx_ref = inputFunctionParams[1 + offsetIndex];
+  double  my_ref = inputFunctionParams[2 + offsetIndex];
+  adjustedFunctionParams[1 + offsetIndex] = slopeScale * (mx_ref*cos(theta) + my_ref*sin(theta));
+  adjustedFunctionParams[2 + offsetIndex] = slopeScale * (my_ref*cos(theta) - mx_ref*sin(theta));
 }
 
 
@@ -87,9 +95,14 @@ void TiltedSkyPlane::Setup( double params[], int offsetIndex, double xc, double
   x0 = xc;
   y0 = yc;
   I_0 = params[0 + offsetIndex ] * intensityScale;
-  // FIXME: figure out correct size rescaling via pixScaling for m_x and m_y (units of pixel^-1)
-  m_x = params[1 + offsetIndex ];   // slope in x-direction
-  m_y = params[2 + offsetIndex ];   // slope in y-direction
+  // slopes in x- and y-directions of this image (input slopes are counts/pixel along
+  // the axes of the reference image)
+  double  theta = imageRotation * DEG2RAD;
+  double  slopeScale = intensityScale / pixelScaling;
+  double  mx_ref = params[1 + offsetIndex ];
+  double  my_ref = params[2 + offsetIndex ];
+  m_x = slopeScale * (mx_ref*cos(theta) + my_ref*sin(theta));
+  m_y = slopeScale * (my_ref*cos(theta) - mx_ref*sin(theta));
 }
 
 
-- 
2.43.0


From 4722fcb251443a0f25bf0e8fdc27381f0beb268f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:08:40 +0000
Subject: [PATCH 43/44] fix: makemultimages and multimfit no longer ignore
 optional parameters of functions

---
 core/makemultimages_main.cpp | 3 ++-
 core/multimfit_main.cpp      | 4 +++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/core/makemultimages_main.cpp b/core/makemultimages_main.cpp
index dd281b3..e7ee5e5 100644
--- a/core/makemultimages_main.cpp
+++ b/core/makemultimages_main.cpp
@@ -158,7 +158,7 @@ int main( int argc, char *argv[] )
   }
   status = ReadConfigFile(options->configFileName, true, functionList, 
   							functionLabelList, parameterList, functionSetIndices, 
-  							userConfigOptions);
+  							userConfigOptions, optionalParamsMap);
   if (status != 0) {
     fprintf(stderr, "\n*** ERROR: Failure reading configuration file \"%s\"!\n\n", 
     			options->configFileName.c_str());
@@ -283,6 +283,7 @@ int main( int argc, char *argv[] )
         int  newFunctionSetIndex = nGlobalFuncs + imageInfoVect[i].perImageFuncSetIndices[j];
         currentFunctionSetIndices.push_back(newFunctionSetIndex);
         //FIXME: handle any extra, local-function optional-parameter-map values
+        currentOptionalParamsMap.push_back(map<string, string>());
         globalFuncFlags.push_back(false);
       }
     }
diff --git a/core/multimfit_main.cpp b/core/multimfit_main.cpp
index b0f40df..daf0dfb 100644
--- a/core/multimfit_main.cpp
+++ b/core/multimfit_main.cpp
@@ -214,7 +214,8 @@ int main(int argc, char *argv[])
   }
   status = ReadConfigFile(options->configFileName, true, functionList, functionLabelList,
   							parameterList, paramLimits, functionSetIndices, 
-  							paramLimitsExist_func, userConfigOptions);
+  							paramLimitsExist_func, userConfigOptions, 
+  							optionalParamsMap);
   if (status != 0) {
     fprintf(stderr, "\n*** ERROR: Failure reading configuration file \"%s\"!\n\n", 
     			options->configFileName.c_str());
@@ -416,6 +417,7 @@ int main(int argc, char *argv[])
         int  newFunctionSetIndex = nGlobalFuncs + imageInfoVect[i].perImageFuncSetIndices[j];
         currentFunctionSetIndices.push_back(newFunctionSetIndex);
         //FIXME: handle any extra, local-function optional-parameter-map values
+        currentOptionalParamsMap.push_back(map<string, string>());
         globalFuncFlags.push_back(false);
       }
     }
-- 
2.43.0


From 64ce157b79be913235d0e19873b26f3f0478c9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:03 +0000
Subject: [PATCH 44/44] fix: each PointSource function uses the interpolation
 method asked for

---
 core/model_object.cpp | 30 +++++++++++++-----------------
 core/model_object.h   |  4 ++--
 2 files changed, 15 insertions(+), 19 deletions(-)

diff --git a/core/model_object.cpp b/core/model_object.cpp
index 0af6b38..92a2ec6 100644
--- a/core/model_object.cpp
+++ b/core/model_object.cpp
@@ -120,8 +120,6 @@ ModelObject::ModelObject( )
   fsetStartFlags = nullptr;
 
   localPsfPixels = nullptr;
-  psfInterpolator = nullptr;
-  psfInterpolator_allocated = false;
   
   modelVectorAllocated = false;
   maskVectorAllocated = false;
@@ -205,8 +203,8 @@ ModelObject::~ModelObject()
   if (localPsfPixels_allocated)
     free(localPsfPixels);
 
-  if (psfInterpolator_allocated)
-    delete psfInterpolator;
+  for (auto &interpolator : psfInterpolators)
+    delete interpolator.second;
   
   if (nFunctions > 0)
     for (int i = 0; i < nFunctions; i++)
@@ -296,14 +294,14 @@ int ModelObject::AddFunction( FunctionObject *newFunctionObj_ptr, bool isGlobalF
   
   // handle optional case of PointSource function
   if (newFunctionObj_ptr->IsPointSource()) {
-    if (! psfInterpolator_allocated) {
-      string interpName = newFunctionObj_ptr->GetInterpolationType();
-      int interpType = interpolationMap[interpName];
+    string interpName = newFunctionObj_ptr->GetInterpolationType();
+    int interpType = interpolationMap[interpName];
+    if (psfInterpolators.count(interpType) == 0) {
       result = SetupPsfInterpolation(interpType);
       if (result < 0)
       	return -1;
     }
-    newFunctionObj_ptr->AddPsfInterpolator(psfInterpolator);
+    newFunctionObj_ptr->AddPsfInterpolator(psfInterpolators[interpType]);
     pointSourcesPresent = true;
   }
   
@@ -365,18 +363,15 @@ int ModelObject::SetupPsfInterpolation( int interpolationType )
 
   switch (interpolationType) {
     case kInterpolator_bicubic:
-      psfInterpolator = new PsfInterpolator_bicubic(localPsfPixels, nPSFColumns, nPSFRows);
-	  psfInterpolator_allocated = true;
+      psfInterpolators[interpolationType] = new PsfInterpolator_bicubic(localPsfPixels, nPSFColumns, nPSFRows);
       break;
     case kInterpolator_lanczos2:
-      psfInterpolator = new PsfInterpolator_lanczos2(localPsfPixels, nPSFColumns, nPSFRows);
-      psfInterpolator_allocated = true;
+      psfInterpolators[interpolationType] = new PsfInterpolator_lanczos2(localPsfPixels, nPSFColumns, nPSFRows);
       break;
     case kInterpolator_lanczos3:
 //       printf("ERROR: Lanczos3 interpolation not yet implemented!\n");
 //       return -2;
-      psfInterpolator = new PsfInterpolator_lanczos3(localPsfPixels, nPSFColumns, nPSFRows);
-      psfInterpolator_allocated = true;
+      psfInterpolators[interpolationType] = new PsfInterpolator_lanczos3(localPsfPixels, nPSFColumns, nPSFRows);
       break;
   }
   
@@ -1206,11 +1201,11 @@ void ModelObject::CreateModelImage( double params[] )
     // Re-assign psfInterpolator object (bcs. calls made to
     // OversampledRegion::ComputeRegionAndDownsample result in PointSource objects 
     // getting assigned alternate psfInterpolators), so we have to reset PointSource 
-    // objects to use the standard-resolution psfInterpolator object held by ModelObject
+    // objects to use the standard-resolution PsfInterpolator objects held by ModelObject
     // (the same is true for the oversampling scale)
     for (FunctionObject *funcObj : functionObjects)
       if (funcObj->IsPointSource()) {
-        funcObj->AddPsfInterpolator(psfInterpolator);
+        funcObj->AddPsfInterpolator(psfInterpolators[interpolationMap[funcObj->GetInterpolationType()]]);
         funcObj->SetOversamplingScale(1);
       }
     
@@ -1301,7 +1296,8 @@ double * ModelObject::GetSingleFunctionImage( double params[], int functionIndex
   // If requested function is PointSource, re-assign the PsfInterpolator object
   // (see comments in CreateModelImage for why we need to do this)
   if (functionObjects[functionIndex]->IsPointSource()) {
-    functionObjects[functionIndex]->AddPsfInterpolator(psfInterpolator);
+    FunctionObject *funcObj = functionObjects[functionIndex];
+    funcObj->AddPsfInterpolator(psfInterpolators[interpolationMap[funcObj->GetInterpolationType()]]);
     functionObjects[functionIndex]->SetOversamplingScale(1);
   }
 
diff --git a/core/model_object.h b/core/model_object.h
index d49a063..a192999 100644
--- a/core/model_object.h
+++ b/core/model_object.h
@@ -13,6 +13,7 @@
 #ifndef _MODEL_OBJ_H_
 #define _MODEL_OBJ_H_
 
+#include <map>
 #include <vector>
 #include <string>
 
@@ -328,8 +329,7 @@ class ModelObject
     int  imageOffset_X0, imageOffset_Y0;
     string  dataFilename;
     
-    PsfInterpolator *psfInterpolator;
-    bool  psfInterpolator_allocated;
+    map<int, PsfInterpolator *>  psfInterpolators;   // one for each interpolation type in use
     
     // stuff for ovsersampled PSF convolution
     Convolver  *psfConvolver_osamp;
-- 
2.43.0

