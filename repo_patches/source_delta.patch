From e0386310b0d8bf3ba46baaf5254d4288696fe764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:53 +0000
Subject: [PATCH 01/15] fix: reject negative filter orders

setup(-3, fc) silently produced a first order filter and setup(-2, fc) a
pass-through. The documentation promises that invalid values provided to
setup() throw.
---
 iir/Butterworth.cpp | 4 ++++
 iir/ChebyshevI.cpp  | 4 ++++
 iir/ChebyshevII.cpp | 4 ++++
 iir/Common.h        | 2 ++
 4 files changed, 14 insertions(+)

diff --git a/iir/Butterworth.cpp b/iir/Butterworth.cpp
index 1a96d04..511cb20 100644
--- a/iir/Butterworth.cpp
+++ b/iir/Butterworth.cpp
@@ -48,6 +48,8 @@ AnalogLowPass::AnalogLowPass ()
 
 void AnalogLowPass::design (int numPoles)
 {
+  if (numPoles < 0) throw_invalid_argument(orderNegative);
+
   if (m_numPoles != numPoles)
   {
     m_numPoles = numPoles;
@@ -77,6 +79,8 @@ AnalogLowShelf::AnalogLowShelf ()
 
 void AnalogLowShelf::design (int numPoles, double gainDb)
 {
+  if (numPoles < 0) throw_invalid_argument(orderNegative);
+
   if (m_numPoles != numPoles ||
       m_gainDb != gainDb)
   {
diff --git a/iir/ChebyshevI.cpp b/iir/ChebyshevI.cpp
index 23730f4..d2d0b85 100644
--- a/iir/ChebyshevI.cpp
+++ b/iir/ChebyshevI.cpp
@@ -48,6 +48,8 @@ AnalogLowPass::AnalogLowPass ()
 void AnalogLowPass::design (int numPoles,
                             double rippleDb)
 {
+  if (numPoles < 0) throw_invalid_argument(orderNegative);
+
   if (m_numPoles != numPoles ||
       m_rippleDb != rippleDb)
   {
@@ -102,6 +104,8 @@ void AnalogLowShelf::design (int numPoles,
                              double gainDb,
                              double rippleDb)
 {
+  if (numPoles < 0) throw_invalid_argument(orderNegative);
+
   if (m_numPoles != numPoles ||
       m_rippleDb != rippleDb ||
       m_gainDb != gainDb)
diff --git a/iir/ChebyshevII.cpp b/iir/ChebyshevII.cpp
index f9647ab..4761176 100644
--- a/iir/ChebyshevII.cpp
+++ b/iir/ChebyshevII.cpp
@@ -52,6 +52,8 @@ AnalogLowPass::AnalogLowPass ()
 void AnalogLowPass::design (int numPoles,
                             double stopBandDb)
 {
+  if (numPoles < 0) throw_invalid_argument(orderNegative);
+
   if (m_numPoles != numPoles ||
       m_stopBandDb != stopBandDb)
   {
@@ -103,6 +105,8 @@ void AnalogLowShelf::design (int numPoles,
                              double gainDb,
                              double stopBandDb)
 {
+  if (numPoles < 0) throw_invalid_argument(orderNegative);
+
   if (m_numPoles != numPoles ||
       m_stopBandDb != stopBandDb ||
       m_gainDb != gainDb)
diff --git a/iir/Common.h b/iir/Common.h
index d8f8f4f..ed6b381 100644
--- a/iir/Common.h
+++ b/iir/Common.h
@@ -68,6 +68,8 @@
 
 static const char orderTooHigh[] = "Requested order is too high. Provide a higher order for the template.";
 
+static const char orderNegative[] = "Requested order is negative.";
+
 #define DEFAULT_FILTER_ORDER 4
 
 /**
-- 
2.43.0


From 0c3aacb809e39342d35774f553fe30c86fa28c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:53 +0000
Subject: [PATCH 02/15] fix: do not remember a failed analog design as the
 current one

design() stored the requested order and ripple before placing the poles. If
placing them threw (for example a negative ripple) a repeated setup() with the
same arguments found the "cached" empty design and silently turned the filter
into a pass-through instead of throwing again.
---
 iir/Butterworth.cpp | 8 ++++++--
 iir/ChebyshevI.cpp  | 8 ++++++--
 iir/ChebyshevII.cpp | 8 ++++++--
 3 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/iir/Butterworth.cpp b/iir/Butterworth.cpp
index 511cb20..8d0765c 100644
--- a/iir/Butterworth.cpp
+++ b/iir/Butterworth.cpp
@@ -52,7 +52,7 @@ void AnalogLowPass::design (int numPoles)
 
   if (m_numPoles != numPoles)
   {
-    m_numPoles = numPoles;
+    m_numPoles = -1; // no valid design until all poles have been added
 
     reset ();
 
@@ -66,6 +66,8 @@ void AnalogLowPass::design (int numPoles)
 
     if (numPoles & 1)
       add (-1, infinity());
+
+    m_numPoles = numPoles;
   }
 }
 
@@ -84,7 +86,7 @@ void AnalogLowShelf::design (int numPoles, double gainDb)
   if (m_numPoles != numPoles ||
       m_gainDb != gainDb)
   {
-    m_numPoles = numPoles;
+    m_numPoles = -1; // no valid design until all poles have been added
     m_gainDb = gainDb;
 
     reset ();
@@ -103,6 +105,8 @@ void AnalogLowShelf::design (int numPoles, double gainDb)
     
     if (numPoles & 1)
       add (gp, gz);
+
+    m_numPoles = numPoles;
   }
 }
 
diff --git a/iir/ChebyshevI.cpp b/iir/ChebyshevI.cpp
index d2d0b85..19391c1 100644
--- a/iir/ChebyshevI.cpp
+++ b/iir/ChebyshevI.cpp
@@ -53,7 +53,7 @@ void AnalogLowPass::design (int numPoles,
   if (m_numPoles != numPoles ||
       m_rippleDb != rippleDb)
   {
-    m_numPoles = numPoles;
+    m_numPoles = -1; // no valid design until all poles have been added
     m_rippleDb = rippleDb;
 
     reset ();
@@ -83,6 +83,8 @@ void AnalogLowPass::design (int numPoles,
     {
       setNormal (0, pow (10, -rippleDb/20.));
     }
+
+    m_numPoles = numPoles;
   }
 }
 
@@ -110,7 +112,7 @@ void AnalogLowShelf::design (int numPoles,
       m_rippleDb != rippleDb ||
       m_gainDb != gainDb)
   {
-    m_numPoles = numPoles;
+    m_numPoles = -1; // no valid design until all poles have been added
     m_rippleDb = rippleDb;
     m_gainDb = gainDb;
 
@@ -155,6 +157,8 @@ void AnalogLowShelf::design (int numPoles,
 
     if (numPoles & 1)
       add (-sinh_u, -sinh_v);
+
+    m_numPoles = numPoles;
   }
 }
 
diff --git a/iir/ChebyshevII.cpp b/iir/ChebyshevII.cpp
index 4761176..fd419f1 100644
--- a/iir/ChebyshevII.cpp
+++ b/iir/ChebyshevII.cpp
@@ -57,7 +57,7 @@ void AnalogLowPass::design (int numPoles,
   if (m_numPoles != numPoles ||
       m_stopBandDb != stopBandDb)
   {
-    m_numPoles = numPoles;
+    m_numPoles = -1; // no valid design until all poles have been added
     m_stopBandDb = stopBandDb;
 
     reset ();
@@ -83,6 +83,8 @@ void AnalogLowPass::design (int numPoles,
     {
       add (1 / sinh_v0, infinity());
     }
+
+    m_numPoles = numPoles;
   }
 }
 
@@ -111,7 +113,7 @@ void AnalogLowShelf::design (int numPoles,
       m_stopBandDb != stopBandDb ||
       m_gainDb != gainDb)
   {
-    m_numPoles = numPoles;
+    m_numPoles = -1; // no valid design until all poles have been added
     m_stopBandDb = stopBandDb;
     m_gainDb = gainDb;
 
@@ -156,6 +158,8 @@ void AnalogLowShelf::design (int numPoles,
 
     if (numPoles & 1)
       add (-sinh_u, -sinh_v);
+
+    m_numPoles = numPoles;
   }
 }
 
-- 
2.43.0


From ecf3d23c8531a3a757ab05d36ad0c66cd8d457bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:53 +0000
Subject: [PATCH 03/15] fix: reject negative band widths

A negative width passed to the bandpass, bandstop and bandshelf setup() calls
was accepted and resulted in poles outside of the unit circle.
---
 iir/PoleFilter.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/iir/PoleFilter.cpp b/iir/PoleFilter.cpp
index d54a5eb..366f75b 100644
--- a/iir/PoleFilter.cpp
+++ b/iir/PoleFilter.cpp
@@ -43,6 +43,7 @@ namespace Iir {
 
 static const char cutoffError[] = "The cutoff frequency needs to be below the Nyquist frequency.";
 static const char cutoffNeg[] = "Cutoff frequency is negative.";
+static const char widthNeg[] = "Width of the band is negative.";
 
 complex_t LowPassTransform::transform (complex_t c)
 {
@@ -144,6 +145,7 @@ BandPassTransform::BandPassTransform (double fc,
 {
 	if (!(fc < 0.5)) throw_invalid_argument(cutoffError);
 	if (fc < 0.0) throw_invalid_argument(cutoffNeg);
+	if (fw < 0.0) throw_invalid_argument(widthNeg);
 
 	digital.reset ();
 	
@@ -228,6 +230,7 @@ BandStopTransform::BandStopTransform (double fc,
 {
 	if (!(fc < 0.5)) throw_invalid_argument(cutoffError);
 	if (fc < 0.0) throw_invalid_argument(cutoffNeg);
+	if (fw < 0.0) throw_invalid_argument(widthNeg);
 
 	digital.reset ();
 	
-- 
2.43.0


From 5a221ee3887308fcde64e45038c6a65a8cfc5f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:53 +0000
Subject: [PATCH 04/15] fix: throw if the normalised or scaled coefficients are
 NaN

Only the arguments of setCoefficients() were checked. Dividing by an infinite
or zero a0 (RBJ filters with Q = 0) or scaling by NaN produced NaN coefficients
without the exception promised in the documentation.
---
 iir/Biquad.cpp | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/iir/Biquad.cpp b/iir/Biquad.cpp
index 47f7102..4a73653 100644
--- a/iir/Biquad.cpp
+++ b/iir/Biquad.cpp
@@ -130,12 +130,23 @@ namespace Iir {
 		if (Iir::is_nan (b1)) throw_invalid_argument("b1 is NaN");
 		if (Iir::is_nan (b2)) throw_invalid_argument("b2 is NaN");
 
+		const double na1 = a1/a0;
+		const double na2 = a2/a0;
+		const double nb0 = b0/a0;
+		const double nb1 = b1/a0;
+		const double nb2 = b2/a0;
+		if (Iir::is_nan (na1)) throw_invalid_argument("a1/a0 is NaN");
+		if (Iir::is_nan (na2)) throw_invalid_argument("a2/a0 is NaN");
+		if (Iir::is_nan (nb0)) throw_invalid_argument("b0/a0 is NaN");
+		if (Iir::is_nan (nb1)) throw_invalid_argument("b1/a0 is NaN");
+		if (Iir::is_nan (nb2)) throw_invalid_argument("b2/a0 is NaN");
+
 		m_a0 = a0;
-		m_a1 = a1/a0;
-		m_a2 = a2/a0;
-		m_b0 = b0/a0;
-		m_b1 = b1/a0;
-		m_b2 = b2/a0;
+		m_a1 = na1;
+		m_a2 = na2;
+		m_b0 = nb0;
+		m_b1 = nb1;
+		m_b2 = nb2;
 	}
 
 	void Biquad::setOnePole (complex_t pole, complex_t zero)
@@ -213,9 +224,15 @@ namespace Iir {
 
 	void Biquad::applyScale (double scale)
 	{
-		m_b0 *= scale;
-		m_b1 *= scale;
-		m_b2 *= scale;
+		const double nb0 = m_b0 * scale;
+		const double nb1 = m_b1 * scale;
+		const double nb2 = m_b2 * scale;
+		if (Iir::is_nan (nb0) || Iir::is_nan (nb1) || Iir::is_nan (nb2))
+			throw_invalid_argument("Scaled FIR coefficients are NaN");
+
+		m_b0 = nb0;
+		m_b1 = nb1;
+		m_b2 = nb2;
 	}
 
 }
-- 
2.43.0


From 5eee5b4803d7e73ab73f60d0db79a9e5c9cfa6fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:53 +0000
Subject: [PATCH 05/15] fix: pole and zero of a first order section

The zero of b0 + b1/z is at -b1/b0 (and not at -b0/b1) and the pole of
a0 + a1/z at -a1/a0. getPoleZeros() returned the reciprocal zero so that
setPoleZeroForm() could not reconstruct a first order section.
---
 iir/Biquad.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/iir/Biquad.cpp b/iir/Biquad.cpp
index 4a73653..600be9d 100644
--- a/iir/Biquad.cpp
+++ b/iir/Biquad.cpp
@@ -51,8 +51,8 @@ namespace Iir {
 		if (a2 == 0 && b2 == 0)
 		{
 			// single pole
-			poles.first = -a1;
-			zeros.first = -b0 / b1;
+			poles.first = -a1 / a0;
+			zeros.first = -b1 / b0;
 			poles.second = 0;
 			zeros.second = 0;
 		}
-- 
2.43.0


From 5a14ea163e640826f40b32d0694278305012faa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:53 +0000
Subject: [PATCH 06/15] fix: RBJ filters reject frequencies outside of
 0..Nyquist

As the pole filters already do. The RBJ filters silently accepted negative
frequencies and those above Nyquist which resulted in unstable filters.
---
 iir/RBJ.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/iir/RBJ.cpp b/iir/RBJ.cpp
index b1b80eb..42ac948 100644
--- a/iir/RBJ.cpp
+++ b/iir/RBJ.cpp
@@ -40,9 +40,18 @@ namespace Iir {
 
 namespace RBJ {
 
+	static void checkFrequency (double frequency)
+	{
+		if (!(frequency < 0.5))
+			throw_invalid_argument("The frequency needs to be below the Nyquist frequency.");
+		if (frequency < 0.0)
+			throw_invalid_argument("The frequency is negative.");
+	}
+
 	void LowPass::setupN(double cutoffFrequency,
 			    double q)
 	{
+		checkFrequency (cutoffFrequency);
 		double w0 = 2 * doublePi * cutoffFrequency;
 		double cs = cos (w0);
 		double sn = sin (w0);
@@ -59,6 +68,7 @@ namespace RBJ {
 	void HighPass::setupN (double cutoffFrequency,
 			      double q)
 	{
+		checkFrequency (cutoffFrequency);
 		double w0 = 2 * doublePi * cutoffFrequency;
 		double cs = cos (w0);
 		double sn = sin (w0);
@@ -75,6 +85,7 @@ namespace RBJ {
 	void BandPass1::setupN (double centerFrequency,
 			       double bandWidth)
 	{
+		checkFrequency (centerFrequency);
 		double w0 = 2 * doublePi * centerFrequency;
 		double cs = cos (w0);
 		double sn = sin (w0);
@@ -91,6 +102,7 @@ namespace RBJ {
 	void BandPass2::setupN (double centerFrequency,
 			       double bandWidth)
 	{
+		checkFrequency (centerFrequency);
 		double w0 = 2 * doublePi * centerFrequency;
 		double cs = cos (w0);
 		double sn = sin (w0);
@@ -107,6 +119,7 @@ namespace RBJ {
 	void BandStop::setupN (double centerFrequency,
 			      double bandWidth)
 	{
+		checkFrequency (centerFrequency);
 		double w0 = 2 * doublePi * centerFrequency;
 		double cs = cos (w0);
 		double sn = sin (w0);
@@ -123,6 +136,7 @@ namespace RBJ {
 	void IIRNotch::setupN (double centerFrequency,
 			      double q_factor)
 	{
+		checkFrequency (centerFrequency);
 		double w0 = 2 * doublePi * centerFrequency;
 		double cs = cos (w0);
 		double r = exp(-(w0/2) / q_factor);
@@ -139,6 +153,7 @@ namespace RBJ {
 			      double gainDb,
 			      double shelfSlope)
 	{
+		checkFrequency (cutoffFrequency);
 		double A  = pow (10, gainDb/40);
 		double w0 = 2 * doublePi * cutoffFrequency;
 		double cs = cos (w0);
@@ -159,6 +174,7 @@ namespace RBJ {
 			       double gainDb,
 			       double shelfSlope)
 	{
+		checkFrequency (cutoffFrequency);
 		double A  = pow (10, gainDb/40);
 		double w0 = 2 * doublePi * cutoffFrequency;
 		double cs = cos (w0);
@@ -179,6 +195,7 @@ namespace RBJ {
 			       double gainDb,
 			       double bandWidth)
 	{
+		checkFrequency (centerFrequency);
 		double A  = pow (10, gainDb/40);
 		double w0 = 2 * doublePi * centerFrequency;
 		double cs = cos(w0);
@@ -198,6 +215,7 @@ namespace RBJ {
 void AllPass::setupN (double phaseFrequency,
                      double q)
 {
+	checkFrequency (phaseFrequency);
 	double w0 = 2 * doublePi * phaseFrequency;
 	double cs = cos (w0);
 	double sn = sin (w0);
-- 
2.43.0


From 0c09516eb10eefb66f1baf6dc96ebe155220458b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:30 +0000
Subject: [PATCH 07/15] fix: RBJ filters reject a negative Q factor or
 bandwidth

Both were accepted and resulted in poles outside of the unit circle.
---
 iir/RBJ.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/iir/RBJ.cpp b/iir/RBJ.cpp
index 42ac948..64d0307 100644
--- a/iir/RBJ.cpp
+++ b/iir/RBJ.cpp
@@ -48,10 +48,18 @@ namespace RBJ {
 			throw_invalid_argument("The frequency is negative.");
 	}
 
+	// Q factor or bandwidth
+	static void checkWidth (double width)
+	{
+		if (width < 0.0)
+			throw_invalid_argument("The Q factor / bandwidth is negative.");
+	}
+
 	void LowPass::setupN(double cutoffFrequency,
 			    double q)
 	{
 		checkFrequency (cutoffFrequency);
+		checkWidth (q);
 		double w0 = 2 * doublePi * cutoffFrequency;
 		double cs = cos (w0);
 		double sn = sin (w0);
@@ -69,6 +77,7 @@ namespace RBJ {
 			      double q)
 	{
 		checkFrequency (cutoffFrequency);
+		checkWidth (q);
 		double w0 = 2 * doublePi * cutoffFrequency;
 		double cs = cos (w0);
 		double sn = sin (w0);
@@ -86,6 +95,7 @@ namespace RBJ {
 			       double bandWidth)
 	{
 		checkFrequency (centerFrequency);
+		checkWidth (bandWidth);
 		double w0 = 2 * doublePi * centerFrequency;
 		double cs = cos (w0);
 		double sn = sin (w0);
@@ -103,6 +113,7 @@ namespace RBJ {
 			       double bandWidth)
 	{
 		checkFrequency (centerFrequency);
+		checkWidth (bandWidth);
 		double w0 = 2 * doublePi * centerFrequency;
 		double cs = cos (w0);
 		double sn = sin (w0);
@@ -120,6 +131,7 @@ namespace RBJ {
 			      double bandWidth)
 	{
 		checkFrequency (centerFrequency);
+		checkWidth (bandWidth);
 		double w0 = 2 * doublePi * centerFrequency;
 		double cs = cos (w0);
 		double sn = sin (w0);
@@ -137,6 +149,7 @@ namespace RBJ {
 			      double q_factor)
 	{
 		checkFrequency (centerFrequency);
+		checkWidth (q_factor);
 		double w0 = 2 * doublePi * centerFrequency;
 		double cs = cos (w0);
 		double r = exp(-(w0/2) / q_factor);
@@ -196,6 +209,7 @@ namespace RBJ {
 			       double bandWidth)
 	{
 		checkFrequency (centerFrequency);
+		checkWidth (bandWidth);
 		double A  = pow (10, gainDb/40);
 		double w0 = 2 * doublePi * centerFrequency;
 		double cs = cos(w0);
@@ -216,6 +230,7 @@ void AllPass::setupN (double phaseFrequency,
                      double q)
 {
 	checkFrequency (phaseFrequency);
+	checkWidth (q);
 	double w0 = 2 * doublePi * phaseFrequency;
 	double cs = cos (w0);
 	double sn = sin (w0);
-- 
2.43.0


From 65549b36d07fdffe0e0aae8175b39fefe5288f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:30 +0000
Subject: [PATCH 08/15] fix: a copied filter uses its own coefficient storage

The defaulted copy constructor copied the pointers to the coefficients and
to the poles / zeros of the original: setup() on the copy changed the original
(and left the copy as it was) and using the copy after the original had been
destroyed accessed released memory.
---
 iir/Cascade.cpp  |  6 ++++++
 iir/Cascade.h    |  5 +++++
 iir/Layout.h     | 10 ++++++++++
 iir/PoleFilter.h | 24 +++++++++++++++++++++++-
 4 files changed, 44 insertions(+), 1 deletion(-)

diff --git a/iir/Cascade.cpp b/iir/Cascade.cpp
index de22560..663c9ca 100644
--- a/iir/Cascade.cpp
+++ b/iir/Cascade.cpp
@@ -49,6 +49,12 @@ namespace Iir {
 		m_stageArray = storage.stageArray;
 	}
 
+	void Cascade::moveCascadeStorage (const Storage& storage)
+	{
+		m_maxStages = storage.maxStages;
+		m_stageArray = storage.stageArray;
+	}
+
 	complex_t Cascade::response (double normalizedFrequency) const
 	{
 		if (normalizedFrequency > 0.5) throw_invalid_argument(maxFError);
diff --git a/iir/Cascade.h b/iir/Cascade.h
index 57578d2..79ad84b 100644
--- a/iir/Cascade.h
+++ b/iir/Cascade.h
@@ -95,6 +95,11 @@ namespace Iir {
 
         void setCascadeStorage (const Storage& storage);
 
+        /**
+         * Switches to another storage which already contains the coefficients of this cascade
+         **/
+        void moveCascadeStorage (const Storage& storage);
+
         void applyScale (double scale);
 
         void setLayout (const LayoutBase& proto);
diff --git a/iir/Layout.h b/iir/Layout.h
index b69d2ec..e4d6416 100644
--- a/iir/Layout.h
+++ b/iir/Layout.h
@@ -83,6 +83,16 @@ namespace Iir {
 			m_pair = other.m_pair;
 		}
 
+		/**
+		 * Switches to another storage which already contains
+		 * the poles and zeros of this layout.
+		 **/
+		void moveStorage (const LayoutBase& other)
+		{
+			m_maxPoles = other.m_maxPoles;
+			m_pair = other.m_pair;
+		}
+
 		void reset ()
 		{
 			m_numPoles = 0;
diff --git a/iir/PoleFilter.h b/iir/PoleFilter.h
index a5dd6e0..6a03742 100644
--- a/iir/PoleFilter.h
+++ b/iir/PoleFilter.h
@@ -100,6 +100,13 @@ namespace Iir {
 			m_analogProto.setStorage (analogStorage);
 			m_digitalProto = digitalStorage;
 		}
+
+		void movePrototypeStorage (const LayoutBase& analogStorage,
+					   const LayoutBase& digitalStorage)
+		{
+			m_analogProto.moveStorage (analogStorage);
+			m_digitalProto.moveStorage (digitalStorage);
+		}
 		
 	protected:
 		AnalogPrototype m_analogProto = {};
@@ -127,7 +134,14 @@ namespace Iir {
 				CascadeStages<(MaxDigitalPoles + 1) / 2 , StateType>::reset();
 			}
 		
-		PoleFilter(const PoleFilter&) = default;
+		PoleFilter(const PoleFilter& other)
+			: BaseClass (other)
+			, CascadeStages<(MaxDigitalPoles + 1) / 2 , StateType> (other)
+			, m_analogStorage (other.m_analogStorage)
+			, m_digitalStorage (other.m_digitalStorage)
+			{
+				ownStorage();
+			}
 		
 		PoleFilter& operator=(const PoleFilter&)
 			{
@@ -137,6 +151,14 @@ namespace Iir {
 			}
 		
 	private:
+		// The copied base classes point to the storage of the
+		// original and need to be redirected to our own.
+		void ownStorage ()
+			{
+				BaseClass::moveCascadeStorage (this->getCascadeStorage());
+				BaseClass::movePrototypeStorage (m_analogStorage, m_digitalStorage);
+			}
+
 		Layout <MaxAnalogPoles> m_analogStorage = {};
 		Layout <MaxDigitalPoles> m_digitalStorage = {};
 	};
-- 
2.43.0


From b17b727116f2b447200e81c98cc9065f645365c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:30 +0000
Subject: [PATCH 09/15] fix: assigning a filter takes over its coefficients

operator= only cleared the delay lines of the target and otherwise ignored the
filter assigned: the target kept on filtering with its old coefficients.
---
 iir/PoleFilter.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/iir/PoleFilter.h b/iir/PoleFilter.h
index 6a03742..32c53dc 100644
--- a/iir/PoleFilter.h
+++ b/iir/PoleFilter.h
@@ -143,8 +143,15 @@ namespace Iir {
 				ownStorage();
 			}
 		
-		PoleFilter& operator=(const PoleFilter&)
+		PoleFilter& operator=(const PoleFilter& other)
 			{
+				if (this != &other) {
+					BaseClass::operator= (other);
+					CascadeStages<(MaxDigitalPoles + 1) / 2 , StateType>::operator= (other);
+					m_analogStorage = other.m_analogStorage;
+					m_digitalStorage = other.m_digitalStorage;
+					ownStorage();
+				}
 				// Reset the filter state when copied for now
 				CascadeStages<(MaxDigitalPoles + 1) / 2 , StateType>::reset();
 				return *this;
-- 
2.43.0


From 310091978521919163e0e2e5243ed5a3fb378dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:59 +0000
Subject: [PATCH 10/15] fix: reject a NaN band width before changing the filter

---
 iir/PoleFilter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/iir/PoleFilter.cpp b/iir/PoleFilter.cpp
index 366f75b..a60476a 100644
--- a/iir/PoleFilter.cpp
+++ b/iir/PoleFilter.cpp
@@ -145,7 +145,7 @@ BandPassTransform::BandPassTransform (double fc,
 {
 	if (!(fc < 0.5)) throw_invalid_argument(cutoffError);
 	if (fc < 0.0) throw_invalid_argument(cutoffNeg);
-	if (fw < 0.0) throw_invalid_argument(widthNeg);
+	if (!(fw >= 0.0)) throw_invalid_argument(widthNeg);
 
 	digital.reset ();
 	
@@ -230,7 +230,7 @@ BandStopTransform::BandStopTransform (double fc,
 {
 	if (!(fc < 0.5)) throw_invalid_argument(cutoffError);
 	if (fc < 0.0) throw_invalid_argument(cutoffNeg);
-	if (fw < 0.0) throw_invalid_argument(widthNeg);
+	if (!(fw >= 0.0)) throw_invalid_argument(widthNeg);
 
 	digital.reset ();
 	
-- 
2.43.0


From f38cd5fd6c6c2b63140016ff18f045786e8af8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:19 +0000
Subject: [PATCH 11/15] fix: a rejected table leaves all sections unchanged

---
 iir/Cascade.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/iir/Cascade.h b/iir/Cascade.h
index 79ad84b..4c6800c 100644
--- a/iir/Cascade.h
+++ b/iir/Cascade.h
@@ -141,8 +141,10 @@ namespace Iir {
          * \param sosCoefficients 2D array in Python style sos ordering: 0-2: FIR, 3-5: IIR coeff.
          **/
         void setup (const double (&sosCoefficients)[MaxStages][6]) {
+                // only use the table when all its rows are valid
+                Biquad stages[MaxStages];
                 for (int i = 0; i < MaxStages; i++) {
-                        m_stages[i].setCoefficients(
+                        stages[i].setCoefficients(
                                 sosCoefficients[i][3],
                                 sosCoefficients[i][4],
                                 sosCoefficients[i][5],
@@ -150,6 +152,8 @@ namespace Iir {
                                 sosCoefficients[i][1],
                                 sosCoefficients[i][2]);
                 }
+                for (int i = 0; i < MaxStages; i++)
+                        m_stages[i] = stages[i];
         }
 
         public:
-- 
2.43.0


From 8bdb921008f0259f9023a28990b525f2b31283a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:02 +0000
Subject: [PATCH 12/15] fix: do not call std::polar with a negative radius

The Butterworth shelves passed negative radii, which violates the
precondition of std::polar: builds with _GLIBCXX_ASSERTIONS abort.
---
 iir/Butterworth.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/iir/Butterworth.cpp b/iir/Butterworth.cpp
index 8d0765c..b4e8370 100644
--- a/iir/Butterworth.cpp
+++ b/iir/Butterworth.cpp
@@ -100,7 +100,7 @@ void AnalogLowShelf::design (int numPoles, double gainDb)
     for (int i = 1; i <= pairs; ++i)
     {
       const double theta = doublePi * (0.5 - (2 * i - 1) / n2);
-      addPoleZeroConjugatePairs (std::polar (gp, theta), std::polar (gz, theta));
+      addPoleZeroConjugatePairs (gp * std::polar (1., theta), gz * std::polar (1., theta));
     }
     
     if (numPoles & 1)
-- 
2.43.0


From dbc52db1f3f080152be7d10c9fbcedb6f842d2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:02 +0000
Subject: [PATCH 13/15] fix: TwoPole::setup with a negative or NaN radius must
 not abort

std::polar requires a radius >= 0 and aborts otherwise in builds with
_GLIBCXX_ASSERTIONS, before the arguments can be rejected.
---
 iir/Custom.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/iir/Custom.cpp b/iir/Custom.cpp
index e1cebdf..5dfefa6 100644
--- a/iir/Custom.cpp
+++ b/iir/Custom.cpp
@@ -54,8 +54,8 @@ void TwoPole::setup (double scale,
                      double zeroRho,
                      double zeroTheta)
 {
-  complex_t pole = std::polar (poleRho, poleTheta);
-  complex_t zero = std::polar (zeroRho, zeroTheta);
+  complex_t pole = poleRho * std::polar (1., poleTheta);
+  complex_t zero = zeroRho * std::polar (1., zeroTheta);
 
   setTwoPole (pole, zero, std::conj(pole), std::conj(zero));
   applyScale (scale);
-- 
2.43.0


From 672c0fd193b1aa0092e51d030fcd08bb0454452f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:47 +0000
Subject: [PATCH 14/15] fix: accept real pole or zero pairs of which one is
 exactly zero

An odd order band stop (and band shelf) with a width for which one of
the two real poles lands exactly on zero, such as a quarter of the
sampling rate, was rejected with "Poles not complex conjugate",
depending on how the centre frequency rounds.
---
 iir/Types.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/iir/Types.h b/iir/Types.h
index 72c5516..687ad19 100644
--- a/iir/Types.h
+++ b/iir/Types.h
@@ -67,16 +67,14 @@ namespace Iir {
 
 		/**
 		 * Returns true if this is either a conjugate pair,
-		 * or a pair of reals where neither is zero.
+		 * or a pair of reals.
 		 */
 		bool isMatchedPair () const
 		{
 			if (first.imag() != 0)
 				return second == std::conj (first);
 			else
-				return second.imag () == 0 &&
-					second.real () != 0 &&
-					first.real () != 0;
+				return second.imag () == 0;
 		}
 
 		bool is_nan () const
-- 
2.43.0


From 8945b732116795a4612f5d47944e106ad2fad6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:57 +0000
Subject: [PATCH 15/15] fix: a rejected setup of a pole filter leaves the
 previous filter unchanged

The poles of a filter which cannot be realised, for example a Butterworth
high pass at frequency 0, were only found to be NaN after the old layout
had been cleared, and a scale factor which is NaN after all sections had
been overwritten with the unscaled new ones.
---
 iir/Cascade.cpp    | 61 +++++++++++++++++++++++++++++++++++++---------
 iir/Cascade.h      |  6 +++++
 iir/Layout.h       | 53 ++++++++++++++++++++++++++++++++++++++--
 iir/PoleFilter.cpp | 16 ++++++++++++
 4 files changed, 122 insertions(+), 14 deletions(-)

diff --git a/iir/Cascade.cpp b/iir/Cascade.cpp
index 663c9ca..0471637 100644
--- a/iir/Cascade.cpp
+++ b/iir/Cascade.cpp
@@ -55,6 +55,21 @@ namespace Iir {
 		m_stageArray = storage.stageArray;
 	}
 
+	// numerator and denominator of the response of one more stage
+	static void multiplyResponse (const Biquad& stage,
+				      const complex_t& czn1, const complex_t& czn2,
+				      complex_t& ch, complex_t& cbot)
+	{
+		complex_t cb (1);
+		complex_t ct    (stage.getB0()/stage.getA0());
+		ct = addmul (ct, stage.getB1()/stage.getA0(), czn1);
+		ct = addmul (ct, stage.getB2()/stage.getA0(), czn2);
+		cb = addmul (cb, stage.getA1()/stage.getA0(), czn1);
+		cb = addmul (cb, stage.getA2()/stage.getA0(), czn2);
+		ch   *= ct;
+		cbot *= cb;
+	}
+
 	complex_t Cascade::response (double normalizedFrequency) const
 	{
 		if (normalizedFrequency > 0.5) throw_invalid_argument(maxFError);
@@ -67,16 +82,7 @@ namespace Iir {
 
 		const Biquad* stage = m_stageArray;
 		for (int i = m_numStages; --i >=0; ++stage)
-		{
-			complex_t cb (1);
-			complex_t ct    (stage->getB0()/stage->getA0());
-			ct = addmul (ct, stage->getB1()/stage->getA0(), czn1);
-			ct = addmul (ct, stage->getB2()/stage->getA0(), czn2);
-			cb = addmul (cb, stage->getA1()/stage->getA0(), czn1);
-			cb = addmul (cb, stage->getA2()/stage->getA0(), czn2);
-			ch   *= ct;
-			cbot *= cb;
-		}
+			multiplyResponse (*stage, czn1, czn2, ch, cbot);
 
 		return ch / cbot;
 	}
@@ -106,10 +112,33 @@ namespace Iir {
 	void Cascade::setLayout (const LayoutBase& proto)
 	{
 		const int numPoles = proto.getNumPoles();
-		m_numStages = (numPoles + 1)/ 2;
-		if (m_numStages > m_maxStages)
+		const int numStages = (numPoles + 1)/ 2;
+		if (numStages > m_maxStages)
 			throw_invalid_argument("Number of stages is larger than the max stages.");
 
+		// Only try it out at first: a layout which cannot be
+		// realised is rejected before any stage has changed.
+		const double normalizedFrequency = proto.getNormalW() / (2 * doublePi);
+		if (normalizedFrequency > 0.5) throw_invalid_argument(maxFError);
+		if (normalizedFrequency < 0.0) throw_invalid_argument(minFError);
+		const double w = 2 * doublePi * normalizedFrequency;
+		const complex_t czn1 = std::polar (1., -w);
+		const complex_t czn2 = std::polar (1., -2 * w);
+		complex_t ch (1);
+		complex_t cbot (1);
+		Biquad first;
+		for (int i = 0; i < numStages; ++i)
+		{
+			Biquad trial;
+			trial.setPoleZeroPair (proto[i]);
+			multiplyResponse (trial, czn1, czn2, ch, cbot);
+			if (i == 0) first = trial;
+		}
+		if (numStages > 0)
+			first.applyScale (proto.getNormalGain() / std::abs (ch / cbot));
+
+		m_numStages = numStages;
+
 		Biquad* stage = m_stageArray;
 		for (int i = 0; i < m_maxStages; ++i, ++stage)
 			stage->setIdentity();
@@ -122,6 +151,14 @@ namespace Iir {
 			    std::abs (response (proto.getNormalW() / (2 * doublePi))));
 	}
 
+	void Cascade::setLayout (LayoutBase& proto)
+	{
+		LayoutRollback rollback (proto);
+		setLayout (static_cast<const LayoutBase&> (proto));
+		rollback.dismiss ();
+		proto.commit ();
+	}
+
 
 
 
diff --git a/iir/Cascade.h b/iir/Cascade.h
index 4c6800c..820fbe5 100644
--- a/iir/Cascade.h
+++ b/iir/Cascade.h
@@ -104,6 +104,12 @@ namespace Iir {
 
         void setLayout (const LayoutBase& proto);
 
+        /**
+         * As above but the layout goes back to the poles and zeros of its
+         * last backup if it is rejected.
+         **/
+        void setLayout (LayoutBase& proto);
+
         private:
         int m_numStages = 0;
         int m_maxStages = 0;
diff --git a/iir/Layout.h b/iir/Layout.h
index e4d6416..d03405d 100644
--- a/iir/Layout.h
+++ b/iir/Layout.h
@@ -69,10 +69,11 @@ namespace Iir {
 		{
 		}
 
-		LayoutBase (int maxPoles, PoleZeroPair* pairs)
+		LayoutBase (int maxPoles, PoleZeroPair* pairs, PoleZeroPair* backup = nullptr)
 			: m_numPoles (0)
 			, m_maxPoles (maxPoles)
 			, m_pair (pairs)
+			, m_backup (backup)
 		{
 		}
 
@@ -81,6 +82,7 @@ namespace Iir {
 			m_numPoles = 0;
 			m_maxPoles = other.m_maxPoles;
 			m_pair = other.m_pair;
+			m_backup = other.m_backup;
 		}
 
 		/**
@@ -91,6 +93,7 @@ namespace Iir {
 		{
 			m_maxPoles = other.m_maxPoles;
 			m_pair = other.m_pair;
+			m_backup = other.m_backup;
 		}
 
 		void reset ()
@@ -98,6 +101,32 @@ namespace Iir {
 			m_numPoles = 0;
 		}
 
+		/**
+		 * Keeps the poles and zeros for rollback() until they have been
+		 * replaced successfully by new ones: commit().
+		 **/
+		void backup ()
+		{
+			if (!m_backup) return;
+			m_numBackup = m_numPoles;
+			for (int i = 0; i < (m_numPoles+1)/2; ++i)
+				m_backup[i] = m_pair[i];
+		}
+
+		void rollback ()
+		{
+			if (m_numBackup < 0) return;
+			m_numPoles = m_numBackup;
+			for (int i = 0; i < (m_numPoles+1)/2; ++i)
+				m_pair[i] = m_backup[i];
+			m_numBackup = -1;
+		}
+
+		void commit ()
+		{
+			m_numBackup = -1;
+		}
+
 		int getNumPoles () const
 		{
 			return m_numPoles;
@@ -179,10 +208,29 @@ namespace Iir {
 		int m_numPoles = 0;
 		int m_maxPoles = 0;
 		PoleZeroPair* m_pair = nullptr;
+		PoleZeroPair* m_backup = nullptr;
+		int m_numBackup = -1;
 		double m_normalW = 0;
 		double m_normalGain = 1;
 	};
 
+/**
+ * Rolls the layout back if a new one is abandoned by an exception.
+ **/
+	class LayoutRollback
+	{
+	public:
+		explicit LayoutRollback (LayoutBase& layout) : m_layout (&layout) {}
+		~LayoutRollback () { if (m_layout) m_layout->rollback (); }
+		LayoutRollback (const LayoutRollback&) = delete;
+		LayoutRollback& operator= (const LayoutRollback&) = delete;
+
+		void dismiss () { m_layout = nullptr; }
+
+	private:
+		LayoutBase* m_layout;
+	};
+
 //------------------------------------------------------------------------------
 
 /**
@@ -194,11 +242,12 @@ namespace Iir {
 	public:
 		operator LayoutBase ()
 		{
-			return LayoutBase (MaxPoles, m_pairs);
+			return LayoutBase (MaxPoles, m_pairs, m_backup);
 		}
 
 	private:
 		PoleZeroPair m_pairs[(MaxPoles+1)/2] = {};
+		PoleZeroPair m_backup[(MaxPoles+1)/2] = {};
 	};
 
 }
diff --git a/iir/PoleFilter.cpp b/iir/PoleFilter.cpp
index a60476a..ae3c890 100644
--- a/iir/PoleFilter.cpp
+++ b/iir/PoleFilter.cpp
@@ -65,6 +65,8 @@ LowPassTransform::LowPassTransform (double fc,
 	if (!(fc < 0.5)) throw_invalid_argument(cutoffError);
 	if (fc < 0.0) throw_invalid_argument(cutoffNeg);
 	
+	digital.backup ();
+	LayoutRollback rollback (digital);
 	digital.reset ();
 
 	// prewarp
@@ -88,6 +90,8 @@ LowPassTransform::LowPassTransform (double fc,
 	
 	digital.setNormal (analog.getNormalW(),
 			   analog.getNormalGain());
+
+	rollback.dismiss ();
 }
 
 //------------------------------------------------------------------------------
@@ -111,6 +115,8 @@ HighPassTransform::HighPassTransform (double fc,
 	if (!(fc < 0.5)) throw_invalid_argument(cutoffError);
 	if (fc < 0.0) throw_invalid_argument(cutoffNeg);
 	
+	digital.backup ();
+	LayoutRollback rollback (digital);
 	digital.reset ();
 	
 	// prewarp
@@ -134,6 +140,8 @@ HighPassTransform::HighPassTransform (double fc,
 	
 	digital.setNormal (doublePi - analog.getNormalW(),
 			   analog.getNormalGain());
+
+	rollback.dismiss ();
 }
 
 //------------------------------------------------------------------------------
@@ -147,6 +155,8 @@ BandPassTransform::BandPassTransform (double fc,
 	if (fc < 0.0) throw_invalid_argument(cutoffNeg);
 	if (!(fw >= 0.0)) throw_invalid_argument(widthNeg);
 
+	digital.backup ();
+	LayoutRollback rollback (digital);
 	digital.reset ();
 	
 	const double ww = 2 * doublePi * fw;
@@ -192,6 +202,8 @@ BandPassTransform::BandPassTransform (double fc,
 	double wn = analog.getNormalW();
 	digital.setNormal (2 * atan (sqrt (tan ((wc + wn)* 0.5) * tan((wc2 + wn)* 0.5))),
 			   analog.getNormalGain());
+
+	rollback.dismiss ();
 }
 
 ComplexPair BandPassTransform::transform (complex_t c)
@@ -232,6 +244,8 @@ BandStopTransform::BandStopTransform (double fc,
 	if (fc < 0.0) throw_invalid_argument(cutoffNeg);
 	if (!(fw >= 0.0)) throw_invalid_argument(widthNeg);
 
+	digital.backup ();
+	LayoutRollback rollback (digital);
 	digital.reset ();
 	
 	const double ww = 2 * doublePi * fw;
@@ -279,6 +293,8 @@ BandStopTransform::BandStopTransform (double fc,
 		digital.setNormal (doublePi, analog.getNormalGain());
 	else
 		digital.setNormal (0, analog.getNormalGain());
+
+	rollback.dismiss ();
 }
 
 ComplexPair BandStopTransform::transform (complex_t c)
-- 
2.43.0

