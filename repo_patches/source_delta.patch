From 30882b3169bb5964f0e12f6a16b9b8f1f3224cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:06 +0000
Subject: [PATCH 01/44] fix: Ui8tof32/Ui8toc64 on amd64 overran both slices for
 unaligned outputs

The SIMD loop advanced in blocks of 16 from the alignment prologue's index
but stopped at the total length rounded down to 16, so with an output not on
a 16-byte boundary it could process up to 3 samples too many.
---
 dsp/conversion_avo_amd64.go | 2 ++
 dsp/conversion_avo_amd64.s  | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/dsp/conversion_avo_amd64.go b/dsp/conversion_avo_amd64.go
index 3e589d5..ace8e74 100644
--- a/dsp/conversion_avo_amd64.go
+++ b/dsp/conversion_avo_amd64.go
@@ -47,7 +47,9 @@ func main() {
 	Label("ui8tof32_aligned")
 	n := GP64()
 	MOVQ(inputLen, n)
+	SUBQ(index, n)
 	ANDQ(U32(^uint32(15)), n)
+	ADDQ(index, n)
 	CMPQ(index, n)
 	JGE(LabelRef("ui8tof32_stepper"))
 
diff --git a/dsp/conversion_avo_amd64.s b/dsp/conversion_avo_amd64.s
index 4735153..c0bcd3b 100644
--- a/dsp/conversion_avo_amd64.s
+++ b/dsp/conversion_avo_amd64.s
@@ -44,7 +44,9 @@ ui8tof32_align:
 
 ui8tof32_aligned:
 	MOVQ   CX, SI
+	SUBQ   BX, SI
 	ANDQ   $0xfffffff0, SI
+	ADDQ   BX, SI
 	CMPQ   BX, SI
 	JGE    ui8tof32_stepper
 	CMPB   ·useSSE4+0(SB), $0x01
-- 
2.43.0


From aabb3d9a3b08d57e6c68d18a3b4d33e043b2c78e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:06 +0000
Subject: [PATCH 02/44] fix: I8tof32 on amd64 overran both slices for unaligned
 outputs

Same block-rounding mistake as Ui8tof32; up to 15 samples too many.
---
 dsp/conversion_amd64.s | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dsp/conversion_amd64.s b/dsp/conversion_amd64.s
index db943df..5eb6cdf 100644
--- a/dsp/conversion_amd64.s
+++ b/dsp/conversion_amd64.s
@@ -354,7 +354,9 @@ i8tof32_align:
 i8tof32_aligned:
 
 	MOVQ CX, DX
+	SUBQ AX, DX
 	ANDQ $(~15), DX
+	ADDQ AX, DX
 	CMPQ AX, DX
 	JGE  i8tof32_stepper
 
-- 
2.43.0


From a0cc3d6243f61eb82f6e85a01077d9c647785bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:06 +0000
Subject: [PATCH 03/44] fix: F32toi16 on amd64 converted out-of-range samples
 differently in the tail

The vector loop saturates, the scalar tail wrapped around, so the value of a
clipped sample depended on where in the slice it was. Saturate in both.
---
 dsp/conversion_amd64.s | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dsp/conversion_amd64.s b/dsp/conversion_amd64.s
index 5eb6cdf..ed1f679 100644
--- a/dsp/conversion_amd64.s
+++ b/dsp/conversion_amd64.s
@@ -523,7 +523,9 @@ f32toi16_step:
 	MOVSS     (SI), X0
 	LEAQ      (DI)(AX*2), BX
 	MULSS     X8, X0
-	CVTTSS2SL X0, BP
+	CVTTPS2PL X0, X0
+	PACKSSLW  X0, X0 // saturate like the vector loop
+	MOVQ      X0, BP
 	MOVW      BP, (BX)
 	ADDQ      $4, SI
 	INCQ      AX
-- 
2.43.0


From 01ff1267060e054f7461aee7212135b740f102b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:06 +0000
Subject: [PATCH 04/44] fix: VScaleC64 panicked on empty slices

---
 dsp/math32.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dsp/math32.go b/dsp/math32.go
index 8e69271..958b86f 100644
--- a/dsp/math32.go
+++ b/dsp/math32.go
@@ -61,6 +61,9 @@ func VAddC64(input, output []complex64) {
 }
 
 func VScaleC64(input, output []complex64, scale float32) {
+	if len(input) == 0 || len(output) == 0 {
+		return
+	}
 	in := (*[2 << 25]float32)(unsafe.Pointer(&input[0]))[:len(input)*2]
 	out := (*[2 << 25]float32)(unsafe.Pointer(&output[0]))[:len(output)*2]
 	VScaleF32(in, out, scale)
-- 
2.43.0


From 65e79c4bc71d8a882fdcd08d7cc6dcb7296cdd7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:06 +0000
Subject: [PATCH 05/44] fix: VAbsC64 panicked on empty slices

---
 dsp/math32.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsp/math32.go b/dsp/math32.go
index 958b86f..464aedb 100644
--- a/dsp/math32.go
+++ b/dsp/math32.go
@@ -86,7 +86,7 @@ func vAbsC64(input []complex64, output []float32) {
 	if len(output) < n {
 		n = len(output)
 	}
-	_ = output[n-1] // eliminate bounds check
+	_ = output[:n] // eliminate bounds check
 	for i, v := range input[:n] {
 		output[i] = float32(math.Sqrt(float64(real(v)*real(v) + imag(v)*imag(v))))
 	}
-- 
2.43.0


From 7ee7dfa7e722a32dff07a031ec0e3ff00380cf17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:06 +0000
Subject: [PATCH 06/44] fix: Ui8tof32 panicked on empty slices where it is not
 assembly (386)

---
 dsp/conversion.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsp/conversion.go b/dsp/conversion.go
index 1943d4a..76dcdfe 100644
--- a/dsp/conversion.go
+++ b/dsp/conversion.go
@@ -43,7 +43,7 @@ func ui8tof32(input []byte, output []float32) {
 	if len(output) < n {
 		n = len(output)
 	}
-	_ = output[n-1] // eliminate bounds check
+	_ = output[:n] // eliminate bounds check
 	for i, v := range input[:n] {
 		output[i] = float32(int(v) - 128)
 	}
-- 
2.43.0


From 5ee34c0433f2ecb1f022effbe668461e0c4d0b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:26 +0000
Subject: [PATCH 07/44] fix: VScaleF32's SSE2/AVX paths left all but one tail
 element unscaled

The scalar loop compared against the length rounded down to the block size,
which the vector paths had put in CX, instead of the full length in DX.
---
 dsp/math32_amd64.s | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsp/math32_amd64.s b/dsp/math32_amd64.s
index 6d5aff0..6ec4c2c 100644
--- a/dsp/math32_amd64.s
+++ b/dsp/math32_amd64.s
@@ -314,7 +314,7 @@ vscalef32_scalar_loop:
 	INCQ  AX
 	ADDQ  $4, SI
 	ADDQ  $4, DI
-	CMPQ  AX, CX
+	CMPQ  AX, DX
 	JLT   vscalef32_scalar_loop
 
 vscalef32_done:
-- 
2.43.0


From 6852f892f7743d128b085cc2135732f243d94e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:44 +0000
Subject: [PATCH 08/44] fix: FastAtan2_2 returned NaN when y/x overflows

Inf/Inf in the second branch; reached for moderate y with a tiny x.
---
 dsp/math32.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dsp/math32.go b/dsp/math32.go
index 464aedb..a937740 100644
--- a/dsp/math32.go
+++ b/dsp/math32.go
@@ -178,6 +178,9 @@ func fastAtan2_2(y, x float32) float32 {
 		}
 		return atan
 	}
+	if zz > math.MaxFloat32 {
+		z = 0 // y/x overflowed: the angle is +-pi/2 to within float precision
+	}
 	atan := pi2 - z/(zz+0.28)
 	if y < 0.0 {
 		return atan - math.Pi
-- 
2.43.0


From 557ac79d97cccea9dca58754ca76b0e9fc60bb68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:06 +0000
Subject: [PATCH 09/44] fix: IIR constructors normalised the caller's
 coefficient slices in place

---
 dsp/filter.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dsp/filter.go b/dsp/filter.go
index 68f0bac..aa7d47f 100644
--- a/dsp/filter.go
+++ b/dsp/filter.go
@@ -19,6 +19,8 @@ func NewIIRFilter(bCoef, aCoef []float64) *IIRFilter {
 	if len(bCoef) != len(aCoef) || len(bCoef) == 0 {
 		panic("IIR filter must have len(b)==len(a) and len(b) > 0")
 	}
+	bCoef = append([]float64(nil), bCoef...)
+	aCoef = append([]float64(nil), aCoef...)
 	for i, c := range bCoef {
 		bCoef[i] = c / aCoef[0]
 	}
@@ -37,6 +39,8 @@ func NewComplexIIRFilter32(bCoef, aCoef []float32) *ComplexIIRFilter32 {
 	if len(bCoef) != len(aCoef) || len(bCoef) == 0 {
 		panic("IIR filter must have len(b)==len(a) and len(b) > 0")
 	}
+	bCoef = append([]float32(nil), bCoef...)
+	aCoef = append([]float32(nil), aCoef...)
 	for i, c := range bCoef {
 		bCoef[i] = c / aCoef[0]
 	}
@@ -55,6 +59,8 @@ func NewComplexIIRFilter(bCoef, aCoef []float64) *ComplexIIRFilter {
 	if len(bCoef) != len(aCoef) || len(bCoef) == 0 {
 		panic("IIR filter must have len(b)==len(a) and len(b) > 0")
 	}
+	bCoef = append([]float64(nil), bCoef...)
+	aCoef = append([]float64(nil), aCoef...)
 	for i, c := range bCoef {
 		bCoef[i] = c / aCoef[0]
 	}
-- 
2.43.0


From 57adaf0a796d410f948b1d28ae1708e956e1c40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:22 +0000
Subject: [PATCH 10/44] fix: Linear and LinearF32 panicked on negative, NaN or
 huge positions

---
 dsp/interpolate.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dsp/interpolate.go b/dsp/interpolate.go
index 86da1a7..5da37aa 100644
--- a/dsp/interpolate.go
+++ b/dsp/interpolate.go
@@ -4,6 +4,9 @@ import "math"
 
 // Linear interpolates using linear interpolation.
 func Linear(samples []float64, x float64) float64 {
+	if !(x >= 0 && x < float64(len(samples))) {
+		return 0
+	}
 	var samp float64
 	low := math.Floor(x)
 	lowInt := int(low)
@@ -22,7 +25,7 @@ func Linear(samples []float64, x float64) float64 {
 
 // LinearF32 interpolates using linear interpolation.
 func LinearF32(samples []float32, x float32) float32 {
-	if x < 0 || x > math.MaxFloat32 {
+	if !(x >= 0 && float64(x) < float64(len(samples))) {
 		return 0
 	}
 	var samp float32
-- 
2.43.0


From 0c737d67f4d40486b1c98a9eabfce18db6c9087c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:22 +0000
Subject: [PATCH 11/44] fix: Hermite and optimal 2x interpolators picked the
 wrong samples at negative positions

---
 dsp/interpolate.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/dsp/interpolate.go b/dsp/interpolate.go
index 5da37aa..9b4f13a 100644
--- a/dsp/interpolate.go
+++ b/dsp/interpolate.go
@@ -46,7 +46,7 @@ func LinearF32(samples []float32, x float32) float32 {
 
 // Hermite4p3o interpolates using 4-point, 3rd-order Hermite (x-form)
 func Hermite4p3o(samples []float64, x float64) float64 {
-	xi := int(x)
+	xi := int(math.Floor(x))
 
 	var s [4]float64
 	for i := -1; i <= 2; i++ {
@@ -65,7 +65,7 @@ func Hermite4p3o(samples []float64, x float64) float64 {
 
 // Hermite4p3oF32 interpolates using 4-point, 3rd-order Hermite (x-form)
 func Hermite4p3oF32(samples []float32, x float32) float32 {
-	xi := int(x)
+	xi := int(math.Floor(float64(x)))
 
 	var s [4]float32
 	for i := -1; i <= 2; i++ {
@@ -86,7 +86,7 @@ func Hermite4p3oF32(samples []float32, x float32) float32 {
 func Optimal2x4p4o(samples []float64, x float64) float64 {
 	const middle = 1
 
-	xi := int(x)
+	xi := int(math.Floor(x))
 
 	var s [6]float64
 	for i := -1; i <= 2; i++ {
@@ -113,7 +113,7 @@ func Optimal2x4p4o(samples []float64, x float64) float64 {
 func Optimal2x4p4oF32(samples []float32, x float32) float32 {
 	const middle = 1
 
-	xi := int(x)
+	xi := int(math.Floor(float64(x)))
 
 	var s [6]float32
 	for i := -1; i <= 2; i++ {
@@ -139,7 +139,7 @@ func Optimal2x4p4oF32(samples []float32, x float32) float32 {
 // Optimal2x6p5o interpolates using optimal 2x (6-point, 5th-order) (z-form)
 func Optimal2x6p5o(samples []float64, x float64) float64 {
 	const middle = 2
-	xi := int(x)
+	xi := int(math.Floor(x))
 
 	var s [6]float64
 	for i := -2; i <= 3; i++ {
@@ -168,7 +168,7 @@ func Optimal2x6p5o(samples []float64, x float64) float64 {
 // Optimal2x6p5oF32 interpolates using optimal 2x (6-point, 5th-order) (z-form)
 func Optimal2x6p5oF32(samples []float32, x float32) float32 {
 	const middle = 2
-	xi := int(x)
+	xi := int(math.Floor(float64(x)))
 
 	var s [6]float32
 	for i := -2; i <= 3; i++ {
-- 
2.43.0


From ba29a8208d6d10bf0244851e2d389b6b93a114f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:22 +0000
Subject: [PATCH 12/44] fix: cosine windows of length one were NaN

---
 dsp/window.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/dsp/window.go b/dsp/window.go
index ead99f4..fa5291c 100644
--- a/dsp/window.go
+++ b/dsp/window.go
@@ -36,12 +36,20 @@ func HammingWindowF32(output []float32) {
 }
 
 func HanningWindow(output []float64) {
+	if len(output) == 1 {
+		output[0] = 1
+		return
+	}
 	for n := range output {
 		output[n] = 0.5 * (1 - math.Cos(2*math.Pi*float64(n)/float64(len(output)-1)))
 	}
 }
 
 func HanningWindowF32(output []float32) {
+	if len(output) == 1 {
+		output[0] = 1
+		return
+	}
 	for n := range output {
 		output[n] = float32(0.5 * (1 - math.Cos(2*math.Pi*float64(n)/float64(len(output)-1))))
 	}
@@ -69,6 +77,10 @@ func window(output []float64, a []float64) {
 	if len(a) < 1 || len(a) > 4 {
 		panic("invalid window length " + strconv.Itoa(len(a)))
 	}
+	if len(output) == 1 {
+		output[0] = 1
+		return
+	}
 	nn := float64(len(output) - 1)
 	for n := range output {
 		fn := float64(n)
@@ -90,6 +102,10 @@ func windowF32(output []float32, a []float64) {
 	if len(a) < 1 || len(a) > 4 {
 		panic("invalid window length " + strconv.Itoa(len(a)))
 	}
+	if len(output) == 1 {
+		output[0] = 1
+		return
+	}
 	nn := float64(len(output) - 1)
 	for n := range output {
 		fn := float64(n)
-- 
2.43.0


From 8c85e0b3ca247b5474e0699a0e5c36b2f5e2eb51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:03 +0000
Subject: [PATCH 13/44] fix: IIR filters of order zero panicked on their first
 sample

---
 dsp/filter.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/dsp/filter.go b/dsp/filter.go
index aa7d47f..99cff36 100644
--- a/dsp/filter.go
+++ b/dsp/filter.go
@@ -85,8 +85,10 @@ func (f *IIRFilter) Filter(input, output []float64) {
 			f.pIn[i] = f.pIn[i-1]
 			f.pOut[i] = f.pOut[i-1]
 		}
-		f.pIn[0] = s
-		f.pOut[0] = sum
+		if len(f.pIn) > 0 {
+			f.pIn[0] = s
+			f.pOut[0] = sum
+		}
 		output[i] = sum
 	}
 }
@@ -101,8 +103,10 @@ func (f *ComplexIIRFilter32) Filter(input, output []complex64) {
 			f.pIn[i] = f.pIn[i-1]
 			f.pOut[i] = f.pOut[i-1]
 		}
-		f.pIn[0] = s
-		f.pOut[0] = sum
+		if len(f.pIn) > 0 {
+			f.pIn[0] = s
+			f.pOut[0] = sum
+		}
 		output[i] = sum
 	}
 }
@@ -117,8 +121,10 @@ func (f *ComplexIIRFilter) Filter(input, output []complex128) {
 			f.pIn[i] = f.pIn[i-1]
 			f.pOut[i] = f.pOut[i-1]
 		}
-		f.pIn[0] = s
-		f.pOut[0] = sum
+		if len(f.pIn) > 0 {
+			f.pIn[0] = s
+			f.pOut[0] = sum
+		}
 		output[i] = sum
 	}
 }
-- 
2.43.0


From 334346cfe89aa5fe7b19e74d6846d1353b7b8e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:51 +0000
Subject: [PATCH 14/44] fix: FlexNet callsigns of compressed AX.25 headers were
 unpacked with wrong masks

---
 dsp/ax25/hdlc.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dsp/ax25/hdlc.go b/dsp/ax25/hdlc.go
index ffbed6d..8055211 100644
--- a/dsp/ax25/hdlc.go
+++ b/dsp/ax25/hdlc.go
@@ -80,13 +80,13 @@ func (ax *AX25) processFrame() *Frame {
 		frame.V1 = false
 		frame.Command = (buf[1] & 2) != 0
 		var dest []byte
-		if i := (buf[2] >> 2) & 0x2f; i != 0 {
+		if i := (buf[2] >> 2) & 0x3f; i != 0 {
 			dest = append(dest, i+0x20)
 		}
-		if i := (buf[2] << 4) | ((buf[3]>>4)&0xf)&0x3f; i != 0 {
+		if i := ((buf[2] << 4) | ((buf[3] >> 4) & 0xf)) & 0x3f; i != 0 {
 			dest = append(dest, i+0x20)
 		}
-		if i := (buf[3] << 2) | ((buf[4]>>6)&3)&0x3f; i != 0 {
+		if i := ((buf[3] << 2) | ((buf[4] >> 6) & 3)) & 0x3f; i != 0 {
 			dest = append(dest, i+0x20)
 		}
 		if i := buf[4] & 0x3f; i != 0 {
-- 
2.43.0


From a63542ff9a5d0405a6557b4ae065833f6994a4ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:51 +0000
Subject: [PATCH 15/44] fix: AX.25 frames shared their information field with
 the receive buffer

---
 dsp/ax25/hdlc.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsp/ax25/hdlc.go b/dsp/ax25/hdlc.go
index 8055211..18f82d8 100644
--- a/dsp/ax25/hdlc.go
+++ b/dsp/ax25/hdlc.go
@@ -169,7 +169,7 @@ func (ax *AX25) processFrame() *Frame {
 
 	if frame.Type == IFrame || (frame.Type == UFrame && frame.UnnumberedType == UI) {
 		frame.PID = PID(buf[0])
-		frame.Info = buf[1:]
+		frame.Info = append([]byte(nil), buf[1:]...)
 	}
 	return &frame
 }
-- 
2.43.0


From d7519b43a2c538e579b19890723416f2414e3cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:52 +0000
Subject: [PATCH 16/44] fix: AX.25 frames that are not a whole number of octets
 were accepted

---
 dsp/ax25/hdlc.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dsp/ax25/hdlc.go b/dsp/ax25/hdlc.go
index 18f82d8..3fe982f 100644
--- a/dsp/ax25/hdlc.go
+++ b/dsp/ax25/hdlc.go
@@ -181,7 +181,9 @@ func (ax *AX25) Feed(bit int) *Frame {
 	// Watch for flag
 	if ax.bitstream&0xff == 0x7e {
 		var frame *Frame
-		if ax.inFrame && len(ax.rxBuf) > 2 {
+		// The first seven bits of the closing flag were received as data: a frame
+		// that is a whole number of octets leaves exactly those.
+		if ax.inFrame && ax.rxBitI == 7 && len(ax.rxBuf) > 2 {
 			frame = ax.processFrame()
 		}
 		ax.inFrame = true
-- 
2.43.0


From a85a4655a7108905a4f39c13e9f9f621346c9104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:07 +0000
Subject: [PATCH 17/44] fix: DTMF Feed applied its window to the caller's
 samples

---
 dsp/dtmf/dtmf.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/dsp/dtmf/dtmf.go b/dsp/dtmf/dtmf.go
index 017f2ea..61f9494 100644
--- a/dsp/dtmf/dtmf.go
+++ b/dsp/dtmf/dtmf.go
@@ -21,6 +21,7 @@ type DTMF struct {
 	nHigh     int
 	blockSize int
 	w         []float32
+	windowed  []float32
 }
 
 func New(lowFreq, highFreq []uint64, sampleRate, blockSize int, windowFunc func([]float32)) *DTMF {
@@ -36,6 +37,7 @@ func New(lowFreq, highFreq []uint64, sampleRate, blockSize int, windowFunc func(
 		nHigh:     len(highFreq),
 		blockSize: blockSize,
 		w:         w,
+		windowed:  make([]float32, blockSize),
 	}
 }
 
@@ -48,13 +50,14 @@ func (d *DTMF) Feed(samples []float32) (int, float32) {
 	if len(samples) > d.blockSize {
 		samples = samples[:d.blockSize]
 	}
+	windowed := d.windowed[:len(samples)]
 	for i, s := range samples {
-		samples[i] = s * d.w[i]
+		windowed[i] = s * d.w[i]
 	}
 	d.lowFreq.Reset()
 	d.highFreq.Reset()
-	d.lowFreq.Feed(samples)
-	d.highFreq.Feed(samples)
+	d.lowFreq.Feed(windowed)
+	d.highFreq.Feed(windowed)
 	row, thresh1 := max(d.lowFreq.Magnitude())
 	col, thresh2 := max(d.highFreq.Magnitude())
 	if thresh2 < thresh1 {
-- 
2.43.0


From f489645a4ef96f3fa222a7278e8a5baa2213e3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:10 +0000
Subject: [PATCH 18/44] fix: build on Windows: Ui8tof32 was declared twice

---
 dsp/conversion.go          | 2 +-
 dsp/conversion_avo_amd64.s | 2 +-
 dsp/stub_windows.go        | 6 ------
 3 files changed, 2 insertions(+), 8 deletions(-)
 delete mode 100644 dsp/stub_windows.go

diff --git a/dsp/conversion.go b/dsp/conversion.go
index 76dcdfe..b44fbaa 100644
--- a/dsp/conversion.go
+++ b/dsp/conversion.go
@@ -5,7 +5,7 @@ import (
 	"math"
 )
 
-//go:generate go run conversion_avo_amd64.go -out conversion_avo_amd64.s -stubs stub_windows.go
+//go:generate go run conversion_avo_amd64.go -out conversion_avo_amd64.s
 
 // Ui8toi16 converts and scales unsigned 8-bit samples to 16-bit signed samples.
 func Ui8toi16(input []byte, output []int16)
diff --git a/dsp/conversion_avo_amd64.s b/dsp/conversion_avo_amd64.s
index c0bcd3b..95ba21d 100644
--- a/dsp/conversion_avo_amd64.s
+++ b/dsp/conversion_avo_amd64.s
@@ -1,4 +1,4 @@
-// Code generated by command: go run conversion_avo_amd64.go -out conversion_avo_amd64.s -stubs stub_windows.go. DO NOT EDIT.
+// Code generated by command: go run conversion_avo_amd64.go -out conversion_avo_amd64.s. DO NOT EDIT.
 
 #include "textflag.h"
 
diff --git a/dsp/stub_windows.go b/dsp/stub_windows.go
deleted file mode 100644
index c5cc76e..0000000
--- a/dsp/stub_windows.go
+++ /dev/null
@@ -1,6 +0,0 @@
-// Code generated by command: go run conversion_avo_amd64.go -out conversion_avo_amd64.s -stubs stub_windows.go. DO NOT EDIT.
-
-package dsp
-
-// Ui8tof32 converts unsigned 8-bit samples to 32-bit float.
-func Ui8tof32(input []byte, output []float32)
-- 
2.43.0


From ff03e9dc03d3ce4593fdc214509d971671638890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:10 +0000
Subject: [PATCH 19/44] fix: add the missing I16ToBLE stubs for 386, arm and
 arm64

---
 dsp/conversion_386.s   | 3 +++
 dsp/conversion_arm.s   | 3 +++
 dsp/conversion_arm64.s | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/dsp/conversion_386.s b/dsp/conversion_386.s
index c3a9eb1..6bf50fc 100644
--- a/dsp/conversion_386.s
+++ b/dsp/conversion_386.s
@@ -24,3 +24,6 @@ TEXT ·I16bleToF64(SB), 7, $0
 
 TEXT ·I16bleToF32(SB), 7, $0
 	JMP ·i16bleToF32(SB)
+
+TEXT ·I16ToBLE(SB), 7, $0
+	JMP ·i16ToBLE(SB)
diff --git a/dsp/conversion_arm.s b/dsp/conversion_arm.s
index 51e627c..cc89602 100644
--- a/dsp/conversion_arm.s
+++ b/dsp/conversion_arm.s
@@ -306,3 +306,6 @@ TEXT ·I16bleToF64(SB), NOSPLIT, $0
 
 TEXT ·I16bleToF32(SB), NOSPLIT, $0
 	B ·i16bleToF32(SB)
+
+TEXT ·I16ToBLE(SB), NOSPLIT, $0
+	B ·i16ToBLE(SB)
diff --git a/dsp/conversion_arm64.s b/dsp/conversion_arm64.s
index eba09db..4f21b00 100644
--- a/dsp/conversion_arm64.s
+++ b/dsp/conversion_arm64.s
@@ -97,3 +97,6 @@ TEXT ·I16bleToF64(SB), NOSPLIT, $0
 
 TEXT ·I16bleToF32(SB), NOSPLIT, $0
 	B ·i16bleToF32(SB)
+
+TEXT ·I16ToBLE(SB), NOSPLIT, $0
+	B ·i16ToBLE(SB)
-- 
2.43.0


From 689909ea6eab8a4b9676dc1d603206d12cf8170d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:10 +0000
Subject: [PATCH 20/44] fix: add the missing VMinF32 stubs for 386 and arm

---
 dsp/math32_386.s | 3 +++
 dsp/math32_arm.s | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/dsp/math32_386.s b/dsp/math32_386.s
index 1d0358b..3e5e326 100644
--- a/dsp/math32_386.s
+++ b/dsp/math32_386.s
@@ -15,3 +15,6 @@ TEXT ·VMaxF32(SB), 7, $0
 
 TEXT ·VMulC64xF32(SB), 7, $0
 	JMP ·vMulC64xF32(SB)
+
+TEXT ·VMinF32(SB), 7, $0
+	JMP ·vMinF32(SB)
diff --git a/dsp/math32_arm.s b/dsp/math32_arm.s
index 0fdbb5d..b773f55 100644
--- a/dsp/math32_arm.s
+++ b/dsp/math32_arm.s
@@ -350,3 +350,6 @@ vmaxf32_scalar_loop:
 vmaxf32_done:
 	MOVF F4, ret+12(FP)
 	RET
+
+TEXT ·VMinF32(SB), NOSPLIT, $0
+	B ·vMinF32(SB)
-- 
2.43.0


From aebf95ec47a01e7f6457e462e0a7f7eb97b667fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:56 +0000
Subject: [PATCH 21/44] fix: PacketReader panicked when a packet holds more
 samples than the caller's slice

---
 borip/packet.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/borip/packet.go b/borip/packet.go
index aed4de9..687e9e7 100644
--- a/borip/packet.go
+++ b/borip/packet.go
@@ -71,7 +71,7 @@ func (rd *PacketReader) ReadSamples(samples []complex128) (int, error) {
 		// rd.bufN = n - (n & 7)
 	}
 	idx := 0
-	for rd.bufI < rd.bufN {
+	for rd.bufI < rd.bufN && idx < len(samples) {
 		iReal := int16(binary.LittleEndian.Uint16(rd.buf[rd.bufI : rd.bufI+2]))
 		qQmag := int16(binary.LittleEndian.Uint16(rd.buf[rd.bufI+2 : rd.bufI+4]))
 		samples[idx] = complex(float64(iReal), float64(qQmag))
-- 
2.43.0


From b2c0ef7ff675358d441c742fe8e142361ceb8e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:56 +0000
Subject: [PATCH 22/44] fix: PacketReader made up a sample from stale bytes
 when a packet ends inside a sample

---
 borip/packet.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/borip/packet.go b/borip/packet.go
index 687e9e7..5001bb7 100644
--- a/borip/packet.go
+++ b/borip/packet.go
@@ -68,7 +68,8 @@ func (rd *PacketReader) ReadSamples(samples []complex128) (int, error) {
 			rd.header.Idx = binary.LittleEndian.Uint16(rd.buf[2:4])
 			rd.bufI += 4
 		}
-		// rd.bufN = n - (n & 7)
+		// Ignore a trailing partial sample
+		rd.bufN -= (rd.bufN - rd.bufI) % 4
 	}
 	idx := 0
 	for rd.bufI < rd.bufN && idx < len(samples) {
-- 
2.43.0


From f334bce5a178f3e0b1e8dc888548a7fb57700fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:56 +0000
Subject: [PATCH 23/44] fix: PacketReader delivered garbage after a short
 packet

---
 borip/packet.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/borip/packet.go b/borip/packet.go
index 5001bb7..a235008 100644
--- a/borip/packet.go
+++ b/borip/packet.go
@@ -61,6 +61,7 @@ func (rd *PacketReader) ReadSamples(samples []complex128) (int, error) {
 		rd.bufN = n
 		if rd.withHeaders {
 			if n < packetHeaderSize {
+				rd.bufN = 0
 				return 0, ErrShortPacket
 			}
 			rd.header.Flags = rd.buf[rd.bufI]
-- 
2.43.0


From 9bc2fbe0ef54a4ad7329851c804001caf7d39ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:05 +0000
Subject: [PATCH 24/44] fix: SetRate panicked when the response carries no rate

---
 borip/client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/borip/client.go b/borip/client.go
index 3966159..4ef9a83 100644
--- a/borip/client.go
+++ b/borip/client.go
@@ -190,7 +190,7 @@ func (bor *BorIP) SetRate(rate float64) (float64, error) {
 	if err != nil {
 		return 0.0, err
 	}
-	parts, err := parseAndCheck(res, 1)
+	parts, err := parseAndCheck(res, 2)
 	if err != nil {
 		return 0.0, err
 	}
-- 
2.43.0


From f0f4b0588c0f5f48a041730814b7d249d01fc805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:05 +0000
Subject: [PATCH 25/44] fix: SelectDevice rejected devices without the optional
 serial number

---
 borip/client.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/borip/client.go b/borip/client.go
index 4ef9a83..3b2fea5 100644
--- a/borip/client.go
+++ b/borip/client.go
@@ -39,12 +39,15 @@ type Device struct {
 func parseDeviceString(st string) (*Device, error) {
 	// Terratec NOXON (rev 3)|-5.000000|30.000000|1.000000|3200000.000000|16256|(Default)|Terratec NOXON (rev 3)
 	deviceParts := strings.Split(st, "|")
-	if len(deviceParts) < 8 {
+	if len(deviceParts) < 7 {
 		return nil, ErrUnexpectedResponse
 	}
 	d := &Device{
-		Name:   deviceParts[0],
-		Serial: deviceParts[7],
+		Name: deviceParts[0],
+	}
+	if len(deviceParts) > 7 {
+		// The serial number is optional
+		d.Serial = deviceParts[7]
 	}
 	var err error
 	if d.MinGain, err = strconv.ParseFloat(deviceParts[1], 64); err != nil {
-- 
2.43.0


From 573cec6366af4bb487102490844fa1a64ac38784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:05 +0000
Subject: [PATCH 26/44] fix: Dial leaked the connection when the server does
 not greet

---
 borip/client.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/borip/client.go b/borip/client.go
index 3b2fea5..cf56766 100644
--- a/borip/client.go
+++ b/borip/client.go
@@ -92,6 +92,7 @@ func Dial(addr string) (*BorIP, error) {
 	}
 	line, err := bor.rd.ReadString('\n')
 	if err != nil {
+		conn.Close()
 		return nil, err
 	}
 	line = strings.TrimSpace(line)
-- 
2.43.0


From 25e1af162acd40773ac4bdb434dd2d743de83e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:05 +0000
Subject: [PATCH 27/44] fix: the client kept reporting a device after a failed
 selection

---
 borip/client.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/borip/client.go b/borip/client.go
index cf56766..9318f29 100644
--- a/borip/client.go
+++ b/borip/client.go
@@ -107,6 +107,8 @@ func (bor *BorIP) SelectDevice(hint string) (*Device, error) {
 	if err != nil {
 		return nil, err
 	}
+	// Whatever was selected before no longer is once the server has answered.
+	bor.device = nil
 	resParts := strings.SplitN(res, " ", 2)
 	if resParts[0] != "DEVICE" || len(resParts) < 2 {
 		return nil, ErrUnexpectedResponse
@@ -114,7 +116,6 @@ func (bor *BorIP) SelectDevice(hint string) (*Device, error) {
 	if resParts[1][0] == '-' {
 		if len(resParts[1]) == 1 {
 			// Probably selected ! which is not an error. Just deselects the device.
-			bor.device = nil
 			return nil, nil
 		}
 		return nil, errors.New("borip: " + strings.TrimSpace(resParts[1][1:]))
-- 
2.43.0


From 87fc3541801f62937831f87401c5ac559fe11a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:05 +0000
Subject: [PATCH 28/44] fix: SetFrequency took unparsable numbers in the
 response for zero

---
 borip/client.go | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/borip/client.go b/borip/client.go
index 9318f29..a24ea52 100644
--- a/borip/client.go
+++ b/borip/client.go
@@ -143,17 +143,13 @@ func (bor *BorIP) SetFrequency(freq float64) (targetIF, actualIF, targetDDC, act
 		err = e
 		return
 	}
-	if len(resParts) >= 3 {
-		targetIF, _ = strconv.ParseFloat(resParts[2], 64)
-	}
-	if len(resParts) >= 4 {
-		actualIF, _ = strconv.ParseFloat(resParts[3], 64)
-	}
-	if len(resParts) >= 5 {
-		targetDDC, _ = strconv.ParseFloat(resParts[4], 64)
-	}
-	if len(resParts) >= 6 {
-		actualDDC, _ = strconv.ParseFloat(resParts[5], 64)
+	for i, v := range []*float64{&targetIF, &actualIF, &targetDDC, &actualDDC} {
+		if len(resParts) < i+3 {
+			break
+		}
+		if *v, err = strconv.ParseFloat(resParts[i+2], 64); err != nil {
+			return
+		}
 	}
 	return
 }
-- 
2.43.0


From c71c70595bb8488902e3a9e9787ac2caeb774c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:05 +0000
Subject: [PATCH 29/44] fix: client queries returned the server's error text or
 the answer to another command as the value

---
 borip/client.go | 63 +++++++++++++++++++++----------------------------
 1 file changed, 27 insertions(+), 36 deletions(-)

diff --git a/borip/client.go b/borip/client.go
index a24ea52..ae84225 100644
--- a/borip/client.go
+++ b/borip/client.go
@@ -155,14 +155,11 @@ func (bor *BorIP) SetFrequency(freq float64) (targetIF, actualIF, targetDDC, act
 }
 
 func (bor *BorIP) Frequency() (float64, error) {
-	res, err := bor.command("FREQ")
+	res, err := bor.query("FREQ")
 	if err != nil {
 		return 0.0, err
 	}
-	if len(res) < 6 {
-		return 0.0, ErrUnexpectedResponse
-	}
-	return strconv.ParseFloat(res[5:], 64)
+	return strconv.ParseFloat(res, 64)
 }
 
 func (bor *BorIP) SetAntenna(ant string) error {
@@ -175,14 +172,7 @@ func (bor *BorIP) SetAntenna(ant string) error {
 }
 
 func (bor *BorIP) Antenna() (string, error) {
-	res, err := bor.command("ANTENNA")
-	if err != nil {
-		return "", err
-	}
-	if len(res) < 8 {
-		return "", ErrUnexpectedResponse
-	}
-	return res[8:], nil
+	return bor.query("ANTENNA")
 }
 
 // Return the actual sampling rate (closest)
@@ -199,14 +189,11 @@ func (bor *BorIP) SetRate(rate float64) (float64, error) {
 }
 
 func (bor *BorIP) Rate() (float64, error) {
-	res, err := bor.command("RATE")
+	res, err := bor.query("RATE")
 	if err != nil {
 		return 0.0, err
 	}
-	if len(res) < 6 {
-		return 0.0, ErrUnexpectedResponse
-	}
-	return strconv.ParseFloat(res[5:], 64)
+	return strconv.ParseFloat(res, 64)
 }
 
 // Return the actual gain (closest)
@@ -220,14 +207,11 @@ func (bor *BorIP) SetGain(rate float64) error {
 }
 
 func (bor *BorIP) Gain() (float64, error) {
-	res, err := bor.command("GAIN")
+	res, err := bor.query("GAIN")
 	if err != nil {
 		return 0.0, err
 	}
-	if len(res) < 6 {
-		return 0.0, ErrUnexpectedResponse
-	}
-	return strconv.ParseFloat(res[5:], 64)
+	return strconv.ParseFloat(res, 64)
 }
 
 func (bor *BorIP) SetDestination(dest string) (string, error) {
@@ -243,14 +227,7 @@ func (bor *BorIP) SetDestination(dest string) (string, error) {
 }
 
 func (bor *BorIP) Destination() (string, error) {
-	res, err := bor.command("DEST")
-	if err != nil {
-		return "", err
-	}
-	if len(res) < 5 {
-		return "", ErrUnexpectedResponse
-	}
-	return res[5:], nil
+	return bor.query("DEST")
 }
 
 func (bor *BorIP) SetHeaderEnabled(enabled bool) error {
@@ -267,14 +244,11 @@ func (bor *BorIP) SetHeaderEnabled(enabled bool) error {
 }
 
 func (bor *BorIP) HeaderEnabled() (bool, error) {
-	res, err := bor.command("HEADER")
+	res, err := bor.query("HEADER")
 	if err != nil {
 		return false, err
 	}
-	if len(res) < 8 {
-		return false, ErrUnexpectedResponse
-	}
-	switch res[7:] {
+	switch res {
 	case "ON":
 		return true, nil
 	case "OFF":
@@ -321,6 +295,23 @@ func parseAndCheck(res string, minArgs int) ([]string, error) {
 	return resParts, nil
 }
 
+// query sends a command without arguments and returns the value in the response.
+func (bor *BorIP) query(cmd string) (string, error) {
+	res, err := bor.command(cmd)
+	if err != nil {
+		return "", err
+	}
+	resParts := strings.Split(res, " ")
+	if len(resParts) < 2 || resParts[0] != cmd {
+		return "", ErrUnexpectedResponse
+	}
+	switch resParts[1] {
+	case "-", "FAIL", "UNKNOWN", "DEVICE":
+		return "", makeErrorResponse(resParts[1:])
+	}
+	return strings.Join(resParts[1:], " "), nil
+}
+
 func (bor *BorIP) command(cmd string, args ...string) (string, error) {
 	argString := ""
 	if len(args) > 0 {
-- 
2.43.0


From 11ac09faa8258303ac391d2357cc6edbc42c2576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:05 +0000
Subject: [PATCH 30/44] fix: the client took a response to another command for
 success

---
 borip/client.go | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/borip/client.go b/borip/client.go
index ae84225..78a659c 100644
--- a/borip/client.go
+++ b/borip/client.go
@@ -138,7 +138,7 @@ func (bor *BorIP) SetFrequency(freq float64) (targetIF, actualIF, targetDDC, act
 		err = e
 		return
 	}
-	resParts, e := parseAndCheck(res, 1)
+	resParts, e := parseAndCheck(res, "FREQ", 1)
 	if e != nil {
 		err = e
 		return
@@ -167,7 +167,7 @@ func (bor *BorIP) SetAntenna(ant string) error {
 	if err != nil {
 		return err
 	}
-	_, err = parseAndCheck(res, 1)
+	_, err = parseAndCheck(res, "ANTENNA", 1)
 	return err
 }
 
@@ -181,7 +181,7 @@ func (bor *BorIP) SetRate(rate float64) (float64, error) {
 	if err != nil {
 		return 0.0, err
 	}
-	parts, err := parseAndCheck(res, 2)
+	parts, err := parseAndCheck(res, "RATE", 2)
 	if err != nil {
 		return 0.0, err
 	}
@@ -202,7 +202,7 @@ func (bor *BorIP) SetGain(rate float64) error {
 	if err != nil {
 		return err
 	}
-	_, err = parseAndCheck(res, 1)
+	_, err = parseAndCheck(res, "GAIN", 1)
 	return err
 }
 
@@ -219,7 +219,7 @@ func (bor *BorIP) SetDestination(dest string) (string, error) {
 	if err != nil {
 		return "", err
 	}
-	parts, err := parseAndCheck(res, 2)
+	parts, err := parseAndCheck(res, "DEST", 2)
 	if err != nil {
 		return "", err
 	}
@@ -239,7 +239,7 @@ func (bor *BorIP) SetHeaderEnabled(enabled bool) error {
 	if err != nil {
 		return err
 	}
-	_, err = parseAndCheck(res, 1)
+	_, err = parseAndCheck(res, "HEADER", 1)
 	return err
 }
 
@@ -262,7 +262,7 @@ func (bor *BorIP) Go() error {
 	if err != nil {
 		return err
 	}
-	_, err = parseAndCheck(res, 1)
+	_, err = parseAndCheck(res, "GO", 1)
 	if err == nil {
 		bor.running = true
 	}
@@ -274,16 +274,16 @@ func (bor *BorIP) Stop() error {
 	if err != nil {
 		return err
 	}
-	_, err = parseAndCheck(res, 1)
+	_, err = parseAndCheck(res, "STOP", 1)
 	if err == nil {
 		bor.running = false
 	}
 	return err
 }
 
-func parseAndCheck(res string, minArgs int) ([]string, error) {
+func parseAndCheck(res, cmd string, minArgs int) ([]string, error) {
 	resParts := strings.Split(res, " ")
-	if len(resParts) < 2 {
+	if len(resParts) < 2 || resParts[0] != cmd {
 		return nil, ErrUnexpectedResponse
 	}
 	if resParts[1] != "OK" {
-- 
2.43.0


From 7e45aae911eb7c041215efa4316f434a537c6b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:08 +0000
Subject: [PATCH 31/44] fix: boripserver did not compile (scope of the queried
 frequency)

---
 boripserver/main.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/boripserver/main.go b/boripserver/main.go
index c945a91..48ec637 100644
--- a/boripserver/main.go
+++ b/boripserver/main.go
@@ -105,7 +105,8 @@ func (cli *client) handleCommand(cmd string, args []string) error {
 			return cli.sendResponse(cmd, resDevice, "no active device")
 		}
 		if len(args) == 0 {
-			if curFreq, err := cli.dev.rtlDev.GetCenterFreq(); err != nil {
+			curFreq, err := cli.dev.rtlDev.GetCenterFreq()
+			if err != nil {
 				return cli.sendResponse(cmd, "-", "failed to get frequency")
 			}
 			return cli.sendResponse(cmd, strconv.FormatUint(uint64(curFreq), 10))
-- 
2.43.0


From 57fe731ecadeb3d062436dc42aa047c0665ba39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:08 +0000
Subject: [PATCH 32/44] fix: boripserver reported the tuner frequency only when
 it could not be read

---
 boripserver/main.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/boripserver/main.go b/boripserver/main.go
index 48ec637..427f5a3 100644
--- a/boripserver/main.go
+++ b/boripserver/main.go
@@ -270,7 +270,6 @@ func (cli *client) handleCommand(cmd string, args []string) error {
 			_, tunerFreq, err := dev.rtlDev.GetXtalFreq()
 			if err != nil {
 				log.Printf("Failed to get tuner frequency: %s", err.Error())
-			} else {
 				tunerFreq = 0
 			}
 			// <DEVICE NAME>|<MIN GAIN>|<MAX GAIN>|<GAIN STEP>|<FPGA FREQ IN HZ>|<COMPLEX SAMPLE PAIRS PER PACKET>|<CSV LIST OF VALID ANTENNAS>[|<DEVICE SERIAL NUMBER>]
-- 
2.43.0


From 24b0a31452ea165c53f3d2aebd63911cc2a36b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:08 +0000
Subject: [PATCH 33/44] fix: boripserver crashed on tuners with fewer than two
 gains

---
 boripserver/main.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/boripserver/main.go b/boripserver/main.go
index 427f5a3..1e8a2f1 100644
--- a/boripserver/main.go
+++ b/boripserver/main.go
@@ -259,10 +259,12 @@ func (cli *client) handleCommand(cmd string, args []string) error {
 			gains, err := dev.rtlDev.GetTunerGains()
 			if err != nil {
 				log.Printf("Failed to get tuner gains: %s", err.Error())
-			} else {
+			} else if len(gains) > 0 {
 				minGain = float64(gains[0])
 				maxGain = float64(gains[len(gains)-1])
-				gainStep = float64(gains[1] - gains[0])
+				if len(gains) > 1 {
+					gainStep = float64(gains[1] - gains[0])
+				}
 			}
 			// if debug {
 			// 	log.Printf("Gains: %+v", gains)
-- 
2.43.0


From 97d9dc5a39b40ed0c08122e94726234697f942b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:08 +0000
Subject: [PATCH 34/44] fix: boripserver answered negative gains as huge
 numbers

---
 boripserver/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/boripserver/main.go b/boripserver/main.go
index 1e8a2f1..6e5b642 100644
--- a/boripserver/main.go
+++ b/boripserver/main.go
@@ -176,7 +176,7 @@ func (cli *client) handleCommand(cmd string, args []string) error {
 		if err != nil {
 			return cli.sendResponse(cmd, resFail, "failed to get gain")
 		}
-		return cli.sendResponse(cmd, resOK, strconv.FormatUint(uint64(curGain), 10))
+		return cli.sendResponse(cmd, resOK, strconv.Itoa(curGain))
 	case cmdDest:
 		if len(args) == 0 {
 			if cli.dest == nil {
-- 
2.43.0


From 4f59837f0822010cfebef5dcbe2dbcb9f10684db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:08 +0000
Subject: [PATCH 35/44] fix: boripserver answered the antenna query in the
 format of the set command

---
 boripserver/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/boripserver/main.go b/boripserver/main.go
index 6e5b642..6d205ee 100644
--- a/boripserver/main.go
+++ b/boripserver/main.go
@@ -130,7 +130,7 @@ func (cli *client) handleCommand(cmd string, args []string) error {
 		if len(args) > 0 {
 			return cli.sendResponse(cmd, resOK)
 		}
-		return cli.sendResponse(cmd, resOK, "default")
+		return cli.sendResponse(cmd, "default")
 	case cmdRate:
 		if cli.dev == nil {
 			return cli.sendResponse(cmd, resDevice, "no active device")
-- 
2.43.0


From dde9f5386114e4975ec5add100d09455f6fdaa08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:08 +0000
Subject: [PATCH 36/44] fix: boripserver did not return the destination its
 client expects

---
 boripserver/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/boripserver/main.go b/boripserver/main.go
index 6d205ee..e2e7c8d 100644
--- a/boripserver/main.go
+++ b/boripserver/main.go
@@ -190,7 +190,7 @@ func (cli *client) handleCommand(cmd string, args []string) error {
 			return cli.sendResponse(cmd, resFail, "failed to resolve address")
 		}
 		cli.dest = addr
-		return cli.sendResponse(cmd, resOK)
+		return cli.sendResponse(cmd, resOK, addr.String())
 	case cmdGo:
 		if cli.dest == nil {
 			return cli.sendResponse(cmd, resFail, "no DEST set")
-- 
2.43.0


From a4022bf00b708c5688bb24fc87510767c282964f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:08 +0000
Subject: [PATCH 37/44] fix: boripserver sent the first packet of every buffer
 over and over

---
 boripserver/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/boripserver/main.go b/boripserver/main.go
index e2e7c8d..f8f8367 100644
--- a/boripserver/main.go
+++ b/boripserver/main.go
@@ -356,7 +356,7 @@ func (cli *client) startStreaming() error {
 			bufOut[3] = uint8(seq >> 8)
 			seq++
 
-			dsp.Ui8toi16b(buf[:nValues], bufOut[headerSize:])
+			dsp.Ui8toi16b(buf[bufferOffset:bufferOffset+nValues], bufOut[headerSize:])
 
 			if _, err := conn.Write(bufOut[:headerSize+nValues*2]); err != nil {
 				// TODO: what to do if not "connection refused"?
-- 
2.43.0


From 1d2a5ba8b0bff0f8eef964b90c8154dbe8c4feec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:28 +0000
Subject: [PATCH 38/44] fix: boripserver crashed when a stream was stopped
 twice, raced with the sample callback and leaked its socket

---
 boripserver/main.go | 67 +++++++++++++++++++++++++++++++++++----------
 1 file changed, 52 insertions(+), 15 deletions(-)

diff --git a/boripserver/main.go b/boripserver/main.go
index f8f8367..56df215 100644
--- a/boripserver/main.go
+++ b/boripserver/main.go
@@ -19,6 +19,7 @@ import (
 	"runtime/pprof"
 	"strconv"
 	"strings"
+	"time"
 
 	"github.com/samuel/go-dsp/dsp"
 )
@@ -35,6 +36,7 @@ const (
 	defaultSampleRate = 1000000
 	headerSize        = 4
 	nBuffers          = 32
+	stopTimeout       = 5 * time.Second
 	// deviceCacheUpdateInterval = time.Second * 60
 
 	flagNone            = 0x00
@@ -71,12 +73,18 @@ var (
 )
 
 type client struct {
-	conn      net.Conn
-	rd        *bufio.Reader
-	wr        *bufio.Writer
-	dest      *net.UDPAddr
-	dev       *device
-	closeChan chan bool
+	conn   net.Conn
+	rd     *bufio.Reader
+	wr     *bufio.Writer
+	dest   *net.UDPAddr
+	dev    *device
+	stream *stream
+}
+
+// stream is a running transfer of samples from the device to the destination.
+type stream struct {
+	stop chan bool // closed to ask the sample callback to end the stream
+	done chan bool // closed by the sample callback once the stream has ended
 }
 
 func (cli *client) sendResponse(cmd string, args ...string) error {
@@ -299,14 +307,31 @@ func (cli *client) handleCommand(cmd string, args []string) error {
 }
 
 func (cli *client) isStreaming() bool {
-	return cli.closeChan != nil
+	if cli.stream == nil {
+		return false
+	}
+	select {
+	case <-cli.stream.done:
+		// The device ended the stream
+		cli.stream = nil
+		return false
+	default:
+		return true
+	}
 }
 
 func (cli *client) stopStreaming() {
 	if !cli.isStreaming() {
 		return
 	}
-	close(cli.closeChan)
+	close(cli.stream.stop)
+	// The device can't be used for anything else before the stream has ended
+	select {
+	case <-cli.stream.done:
+	case <-time.After(stopTimeout):
+		log.Printf("Stream did not end within %s", stopTimeout)
+	}
+	cli.stream = nil
 }
 
 func (cli *client) startStreaming() error {
@@ -322,27 +347,39 @@ func (cli *client) startStreaming() error {
 		return err
 	}
 	if err := cli.dev.rtlDev.ResetBuffer(); err != nil {
+		conn.Close()
 		return err
 	}
 
-	cli.closeChan = make(chan bool, 1)
+	st := &stream{
+		stop: make(chan bool),
+		done: make(chan bool),
+	}
+	cli.stream = st
 	bufOut := make([]byte, headerSize+samplesPerPacket*2*2)
 	bufOut[0] = flagStreamStart
 	bufOut[1] = 0 // notification: reserved (currently 0)
 	first := true
 	seq := 0
+	ended := false
+	end := func() bool {
+		if !ended {
+			ended = true
+			conn.Close()
+			close(st.done)
+		}
+		return true
+	}
 
 	// cli.dev.rtlDev.ReadAsyncUsingSync(nBuffers, sampleBufferSize*2, func(buf []byte) bool {
 	cli.dev.rtlDev.ReadAsync(nBuffers, sampleBufferSize*2, func(buf []byte) bool {
-		if buf == nil {
-			cli.closeChan = nil
-			return true
+		if buf == nil || ended {
+			return end()
 		}
 
 		select {
-		case _ = <-cli.closeChan:
-			cli.closeChan = nil
-			return true
+		case <-st.stop:
+			return end()
 		default:
 		}
 
-- 
2.43.0


From f0d7f1a64fa964d8ea34339e4360636ba7dfb060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:32 +0000
Subject: [PATCH 39/44] fix: VScaleC64 panicked on slices of more than 2^25
 samples

---
 dsp/math32.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsp/math32.go b/dsp/math32.go
index a937740..9bff771 100644
--- a/dsp/math32.go
+++ b/dsp/math32.go
@@ -64,8 +64,8 @@ func VScaleC64(input, output []complex64, scale float32) {
 	if len(input) == 0 || len(output) == 0 {
 		return
 	}
-	in := (*[2 << 25]float32)(unsafe.Pointer(&input[0]))[:len(input)*2]
-	out := (*[2 << 25]float32)(unsafe.Pointer(&output[0]))[:len(output)*2]
+	in := unsafe.Slice((*float32)(unsafe.Pointer(&input[0])), len(input)*2)
+	out := unsafe.Slice((*float32)(unsafe.Pointer(&output[0])), len(output)*2)
 	VScaleF32(in, out, scale)
 }
 
-- 
2.43.0


From 6cb66ece6f8b841a52140e3b3b206ee783fb5b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:17 +0000
Subject: [PATCH 40/44] fix: i32Rotate90FilterAsm on arm negated by one's
 complement

MVN computes -x-1; every negated component was off by one.
---
 dsp/util_arm.s | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dsp/util_arm.s b/dsp/util_arm.s
index f24b795..f5e52dd 100644
--- a/dsp/util_arm.s
+++ b/dsp/util_arm.s
@@ -61,15 +61,15 @@ i32r90_loop:
 
 	// samples[i+1] = complex(-imag(samples[i+1]), real(samples[i+1]))
 	MOVW R0, R6
-	MVN  R1, R0
+	RSB  $0, R1, R0
 	MOVW R6, R1
 
 	// samples[i+2] = -samples[i+2]
-	MVN R2, R2
-	MVN R3, R3
+	RSB $0, R2, R2
+	RSB $0, R3, R3
 
 	// samples[i+3] = complex(imag(samples[i+3]), -real(samples[i+3]))
-	MVN       R4, R6
+	RSB       $0, R4, R6
 	MOVW      R5, R4
 	MOVW      R6, R5
 	MOVM.IA.W [R0-R5], (R8)
-- 
2.43.0


From 13bb356704c7ee17112d0fa6ac3b056c6a3fbb3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:17 +0000
Subject: [PATCH 41/44] fix: FastAtan2_2 on arm gave NaN where y/x overflows

---
 dsp/math32_arm.s | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dsp/math32_arm.s b/dsp/math32_arm.s
index b773f55..f106fcc 100644
--- a/dsp/math32_arm.s
+++ b/dsp/math32_arm.s
@@ -103,9 +103,12 @@ fatan22_6:
 	RET
 
 fatan22_5:
-	// pi2 - z/(z*z+0.28)
+	// pi2 - w/(1.0 + 0.28*w*w) where w = x/y, as y/x may overflow
+	DIVF    F3, F6, F1
+	MULF    F1, F1, F2
 	MOVF    $0.28, F4
-	ADDF    F4, F2
+	MULF    F4, F2
+	ADDF    F0, F2
 	DIVF    F2, F1, F2
 	MOVF    halfPi, F1
 	SUBF    F2, F1, F2
-- 
2.43.0


From 8567fb215600be1152ce7df564c6b2d9e1f1636f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:17 +0000
Subject: [PATCH 42/44] fix: VAbsC64 on arm selected an undefined VFP stride

The stride field of FPSCR encodes a stride of two as 0b11; 0b01 is
unpredictable.
---
 dsp/math32_arm.s | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsp/math32_arm.s b/dsp/math32_arm.s
index f106fcc..e5d1d7d 100644
--- a/dsp/math32_arm.s
+++ b/dsp/math32_arm.s
@@ -226,7 +226,7 @@ TEXT ·VAbsC64(SB), NOSPLIT, $0
 	// Set vector length to 4 and stride to 2
 	WORD $0xeef13a10            // vmrs r3, fpscr
 	BIC  $((7<<16)|(3<<20)), R3
-	ORR  $((3<<16)|(1<<20)), R3
+	ORR  $((3<<16)|(3<<20)), R3
 	WORD $0xeee13a10            // fmxr fpscr, r3
 
 vabsc64_vector_loop:
-- 
2.43.0


From 413626cedcda20bd878623562a891f7e69508500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:53 +0000
Subject: [PATCH 43/44] fix: arm routines compared addresses as signed numbers

Slices across 0x80000000 were cut short.
---
 dsp/conversion_arm.s | 14 +++++++-------
 dsp/downsample_arm.s |  2 +-
 dsp/util_arm.s       |  4 ++--
 3 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/dsp/conversion_arm.s b/dsp/conversion_arm.s
index cc89602..66a6d16 100644
--- a/dsp/conversion_arm.s
+++ b/dsp/conversion_arm.s
@@ -23,7 +23,7 @@ ui8toi16_loop:
 	MOVBU R0, 1(R3)
 	ADD   $2, R3
 	CMP   R2, R1
-	BLT   ui8toi16_loop
+	BLO   ui8toi16_loop
 
 ui8toi16_done:
 	RET
@@ -90,7 +90,7 @@ ui8tof32_loop:
 
 	WORD $0xeca30a04 // vstmia r3!, {s0, s1, s2, s3}
 	CMP  R0, R1
-	BLT  ui8tof32_loop
+	BLO  ui8tof32_loop
 
 	B ui8tof32_tail
 
@@ -136,7 +136,7 @@ ui8tof32_neon_loop:
 	WORD $0xf403e28d // vst1.32 {d14, d15, d16, d17}, [r3]!
 
 	CMP R4, R1
-	BLT ui8tof32_neon_loop
+	BLO ui8tof32_neon_loop
 
 ui8tof32_tail:
 	CMP R1, R2
@@ -149,7 +149,7 @@ ui8tof32_tail_loop:
 	ADD   $1, R1
 	WORD  $0xeca30a01        // vstmia     r3!, {s0}
 	CMP   R2, R1
-	BLT   ui8tof32_tail_loop
+	BLO   ui8tof32_tail_loop
 
 ui8tof32_done:
 	RET
@@ -220,7 +220,7 @@ f32toi16_scalar_loop:
 	ADD  $8, R3
 
 	CMP R7, R1
-	BLT f32toi16_scalar_loop
+	BLO f32toi16_scalar_loop
 
 	B f32toi16_tail
 
@@ -270,7 +270,7 @@ f32toi16_vector_loop:
 	ADD  $16, R3
 
 	CMP R7, R1
-	BLT f32toi16_vector_loop
+	BLO f32toi16_vector_loop
 
 	// Clear vector mode
 	WORD $0xeef10a10            // vmrs r0, fpscr
@@ -289,7 +289,7 @@ f32toi16_tail_loop:
 	MOVHU R0, (R3)
 	ADD   $2, R3
 	CMP   R2, R1
-	BLT   f32toi16_tail_loop
+	BLO   f32toi16_tail_loop
 
 f32toi16_done:
 	RET
diff --git a/dsp/downsample_arm.s b/dsp/downsample_arm.s
index 35055ef..45516e4 100644
--- a/dsp/downsample_arm.s
+++ b/dsp/downsample_arm.s
@@ -86,7 +86,7 @@ TEXT ·lowPassDownsampleRationalFilterAsm(SB), NOSPLIT, $0
 
 rationalLoop:
 	CMP R5, R3
-	BLE rationalLoopEnd
+	BLS rationalLoopEnd
 
 	MOVF (R5), F0 // samples[i]
 	ADD  $4, R5
diff --git a/dsp/util_arm.s b/dsp/util_arm.s
index f5e52dd..2a4628d 100644
--- a/dsp/util_arm.s
+++ b/dsp/util_arm.s
@@ -32,7 +32,7 @@ r90_loop:
 	MOVM.IA.W [R0-R5], (R8)
 
 	CMP R8, R7
-	BGT r90_loop
+	BHI r90_loop
 
 r90_end:
 	MOVW samples_ptr+4(FP), R0
@@ -75,7 +75,7 @@ i32r90_loop:
 	MOVM.IA.W [R0-R5], (R8)
 
 	CMP R8, R7
-	BGT i32r90_loop
+	BHI i32r90_loop
 
 i32r90_end:
 	MOVW samples_ptr+4(FP), R0
-- 
2.43.0


From aa66902336eba9bbe207c2e917a532bca66a1104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:38 +0000
Subject: [PATCH 44/44] fix: the information of FRMR, XID and TEST frames was
 dropped

---
 dsp/ax25/hdlc.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dsp/ax25/hdlc.go b/dsp/ax25/hdlc.go
index 3fe982f..b483df3 100644
--- a/dsp/ax25/hdlc.go
+++ b/dsp/ax25/hdlc.go
@@ -170,6 +170,9 @@ func (ax *AX25) processFrame() *Frame {
 	if frame.Type == IFrame || (frame.Type == UFrame && frame.UnnumberedType == UI) {
 		frame.PID = PID(buf[0])
 		frame.Info = append([]byte(nil), buf[1:]...)
+	} else if frame.Type == UFrame && (frame.UnnumberedType == FRMR || frame.UnnumberedType == XID || frame.UnnumberedType == TEST) {
+		// These carry information but no protocol identifier
+		frame.Info = append([]byte(nil), buf...)
 	}
 	return &frame
 }
-- 
2.43.0

