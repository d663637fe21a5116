From f8cfada5f40ef76fc643b934cc90d2b673262e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:40 +0000
Subject: [PATCH 1/9] fix: BatchXNOR computed XOR because it used the wrong
 offset sign

BatchXNOR added -1/4 to a-2b where XNOR adds +1/4, so every element of a
batch came out inverted.
---
 gates/gates.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gates/gates.go b/gates/gates.go
index 0ebd29f..5a34629 100644
--- a/gates/gates.go
+++ b/gates/gates.go
@@ -290,7 +290,7 @@ func BatchXNOR(inputs [][2]*Ciphertext, ck *cloudkey.CloudKey) []*Ciphertext {
 	prepared := make([]*Ciphertext, len(inputs))
 	for i, pair := range inputs {
 		tlweXNOR := pair[0].SubMul(pair[1], 2)
-		tlweXNOR.SetB(tlweXNOR.B() + utils.F64ToTorus(-0.25))
+		tlweXNOR.SetB(tlweXNOR.B() + utils.F64ToTorus(0.25))
 		prepared[i] = tlweXNOR
 	}
 
-- 
2.43.0


From 6f74c78afeb813633a3a3572f49fee654cc17a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:40 +0000
Subject: [PATCH 2/9] fix: BatchBlindRotate returned buffers of evaluators
 already back in the pool

The TRLWE results aliased the scratch buffers of the pooled evaluator, so a
later or concurrent batch that reused the evaluator overwrote them.
---
 trgsw/trgsw.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/trgsw/trgsw.go b/trgsw/trgsw.go
index 5f5a2a9..bc36509 100644
--- a/trgsw/trgsw.go
+++ b/trgsw/trgsw.go
@@ -243,7 +243,13 @@ func BatchBlindRotate(srcs []*tlwe.TLWELv0, blindRotateTestvec *trlwe.TRLWELv1,
 			polyEval := evaluatorPool.Get().(*poly.Evaluator)
 			defer evaluatorPool.Put(polyEval)
 
-			results[idx] = BlindRotate(s, blindRotateTestvec, bootstrappingKey, decompositionOffset, polyEval)
+			// The rotation result lives in the evaluator's buffers, which the next
+			// user of the pooled evaluator overwrites: hand out a copy
+			rotated := BlindRotate(s, blindRotateTestvec, bootstrappingKey, decompositionOffset, polyEval)
+			result := trlwe.NewTRLWELv1()
+			copy(result.A, rotated.A)
+			copy(result.B, rotated.B)
+			results[idx] = result
 		}(i, src)
 	}
 
-- 
2.43.0


From e1c37e1a4c659b48c9c2d17686d07685b146f341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:40 +0000
Subject: [PATCH 3/9] fix: BatchBlindRotate used pooled evaluators of another
 polynomial degree

After switching between security levels with different N the pool could hand
out an evaluator built for the previous level.
---
 trgsw/trgsw.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/trgsw/trgsw.go b/trgsw/trgsw.go
index bc36509..3f1f8f8 100644
--- a/trgsw/trgsw.go
+++ b/trgsw/trgsw.go
@@ -241,6 +241,10 @@ func BatchBlindRotate(srcs []*tlwe.TLWELv0, blindRotateTestvec *trlwe.TRLWELv1,
 			defer wg.Done()
 			// Get evaluator from pool (reuse instead of allocate)
 			polyEval := evaluatorPool.Get().(*poly.Evaluator)
+			if polyEval.Degree() != params.GetTRGSWLv1().N {
+				// Pooled while another security level was selected
+				polyEval = poly.NewEvaluator(params.GetTRGSWLv1().N)
+			}
 			defer evaluatorPool.Put(polyEval)
 
 			// The rotation result lives in the evaluator's buffers, which the next
-- 
2.43.0


From 43e6de0d5768aa8557cdfc7f35a953f349426bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:40 +0000
Subject: [PATCH 4/9] fix: Evaluator.ShallowCopy returned an evaluator that
 could not bootstrap

The copy got a decomposer with a single level, so its first bootstrap
panicked.
---
 evaluator/evaluator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/evaluator/evaluator.go b/evaluator/evaluator.go
index bce7796..c9c7f55 100644
--- a/evaluator/evaluator.go
+++ b/evaluator/evaluator.go
@@ -40,7 +40,7 @@ func NewEvaluator(n int) *Evaluator {
 func (e *Evaluator) ShallowCopy() *Evaluator {
 	return &Evaluator{
 		PolyEvaluator: e.PolyEvaluator.ShallowCopy(),
-		Decomposer:    poly.NewDecomposer(e.PolyEvaluator.Degree(), len(e.Decomposer.GetPolyDecomposedBuffer(1))),
+		Decomposer:    poly.NewDecomposer(e.PolyEvaluator.Degree(), params.GetTRGSWLv1().L*2), // 2*L levels for A and B
 		Buffers:       NewBufferPool(e.PolyEvaluator.Degree()),
 	}
 }
-- 
2.43.0


From 8d63da3f68d136162953e8122d2352d1e45b26fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:41 +0000
Subject: [PATCH 5/9] fix: gates panicked after changing the security level

The package-level evaluator was sized for the level selected when the package
was initialised; every gate at a level with other dimensions indexed out of
range.
---
 gates/gates.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/gates/gates.go b/gates/gates.go
index 5a34629..934548b 100644
--- a/gates/gates.go
+++ b/gates/gates.go
@@ -18,8 +18,20 @@ type Ciphertext = tlwe.TLWELv0
 // Global evaluator for single-threaded operations (zero-allocation)
 var globalEval *evaluator.Evaluator
 
+// Security level that globalEval was built for
+var globalEvalLevel params.SecurityLevel
+
 func init() {
-	globalEval = evaluator.NewEvaluator(params.GetTRGSWLv1().N)
+	refreshGlobalEval()
+}
+
+// refreshGlobalEval rebuilds globalEval if the selected security level has
+// changed since it was built: its buffers are sized by the level's parameters
+func refreshGlobalEval() {
+	if globalEval == nil || globalEvalLevel != params.CurrentSecurityLevel {
+		globalEvalLevel = params.CurrentSecurityLevel
+		globalEval = evaluator.NewEvaluator(params.GetTRGSWLv1().N)
+	}
 }
 
 // NAND performs homomorphic NAND operation (zero-allocation)
@@ -128,12 +140,14 @@ func Copy(tlweA *Ciphertext) *Ciphertext {
 // bootstrap performs full bootstrapping with key switching (TRUE zero-allocation)
 // Returns pointer to internal buffer - result is only valid until next bootstrap call
 func bootstrapTemp(ctxt *Ciphertext, ck *cloudkey.CloudKey) *Ciphertext {
+	refreshGlobalEval()
 	return globalEval.Bootstrap(ctxt, ck.BlindRotateTestvec, ck.BootstrappingKey, ck.KeySwitchingKey, ck.DecompositionOffset)
 }
 
 // bootstrap2 performs full bootstrapping with key switching (zero-allocation)
 // copies the prepared buffer to the result
 func bootstrap(ctxt *Ciphertext, ck *cloudkey.CloudKey) *Ciphertext {
+	refreshGlobalEval()
 	result := tlwe.NewTLWELv0()
 	bootstrapped := globalEval.Bootstrap(ctxt, ck.BlindRotateTestvec, ck.BootstrappingKey, ck.KeySwitchingKey, ck.DecompositionOffset)
 	copy(result.P, bootstrapped.P)
@@ -143,6 +157,7 @@ func bootstrap(ctxt *Ciphertext, ck *cloudkey.CloudKey) *Ciphertext {
 
 // bootstrapWithoutKeySwitch performs bootstrapping without key switching (uses global eval)
 func bootstrapWithoutKeySwitch(ctxt *Ciphertext, ck *cloudkey.CloudKey) *Ciphertext {
+	refreshGlobalEval()
 	trlweResult := trlwe.NewTRLWELv1()
 	globalEval.BlindRotateAssign(ctxt, ck.BlindRotateTestvec, ck.BootstrappingKey, ck.DecompositionOffset, trlweResult)
 	return trlwe.SampleExtractIndex2(trlweResult, 0)
-- 
2.43.0


From f34b2a9883d567aaeca2adb59933c4d4fd143f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:06 +0000
Subject: [PATCH 6/9] fix: encryptions could repeat their mask, keys came from
 math/rand

Every key and ciphertext was drawn from a math/rand source seeded with one
number, which the source reduces to 31 bits: among some 100000 encryptions
(one cloud key) two share mask and noise, so their difference reveals the
difference of the plaintexts. Draw from the system's cryptographic generator.
---
 key/key.go               |  5 ++---
 proxyreenc/proxyreenc.go |  4 +---
 tlwe/tlwe.go             |  6 ++----
 trlwe/trlwe.go           |  4 +---
 utils/random.go          | 43 ++++++++++++++++++++++++++++++++++++++++
 5 files changed, 49 insertions(+), 13 deletions(-)
 create mode 100644 utils/random.go

diff --git a/key/key.go b/key/key.go
index 7606bcd..6a23cfe 100644
--- a/key/key.go
+++ b/key/key.go
@@ -1,9 +1,8 @@
 package key
 
 import (
-	"math/rand"
-
 	"github.com/thedonutfactory/go-tfhe/params"
+	"github.com/thedonutfactory/go-tfhe/utils"
 )
 
 // SecretKey contains the secret keys for both levels
@@ -14,7 +13,7 @@ type SecretKey struct {
 
 // NewSecretKey generates a new secret key
 func NewSecretKey() *SecretKey {
-	rng := rand.New(rand.NewSource(rand.Int63()))
+	rng := utils.NewRand()
 
 	lv0N := params.GetTLWELv0().N
 	lv1N := params.GetTLWELv1().N
diff --git a/proxyreenc/proxyreenc.go b/proxyreenc/proxyreenc.go
index 79c7e59..c48c69c 100644
--- a/proxyreenc/proxyreenc.go
+++ b/proxyreenc/proxyreenc.go
@@ -39,8 +39,6 @@
 package proxyreenc
 
 import (
-	"math/rand"
-
 	"github.com/thedonutfactory/go-tfhe/params"
 	"github.com/thedonutfactory/go-tfhe/tlwe"
 	"github.com/thedonutfactory/go-tfhe/utils"
@@ -102,7 +100,7 @@ func NewPublicKeyLv0WithParams(secretKey []params.Torus, size int, alpha float64
 //
 // Returns a TLWELv0 ciphertext encrypting the plaintext.
 func (pk *PublicKeyLv0) EncryptF64(plaintext float64, alpha float64) *tlwe.TLWELv0 {
-	rng := rand.New(rand.NewSource(rand.Int63()))
+	rng := utils.NewRand()
 	result := tlwe.NewTLWELv0()
 
 	// Add the plaintext to b
diff --git a/tlwe/tlwe.go b/tlwe/tlwe.go
index 41e534b..fa0eab4 100644
--- a/tlwe/tlwe.go
+++ b/tlwe/tlwe.go
@@ -1,8 +1,6 @@
 package tlwe
 
 import (
-	"math/rand"
-
 	"github.com/thedonutfactory/go-tfhe/params"
 	"github.com/thedonutfactory/go-tfhe/utils"
 )
@@ -34,7 +32,7 @@ func (t *TLWELv0) SetB(val params.Torus) {
 
 // EncryptF64 encrypts a float64 value with TLWE Level 0
 func (t *TLWELv0) EncryptF64(p float64, alpha float64, key []params.Torus) *TLWELv0 {
-	rng := rand.New(rand.NewSource(rand.Int63()))
+	rng := utils.NewRand()
 	n := params.GetTLWELv0().N
 
 	var innerProduct params.Torus
@@ -154,7 +152,7 @@ func (t *TLWELv1) SetB(val params.Torus) {
 
 // EncryptF64 encrypts a float64 value with TLWE Level 1
 func (t *TLWELv1) EncryptF64(p float64, alpha float64, key []params.Torus) *TLWELv1 {
-	rng := rand.New(rand.NewSource(rand.Int63()))
+	rng := utils.NewRand()
 	n := params.GetTLWELv1().N
 
 	var innerProduct params.Torus
diff --git a/trlwe/trlwe.go b/trlwe/trlwe.go
index 0dcae51..8d0f9ea 100644
--- a/trlwe/trlwe.go
+++ b/trlwe/trlwe.go
@@ -1,8 +1,6 @@
 package trlwe
 
 import (
-	"math/rand"
-
 	"github.com/thedonutfactory/go-tfhe/params"
 	"github.com/thedonutfactory/go-tfhe/poly"
 	"github.com/thedonutfactory/go-tfhe/tlwe"
@@ -26,7 +24,7 @@ func NewTRLWELv1() *TRLWELv1 {
 
 // EncryptF64 encrypts a vector of float64 values with TRLWE Level 1
 func (t *TRLWELv1) EncryptF64(p []float64, alpha float64, key []params.Torus, polyEval *poly.Evaluator) *TRLWELv1 {
-	rng := rand.New(rand.NewSource(rand.Int63()))
+	rng := utils.NewRand()
 	n := params.GetTRLWELv1().N
 
 	// Generate random a
diff --git a/utils/random.go b/utils/random.go
new file mode 100644
index 0000000..838d367
--- /dev/null
+++ b/utils/random.go
@@ -0,0 +1,43 @@
+package utils
+
+import (
+	crand "crypto/rand"
+	"encoding/binary"
+	"math/rand"
+)
+
+// cryptoSource is a rand.Source64 that reads the operating system's
+// cryptographic random generator through a small buffer.
+type cryptoSource struct {
+	buf [1024]byte
+	off int
+}
+
+// Uint64 returns 64 fresh random bits
+func (s *cryptoSource) Uint64() uint64 {
+	if s.off == len(s.buf) {
+		if _, err := crand.Read(s.buf[:]); err != nil {
+			panic("cannot read system randomness: " + err.Error())
+		}
+		s.off = 0
+	}
+	v := binary.LittleEndian.Uint64(s.buf[s.off:])
+	s.off += 8
+	return v
+}
+
+// Int63 returns 63 fresh random bits
+func (s *cryptoSource) Int63() int64 {
+	return int64(s.Uint64() >> 1)
+}
+
+// Seed does nothing: the source cannot be seeded
+func (s *cryptoSource) Seed(int64) {}
+
+// NewRand returns a generator for keys, masks and noise, backed by the
+// operating system's cryptographic randomness
+func NewRand() *rand.Rand {
+	s := &cryptoSource{}
+	s.off = len(s.buf)
+	return rand.New(s)
+}
-- 
2.43.0


From a3af67559f6fe3c3e7e11c5f876c7c650b953dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:13 +0000
Subject: [PATCH 7/9] fix: gadget decomposition truncated instead of rounding

The decomposition offset lacked half a unit of the last digit, so every
external product carried a one-sided error of up to a full unit. Summed over
a blind rotation this was the dominant noise (6 times the nominal output noise
at 128 bits, 28 times with Uint5), enough for XOR of a bootstrapped bit with
itself to fail about once in 4000 times at 128 bits.
---
 cloudkey/cloudkey.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cloudkey/cloudkey.go b/cloudkey/cloudkey.go
index 9ad1863..f6769ee 100644
--- a/cloudkey/cloudkey.go
+++ b/cloudkey/cloudkey.go
@@ -67,6 +67,11 @@ func genDecompositionOffset() params.Torus {
 		offset += params.Torus(bg/2) * params.Torus(1<<(32-((i+1)*int(bgbit))))
 	}
 
+	// Half a unit of the last digit: the decomposition rounds instead of truncating
+	if l*int(bgbit) < 32 {
+		offset += params.Torus(1) << (32 - l*int(bgbit) - 1)
+	}
+
 	return offset
 }
 
-- 
2.43.0


From 17541319697dc82f558731f2df7b7f16b3883c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:48 +0000
Subject: [PATCH 8/9] fix: NewTRLWELv1FFTDummy has the length of a transformed
 ciphertext

---
 trlwe/trlwe.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/trlwe/trlwe.go b/trlwe/trlwe.go
index 8d0f9ea..c3091e9 100644
--- a/trlwe/trlwe.go
+++ b/trlwe/trlwe.go
@@ -101,10 +101,10 @@ func NewTRLWELv1FFT(trlwe *TRLWELv1, polyEval *poly.Evaluator) *TRLWELv1FFT {
 
 // NewTRLWELv1FFTDummy creates a dummy TRLWE Level 1 FFT ciphertext
 func NewTRLWELv1FFTDummy() *TRLWELv1FFT {
-	// FourierPoly needs 2*N for interleaved real/imaginary layout
+	// N/2 complex values, as in NewTRLWELv1FFT
 	return &TRLWELv1FFT{
-		A: make([]float64, 2*params.GetTRLWELv1().N),
-		B: make([]float64, 2*params.GetTRLWELv1().N),
+		A: make([]float64, params.GetTRLWELv1().N),
+		B: make([]float64, params.GetTRLWELv1().N),
 	}
 }
 
-- 
2.43.0


From 97477c40ccc44b4274738d5b788d45c0ea9d3d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:50 +0000
Subject: [PATCH 9/9] fix: custom lookup tables swapped the generator's encoder
 while calling f

GenLookUpTableCustom replaced the receiver's encoder for the duration of the
call: goroutines sharing the generator raced, a function that generates
another table with it saw the custom encoder, and a panicking function left
it in place. Work on a copy of the generator.
---
 lut/generator.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/lut/generator.go b/lut/generator.go
index e215b66..ebd2ea3 100644
--- a/lut/generator.go
+++ b/lut/generator.go
@@ -144,12 +144,10 @@ func (g *Generator) GenLookUpTableFullAssign(f func(int) params.Torus, lutOut *L
 func (g *Generator) GenLookUpTableCustom(f func(int) int, messageModulus int, scale float64) *LookUpTable {
 	lut := NewLookUpTable()
 
-	oldEncoder := g.Encoder
-	g.Encoder = NewEncoderWithScale(messageModulus, scale)
-
-	g.GenLookUpTableAssign(f, lut)
-
-	g.Encoder = oldEncoder
+	// Work on a copy: g may be in use by other goroutines, and f may panic
+	custom := *g
+	custom.Encoder = NewEncoderWithScale(messageModulus, scale)
+	custom.GenLookUpTableAssign(f, lut)
 
 	return lut
 }
-- 
2.43.0

