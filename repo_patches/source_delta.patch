From 806556f68ecc01fde76a482e66657a7271d3b54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:06 +0000
Subject: [PATCH 1/4] fix: BatchXNOR computes XNOR, not XOR

The batch variant added -1/4 to the combination a-2b where the single gate
adds +1/4, so every element of the batch was the inverted result.
---
 gates/gates.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gates/gates.go b/gates/gates.go
index 0ebd29f..5a34629 100644
--- a/gates/gates.go
+++ b/gates/gates.go
@@ -290,7 +290,7 @@ func BatchXNOR(inputs [][2]*Ciphertext, ck *cloudkey.CloudKey) []*Ciphertext {
 	prepared := make([]*Ciphertext, len(inputs))
 	for i, pair := range inputs {
 		tlweXNOR := pair[0].SubMul(pair[1], 2)
-		tlweXNOR.SetB(tlweXNOR.B() + utils.F64ToTorus(-0.25))
+		tlweXNOR.SetB(tlweXNOR.B() + utils.F64ToTorus(0.25))
 		prepared[i] = tlweXNOR
 	}
 
-- 
2.43.0


From 2b4c069012eebfbd365a078a066f5ea56441d033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:06 +0000
Subject: [PATCH 2/4] fix: BatchBlindRotate returns results that own their
 storage

The returned polynomials were buffers of a pooled evaluator that the next
goroutine taking the evaluator from the pool overwrites.
---
 trgsw/trgsw.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/trgsw/trgsw.go b/trgsw/trgsw.go
index 5f5a2a9..093a698 100644
--- a/trgsw/trgsw.go
+++ b/trgsw/trgsw.go
@@ -243,7 +243,13 @@ func BatchBlindRotate(srcs []*tlwe.TLWELv0, blindRotateTestvec *trlwe.TRLWELv1,
 			polyEval := evaluatorPool.Get().(*poly.Evaluator)
 			defer evaluatorPool.Put(polyEval)
 
-			results[idx] = BlindRotate(s, blindRotateTestvec, bootstrappingKey, decompositionOffset, polyEval)
+			// BlindRotate returns storage owned by the evaluator: copy it before
+			// the evaluator goes back to the pool and is reused
+			rotated := BlindRotate(s, blindRotateTestvec, bootstrappingKey, decompositionOffset, polyEval)
+			result := trlwe.NewTRLWELv1()
+			copy(result.A, rotated.A)
+			copy(result.B, rotated.B)
+			results[idx] = result
 		}(i, src)
 	}
 
-- 
2.43.0


From e39d9240327a708a8bb15c6d77ba4e45a6e2cafb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:06 +0000
Subject: [PATCH 3/4] fix: gates and batch gates work after the security level
 is switched

The global gate evaluator was built once, for the level selected at package
initialisation, and pooled evaluators were reused across levels; with other
ring or LWE dimensions the gates panicked or read stale buffers.
---
 gates/gates.go | 34 ++++++++++++++++++++++++++--------
 trgsw/trgsw.go |  4 ++++
 2 files changed, 30 insertions(+), 8 deletions(-)

diff --git a/gates/gates.go b/gates/gates.go
index 5a34629..b5d4086 100644
--- a/gates/gates.go
+++ b/gates/gates.go
@@ -18,13 +18,31 @@ type Ciphertext = tlwe.TLWELv0
 // Global evaluator for single-threaded operations (zero-allocation)
 var globalEval *evaluator.Evaluator
 
+// globalEvalShape records the parameters globalEval was built for
+var globalEvalShape evalShape
+
+type evalShape struct {
+	lweN, ringN, levels int
+}
+
 func init() {
-	globalEval = evaluator.NewEvaluator(params.GetTRGSWLv1().N)
+	getEval()
+}
+
+// getEval returns the global evaluator, rebuilding it when the security level
+// changed its dimensions
+func getEval() *evaluator.Evaluator {
+	shape := evalShape{params.GetTLWELv0().N, params.GetTRGSWLv1().N, params.GetTRGSWLv1().L}
+	if globalEval == nil || globalEvalShape != shape {
+		globalEval = evaluator.NewEvaluator(shape.ringN)
+		globalEvalShape = shape
+	}
+	return globalEval
 }
 
 // NAND performs homomorphic NAND operation (zero-allocation)
 func NAND(tlweA, tlweB *Ciphertext, ck *cloudkey.CloudKey) *Ciphertext {
-	prepared := globalEval.PrepareNAND(tlweA, tlweB)
+	prepared := getEval().PrepareNAND(tlweA, tlweB)
 	result := bootstrap(prepared, ck)
 
 	return result
@@ -32,19 +50,19 @@ func NAND(tlweA, tlweB *Ciphertext, ck *cloudkey.CloudKey) *Ciphertext {
 
 // OR performs homomorphic OR operation (zero-allocation)
 func OR(tlweA, tlweB *Ciphertext, ck *cloudkey.CloudKey) *Ciphertext {
-	prepared := globalEval.PrepareOR(tlweA, tlweB)
+	prepared := getEval().PrepareOR(tlweA, tlweB)
 	return bootstrap(prepared, ck)
 }
 
 // AND performs homomorphic AND operation (zero-allocation)
 func AND(tlweA, tlweB *Ciphertext, ck *cloudkey.CloudKey) *Ciphertext {
-	prepared := globalEval.PrepareAND(tlweA, tlweB)
+	prepared := getEval().PrepareAND(tlweA, tlweB)
 	return bootstrap(prepared, ck)
 }
 
 // XOR performs homomorphic XOR operation (zero-allocation)
 func XOR(tlweA, tlweB *Ciphertext, ck *cloudkey.CloudKey) *Ciphertext {
-	prepared := globalEval.PrepareXOR(tlweA, tlweB)
+	prepared := getEval().PrepareXOR(tlweA, tlweB)
 	return bootstrap(prepared, ck)
 }
 
@@ -128,14 +146,14 @@ func Copy(tlweA *Ciphertext) *Ciphertext {
 // bootstrap performs full bootstrapping with key switching (TRUE zero-allocation)
 // Returns pointer to internal buffer - result is only valid until next bootstrap call
 func bootstrapTemp(ctxt *Ciphertext, ck *cloudkey.CloudKey) *Ciphertext {
-	return globalEval.Bootstrap(ctxt, ck.BlindRotateTestvec, ck.BootstrappingKey, ck.KeySwitchingKey, ck.DecompositionOffset)
+	return getEval().Bootstrap(ctxt, ck.BlindRotateTestvec, ck.BootstrappingKey, ck.KeySwitchingKey, ck.DecompositionOffset)
 }
 
 // bootstrap2 performs full bootstrapping with key switching (zero-allocation)
 // copies the prepared buffer to the result
 func bootstrap(ctxt *Ciphertext, ck *cloudkey.CloudKey) *Ciphertext {
 	result := tlwe.NewTLWELv0()
-	bootstrapped := globalEval.Bootstrap(ctxt, ck.BlindRotateTestvec, ck.BootstrappingKey, ck.KeySwitchingKey, ck.DecompositionOffset)
+	bootstrapped := getEval().Bootstrap(ctxt, ck.BlindRotateTestvec, ck.BootstrappingKey, ck.KeySwitchingKey, ck.DecompositionOffset)
 	copy(result.P, bootstrapped.P)
 	result.SetB(bootstrapped.B())
 	return result
@@ -144,7 +162,7 @@ func bootstrap(ctxt *Ciphertext, ck *cloudkey.CloudKey) *Ciphertext {
 // bootstrapWithoutKeySwitch performs bootstrapping without key switching (uses global eval)
 func bootstrapWithoutKeySwitch(ctxt *Ciphertext, ck *cloudkey.CloudKey) *Ciphertext {
 	trlweResult := trlwe.NewTRLWELv1()
-	globalEval.BlindRotateAssign(ctxt, ck.BlindRotateTestvec, ck.BootstrappingKey, ck.DecompositionOffset, trlweResult)
+	getEval().BlindRotateAssign(ctxt, ck.BlindRotateTestvec, ck.BootstrappingKey, ck.DecompositionOffset, trlweResult)
 	return trlwe.SampleExtractIndex2(trlweResult, 0)
 }
 
diff --git a/trgsw/trgsw.go b/trgsw/trgsw.go
index 093a698..d169a7c 100644
--- a/trgsw/trgsw.go
+++ b/trgsw/trgsw.go
@@ -241,6 +241,10 @@ func BatchBlindRotate(srcs []*tlwe.TLWELv0, blindRotateTestvec *trlwe.TRLWELv1,
 			defer wg.Done()
 			// Get evaluator from pool (reuse instead of allocate)
 			polyEval := evaluatorPool.Get().(*poly.Evaluator)
+			if n := params.GetTRGSWLv1().N; polyEval.Degree() != n {
+				// pooled under another security level
+				polyEval = poly.NewEvaluator(n)
+			}
 			defer evaluatorPool.Put(polyEval)
 
 			// BlindRotate returns storage owned by the evaluator: copy it before
-- 
2.43.0


From 89640c8bb725920c402342c9edf9ffa8dbc8baa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:06 +0000
Subject: [PATCH 4/4] fix: Evaluator.ShallowCopy keeps the decomposer's
 capacity

The copy's decomposer held one level, so any bootstrap on a copied evaluator
panicked.
---
 evaluator/evaluator.go | 2 +-
 poly/decomposer.go     | 5 +++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/evaluator/evaluator.go b/evaluator/evaluator.go
index bce7796..c025241 100644
--- a/evaluator/evaluator.go
+++ b/evaluator/evaluator.go
@@ -40,7 +40,7 @@ func NewEvaluator(n int) *Evaluator {
 func (e *Evaluator) ShallowCopy() *Evaluator {
 	return &Evaluator{
 		PolyEvaluator: e.PolyEvaluator.ShallowCopy(),
-		Decomposer:    poly.NewDecomposer(e.PolyEvaluator.Degree(), len(e.Decomposer.GetPolyDecomposedBuffer(1))),
+		Decomposer:    poly.NewDecomposer(e.PolyEvaluator.Degree(), e.Decomposer.MaxLevel()),
 		Buffers:       NewBufferPool(e.PolyEvaluator.Degree()),
 	}
 }
diff --git a/poly/decomposer.go b/poly/decomposer.go
index 0fc2a02..1d3040d 100644
--- a/poly/decomposer.go
+++ b/poly/decomposer.go
@@ -34,6 +34,11 @@ func NewDecomposer(N int, maxLevel int) *Decomposer {
 	}
 }
 
+// MaxLevel returns the number of decomposition levels the buffers can hold
+func (d *Decomposer) MaxLevel() int {
+	return len(d.buffer.polyDecomposed)
+}
+
 // GetPolyDecomposedBuffer returns the decomposition buffer for polynomial
 func (d *Decomposer) GetPolyDecomposedBuffer(level int) []Poly {
 	if level > len(d.buffer.polyDecomposed) {
-- 
2.43.0

