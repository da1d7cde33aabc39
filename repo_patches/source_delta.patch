From c549582bd079e2097de011d75b1a77b913b611d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:44 +0000
Subject: [PATCH 1/9] fix: layer evaluation reads the right operand of the same
 instance

Evaluate indexed the right operand at R*N*N+h instead of R*N+h, so any wire
with R >= 1 read another operand (or past the table) as soon as a chunk held
more than one instance.
---
 circuit/layers.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/circuit/layers.go b/circuit/layers.go
index dff0d99..4d41502 100644
--- a/circuit/layers.go
+++ b/circuit/layers.go
@@ -88,7 +88,7 @@ func (l *Layer) Evaluate(inputs [][]fr.Element, nCore int) [][]fr.Element {
 				wRN := w.R * N
 				for h := 0; h < N; h++ {
 					// Runs the gate evaluator
-					w.Gate.Eval(&tmp, &inps[wLN+h], &inps[wRN*N+h])
+					w.Gate.Eval(&tmp, &inps[wLN+h], &inps[wRN+h])
 					subRes[wON+h].Add(&subRes[wON+h], &tmp)
 				}
 			}
-- 
2.43.0


From 8675fcc5f2f9a23d1c4997a147f5282bd7153897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:16 +0000
Subject: [PATCH 2/9] fix: record seen gates so that a layer's gate list is
 deduplicated

Gates() never wrote to its map, so a gate used by several wires of a layer was
listed once per wire while each listing's static table counted every wire:
honest proofs for such circuits were rejected.
---
 circuit/layers.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/circuit/layers.go b/circuit/layers.go
index 4d41502..0fe26c0 100644
--- a/circuit/layers.go
+++ b/circuit/layers.go
@@ -132,6 +132,7 @@ func Gates(wires []Wire) []Gate {
 	res := []Gate{}
 	for _, wire := range wires {
 		if _, ok := gates[wire.Gate.ID()]; !ok {
+			gates[wire.Gate.ID()] = wire.Gate
 			res = append(res, wire.Gate)
 		}
 	}
-- 
2.43.0


From 5569155f9fcceb21de43dada1b32f4152830eddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:16 +0000
Subject: [PATCH 3/9] fix: evaluate single-chunk tables instead of panicking

With one chunk there is nothing to recombine and the result is that chunk; the
recombination returned the first entry of a slice that was never allocated.
---
 polynomial/chunked.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/polynomial/chunked.go b/polynomial/chunked.go
index b31a98b..2204aff 100644
--- a/polynomial/chunked.go
+++ b/polynomial/chunked.go
@@ -36,7 +36,7 @@ func chunkedEvalRecombine(bkts []BookKeepingTable, qs []fr.Element) BookKeepingT
 		inp = res
 	}
 
-	return res[0]
+	return inp[0]
 }
 
 // EvaluateChunked evaluates a chunked bookeeping table
-- 
2.43.0


From 087e30d257bb5d966789101d28d007cc8d51f987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:16 +0000
Subject: [PATCH 4/9] fix: reject a GKR proof whose intermediate layer claim is
 inconsistent

The verifier answered true as soon as an intermediate layer's sumcheck claim
did not match the values claimed in the proof.
---
 gkr/verifier.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gkr/verifier.go b/gkr/verifier.go
index 16f08dd..e43e891 100644
--- a/gkr/verifier.go
+++ b/gkr/verifier.go
@@ -96,7 +96,7 @@ func (v *Verifier) Verify(
 			v.evaluateStaticTablesLinCombs(layer, qL, qR, nextQL, nextQR, lambdaL, lambdaR),
 		) {
 			// The sumcheck claim was inconsistent with the values claimed in the proof
-			return true
+			return false
 		}
 	}
 
-- 
2.43.0


From 6aebad25b432e91b40964ff0faa89af1c2957851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:02 +0000
Subject: [PATCH 5/9] fix: Poseidon updates the caller's state with the whole
 permutation

Update rebound its local state slice after the first matrix multiplication, so
the caller only ever saw the first round's S-boxes: the digest ignored every
message element whose index is not a multiple of t.
---
 hash/poseidon.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hash/poseidon.go b/hash/poseidon.go
index 3e41355..96925c8 100644
--- a/hash/poseidon.go
+++ b/hash/poseidon.go
@@ -74,19 +74,19 @@ func (p *PoseidonHasher) Update(state, block []fr.Element) {
 	for i := 0; i < p.nRoundsF; i++ {
 		AddArkAndKeysInplace(state, block, Arks[i])
 		FullRoundInPlace(state)
-		state = MatrixMultiplication(p.cauchy, state)
+		copy(state, MatrixMultiplication(p.cauchy, state))
 	}
 
 	for i := p.nRoundsF; i < p.nRoundsF+p.nRoundsP; i++ {
 		AddArkAndKeysInplace(state, block, Arks[i])
 		PartialRoundInplace(state)
-		state = MatrixMultiplication(p.cauchy, state)
+		copy(state, MatrixMultiplication(p.cauchy, state))
 	}
 
 	for i := p.nRoundsF + p.nRoundsP; i < 2*p.nRoundsF+p.nRoundsP; i++ {
 		AddArkAndKeysInplace(state, block, Arks[i])
 		FullRoundInPlace(state)
-		state = MatrixMultiplication(p.cauchy, state)
+		copy(state, MatrixMultiplication(p.cauchy, state))
 	}
 
 	// Recombine with the old state
-- 
2.43.0


From 29d320d91be806e6c153de40652761bee7568ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:07 +0000
Subject: [PATCH 6/9] fix: reject malformed GKR proofs instead of panicking

The verifier trusted the number of layers, claims and round polynomials of the
proof, and the size of the polynomials: a proof with missing or additional
elements crashed it, and the degree of the round polynomials was not bounded.
---
 gkr/verifier.go | 46 ++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 46 insertions(+)

diff --git a/gkr/verifier.go b/gkr/verifier.go
index e43e891..bfe8261 100644
--- a/gkr/verifier.go
+++ b/gkr/verifier.go
@@ -31,6 +31,11 @@ func (v *Verifier) Verify(
 
 	nLayers := len(v.circuit.Layers)
 
+	if !v.hasExpectedShape(proof) {
+		// The proof cannot have been generated for this circuit and this batch size
+		return false
+	}
+
 	qPrime, q := GetInitialQPrimeAndQ(v.bN, v.circuit.Layers[nLayers-1].BGOutputs)
 	var qL, qR []fr.Element
 
@@ -113,6 +118,47 @@ func (v *Verifier) Verify(
 	return true
 }
 
+// hasExpectedShape returns true if the proof contains, for each layer, a pair of claims
+// and exactly one polynomial of the right degree for each variable of the sumcheck.
+func (v *Verifier) hasExpectedShape(proof Proof) bool {
+	nLayers := len(v.circuit.Layers)
+	if len(proof.SumcheckProofs) != nLayers || len(proof.ClaimsLeft) != nLayers || len(proof.ClaimsRight) != nLayers {
+		return false
+	}
+
+	for i, layer := range v.circuit.Layers {
+		polys := proof.SumcheckProofs[i].PolyCoeffs
+		bG := layer.BGInputs
+		if len(polys) != v.bN+2*bG {
+			return false
+		}
+
+		degHL, degHR, degHPrime := 0, 0, 0
+		for _, gate := range layer.Gates {
+			dL, dR, dPrime := gate.Degrees()
+			degHL = common.Max(degHL, dL)
+			degHR = common.Max(degHR, dR)
+			degHPrime = common.Max(degHPrime, dPrime)
+		}
+
+		for k, poly := range polys {
+			// The polynomials are sent in the order hL, hR, hPrime. In addition to the gates,
+			// hL and hR appear in the static tables and hPrime appears in the eq table.
+			deg := degHPrime + 1
+			if k < bG {
+				deg = degHL + 1
+			} else if k < 2*bG {
+				deg = degHR + 1
+			}
+			if len(poly) != deg+1 {
+				return false
+			}
+		}
+	}
+
+	return true
+}
+
 func (v *Verifier) evaluateStaticTables(layer int, q, nextQL, nextQR []fr.Element) []fr.Element {
 	tables := v.circuit.Layers[layer].GetStaticTable(q)
 	evals := make([]fr.Element, len(tables))
-- 
2.43.0


From d93d564b06eedb01538d476f10b8bcd1ea8f7660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:08 +0000
Subject: [PATCH 7/9] hook: points where workers compete for cores, under the
 verif build tag

---
 common/semaphore.go |  4 ++++
 common/verif_off.go |  7 +++++++
 common/verif_on.go  | 14 ++++++++++++++
 3 files changed, 25 insertions(+)
 create mode 100644 common/verif_off.go
 create mode 100644 common/verif_on.go

diff --git a/common/semaphore.go b/common/semaphore.go
index 5a64fb2..615720c 100644
--- a/common/semaphore.go
+++ b/common/semaphore.go
@@ -21,10 +21,14 @@ func (s *Semaphore) Close() {
 
 // Acquire wait for the semaphore to be freed
 func (s *Semaphore) Acquire() {
+	schedPoint("acquire")
 	_ = <-s.channel
+	schedPoint("acquired")
 }
 
 // Release frees the semaphore
 func (s *Semaphore) Release() {
+	schedPoint("release")
 	s.channel <- struct{}{}
+	schedPoint("released")
 }
diff --git a/common/verif_off.go b/common/verif_off.go
new file mode 100644
index 0000000..463fee9
--- /dev/null
+++ b/common/verif_off.go
@@ -0,0 +1,7 @@
+//go:build !verif
+// +build !verif
+
+package common
+
+// schedPoint does nothing, unless the verif build tag is set
+func schedPoint(point string) {}
diff --git a/common/verif_on.go b/common/verif_on.go
new file mode 100644
index 0000000..59a8bd9
--- /dev/null
+++ b/common/verif_on.go
@@ -0,0 +1,14 @@
+//go:build verif
+// +build verif
+
+package common
+
+// SchedHook is called by the workers at the points where they compete for cores.
+// It allows a verification harness to perturb their schedule.
+var SchedHook func(point string)
+
+func schedPoint(point string) {
+	if f := SchedHook; f != nil {
+		f(point)
+	}
+}
-- 
2.43.0


From 4f800e0124a81e086102668cf6cc8533239b3124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:12 +0000
Subject: [PATCH 8/9] fix: compute the ID of a cipher gate without a shared
 buffer

---
 circuit/gates.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/circuit/gates.go b/circuit/gates.go
index 4c80b4f..e337638 100644
--- a/circuit/gates.go
+++ b/circuit/gates.go
@@ -2,6 +2,7 @@ package circuit
 
 import (
 	"fmt"
+	"math/big"
 
 	"github.com/consensys/gnark/frontend"
 	"github.com/consensys/gurvy/bn256/fr"
@@ -152,7 +153,13 @@ func NewCipherGate(ark fr.Element) *CipherGate {
 }
 
 // ID returns the id of the cipher gate and print the ark as well
-func (c *CipherGate) ID() string { return fmt.Sprintf("CipherGate-%v", c.Ark.String()) }
+func (c *CipherGate) ID() string {
+	// c.Ark.String() works on a buffer shared by all callers, and IDs are computed by
+	// provers and verifiers that may run concurrently
+	var ark big.Int
+	c.Ark.ToBigIntRegular(&ark)
+	return fmt.Sprintf("CipherGate-%v", ark.String())
+}
 
 // Eval returns vL + (vR + c)^7
 func (c *CipherGate) Eval(res, vL, vR *fr.Element) {
-- 
2.43.0


From 294a41c08f3720dc9625be1bf606e101b0df7381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:45 +0000
Subject: [PATCH 9/9] fix: reject inputs and outputs whose size is not that of
 the batch

---
 gkr/verifier.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/gkr/verifier.go b/gkr/verifier.go
index bfe8261..45d5681 100644
--- a/gkr/verifier.go
+++ b/gkr/verifier.go
@@ -36,6 +36,12 @@ func (v *Verifier) Verify(
 		return false
 	}
 
+	if !hasExpectedSize(inputs, v.bN+v.circuit.Layers[0].BGInputs) ||
+		!hasExpectedSize(outputs, v.bN+v.circuit.Layers[nLayers-1].BGOutputs) {
+		// The proof says nothing about a batch of another size
+		return false
+	}
+
 	qPrime, q := GetInitialQPrimeAndQ(v.bN, v.circuit.Layers[nLayers-1].BGOutputs)
 	var qL, qR []fr.Element
 
@@ -159,6 +165,17 @@ func (v *Verifier) hasExpectedShape(proof Proof) bool {
 	return true
 }
 
+// hasExpectedSize returns true if the chunks are of the same size and contain as many values
+// as there are for nVars variables.
+func hasExpectedSize(chunks [][]fr.Element, nVars int) bool {
+	for _, chunk := range chunks {
+		if len(chunk) != len(chunks[0]) {
+			return false
+		}
+	}
+	return len(chunks) > 0 && len(chunks)*len(chunks[0]) == 1<<uint(nVars)
+}
+
 func (v *Verifier) evaluateStaticTables(layer int, q, nextQL, nextQR []fr.Element) []fr.Element {
 	tables := v.circuit.Layers[layer].GetStaticTable(q)
 	evals := make([]fr.Element, len(tables))
-- 
2.43.0

