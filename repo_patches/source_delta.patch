From c30bb49703ffeb1bd3b04d05363c078980f395f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:42 +0000
Subject: [PATCH 01/30] fix: batch constraints with distinct powers of the
 batching challenge

Every arithmetic (and sumcheck) constraint was multiplied by the same
challenge, so violations of two constraints that sum to zero were accepted.
---
 buckler/prover.go   | 2 +-
 buckler/verifier.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/buckler/prover.go b/buckler/prover.go
index 4d2a4c1..2117e63 100644
--- a/buckler/prover.go
+++ b/buckler/prover.go
@@ -371,7 +371,7 @@ func (p *Prover[E]) evalCircuit(batchConst E, constraints []ArithmeticConstraint
 			}
 			p.polyEval.AddTo(eval, eval, term)
 		}
-		p.polyEval.ScalarMulTo(eval, eval, batchConst)
+		p.polyEval.ScalarMulTo(pOut, pOut, batchConst)
 		p.polyEval.AddTo(pOut, pOut, eval)
 	}
 
diff --git a/buckler/verifier.go b/buckler/verifier.go
index 8f6558d..a28631e 100644
--- a/buckler/verifier.go
+++ b/buckler/verifier.go
@@ -232,7 +232,7 @@ func (v *Verifier[E]) evalCircuit(batchConst E, constraints []ArithmeticConstrai
 			}
 			eval.Add(eval, term)
 		}
-		eval.Mul(eval, batchConst)
+		out.Mul(out, batchConst)
 		out.Add(out, eval)
 	}
 
-- 
2.43.0


From d5dad69c655396a37efbb41af87e4834b0c8c6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:16 +0000
Subject: [PATCH 02/30] fix: check sumcheck constraints against the sum they
 were added with

The sum given to AddSumCheckConstraint was recorded but never used: every
sumcheck constraint was proved and verified as if the sum were zero.
---
 buckler/verifier.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/buckler/verifier.go b/buckler/verifier.go
index a28631e..5d167da 100644
--- a/buckler/verifier.go
+++ b/buckler/verifier.go
@@ -311,5 +311,18 @@ func (v *Verifier[E]) sumCheck(batchConst, sumCheckMaskEval, evalPoint, vanishEv
 	test.Add(test, rem)
 	test.Add(test, sumCheckMaskSum)
 
+	// The claimed sums are batched as the constraints are,
+	// and the constant term of the remainder is the sum divided by rank.
+	sum := z.New()
+	for _, s := range v.ctx.sumCheckSums {
+		sum.Mul(sum, batchConst)
+		sum.Add(sum, z.New().SetBigInt(s))
+	}
+	sum.Mul(sum, batchConst)
+	rankInv := z.New().SetUint64(uint64(v.ctx.rank))
+	rankInv.Inverse(rankInv)
+	sum.Mul(sum, rankInv)
+	test.Add(test, sum)
+
 	return eval.Cmp(test) == 0
 }
-- 
2.43.0


From d02f85530ce8895eb5968148ef65eb8f03585d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:50 +0000
Subject: [PATCH 03/30] fix: copy the bounds and sums that constraints are
 added with

They were kept by reference, so a caller reusing its big.Int changed
constraints that had already been added.
---
 buckler/context.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/buckler/context.go b/buckler/context.go
index 8a4edef..446f113 100644
--- a/buckler/context.go
+++ b/buckler/context.go
@@ -89,7 +89,7 @@ func (ctx *Context[E]) AddSumCheckConstraint(c ArithmeticConstraint[E], sum uint
 // AddSumCheckConstraintBig adds a sumcheck constraint to the context.
 func (ctx *Context[E]) AddSumCheckConstraintBig(c ArithmeticConstraint[E], sum *big.Int) {
 	ctx.sumCheckConstraints = append(ctx.sumCheckConstraints, c)
-	ctx.sumCheckSums = append(ctx.sumCheckSums, sum)
+	ctx.sumCheckSums = append(ctx.sumCheckSums, new(big.Int).Set(sum))
 	ctx.sumCheckMaxRank = max(ctx.sumCheckMaxRank, c.maxRank(ctx.rank))
 }
 
@@ -141,7 +141,7 @@ func (ctx *Context[E]) AddInfNormConstraintBig(w Witness[E], bound *big.Int) {
 		wDcmp = append(wDcmp, idToWitness[E, Witness[E]](i))
 	}
 	ctx.infDcmpWitness[id] = wDcmp
-	ctx.infDcmpBound[id] = bound
+	ctx.infDcmpBound[id] = new(big.Int).Set(bound)
 	ctx.wCnt += uint64(len(dcmpBase))
 
 	for i := range wDcmp {
@@ -179,7 +179,7 @@ func (ctx *Context[E]) AddSqNormConstraintBig(w Witness[E], bound *big.Int) {
 	pwMask := idToWitness[E, PublicWitness[E]](ctx.pwCnt + 1)
 	ctx.pwCnt += 2
 
-	ctx.twoDcmpBound[id] = bound
+	ctx.twoDcmpBound[id] = new(big.Int).Set(bound)
 	ctx.twoDcmpBase[id] = pwBase
 	ctx.twoDcmpMask[id] = pwMask
 	ctx.twoDcmpWitness[id] = wDcmp
-- 
2.43.0


From a3839d9408aa2c96f5b09d7b69705d43c87dc78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:50 +0000
Subject: [PATCH 04/30] fix: bind the public witnesses in the Fiat-Shamir
 transcript

The challenges did not depend on the public witnesses, so a proof was also
valid for any other public witness whose encoding takes the same value at
the (then known) evaluation point.
---
 buckler/prover.go   | 6 ++++++
 buckler/verifier.go | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/buckler/prover.go b/buckler/prover.go
index 2117e63..673f7e2 100644
--- a/buckler/prover.go
+++ b/buckler/prover.go
@@ -126,6 +126,12 @@ func (p *Prover[E]) Prove(c Circuit[E]) (*Proof[E], error) {
 	for i := range wData.pw {
 		wData.pwEcd[i] = p.ecd.Encode(wData.pw[i])
 		wData.pwEcdNTT[i] = p.polyEval.NTT(wData.pwEcd[i])
+
+		for j := range wData.pw[i] {
+			oracleBuf.Write(wData.pw[i][j].Marshal())
+		}
+		oracle.Bind("projConst", oracleBuf.Bytes())
+		oracleBuf.Reset()
 	}
 
 	wData.wEcd = make([]*bigpoly.Poly[E], p.ctx.wCnt)
diff --git a/buckler/verifier.go b/buckler/verifier.go
index 5d167da..48db634 100644
--- a/buckler/verifier.go
+++ b/buckler/verifier.go
@@ -71,6 +71,12 @@ func (v *Verifier[E]) Verify(c Circuit[E], pf *Proof[E]) bool {
 	pwEcd := make([]*bigpoly.Poly[E], v.ctx.pwCnt)
 	for i := range pw {
 		pwEcd[i] = v.ecd.Encode(pw[i])
+
+		for j := range pw[i] {
+			oracleBuf.Write(pw[i][j].Marshal())
+		}
+		oracle.Bind("projConst", oracleBuf.Bytes())
+		oracleBuf.Reset()
 	}
 
 	for i := range v.ctx.wCnt {
-- 
2.43.0


From ba33c3681ce2588d5761498cd8bd65b88a45a7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:23 +0000
Subject: [PATCH 05/30] fix: bind the claimed evaluations before drawing the
 batching challenges

With more than one polynomial, the batching challenges did not depend on the
claimed evaluations, so wrong evaluations whose errors cancel in the batched
sum were accepted.
---
 jindo/prover.go   | 16 +++++++++++-----
 jindo/verifier.go |  6 ++++++
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/jindo/prover.go b/jindo/prover.go
index 1e9642e..efbe5e6 100644
--- a/jindo/prover.go
+++ b/jindo/prover.go
@@ -217,12 +217,20 @@ func (p *Prover[E]) Evaluate(x E, v [][]E, com []*Commitment, open []*Opening) (
 		}
 	}
 
+	evals := make([]E, p.params.batch)
+	for i := 0; i < p.params.batch; i++ {
+		evals[i] = (&bigpoly.Poly[E]{Coeffs: v[i]}).Evaluate(x)
+	}
+
 	oracle := sha3.NewSHAKE128()
 	p.ck.WriteRawTo(oracle)
 	for i := range p.params.batch {
 		com[i].WriteRawTo(oracle)
 	}
 	oracle.Write(x.Marshal())
+	for i := range p.params.batch {
+		oracle.Write(evals[i].Marshal())
+	}
 
 	var batchOut, batch []ring.Poly
 
@@ -245,6 +253,9 @@ func (p *Prover[E]) Evaluate(x E, v [][]E, com []*Commitment, open []*Opening) (
 			com[i].WriteRawTo(oracle)
 		}
 		oracle.Write(x.Marshal())
+		for i := range p.params.batch {
+			oracle.Write(evals[i].Marshal())
+		}
 		oracle.Write(batchBytes)
 
 		openBatch = NewOpening(p.params)
@@ -315,11 +326,6 @@ func (p *Prover[E]) Evaluate(x E, v [][]E, com []*Commitment, open []*Opening) (
 		}
 	}
 
-	evals := make([]E, p.params.batch)
-	for i := 0; i < p.params.batch; i++ {
-		evals[i] = (&bigpoly.Poly[E]{Coeffs: v[i]}).Evaluate(x)
-	}
-
 	return evals, pf
 }
 
diff --git a/jindo/verifier.go b/jindo/verifier.go
index d54ff81..03652cc 100644
--- a/jindo/verifier.go
+++ b/jindo/verifier.go
@@ -59,6 +59,9 @@ func (v *Verifier[E]) Verify(x E, com []*Commitment, y []E, pf *Proof) bool {
 		com[i].WriteRawTo(oracle)
 	}
 	oracle.Write(x.Marshal())
+	for i := 0; i < v.params.batch; i++ {
+		oracle.Write(y[i].Marshal())
+	}
 
 	var batch, batchOut []ring.Poly
 	if v.params.batch > 1 {
@@ -79,6 +82,9 @@ func (v *Verifier[E]) Verify(x E, com []*Commitment, y []E, pf *Proof) bool {
 			com[i].WriteRawTo(oracle)
 		}
 		oracle.Write(x.Marshal())
+		for i := 0; i < v.params.batch; i++ {
+			oracle.Write(y[i].Marshal())
+		}
 		oracle.Write(batchBytes)
 	}
 
-- 
2.43.0


From afca15ef8caad3011a46ed216527ddc5e2be8af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:58 +0000
Subject: [PATCH 06/30] fix: report assignments that do not match the compiled
 circuit

Errors of nested walk calls were dropped, so a witness of the wrong rank
shifted the remaining ones or made Prove and Verify panic, and a surplus or
missing witness was not detected.
---
 buckler/compile.go  | 40 +++++++++++++++++++++++++++++++---------
 buckler/context.go  |  7 +++++++
 buckler/prover.go   |  3 +++
 buckler/verifier.go |  3 +++
 4 files changed, 44 insertions(+), 9 deletions(-)

diff --git a/buckler/compile.go b/buckler/compile.go
index 6fe2285..397b099 100644
--- a/buckler/compile.go
+++ b/buckler/compile.go
@@ -13,6 +13,7 @@ import (
 var (
 	errReadOnly     = fmt.Errorf("cannot set value")
 	errRankMismatch = fmt.Errorf("witness rank mismatch")
+	errWitnessCount = fmt.Errorf("witness count mismatch")
 )
 
 func idToWitness[E bignum.Uint[E], W Witness[E] | PublicWitness[E]](id uint64) W {
@@ -68,15 +69,19 @@ func (w *walker[E]) firstWalk(v reflect.Value) error {
 	switch v.Kind() {
 	case reflect.Pointer, reflect.Interface:
 		if !v.IsNil() {
-			w.firstWalk(v.Elem())
+			return w.firstWalk(v.Elem())
 		}
 	case reflect.Struct:
 		for i := range v.NumField() {
-			w.firstWalk(v.Field(i))
+			if err := w.firstWalk(v.Field(i)); err != nil {
+				return err
+			}
 		}
 	case reflect.Slice, reflect.Array:
 		for i := range v.Len() {
-			w.firstWalk(v.Index(i))
+			if err := w.firstWalk(v.Index(i)); err != nil {
+				return err
+			}
 		}
 	case reflect.Invalid:
 		return fmt.Errorf("walk: invalid kind")
@@ -89,6 +94,9 @@ func (w *walker[E]) firstWalk(v reflect.Value) error {
 func (w *walker[E]) prvWalk(prv *Prover[E], v reflect.Value, pw []PublicWitness[E], sw []Witness[E]) error {
 	switch v.Type() {
 	case reflect.TypeOf(PublicWitness[E]{}):
+		if w.pwCnt >= prv.ctx.pwCircuitCnt {
+			return errWitnessCount
+		}
 		pw[w.pwCnt] = v.Interface().(PublicWitness[E])
 		if len(pw[w.pwCnt]) != prv.ctx.rank {
 			return errRankMismatch
@@ -97,6 +105,9 @@ func (w *walker[E]) prvWalk(prv *Prover[E], v reflect.Value, pw []PublicWitness[
 		return nil
 
 	case reflect.TypeOf(Witness[E]{}):
+		if w.wCnt >= prv.ctx.wCircuitCnt {
+			return errWitnessCount
+		}
 		sw[w.wCnt] = v.Interface().(Witness[E])
 		if len(sw[w.wCnt]) != prv.ctx.rank {
 			return errRankMismatch
@@ -108,15 +119,19 @@ func (w *walker[E]) prvWalk(prv *Prover[E], v reflect.Value, pw []PublicWitness[
 	switch v.Kind() {
 	case reflect.Pointer, reflect.Interface:
 		if !v.IsNil() {
-			w.prvWalk(prv, v.Elem(), pw, sw)
+			return w.prvWalk(prv, v.Elem(), pw, sw)
 		}
 	case reflect.Struct:
 		for i := range v.NumField() {
-			w.prvWalk(prv, v.Field(i), pw, sw)
+			if err := w.prvWalk(prv, v.Field(i), pw, sw); err != nil {
+				return err
+			}
 		}
 	case reflect.Slice, reflect.Array:
 		for i := range v.Len() {
-			w.prvWalk(prv, v.Index(i), pw, sw)
+			if err := w.prvWalk(prv, v.Index(i), pw, sw); err != nil {
+				return err
+			}
 		}
 	case reflect.Invalid:
 		return fmt.Errorf("walk: invalid kind")
@@ -129,6 +144,9 @@ func (w *walker[E]) prvWalk(prv *Prover[E], v reflect.Value, pw []PublicWitness[
 func (w *walker[E]) vrfWalk(vrf *Verifier[E], v reflect.Value, pw []PublicWitness[E]) error {
 	switch v.Type() {
 	case reflect.TypeOf(PublicWitness[E]{}):
+		if w.pwCnt >= vrf.ctx.pwCircuitCnt {
+			return errWitnessCount
+		}
 		pw[w.pwCnt] = v.Interface().(PublicWitness[E])
 		if len(pw[w.pwCnt]) != vrf.ctx.rank {
 			return errRankMismatch
@@ -140,15 +158,19 @@ func (w *walker[E]) vrfWalk(vrf *Verifier[E], v reflect.Value, pw []PublicWitnes
 	switch v.Kind() {
 	case reflect.Pointer, reflect.Interface:
 		if !v.IsNil() {
-			w.vrfWalk(vrf, v.Elem(), pw)
+			return w.vrfWalk(vrf, v.Elem(), pw)
 		}
 	case reflect.Struct:
 		for i := range v.NumField() {
-			w.vrfWalk(vrf, v.Field(i), pw)
+			if err := w.vrfWalk(vrf, v.Field(i), pw); err != nil {
+				return err
+			}
 		}
 	case reflect.Slice, reflect.Array:
 		for i := range v.Len() {
-			w.vrfWalk(vrf, v.Index(i), pw)
+			if err := w.vrfWalk(vrf, v.Index(i), pw); err != nil {
+				return err
+			}
 		}
 	case reflect.Invalid:
 		return fmt.Errorf("walk: invalid kind")
diff --git a/buckler/context.go b/buckler/context.go
index 446f113..1a1a0fc 100644
--- a/buckler/context.go
+++ b/buckler/context.go
@@ -16,6 +16,10 @@ type Context[E bignum.Uint[E]] struct {
 	pwCnt uint64
 	// wCnt is the number of witnesses.
 	wCnt uint64
+	// pwCircuitCnt is the number of public witnesses of the circuit itself.
+	pwCircuitCnt uint64
+	// wCircuitCnt is the number of witnesses of the circuit itself.
+	wCircuitCnt uint64
 
 	// wSecond are the witnesses in the second round.
 	wSecond []Witness[E]
@@ -57,6 +61,9 @@ func newContext[E bignum.Uint[E]](rank int, walker *walker[E]) *Context[E] {
 		pwCnt: walker.pwCnt,
 		wCnt:  walker.wCnt,
 
+		pwCircuitCnt: walker.pwCnt,
+		wCircuitCnt:  walker.wCnt,
+
 		circType: walker.circuitType,
 
 		linCheckConstraints: make(map[LinearChecker[E]][][2]uint64),
diff --git a/buckler/prover.go b/buckler/prover.go
index 673f7e2..ae5099c 100644
--- a/buckler/prover.go
+++ b/buckler/prover.go
@@ -55,6 +55,9 @@ func (p *Prover[E]) Prove(c Circuit[E]) (*Proof[E], error) {
 	if err := wk.prvWalk(p, reflect.ValueOf(c), wData.pw, wData.w); err != nil {
 		return nil, err
 	}
+	if wk.pwCnt != p.ctx.pwCircuitCnt || wk.wCnt != p.ctx.wCircuitCnt {
+		return nil, errWitnessCount
+	}
 
 	for i := wk.pwCnt; i < p.ctx.pwCnt; i++ {
 		wData.pw[i] = make(PublicWitness[E], p.ctx.rank)
diff --git a/buckler/verifier.go b/buckler/verifier.go
index 48db634..9eeb723 100644
--- a/buckler/verifier.go
+++ b/buckler/verifier.go
@@ -38,6 +38,9 @@ func (v *Verifier[E]) Verify(c Circuit[E], pf *Proof[E]) bool {
 	if err := wk.vrfWalk(v, reflect.ValueOf(c), pw); err != nil {
 		return false
 	}
+	if wk.pwCnt != v.ctx.pwCircuitCnt {
+		return false
+	}
 
 	for i := wk.pwCnt; i < v.ctx.pwCnt; i++ {
 		pw[i] = make(PublicWitness[E], v.ctx.rank)
-- 
2.43.0


From 7d42708be1549db3e70ed3d2833b5c0e9e4bcf9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:00 +0000
Subject: [PATCH 07/30] fix: make the decomposition base of a power of two sum
 to the bound

The base of 2^k was one element short and summed to 2^k-1, so witnesses that
meet the bound exactly could not be proved, and the bounds 0 and 1 of a
squared two-norm constraint made Prove panic.
---
 buckler/utils.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/buckler/utils.go b/buckler/utils.go
index 54f2fcf..9f7730a 100644
--- a/buckler/utils.go
+++ b/buckler/utils.go
@@ -8,8 +8,8 @@ func decomposeBase(x *big.Int) []*big.Int {
 	one := big.NewInt(1)
 
 	dcmpLen := x.BitLen()
-	if new(big.Int).Lsh(one, x.TrailingZeroBits()).Cmp(x) == 0 {
-		dcmpLen -= 1
+	if dcmpLen == 0 {
+		return nil
 	}
 
 	base := make([]*big.Int, dcmpLen)
-- 
2.43.0


From 3908c80975e5987ecd20bfe4965c2014d7a1a139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:01 +0000
Subject: [PATCH 08/30] fix: compute each squared two-norm from zero

The accumulator was carried over between constraints, so circuits with more
than one squared two-norm constraint rejected honest proofs.
---
 buckler/prover.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/buckler/prover.go b/buckler/prover.go
index ae5099c..20e5dab 100644
--- a/buckler/prover.go
+++ b/buckler/prover.go
@@ -99,6 +99,7 @@ func (p *Prover[E]) Prove(c Circuit[E]) (*Proof[E], error) {
 			wData.pw[pwMaskID][i].SetInt64(1)
 		}
 
+		sqNm.SetUint64(0)
 		for i := range p.ctx.rank {
 			wData.w[id][i].BigInt(bigCoeff)
 			mul.Mul(bigCoeff, bigCoeff)
-- 
2.43.0


From 000b424ea9f997204ed45cbf7593da32cf8c3a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:39 +0000
Subject: [PATCH 09/30] fix: allow several norm constraints of a kind on the
 same witness

The decompositions were kept in maps keyed by the witness, so a second
constraint replaced the first, whose decomposition was then left zero and
made honest proofs be rejected.
---
 buckler/context.go  | 83 ++++++++++++++++++++++++++-------------------
 buckler/prover.go   | 33 +++++++++---------
 buckler/verifier.go |  8 ++---
 3 files changed, 68 insertions(+), 56 deletions(-)

diff --git a/buckler/context.go b/buckler/context.go
index 1a1a0fc..4d2578e 100644
--- a/buckler/context.go
+++ b/buckler/context.go
@@ -39,18 +39,36 @@ type Context[E bignum.Uint[E]] struct {
 	linCheckers         []LinearChecker[E]
 	linCheckConstraints map[LinearChecker[E]][][2]uint64
 
-	infDcmpBound   map[uint64]*big.Int
-	infDcmpWitness map[uint64][]Witness[E]
-
-	twoDcmpBound   map[uint64]*big.Int
-	twoDcmpBase    map[uint64]PublicWitness[E]
-	twoDcmpMask    map[uint64]PublicWitness[E]
-	twoDcmpWitness map[uint64]Witness[E]
-
-	projChecker        LinearChecker[E]
-	projWitness        map[uint64]Witness[E]
-	projInfDcmpBound   map[uint64]*big.Int
-	projInfDcmpWitness map[uint64]Witness[E]
+	infDcmps []infDcmp[E]
+	twoDcmps []twoDcmp[E]
+
+	projChecker LinearChecker[E]
+	projDcmps   []projDcmp[E]
+}
+
+// infDcmp is the decomposition of a witness for an infinity-norm constraint.
+type infDcmp[E bignum.Uint[E]] struct {
+	witness uint64
+	bound   *big.Int
+	dcmp    []Witness[E]
+}
+
+// twoDcmp is the decomposition of a witness for a squared two-norm constraint.
+type twoDcmp[E bignum.Uint[E]] struct {
+	witness uint64
+	bound   *big.Int
+	base    PublicWitness[E]
+	mask    PublicWitness[E]
+	dcmp    Witness[E]
+}
+
+// projDcmp is the projection of a witness for an approximate infinity-norm constraint,
+// and the decomposition of the projection.
+type projDcmp[E bignum.Uint[E]] struct {
+	witness uint64
+	bound   *big.Int
+	proj    Witness[E]
+	dcmp    Witness[E]
 }
 
 // newContext creates a new [Context].
@@ -67,18 +85,6 @@ func newContext[E bignum.Uint[E]](rank int, walker *walker[E]) *Context[E] {
 		circType: walker.circuitType,
 
 		linCheckConstraints: make(map[LinearChecker[E]][][2]uint64),
-
-		infDcmpBound:   make(map[uint64]*big.Int),
-		infDcmpWitness: make(map[uint64][]Witness[E]),
-
-		twoDcmpBound:   make(map[uint64]*big.Int),
-		twoDcmpBase:    make(map[uint64]PublicWitness[E]),
-		twoDcmpMask:    make(map[uint64]PublicWitness[E]),
-		twoDcmpWitness: make(map[uint64]Witness[E]),
-
-		projWitness:        make(map[uint64]Witness[E]),
-		projInfDcmpBound:   make(map[uint64]*big.Int),
-		projInfDcmpWitness: make(map[uint64]Witness[E]),
 	}
 }
 
@@ -142,13 +148,15 @@ func (ctx *Context[E]) AddInfNormConstraintBig(w Witness[E], bound *big.Int) {
 
 	dcmpBase := decomposeBase(bound)
 
-	id := witnessToID(w)
 	wDcmp := make([]Witness[E], 0, len(dcmpBase))
 	for i := ctx.wCnt; i < ctx.wCnt+uint64(len(dcmpBase)); i++ {
 		wDcmp = append(wDcmp, idToWitness[E, Witness[E]](i))
 	}
-	ctx.infDcmpWitness[id] = wDcmp
-	ctx.infDcmpBound[id] = new(big.Int).Set(bound)
+	ctx.infDcmps = append(ctx.infDcmps, infDcmp[E]{
+		witness: witnessToID(w),
+		bound:   new(big.Int).Set(bound),
+		dcmp:    wDcmp,
+	})
 	ctx.wCnt += uint64(len(dcmpBase))
 
 	for i := range wDcmp {
@@ -178,7 +186,6 @@ func (ctx *Context[E]) AddSqTwoNormConstraint(w Witness[E], bound uint64) {
 func (ctx *Context[E]) AddSqNormConstraintBig(w Witness[E], bound *big.Int) {
 	var z E
 
-	id := witnessToID(w)
 	wDcmp := idToWitness[E, Witness[E]](ctx.wCnt)
 	ctx.wCnt += 1
 
@@ -186,10 +193,13 @@ func (ctx *Context[E]) AddSqNormConstraintBig(w Witness[E], bound *big.Int) {
 	pwMask := idToWitness[E, PublicWitness[E]](ctx.pwCnt + 1)
 	ctx.pwCnt += 2
 
-	ctx.twoDcmpBound[id] = new(big.Int).Set(bound)
-	ctx.twoDcmpBase[id] = pwBase
-	ctx.twoDcmpMask[id] = pwMask
-	ctx.twoDcmpWitness[id] = wDcmp
+	ctx.twoDcmps = append(ctx.twoDcmps, twoDcmp[E]{
+		witness: witnessToID(w),
+		bound:   new(big.Int).Set(bound),
+		base:    pwBase,
+		mask:    pwMask,
+		dcmp:    wDcmp,
+	})
 
 	var binConstraint ArithmeticConstraint[E]
 	binConstraint.AddTermWithConst(z.New().SetInt64(1), nil, wDcmp, wDcmp)
@@ -219,15 +229,18 @@ func (ctx *Context[E]) AddApproxInfNormConstraintBig(w Witness[E], bound *big.In
 	ctx.wCnt++
 
 	ctx.AddLinearConstraint(wProj, w, ctx.projChecker)
-	ctx.projWitness[witnessToID(w)] = wProj
 
 	wProjDcmp := idToWitness[E, Witness[E]](ctx.wCnt)
 	ctx.wCnt++
 
 	slackBound := new(big.Int).SetUint64(uint64(ctx.rank))
 	slackBound.Mul(slackBound, bound)
-	ctx.projInfDcmpBound[witnessToID(wProj)] = slackBound
-	ctx.projInfDcmpWitness[witnessToID(wProj)] = wProjDcmp
+	ctx.projDcmps = append(ctx.projDcmps, projDcmp[E]{
+		witness: witnessToID(w),
+		bound:   slackBound,
+		proj:    wProj,
+		dcmp:    wProjDcmp,
+	})
 	ctx.AddLinearConstraint(wProj, wProjDcmp, newProjRecomposeChecker[E](slackBound))
 	// ctx.AddInfNormConstraint(wProjDcmp, 1)
 
diff --git a/buckler/prover.go b/buckler/prover.go
index 20e5dab..6313c20 100644
--- a/buckler/prover.go
+++ b/buckler/prover.go
@@ -77,23 +77,23 @@ func (p *Prover[E]) Prove(c Circuit[E]) (*Proof[E], error) {
 
 	bigCoeff := new(big.Int)
 
-	for id, wDcmps := range p.ctx.infDcmpWitness {
-		base := decomposeBase(p.ctx.infDcmpBound[id])
+	for _, c := range p.ctx.infDcmps {
+		base := decomposeBase(c.bound)
 		for i := range p.ctx.rank {
-			wData.w[id][i].BigInt(bigCoeff)
+			wData.w[c.witness][i].BigInt(bigCoeff)
 			dcmp := decomposeBig(bigCoeff, base, mod)
-			for j, wDcmp := range wDcmps {
+			for j, wDcmp := range c.dcmp {
 				wData.w[witnessToID(wDcmp)][i].SetInt64(dcmp[j])
 			}
 		}
 	}
 
 	sqNm, mul := new(big.Int), new(big.Int)
-	for id, bound := range p.ctx.twoDcmpBound {
-		base := decomposeBase(bound)
+	for _, c := range p.ctx.twoDcmps {
+		base := decomposeBase(c.bound)
 
-		pwBaseID := witnessToID(p.ctx.twoDcmpBase[id])
-		pwMaskID := witnessToID(p.ctx.twoDcmpMask[id])
+		pwBaseID := witnessToID(c.base)
+		pwMaskID := witnessToID(c.mask)
 		for i := range base {
 			wData.pw[pwBaseID][i].SetBigInt(base[i])
 			wData.pw[pwMaskID][i].SetInt64(1)
@@ -101,14 +101,14 @@ func (p *Prover[E]) Prove(c Circuit[E]) (*Proof[E], error) {
 
 		sqNm.SetUint64(0)
 		for i := range p.ctx.rank {
-			wData.w[id][i].BigInt(bigCoeff)
+			wData.w[c.witness][i].BigInt(bigCoeff)
 			mul.Mul(bigCoeff, bigCoeff)
 			sqNm.Add(sqNm, mul)
 		}
 		sqNm.Mod(sqNm, mod)
 
 		dcmp := decomposeBig(sqNm, base, mod)
-		wDcmpID := witnessToID(p.ctx.twoDcmpWitness[id])
+		wDcmpID := witnessToID(c.dcmp)
 		for i := range dcmp {
 			wData.w[wDcmpID][i].SetInt64(dcmp[i])
 		}
@@ -185,15 +185,14 @@ func (p *Prover[E]) Prove(c Circuit[E]) (*Proof[E], error) {
 			}
 		}
 
-		for id, wProj := range p.ctx.projWitness {
-			chk.TransformTo(wData.w[witnessToID(wProj)], wData.w[id])
-		}
+		for _, c := range p.ctx.projDcmps {
+			wProjID := witnessToID(c.proj)
+			chk.TransformTo(wData.w[wProjID], wData.w[c.witness])
 
-		for id, wDcmp := range p.ctx.projInfDcmpWitness {
-			base := decomposeBase(p.ctx.projInfDcmpBound[id])
-			wDcmpID := witnessToID(wDcmp)
+			base := decomposeBase(c.bound)
+			wDcmpID := witnessToID(c.dcmp)
 			for i := range 128 {
-				wData.w[id][i].BigInt(bigCoeff)
+				wData.w[wProjID][i].BigInt(bigCoeff)
 				dcmp := decomposeBig(bigCoeff, base, mod)
 				for j := range base {
 					wData.w[wDcmpID][i*len(base)+j].SetInt64(dcmp[j])
diff --git a/buckler/verifier.go b/buckler/verifier.go
index 9eeb723..f7334ff 100644
--- a/buckler/verifier.go
+++ b/buckler/verifier.go
@@ -49,11 +49,11 @@ func (v *Verifier[E]) Verify(c Circuit[E], pf *Proof[E]) bool {
 		}
 	}
 
-	for id, bound := range v.ctx.twoDcmpBound {
-		base := decomposeBase(bound)
+	for _, c := range v.ctx.twoDcmps {
+		base := decomposeBase(c.bound)
 
-		pwBaseID := witnessToID(v.ctx.twoDcmpBase[id])
-		pwMaskID := witnessToID(v.ctx.twoDcmpMask[id])
+		pwBaseID := witnessToID(c.base)
+		pwMaskID := witnessToID(c.mask)
 		for i := range base {
 			pw[pwBaseID][i].SetBigInt(base[i])
 			pw[pwMaskID][i].SetInt64(1)
-- 
2.43.0


From fff9b40dc448dc25b1012c4ca2c18f69d11110ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:41 +0000
Subject: [PATCH 10/30] fix: draw the random projection into state of the proof
 at hand

The prover and verifier of one Compile wrote their projections into the same
checker, so proving and verifying at the same time corrupted each other.
---
 buckler/prover.go   | 12 ++++++++++--
 buckler/verifier.go | 14 ++++++++++----
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/buckler/prover.go b/buckler/prover.go
index 6313c20..bb4de3a 100644
--- a/buckler/prover.go
+++ b/buckler/prover.go
@@ -36,6 +36,9 @@ type witnessData[E bignum.Uint[E]] struct {
 	pwEcdNTT []*bigpoly.Poly[E]
 	wEcd     []*bigpoly.Poly[E]
 	wEcdNTT  []*bigpoly.Poly[E]
+
+	// projChecker is the random projection of this proof.
+	projChecker LinearChecker[E]
 }
 
 // Prove generates a proof for the given circuit and witnesses.
@@ -176,7 +179,8 @@ func (p *Prover[E]) Prove(c Circuit[E]) (*Proof[E], error) {
 	xofProj.Write(projConstBytes)
 
 	if p.ctx.projChecker != nil {
-		chk := p.ctx.projChecker.(*projChecker[E])
+		chk := newProjChecker[E](p.ctx.rank).(*projChecker[E])
+		wData.projChecker = chk
 		var projBuf [32]byte
 		for j := 0; j < p.ctx.rank; j++ {
 			xofProj.Read(projBuf[:])
@@ -434,7 +438,11 @@ func (p *Prover[E]) linCheck(batchConst, linCheckConst E, linCheckMask *bigpoly.
 	eval := p.polyEval.NewPoly(true)
 	term := p.polyEval.NewPoly(true)
 	for _, tr := range p.ctx.linCheckers {
-		tr.TransposeTo(linCheckVecTr, linCheckVec)
+		if tr == p.ctx.projChecker {
+			wData.projChecker.TransposeTo(linCheckVecTr, linCheckVec)
+		} else {
+			tr.TransposeTo(linCheckVecTr, linCheckVec)
+		}
 		p.ecd.EncodeTo(linCheckEcdTr, linCheckVecTr)
 		p.polyEval.NTTTo(linCheckEcdTr, linCheckEcdTr)
 		for _, wIDs := range p.ctx.linCheckConstraints[tr] {
diff --git a/buckler/verifier.go b/buckler/verifier.go
index f7334ff..1468c0d 100644
--- a/buckler/verifier.go
+++ b/buckler/verifier.go
@@ -108,8 +108,10 @@ func (v *Verifier[E]) Verify(c Circuit[E], pf *Proof[E]) bool {
 	xofProj := sha3.NewSHAKE128()
 	xofProj.Write(projConstBytes)
 
+	var projLinChecker LinearChecker[E]
 	if v.ctx.projChecker != nil {
-		chk := v.ctx.projChecker.(*projChecker[E])
+		chk := newProjChecker[E](v.ctx.rank).(*projChecker[E])
+		projLinChecker = chk
 		var projBuf [32]byte
 		for j := 0; j < v.ctx.rank; j++ {
 			xofProj.Read(projBuf[:])
@@ -206,7 +208,7 @@ func (v *Verifier[E]) Verify(c Circuit[E], pf *Proof[E]) bool {
 		linCheckConst := z.New().SetBytes(linCheckConstBytes)
 
 		quoEval, remLoEval, remHiEval := pf.Evals[roundComIdx], pf.Evals[roundComIdx+1], pf.Evals[roundComIdx+2]
-		if !v.linCheck(batchConst, linCheckConst, linCheckMaskEval, evalPoint, vanishEval, pf.LinCheckMaskSum, quoEval, remLoEval, remHiEval, pf.Evals) {
+		if !v.linCheck(projLinChecker, batchConst, linCheckConst, linCheckMaskEval, evalPoint, vanishEval, pf.LinCheckMaskSum, quoEval, remLoEval, remHiEval, pf.Evals) {
 			return false
 		}
 		roundComIdx += 3
@@ -255,7 +257,7 @@ func (v *Verifier[E]) arithCheck(batchConst, vanishEval, quoEval E, evals []E, p
 	return eval.Cmp(test) == 0
 }
 
-func (v *Verifier[E]) linCheck(batchConst, linCheckConst, linCheckMaskEval, evalPoint, vanishEval, linCheckMaskSum, quoEval, remLoEval, remHiEval E, evals []E) bool {
+func (v *Verifier[E]) linCheck(projChecker LinearChecker[E], batchConst, linCheckConst, linCheckMaskEval, evalPoint, vanishEval, linCheckMaskSum, quoEval, remLoEval, remHiEval E, evals []E) bool {
 	var z E
 
 	remLoShiftEval := bignum.Exp(evalPoint, uint64(v.JindoParams.Rank()-(v.ctx.rank-1)))
@@ -279,7 +281,11 @@ func (v *Verifier[E]) linCheck(batchConst, linCheckConst, linCheckMaskEval, eval
 
 	eval, term, termMul := z.New(), z.New(), z.New()
 	for _, tr := range v.ctx.linCheckers {
-		tr.TransposeTo(linCheckVecTr, linCheckVec)
+		if tr == v.ctx.projChecker {
+			projChecker.TransposeTo(linCheckVecTr, linCheckVec)
+		} else {
+			tr.TransposeTo(linCheckVecTr, linCheckVec)
+		}
 		v.ecd.EncodeTo(linCheckEcdTr, linCheckVecTr)
 		linCheckTrEval := linCheckEcdTr.Evaluate(evalPoint)
 		for _, wIDs := range v.ctx.linCheckConstraints[tr] {
-- 
2.43.0


From 9d901072ac4777826b0053923d4769b24b0f8b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:54 +0000
Subject: [PATCH 11/30] fix: constrain the digits of approximate infinity-norm
 constraints

Nothing bounded the decomposition of the projection, so any witness was
accepted for any approximate infinity-norm bound.
---
 buckler/context.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/buckler/context.go b/buckler/context.go
index 4d2578e..88699d1 100644
--- a/buckler/context.go
+++ b/buckler/context.go
@@ -242,7 +242,7 @@ func (ctx *Context[E]) AddApproxInfNormConstraintBig(w Witness[E], bound *big.In
 		dcmp:    wProjDcmp,
 	})
 	ctx.AddLinearConstraint(wProj, wProjDcmp, newProjRecomposeChecker[E](slackBound))
-	// ctx.AddInfNormConstraint(wProjDcmp, 1)
+	ctx.AddInfNormConstraint(wProjDcmp, 1)
 
 	ctx.wSecond = append(ctx.wSecond, wProj, wProjDcmp)
 }
-- 
2.43.0


From 1e3c0dc2da475f8a9a00e4849a2bcc555c4e7cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:55 +0000
Subject: [PATCH 12/30] fix: prove small-rank approximate infinity-norm
 constraints exactly

When the digits of the projection do not fit in one witness, Prove indexed
out of range.
---
 buckler/context.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/buckler/context.go b/buckler/context.go
index 88699d1..faa6b3f 100644
--- a/buckler/context.go
+++ b/buckler/context.go
@@ -221,6 +221,16 @@ func (ctx *Context[E]) AddApproxInfNormConstraint(w Witness[E], bound uint64) {
 // AddApproxInfNormConstraint adds a approximate inf-norm constraint to the context.
 // The slack is around rank.
 func (ctx *Context[E]) AddApproxInfNormConstraintBig(w Witness[E], bound *big.Int) {
+	slackBound := new(big.Int).SetUint64(uint64(ctx.rank))
+	slackBound.Mul(slackBound, bound)
+
+	// The digits of the projection must fit in one witness.
+	// Otherwise, prove the bound exactly.
+	if slackBound.Sign() <= 0 || 128*slackBound.BitLen() > ctx.rank {
+		ctx.AddInfNormConstraintBig(w, bound)
+		return
+	}
+
 	if ctx.projChecker == nil {
 		ctx.projChecker = newProjChecker[E](ctx.rank)
 	}
@@ -233,8 +243,6 @@ func (ctx *Context[E]) AddApproxInfNormConstraintBig(w Witness[E], bound *big.In
 	wProjDcmp := idToWitness[E, Witness[E]](ctx.wCnt)
 	ctx.wCnt++
 
-	slackBound := new(big.Int).SetUint64(uint64(ctx.rank))
-	slackBound.Mul(slackBound, bound)
 	ctx.projDcmps = append(ctx.projDcmps, projDcmp[E]{
 		witness: witnessToID(w),
 		bound:   slackBound,
-- 
2.43.0


From 7180ab842378eca1c8ead238d26c5dfe4abf8ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:56 +0000
Subject: [PATCH 13/30] fix: support constraints that involve no witness

Constraints of public witnesses or constants only had an empty quotient and
made Prove panic.
---
 buckler/constraint.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/buckler/constraint.go b/buckler/constraint.go
index 5f5711c..c1b8c87 100644
--- a/buckler/constraint.go
+++ b/buckler/constraint.go
@@ -65,5 +65,6 @@ func (c *ArithmeticConstraint[E]) maxRank(rank int) int {
 			maxDeg = deg
 		}
 	}
-	return maxDeg + 1
+	// Constraints without a witness still need a quotient of rank one.
+	return max(maxDeg, rank) + 1
 }
-- 
2.43.0


From 182545651eaa77800f1ff169e3b5cbeb63c859f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:43 +0000
Subject: [PATCH 14/30] fix: reject evaluation proofs of the wrong shape
 instead of panicking

---
 jindo/verifier.go | 51 +++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 51 insertions(+)

diff --git a/jindo/verifier.go b/jindo/verifier.go
index 03652cc..c368be7 100644
--- a/jindo/verifier.go
+++ b/jindo/verifier.go
@@ -3,6 +3,7 @@ package jindo
 import (
 	"crypto/sha3"
 	"math/big"
+	"reflect"
 
 	"github.com/sp301415/ringo-snark/math/bignum"
 	"github.com/tuneinsight/lattigo/v6/ring"
@@ -53,6 +54,10 @@ func (v *Verifier[E]) Verify(x E, com []*Commitment, y []E, pf *Proof) bool {
 		panic("len(v) != params.batch")
 	}
 
+	if !v.isWellFormed(com, y, pf) {
+		return false
+	}
+
 	oracle := sha3.NewSHAKE128()
 	v.ck.WriteRawTo(oracle)
 	for i := 0; i < v.params.batch; i++ {
@@ -138,6 +143,52 @@ func (v *Verifier[E]) Verify(x E, com []*Commitment, y []E, pf *Proof) bool {
 	return true
 }
 
+// isWellFormed returns if com, y and pf have the shape that the parameters ask for.
+func (v *Verifier[E]) isWellFormed(com []*Commitment, y []E, pf *Proof) bool {
+	isPoly := func(ringQ *ring.Ring, p ...ring.Poly) bool {
+		for i := range p {
+			if len(p[i].Coeffs) < ringQ.ModuliChainLength() {
+				return false
+			}
+			for j := range p[i].Coeffs {
+				if len(p[i].Coeffs[j]) != ringQ.N() {
+					return false
+				}
+			}
+		}
+		return true
+	}
+
+	for i := range com {
+		if com[i] == nil || len(com[i].Value) != v.params.outMSISRank || !isPoly(v.params.ringQOut, com[i].Value...) {
+			return false
+		}
+	}
+
+	for i := range y {
+		if yi := reflect.ValueOf(y[i]); yi.Kind() == reflect.Pointer && yi.IsNil() {
+			return false
+		}
+	}
+
+	switch {
+	case pf == nil:
+		return false
+	case len(pf.InCommit) != v.params.inComDcmpLen || !isPoly(v.params.ringQOut, pf.InCommit...):
+		return false
+	case len(pf.Partial) != v.params.cols || !isPoly(v.params.ringQ, pf.Partial...):
+		return false
+	case !isPoly(v.params.ringQ, pf.PartialMask):
+		return false
+	case len(pf.Encode) != v.params.rows || !isPoly(v.params.ringQ, pf.Encode...):
+		return false
+	case len(pf.MLWE) != v.params.mlweRank+v.params.inMSISRank || !isPoly(v.params.ringQ, pf.MLWE...):
+		return false
+	}
+
+	return true
+}
+
 // verifyOuterCommitment verfies the outer commitment.
 func (v *Verifier[E]) verifyOuterCommitment(batch []ring.Poly, com []*Commitment, pf, pfInv *Proof) bool {
 	inDcmpInv := append(pfInv.InCommit, make([]ring.Poly, v.params.outMSISRank)...)
-- 
2.43.0


From aebde389f021a5ec02c8d2d2623cef40a2c53f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:43 +0000
Subject: [PATCH 15/30] fix: reject proofs of the wrong shape instead of
 panicking

---
 buckler/verifier.go | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/buckler/verifier.go b/buckler/verifier.go
index 1468c0d..4effae6 100644
--- a/buckler/verifier.go
+++ b/buckler/verifier.go
@@ -31,6 +31,10 @@ func (v *Verifier[E]) Verify(c Circuit[E], pf *Proof[E]) bool {
 		return false
 	}
 
+	if !v.isWellFormed(pf) {
+		return false
+	}
+
 	var z E
 
 	pw := make([]PublicWitness[E], v.ctx.pwCnt)
@@ -227,6 +231,34 @@ func (v *Verifier[E]) Verify(c Circuit[E], pf *Proof[E]) bool {
 	return true
 }
 
+// isWellFormed returns if pf has the shape that the circuit asks for.
+// The commitments, evaluations and the evaluation proof are checked further by Jindo.
+func (v *Verifier[E]) isWellFormed(pf *Proof[E]) bool {
+	isNil := func(x E) bool {
+		xv := reflect.ValueOf(x)
+		return xv.Kind() == reflect.Pointer && xv.IsNil()
+	}
+
+	switch {
+	case pf == nil:
+		return false
+	case len(pf.Witness) != v.ctx.batch() || len(pf.Evals) != v.ctx.batch():
+		return false
+	case v.ctx.HasLinearCheck() && isNil(pf.LinCheckMaskSum):
+		return false
+	case v.ctx.HasSumCheck() && isNil(pf.SumCheckMaskSum):
+		return false
+	}
+
+	for i := range pf.Witness {
+		if pf.Witness[i] == nil {
+			return false
+		}
+	}
+
+	return true
+}
+
 func (v *Verifier[E]) evalCircuit(batchConst E, constraints []ArithmeticConstraint[E], evals []E, pwEvals []E) E {
 	var z E
 
-- 
2.43.0


From 8ddb3c993df8e9d15e8f0760317f2b3873e70cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:43 +0000
Subject: [PATCH 16/30] fix: make UniformSampler.Read fill the buffer

It xored the stream into whatever the caller's buffer held, so the bytes read
were not a function of the seed.
---
 math/csprng/uniform.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/math/csprng/uniform.go b/math/csprng/uniform.go
index bdb915e..f1d06de 100644
--- a/math/csprng/uniform.go
+++ b/math/csprng/uniform.go
@@ -56,6 +56,7 @@ func NewUniformSamplerWithSeed(seed []byte) *UniformSampler {
 // Read implements the [io.Reader] interface.
 // It always succeeds, with n == len(p) and err == nil.
 func (s *UniformSampler) Read(p []byte) (n int, err error) {
+	clear(p)
 	s.prng.XORKeyStream(p, p)
 	return len(p), nil
 }
-- 
2.43.0


From f4a78629b50c753e6773dea3520e637c48aada5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:32 +0000
Subject: [PATCH 17/30] fix: keep the cumulative distribution table sorted

A cumulative sum of exactly one was converted to uint64 out of range, which is
2^63 on amd64, so the binary search ran over an unsorted table.
---
 math/csprng/gaussian_twin_cdt.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/math/csprng/gaussian_twin_cdt.go b/math/csprng/gaussian_twin_cdt.go
index 34f8214..5147271 100644
--- a/math/csprng/gaussian_twin_cdt.go
+++ b/math/csprng/gaussian_twin_cdt.go
@@ -22,7 +22,7 @@ func computeCDT(center, sigma float64) []uint64 {
 		xf := float64(x)
 		rho := math.Exp(-(xf-center)*(xf-center)/(2*sigma*sigma)) / norm
 		cdf += rho
-		if cdf > 1 {
+		if cdf >= 1 {
 			table[i] = math.MaxUint64
 		} else {
 			table[i] = uint64(math.Round(cdf * math.Exp2(64)))
-- 
2.43.0


From 39706f973a044ef7a3912bface5176a6338c80fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:33 +0000
Subject: [PATCH 18/30] fix: use the table of the next integer when the center
 rounds up to it

Centers with a fraction above 127/128 used the table of center zero without
shifting its result.
---
 math/csprng/gaussian_twin_cdt.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/math/csprng/gaussian_twin_cdt.go b/math/csprng/gaussian_twin_cdt.go
index 5147271..6a07c54 100644
--- a/math/csprng/gaussian_twin_cdt.go
+++ b/math/csprng/gaussian_twin_cdt.go
@@ -91,6 +91,10 @@ func (s *TwinCDTGaussianSampler) Sample(center float64) int64 {
 	if ok {
 		v1 -= 1
 	}
+	if c1 < c0 {
+		// The center was rounded up to the next integer.
+		v1 += 1
+	}
 
 	if v0 == v1 {
 		return int64(v0) + int64(cFloor) + s.tailLo
-- 
2.43.0


From bff216a2baed495a7a68967e78bbee89e1fa50ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:01 +0000
Subject: [PATCH 19/30] fix: sum the exact distribution up to the candidate
 sample

The bound was an index into the table instead of a sample, so the sum was
always one and the center was in effect always rounded down.
---
 math/csprng/gaussian_twin_cdt.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/math/csprng/gaussian_twin_cdt.go b/math/csprng/gaussian_twin_cdt.go
index 6a07c54..976da24 100644
--- a/math/csprng/gaussian_twin_cdt.go
+++ b/math/csprng/gaussian_twin_cdt.go
@@ -102,7 +102,7 @@ func (s *TwinCDTGaussianSampler) Sample(center float64) int64 {
 
 	cdf := 0.0
 	norm := math.Sqrt(2*math.Pi) * s.stdDev
-	for x := s.tailLo; x <= int64(v0); x++ {
+	for x := s.tailLo; x <= int64(v0)+s.tailLo; x++ {
 		xf := float64(x)
 		cdf += math.Exp(-(xf-cFrac)*(xf-cFrac)/(2*s.stdDev*s.stdDev)) / norm
 	}
-- 
2.43.0


From d682346b5e0eb85e94f76dbcf2d0ff2148c223f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:28 +0000
Subject: [PATCH 20/30] fix: keep 120 bits of challenge space for every
 encoding exponent

The bound on challenge coefficients was computed with integer division and
halved, which left one possible challenge (zero) for an exponent of 64, so that
every evaluation proof over such a modulus could be forged, and 2^64 challenges
for an exponent of 32. The norm bounds already account for the full range.
---
 jindo/params.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jindo/params.go b/jindo/params.go
index d5d94f0..f432f93 100644
--- a/jindo/params.go
+++ b/jindo/params.go
@@ -355,8 +355,9 @@ func (p Parameters) Slots() int {
 }
 
 // ChallengeBound is the challenge bound.
+// Each coefficient of a challenge takes this many values, centered around zero.
 func (p Parameters) ChallengeBound() uint64 {
-	return min(p.ecd.base, 1<<(120/p.ecd.exp)) / 2
+	return min(p.ecd.base, uint64(math.Exp2(120/float64(p.ecd.exp))))
 }
 
 // InMSISRank is the rank of the inner MSIS commitment.
-- 
2.43.0


From e50b1bf5cdc871f095973e2bff4862e630467ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:58 +0000
Subject: [PATCH 21/30] fix: copy the coefficients that terms are added with

---
 buckler/constraint.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/buckler/constraint.go b/buckler/constraint.go
index c1b8c87..4ee0622 100644
--- a/buckler/constraint.go
+++ b/buckler/constraint.go
@@ -31,7 +31,7 @@ func (c *ArithmeticConstraint[E]) SubTerm(coeffPublicWitness PublicWitness[E], w
 // Specifically, it adds coeff * coeffPublicWitness * witness[0] * ... * witness[n] to the constraint.
 // If coeffPublicWitness is nil, it is ignored.
 func (c *ArithmeticConstraint[E]) AddTermWithConst(coeff E, coeffPublicWitness PublicWitness[E], witness ...Witness[E]) {
-	c.coeffs = append(c.coeffs, coeff)
+	c.coeffs = append(c.coeffs, coeff.New().Set(coeff))
 
 	if coeffPublicWitness != nil {
 		c.hasCoeffPublicWitness = append(c.hasCoeffPublicWitness, true)
-- 
2.43.0


From 7415d62a186059f12c973aea3d876c6c48b3604f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:31 +0000
Subject: [PATCH 22/30] fix: report circuits that are not pointers instead of
 panicking

---
 buckler/compile.go  | 5 +++--
 buckler/prover.go   | 2 +-
 buckler/verifier.go | 2 +-
 3 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/buckler/compile.go b/buckler/compile.go
index 397b099..2be126e 100644
--- a/buckler/compile.go
+++ b/buckler/compile.go
@@ -184,11 +184,12 @@ func (w *walker[E]) vrfWalk(vrf *Verifier[E], v reflect.Value, pw []PublicWitnes
 // For correct compilation, the [PublicWitness] and [Witness] field must be empty.
 // Moreover, all other fields must be set correctly.
 func Compile[E bignum.Uint[E]](witnessRank int, c Circuit[E], crs []byte) (*Prover[E], *Verifier[E], error) {
-	if reflect.TypeOf(c).Kind() != reflect.Pointer {
+	t := reflect.TypeOf(c)
+	if t == nil || t.Kind() != reflect.Pointer {
 		return nil, nil, fmt.Errorf("circuit must be defined with a pointer receiver")
 	}
 
-	w := &walker[E]{circuitType: reflect.TypeOf(c).Elem()}
+	w := &walker[E]{circuitType: t.Elem()}
 	if err := w.firstWalk(reflect.ValueOf(c)); err != nil {
 		return nil, nil, err
 	}
diff --git a/buckler/prover.go b/buckler/prover.go
index bb4de3a..6f97379 100644
--- a/buckler/prover.go
+++ b/buckler/prover.go
@@ -43,7 +43,7 @@ type witnessData[E bignum.Uint[E]] struct {
 
 // Prove generates a proof for the given circuit and witnesses.
 func (p *Prover[E]) Prove(c Circuit[E]) (*Proof[E], error) {
-	if p.ctx.circType != reflect.TypeOf(c).Elem() {
+	if reflect.PointerTo(p.ctx.circType) != reflect.TypeOf(c) {
 		return nil, fmt.Errorf("circuit type mismatch")
 	}
 
diff --git a/buckler/verifier.go b/buckler/verifier.go
index 4effae6..63348b5 100644
--- a/buckler/verifier.go
+++ b/buckler/verifier.go
@@ -27,7 +27,7 @@ type Verifier[E bignum.Uint[E]] struct {
 
 // Verify verifies the proof for the given public assignment.
 func (v *Verifier[E]) Verify(c Circuit[E], pf *Proof[E]) bool {
-	if v.ctx.circType != reflect.TypeOf(c).Elem() {
+	if reflect.PointerTo(v.ctx.circType) != reflect.TypeOf(c) {
 		return false
 	}
 
-- 
2.43.0


From 28659bf37128703dd7b2339bdf5fc5cfe7ae4688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:42 +0000
Subject: [PATCH 23/30] fix: copy the terms of constraints as they are added

---
 buckler/constraint.go | 17 ++++++++++++++++-
 buckler/context.go    |  4 ++--
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/buckler/constraint.go b/buckler/constraint.go
index 4ee0622..570b145 100644
--- a/buckler/constraint.go
+++ b/buckler/constraint.go
@@ -1,6 +1,10 @@
 package buckler
 
-import "github.com/sp301415/ringo-snark/math/bignum"
+import (
+	"slices"
+
+	"github.com/sp301415/ringo-snark/math/bignum"
+)
 
 // ArithmeticConstraint is the arithmetic constraint for the circuit.
 type ArithmeticConstraint[E bignum.Uint[E]] struct {
@@ -52,6 +56,17 @@ func (c *ArithmeticConstraint[E]) AddTermWithConst(coeff E, coeffPublicWitness P
 	}
 }
 
+// copy returns a copy of the constraint that shares no terms with it.
+func (c *ArithmeticConstraint[E]) copy() ArithmeticConstraint[E] {
+	return ArithmeticConstraint[E]{
+		wRank:                 c.wRank,
+		coeffs:                slices.Clone(c.coeffs),
+		hasCoeffPublicWitness: slices.Clone(c.hasCoeffPublicWitness),
+		coeffsPublicWitness:   slices.Clone(c.coeffsPublicWitness),
+		witness:               slices.Clone(c.witness),
+	}
+}
+
 // maxRank returns the maximum polynomial rank of the constraint.
 func (c *ArithmeticConstraint[E]) maxRank(rank int) int {
 	maxDeg := 0
diff --git a/buckler/context.go b/buckler/context.go
index faa6b3f..9109ee0 100644
--- a/buckler/context.go
+++ b/buckler/context.go
@@ -90,7 +90,7 @@ func newContext[E bignum.Uint[E]](rank int, walker *walker[E]) *Context[E] {
 
 // AddArithmeticConstraint adds an arithmetic constraint to the context.
 func (ctx *Context[E]) AddArithmeticConstraint(c ArithmeticConstraint[E]) {
-	ctx.arithConstraints = append(ctx.arithConstraints, c)
+	ctx.arithConstraints = append(ctx.arithConstraints, c.copy())
 	ctx.arithCheckMaxRank = max(ctx.arithCheckMaxRank, c.maxRank(ctx.rank))
 }
 
@@ -101,7 +101,7 @@ func (ctx *Context[E]) AddSumCheckConstraint(c ArithmeticConstraint[E], sum uint
 
 // AddSumCheckConstraintBig adds a sumcheck constraint to the context.
 func (ctx *Context[E]) AddSumCheckConstraintBig(c ArithmeticConstraint[E], sum *big.Int) {
-	ctx.sumCheckConstraints = append(ctx.sumCheckConstraints, c)
+	ctx.sumCheckConstraints = append(ctx.sumCheckConstraints, c.copy())
 	ctx.sumCheckSums = append(ctx.sumCheckSums, new(big.Int).Set(sum))
 	ctx.sumCheckMaxRank = max(ctx.sumCheckMaxRank, c.maxRank(ctx.rank))
 }
-- 
2.43.0


From fcb4ec168f04fc65154a268ac82985cacc4347fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:25 +0000
Subject: [PATCH 24/30] fix: keep copies of small-rank polynomials within their
 slices

---
 math/bigpoly/ntt.go  | 28 ++++++++++++++++++++++++----
 math/bigpoly/poly.go |  7 ++++++-
 2 files changed, 30 insertions(+), 5 deletions(-)

diff --git a/math/bigpoly/ntt.go b/math/bigpoly/ntt.go
index d95489c..f6782c7 100644
--- a/math/bigpoly/ntt.go
+++ b/math/bigpoly/ntt.go
@@ -96,7 +96,8 @@ func NewCyclicTransformer[E bignum.Uint[E]](rank int) *CyclicTransformer[E] {
 
 // FwdNTTTo computes vOut = NTT(v).
 func (ntt *CyclicTransformer[E]) FwdNTTTo(vOut, v []E) {
-	for i := 0; i < len(vOut); i += 8 {
+	M := (len(vOut) >> 3) << 3
+	for i := 0; i < M; i += 8 {
 		cOut := (*[8]E)(unsafe.Pointer(&vOut[i]))
 		c0 := (*[8]E)(unsafe.Pointer(&v[i]))
 
@@ -111,12 +112,17 @@ func (ntt *CyclicTransformer[E]) FwdNTTTo(vOut, v []E) {
 		cOut[7].Set(c0[7])
 	}
 
+	for i := M; i < len(vOut); i++ {
+		vOut[i].Set(v[i])
+	}
+
 	nttInPlace(vOut, ntt.tw)
 }
 
 // InvNTTTo computes vOut = INTT(v).
 func (ntt *CyclicTransformer[E]) InvNTTTo(vOut, v []E) {
-	for i := 0; i < len(vOut); i += 8 {
+	M := (len(vOut) >> 3) << 3
+	for i := 0; i < M; i += 8 {
 		cOut := (*[8]E)(unsafe.Pointer(&vOut[i]))
 		c0 := (*[8]E)(unsafe.Pointer(&v[i]))
 
@@ -131,6 +137,10 @@ func (ntt *CyclicTransformer[E]) InvNTTTo(vOut, v []E) {
 		cOut[7].Set(c0[7])
 	}
 
+	for i := M; i < len(vOut); i++ {
+		vOut[i].Set(v[i])
+	}
+
 	inttInPlace(vOut, ntt.twInv)
 	scalarMulVecTo(vOut, vOut, ntt.rankInv)
 }
@@ -204,7 +214,8 @@ func NewCyclotomicTransformer[E bignum.Uint[E]](rank int) *CyclotomicTransformer
 
 // FwdNTTTo computes vOut = NTT(v).
 func (ntt *CyclotomicTransformer[E]) FwdNTTTo(vOut, v []E) {
-	for i := 0; i < len(vOut); i += 8 {
+	M := (len(vOut) >> 3) << 3
+	for i := 0; i < M; i += 8 {
 		cOut := (*[8]E)(unsafe.Pointer(&vOut[i]))
 		c0 := (*[8]E)(unsafe.Pointer(&v[i]))
 
@@ -219,12 +230,17 @@ func (ntt *CyclotomicTransformer[E]) FwdNTTTo(vOut, v []E) {
 		cOut[7].Set(c0[7])
 	}
 
+	for i := M; i < len(vOut); i++ {
+		vOut[i].Set(v[i])
+	}
+
 	nttInPlace(vOut, ntt.tw)
 }
 
 // InvNTTTo computes vOut = INTT(v).
 func (ntt *CyclotomicTransformer[E]) InvNTTTo(vOut, v []E) {
-	for i := 0; i < len(vOut); i += 8 {
+	M := (len(vOut) >> 3) << 3
+	for i := 0; i < M; i += 8 {
 		cOut := (*[8]E)(unsafe.Pointer(&vOut[i]))
 		c0 := (*[8]E)(unsafe.Pointer(&v[i]))
 
@@ -239,6 +255,10 @@ func (ntt *CyclotomicTransformer[E]) InvNTTTo(vOut, v []E) {
 		cOut[7].Set(c0[7])
 	}
 
+	for i := M; i < len(vOut); i++ {
+		vOut[i].Set(v[i])
+	}
+
 	inttInPlace(vOut, ntt.twInv)
 	scalarMulVecTo(vOut, vOut, ntt.rankInv)
 }
diff --git a/math/bigpoly/poly.go b/math/bigpoly/poly.go
index 8674f9e..af33b8c 100644
--- a/math/bigpoly/poly.go
+++ b/math/bigpoly/poly.go
@@ -42,7 +42,8 @@ func (p *Poly[E]) Marshal() []byte {
 
 // CopyFrom copies p0 to p.
 func (p *Poly[E]) CopyFrom(p0 *Poly[E]) {
-	for i := 0; i < len(p.Coeffs); i += 8 {
+	M := (len(p.Coeffs) >> 3) << 3
+	for i := 0; i < M; i += 8 {
 		cOut := (*[8]E)(unsafe.Pointer(&p.Coeffs[i]))
 		c0 := (*[8]E)(unsafe.Pointer(&p0.Coeffs[i]))
 
@@ -57,6 +58,10 @@ func (p *Poly[E]) CopyFrom(p0 *Poly[E]) {
 		cOut[7].Set(c0[7])
 	}
 
+	for i := M; i < len(p.Coeffs); i++ {
+		p.Coeffs[i].Set(p0.Coeffs[i])
+	}
+
 	p.IsNTT = p0.IsNTT
 }
 
-- 
2.43.0


From 5458c824570d84cd01782e8a92a4dd98bc778373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:17 +0000
Subject: [PATCH 25/30] fix: reject polynomials with more limbs than their ring

---
 jindo/entities.go | 4 ++--
 jindo/verifier.go | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/jindo/entities.go b/jindo/entities.go
index 4c27ac9..4784494 100644
--- a/jindo/entities.go
+++ b/jindo/entities.go
@@ -85,7 +85,7 @@ type Commitment struct {
 func NewCommitment(params Parameters) *Commitment {
 	com := make([]ring.Poly, params.outMSISRank)
 	for i := range com {
-		com[i] = params.ringQ.NewPoly()
+		com[i] = params.ringQOut.NewPoly()
 	}
 
 	return &Commitment{
@@ -165,7 +165,7 @@ func NewProof(params Parameters) *Proof {
 
 	inCom := make([]ring.Poly, params.inComDcmpLen)
 	for i := 0; i < params.inComDcmpLen; i++ {
-		inCom[i] = params.ringQ.NewPoly()
+		inCom[i] = params.ringQOut.NewPoly()
 	}
 
 	return &Proof{
diff --git a/jindo/verifier.go b/jindo/verifier.go
index c368be7..e5b73f5 100644
--- a/jindo/verifier.go
+++ b/jindo/verifier.go
@@ -147,7 +147,7 @@ func (v *Verifier[E]) Verify(x E, com []*Commitment, y []E, pf *Proof) bool {
 func (v *Verifier[E]) isWellFormed(com []*Commitment, y []E, pf *Proof) bool {
 	isPoly := func(ringQ *ring.Ring, p ...ring.Poly) bool {
 		for i := range p {
-			if len(p[i].Coeffs) < ringQ.ModuliChainLength() {
+			if len(p[i].Coeffs) != ringQ.ModuliChainLength() {
 				return false
 			}
 			for j := range p[i].Coeffs {
-- 
2.43.0


From 2758b68d7bfa07d4a85a0fa4e2e1e2c3717f5dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:49 +0000
Subject: [PATCH 26/30] fix: report unexported values in an assignment instead
 of panicking

---
 buckler/compile.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/buckler/compile.go b/buckler/compile.go
index 2be126e..e21e675 100644
--- a/buckler/compile.go
+++ b/buckler/compile.go
@@ -97,6 +97,9 @@ func (w *walker[E]) prvWalk(prv *Prover[E], v reflect.Value, pw []PublicWitness[
 		if w.pwCnt >= prv.ctx.pwCircuitCnt {
 			return errWitnessCount
 		}
+		if !v.CanInterface() {
+			return errReadOnly
+		}
 		pw[w.pwCnt] = v.Interface().(PublicWitness[E])
 		if len(pw[w.pwCnt]) != prv.ctx.rank {
 			return errRankMismatch
@@ -108,6 +111,9 @@ func (w *walker[E]) prvWalk(prv *Prover[E], v reflect.Value, pw []PublicWitness[
 		if w.wCnt >= prv.ctx.wCircuitCnt {
 			return errWitnessCount
 		}
+		if !v.CanInterface() {
+			return errReadOnly
+		}
 		sw[w.wCnt] = v.Interface().(Witness[E])
 		if len(sw[w.wCnt]) != prv.ctx.rank {
 			return errRankMismatch
@@ -147,6 +153,9 @@ func (w *walker[E]) vrfWalk(vrf *Verifier[E], v reflect.Value, pw []PublicWitnes
 		if w.pwCnt >= vrf.ctx.pwCircuitCnt {
 			return errWitnessCount
 		}
+		if !v.CanInterface() {
+			return errReadOnly
+		}
 		pw[w.pwCnt] = v.Interface().(PublicWitness[E])
 		if len(pw[w.pwCnt]) != vrf.ctx.rank {
 			return errRankMismatch
-- 
2.43.0


From e7ecebea0ab0bd2727f56f7adcff53fbc2fc87a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:24 +0000
Subject: [PATCH 27/30] fix: restrict the COSAC candidates by the unrounded
 sample

The candidate is round(y)-1 for y at most 1/2, or round(y)+1 for y at least
-1/2. Comparing the rounded candidate instead let it be zero, which had its
whole probability already, so samples at the centre were twice as likely.
---
 math/csprng/gaussian_cosac.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/math/csprng/gaussian_cosac.go b/math/csprng/gaussian_cosac.go
index ea64185..62ab3fe 100644
--- a/math/csprng/gaussian_cosac.go
+++ b/math/csprng/gaussian_cosac.go
@@ -29,10 +29,10 @@ func (s *COSACSampler) sampleRound(cFrac, stdDev float64) int64 {
 		var cmp bool
 		if b == 0 {
 			yRound = math.Round(y) - 1
-			cmp = yRound <= 0.5
+			cmp = y <= 0.5
 		} else {
 			yRound = math.Round(y) + 1
-			cmp = yRound >= -0.5
+			cmp = y >= -0.5
 		}
 
 		if cmp {
-- 
2.43.0


From 714b0e7f68519ed34a4502fd1c8019012176d6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:32 +0000
Subject: [PATCH 28/30] fix: sample around centres that are just below an
 integer

The fractional part of such a centre rounds to 1, for which the table of the
integer below was used, so that samples were off by one.
---
 math/csprng/gaussian_twin_cdt.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/math/csprng/gaussian_twin_cdt.go b/math/csprng/gaussian_twin_cdt.go
index 976da24..e7ca72d 100644
--- a/math/csprng/gaussian_twin_cdt.go
+++ b/math/csprng/gaussian_twin_cdt.go
@@ -77,6 +77,11 @@ func (s *TwinCDTGaussianSampler) StdDev() float64 {
 func (s *TwinCDTGaussianSampler) Sample(center float64) int64 {
 	cFloor := math.Floor(center)
 	cFrac := center - cFloor
+	if cFrac == 1 {
+		// center is so slightly below an integer that it was rounded up.
+		cFloor += 1
+		cFrac = 0
+	}
 
 	c0 := int64(math.Floor(blockSize*cFrac)) % blockSize
 	c1 := int64(math.Ceil(blockSize*cFrac)) % blockSize
-- 
2.43.0


From 094545c4613913989c8e264735efb41725c452b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:43 +0000
Subject: [PATCH 29/30] fix: Vector.WriteTo reports the bytes of a partly
 written header

The header went through binary.Write, so a writer that failed after some of its
four bytes made WriteTo return 0 instead of the number of bytes written.
---
 buckler/internal/zp110/vector.go | 10 ++++++----
 buckler/internal/zp220/vector.go | 10 ++++++----
 buckler/internal/zp440/vector.go | 10 ++++++----
 buckler/internal/zp880/vector.go | 10 ++++++----
 jindo/internal/zp/vector.go      | 10 ++++++----
 5 files changed, 30 insertions(+), 20 deletions(-)

diff --git a/buckler/internal/zp110/vector.go b/buckler/internal/zp110/vector.go
index 2fdcfa0..0239370 100644
--- a/buckler/internal/zp110/vector.go
+++ b/buckler/internal/zp110/vector.go
@@ -52,12 +52,14 @@ func (vector *Vector) UnmarshalBinary(data []byte) error {
 // Length of the vector is encoded as a uint32 on the first 4 bytes.
 func (vector *Vector) WriteTo(w io.Writer) (int64, error) {
 	// encode slice length
-	if err := binary.Write(w, binary.BigEndian, uint32(len(*vector))); err != nil {
-		return 0, err
+	var header [4]byte
+	binary.BigEndian.PutUint32(header[:], uint32(len(*vector)))
+	m, err := w.Write(header[:])
+	n := int64(m)
+	if err != nil {
+		return n, err
 	}
 
-	n := int64(4)
-
 	var buf [Bytes]byte
 	for i := 0; i < len(*vector); i++ {
 		BigEndian.PutElement(&buf, (*vector)[i])
diff --git a/buckler/internal/zp220/vector.go b/buckler/internal/zp220/vector.go
index c390e63..068c07a 100644
--- a/buckler/internal/zp220/vector.go
+++ b/buckler/internal/zp220/vector.go
@@ -52,12 +52,14 @@ func (vector *Vector) UnmarshalBinary(data []byte) error {
 // Length of the vector is encoded as a uint32 on the first 4 bytes.
 func (vector *Vector) WriteTo(w io.Writer) (int64, error) {
 	// encode slice length
-	if err := binary.Write(w, binary.BigEndian, uint32(len(*vector))); err != nil {
-		return 0, err
+	var header [4]byte
+	binary.BigEndian.PutUint32(header[:], uint32(len(*vector)))
+	m, err := w.Write(header[:])
+	n := int64(m)
+	if err != nil {
+		return n, err
 	}
 
-	n := int64(4)
-
 	var buf [Bytes]byte
 	for i := 0; i < len(*vector); i++ {
 		BigEndian.PutElement(&buf, (*vector)[i])
diff --git a/buckler/internal/zp440/vector.go b/buckler/internal/zp440/vector.go
index a44940a..5139b97 100644
--- a/buckler/internal/zp440/vector.go
+++ b/buckler/internal/zp440/vector.go
@@ -52,12 +52,14 @@ func (vector *Vector) UnmarshalBinary(data []byte) error {
 // Length of the vector is encoded as a uint32 on the first 4 bytes.
 func (vector *Vector) WriteTo(w io.Writer) (int64, error) {
 	// encode slice length
-	if err := binary.Write(w, binary.BigEndian, uint32(len(*vector))); err != nil {
-		return 0, err
+	var header [4]byte
+	binary.BigEndian.PutUint32(header[:], uint32(len(*vector)))
+	m, err := w.Write(header[:])
+	n := int64(m)
+	if err != nil {
+		return n, err
 	}
 
-	n := int64(4)
-
 	var buf [Bytes]byte
 	for i := 0; i < len(*vector); i++ {
 		BigEndian.PutElement(&buf, (*vector)[i])
diff --git a/buckler/internal/zp880/vector.go b/buckler/internal/zp880/vector.go
index 812ae7c..73e6724 100644
--- a/buckler/internal/zp880/vector.go
+++ b/buckler/internal/zp880/vector.go
@@ -52,12 +52,14 @@ func (vector *Vector) UnmarshalBinary(data []byte) error {
 // Length of the vector is encoded as a uint32 on the first 4 bytes.
 func (vector *Vector) WriteTo(w io.Writer) (int64, error) {
 	// encode slice length
-	if err := binary.Write(w, binary.BigEndian, uint32(len(*vector))); err != nil {
-		return 0, err
+	var header [4]byte
+	binary.BigEndian.PutUint32(header[:], uint32(len(*vector)))
+	m, err := w.Write(header[:])
+	n := int64(m)
+	if err != nil {
+		return n, err
 	}
 
-	n := int64(4)
-
 	var buf [Bytes]byte
 	for i := 0; i < len(*vector); i++ {
 		BigEndian.PutElement(&buf, (*vector)[i])
diff --git a/jindo/internal/zp/vector.go b/jindo/internal/zp/vector.go
index 7896127..05570e6 100644
--- a/jindo/internal/zp/vector.go
+++ b/jindo/internal/zp/vector.go
@@ -52,12 +52,14 @@ func (vector *Vector) UnmarshalBinary(data []byte) error {
 // Length of the vector is encoded as a uint32 on the first 4 bytes.
 func (vector *Vector) WriteTo(w io.Writer) (int64, error) {
 	// encode slice length
-	if err := binary.Write(w, binary.BigEndian, uint32(len(*vector))); err != nil {
-		return 0, err
+	var header [4]byte
+	binary.BigEndian.PutUint32(header[:], uint32(len(*vector)))
+	m, err := w.Write(header[:])
+	n := int64(m)
+	if err != nil {
+		return n, err
 	}
 
-	n := int64(4)
-
 	var buf [Bytes]byte
 	for i := 0; i < len(*vector); i++ {
 		BigEndian.PutElement(&buf, (*vector)[i])
-- 
2.43.0


From f3c6bbe0a48565085029b74b7b89adef47fdad65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:22 +0000
Subject: [PATCH 30/30] fix: end the search for a modulus at the largest base
 of an exponent

A range of lengths whose lower end allows bases up to 2^25 and whose upper end
allows larger ones made findModulus walk through all of the larger bases, each
of which it then dropped: jindo-modulus -n 51-80 did not return.
---
 jindo-modulus/main.go | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/jindo-modulus/main.go b/jindo-modulus/main.go
index c188ea0..3bf2290 100644
--- a/jindo-modulus/main.go
+++ b/jindo-modulus/main.go
@@ -38,11 +38,7 @@ func findModulus(bitStart, bitEnd int) (p *big.Int, b uint64, k uint64) {
 
 		bStart := uint64(math.Floor(math.Exp2((float64(bitStart) - 1) / float64(k))))
 		bEnd := uint64(math.Ceil(math.Exp2(float64(bitEnd) / float64(k))))
-		if bStart > baseBound {
-			continue
-		}
-
-		for b := bStart; b <= min(math.MaxUint64, bEnd); b++ {
+		for b := bStart; b <= min(baseBound, bEnd); b++ {
 			bBig := big.NewInt(int64(b))
 			bExpBig := new(big.Int).Exp(bBig, kBig, nil)
 			p.Add(bExpBig, big.NewInt(1))
@@ -59,10 +55,6 @@ func findModulus(bitStart, bitEnd int) (p *big.Int, b uint64, k uint64) {
 				continue
 			}
 
-			if b > baseBound {
-				continue
-			}
-
 			return p, b, k
 		}
 	}
-- 
2.43.0

