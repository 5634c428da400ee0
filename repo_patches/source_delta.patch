From ab4958bfa0880dbf7ecb3ddf08c647a6062a213e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:56 +0000
Subject: [PATCH 01/74] fix: subtraction no longer negates stored constants in
 place

---
 circuitcompiler/factorHandling.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/circuitcompiler/factorHandling.go b/circuitcompiler/factorHandling.go
index a8f0caa..98f1b45 100644
--- a/circuitcompiler/factorHandling.go
+++ b/circuitcompiler/factorHandling.go
@@ -239,7 +239,8 @@ func addFactors(leftFactors, rightFactors factors) factors {
 func negateFactors(leftFactors factors) factors {
 	for i := range leftFactors {
 		//leftFactors[i].multiplicative = field.Neg(leftFactors[i].multiplicative)
-		leftFactors[i].multiplicative = leftFactors[i].multiplicative.Neg(leftFactors[i].multiplicative)
+		//the big.Int may be shared with a stored variable or a constant, so it must not be negated in place
+		leftFactors[i].multiplicative = new(big.Int).Neg(leftFactors[i].multiplicative)
 		if leftFactors[i].typ.Type == NumberToken {
 			leftFactors[i].typ.Identifier = leftFactors[i].multiplicative.String()
 		}
-- 
2.43.0


From 7d8d55f30c06b0a9550d2e3fecf1e520328d9e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:04 +0000
Subject: [PATCH 02/74] fix: gates of different types over the same operands no
 longer share an id

---
 circuitcompiler/gate.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/circuitcompiler/gate.go b/circuitcompiler/gate.go
index 32c858d..3786a91 100644
--- a/circuitcompiler/gate.go
+++ b/circuitcompiler/gate.go
@@ -1,6 +1,7 @@
 package circuitcompiler
 
 import (
+	"crypto/sha256"
 	"fmt"
 	"math/big"
 	"sort"
@@ -54,7 +55,10 @@ func (gate *Gate) setAndGetID() (id string) {
 	sort.Sort(gate.expoIns)
 	sort.Sort(gate.outIns)
 	eo := hashFactorsToBig(append(gate.expoIns, gate.outIns...))
-	gate.identifier = new(big.Int).Xor(lr, eo).String()[:16]
+	//gates of different types over the same operands impose different constraints, so they must not share an id
+	typ := sha256.Sum256([]byte{byte(gate.gateType)})
+	lr.Xor(lr, eo)
+	gate.identifier = lr.Xor(lr, new(big.Int).SetBytes(typ[:])).String()[:16]
 	return gate.identifier
 }
 func (gate *Gate) minimizeR1CSDescriptiveComplexity() {
-- 
2.43.0


From 687dace6720f34eadb66127dc707185c9567bafb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:05 +0000
Subject: [PATCH 03/74] fix: addGateConstraint extracts the common factor of
 the sum, not of each summand

---
 circuitcompiler/Programm.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/circuitcompiler/Programm.go b/circuitcompiler/Programm.go
index 202117e..df0977f 100644
--- a/circuitcompiler/Programm.go
+++ b/circuitcompiler/Programm.go
@@ -431,11 +431,11 @@ func (currentCircuit *function) compile(currentConstraint *Constraint, gateColle
 			rightClone := currentConstraint.Inputs[1].clone()
 			leftFactors, _, _ := currentCircuit.compile(leftClone, gateCollector)
 			rightFactors, _, _ := currentCircuit.compile(rightClone, gateCollector)
-			commonExtracted, extractedLeft, extractedRight := extractConstant(leftFactors, rightFactors)
+			commonExtracted, extractedSum := factorSignature(addFactors(leftFactors, rightFactors))
 
 			rootGate := &Gate{
 				gateType: additionGate,
-				leftIns:  addFactors(extractedLeft, extractedRight),
+				leftIns:  extractedSum,
 			}
 
 			nTok := Token{
-- 
2.43.0


From eaa83ebedc79b27899feac41ca574ecffcf679a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:05 +0000
Subject: [PATCH 04/74] fix: extracting the common factor of an all zero sum no
 longer divides by zero

---
 circuitcompiler/factorHandling.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/circuitcompiler/factorHandling.go b/circuitcompiler/factorHandling.go
index 98f1b45..2879744 100644
--- a/circuitcompiler/factorHandling.go
+++ b/circuitcompiler/factorHandling.go
@@ -61,6 +61,10 @@ func extractGCD(f factors) (factors, *big.Int) {
 	for i := 1; i < len(f); i++ {
 		gcd = new(big.Int).GCD(nil, nil, f[i].multiplicative, gcd)
 	}
+	if gcd.Sign() == 0 {
+		//all factors are zero, there is nothing to extract
+		return f, bigOne
+	}
 	for i := 0; i < len(f); i++ {
 		f[i].multiplicative = new(big.Int).Div(f[i].multiplicative, gcd)
 
-- 
2.43.0


From 066e394800e50c5d39dd2501509d565e4f1531e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:06 +0000
Subject: [PATCH 05/74] fix: only the first satisfied branch of an if-else
 chain is executed

---
 circuitcompiler/Programm.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/circuitcompiler/Programm.go b/circuitcompiler/Programm.go
index df0977f..2e66bb5 100644
--- a/circuitcompiler/Programm.go
+++ b/circuitcompiler/Programm.go
@@ -198,6 +198,18 @@ func (p *Program) Execute() (orderedmGates []*Gate) {
 func (currentCircuit *function) execute(gateCollector *gateContainer) (facs factors, returned bool, preloadedFunction function) {
 
 	for _, task := range currentCircuit.taskStack.data {
+		if task.Output.Type == IF {
+			//the tasks of an if-else chain are its branches. only the first one whose condition holds gets executed
+			if len(task.Inputs) > 0 && !currentCircuit.checkStaticCondition(task.Inputs[0]) {
+				continue
+			}
+			return currentCircuit.compile(&Constraint{
+				Output: Token{
+					Type:       IF_FUNCTION_CALL,
+					Identifier: task.Output.Identifier,
+				},
+			}, gateCollector)
+		}
 		f, returs, fkt := currentCircuit.compile(task, gateCollector)
 		if returs {
 			return f, true, fkt
-- 
2.43.0


From f847978e927552d14811beb24971e6997d199fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:06 +0000
Subject: [PATCH 06/74] fix: an if nested in another if ends its own chain, not
 the enclosing one

---
 circuitcompiler/circuit.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/circuitcompiler/circuit.go b/circuitcompiler/circuit.go
index b64bbd5..1722fd2 100644
--- a/circuitcompiler/circuit.go
+++ b/circuitcompiler/circuit.go
@@ -488,9 +488,16 @@ func (from Token) primitiveReturnfunction() (gives *function) {
 
 func splitAtIfEnd(cs []*Constraint) (inside, outside []*Constraint) {
 
+	depth := 0
 	for i, v := range cs {
+		if v.Output.Type == IF {
+			depth++
+		}
 		if v.Output.Type == IF_ELSE_CHAIN_END {
-			return cs[:i], cs[i:]
+			depth--
+			if depth == 0 {
+				return cs[:i], cs[i:]
+			}
 		}
 	}
 	panic("unexpected reach")
-- 
2.43.0


From 5a3ab8089bf9e441b56d0c903a87e190a3bbe0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:07 +0000
Subject: [PATCH 07/74] fix: a return inside a loop body leaves the surrounding
 function

---
 circuitcompiler/Programm.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/circuitcompiler/Programm.go b/circuitcompiler/Programm.go
index 2e66bb5..612ec97 100644
--- a/circuitcompiler/Programm.go
+++ b/circuitcompiler/Programm.go
@@ -259,13 +259,11 @@ func (currentCircuit *function) compile(currentConstraint *Constraint, gateColle
 	case FOR:
 		//we check the condition each time we rerun the loop
 		for currentCircuit.checkStaticCondition(currentConstraint.Inputs[0]) {
-			content := &Constraint{
-				Output: Token{
-					Type:       FUNCTION_CALL,
-					Identifier: currentConstraint.Output.Identifier,
-				},
+			body, ex := currentCircuit.findFunctionInBloodline(currentConstraint.Output.Identifier)
+			if !ex {
+				panic(fmt.Sprintf("loop body %s not declared", currentConstraint.Output.Identifier))
 			}
-			f, retu, fkt := currentCircuit.compile(content, gateCollector)
+			f, retu, fkt := body.flatCopy().execute(gateCollector)
 			if retu {
 				return f, true, fkt
 			}
-- 
2.43.0


From cfff69ffab6bc4039c5302d7734b910106c54f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:07 +0000
Subject: [PATCH 08/74] fix: sparse QAP polynomials are interpolated over the
 gates

---
 circuitcompiler/ER1CS.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/circuitcompiler/ER1CS.go b/circuitcompiler/ER1CS.go
index 6f8bc28..8e38680 100644
--- a/circuitcompiler/ER1CS.go
+++ b/circuitcompiler/ER1CS.go
@@ -127,13 +127,13 @@ func (er1cs *ER1CSsPARSETransposed) ER1CSToEAPSparse() (lPoly, rPoly, ePoly, oPo
 	eT := er1cs.E
 	oT := er1cs.O
 	for i := 0; i < len(lT); i++ {
-		lPoly = append(lPoly, utils.Field.ArithmeticField.InterpolateSparseArray(lT[i], er1cs.WitnessLength))
+		lPoly = append(lPoly, utils.Field.ArithmeticField.InterpolateSparseArray(lT[i], er1cs.NumberOfGates))
 
-		rPoly = append(rPoly, utils.Field.ArithmeticField.InterpolateSparseArray(rT[i], er1cs.WitnessLength))
+		rPoly = append(rPoly, utils.Field.ArithmeticField.InterpolateSparseArray(rT[i], er1cs.NumberOfGates))
 
-		ePoly = append(ePoly, utils.Field.ArithmeticField.InterpolateSparseArray(eT[i], er1cs.WitnessLength))
+		ePoly = append(ePoly, utils.Field.ArithmeticField.InterpolateSparseArray(eT[i], er1cs.NumberOfGates))
 
-		oPoly = append(oPoly, utils.Field.ArithmeticField.InterpolateSparseArray(oT[i], er1cs.WitnessLength))
+		oPoly = append(oPoly, utils.Field.ArithmeticField.InterpolateSparseArray(oT[i], er1cs.NumberOfGates))
 	}
 	return
 }
-- 
2.43.0


From c90ed13638a73f0fd727121c2ba73850f0c1ef5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:07 +0000
Subject: [PATCH 09/74] fix: sparse scalar product is reduced

---
 utils/sparsePolynomial.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/sparsePolynomial.go b/utils/sparsePolynomial.go
index 6fe136f..0d574f6 100644
--- a/utils/sparsePolynomial.go
+++ b/utils/sparsePolynomial.go
@@ -181,7 +181,7 @@ func (f Fq) InterpolateSparseArray(dataArray *AvlTree, degree int) (polynom *Avl
 func (f Fq) SparseScalarProduct(a *AvlTree, b []*big.Int) (res *big.Int) {
 	res = big.NewInt(0)
 	for v := range a.ChannelNodes(true) {
-		res = res.Add(res, f.Mul(v.Value, b[v.Key]))
+		res = f.Add(res, f.Mul(v.Value, b[v.Key]))
 	}
 	return
 }
-- 
2.43.0


From b48e6f197fc652faf095cbdfcb6af300975235e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:08 +0000
Subject: [PATCH 10/74] fix: doubling a point in place

---
 pairing/curve.go | 8 +++++---
 pairing/twist.go | 6 ++++--
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/pairing/curve.go b/pairing/curve.go
index 819cb81..2bea021 100644
--- a/pairing/curve.go
+++ b/pairing/curve.go
@@ -199,6 +199,9 @@ func (c *curvePoint) Double(a *curvePoint, pool *bnPool) {
 	e := pool.Get().Add(t, A)
 	f := pool.Get().Mul(e, e)
 	f.Mod(f, P)
+	//c may be the same point as a, so a has to be read before c is written
+	yz := pool.Get().Mul(a.y, a.z)
+	yz.Mod(yz, P)
 
 	t.Add(d, d)
 	c.x.Sub(f, t)
@@ -211,10 +214,9 @@ func (c *curvePoint) Double(a *curvePoint, pool *bnPool) {
 	t2.Mod(t2, P)
 	c.y.Sub(t2, t)
 
-	t.Mul(a.y, a.z)
-	t.Mod(t, P)
-	c.z.Add(t, t)
+	c.z.Add(yz, yz)
 
+	pool.Put(yz)
 	pool.Put(A)
 	pool.Put(B)
 	pool.Put(C_)
diff --git a/pairing/twist.go b/pairing/twist.go
index 43364ff..16ea8ba 100644
--- a/pairing/twist.go
+++ b/pairing/twist.go
@@ -181,6 +181,8 @@ func (c *twistPoint) Double(a *twistPoint, pool *bnPool) {
 	t.Add(A, A)
 	e := newGFp2(pool).Add(t, A)
 	f := newGFp2(pool).Square(e, pool)
+	//c may be the same point as a, so a has to be read before c is written
+	yz := newGFp2(pool).Mul(a.y, a.z, pool)
 
 	t.Add(d, d)
 	c.x.Sub(f, t)
@@ -192,9 +194,9 @@ func (c *twistPoint) Double(a *twistPoint, pool *bnPool) {
 	t2.Mul(e, c.y, pool)
 	c.y.Sub(t2, t)
 
-	t.Mul(a.y, a.z, pool)
-	c.z.Add(t, t)
+	c.z.Add(yz, yz)
 
+	yz.Put(pool)
 	A.Put(pool)
 	B.Put(pool)
 	C_.Put(pool)
-- 
2.43.0


From f5ffa556cfd11a8beda8c1a13762d57d439bebd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:59 +0000
Subject: [PATCH 11/74] fix: dense polynomial division by a divisor of higher
 degree or with leading zeros

---
 utils/polynomialField.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/utils/polynomialField.go b/utils/polynomialField.go
index b7dd86d..385fec0 100644
--- a/utils/polynomialField.go
+++ b/utils/polynomialField.go
@@ -94,6 +94,16 @@ func (pf PolynomialField) MulSimple(a, b []*big.Int) []*big.Int {
 // Div divides two polinomials over the Finite Field, returning the result and the remainder
 func (pf PolynomialField) Div(a, b []*big.Int) ([]*big.Int, []*big.Int) {
 	// https://en.wikipedia.org/wiki/Division_algorithm
+	//leading zero coefficients do not contribute to the degree of the divisor
+	for len(b) > 0 && pf.F.IsZero(pf.F.Copy(b[len(b)-1])) {
+		b = b[:len(b)-1]
+	}
+	if len(b) == 0 {
+		panic("division by the zero polynomial")
+	}
+	if len(a) < len(b) {
+		return ArrayOfBigZeros(1), a
+	}
 	r := ArrayOfBigZeros(len(a) - len(b) + 1)
 	rem := a
 	for len(rem) >= len(b) {
-- 
2.43.0


From 758cf2c01cc5a4acb02393a6eb93b3ecd0ad183f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:59 +0000
Subject: [PATCH 12/74] fix: sparse polynomial division by a constant
 terminates

---
 utils/sparsePolynomial.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/utils/sparsePolynomial.go b/utils/sparsePolynomial.go
index 0d574f6..88e4438 100644
--- a/utils/sparsePolynomial.go
+++ b/utils/sparsePolynomial.go
@@ -36,8 +36,11 @@ type Entry struct {
 func (fq Fq) DivideSparse(a, b *AvlTree) (result, rem *AvlTree) {
 	result = NewAvlTree()
 	rem = a.Clone()
+	if b.Size() == 0 {
+		panic("division by the zero polynomial")
+	}
 	maxA, maxB := rem.MaxNode(), b.MaxNode()
-	for ; maxA != nil && maxB != nil && maxA.Key() >= maxB.Key(); maxA = rem.MaxNode() {
+	for ; rem.Size() > 0 && maxA.Key() >= maxB.Key(); maxA = rem.MaxNode() {
 		l := fq.Div(maxA.Value(), maxB.Value())
 		pos := maxA.Key() - maxB.Key()
 		aux := NewAvlTree()
-- 
2.43.0


From de6e91329523f2da42a4e2d3ef0be65844f3143d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:59 +0000
Subject: [PATCH 13/74] fix: scaling a sparse polynomial no longer changes the
 tree while it is traversed

---
 utils/sparsePolynomial.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/utils/sparsePolynomial.go b/utils/sparsePolynomial.go
index 88e4438..986d052 100644
--- a/utils/sparsePolynomial.go
+++ b/utils/sparsePolynomial.go
@@ -20,11 +20,12 @@ func (fq Fq) MulSparse(a, b *AvlTree) *AvlTree {
 
 // Mul multiplies a sparse polynomail with a scalar over the Finite Field
 func (fq Fq) MulSparseScalar(a *AvlTree, scalar *big.Int) *AvlTree {
-	a = a.Clone()
+	//the tree must not be changed while it is traversed
+	r := NewAvlTree()
 	for L := range a.ChannelNodes(true) {
-		a.Put(L.Key, scalar, fq.Mul)
+		r.Put(L.Key, fq.Mul(L.Value, scalar), fq.Add)
 	}
-	return a
+	return r
 }
 
 type Entry struct {
@@ -190,7 +191,8 @@ func (f Fq) SparseScalarProduct(a *AvlTree, b []*big.Int) (res *big.Int) {
 }
 
 func (f Fq) Combine(a *AvlTree, w []*big.Int) (scaledPolynomial *AvlTree) {
-	for v := range a.ChannelNodes(true) {
+	//the tree must not be changed while it is traversed
+	for _, v := range a.DecendingNodes() {
 		a.Put(v.Key, w[v.Key], f.Mul)
 	}
 	return a
-- 
2.43.0


From 7576befdc882abfb5e5cc22db08ae3873d279db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:00 +0000
Subject: [PATCH 14/74] fix: the shared caches of interpolation bases are
 guarded against concurrent use

---
 utils/finiteField.go      | 4 ++++
 utils/polynomialField.go  | 7 ++++++-
 utils/sparsePolynomial.go | 7 ++++++-
 3 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/utils/finiteField.go b/utils/finiteField.go
index 67bb2ae..8678b76 100644
--- a/utils/finiteField.go
+++ b/utils/finiteField.go
@@ -5,6 +5,7 @@ import (
 	"crypto/rand"
 	bn256 "github.com/mottla/go-AlgebraicProgram-SNARK/pairing"
 	"math/big"
+	"sync"
 )
 
 type Fields struct {
@@ -38,6 +39,8 @@ type Fq struct {
 	Q            *big.Int // Q
 	bases        map[baseLengthPair]*AvlTree
 	basesClassic map[baseLengthPair][]*big.Int
+	//guards the two caches, which are shared by all copies of the field
+	basesLock *sync.RWMutex
 }
 
 // NewFq generates a new Fq
@@ -46,6 +49,7 @@ func NewFq(q *big.Int) Fq {
 		q,
 		make(map[baseLengthPair]*AvlTree),
 		make(map[baseLengthPair][]*big.Int),
+		new(sync.RWMutex),
 	}
 }
 
diff --git a/utils/polynomialField.go b/utils/polynomialField.go
index 385fec0..7fc69c2 100644
--- a/utils/polynomialField.go
+++ b/utils/polynomialField.go
@@ -209,7 +209,10 @@ func (pf PolynomialField) LagrangeInterpolation(datapoints []*big.Int) (polynom
 
 	var base = func(pointPos, totalPoints int) (r []*big.Int) {
 
-		if v, ex := pf.F.basesClassic[baseLengthPair{baseIndex: pointPos, Length: totalPoints}]; ex {
+		pf.F.basesLock.RLock()
+		v, ex := pf.F.basesClassic[baseLengthPair{baseIndex: pointPos, Length: totalPoints}]
+		pf.F.basesLock.RUnlock()
+		if ex {
 			return v
 		}
 		facBig := big.NewInt(1)
@@ -229,7 +232,9 @@ func (pf PolynomialField) LagrangeInterpolation(datapoints []*big.Int) (polynom
 			}
 		}
 		r = pf.MulScalar(r, hf)
+		pf.F.basesLock.Lock()
 		pf.F.basesClassic[baseLengthPair{baseIndex: pointPos, Length: totalPoints}] = r
+		pf.F.basesLock.Unlock()
 		return r
 	}
 	//if IsZeroArray(datapoints){
diff --git a/utils/sparsePolynomial.go b/utils/sparsePolynomial.go
index 986d052..7cc3d69 100644
--- a/utils/sparsePolynomial.go
+++ b/utils/sparsePolynomial.go
@@ -139,7 +139,10 @@ func (f Fq) InterpolateSparseArray(dataArray *AvlTree, degree int) (polynom *Avl
 	}
 	var base = func(pointPos, totalPoints int) (r *AvlTree) {
 
-		if v, ex := f.bases[baseLengthPair{baseIndex: pointPos, Length: totalPoints}]; ex {
+		f.basesLock.RLock()
+		v, ex := f.bases[baseLengthPair{baseIndex: pointPos, Length: totalPoints}]
+		f.basesLock.RUnlock()
+		if ex {
 			return v
 		}
 		//r = NewAvlTree()
@@ -160,7 +163,9 @@ func (f Fq) InterpolateSparseArray(dataArray *AvlTree, degree int) (polynom *Avl
 		}
 		hf := f.Inverse(facBig)
 		r = f.MulSparseScalar(r, hf)
+		f.basesLock.Lock()
 		f.bases[baseLengthPair{baseIndex: pointPos, Length: totalPoints}] = r
+		f.basesLock.Unlock()
 		return r
 	}
 	//if  IsZeroArray(dataArray.ToArray(degree)){
-- 
2.43.0


From 8e244088a6fcebb7d2450ee34092c7a07a452197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:20 +0000
Subject: [PATCH 15/74] fix: reading a group element no longer changes its
 representation

---
 pairing/bn256.go | 60 +++++++++++++++++++++++++++++-------------------
 pairing/curve.go |  7 ++++--
 2 files changed, 41 insertions(+), 26 deletions(-)

diff --git a/pairing/bn256.go b/pairing/bn256.go
index 5e745d4..792db91 100644
--- a/pairing/bn256.go
+++ b/pairing/bn256.go
@@ -109,8 +109,11 @@ func (e *G1) X() *big.Int {
 	if e.p.IsInfinity() {
 		return new(big.Int)
 	}
-	e.p.MakeAffine(nil)
-	return new(big.Int).Mod(e.p.x, P)
+	//the point may be shared, so reading it must not change its representation
+	p := newCurvePoint(nil)
+	p.Set(e.p)
+	p.MakeAffine(nil)
+	return new(big.Int).Mod(p.x, P)
 }
 
 // Marshal converts n to a byte slice.
@@ -122,10 +125,13 @@ func (e *G1) Marshal() []byte {
 		return make([]byte, numBytes*2)
 	}
 
-	e.p.MakeAffine(nil)
+	//the point may be shared, so reading it must not change its representation
+	p := newCurvePoint(nil)
+	p.Set(e.p)
+	p.MakeAffine(nil)
 
-	xBytes := new(big.Int).Mod(e.p.x, P).Bytes()
-	yBytes := new(big.Int).Mod(e.p.y, P).Bytes()
+	xBytes := new(big.Int).Mod(p.x, P).Bytes()
+	yBytes := new(big.Int).Mod(p.y, P).Bytes()
 
 	ret := make([]byte, numBytes*2)
 	copy(ret[1*numBytes-len(xBytes):], xBytes)
@@ -243,12 +249,15 @@ func (n *G2) Marshal() []byte {
 		return make([]byte, numBytes*4)
 	}
 
-	n.p.MakeAffine(nil)
+	//the point may be shared, so reading it must not change its representation
+	p := newTwistPoint(nil)
+	p.Set(n.p)
+	p.MakeAffine(nil)
 
-	xxBytes := new(big.Int).Mod(n.p.x.x, P).Bytes()
-	xyBytes := new(big.Int).Mod(n.p.x.y, P).Bytes()
-	yxBytes := new(big.Int).Mod(n.p.y.x, P).Bytes()
-	yyBytes := new(big.Int).Mod(n.p.y.y, P).Bytes()
+	xxBytes := new(big.Int).Mod(p.x.x, P).Bytes()
+	xyBytes := new(big.Int).Mod(p.x.y, P).Bytes()
+	yxBytes := new(big.Int).Mod(p.y.x, P).Bytes()
+	yyBytes := new(big.Int).Mod(p.y.y, P).Bytes()
 
 	ret := make([]byte, numBytes*4)
 	copy(ret[1*numBytes-len(xxBytes):], xxBytes)
@@ -346,20 +355,23 @@ func (e *GT) Neg(a *GT) *GT {
 
 // Marshal converts n into a byte slice.
 func (n *GT) Marshal() []byte {
-	n.p.Minimal()
-
-	xxxBytes := n.p.x.x.x.Bytes()
-	xxyBytes := n.p.x.x.y.Bytes()
-	xyxBytes := n.p.x.y.x.Bytes()
-	xyyBytes := n.p.x.y.y.Bytes()
-	xzxBytes := n.p.x.z.x.Bytes()
-	xzyBytes := n.p.x.z.y.Bytes()
-	yxxBytes := n.p.y.x.x.Bytes()
-	yxyBytes := n.p.y.x.y.Bytes()
-	yyxBytes := n.p.y.y.x.Bytes()
-	yyyBytes := n.p.y.y.y.Bytes()
-	yzxBytes := n.p.y.z.x.Bytes()
-	yzyBytes := n.p.y.z.y.Bytes()
+	//the element may be shared, so reading it must not change its representation
+	p := newGFp12(nil)
+	p.Set(n.p)
+	p.Minimal()
+
+	xxxBytes := p.x.x.x.Bytes()
+	xxyBytes := p.x.x.y.Bytes()
+	xyxBytes := p.x.y.x.Bytes()
+	xyyBytes := p.x.y.y.Bytes()
+	xzxBytes := p.x.z.x.Bytes()
+	xzyBytes := p.x.z.y.Bytes()
+	yxxBytes := p.y.x.x.Bytes()
+	yxyBytes := p.y.x.y.Bytes()
+	yyxBytes := p.y.y.x.Bytes()
+	yyyBytes := p.y.y.y.Bytes()
+	yzxBytes := p.y.z.x.Bytes()
+	yzyBytes := p.y.z.y.Bytes()
 
 	// Each value is a 256-bit number.
 	const numBytes = 256 / 8
diff --git a/pairing/curve.go b/pairing/curve.go
index 2bea021..91baf41 100644
--- a/pairing/curve.go
+++ b/pairing/curve.go
@@ -35,8 +35,11 @@ func newCurvePoint(pool *bnPool) *curvePoint {
 }
 
 func (c *curvePoint) String() string {
-	c.MakeAffine(new(bnPool))
-	return "(" + c.x.String() + ", " + c.y.String() + ")"
+	//the point may be shared, so reading it must not change its representation
+	p := newCurvePoint(nil)
+	p.Set(c)
+	p.MakeAffine(nil)
+	return "(" + p.x.String() + ", " + p.y.String() + ")"
 }
 
 func (c *curvePoint) Put(pool *bnPool) {
-- 
2.43.0


From f665c8859fdbb9ff88277dd9ac730c94b03264d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:21 +0000
Subject: [PATCH 16/74] fix: the lexer terminates on trailing blanks, open
 quotes and unknown characters

---
 circuitcompiler/lexer.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/circuitcompiler/lexer.go b/circuitcompiler/lexer.go
index 72bff75..cb26b09 100644
--- a/circuitcompiler/lexer.go
+++ b/circuitcompiler/lexer.go
@@ -395,6 +395,9 @@ func readCommentLine(l *Lexer) {
 func IdentState(l *Lexer) StateFunc {
 	peek := l.Peek()
 
+	if peek == EOFRune {
+		return nil
+	}
 	if isDigit(peek) {
 		return NumberState
 	}
@@ -408,7 +411,10 @@ func IdentState(l *Lexer) StateFunc {
 		l.Next()
 		l.Ignore()
 		for l.Peek() != '"' { // we read everything inside " ", used for import
-			l.Next()
+			if l.Next() == EOFRune {
+				l.Error("closing \" missing")
+				return nil
+			}
 		}
 		l.Emit(IDENTIFIER_VARIABLE)
 		l.Next()
@@ -438,6 +444,10 @@ func IdentState(l *Lexer) StateFunc {
 
 	//read the next word and push it on stack
 	readIdent(l)
+	if l.start == l.position {
+		l.Error(fmt.Sprintf("unexpected character %q", peek))
+		return nil
+	}
 
 	if val, ex := keyWordMap[l.Current()]; ex {
 		l.Emit(val)
-- 
2.43.0


From 72b5ae29114c325dcb6599a63b964acb06535c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:21 +0000
Subject: [PATCH 17/74] fix: a syntax error is raised in the caller of Parse
 instead of killing the process

---
 circuitcompiler/lexer.go  | 10 +++++++++-
 circuitcompiler/parser.go | 19 ++++++++++++++++++-
 2 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/circuitcompiler/lexer.go b/circuitcompiler/lexer.go
index cb26b09..c674e25 100644
--- a/circuitcompiler/lexer.go
+++ b/circuitcompiler/lexer.go
@@ -193,6 +193,7 @@ type Lexer struct {
 	rewind          runeStack
 	currentLine     int
 	alreadyNewline  bool
+	failure         interface{}
 }
 
 // New creates a returns a lexer ready to parse the given source code.
@@ -333,6 +334,9 @@ func (l *Lexer) NextToken() (*Token, bool) {
 		}
 		return &tok, false
 	} else {
+		if l.failure != nil {
+			panic(l.failure)
+		}
 		return nil, true
 	}
 }
@@ -350,11 +354,15 @@ func (l *Lexer) Error(e string) {
 
 // Private methods
 func (l *Lexer) run() {
+	//the lexer runs in its own goroutine. a syntax error is handed over to the one who reads the tokens
+	defer func() {
+		l.failure = recover()
+		close(l.tokens)
+	}()
 	state := l.startState
 	for state != nil {
 		state = state(l)
 	}
-	close(l.tokens)
 }
 
 //##############################################################################
diff --git a/circuitcompiler/parser.go b/circuitcompiler/parser.go
index 9609b68..b1e2cca 100644
--- a/circuitcompiler/parser.go
+++ b/circuitcompiler/parser.go
@@ -71,7 +71,14 @@ func Parse(code string, checkSemantics bool) (p *Program) {
 
 	var constraintStack []*Constraint
 	toks := parser.stackAllTokens()
-	go parser.statementMode(toks)
+	//the parser runs in its own goroutine. a syntax error is handed over to the caller
+	finished := make(chan interface{}, 1)
+	go func() {
+		defer func() {
+			finished <- recover()
+		}()
+		parser.statementMode(toks)
+	}()
 	//go parser.statementMode(parser.stackAllTokens())
 	p = newProgram()
 out:
@@ -89,6 +96,16 @@ out:
 			}
 		case <-parser.done:
 			break out
+		case failure := <-finished:
+			if failure != nil {
+				panic(failure)
+			}
+			select {
+			case <-parser.done:
+				break out
+			default:
+				panic("unexpected end of program")
+			}
 		}
 	}
 
-- 
2.43.0


From c89597b4e8bc4ea60308750761ae7687286646aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:36 +0000
Subject: [PATCH 18/74] fix: binary operators bind and associate as in golang

---
 circuitcompiler/parser.go | 47 ++++++++++++++++++++++++++++++++++++++-
 1 file changed, 46 insertions(+), 1 deletion(-)

diff --git a/circuitcompiler/parser.go b/circuitcompiler/parser.go
index b1e2cca..caf3011 100644
--- a/circuitcompiler/parser.go
+++ b/circuitcompiler/parser.go
@@ -469,7 +469,7 @@ func (p *Parser) parseExpression(stack []Token, constraint *Constraint) {
 		p.error("Variable or number expected, got %v ", stack[0])
 	}
 
-	l, binOperation, r := splitAtFirstHighestTokenType(stack, Operator)
+	l, binOperation, r := splitAtWeakestOperator(stack)
 	l, r = stripOfBrackets(l), stripOfBrackets(r)
 
 	// exp Operator exp
@@ -759,6 +759,51 @@ func splitAtFirstHighestTokenType(in []Token, splitAt TokenType) (cutLeft []Toke
 	return nil, Token{}, nil
 }
 
+//bindingStrength ranks the binary operators as golang does. 0 is returned, if the token is no operator
+func bindingStrength(tok Token) int {
+	switch tok.Type {
+	case AssignmentOperatorToken:
+		return 1
+	case BooleanOperatorToken:
+		if tok.Identifier == "||" {
+			return 2
+		}
+		return 3
+	case BinaryComperatorToken:
+		return 4
+	case ArithmeticOperatorToken:
+		if tok.Identifier == "+" || tok.Identifier == "-" {
+			return 5
+		}
+		return 6
+	case BitOperatorToken:
+		return 6
+	}
+	return 0
+}
+
+//splitAtWeakestOperator splits an expression at the last of its weakest binding operators, which are not
+//surrounded by brackets. operators of the same strength thereby associate to the left
+//example  a - b*c - d  ->  ( a - b*c , - , d )
+func splitAtWeakestOperator(in []Token) (cutLeft []Token, tok Token, cutRight []Token) {
+	depth, position, weakest := 0, -1, 0
+	for i := 0; i < len(in); i++ {
+		switch in[i].Identifier {
+		case "(", "[":
+			depth++
+		case ")", "]":
+			depth--
+		}
+		if s := bindingStrength(in[i]); s != 0 && depth == 0 && (position == -1 || s <= weakest) {
+			position, weakest = i, s
+		}
+	}
+	if position == -1 {
+		return nil, Token{}, nil
+	}
+	return in[:position], in[position], in[position+1:]
+}
+
 //splitTokensAtFirstString takes takes a string S and a token array and splits st: abScd -> ( ab , Scd )
 //if S does not occur it returns ( in , []Tokens{} )
 func SplitAtFirstTokenType(in []Token, splitAt TokenType) (cutLeft []Token, tok Token, cutRight []Token) {
-- 
2.43.0


From 6c11f8610b68004b5bcc4e4b67e534443c00f328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:36 +0000
Subject: [PATCH 19/74] fix: the number a plain return stands for carries its
 identifier

---
 circuitcompiler/Programm.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/circuitcompiler/Programm.go b/circuitcompiler/Programm.go
index 612ec97..5629873 100644
--- a/circuitcompiler/Programm.go
+++ b/circuitcompiler/Programm.go
@@ -286,7 +286,8 @@ func (currentCircuit *function) compile(currentConstraint *Constraint, gateColle
 		switch len(currentConstraint.Inputs) {
 		case 0:
 			fac := factor{typ: Token{
-				Type: NumberToken,
+				Type:       NumberToken,
+				Identifier: "1",
 			}, multiplicative: big.NewInt(1)}
 			return factors{fac}, true, function{}
 		case 1:
-- 
2.43.0


From c22cf1a68f830794d263cd01eecf025c18b0c5cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:37 +0000
Subject: [PATCH 20/74] fix: a declaration without assignment is rejected

---
 circuitcompiler/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/circuitcompiler/parser.go b/circuitcompiler/parser.go
index caf3011..bbf1534 100644
--- a/circuitcompiler/parser.go
+++ b/circuitcompiler/parser.go
@@ -400,7 +400,7 @@ func (p *Parser) statementMode(tokens []Token) {
 			p.statementMode(r)
 			return
 		}
-		//var a = func(){}
+		p.error("invalid variable declaration, got %v", combineString(l))
 	case RETURN:
 		//return (1+a)
 		l, r := splitTokensAtFirstString(tokens, "\n")
-- 
2.43.0


From a2b857104ade5a8b4d368ade2e8a2c6999b14be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:37 +0000
Subject: [PATCH 21/74] fix: StringToFieldElement reports a malformed number

---
 utils/finiteField.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/utils/finiteField.go b/utils/finiteField.go
index 8678b76..d358113 100644
--- a/utils/finiteField.go
+++ b/utils/finiteField.go
@@ -65,6 +65,9 @@ func (fq Fq) One() *big.Int {
 
 func (fq Fq) StringToFieldElement(a string) (v *big.Int, s bool) {
 	v, s = new(big.Int).SetString(a, 10)
+	if !s {
+		return nil, false
+	}
 	return v.Mod(v, fq.Q), s
 }
 
-- 
2.43.0


From 4fab8d3583c1588827c9c087f1cec25decf63654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:38 +0000
Subject: [PATCH 22/74] fix: public inputs have to be distinct arguments of
 main

---
 circuitcompiler/Programm.go | 21 +++++++++++++++++++++
 circuitcompiler/parser.go   |  3 +++
 2 files changed, 24 insertions(+)

diff --git a/circuitcompiler/Programm.go b/circuitcompiler/Programm.go
index 5629873..ce4330f 100644
--- a/circuitcompiler/Programm.go
+++ b/circuitcompiler/Programm.go
@@ -124,6 +124,27 @@ func CombineInputs(abstract []string, concrete []*big.Int) (res []InputArgument)
 func (p *Program) GlobalInputCount() int {
 	return len(p.PublicInputs)
 }
+
+//every public input has to be one of the arguments of main, and none of them may be declared twice.
+//otherwise the public inputs would not line up with the witness trace
+func (p *Program) checkPublicInputs() {
+	if len(p.PublicInputs) == 1 {
+		return
+	}
+	undeclared := make(map[string]bool)
+	if main := p.GetMainCircuit(); main != nil {
+		for _, v := range main.Inputs {
+			undeclared[v] = true
+		}
+	}
+	for _, v := range p.PublicInputs[1:] {
+		if !undeclared[v] {
+			panic(fmt.Sprintf("public input %v is not an argument of main or declared twice", v))
+		}
+		delete(undeclared, v)
+	}
+}
+
 func (p *Program) GetMainCircuit() *function {
 	return p.globalFunction.functions["main"]
 }
diff --git a/circuitcompiler/parser.go b/circuitcompiler/parser.go
index bbf1534..820e7c3 100644
--- a/circuitcompiler/parser.go
+++ b/circuitcompiler/parser.go
@@ -111,6 +111,9 @@ out:
 
 	//p = newProgram(big.NewInt(1993), big.NewInt(1993))
 	p.globalFunction.preCompile(constraintStack)
+	if checkSemantics {
+		p.checkPublicInputs()
+	}
 	return p
 }
 
-- 
2.43.0


From 8fce698e5ba8bf9995a3bd54ce94f1903f3b6723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:38 +0000
Subject: [PATCH 23/74] fix: executing a program no longer changes it

---
 circuitcompiler/Programm.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/circuitcompiler/Programm.go b/circuitcompiler/Programm.go
index ce4330f..fe42705 100644
--- a/circuitcompiler/Programm.go
+++ b/circuitcompiler/Programm.go
@@ -204,7 +204,8 @@ func (currentCircuit *function) resolveArrayName(c *Constraint) string {
 func (p *Program) Execute() (orderedmGates []*Gate) {
 
 	container := newGateContainer()
-	mainCircuit := p.GetMainCircuit()
+	//the execution overwrites variables, hence it runs on a copy of the program
+	mainCircuit := p.globalFunction.flatCopy().functions["main"]
 
 	for i := 0; i < mainCircuit.taskStack.len(); i++ {
 		f, returns, _ := mainCircuit.compile(mainCircuit.taskStack.data[i], container)
-- 
2.43.0


From 7d90188eef2e0ec8ec7e121e02459805d4c47a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:38 +0000
Subject: [PATCH 24/74] fix: the verifier only accepts canonical public signals
 starting with one

---
 zkSNARK/wol19.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/zkSNARK/wol19.go b/zkSNARK/wol19.go
index e9d5d29..3c1ba50 100644
--- a/zkSNARK/wol19.go
+++ b/zkSNARK/wol19.go
@@ -468,6 +468,18 @@ func VerifyProof(pk *Pk, proof *Proof, publicSignals []*big.Int, debug bool) boo
 		return false
 	}
 
+	//the first signal is the constant one, and every signal has to be the canonical representative of a field element
+	if len(publicSignals) == 0 || publicSignals[0].Cmp(big.NewInt(1)) != 0 {
+		fmt.Println("❌ wolf19 verification not passed. First signal has to be 1")
+		return false
+	}
+	for _, v := range publicSignals {
+		if v.Sign() < 0 || v.Cmp(bn256.Order) >= 0 {
+			fmt.Println("❌ wolf19 verification not passed. Signal is not a field element")
+			return false
+		}
+	}
+
 	icPubl := new(bn256.G1).ScalarMult(pk.G1.RLEO_Gamma[0], publicSignals[0])
 	for i := 1; i < len(publicSignals); i++ {
 		icPubl.Add(icPubl, new(bn256.G1).ScalarMult(pk.G1.RLEO_Gamma[i], publicSignals[i]))
-- 
2.43.0


From ece00d6345a4b278694bffa81580d958d537de6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:38 +0000
Subject: [PATCH 25/74] fix: division by the constant zero is rejected

---
 circuitcompiler/Programm.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/circuitcompiler/Programm.go b/circuitcompiler/Programm.go
index fe42705..effc8f5 100644
--- a/circuitcompiler/Programm.go
+++ b/circuitcompiler/Programm.go
@@ -599,6 +599,9 @@ func (currentCircuit *function) compile(currentConstraint *Constraint, gateColle
 				rightFactors, _, _ = currentCircuit.compile(right, gateCollector)
 
 				if rightFactors.isSingleNumber() { // (x1+x2..)/6
+					if field.IsZero(field.Copy(rightFactors[0].multiplicative)) {
+						panic("division by zero")
+					}
 					return mulFactors(leftFactors, invertFactors(rightFactors)), currentConstraint.Output.Type == RETURN, function{}
 				}
 
-- 
2.43.0


From b61d6c948f397df700a11ed644c152a55a4cbd93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:39 +0000
Subject: [PATCH 26/74] fix: static conditions compare canonical field elements

---
 circuitcompiler/circuit.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/circuitcompiler/circuit.go b/circuitcompiler/circuit.go
index 1722fd2..27f14ca 100644
--- a/circuitcompiler/circuit.go
+++ b/circuitcompiler/circuit.go
@@ -399,8 +399,8 @@ func (currentCircuit *function) checkStaticCondition(c *Constraint) (isSatisfied
 	factorsA, _, _ = currentCircuit.compile(c.Inputs[1], newGateContainer())
 	factorsB, _, _ = currentCircuit.compile(c.Inputs[2], newGateContainer())
 
-	A = factorsA[0].multiplicative
-	B = factorsB[0].multiplicative
+	A = field.Copy(factorsA[0].multiplicative)
+	B = field.Copy(factorsB[0].multiplicative)
 
 	if !factorsA.isSingleNumber() || !factorsB.isSingleNumber() {
 		panic("no dynamic looping supported")
-- 
2.43.0


From 2cf94ff1fd2c8c3a693f8beac0af5ba09ce8c851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:39 +0000
Subject: [PATCH 27/74] fix: a function passed to a preloaded function keeps
 its own scope

---
 circuitcompiler/Programm.go |  1 +
 circuitcompiler/circuit.go  | 11 +++++++++++
 2 files changed, 12 insertions(+)

diff --git a/circuitcompiler/Programm.go b/circuitcompiler/Programm.go
index effc8f5..4eb8e85 100644
--- a/circuitcompiler/Programm.go
+++ b/circuitcompiler/Programm.go
@@ -172,6 +172,7 @@ func (currentCircuit *function) getsLoadedWith(newInputs []*function) (allArgume
 	}
 	for i := 0; i < len(newInputs); i++ {
 		currentCircuit.functions[currentCircuit.Inputs[i]] = newInputs[i]
+		currentCircuit.loaded[currentCircuit.Inputs[i]] = true
 	}
 	currentCircuit.Inputs = currentCircuit.Inputs[len(newInputs):]
 	return
diff --git a/circuitcompiler/circuit.go b/circuitcompiler/circuit.go
index 27f14ca..f2f26db 100644
--- a/circuitcompiler/circuit.go
+++ b/circuitcompiler/circuit.go
@@ -25,6 +25,9 @@ type function struct {
 
 	//this will stay. the concept of a taskstack is relevant
 	taskStack *watchstack
+
+	//the arguments which have been loaded already. they keep the context of the place they came from
+	loaded map[string]bool
 	//lets turn this into something we only need for the semantic check
 	constraintMap map[string]*Constraint
 }
@@ -362,9 +365,17 @@ func (circ *function) flatCopy() (clone *function) {
 	inputs := make([]string, len(circ.Inputs))
 	copy(inputs, circ.Inputs)
 	clone.Inputs = inputs
+	clone.loaded = make(map[string]bool)
+	for k := range circ.loaded {
+		clone.loaded[k] = true
+	}
 	//clone.functions = circ.functions
 	//clone.constraintMap = circ.constraintMap
 	for k, v := range circ.functions {
+		if circ.loaded[k] {
+			clone.functions[k] = v
+			continue
+		}
 		f := v.flatCopy()
 		f.Context = clone
 		clone.functions[k] = f
-- 
2.43.0


From 33a96694646727c46afb2c627fd062b312bc4efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:15 +0000
Subject: [PATCH 28/74] fix: an if-else chain may end a function body

---
 circuitcompiler/parser.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/circuitcompiler/parser.go b/circuitcompiler/parser.go
index 820e7c3..73dcd62 100644
--- a/circuitcompiler/parser.go
+++ b/circuitcompiler/parser.go
@@ -249,16 +249,16 @@ func (p *Parser) statementMode(tokens []Token) {
 		handeFunc(1, true, IF)
 
 		hasElseIf := false
-		for rest[0].Type == ELSE && rest[1].Type == IF {
+		for len(rest) > 1 && rest[0].Type == ELSE && rest[1].Type == IF {
 			handeFunc(2, true, ELSE)
 			hasElseIf = true
 		}
 
-		if rest[0].Type != ELSE && hasElseIf {
+		if hasElseIf && (len(rest) == 0 || rest[0].Type != ELSE) {
 			p.error("you used else if, so a else at the end is required")
 		}
 
-		if rest[0].Type == ELSE {
+		if len(rest) > 0 && rest[0].Type == ELSE {
 			handeFunc(1, false, ELSE)
 		}
 		p.constraintChan <- &Constraint{Output: Token{Type: IF_ELSE_CHAIN_END}}
-- 
2.43.0


From 3e22c52ff4eb841eaa8a40531cc4c1955ac20095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:41 +0000
Subject: [PATCH 29/74] fix: splitting a number or a scaled value splits that
 value

---
 circuitcompiler/Programm.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/circuitcompiler/Programm.go b/circuitcompiler/Programm.go
index 4eb8e85..eac088e 100644
--- a/circuitcompiler/Programm.go
+++ b/circuitcompiler/Programm.go
@@ -403,6 +403,18 @@ func (currentCircuit *function) compile(currentConstraint *Constraint, gateColle
 			if len(in) != 1 {
 				panic("arguments in split must be pure")
 			}
+			if in[0].typ.Type != ARGUMENT || in[0].multiplicative.Cmp(bigOne) != 0 {
+				//a number or a scaled element has no witness entry of its own, so we introduce one
+				sig := in.factorSignature()
+				entry := factor{typ: Token{Type: ARGUMENT, Identifier: sig}, multiplicative: bigOne}
+				gateCollector.Add(&Gate{
+					gateType:   additionGate,
+					identifier: sig,
+					leftIns:    in,
+					outIns:     factors{entry},
+				})
+				in = factors{entry}
+			}
 
 			//hmm what is this actually good for
 			//sig := hashFactorsToBig(in).String()[:16]
-- 
2.43.0


From fbe5d5a1132b209e8967e0eed525df5906369c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:25 +0000
Subject: [PATCH 30/74] fix: addition drops zero terms of either operand

---
 circuitcompiler/factorHandling.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/circuitcompiler/factorHandling.go b/circuitcompiler/factorHandling.go
index 2879744..2fb3416 100644
--- a/circuitcompiler/factorHandling.go
+++ b/circuitcompiler/factorHandling.go
@@ -217,7 +217,7 @@ func addFactors(leftFactors, rightFactors factors) factors {
 			}
 
 		}
-		if !found {
+		if !found && facLeft.multiplicative.Cmp(bigZero) != 0 {
 			res = append(res, facLeft)
 		}
 	}
-- 
2.43.0


From 4530d5bf910429ef34cb36f7792e455353275950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:23 +0000
Subject: [PATCH 31/74] fix: rewinding the lexer over an invalid byte

---
 circuitcompiler/lexer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/circuitcompiler/lexer.go b/circuitcompiler/lexer.go
index c674e25..f87ae0f 100644
--- a/circuitcompiler/lexer.go
+++ b/circuitcompiler/lexer.go
@@ -277,7 +277,8 @@ func (l *Lexer) PeekTwo() string {
 func (l *Lexer) Rewind() {
 	r := l.rewind.pop()
 	if r > EOFRune {
-		size := utf8.RuneLen(r)
+		//an invalid byte is read as a rune that is longer than the byte itself
+		_, size := utf8.DecodeLastRuneInString(l.source[:l.position])
 		l.position -= size
 		if l.position < l.start {
 			l.position = l.start
-- 
2.43.0


From c725a8c91711155f8ad91d2fe1e742599a082cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:53 +0000
Subject: [PATCH 32/74] fix: an unmatched closing bracket at the end of an
 expression is refused

---
 circuitcompiler/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/circuitcompiler/parser.go b/circuitcompiler/parser.go
index 73dcd62..a73f61b 100644
--- a/circuitcompiler/parser.go
+++ b/circuitcompiler/parser.go
@@ -829,7 +829,7 @@ func stripOfBrackets(in []Token) []Token {
 }
 
 func isSurroundedByBrackets(in []Token) bool {
-	if len(in) == 0 {
+	if len(in) == 0 || in[0].Identifier != "(" {
 		return false
 	}
 	_, r, b := splitAtClosingBrackets(in)
-- 
2.43.0


From 4062fb6cedd15dfc8b2d94397c67f5e2392b11cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:05 +0000
Subject: [PATCH 33/74] fix: an array index without its opening bracket is
 refused

---
 circuitcompiler/parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/circuitcompiler/parser.go b/circuitcompiler/parser.go
index a73f61b..2074502 100644
--- a/circuitcompiler/parser.go
+++ b/circuitcompiler/parser.go
@@ -549,6 +549,9 @@ func (p *Parser) parseExpression(stack []Token, constraint *Constraint) {
 		l, r, _ := splitAtClosingSquareBrackets(stack[2:])
 		p.parseExpression(l, cr)
 		for len(r) != 0 {
+			if r[0].Identifier != "[" {
+				p.error("'[' expected, got %v", r[0])
+			}
 			l, r, _ = splitAtClosingSquareBrackets(r)
 			p.parseExpression(l, cr)
 		}
-- 
2.43.0


From a9fa8f6ddb8274a9bc4525fb3075c29e9b78a355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:24 +0000
Subject: [PATCH 34/74] fix: the verifier rejects a proof element F that no
 exponent polynomial accounts for

---
 zkSNARK/wol19.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/zkSNARK/wol19.go b/zkSNARK/wol19.go
index 3c1ba50..17a9590 100644
--- a/zkSNARK/wol19.go
+++ b/zkSNARK/wol19.go
@@ -480,6 +480,21 @@ func VerifyProof(pk *Pk, proof *Proof, publicSignals []*big.Int, debug bool) boo
 		}
 	}
 
+	//PiF is a combination of the exponent polynomials. without any of them it has to be the neutral element, since the
+	//pairing equation alone holds for other PiF as well
+	neutral := g1ScalarBaseMultiply(big.NewInt(0)).Marshal()
+	exponents := false
+	for _, v := range pk.G1.Ex {
+		if !bytes.Equal(v.Marshal(), neutral) {
+			exponents = true
+			break
+		}
+	}
+	if !exponents && !bytes.Equal(proof.PiF.Marshal(), neutral) {
+		fmt.Println("❌ wolf19 verification not passed. PiF has to be neutral")
+		return false
+	}
+
 	icPubl := new(bn256.G1).ScalarMult(pk.G1.RLEO_Gamma[0], publicSignals[0])
 	for i := 1; i < len(publicSignals); i++ {
 		icPubl.Add(icPubl, new(bn256.G1).ScalarMult(pk.G1.RLEO_Gamma[i], publicSignals[i]))
-- 
2.43.0


From b26fc2efc4b15d8d8ea4cae11d8c8fab2c1eac2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:05 +0000
Subject: [PATCH 35/74] fix: multiples of the modulus are zero

---
 utils/finiteField.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/finiteField.go b/utils/finiteField.go
index d358113..bb3c036 100644
--- a/utils/finiteField.go
+++ b/utils/finiteField.go
@@ -224,7 +224,7 @@ func (fq Fq) Rand() (*big.Int, error) {
 }
 
 func (fq Fq) IsZero(a *big.Int) bool {
-	return bytes.Equal(a.Bytes(), fq.Zero().Bytes())
+	return fq.Copy(a).Sign() == 0
 }
 
 func (fq Fq) Copy(a *big.Int) *big.Int {
-- 
2.43.0


From d951a47b1583bea3ff06372923f85aa539078efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:06 +0000
Subject: [PATCH 36/74] fix: the value of a constant polynomial is canonical

---
 utils/finiteField.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/finiteField.go b/utils/finiteField.go
index bb3c036..3efa629 100644
--- a/utils/finiteField.go
+++ b/utils/finiteField.go
@@ -180,7 +180,7 @@ func (fq Fq) ExpInt(base *big.Int, e uint) *big.Int {
 func (fq Fq) EvalPoly(v []*big.Int, x *big.Int) *big.Int {
 
 	if len(v) == 1 {
-		return v[0]
+		return fq.Copy(v[0])
 	}
 	return fq.Add(fq.Mul(fq.EvalPoly(v[1:], x), x), v[0])
 }
-- 
2.43.0


From 3a407e89fd324425c9408ce3c8c3b28b12c2e58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:06 +0000
Subject: [PATCH 37/74] fix: sparse polynomials are evaluated at the canonical
 position

---
 utils/sparsePolynomial.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/utils/sparsePolynomial.go b/utils/sparsePolynomial.go
index 7cc3d69..217792d 100644
--- a/utils/sparsePolynomial.go
+++ b/utils/sparsePolynomial.go
@@ -84,6 +84,7 @@ func (fq Fq) EvalSparsePoly(poly *AvlTree, at *big.Int) (result *big.Int) {
 	if nBits < poly.Size() {
 		//fmt.Println("WARN, ur polynomial is not very sparse. a casual array type polynomial becomes more efficient at some point. not necessarily in this case however.")
 	}
+	at = fq.Copy(at)
 	if at.Cmp(bigZero) == 0 {
 		if v, b := poly.Get(0); b == nil {
 			return new(big.Int).Set(v)
-- 
2.43.0


From 1a141720db12848b4de80f4c6355a7dc7ff5eae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:07 +0000
Subject: [PATCH 38/74] fix: random elements are drawn from the entire field of
 any prime

---
 utils/finiteField.go | 18 ++----------------
 1 file changed, 2 insertions(+), 16 deletions(-)

diff --git a/utils/finiteField.go b/utils/finiteField.go
index 3efa629..2175d32 100644
--- a/utils/finiteField.go
+++ b/utils/finiteField.go
@@ -205,22 +205,8 @@ func BigIsOdd(n *big.Int) bool {
 
 func (fq Fq) Rand() (*big.Int, error) {
 
-	// twoexp := new(big.Int).Exp(big.NewInt(2), big.NewInt(int64(maxbits)), nil)
-	// maxInt := new(big.Int).Sub(twoexp, big.NewInt(1))
-	//rand
-	maxbits := fq.Q.BitLen()
-	b := make([]byte, (maxbits/8)-1)
-	// b := make([]byte, 3)
-	// b := make([]byte, 3)
-	_, err := rand.Read(b)
-	if err != nil {
-		return nil, err
-	}
-	r := new(big.Int).SetBytes(b)
-	rq := new(big.Int).Mod(r, fq.Q)
-
-	// return r over q, nil
-	return rq, nil
+	//every element of the field is drawn with the same probability
+	return rand.Int(rand.Reader, fq.Q)
 }
 
 func (fq Fq) IsZero(a *big.Int) bool {
-- 
2.43.0


From f70088070caf13c46b902710b17e3fc9f435c6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:07 +0000
Subject: [PATCH 39/74] fix: exponents are not reduced modulo the field order

---
 utils/finiteField.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/utils/finiteField.go b/utils/finiteField.go
index 2175d32..2469225 100644
--- a/utils/finiteField.go
+++ b/utils/finiteField.go
@@ -148,8 +148,12 @@ func (fq Fq) Square(a *big.Int) *big.Int {
 // Exp performs the exponential over Fq
 func (fq Fq) Exp(base *big.Int, e *big.Int) *big.Int {
 	res := fq.One()
-	rem := fq.Copy(e)
+	//the exponent is no field element, it must not be reduced
+	rem := new(big.Int).Abs(e)
 	exp := base
+	if e.Sign() < 0 {
+		exp = fq.Inverse(fq.Copy(base))
+	}
 
 	for !bytes.Equal(rem.Bytes(), bigZero.Bytes()) {
 		if BigIsOdd(rem) {
-- 
2.43.0


From 16c21048d80c3a857030f1e1625646d72174c70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:39 +0000
Subject: [PATCH 40/74] fix: removing a key the tree does not have loses
 entries

---
 utils/avl.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/utils/avl.go b/utils/avl.go
index bcf8bc9..f228b6a 100644
--- a/utils/avl.go
+++ b/utils/avl.go
@@ -468,9 +468,6 @@ func (self *AvlNode) Remove(key uint) (_ *AvlNode, value *big.Int, err error) {
 	} else {
 		self.right, value, err = self.right.Remove(key)
 	}
-	if err != nil {
-		return self.balance(), value, err
-	}
 	return self, value, err
 }
 
-- 
2.43.0


From 46d3ab30a569fa42b7ae8dd5b35ec2d49bc1de70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:48 +0000
Subject: [PATCH 41/74] fix: an input name the system does not have overwrites
 the one-signal

---
 circuitcompiler/ER1CS.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/circuitcompiler/ER1CS.go b/circuitcompiler/ER1CS.go
index 8e38680..7db2307 100644
--- a/circuitcompiler/ER1CS.go
+++ b/circuitcompiler/ER1CS.go
@@ -162,6 +162,9 @@ func CalculateWitness(r1cs *ER1CS, input []InputArgument) (witness []*big.Int, e
 	}
 
 	for _, v := range input {
+		if r1cs.indexMap[v.identifier] == 0 {
+			return nil, errors.New(fmt.Sprintf("the system has no input %v", v.identifier))
+		}
 		setWitness(r1cs.indexMap[v.identifier], v.value)
 		set[r1cs.indexMap[v.identifier]] = true
 	}
@@ -314,6 +317,9 @@ func CalculateSparseWitness(r1cs *ER1CSSparse, input []InputArgument) (witness [
 	}
 
 	for _, v := range input {
+		if r1cs.indexMap[v.identifier] == 0 {
+			return nil, errors.New(fmt.Sprintf("the system has no input %v", v.identifier))
+		}
 		witness[r1cs.indexMap[v.identifier]] = v.value
 		set[r1cs.indexMap[v.identifier]] = true
 	}
-- 
2.43.0


From 0ddeabb061b12f48fb0c43da3257d94048204432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:51 +0000
Subject: [PATCH 42/74] fix: sparse division does not end when a leading
 coefficient vanishes modulo the prime

---
 utils/sparsePolynomial.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/utils/sparsePolynomial.go b/utils/sparsePolynomial.go
index 217792d..54fb5ef 100644
--- a/utils/sparsePolynomial.go
+++ b/utils/sparsePolynomial.go
@@ -36,7 +36,8 @@ type Entry struct {
 // Div divides two polinomials over the Finite Field, returning the result and the remainder
 func (fq Fq) DivideSparse(a, b *AvlTree) (result, rem *AvlTree) {
 	result = NewAvlTree()
-	rem = a.Clone()
+	//coefficients that vanish modulo the prime do not contribute to the degree
+	rem, b = fq.MulSparseScalar(a, fq.One()), fq.MulSparseScalar(b, fq.One())
 	if b.Size() == 0 {
 		panic("division by the zero polynomial")
 	}
-- 
2.43.0


From bd5f647d87447b9a7e4592497fefead68ab3c101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:05 +0000
Subject: [PATCH 43/74] fix: StartSync blocks forever on texts with more tokens
 than half their characters

---
 circuitcompiler/lexer.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/circuitcompiler/lexer.go b/circuitcompiler/lexer.go
index f87ae0f..e723c29 100644
--- a/circuitcompiler/lexer.go
+++ b/circuitcompiler/lexer.go
@@ -219,12 +219,8 @@ func (l *Lexer) Start() {
 }
 
 func (l *Lexer) StartSync() {
-	// Take half the string length as a buffer size.
-	buffSize := len(l.source) / 2
-	if buffSize <= 0 {
-		buffSize = 1
-	}
-	l.tokens = make(chan Token, buffSize)
+	// nobody reads before the end is reached. there are at most as many tokens as characters
+	l.tokens = make(chan Token, len(l.source)+1)
 	l.run()
 }
 
-- 
2.43.0


From efdea2878b775d7d310159bd5a47d7ce459073da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:58 +0000
Subject: [PATCH 44/74] fix: a program that imports itself does not end

---
 circuitcompiler/parser.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/circuitcompiler/parser.go b/circuitcompiler/parser.go
index 2074502..629a9e7 100644
--- a/circuitcompiler/parser.go
+++ b/circuitcompiler/parser.go
@@ -17,6 +17,7 @@ type Parser struct {
 	done           chan struct{}
 	log            bool
 	constraintChan chan *Constraint
+	imported       map[string]bool
 
 	//constraintBuilder chan<- Token
 }
@@ -61,7 +62,7 @@ func (p *Parser) nextToken() *Token {
 func newParser(code string, log bool) (p *Parser) {
 	lexer := New(code, ProbablyWhitespaceState)
 	lexer.Start()
-	return &Parser{constraintChan: make(chan *Constraint), tokenChannel: make(chan Token), done: make(chan struct{}), lexer: lexer, log: log}
+	return &Parser{constraintChan: make(chan *Constraint), tokenChannel: make(chan Token), done: make(chan struct{}), lexer: lexer, log: log, imported: make(map[string]bool)}
 }
 
 //read the code, check syntax and semantics, translate it into an function tree ready for execution
@@ -149,6 +150,10 @@ func (p *Parser) statementMode(tokens []Token) {
 		if len(tokens) == 1 || tokens[1].Type != IDENTIFIER_VARIABLE {
 			p.error("import failed")
 		}
+		if p.imported[tokens[1].Identifier] {
+			p.error("%v is imported more than once", tokens[1].Identifier)
+		}
+		p.imported[tokens[1].Identifier] = true
 
 		dat, err := ioutil.ReadFile(tokens[1].Identifier)
 		if err != nil {
-- 
2.43.0


From b304ead5772f60a2d52d7da9051fa27afb778835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:48 +0000
Subject: [PATCH 45/74] fix: inverting a multiple of the modulus panics instead
 of giving zero

---
 utils/finiteField.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/utils/finiteField.go b/utils/finiteField.go
index 2469225..a403947 100644
--- a/utils/finiteField.go
+++ b/utils/finiteField.go
@@ -126,6 +126,7 @@ func (fq Fq) MulScalar(base, e *big.Int) *big.Int {
 
 // Inverse returns the inverse on the Fq
 func (fq Fq) Inverse(a *big.Int) *big.Int {
+	a = fq.Copy(a)
 	if a.Cmp(bigZero) == 0 {
 		return a
 	}
-- 
2.43.0


From 9196c78f175e90789e15a1bd3cd6a08de988ac2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:50 +0000
Subject: [PATCH 46/74] fix: negative and unreduced inputs stay as they are in
 the witness, their proofs do not verify

---
 circuitcompiler/ER1CS.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/circuitcompiler/ER1CS.go b/circuitcompiler/ER1CS.go
index 7db2307..4101467 100644
--- a/circuitcompiler/ER1CS.go
+++ b/circuitcompiler/ER1CS.go
@@ -165,7 +165,7 @@ func CalculateWitness(r1cs *ER1CS, input []InputArgument) (witness []*big.Int, e
 		if r1cs.indexMap[v.identifier] == 0 {
 			return nil, errors.New(fmt.Sprintf("the system has no input %v", v.identifier))
 		}
-		setWitness(r1cs.indexMap[v.identifier], v.value)
+		setWitness(r1cs.indexMap[v.identifier], field.Copy(v.value))
 		set[r1cs.indexMap[v.identifier]] = true
 	}
 
@@ -320,7 +320,7 @@ func CalculateSparseWitness(r1cs *ER1CSSparse, input []InputArgument) (witness [
 		if r1cs.indexMap[v.identifier] == 0 {
 			return nil, errors.New(fmt.Sprintf("the system has no input %v", v.identifier))
 		}
-		witness[r1cs.indexMap[v.identifier]] = v.value
+		witness[r1cs.indexMap[v.identifier]] = field.Copy(v.value)
 		set[r1cs.indexMap[v.identifier]] = true
 	}
 
-- 
2.43.0


From 15709d89965986e839730778b9ed98c9315b8f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:51 +0000
Subject: [PATCH 47/74] fix: variables are visible before and within their
 declaration, and global ones are evaluated at every use

---
 circuitcompiler/Programm.go | 17 +++++++++++++++--
 circuitcompiler/circuit.go  | 18 +++++++++++++-----
 2 files changed, 28 insertions(+), 7 deletions(-)

diff --git a/circuitcompiler/Programm.go b/circuitcompiler/Programm.go
index eac088e..13e3f5e 100644
--- a/circuitcompiler/Programm.go
+++ b/circuitcompiler/Programm.go
@@ -206,7 +206,13 @@ func (p *Program) Execute() (orderedmGates []*Gate) {
 
 	container := newGateContainer()
 	//the execution overwrites variables, hence it runs on a copy of the program
-	mainCircuit := p.globalFunction.flatCopy().functions["main"]
+	global := p.globalFunction.flatCopy()
+	//global variables are visible everywhere. they get their values before main starts
+	global.pending = make(map[string]bool)
+	for _, task := range global.taskStack.data {
+		global.compile(task, container)
+	}
+	mainCircuit := global.functions["main"]
 
 	for i := 0; i < mainCircuit.taskStack.len(); i++ {
 		f, returns, _ := mainCircuit.compile(mainCircuit.taskStack.data[i], container)
@@ -339,8 +345,15 @@ func (currentCircuit *function) compile(currentConstraint *Constraint, gateColle
 			//myArray[21] = expression
 		}
 
-		//resolve the expression
+		//resolve the expression. a variable is not visible within its own declaration
+		isDeclaration := currentConstraint.Inputs[0].Output.Type == VARIABLE_DECLARE
+		if isDeclaration {
+			currentCircuit.pending[toOverloadIdentifier] = true
+		}
 		facs, _, fkt := currentCircuit.compile(currentConstraint.Inputs[1], gateCollector)
+		if isDeclaration {
+			delete(currentCircuit.pending, toOverloadIdentifier)
+		}
 		context, ex := currentCircuit.getCircuitContainingFunctionInBloodline(toOverloadIdentifier)
 		if !ex {
 			panic("does not exist")
diff --git a/circuitcompiler/circuit.go b/circuitcompiler/circuit.go
index f2f26db..32f175a 100644
--- a/circuitcompiler/circuit.go
+++ b/circuitcompiler/circuit.go
@@ -28,6 +28,9 @@ type function struct {
 
 	//the arguments which have been loaded already. they keep the context of the place they came from
 	loaded map[string]bool
+	//the variables declared in this function, and those of them whose declaration has not been executed yet.
+	//the latter are not visible, their name may refer to a variable of an anchestor
+	declared, pending map[string]bool
 	//lets turn this into something we only need for the semantic check
 	constraintMap map[string]*Constraint
 }
@@ -38,7 +41,7 @@ type watchstack struct {
 
 func newCircuit(name string, context *function) *function {
 
-	c := &function{Context: context, Name: name, Inputs: []string{}, constraintMap: make(map[string]*Constraint), taskStack: newWatchstack(), functions: make(map[string]*function)}
+	c := &function{Context: context, Name: name, Inputs: []string{}, constraintMap: make(map[string]*Constraint), taskStack: newWatchstack(), functions: make(map[string]*function), declared: make(map[string]bool), pending: make(map[string]bool)}
 
 	return c
 }
@@ -181,6 +184,7 @@ func (currentCircuit *function) preCompile(constraintStack []*Constraint) {
 		},
 		)
 		currentCircuit.functions[currentConstraint.Output.Identifier] = rmp
+		currentCircuit.declared[currentConstraint.Output.Identifier] = true
 		//is this still necessary..
 		currentCircuit.constraintMap[currentConstraint.Output.Identifier] = &Constraint{
 			Output: Token{
@@ -317,7 +321,7 @@ func (currentCircuit *function) findFunctionInBloodline(identifier string) (*fun
 	if currentCircuit == nil {
 		return nil, false
 	}
-	if con, ex := currentCircuit.functions[identifier]; ex {
+	if con, ex := currentCircuit.functions[identifier]; ex && !currentCircuit.pending[identifier] {
 		return con, true
 	}
 	return currentCircuit.Context.findFunctionInBloodline(identifier)
@@ -329,7 +333,7 @@ func (currentCircuit *function) findConstraintInBloodline(identifier string) (*C
 	if currentCircuit == nil {
 		return nil, false
 	}
-	if con, ex := currentCircuit.constraintMap[identifier]; ex {
+	if con, ex := currentCircuit.constraintMap[identifier]; ex && !currentCircuit.pending[identifier] {
 		return con, true
 	}
 	return currentCircuit.Context.findConstraintInBloodline(identifier)
@@ -340,7 +344,7 @@ func (currentCircuit *function) getCircuitContainingConstraintInBloodline(identi
 	if currentCircuit == nil {
 		return nil, false
 	}
-	if _, ex := currentCircuit.constraintMap[identifier]; ex {
+	if _, ex := currentCircuit.constraintMap[identifier]; ex && !currentCircuit.pending[identifier] {
 		return currentCircuit, true
 	}
 	return currentCircuit.Context.getCircuitContainingConstraintInBloodline(identifier)
@@ -350,7 +354,7 @@ func (currentCircuit *function) getCircuitContainingFunctionInBloodline(identifi
 	if currentCircuit == nil {
 		return nil, false
 	}
-	if _, ex := currentCircuit.functions[identifier]; ex {
+	if _, ex := currentCircuit.functions[identifier]; ex && !currentCircuit.pending[identifier] {
 		return currentCircuit, true
 	}
 	return currentCircuit.Context.getCircuitContainingFunctionInBloodline(identifier)
@@ -369,6 +373,10 @@ func (circ *function) flatCopy() (clone *function) {
 	for k := range circ.loaded {
 		clone.loaded[k] = true
 	}
+	clone.declared = circ.declared
+	for k := range circ.declared {
+		clone.pending[k] = true
+	}
 	//clone.functions = circ.functions
 	//clone.constraintMap = circ.constraintMap
 	for k, v := range circ.functions {
-- 
2.43.0


From 3a9192b5a54509b2331b7ee5a68f9e2830c9149d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:51 +0000
Subject: [PATCH 48/74] fix: an operand without a value, such as a call with
 too few arguments, counts as zero

---
 circuitcompiler/Programm.go | 36 +++++++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/circuitcompiler/Programm.go b/circuitcompiler/Programm.go
index 13e3f5e..938a215 100644
--- a/circuitcompiler/Programm.go
+++ b/circuitcompiler/Programm.go
@@ -248,6 +248,16 @@ func (currentCircuit *function) execute(gateCollector *gateContainer) (facs fact
 	return nil, false, function{}
 }
 
+//compileOperand compiles an expression whose value is needed. a function which was not called, misses arguments or
+//does not return anything has none
+func (currentCircuit *function) compileOperand(operand *Constraint, gateCollector *gateContainer) factors {
+	facs, _, _ := currentCircuit.compile(operand, gateCollector)
+	if len(facs) == 0 {
+		panic(fmt.Sprintf("%v has no value", operand))
+	}
+	return facs
+}
+
 //recursively walks through the parse tree to create a list of all
 //multiplication gates needed for the QAP construction
 //Takes into account, that multiplication with constants and addition (= substraction) can be reduced, and does so
@@ -488,8 +498,8 @@ func (currentCircuit *function) compile(currentConstraint *Constraint, gateColle
 			}
 			leftClone := currentConstraint.Inputs[0].clone()
 			rightClone := currentConstraint.Inputs[1].clone()
-			leftFactors, _, _ := currentCircuit.compile(leftClone, gateCollector)
-			rightFactors, _, _ := currentCircuit.compile(rightClone, gateCollector)
+			leftFactors := currentCircuit.compileOperand(leftClone, gateCollector)
+			rightFactors := currentCircuit.compileOperand(rightClone, gateCollector)
 			commonExtracted, extractedSum := factorSignature(addFactors(leftFactors, rightFactors))
 
 			rootGate := &Gate{
@@ -515,7 +525,7 @@ func (currentCircuit *function) compile(currentConstraint *Constraint, gateColle
 			if len(currentConstraint.Inputs) != 1 {
 				panic("scalarBaseMultiply argument missmatch")
 			}
-			exponentInputFactors, _, _ := currentCircuit.compile(currentConstraint.Inputs[0], gateCollector)
+			exponentInputFactors := currentCircuit.compileOperand(currentConstraint.Inputs[0], gateCollector)
 
 			rootGate := &Gate{
 				gateType: scalarBaseMultiplyGate,
@@ -534,8 +544,8 @@ func (currentCircuit *function) compile(currentConstraint *Constraint, gateColle
 			}
 			leftClone := currentConstraint.Inputs[0].clone()
 			rightClone := currentConstraint.Inputs[1].clone()
-			leftFactors, _, _ := currentCircuit.compile(leftClone, gateCollector)
-			rightFactors, _, _ := currentCircuit.compile(rightClone, gateCollector)
+			leftFactors := currentCircuit.compileOperand(leftClone, gateCollector)
+			rightFactors := currentCircuit.compileOperand(rightClone, gateCollector)
 
 			rootGate := &Gate{
 				gateType:    equalityGate,
@@ -599,8 +609,8 @@ func (currentCircuit *function) compile(currentConstraint *Constraint, gateColle
 		case ArithmeticOperatorToken:
 			switch operation.Identifier {
 			case "*":
-				leftFactors, _, _ = currentCircuit.compile(left, gateCollector)
-				rightFactors, _, _ = currentCircuit.compile(right, gateCollector)
+				leftFactors = currentCircuit.compileOperand(left, gateCollector)
+				rightFactors = currentCircuit.compileOperand(right, gateCollector)
 
 				if leftFactors.isSingleNumber() || rightFactors.isSingleNumber() {
 					return mulFactors(leftFactors, rightFactors), currentConstraint.Output.Type == RETURN, function{}
@@ -621,8 +631,8 @@ func (currentCircuit *function) compile(currentConstraint *Constraint, gateColle
 				f := factor{typ: nTok, multiplicative: commonFactor}
 				return factors{f}, currentConstraint.Output.Type == RETURN, function{}
 			case "/":
-				leftFactors, _, _ = currentCircuit.compile(left, gateCollector)
-				rightFactors, _, _ = currentCircuit.compile(right, gateCollector)
+				leftFactors = currentCircuit.compileOperand(left, gateCollector)
+				rightFactors = currentCircuit.compileOperand(right, gateCollector)
 
 				if rightFactors.isSingleNumber() { // (x1+x2..)/6
 					if field.IsZero(field.Copy(rightFactors[0].multiplicative)) {
@@ -648,14 +658,14 @@ func (currentCircuit *function) compile(currentConstraint *Constraint, gateColle
 				f := factor{typ: nTok, multiplicative: commonF}
 				return factors{f}, currentConstraint.Output.Type == RETURN, function{}
 			case "+":
-				leftFactors, _, _ = currentCircuit.compile(left, gateCollector)
-				rightFactors, _, _ = currentCircuit.compile(right, gateCollector)
+				leftFactors = currentCircuit.compileOperand(left, gateCollector)
+				rightFactors = currentCircuit.compileOperand(right, gateCollector)
 				addedFactors := addFactors(leftFactors, rightFactors)
 				return addedFactors, currentConstraint.Output.Type == RETURN, function{}
 
 			case "-":
-				leftFactors, _, _ = currentCircuit.compile(left, gateCollector)
-				rightFactors, _, _ = currentCircuit.compile(right, gateCollector)
+				leftFactors = currentCircuit.compileOperand(left, gateCollector)
+				rightFactors = currentCircuit.compileOperand(right, gateCollector)
 				rightFactors = negateFactors(rightFactors)
 				addedFactors := addFactors(leftFactors, rightFactors)
 				return addedFactors, currentConstraint.Output.Type == RETURN, function{}
-- 
2.43.0


From 8e0058499a2654d6009b9f618d91627fab02447c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:51 +0000
Subject: [PATCH 49/74] fix: a declaration with another assignment operator
 than = compiles

---
 circuitcompiler/parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/circuitcompiler/parser.go b/circuitcompiler/parser.go
index 629a9e7..4299220 100644
--- a/circuitcompiler/parser.go
+++ b/circuitcompiler/parser.go
@@ -638,7 +638,7 @@ func isArrayAssignment(stx []Token) (yn bool, err string) {
 	if stx[1].Identifier != "[" || stx[2].Identifier != "]" {
 		return false, "brackets  expected"
 	}
-	if stx[3].Type != AssignmentOperatorToken {
+	if stx[3].Type != AssignmentOperatorToken || stx[3].Identifier != "=" {
 		return false, "assignment  expected"
 	}
 	if stx[4].Identifier != "{" {
@@ -655,7 +655,7 @@ func isVariableAssignment(stx []Token) (yn bool, rem []Token, err string) {
 	if stx[0].Type != IDENTIFIER_VARIABLE {
 		return false, nil, "identifier expected"
 	}
-	if stx[1].Type != AssignmentOperatorToken {
+	if stx[1].Type != AssignmentOperatorToken || stx[1].Identifier != "=" {
 		return false, nil, "assignment  expected"
 	}
 	return true, stx[2:], ""
-- 
2.43.0


From 2a243bdbdd789fb2541549b437efa97ab75e23fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:52 +0000
Subject: [PATCH 50/74] fix: tokens between else and its body are ignored

---
 circuitcompiler/parser.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/circuitcompiler/parser.go b/circuitcompiler/parser.go
index 4299220..311afea 100644
--- a/circuitcompiler/parser.go
+++ b/circuitcompiler/parser.go
@@ -241,6 +241,8 @@ func (p *Parser) statementMode(tokens []Token) {
 			IfConst := &Constraint{Output: Token{Type: typ}}
 			if pareseExpression {
 				p.parseExpression(condition[skip:], IfConst)
+			} else if unexpected := removeLeadingAndTrailingBreaks(condition[skip:]); len(unexpected) > 0 {
+				p.error("'{' expected, got %v", unexpected[0])
 			}
 			condition, rest, success = splitAtClosingSwingBrackets(rest)
 			if !success {
-- 
2.43.0


From dc1c1ce4c935e6a1bcae5f52818225e782cd0d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:52 +0000
Subject: [PATCH 51/74] fix: a name can be declared as array and as variable or
 function

---
 circuitcompiler/circuit.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/circuitcompiler/circuit.go b/circuitcompiler/circuit.go
index 32f175a..ba1a24b 100644
--- a/circuitcompiler/circuit.go
+++ b/circuitcompiler/circuit.go
@@ -154,6 +154,9 @@ func (currentCircuit *function) preCompile(constraintStack []*Constraint) {
 		if _, ex := currentCircuit.constraintMap[currentConstraint.Output.Identifier]; ex {
 			panic(fmt.Sprintf("array %s already declared", currentConstraint.Output.Identifier))
 		}
+		if _, ex := currentCircuit.functions[currentConstraint.Output.Identifier]; ex {
+			panic(fmt.Sprintf("array %s overloads function with same name", currentConstraint.Output.Identifier))
+		}
 
 		currentCircuit.constraintMap[currentConstraint.Output.Identifier] = currentConstraint
 
@@ -174,6 +177,9 @@ func (currentCircuit *function) preCompile(constraintStack []*Constraint) {
 		if _, ex := currentCircuit.functions[currentConstraint.Output.Identifier]; ex {
 			panic(fmt.Sprintf("variable %s already declared", currentConstraint.Output.Identifier))
 		}
+		if _, ex := currentCircuit.constraintMap[currentConstraint.Output.Identifier]; ex {
+			panic(fmt.Sprintf("variable %s overloads array with same name", currentConstraint.Output.Identifier))
+		}
 		rmp := newCircuit(currentConstraint.Output.Identifier, currentCircuit)
 		rmp.taskStack.add(&Constraint{
 			Output: Token{
-- 
2.43.0


From 11bbdaaf1331598bb8d3395039ba6d858c59b308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:52 +0000
Subject: [PATCH 52/74] fix: functions of the language can be declared again,
 the declaration is ignored

---
 circuitcompiler/circuit.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/circuitcompiler/circuit.go b/circuitcompiler/circuit.go
index ba1a24b..066d235 100644
--- a/circuitcompiler/circuit.go
+++ b/circuitcompiler/circuit.go
@@ -46,12 +46,27 @@ func newCircuit(name string, context *function) *function {
 	return c
 }
 
+//the functions of the language itself, their names are reserved
+var builtins = map[string]bool{
+	"BREAK": true, "SPLIT": true, "AND": true, "NAND": true, "OR": true, "NOT": true,
+	"addGateConstraint": true, "scalarBaseMultiply": true, "equal": true,
+}
+
+//checkName asserts that a declared name does not belong to a function of the language itself, which would be called instead
+func checkName(name string) {
+	if builtins[name] {
+		panic(fmt.Sprintf("%s is a function of the language, its name cannot be declared", name))
+	}
+}
+
 func RegisterFunctionFromConstraint(constraint *Constraint, context *function) (c *function) {
 
 	name := constraint.Output.Identifier
+	checkName(name)
 	c = newCircuit(name, context)
 
 	for _, arg := range constraint.Inputs {
+		checkName(arg.Output.Identifier)
 		c.Inputs = append(c.Inputs, arg.Output.Identifier)
 
 		cl := arg.clone()
@@ -174,6 +189,7 @@ func (currentCircuit *function) preCompile(constraintStack []*Constraint) {
 			//circ.taskUpdate(constr)
 		}
 	case VARIABLE_DECLARE:
+		checkName(currentConstraint.Output.Identifier)
 		if _, ex := currentCircuit.functions[currentConstraint.Output.Identifier]; ex {
 			panic(fmt.Sprintf("variable %s already declared", currentConstraint.Output.Identifier))
 		}
-- 
2.43.0


From e19259841d7bc70438cc9f21a729074f201473e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:03 +0000
Subject: [PATCH 53/74] fix: equal factors with differently represented
 coefficients do not share their gate

---
 circuitcompiler/factorHandling.go | 19 ++++++++++++++++++-
 circuitcompiler/gate.go           |  8 ++++----
 2 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/circuitcompiler/factorHandling.go b/circuitcompiler/factorHandling.go
index 2fb3416..bec89df 100644
--- a/circuitcompiler/factorHandling.go
+++ b/circuitcompiler/factorHandling.go
@@ -50,6 +50,22 @@ func (f factors) clone() (res factors) {
 	}
 	return
 }
+//canonical represents every coefficient by the field element of least absolute value and names numbers after it.
+//equal factors look the same afterwards, no matter how they have been computed
+func (f factors) canonical() factors {
+	for i := range f {
+		v := new(big.Int).Mod(f[i].multiplicative, field.Q)
+		if neg := new(big.Int).Sub(v, field.Q); neg.CmpAbs(v) < 0 {
+			v = neg
+		}
+		f[i].multiplicative = v
+		if f[i].typ.Type == NumberToken {
+			f[i].typ.Identifier = v.String()
+		}
+	}
+	return f
+}
+
 func (f factors) isSingleNumber() bool {
 	return len(f) == 1 && f[0].typ.Type == NumberToken
 
@@ -102,8 +118,9 @@ func extractConstant(leftFactors, rightFactors factors) (gcd *big.Int, extracted
 }
 
 func factorSignature(facs factors) (gcd *big.Int, extractedRightFactors factors) {
-	facs = facs.clone()
+	facs = facs.clone().canonical()
 	facs, gcd = extractGCD(facs)
+	facs = facs.canonical()
 	sort.Sort(facs)
 	return gcd, facs
 }
diff --git a/circuitcompiler/gate.go b/circuitcompiler/gate.go
index 3786a91..c3f9ee4 100644
--- a/circuitcompiler/gate.go
+++ b/circuitcompiler/gate.go
@@ -46,14 +46,14 @@ func (gate *Gate) ID() (id string) {
 
 func (gate *Gate) setAndGetID() (id string) {
 
-	sort.Sort(gate.leftIns)
-	sort.Sort(gate.rightIns)
+	sort.Sort(gate.leftIns.canonical())
+	sort.Sort(gate.rightIns.canonical())
 	l := hashFactorsToBig(gate.leftIns)
 	r := hashFactorsToBig(gate.rightIns)
 	//we add the hashes of the multiplication part. a cheap way to consider the commutativity in the id creation to avoid duplicates such as a*b and b*a
 	lr := new(big.Int).Add(l, r)
-	sort.Sort(gate.expoIns)
-	sort.Sort(gate.outIns)
+	sort.Sort(gate.expoIns.canonical())
+	sort.Sort(gate.outIns.canonical())
 	eo := hashFactorsToBig(append(gate.expoIns, gate.outIns...))
 	//gates of different types over the same operands impose different constraints, so they must not share an id
 	typ := sha256.Sum256([]byte{byte(gate.gateType)})
-- 
2.43.0


From e98e9ff5f863d5a980a0734d70759bbd619e9bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:54 +0000
Subject: [PATCH 54/74] fix: elements missing in an array are taken from a
 hidden array of the same name, initialisers see the array they initialise

---
 circuitcompiler/Programm.go |  39 ++++++++++++-
 circuitcompiler/circuit.go  | 110 ++++++++++++++++++++++++------------
 2 files changed, 111 insertions(+), 38 deletions(-)

diff --git a/circuitcompiler/Programm.go b/circuitcompiler/Programm.go
index 938a215..8245cc5 100644
--- a/circuitcompiler/Programm.go
+++ b/circuitcompiler/Programm.go
@@ -201,6 +201,19 @@ func (currentCircuit *function) resolveArrayName(c *Constraint) string {
 	return arrayIdentifier
 }
 
+//resolveElement gives the name of an element of a visible array
+func (currentCircuit *function) resolveElement(c *Constraint) string {
+	element := currentCircuit.resolveArrayName(c)
+	array, ex := currentCircuit.findArrayInBloodline(c.Output.Identifier)
+	if !ex {
+		panic(fmt.Sprintf("array %s not declared", c.Output.Identifier))
+	}
+	if _, ex := array.functions[element]; !ex {
+		panic(fmt.Sprintf("array %s does not have an element %s", c.Output.Identifier, element))
+	}
+	return element
+}
+
 //Execute runs on a program and returns a precursor for the final R1CS description
 func (p *Program) Execute() (orderedmGates []*Gate) {
 
@@ -351,7 +364,7 @@ func (currentCircuit *function) compile(currentConstraint *Constraint, gateColle
 
 		if currentConstraint.Inputs[0].Output.Type == ARRAY_CALL {
 			// myArray[7*3] = expression
-			toOverloadIdentifier = currentCircuit.resolveArrayName(currentConstraint.Inputs[0])
+			toOverloadIdentifier = currentCircuit.resolveElement(currentConstraint.Inputs[0])
 			//myArray[21] = expression
 		}
 
@@ -378,8 +391,30 @@ func (currentCircuit *function) compile(currentConstraint *Constraint, gateColle
 
 		return facs, false, function{}
 
+	case ARRAY_DECLARE:
+		//the array is visible as soon as all of its elements have been computed
+		for i := range currentConstraint.Inputs {
+			currentCircuit.pending[fmt.Sprintf("%s[%v]", currentConstraint.Output.Identifier, i)] = true
+		}
+		currentCircuit.pending[currentConstraint.Output.Identifier] = true
+		elements := make([]*function, len(currentConstraint.Inputs))
+		for i, value := range currentConstraint.Inputs {
+			facs, _, fkt := currentCircuit.compile(value, gateCollector)
+			if facs == nil {
+				elements[i] = &fkt
+				continue
+			}
+			elements[i] = facs.primitiveReturnfunction()
+		}
+		for i, element := range elements {
+			identifier := fmt.Sprintf("%s[%v]", currentConstraint.Output.Identifier, i)
+			currentCircuit.functions[identifier] = element
+			delete(currentCircuit.pending, identifier)
+		}
+		delete(currentCircuit.pending, currentConstraint.Output.Identifier)
+		return nil, false, function{}
 	case ARRAY_CALL:
-		resolvedName := currentCircuit.resolveArrayName(currentConstraint)
+		resolvedName := currentCircuit.resolveElement(currentConstraint)
 		if con, ex := currentCircuit.findConstraintInBloodline(resolvedName); ex {
 			a, _, fkt := currentCircuit.compile(con, gateCollector)
 			return a, false, fkt
diff --git a/circuitcompiler/circuit.go b/circuitcompiler/circuit.go
index 066d235..4296ada 100644
--- a/circuitcompiler/circuit.go
+++ b/circuitcompiler/circuit.go
@@ -3,6 +3,7 @@ package circuitcompiler
 import (
 	"fmt"
 	"math/big"
+	"strings"
 )
 
 var variableIndicationSign = "@"
@@ -59,6 +60,11 @@ func checkName(name string) {
 	}
 }
 
+//arrayName returns the name of the array an element such as a[1][2] belongs to, and any other name as it is
+func arrayName(element string) string {
+	return strings.SplitN(element, "[", 2)[0]
+}
+
 func RegisterFunctionFromConstraint(constraint *Constraint, context *function) (c *function) {
 
 	name := constraint.Output.Identifier
@@ -69,6 +75,16 @@ func RegisterFunctionFromConstraint(constraint *Constraint, context *function) (
 		checkName(arg.Output.Identifier)
 		c.Inputs = append(c.Inputs, arg.Output.Identifier)
 
+		if array := arrayName(arg.Output.Identifier); array != arg.Output.Identifier {
+			checkName(array)
+			if con, ex := c.constraintMap[array]; ex && con.Output.Type != ARRAY_DECLARE {
+				panic(fmt.Sprintf("argument: %v , is not unique ", array))
+			}
+			c.constraintMap[array] = &Constraint{Output: Token{Type: ARRAY_DECLARE, Identifier: array}}
+		} else if _, ex := c.constraintMap[array]; ex {
+			panic(fmt.Sprintf("argument: %v , is not unique ", array))
+		}
+
 		cl := arg.clone()
 		cl.Output.Type = FUNCTION_CALL
 		c.constraintMap[arg.Output.Identifier] = cl
@@ -166,6 +182,7 @@ func (currentCircuit *function) preCompile(constraintStack []*Constraint) {
 	case IF_ELSE_CHAIN_END:
 		break
 	case ARRAY_DECLARE:
+		checkName(currentConstraint.Output.Identifier)
 		if _, ex := currentCircuit.constraintMap[currentConstraint.Output.Identifier]; ex {
 			panic(fmt.Sprintf("array %s already declared", currentConstraint.Output.Identifier))
 		}
@@ -174,46 +191,15 @@ func (currentCircuit *function) preCompile(constraintStack []*Constraint) {
 		}
 
 		currentCircuit.constraintMap[currentConstraint.Output.Identifier] = currentConstraint
+		currentCircuit.declared[currentConstraint.Output.Identifier] = true
 
-		for i := 0; i < len(currentConstraint.Inputs); i++ {
-			element := fmt.Sprintf("%s[%v]", currentConstraint.Output.Identifier, i)
-			constr := &Constraint{
-				Output: Token{
-					Type:       VARIABLE_DECLARE,
-					Identifier: element,
-				},
-				Inputs: []*Constraint{currentConstraint.Inputs[i]},
-			}
-			currentCircuit.preCompile([]*Constraint{constr})
-
-			//circ.taskUpdate(constr)
+		for i, value := range currentConstraint.Inputs {
+			currentCircuit.declareVariable(fmt.Sprintf("%s[%v]", currentConstraint.Output.Identifier, i), value)
 		}
+		currentCircuit.taskStack.add(currentConstraint)
 	case VARIABLE_DECLARE:
 		checkName(currentConstraint.Output.Identifier)
-		if _, ex := currentCircuit.functions[currentConstraint.Output.Identifier]; ex {
-			panic(fmt.Sprintf("variable %s already declared", currentConstraint.Output.Identifier))
-		}
-		if _, ex := currentCircuit.constraintMap[currentConstraint.Output.Identifier]; ex {
-			panic(fmt.Sprintf("variable %s overloads array with same name", currentConstraint.Output.Identifier))
-		}
-		rmp := newCircuit(currentConstraint.Output.Identifier, currentCircuit)
-		rmp.taskStack.add(&Constraint{
-			Output: Token{
-				Type:       RETURN,
-				Identifier: "",
-			},
-			Inputs: currentConstraint.Inputs,
-		},
-		)
-		currentCircuit.functions[currentConstraint.Output.Identifier] = rmp
-		currentCircuit.declared[currentConstraint.Output.Identifier] = true
-		//is this still necessary..
-		currentCircuit.constraintMap[currentConstraint.Output.Identifier] = &Constraint{
-			Output: Token{
-				Type:       FUNCTION_CALL,
-				Identifier: currentConstraint.Output.Identifier,
-			},
-		}
+		currentCircuit.declareVariable(currentConstraint.Output.Identifier, currentConstraint.Inputs[0])
 		//declarations exist only for static semantic check. from now on we treat it like overload
 		currentCircuit.taskStack.add(&Constraint{
 			Output: Token{
@@ -290,6 +276,34 @@ func (currentCircuit *function) preCompile(constraintStack []*Constraint) {
 	currentCircuit.preCompile(constraintStack[1:])
 }
 
+//declareVariable makes a variable or an element of an array known to the function
+func (currentCircuit *function) declareVariable(identifier string, value *Constraint) {
+	if _, ex := currentCircuit.functions[identifier]; ex {
+		panic(fmt.Sprintf("variable %s already declared", identifier))
+	}
+	if _, ex := currentCircuit.constraintMap[identifier]; ex {
+		panic(fmt.Sprintf("variable %s overloads array with same name", identifier))
+	}
+	rmp := newCircuit(identifier, currentCircuit)
+	rmp.taskStack.add(&Constraint{
+		Output: Token{
+			Type:       RETURN,
+			Identifier: "",
+		},
+		Inputs: []*Constraint{value},
+	},
+	)
+	currentCircuit.functions[identifier] = rmp
+	currentCircuit.declared[identifier] = true
+	//is this still necessary..
+	currentCircuit.constraintMap[identifier] = &Constraint{
+		Output: Token{
+			Type:       FUNCTION_CALL,
+			Identifier: identifier,
+		},
+	}
+}
+
 func (circ *function) contextCheckInputs(constraint *Constraint) {
 	for i := 0; i < len(constraint.Inputs); i++ {
 		circ.contextCheck(constraint.Inputs[i])
@@ -339,6 +353,27 @@ func (circ *function) contextCheck(constraint *Constraint) {
 	return
 }
 
+//declaresArray tells whether the name stands for an array of this function
+func (currentCircuit *function) declaresArray(identifier string) bool {
+	con, ex := currentCircuit.constraintMap[identifier]
+	return ex && con.Output.Type == ARRAY_DECLARE && !currentCircuit.pending[identifier]
+}
+
+//findArrayInBloodline returns the function that holds the elements of the array. an array, variable or function hides
+//the arrays of the same name in the anchestors
+func (currentCircuit *function) findArrayInBloodline(identifier string) (*function, bool) {
+	if currentCircuit == nil {
+		return nil, false
+	}
+	if currentCircuit.declaresArray(identifier) {
+		return currentCircuit, true
+	}
+	if _, ex := currentCircuit.functions[identifier]; ex && !currentCircuit.pending[identifier] {
+		return nil, false
+	}
+	return currentCircuit.Context.findArrayInBloodline(identifier)
+}
+
 func (currentCircuit *function) findFunctionInBloodline(identifier string) (*function, bool) {
 	if currentCircuit == nil {
 		return nil, false
@@ -346,6 +381,9 @@ func (currentCircuit *function) findFunctionInBloodline(identifier string) (*fun
 	if con, ex := currentCircuit.functions[identifier]; ex && !currentCircuit.pending[identifier] {
 		return con, true
 	}
+	if currentCircuit.declaresArray(identifier) {
+		return nil, false
+	}
 	return currentCircuit.Context.findFunctionInBloodline(identifier)
 
 }
-- 
2.43.0


From 8630bc06ee6bd571c940cfec08bbc7e6f7fe828e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:38 +0000
Subject: [PATCH 55/74] fix: gates of different content do not share an id, ids
 are neither shortened nor mistaken for constants

---
 circuitcompiler/factorHandling.go | 2 +-
 circuitcompiler/gate.go           | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/circuitcompiler/factorHandling.go b/circuitcompiler/factorHandling.go
index bec89df..bf7761e 100644
--- a/circuitcompiler/factorHandling.go
+++ b/circuitcompiler/factorHandling.go
@@ -99,7 +99,7 @@ func hashFactorsToBig(f factors) *big.Int {
 
 func (fac factors) factorSignature() string {
 	h := hashFactorsToBig(fac)
-	return h.String()[:16]
+	return "#" + h.String()
 }
 
 func extractGCD_andSignature(leftFactors factors) (sig MultiplicationGateSignature, extractedLeftFactors factors) {
diff --git a/circuitcompiler/gate.go b/circuitcompiler/gate.go
index c3f9ee4..12bc795 100644
--- a/circuitcompiler/gate.go
+++ b/circuitcompiler/gate.go
@@ -58,7 +58,8 @@ func (gate *Gate) setAndGetID() (id string) {
 	//gates of different types over the same operands impose different constraints, so they must not share an id
 	typ := sha256.Sum256([]byte{byte(gate.gateType)})
 	lr.Xor(lr, eo)
-	gate.identifier = lr.Xor(lr, new(big.Int).SetBytes(typ[:])).String()[:16]
+	//no identifier and no number of a program contains a '#'. the id is not shortened, since gates with equal ids are considered equal
+	gate.identifier = "#" + lr.Xor(lr, new(big.Int).SetBytes(typ[:])).String()
 	return gate.identifier
 }
 func (gate *Gate) minimizeR1CSDescriptiveComplexity() {
-- 
2.43.0


From 8d5d1c207afc891988c731077085054732564792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:56 +0000
Subject: [PATCH 56/74] fix: a quoted text is only accepted behind import

---
 circuitcompiler/lexer.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/circuitcompiler/lexer.go b/circuitcompiler/lexer.go
index e723c29..5e96f61 100644
--- a/circuitcompiler/lexer.go
+++ b/circuitcompiler/lexer.go
@@ -194,6 +194,8 @@ type Lexer struct {
 	currentLine     int
 	alreadyNewline  bool
 	failure         interface{}
+	//type of the token that was emitted last
+	emitted TokenType
 }
 
 // New creates a returns a lexer ready to parse the given source code.
@@ -237,6 +239,7 @@ func (l *Lexer) Emit(t TokenType) {
 		Identifier: l.Current(),
 	}
 	l.tokens <- tok
+	l.emitted = t
 	l.start = l.position
 	l.rewind.clear()
 }
@@ -413,6 +416,10 @@ func IdentState(l *Lexer) StateFunc {
 	}
 
 	if peek == '"' {
+		if l.emitted != IMPORT {
+			l.Error("a quoted text is only expected behind import")
+			return nil
+		}
 		l.Next()
 		l.Ignore()
 		for l.Peek() != '"' { // we read everything inside " ", used for import
-- 
2.43.0


From 1283c1bf2998fc0dee65f371c8b3b9860b63ba1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:23 +0000
Subject: [PATCH 57/74] fix: brackets that are opened but not closed are
 refused

---
 circuitcompiler/parser.go | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/circuitcompiler/parser.go b/circuitcompiler/parser.go
index 311afea..2c44e0c 100644
--- a/circuitcompiler/parser.go
+++ b/circuitcompiler/parser.go
@@ -671,9 +671,35 @@ func (p *Parser) stackAllTokens() []Token {
 	stack = append(stack, Token{
 		Type: EOF,
 	})
+	p.checkBrackets(stack)
 	return stack
 }
 
+//checkBrackets refuses code, in which brackets of one of the three kinds are not closed in the order they were opened
+func (p *Parser) checkBrackets(in []Token) {
+	closing := map[string]string{"(": ")", "[": "]", "{": "}"}
+	var expected []string
+	for _, tok := range in {
+		if tok.Type != SyntaxToken {
+			continue
+		}
+		if c, opens := closing[tok.Identifier]; opens {
+			expected = append(expected, c)
+			continue
+		}
+		switch tok.Identifier {
+		case ")", "]", "}":
+			if len(expected) == 0 || expected[len(expected)-1] != tok.Identifier {
+				p.error("unexpected closing bracket '%v'", tok.Identifier)
+			}
+			expected = expected[:len(expected)-1]
+		}
+	}
+	if len(expected) != 0 {
+		p.error("closing bracket '%v' missing", expected[len(expected)-1])
+	}
+}
+
 func (p *Parser) stackTillBreak() []Token {
 	var stack []Token
 	for tok := p.nextToken(); tok.Identifier != "\n" || tok.Type == EOF; tok = p.nextToken() {
-- 
2.43.0


From b4ae54f551b5bb7a53830ca999a3cc3fa1e520e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:43 +0000
Subject: [PATCH 58/74] fix: only a name can be followed by an index

---
 circuitcompiler/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/circuitcompiler/parser.go b/circuitcompiler/parser.go
index 2c44e0c..d7071a1 100644
--- a/circuitcompiler/parser.go
+++ b/circuitcompiler/parser.go
@@ -546,7 +546,7 @@ func (p *Parser) parseExpression(stack []Token, constraint *Constraint) {
 		return
 	}
 
-	if stack[1].Identifier == "[" && stack[len(stack)-1].Identifier == "]" {
+	if stack[0].Type == IDENTIFIER_VARIABLE && stack[1].Identifier == "[" && stack[len(stack)-1].Identifier == "]" {
 		rtok := Token{
 			Type:       ARRAY_CALL,
 			Identifier: stack[0].Identifier,
-- 
2.43.0


From 14398926ea306c99eda5e10438d0bcb754174acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:43 +0000
Subject: [PATCH 59/74] fix: numbers, operators and keywords are no names of
 functions

---
 circuitcompiler/parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/circuitcompiler/parser.go b/circuitcompiler/parser.go
index d7071a1..bfa6b5e 100644
--- a/circuitcompiler/parser.go
+++ b/circuitcompiler/parser.go
@@ -167,6 +167,9 @@ func (p *Parser) statementMode(tokens []Token) {
 		toks := Tokens{toks: tokens}
 		var tok = toks.next() //func
 		tok = toks.next()     //function name
+		if tok.Type&(IDENTIFIER_VARIABLE|FUNCTION_CALL) == 0 {
+			p.error("Function name expected, got %v : %v", tok.Identifier, tok.Type)
+		}
 
 		FuncConstraint := &Constraint{
 			Output: Token{Type: FUNCTION_DEFINE, Identifier: tok.Identifier},
-- 
2.43.0


From 9f32e2252512d392613946b6e619953aa4bc46e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:43 +0000
Subject: [PATCH 60/74] fix: assignments within an expression are refused

---
 circuitcompiler/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/circuitcompiler/parser.go b/circuitcompiler/parser.go
index bfa6b5e..61c3f60 100644
--- a/circuitcompiler/parser.go
+++ b/circuitcompiler/parser.go
@@ -486,7 +486,7 @@ func (p *Parser) parseExpression(stack []Token, constraint *Constraint) {
 	l, r = stripOfBrackets(l), stripOfBrackets(r)
 
 	// exp Operator exp
-	if binOperation.Type&Operator != 0 {
+	if binOperation.Type&Operator != 0 && binOperation.Type != AssignmentOperatorToken {
 		newTok := Token{
 			Type:       UNASIGNEDVAR,
 			Identifier: combineString(stack),
-- 
2.43.0


From e4b93861ea58823544867a8dd9ee93f53d6c58ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:36 +0000
Subject: [PATCH 61/74] fix: global variables are not visible before their
 declaration

---
 circuitcompiler/Programm.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/circuitcompiler/Programm.go b/circuitcompiler/Programm.go
index 8245cc5..4e0f504 100644
--- a/circuitcompiler/Programm.go
+++ b/circuitcompiler/Programm.go
@@ -220,8 +220,7 @@ func (p *Program) Execute() (orderedmGates []*Gate) {
 	container := newGateContainer()
 	//the execution overwrites variables, hence it runs on a copy of the program
 	global := p.globalFunction.flatCopy()
-	//global variables are visible everywhere. they get their values before main starts
-	global.pending = make(map[string]bool)
+	//global variables get their values before main starts
 	for _, task := range global.taskStack.data {
 		global.compile(task, container)
 	}
-- 
2.43.0


From c9952954c8e2105cdc565fa4f9afc1ce92866633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:05 +0000
Subject: [PATCH 62/74] fix: public inputs can only be declared in the main
 function of the program

---
 circuitcompiler/circuit.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/circuitcompiler/circuit.go b/circuitcompiler/circuit.go
index 4296ada..7681ce9 100644
--- a/circuitcompiler/circuit.go
+++ b/circuitcompiler/circuit.go
@@ -114,7 +114,8 @@ func (currentCircuit *function) preCompile(constraintStack []*Constraint) {
 
 	switch currentConstraint.Output.Type {
 	case PUBLIC:
-		if currentCircuit.Name != "main" {
+		//a function of another one could have the same name
+		if currentCircuit.Name != "main" || currentCircuit.Context.Context != nil {
 			panic("public zkSNARK parameters need to be declared in main function")
 		}
 	case IF:
-- 
2.43.0


From 1f0e60c8681b064858aeb342e17f2aaa7bd4096d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:31 +0000
Subject: [PATCH 63/74] fix: main runs on a copy of itself, a reference to main
 in main does not end in a stack overflow

---
 circuitcompiler/Programm.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/circuitcompiler/Programm.go b/circuitcompiler/Programm.go
index 4e0f504..4d1f2b7 100644
--- a/circuitcompiler/Programm.go
+++ b/circuitcompiler/Programm.go
@@ -224,7 +224,8 @@ func (p *Program) Execute() (orderedmGates []*Gate) {
 	for _, task := range global.taskStack.data {
 		global.compile(task, container)
 	}
-	mainCircuit := global.functions["main"]
+	//like every function, main runs on a copy of itself. it could refer to itself otherwise
+	mainCircuit := global.functions["main"].flatCopy()
 
 	for i := 0; i < mainCircuit.taskStack.len(); i++ {
 		f, returns, _ := mainCircuit.compile(mainCircuit.taskStack.data[i], container)
-- 
2.43.0


From d7ac5090bf57e3100914d6831a41eb57ea7e2579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:08 +0000
Subject: [PATCH 64/74] fix: a variable is no main function

---
 circuitcompiler/circuit.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/circuitcompiler/circuit.go b/circuitcompiler/circuit.go
index 7681ce9..06374b1 100644
--- a/circuitcompiler/circuit.go
+++ b/circuitcompiler/circuit.go
@@ -279,6 +279,9 @@ func (currentCircuit *function) preCompile(constraintStack []*Constraint) {
 
 //declareVariable makes a variable or an element of an array known to the function
 func (currentCircuit *function) declareVariable(identifier string, value *Constraint) {
+	if identifier == "main" && currentCircuit.Context == nil {
+		panic("main has to be a function")
+	}
 	if _, ex := currentCircuit.functions[identifier]; ex {
 		panic(fmt.Sprintf("variable %s already declared", identifier))
 	}
-- 
2.43.0


From 84728a89ac6acda4d841c58f2511e9f5f17f3be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:55 +0000
Subject: [PATCH 65/74] fix: programs whose last line is a statement do not
 need a linebreak at their end

---
 circuitcompiler/parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/circuitcompiler/parser.go b/circuitcompiler/parser.go
index 61c3f60..f3853f9 100644
--- a/circuitcompiler/parser.go
+++ b/circuitcompiler/parser.go
@@ -671,7 +671,11 @@ func (p *Parser) stackAllTokens() []Token {
 	for tok := p.nextToken(); tok.Type != EOF; tok = p.nextToken() {
 		stack = append(stack, *tok)
 	}
+	//the last line does not need to end with a linebreak
 	stack = append(stack, Token{
+		Type:       SyntaxToken,
+		Identifier: "\n",
+	}, Token{
 		Type: EOF,
 	})
 	p.checkBrackets(stack)
-- 
2.43.0


From 1c3151abd3acff49adeeb27fdbb7f91f88b84a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:21 +0000
Subject: [PATCH 66/74] fix: a function without arguments hides variables of
 its name that are declared further outside

---
 circuitcompiler/Programm.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/circuitcompiler/Programm.go b/circuitcompiler/Programm.go
index 4d1f2b7..c1ebe9b 100644
--- a/circuitcompiler/Programm.go
+++ b/circuitcompiler/Programm.go
@@ -295,7 +295,9 @@ func (currentCircuit *function) compile(currentConstraint *Constraint, gateColle
 			}
 			if len(f.Inputs) == 0 {
 
-				if con, ex := currentCircuit.findConstraintInBloodline(currentConstraint.Output.Identifier); ex {
+				//a function hides the variables of its name, which are declared further outside
+				owner, _ := currentCircuit.getCircuitContainingFunctionInBloodline(currentConstraint.Output.Identifier)
+				if con, ex := owner.constraintMap[currentConstraint.Output.Identifier]; ex {
 					return currentCircuit.compile(con, gateCollector)
 				}
 				panic(fmt.Sprintf("variable %s not declared", currentConstraint.Output.Identifier))
-- 
2.43.0


From 4734aded6b2f2826bc97bd6b213e63a617639b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:46 +0000
Subject: [PATCH 67/74] fix: main cannot be overwritten

---
 circuitcompiler/Programm.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/circuitcompiler/Programm.go b/circuitcompiler/Programm.go
index c1ebe9b..aeb53e6 100644
--- a/circuitcompiler/Programm.go
+++ b/circuitcompiler/Programm.go
@@ -383,6 +383,9 @@ func (currentCircuit *function) compile(currentConstraint *Constraint, gateColle
 		if !ex {
 			panic("does not exist")
 		}
+		if toOverloadIdentifier == "main" && context.Context == nil {
+			panic("main cannot be overwritten")
+		}
 		if facs == nil {
 			context.functions[toOverloadIdentifier] = &fkt
 			return nil, false, function{}
-- 
2.43.0


From e914ce16a3b6be7a5fc382368ddac515ed9075c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:25 +0000
Subject: [PATCH 68/74] fix: a return outside of functions is refused in nested
 blocks as well

---
 circuitcompiler/Programm.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/circuitcompiler/Programm.go b/circuitcompiler/Programm.go
index aeb53e6..f827a8c 100644
--- a/circuitcompiler/Programm.go
+++ b/circuitcompiler/Programm.go
@@ -222,7 +222,9 @@ func (p *Program) Execute() (orderedmGates []*Gate) {
 	global := p.globalFunction.flatCopy()
 	//global variables get their values before main starts
 	for _, task := range global.taskStack.data {
-		global.compile(task, container)
+		if _, returns, _ := global.compile(task, container); returns {
+			panic("return outside of a function")
+		}
 	}
 	//like every function, main runs on a copy of itself. it could refer to itself otherwise
 	mainCircuit := global.functions["main"].flatCopy()
-- 
2.43.0


From 7e2e9ef74d97f239dfc1a6cb0e9b2813f6cb72b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:30 +0000
Subject: [PATCH 69/74] fix: emitting constraints leaves the gates as they are

---
 circuitcompiler/Programm.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/circuitcompiler/Programm.go b/circuitcompiler/Programm.go
index f827a8c..0fede41 100644
--- a/circuitcompiler/Programm.go
+++ b/circuitcompiler/Programm.go
@@ -791,9 +791,10 @@ func (p *Program) GatesToR1CS(mGates []*Gate, randomize bool) (r1CS *ER1CS) {
 		//we want to reduce the number of exponentiations in the slower group G2
 		//since a*b = b*a, we swap in case
 		if len(g.rightIns) > len(g.leftIns) {
-			tmp := g.rightIns
-			g.rightIns = g.leftIns
-			g.leftIns = tmp
+			//the gates belong to the caller, so they are not changed
+			swapped := *g
+			swapped.leftIns, swapped.rightIns = g.rightIns, g.leftIns
+			g = &swapped
 		}
 
 		switch g.gateType {
@@ -1000,9 +1001,10 @@ func (p *Program) GatesToSparseR1CS(mGates []*Gate, randomize bool) (r1CS *ER1CS
 		//we want to reduce the number of exponentiations in the slower group G2
 		//since a*b = b*a, we swap in case
 		if len(g.rightIns) > len(g.leftIns) {
-			tmp := g.rightIns
-			g.rightIns = g.leftIns
-			g.leftIns = tmp
+			//the gates belong to the caller, so they are not changed
+			swapped := *g
+			swapped.leftIns, swapped.rightIns = g.rightIns, g.leftIns
+			g = &swapped
 		}
 
 		switch g.gateType {
-- 
2.43.0


From 6271cf30be144d263248ae6b96fc6f5323d96be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:47 +0000
Subject: [PATCH 70/74] fix: polynomials without coefficients can be evaluated
 and multiplied

---
 utils/finiteField.go     | 4 ++++
 utils/polynomialField.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/utils/finiteField.go b/utils/finiteField.go
index a403947..8372b83 100644
--- a/utils/finiteField.go
+++ b/utils/finiteField.go
@@ -184,6 +184,10 @@ func (fq Fq) ExpInt(base *big.Int, e uint) *big.Int {
 //EvalPoly Evaluates a polynomial v at position x, using the Horners Rule
 func (fq Fq) EvalPoly(v []*big.Int, x *big.Int) *big.Int {
 
+	//the zero polynomial may have no coefficients at all, such as the remainder of a division by a constant
+	if len(v) == 0 {
+		return fq.Zero()
+	}
 	if len(v) == 1 {
 		return fq.Copy(v[0])
 	}
diff --git a/utils/polynomialField.go b/utils/polynomialField.go
index 7fc69c2..994b29e 100644
--- a/utils/polynomialField.go
+++ b/utils/polynomialField.go
@@ -64,6 +64,10 @@ func NewPolynomialField(f Fq) (pf *PolynomialField) {
 
 // Mul multiplies two polinomials over the Finite Field
 func (pf PolynomialField) Mul(a, b []*big.Int) []*big.Int {
+	//the zero polynomial may have no coefficients at all
+	if len(a) == 0 || len(b) == 0 {
+		return ArrayOfBigZeros(0)
+	}
 	r := ArrayOfBigZeros(len(a) + len(b) - 1)
 	for i := 0; i < len(a); i++ {
 		for j := 0; j < len(b); j++ {
-- 
2.43.0


From dcabb28f0ca9cac637d33c6ec11c169c2a5563cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:22 +0000
Subject: [PATCH 71/74] fix: multiples by negative numbers are those of the
 opposite element

---
 pairing/curve.go | 6 ++++++
 pairing/gfp12.go | 5 +++++
 pairing/twist.go | 9 +++++++--
 3 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/pairing/curve.go b/pairing/curve.go
index 91baf41..c18836f 100644
--- a/pairing/curve.go
+++ b/pairing/curve.go
@@ -231,6 +231,12 @@ func (c *curvePoint) Double(a *curvePoint, pool *bnPool) {
 }
 
 func (c *curvePoint) Mul(a *curvePoint, scalar *big.Int, pool *bnPool) *curvePoint {
+	//the bits of a negative number are those of its two's complement
+	if scalar.Sign() < 0 {
+		c.Mul(a, new(big.Int).Neg(scalar), pool)
+		c.Negative(c)
+		return c
+	}
 	sum := newCurvePoint(pool)
 	sum.SetInfinity()
 	t := newCurvePoint(pool)
diff --git a/pairing/gfp12.go b/pairing/gfp12.go
index f084edd..14cecec 100644
--- a/pairing/gfp12.go
+++ b/pairing/gfp12.go
@@ -131,6 +131,11 @@ func (e *gfP12) MulScalar(a *gfP12, b *gfP6, pool *bnPool) *gfP12 {
 }
 
 func (c *gfP12) Exp(a *gfP12, power *big.Int, pool *bnPool) *gfP12 {
+	//the bits of a negative number are those of its two's complement
+	if power.Sign() < 0 {
+		c.Exp(a, new(big.Int).Neg(power), pool)
+		return c.Invert(c, pool)
+	}
 	sum := newGFp12(pool)
 	sum.SetOne()
 	t := newGFp12(pool)
diff --git a/pairing/twist.go b/pairing/twist.go
index 16ea8ba..718eaca 100644
--- a/pairing/twist.go
+++ b/pairing/twist.go
@@ -208,6 +208,12 @@ func (c *twistPoint) Double(a *twistPoint, pool *bnPool) {
 }
 
 func (c *twistPoint) Mul(a *twistPoint, scalar *big.Int, pool *bnPool) *twistPoint {
+	//the bits of a negative number are those of its two's complement
+	if scalar.Sign() < 0 {
+		c.Mul(a, new(big.Int).Neg(scalar), pool)
+		c.Negative(c, pool)
+		return c
+	}
 	sum := newTwistPoint(pool)
 	sum.SetInfinity()
 	t := newTwistPoint(pool)
@@ -258,8 +264,7 @@ func (c *twistPoint) MakeAffine(pool *bnPool) *twistPoint {
 
 func (c *twistPoint) Negative(a *twistPoint, pool *bnPool) {
 	c.x.Set(a.x)
-	c.y.SetZero()
-	c.y.Sub(c.y, a.y)
+	c.y.Negative(a.y)
 	c.z.Set(a.z)
 	c.t.SetZero()
 }
-- 
2.43.0


From 184265f1153f4e52cea11833beee321692ee1da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:59 +0000
Subject: [PATCH 72/74] fix: decoding an element of the target group checks its
 coordinates

---
 pairing/bn256.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pairing/bn256.go b/pairing/bn256.go
index 792db91..8e7121c 100644
--- a/pairing/bn256.go
+++ b/pairing/bn256.go
@@ -420,6 +420,13 @@ func (e *GT) Unmarshal(m []byte) (*GT, bool) {
 	e.p.y.z.x.SetBytes(m[10*numBytes : 11*numBytes])
 	e.p.y.z.y.SetBytes(m[11*numBytes : 12*numBytes])
 
+	//check the caps of the coordinates
+	for _, c := range []*gfP2{e.p.x.x, e.p.x.y, e.p.x.z, e.p.y.x, e.p.y.y, e.p.y.z} {
+		if c.x.Cmp(P) >= 0 || c.y.Cmp(P) >= 0 {
+			return nil, false
+		}
+	}
+
 	return e, true
 }
 
-- 
2.43.0


From 0e332510cc69ddf050b433faade3690a8507559a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:22 +0000
Subject: [PATCH 73/74] fix: the smallest node of an empty tree, like the
 largest one, is zero

---
 utils/avl.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/utils/avl.go b/utils/avl.go
index f228b6a..48d2a88 100644
--- a/utils/avl.go
+++ b/utils/avl.go
@@ -128,7 +128,9 @@ func (t *AvlTree) MinNode() *AvlNode {
 	return t.root.minNode()
 }
 func (root *AvlNode) minNode() (t *AvlNode) {
-
+	if root == nil {
+		return &AvlNode{key: 0, value: bigZero}
+	}
 	if root.left != nil {
 		return root.left.minNode()
 	}
-- 
2.43.0


From 37dfb6606a94b75e53cd2fd7c9b22fcecbd22718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:42 +0000
Subject: [PATCH 74/74] fix: gates of functions called in conditions and
 indices belong to the program

---
 circuitcompiler/Programm.go | 19 ++++++++++---------
 circuitcompiler/circuit.go  |  7 ++++---
 circuitcompiler/parser.go   |  2 +-
 3 files changed, 15 insertions(+), 13 deletions(-)

diff --git a/circuitcompiler/Programm.go b/circuitcompiler/Programm.go
index 0fede41..cb3feca 100644
--- a/circuitcompiler/Programm.go
+++ b/circuitcompiler/Programm.go
@@ -179,13 +179,14 @@ func (currentCircuit *function) getsLoadedWith(newInputs []*function) (allArgume
 }
 
 //helper function
-func (currentCircuit *function) resolveArrayName(c *Constraint) string {
+func (currentCircuit *function) resolveArrayName(c *Constraint, gateCollector *gateContainer) string {
 	var arrayIdentifier = c.Output.Identifier
 	//if len(c.Inputs) < 1 {
 	//	panic("accessing array index failed")
 	//}
 	for _, in := range c.Inputs {
-		indexFactors, _, _ := currentCircuit.compile(in, newGateContainer())
+		//an index may call functions, whose gates belong to the program
+		indexFactors, _, _ := currentCircuit.compile(in, gateCollector)
 		if !indexFactors.isSingleNumber() {
 			panic("cannot access array dynamically in an arithmetic circuit currently")
 		}
@@ -202,8 +203,8 @@ func (currentCircuit *function) resolveArrayName(c *Constraint) string {
 }
 
 //resolveElement gives the name of an element of a visible array
-func (currentCircuit *function) resolveElement(c *Constraint) string {
-	element := currentCircuit.resolveArrayName(c)
+func (currentCircuit *function) resolveElement(c *Constraint, gateCollector *gateContainer) string {
+	element := currentCircuit.resolveArrayName(c, gateCollector)
 	array, ex := currentCircuit.findArrayInBloodline(c.Output.Identifier)
 	if !ex {
 		panic(fmt.Sprintf("array %s not declared", c.Output.Identifier))
@@ -244,7 +245,7 @@ func (currentCircuit *function) execute(gateCollector *gateContainer) (facs fact
 	for _, task := range currentCircuit.taskStack.data {
 		if task.Output.Type == IF {
 			//the tasks of an if-else chain are its branches. only the first one whose condition holds gets executed
-			if len(task.Inputs) > 0 && !currentCircuit.checkStaticCondition(task.Inputs[0]) {
+			if len(task.Inputs) > 0 && !currentCircuit.checkStaticCondition(task.Inputs[0], gateCollector) {
 				continue
 			}
 			return currentCircuit.compile(&Constraint{
@@ -314,7 +315,7 @@ func (currentCircuit *function) compile(currentConstraint *Constraint, gateColle
 
 	case FOR:
 		//we check the condition each time we rerun the loop
-		for currentCircuit.checkStaticCondition(currentConstraint.Inputs[0]) {
+		for currentCircuit.checkStaticCondition(currentConstraint.Inputs[0], gateCollector) {
 			body, ex := currentCircuit.findFunctionInBloodline(currentConstraint.Output.Identifier)
 			if !ex {
 				panic(fmt.Sprintf("loop body %s not declared", currentConstraint.Output.Identifier))
@@ -368,7 +369,7 @@ func (currentCircuit *function) compile(currentConstraint *Constraint, gateColle
 
 		if currentConstraint.Inputs[0].Output.Type == ARRAY_CALL {
 			// myArray[7*3] = expression
-			toOverloadIdentifier = currentCircuit.resolveElement(currentConstraint.Inputs[0])
+			toOverloadIdentifier = currentCircuit.resolveElement(currentConstraint.Inputs[0], gateCollector)
 			//myArray[21] = expression
 		}
 
@@ -421,7 +422,7 @@ func (currentCircuit *function) compile(currentConstraint *Constraint, gateColle
 		delete(currentCircuit.pending, currentConstraint.Output.Identifier)
 		return nil, false, function{}
 	case ARRAY_CALL:
-		resolvedName := currentCircuit.resolveElement(currentConstraint)
+		resolvedName := currentCircuit.resolveElement(currentConstraint, gateCollector)
 		if con, ex := currentCircuit.findConstraintInBloodline(resolvedName); ex {
 			a, _, fkt := currentCircuit.compile(con, gateCollector)
 			return a, false, fkt
@@ -429,7 +430,7 @@ func (currentCircuit *function) compile(currentConstraint *Constraint, gateColle
 			panic(fmt.Sprintf("array %s not declared", resolvedName))
 		}
 	case IF:
-		if len(currentConstraint.Inputs) == 0 || currentCircuit.checkStaticCondition(currentConstraint.Inputs[0]) {
+		if len(currentConstraint.Inputs) == 0 || currentCircuit.checkStaticCondition(currentConstraint.Inputs[0], gateCollector) {
 			return currentCircuit.compile(&Constraint{
 				Output: Token{
 					Type:       IF_FUNCTION_CALL,
diff --git a/circuitcompiler/circuit.go b/circuitcompiler/circuit.go
index 06374b1..2a087fd 100644
--- a/circuitcompiler/circuit.go
+++ b/circuitcompiler/circuit.go
@@ -473,14 +473,15 @@ func (circ *function) restore(keys []string) {
 	circ.constraintMap = tmp
 }
 
-func (currentCircuit *function) checkStaticCondition(c *Constraint) (isSatisfied bool) {
+func (currentCircuit *function) checkStaticCondition(c *Constraint, gateCollector *gateContainer) (isSatisfied bool) {
 	//unelegant...
 
 	var factorsA, factorsB factors
 	var A, B *big.Int
 
-	factorsA, _, _ = currentCircuit.compile(c.Inputs[1], newGateContainer())
-	factorsB, _, _ = currentCircuit.compile(c.Inputs[2], newGateContainer())
+	//a condition may call functions, whose gates belong to the program
+	factorsA, _, _ = currentCircuit.compile(c.Inputs[1], gateCollector)
+	factorsB, _, _ = currentCircuit.compile(c.Inputs[2], gateCollector)
 
 	A = field.Copy(factorsA[0].multiplicative)
 	B = field.Copy(factorsB[0].multiplicative)
diff --git a/circuitcompiler/parser.go b/circuitcompiler/parser.go
index f3853f9..33127cb 100644
--- a/circuitcompiler/parser.go
+++ b/circuitcompiler/parser.go
@@ -89,7 +89,7 @@ out:
 			//fmt.Println("#############")
 			//fmt.Println(constraint)
 			if constraint.Output.Type == PUBLIC {
-				a := p.GetMainCircuit().resolveArrayName(constraint)
+				a := p.GetMainCircuit().resolveArrayName(constraint, newGateContainer())
 				p.PublicInputs = append(p.PublicInputs, a)
 			}
 			if checkSemantics {
-- 
2.43.0

