package main

import (
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"os/exec"
	"reflect"
	"strings"
	"sync"
	"unsafe"

	bn256 "github.com/mottla/go-AlgebraicProgram-SNARK/pairing"
	"github.com/mottla/go-AlgebraicProgram-SNARK/utils"
	"github.com/mottla/go-AlgebraicProgram-SNARK/zkSNARK"
)

// Monitors of the proof system: C07 - C12.

// instance is a constraint system with satisfying witnesses
type instance struct {
	*prover
	name string
	pubN int
	wits [][]*big.Int
}

func provableConf(r *rand.Rand) gconf {
	conf := smallConf(r)
	conf.sbm, conf.split = false, false
	conf.selfCheck = chance(r, 1, 10)
	return conf
}

// drawInstance draws a program, or a system no program needs to have, which fits the bounds
func drawInstance(c *Ctx, maxGates, maxWit, wits int) *instance {
	r := c.R
	for {
		var in *instance
		if chance(r, 1, 12) {
			// many constraints over few entries
			in = systemInstance(r, 9+r.Intn(30), min(maxWit, 6), wits, false)
			c.Count("systems of 9 to 38 constraints", 1)
		} else if c.Idx%40 == 11 && !c.large {
			// one long system per such case
			c.large = true
			in = systemInstance(r, 39+r.Intn(120), min(maxWit, 5), wits, chance(r, 1, 3))
			c.Count("systems of 39 to 158 constraints", 1)
		} else if c.Idx%20 == 7 && !c.large {
			// one with many entries, also many public ones
			c.large = true
			for in == nil || in.c.sys.wit < 17 {
				in = systemInstance(r, 2+r.Intn(5), 17+r.Intn(110), wits, chance(r, 1, 3))
			}
			c.Count("systems of 17 to 126 entries", 1)
		} else if chance(r, 1, 6) {
			in = systemInstance(r, 2+r.Intn(maxGates), maxWit, wits, true)
			c.Count("systems with a chosen quotient", 1)
		} else if chance(r, 2, 5) {
			in = systemInstance(r, 1+r.Intn(maxGates), maxWit, wits, false)
		} else {
			in = programInstance(c, maxGates, maxWit, wits)
		}
		if c.failed() {
			return nil
		}
		if in != nil {
			return in
		}
	}
}

func programInstance(c *Ctx, maxGates, maxWit, wits int) *instance {
	r := c.R
	p := drawProgram(r, provableConf(r), maxGates+2)
	src := p.source()
	in := p.inputs(r)
	ok, res := p.solveOuts(in, stepLimit)
	if !ok {
		return nil
	}
	comp, err := compile(src)
	if err != nil {
		if res.div0 {
			return nil
		}
		c.Note("%s", src)
		c.Fail("refused", "a valid program is refused: %v", clip(err.Error(), 500))
		return nil
	}
	s := comp.sys
	if s.gates < 1 || s.gates > maxGates || s.wit > maxWit || comp.pubN >= s.wit {
		return nil
	}
	inst := &instance{name: src, pubN: comp.pubN}
	for k := 0; k < wits; k++ {
		if k > 0 {
			in = p.inputs(r)
			if ok, _ := p.solveOuts(in, stepLimit); !ok {
				continue
			}
		}
		vec := vector(comp.inputs, in)
		w, err, caught := comp.witness(vec)
		if err != nil || caught != nil || s.broken(reduceVec(w, N)) >= 0 {
			// a matter of C01 and C03
			c.Count("witness not usable", 1)
			continue
		}
		// the public signals the source asks for
		want := []*big.Int{bi(1)}
		for _, n := range p.public {
			want = append(want, in[n])
		}
		if !vecEqual(reduceVec(w[:comp.pubN], N), want) {
			c.Note("%s", src)
			c.Fail("signals", "the leading entries of the witness are %v, the public inputs are %v", w[:comp.pubN], want)
			return nil
		}
		inst.wits = append(inst.wits, w)
	}
	if len(inst.wits) == 0 {
		return nil
	}
	inst.prover = newProver(comp)
	return inst
}

// chooseQuotient alters the constants of both sides of every constraint, so that the quotient of the combined polynomial
// and the domain polynomial has coefficients which are zero, above, between and below others
func (s *sys) chooseQuotient(r *rand.Rand, w []*big.Int) {
	n := s.gates
	l := make([]*big.Int, n)
	for i := range l {
		l[i] = fieldElem(r, N)
		if chance(r, 1, 4) {
			l[i] = bi(0)
		}
	}
	l[n-1] = nonZeroElem(r, N)
	D := domainPoly(n, N)
	// the wanted quotient, of degree n-2 and less
	h := make([]*big.Int, n-1)
	for i := range h {
		h[i] = bi(0)
	}
	switch r.Intn(4) {
	case 0: // a single coefficient
		h[r.Intn(len(h))] = nonZeroElem(r, N)
	case 1: // zero
	default:
		for i := range h {
			if chance(r, 1, 2) {
				h[i] = fieldElem(r, N)
			}
		}
	}
	// the other factor, from the highest coefficient down: coefficient n+k of l*r is that of h*D for every k >= 0
	want := polyMul(h, D, N)
	rr := make([]*big.Int, n)
	for i := range rr {
		rr[i] = bi(0)
	}
	inv := minv(l[n-1], N)
	for d := 2*n - 2; d >= n; d-- {
		v := bi(0)
		if d < len(want) {
			v = cp(want[d])
		}
		for i := 0; i < n-1; i++ {
			if d-i < n {
				v = fsub(v, fmul(l[i], rr[d-i]))
			}
		}
		rr[d-(n-1)] = fmul(v, inv)
	}
	rr[0] = fieldElem(r, N)
	for j := 0; j < n; j++ {
		x := bi(int64(j))
		s.L[j][0] = fadd(s.L[j][0], fsub(polyEval(l, x, N), dot(s.L[j], w)))
		s.R[j][0] = fadd(s.R[j][0], fsub(polyEval(rr, x, N), dot(s.R[j], w)))
	}
}

// systemInstance draws a satisfied system
func systemInstance(r *rand.Rand, n, maxWit, wits int, quotient bool) *instance {
	m := 3 + r.Intn(maxWit-2)
	s := randomSystem(r, n, m)
	for j := range s.E {
		for i := range s.E[j] {
			s.E[j][i] = bi(0)
		}
	}
	// all zero columns, left sides and right sides
	for k := r.Intn(3); k > 0; k-- {
		i := r.Intn(m)
		for j := 0; j < n; j++ {
			for _, x := range [][][]*big.Int{s.L, s.R, s.O} {
				x[j][i] = bi(0)
			}
		}
	}
	w := make([]*big.Int, m)
	w[0] = bi(1)
	for i := 1; i < m; i++ {
		w[i] = fieldElem(r, N)
	}
	switch r.Intn(8) {
	case 0:
		for i := 1; i < m; i++ {
			w[i] = bi(0)
		}
	case 1:
		for j := 0; j < n; j++ {
			for i := range s.R[j] {
				s.R[j][i] = bi(0)
			}
		}
	}
	if quotient && n > 1 {
		s.chooseQuotient(r, w)
	}
	for j := 0; j < n; j++ {
		// the constant balances the constraint
		s.O[j][0] = fadd(s.O[j][0], s.defect(j, w))
	}
	if !quotient && chance(r, 1, 6) {
		// every constraint is equal
		for j := 1; j < n; j++ {
			s.L[j], s.R[j], s.O[j] = s.L[0], s.R[0], s.O[0]
		}
	}
	if s.broken(w) >= 0 {
		panic("the drawn system is not satisfied")
	}
	pubN := 1 + r.Intn(m-1)
	comp := &compiled{src: s.String(), dense: s.dense(), sparse: s.sparse(), sys: s, pubN: pubN}
	return &instance{prover: newProver(comp), pubN: pubN, name: s.String(), wits: [][]*big.Int{w}}
}

func (in *instance) describe() map[string]interface{} {
	return map[string]interface{}{"system": clip(in.name, 1500), "constraints": in.c.sys.gates, "entries": in.c.sys.wit, "public": in.pubN}
}

func (in *instance) note(c *Ctx) {
	c.Note("%s", in.name)
	c.Note("public signals %d, system\n%s", in.pubN, in.c.sys)
	for _, w := range in.wits {
		c.Note("witness %v", w)
	}
}

// otherRep returns the same point with another internal representation
func otherRep1(r *rand.Rand, p *bn256.G1) *bn256.G1 {
	k := nonZeroElem(r, N)
	a := new(bn256.G1).ScalarBaseMult(k)
	b := new(bn256.G1).ScalarBaseMult(fsub(zero, k))
	return new(bn256.G1).Add(new(bn256.G1).Add(p, a), b)
}

func otherRep2(r *rand.Rand, p *bn256.G2) *bn256.G2 {
	k := nonZeroElem(r, N)
	a := new(bn256.G2).ScalarBaseMult(k)
	b := new(bn256.G2).ScalarBaseMult(fsub(zero, k))
	return new(bn256.G2).Add(new(bn256.G2).Add(p, a), b)
}

func recode1(p *bn256.G1) *bn256.G1 {
	q := new(bn256.G1)
	if _, err := q.Unmarshal(p.Marshal()); err != nil {
		panic(fmt.Sprintf("decoding the encoding of a proof element: %v", err))
	}
	return q
}

func recode2(p *bn256.G2) *bn256.G2 {
	q := new(bn256.G2)
	if _, err := q.Unmarshal(p.Marshal()); err != nil {
		panic(fmt.Sprintf("decoding the encoding of a proof element: %v", err))
	}
	return q
}

func recode(p *zkSNARK.Proof) *zkSNARK.Proof {
	return &zkSNARK.Proof{PiA: recode1(p.PiA), PiB: recode2(p.PiB), PiC: recode1(p.PiC), PiF: recode1(p.PiF)}
}

func (in *instance) honest(c *Ctx, s *zkSNARK.Setup, setupSparse, proveSparse bool, w []*big.Int) *zkSNARK.Proof {
	pr, err := in.prove(proveSparse, &s.Pk, cloneVec(w))
	how := fmt.Sprintf("%s setup, %s prover", pipeName(setupSparse), pipeName(proveSparse))
	if err != nil {
		in.note(c)
		c.Fail("refused "+pipeName(proveSparse), "no proof for a satisfying witness (%s): %v", how, clip(err.Error(), 400))
		return nil
	}
	if !verify(&s.Pk, pr, cloneVec(w[:in.pubN])) {
		in.note(c)
		c.Fail("rejected "+pipeName(proveSparse), "an honest proof does not verify (%s)", how)
		return nil
	}
	c.Count("honest proofs verified ("+how+")", 1)
	return pr
}

// ---- C07, C08

// exponentProgram proves a fixed program with a base point multiplication. The setup evaluates the exponent polynomials at
// a hidden point, where they do not interpolate x-coordinates: a limit of the scheme which the documentation concedes.
func exponentProgram(c *Ctx, sparse bool) {
	comp, err := compile("func main(x,y){\nequal(scalarBaseMultiply(x)*x,y)\n}\n")
	if err != nil {
		c.Fail("exponent compile", "%v", err)
		return
	}
	x := bi(7)
	w, err, caught := comp.witness([]*big.Int{x, fmul(mod(g1gen.mul(x).x, N), x)})
	if err != nil || caught != nil {
		c.Fail("exponent witness", "%v %v", err, caught)
		return
	}
	p := newProver(comp)
	s := p.setup(sparse)
	pr, err := p.prove(sparse, &s.Pk, w)
	if err != nil {
		c.Fail("exponent refused", "%v", err)
		return
	}
	c.Count("programs over exponents proved", 1)
	if !verify(&s.Pk, pr, w[:comp.pubN]) {
		c.Fail("exponent-programs", "an honest proof of a program with scalarBaseMultiply does not verify (%s pipeline)", pipeName(sparse))
	}
}

func runC07(c *Ctx) {
	if c.Idx == 1 {
		exponentProgram(c, false)
		if c.failed() {
			return
		}
	}
	in := drawInstance(c, 8, 14, 2)
	if in == nil {
		return
	}
	c.Sample(in.describe())
	s := in.setup(false)
	for k, w := range in.wits {
		pr := in.honest(c, s, false, false, w)
		if pr == nil {
			return
		}
		c.Distinct(in.name, vecString(w))
		if k > 0 {
			continue
		}
		switch c.R.Intn(4) {
		case 0:
			// the proof survives its encoding
			if !verify(&s.Pk, recode(pr), w[:in.pubN]) {
				in.note(c)
				c.Fail("recoded", "an honest proof does not verify after encoding and decoding")
				return
			}
			c.Count("decoded proofs verified", 1)
		case 1:
			q := &zkSNARK.Proof{PiA: otherRep1(c.R, pr.PiA), PiB: otherRep2(c.R, pr.PiB), PiC: otherRep1(c.R, pr.PiC), PiF: otherRep1(c.R, pr.PiF)}
			if !verify(&s.Pk, q, w[:in.pubN]) {
				in.note(c)
				c.Fail("representation", "an honest proof does not verify in another internal representation")
				return
			}
			c.Count("other representations verified", 1)
		case 2:
			// proofs can be made and verified again
			pr2, err := in.prove(false, &s.Pk, w)
			if err != nil || !verify(&s.Pk, pr2, w[:in.pubN]) || !verify(&s.Pk, pr, w[:in.pubN]) {
				in.note(c)
				c.Fail("again", "the second proof or verification fails: %v", err)
				return
			}
			c.Count("repeated proofs verified", 1)
		}
	}
}

func runC08(c *Ctx) {
	if c.Idx == 1 {
		exponentProgram(c, true)
		if c.failed() {
			return
		}
	}
	in := drawInstance(c, 8, 14, 1)
	if in == nil {
		return
	}
	c.Sample(in.describe())
	w := in.wits[0]
	ss, sd := in.setup(true), in.setup(false)
	a := in.honest(c, ss, true, true, w)
	if a == nil {
		return
	}
	b := in.honest(c, ss, true, false, w)
	if b == nil || in.honest(c, sd, false, true, w) == nil {
		return
	}
	c.Distinct(in.name, vecString(w))
}

// ---- C09

// sees tells whether some constraint can tell the difference d of two lists of signals
func (in *instance) sees(d []*big.Int) bool {
	s := in.c.sys
	for j := 0; j < s.gates; j++ {
		var l, rr, o *big.Int = bi(0), bi(0), bi(0)
		for i, x := range d {
			l = fadd(l, fmul(x, s.L[j][i]))
			rr = fadd(rr, fmul(x, s.R[j][i]))
			o = fadd(o, fmul(x, s.O[j][i]))
		}
		if l.Sign() != 0 || rr.Sign() != 0 || o.Sign() != 0 {
			return true
		}
	}
	return false
}

func runC09(c *Ctx) {
	var in *instance
	for in == nil || (in.pubN < 2 && chance(c.R, 5, 6)) {
		if in = drawInstance(c, 6, 12, 1); in == nil {
			return
		}
	}
	c.Sample(in.describe())
	w := in.wits[0]
	sparse := chance(c.R, 1, 3)
	s := in.setup(sparse)
	pr := in.honest(c, s, sparse, sparse, w)
	if pr == nil {
		return
	}
	base := reduceVec(w[:in.pubN], N)
	r := c.R
	for k := 0; k < 14; k++ {
		sig := cloneVec(base)
		kind := ""
		i := r.Intn(len(sig))
		switch r.Intn(14) {
		case 13:
			kind = "divided elsewhere"
			if len(sig) < 2 {
				continue
			}
			i = 1 + r.Intn(len(sig)-1)
			base := []int{10, 16, 256, 2}[r.Intn(4)]
			if !divideElsewhere(r, sig[i-1], sig[i], base) {
				continue
			}
			// a key of the statement must not be shared with the honest one
			if !verify(&s.Pk, pr, cloneVec(reduceVec(w[:in.pubN], N))) {
				in.note(c)
				c.Fail("before", "the honest proof is no longer accepted")
				return
			}
		case 0, 1:
			kind = "changed"
			sig[i] = fadd(sig[i], delta(r))
		case 2:
			kind = "zero"
			sig[i] = bi(0)
		case 3:
			kind = "negated"
			sig[i] = fsub(zero, sig[i])
		case 4:
			kind = "exchanged"
			j := r.Intn(len(sig))
			sig[i], sig[j] = sig[j], sig[i]
		case 5:
			kind = "missing"
			sig = sig[:r.Intn(len(sig))]
		case 6:
			kind = "missing in the middle"
			sig = append(sig[:i:i], sig[i+1:]...)
		case 7:
			kind = "added"
			sig = append(sig, pickBig(r, bi(0), bi(1), w[len(base)], randBelow(r, N)))
		case 8:
			kind = "leading"
			sig[0] = pickBig(r, bi(0), bi(2), fsub(zero, one), randBelow(r, N), new(big.Int).Add(N, one))
		case 9:
			kind = "not canonical"
			sig[i] = new(big.Int).Add(sig[i], new(big.Int).Mul(N, bi(int64(1+r.Intn(3)))))
		case 10:
			kind = "negative"
			sig[i] = new(big.Int).Sub(sig[i], N)
		case 11:
			kind = "all changed"
			for j := 1; j < len(sig); j++ {
				sig[j] = fieldElem(r, N)
			}
		case 12:
			kind = "scaled"
			f := nonZeroElem(r, N)
			for j := range sig {
				sig[j] = fmul(sig[j], f)
			}
		}
		if vecEqual2(sig, base) {
			continue
		}
		must := true
		if len(sig) == len(base) && sig[0].Cmp(one) == 0 {
			canonical := true
			d := make([]*big.Int, len(sig))
			for j := range sig {
				canonical = canonical && sig[j].Sign() >= 0 && sig[j].Cmp(N) < 0
				d[j] = fsub(sig[j], base[j])
			}
			if canonical && !in.sees(d) {
				must = false
			}
		}
		if !must {
			c.Count("alterations no constraint sees", 1)
			continue
		}
		ok := false
		if caught := try(func() { ok = verify(&s.Pk, pr, sig) }); caught != nil {
			in.note(c)
			c.Note("%s", caught.Stack)
			c.Fail("panic "+kind, "verification of altered signals panics (%s): %v", kind, caught)
			return
		}
		if ok {
			in.note(c)
			c.Note("signals %v\naltered %v", base, sig)
			c.Fail(kind, "a proof is accepted for altered signals (%s), %s pipeline", kind, pipeName(sparse))
			return
		}
		c.Count("rejected: "+kind, 1)
		c.Count("altered statements rejected", 1)
		c.Distinct(in.name, kind, fmt.Sprint(sig))
	}
	// the statement changes in place between verifications
	same := cloneVec(base)
	for k := 0; k < 4; k++ {
		if !verify(&s.Pk, pr, same) {
			in.note(c)
			c.Fail("afterwards", "the honest proof is no longer accepted")
			return
		}
		if len(same) < 2 {
			break
		}
		i, d := 1+r.Intn(len(same)-1), fsubVec(same, same)
		d[i] = nonZeroElem(r, N)
		if chance(r, 1, 2) {
			d[i] = bi(1)
		}
		was := cp(same[i])
		v := fadd(was, d[i])
		if chance(r, 1, 2) {
			same[i].Set(v)
		} else {
			same[i] = v
		}
		if in.sees(d) {
			if verify(&s.Pk, pr, same) {
				in.note(c)
				c.Note("signals %v, then %v", base, same)
				c.Fail("in place", "a proof is accepted for signals that were changed in place after they had been accepted")
				return
			}
			c.Count("rejected: changed in place", 1)
		}
		same[i] = was
	}
	if !verify(&s.Pk, pr, base) {
		in.note(c)
		c.Fail("afterwards", "the honest proof is no longer accepted")
		return
	}
	c.Count("honest again", 1)
}

// divideElsewhere moves digits between two neighbouring numbers, whose digits read the same one after the other
func divideElsewhere(r *rand.Rand, a, b *big.Int, base int) bool {
	B := bi(int64(base))
	x, y := cp(a), cp(b)
	for k := 1 + r.Intn(2); k > 0; k-- {
		if chance(r, 1, 2) {
			x, y = y, x
			// the first digit of the second to the end of the first
			if x.Sign() == 0 {
				return false
			}
			top := bi(1)
			for new(big.Int).Mul(top, B).Cmp(x) <= 0 {
				top.Mul(top, B)
			}
			dgt, rest := new(big.Int).DivMod(x, top, new(big.Int))
			y.Add(y.Mul(y, B), dgt)
			x, y = y, rest
		} else {
			q, dgt := new(big.Int).DivMod(x, B, new(big.Int))
			top := cp(B)
			if y.Sign() == 0 {
				top = bi(1)
			}
			for top.Cmp(y) <= 0 && y.Sign() != 0 {
				top.Mul(top, B)
			}
			if y.Sign() != 0 && new(big.Int).Div(top, B).Cmp(y) > 0 {
				top.Div(top, B)
			}
			x, y = q, y.Add(y, dgt.Mul(dgt, top))
		}
	}
	if x.Cmp(N) >= 0 || y.Cmp(N) >= 0 || x.Cmp(a) == 0 {
		return false
	}
	a.Set(x)
	b.Set(y)
	return true
}

func pickBig(r *rand.Rand, v ...*big.Int) *big.Int { return cp(v[r.Intn(len(v))]) }

// vecEqual2 compares without reduction
func vecEqual2(a, b []*big.Int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].Cmp(b[i]) != 0 {
			return false
		}
	}
	return true
}

// ---- C10

func eq1(a, b *bn256.G1) bool { return string(a.Marshal()) == string(b.Marshal()) }
func eq2(a, b *bn256.G2) bool { return string(a.Marshal()) == string(b.Marshal()) }

func runC10(c *Ctx) {
	r := c.R
	in := drawInstance(c, 6, 12, 2)
	if in == nil {
		return
	}
	c.Sample(in.describe())
	w := in.wits[0]
	sparse := chance(r, 1, 3)
	s := in.setup(sparse)
	pr := in.honest(c, s, sparse, sparse, w)
	if pr == nil {
		return
	}
	sig := reduceVec(w[:in.pubN], N)
	var other *zkSNARK.Proof
	var osig []*big.Int
	if len(in.wits) > 1 {
		if other = in.honest(c, s, sparse, sparse, in.wits[1]); other == nil {
			return
		}
		osig = reduceVec(in.wits[1][:in.pubN], N)
	}
	mk1 := func(h *bn256.G1) (*bn256.G1, string) {
		switch r.Intn(9) {
		case 0:
			return new(bn256.G1).ScalarBaseMult(bi(0)), "neutral"
		case 1:
			return new(bn256.G1).Neg(h), "negated"
		case 2:
			return new(bn256.G1).Add(h, h), "doubled"
		case 3:
			return new(bn256.G1).ScalarBaseMult(bi(int64(1 + r.Intn(3)))), "generator"
		case 4:
			return new(bn256.G1).ScalarBaseMult(randBelow(r, N)), "random"
		case 5:
			return new(bn256.G1).Add(h, new(bn256.G1).ScalarBaseMult(delta(r))), "shifted"
		case 6:
			k := &s.Pk.G1
			l := [][]*bn256.G1{{k.Alpha, k.Beta, k.Delta}, k.PowersX, k.PowersX_Domain_Delta, k.RLEO_Delta, k.RLEO_Gamma, k.Lx_plus_Ex, k.Ex}[r.Intn(7)]
			return l[r.Intn(len(l))], "key element"
		case 7:
			l := []*bn256.G1{pr.PiA, pr.PiC, pr.PiF}
			return l[r.Intn(3)], "another element of the proof"
		}
		return new(bn256.G1).Add(h, s.Pk.G1.Alpha), "shifted by a key element"
	}
	mk2 := func(h *bn256.G2) (*bn256.G2, string) {
		switch r.Intn(8) {
		case 0:
			return new(bn256.G2).ScalarBaseMult(bi(0)), "neutral"
		case 1:
			return new(bn256.G2).ScalarMult(h, new(big.Int).Sub(N, one)), "negated"
		case 2:
			return new(bn256.G2).Add(h, h), "doubled"
		case 3:
			return new(bn256.G2).ScalarBaseMult(bi(int64(1 + r.Intn(3)))), "generator"
		case 4:
			return new(bn256.G2).ScalarBaseMult(randBelow(r, N)), "random"
		case 5:
			return new(bn256.G2).Add(h, new(bn256.G2).ScalarBaseMult(delta(r))), "shifted"
		case 6:
			k := &s.Pk.G2
			l := [][]*bn256.G2{{k.Beta, k.Gamma, k.Delta}, k.PowersX, k.Rx}[r.Intn(3)]
			return l[r.Intn(len(l))], "key element"
		}
		return new(bn256.G2).Add(h, s.Pk.G2.Beta), "shifted by a key element"
	}
	for k := 0; k < 12; k++ {
		q := &zkSNARK.Proof{PiA: pr.PiA, PiB: pr.PiB, PiC: pr.PiC, PiF: pr.PiF}
		kind, how := "", ""
		el := r.Intn(4)
		if other != nil && chance(r, 1, 3) {
			how = "of another proof"
			switch el {
			case 0:
				q.PiA = other.PiA
			case 1:
				q.PiB = other.PiB
			case 2:
				q.PiC = other.PiC
			case 3:
				q.PiF = other.PiF
			}
		} else {
			switch el {
			case 0:
				q.PiA, how = mk1(pr.PiA)
			case 1:
				q.PiB, how = mk2(pr.PiB)
			case 2:
				q.PiC, how = mk1(pr.PiC)
			case 3:
				q.PiF, how = mk1(pr.PiF)
			}
		}
		kind = "ABCF"[el:el+1] + " " + how
		if eq1(q.PiA, pr.PiA) && eq2(q.PiB, pr.PiB) && eq1(q.PiC, pr.PiC) && eq1(q.PiF, pr.PiF) {
			continue
		}
		if el == 1 && eq1(pr.PiA, pr.PiF) {
			continue // the second element has no effect
		}
		if ok := rejects(c, in, &s.Pk, q, sig, kind); !ok {
			return
		}
	}
	if other != nil && !vecEqual(sig, osig) {
		d := make([]*big.Int, len(sig))
		for i := range d {
			d[i] = fsub(sig[i], osig[i])
		}
		if in.sees(d) {
			if !rejects(c, in, &s.Pk, other, sig, "proof of another statement") {
				return
			}
		}
	}
	// the key of another setup
	s2 := in.setup(chance(r, 1, 2))
	if !rejects(c, in, &s2.Pk, pr, sig, "key of another setup") {
		return
	}
	// a key that shares all but a part with the right one
	mixed := s.Pk
	part := ""
	switch r.Intn(4) {
	case 0:
		part = "gamma"
		mixed.G2.Gamma = s2.Pk.G2.Gamma
	case 1:
		part = "delta"
		mixed.G2.Delta = s2.Pk.G2.Delta
	case 2:
		part = "beta"
		mixed.G2.Beta = s2.Pk.G2.Beta
	case 3:
		part = "public polynomials"
		mixed.G1.RLEO_Gamma = s2.Pk.G1.RLEO_Gamma
	}
	skip := false
	switch part {
	case "gamma", "public polynomials":
		// without effect if the public part of the statement is neutral
		acc := new(bn256.G1).ScalarBaseMult(bi(0))
		for i, g := range s.Pk.G1.RLEO_Gamma {
			acc.Add(acc, new(bn256.G1).ScalarMult(g, sig[i]))
		}
		skip = eq1(acc, new(bn256.G1).ScalarBaseMult(bi(0)))
	case "delta":
		skip = eq1(pr.PiC, new(bn256.G1).ScalarBaseMult(bi(0)))
	}
	if !skip && !rejects(c, in, &mixed, pr, sig, "key with foreign "+part) {
		return
	}
	// one proof object that changes between verifications
	q := *pr
	for k := 0; k < 3; k++ {
		if !verify(&s.Pk, &q, sig) {
			in.note(c)
			c.Fail("afterwards", "the honest proof is no longer accepted")
			return
		}
		d := nonZeroElem(r, N)
		d1, d2 := new(bn256.G1).ScalarBaseMult(d), new(bn256.G2).ScalarBaseMult(d)
		switch r.Intn(4) {
		case 0:
			q.PiA = new(bn256.G1).Add(pr.PiA, d1)
			if eq2(new(bn256.G2).Add(pr.PiB, s.Pk.G2.Beta), new(bn256.G2).ScalarBaseMult(bi(0))) {
				q.PiA = pr.PiA
			}
		case 1:
			q.PiC = new(bn256.G1).Add(pr.PiC, d1)
		case 2:
			if !eq1(pr.PiA, new(bn256.G1).ScalarBaseMult(bi(0))) {
				q.PiB = new(bn256.G2).Add(pr.PiB, d2)
			}
		case 3:
			// the same object
			q.PiC = new(bn256.G1).Add(pr.PiC, new(bn256.G1).ScalarBaseMult(bi(0)))
			if !verify(&s.Pk, &q, sig) {
				in.note(c)
				c.Fail("afterwards", "the honest proof is no longer accepted")
				return
			}
			q.PiC.Add(q.PiC, d1)
		}
		if q != *pr {
			if !rejects(c, in, &s.Pk, &q, sig, "proof changed in place") {
				return
			}
		}
		q = *pr
	}
	if !verify(&s.Pk, pr, sig) {
		in.note(c)
		c.Fail("afterwards", "the honest proof is no longer accepted")
		return
	}
	c.Count("honest again", 1)
}

func rejects(c *Ctx, in *instance, pk *zkSNARK.Pk, q *zkSNARK.Proof, sig []*big.Int, kind string) bool {
	ok := false
	if caught := try(func() { ok = verify(pk, q, sig) }); caught != nil {
		in.note(c)
		c.Note("%s", caught.Stack)
		c.Fail("panic "+kind, "verification of an altered proof panics (%s): %v", kind, caught)
		return false
	}
	if ok {
		in.note(c)
		c.Note("signals %v", sig)
		c.Fail(kind, "an altered proof is accepted: %s", kind)
		return false
	}
	c.Count("rejected: "+kind, 1)
	c.Count("altered proofs rejected", 1)
	c.Distinct(in.name, kind, fmt.Sprint(sig))
	return true
}

// ---- C11

// exponentForgery is the forgery of forge in a system with an exponent polynomial, where the verifier cannot know F
func exponentForgery(c *Ctx) {
	v := func(x ...int64) (o []*big.Int) {
		for _, y := range x {
			o = append(o, bi(y))
		}
		return
	}
	// entries: one, public output, private input. The constraint 0*1 + x(input*G) = output.
	s := &sys{gates: 1, wit: 3, L: [][]*big.Int{v(0, 0, 0)}, R: [][]*big.Int{v(1, 0, 0)}, E: [][]*big.Int{v(0, 0, 1)}, O: [][]*big.Int{v(0, 1, 0)}}
	in, f := bi(7), bi(11)
	// with F = f*G the pairing equation asks for (input - f)*1 + x(F) = output
	w := []*big.Int{bi(1), fadd(mod(g1gen.mul(f).x, N), fsub(in, f)), in}
	if s.broken(w) < 0 {
		c.Fail("exponent setup", "the statement is true")
		return
	}
	comp := &compiled{src: s.String(), dense: s.dense(), sparse: s.sparse(), sys: s, pubN: 2}
	st := newProver(comp).setup(false)
	pr, err := zkSNARK.GenerateProofs(2, &st.Pk, w, []*big.Int{bi(0)})
	if err != nil {
		panic(err)
	}
	pr.PiF = new(bn256.G1).ScalarBaseMult(f)
	c.Count("forgeries over exponents tried", 1)
	if verify(&st.Pk, pr, w[:2]) {
		c.Fail("exponent-forgery", "a proof with a freely chosen element F verifies in a system with an exponent polynomial although the witness violates its constraint")
	}
}

func runC11(c *Ctx) {
	r := c.R
	if c.Idx == 1 {
		exponentForgery(c)
		if c.failed() {
			return
		}
	}
	// divisibility, without proofs, for many systems and witnesses
	for k := 0; k < 6; k++ {
		in := drawInstance(c, 10, 16, 2)
		if in == nil {
			return
		}
		if chance(r, 1, 3) {
			in = in.withExponents(r)
			c.Count("systems over exponents", 1)
		}
		if !in.divisibility(c) {
			return
		}
	}
	in := drawInstance(c, 5, 10, 1)
	if in == nil {
		return
	}
	c.Sample(in.describe())
	w := reduceVec(in.wits[0], N)
	sparse := chance(r, 1, 2)
	s := in.setup(sparse)
	if in.honest(c, s, sparse, sparse, w) == nil {
		return
	}
	if !in.forge(c) || !in.single(c) {
		return
	}
	for k := 0; k < 5; k++ {
		bad, kind := in.corrupt(r, w)
		if bad == nil || in.c.sys.broken(bad) < 0 {
			continue
		}
		// the prover as it is
		for _, sp := range []bool{false, true} {
			pr, err := in.prove(sp, &s.Pk, cloneVec(bad))
			if err == nil && pr != nil {
				ok := false
				try(func() { ok = verify(&s.Pk, pr, reduceVec(bad[:in.pubN], N)) })
				if ok {
					in.note(c)
					c.Note("false witness %v", bad)
					c.Fail("verified "+pipeName(sp), "a witness that violates constraint %d (%s) gives a verifying proof, %s prover", in.c.sys.broken(bad), kind, pipeName(sp))
					return
				}
				c.Count("false proofs rejected", 1)
			} else {
				c.Count("false witnesses refused ("+pipeName(sp)+")", 1)
			}
			c.Distinct(in.name, fmt.Sprint(bad))
		}
		// a prover that hands over the polynomial of a valid witness, or none
		for _, sp := range []bool{false, true} {
			if chance(r, 1, 2) {
				continue
			}
			var pr *zkSNARK.Proof
			var err error
			which := pick(r, "polynomial of a valid witness", "zero polynomial", "multiple of the domain")
			caught := try(func() {
				D := domainPoly(in.c.sys.gates, N)
				var px []*big.Int
				switch which {
				case "zero polynomial":
					px = []*big.Int{bi(0)}
				case "multiple of the domain":
					px = polyMul(D, []*big.Int{nonZeroElem(r, N)}, N)
				default:
					px = zkSNARK.CombinePolynomials2(w, in.tr)
				}
				if sp {
					pr, err = zkSNARK.GenerateProof_Sparse(in.pubN, &s.Pk, bad, utils.NewSparseArrayFromArray(px))
				} else {
					pr, err = zkSNARK.GenerateProofs(in.pubN, &s.Pk, bad, px)
				}
			})
			if caught != nil || err != nil || pr == nil {
				c.Count("foreign polynomials refused", 1)
				continue
			}
			signals := [][]*big.Int{bad[:in.pubN]}
			if in.c.sys.broken(append(cloneVec(w[:in.pubN]), bad[in.pubN:]...)) >= 0 {
				signals = append(signals, w[:in.pubN])
			}
			for _, sg := range signals {
				ok := false
				try(func() { ok = verify(&s.Pk, pr, sg) })
				if ok {
					in.note(c)
					c.Note("false witness %v", bad)
					c.Fail("foreign polynomial", "a witness that violates constraint %d (%s) with the %s gives a verifying proof", in.c.sys.broken(bad), kind, which)
					return
				}
				c.Count("false proofs rejected", 1)
			}
		}
	}
}

// single proves a witness that violates a single constraint, which the witness of a program rarely does
func (in *instance) single(c *Ctx) bool {
	r := c.R
	m := in.c.sys
	j := []int{0, m.gates - 1, r.Intn(m.gates), r.Intn(m.gates)}[r.Intn(4)]
	s := &sys{gates: m.gates, wit: m.wit, L: m.L, R: m.R, E: m.E, O: append([][]*big.Int{}, m.O...)}
	s.O[j] = append([]*big.Int{}, m.O[j]...)
	s.O[j][0] = fadd(s.O[j][0], delta(r))
	comp := &compiled{src: s.String(), dense: s.dense(), sparse: s.sparse(), sys: s, pubN: in.pubN}
	fin := &instance{prover: newProver(comp), pubN: in.pubN, name: s.String(), wits: in.wits[:1]}
	w := reduceVec(in.wits[0], N)
	if !fin.divisibility(c) {
		return false
	}
	st := fin.setup(chance(r, 1, 2))
	for _, sp := range []bool{false, true} {
		pr, err := fin.prove(sp, &st.Pk, cloneVec(w))
		if err != nil || pr == nil {
			c.Count("false witnesses refused ("+pipeName(sp)+")", 1)
			continue
		}
		ok := false
		try(func() { ok = verify(&st.Pk, pr, cloneVec(w[:in.pubN])) })
		if ok {
			fin.note(c)
			c.Fail("single "+pipeName(sp), "a witness that violates only constraint %d of %d gives a verifying proof, %s prover", j, s.gates, pipeName(sp))
			return false
		}
		c.Count("false proofs rejected", 1)
	}
	c.Count("witnesses violating a single constraint", 1)
	c.Distinct(fin.name, "single", j)
	return true
}

// forge plays a prover who chooses the element F freely: with F = f*G the pairing equation holds for witnesses whose
// defects are f*R - x(F) in every constraint, so that the statement is false unless they are all zero.
func (in *instance) forge(c *Ctx) bool {
	r := c.R
	m := in.c.sys
	f := bi(int64(1 + r.Intn(5)))
	if chance(r, 1, 4) {
		f = nonZeroElem(r, N)
	}
	xf := mod(g1gen.mul(f).x, N)
	s := &sys{gates: m.gates, wit: m.wit, L: m.L, R: m.R, E: m.E}
	w := reduceVec(in.wits[0], N)
	for j := 0; j < m.gates; j++ {
		if chance(r, 1, 2) {
			// an equality
			s.R = append([][]*big.Int{}, s.R...)
			s.R[j] = make([]*big.Int, m.wit)
			for i := range s.R[j] {
				s.R[j][i] = bi(0)
			}
			s.R[j][0] = bi(1)
		}
	}
	for j := 0; j < m.gates; j++ {
		o := append([]*big.Int{}, m.O[j]...)
		s.O = append(s.O, o)
	}
	for j := 0; j < m.gates; j++ {
		want := fsub(fmul(f, dot(s.R[j], w)), xf)
		s.O[j][0] = fadd(s.O[j][0], fsub(s.defect(j, w), want))
	}
	if s.broken(w) < 0 {
		return true // true statements are no forgery
	}
	comp := &compiled{src: s.String(), dense: s.dense(), sparse: s.sparse(), sys: s, pubN: in.pubN}
	fin := &instance{prover: newProver(comp), pubN: in.pubN, name: s.String(), wits: [][]*big.Int{w}}
	st := fin.setup(chance(r, 1, 2))
	px := zkSNARK.CombinePolynomials2(w, fin.tr)
	var rv []*big.Int
	for j := 0; j < s.gates; j++ {
		rv = append(rv, dot(s.R[j], w))
	}
	px = polyAdd(polySub(reduceVec(px, N), polyScale(interpolate(rv, N), f, N), N), []*big.Int{xf}, N)
	pr, err := zkSNARK.GenerateProofs(in.pubN, &st.Pk, w, px)
	if err != nil {
		panic(err)
	}
	pr.PiF = new(bn256.G1).Add(pr.PiF, new(bn256.G1).ScalarBaseMult(f))
	if verify(&st.Pk, pr, w[:in.pubN]) {
		fin.note(c)
		c.Fail("forged F", "a proof with F=%v*G verifies although the witness violates constraint %d", f, s.broken(w))
		return false
	}
	c.Count("forgeries with a free element F rejected", 1)
	return true
}

// corrupt alters a witness
func (in *instance) corrupt(r *rand.Rand, w []*big.Int) ([]*big.Int, string) {
	bad := cloneVec(w)
	s := in.c.sys
	switch r.Intn(6) {
	case 0, 1:
		// an entry of a chosen constraint
		j := r.Intn(s.gates)
		var at []int
		for i := 1; i < s.wit; i++ {
			if s.mentions(j, i) {
				at = append(at, i)
			}
		}
		if len(at) == 0 {
			return nil, ""
		}
		i := at[r.Intn(len(at))]
		bad[i] = fadd(bad[i], delta(r))
		return bad, fmt.Sprintf("entry %d of constraint %d", i, j)
	case 2:
		i := s.wit - 1
		bad[i] = fadd(bad[i], delta(r))
		return bad, "the last entry"
	case 3:
		i, j := 1+r.Intn(s.wit-1), 1+r.Intn(s.wit-1)
		bad[i], bad[j] = bad[j], bad[i]
		return bad, "exchanged entries"
	case 4:
		for i := in.pubN; i < s.wit; i++ {
			bad[i] = randBelow(r, N)
		}
		return bad, "all private entries"
	}
	for i := range bad {
		if i > 0 && chance(r, 1, 2) {
			bad[i] = fieldElem(r, N)
		}
	}
	return bad, "several entries"
}

// withExponents adds base point multiplications to the constraints, which the first witness still satisfies
func (in *instance) withExponents(r *rand.Rand) *instance {
	o := in.c.sys
	w := reduceVec(in.wits[0], N)
	s := &sys{gates: o.gates, wit: o.wit, L: o.L, R: o.R}
	for j := 0; j < o.gates; j++ {
		s.E, s.O = append(s.E, cloneVec(o.E[j])), append(s.O, cloneVec(o.O[j]))
		if chance(r, 1, 2) {
			continue
		}
		for k := r.Intn(3); k >= 0; k-- {
			i := r.Intn(s.wit)
			s.E[j][i] = fieldElem(r, N)
		}
		if chance(r, 1, 2) {
			// a chosen exponent
			s.E[j][0] = fadd(s.E[j][0], fsub(fieldElem(r, N), dot(s.E[j], w)))
		}
		s.O[j][0] = fadd(s.O[j][0], s.defect(j, w))
	}
	comp := &compiled{src: s.String(), dense: s.dense(), sparse: s.sparse(), sys: s, pubN: in.pubN}
	return &instance{prover: newProver(comp), pubN: in.pubN, name: s.String(), wits: [][]*big.Int{w}}
}

// divisibility compares both combined polynomials with the satisfaction of the constraints
func (in *instance) divisibility(c *Ctx) bool {
	r := c.R
	s := in.c.sys
	D := domainPoly(s.gates, N)
	for _, w0 := range in.wits {
		w0 := reduceVec(w0, N)
		for k := 0; k < 5; k++ {
			w := w0
			if k > 0 {
				if w, _ = in.corrupt(r, w0); w == nil {
					continue
				}
			}
			good := s.broken(w) < 0
			px := zkSNARK.CombinePolynomials2(cloneVec(w), in.tr)
			_, rem := polyDivMod(px, D, N)
			if (len(trim(rem)) == 0) != good {
				in.note(c)
				c.Note("witness %v", w)
				c.Fail("divisible dense", "constraints satisfied: %v (first violated %d), combined polynomial divisible: %v", good, s.broken(w), len(trim(rem)) == 0)
				return false
			}
			for j := 0; j < s.gates; j++ {
				if v := polyEval(px, bi(int64(j)), N); v.Cmp(s.defect(j, w)) != 0 {
					in.note(c)
					c.Note("witness %v", w)
					c.Fail("value dense", "the combined polynomial is %v at constraint %d, whose defect is %v", v, j, s.defect(j, w))
					return false
				}
			}
			sx, err := treePoly(zkSNARK.CombineSparsePolynomials(cloneVec(w), in.ts), 4*s.gates+8)
			if err != nil || !vecEqual(trim(sx), trim(reduceVec(px, N))) {
				in.note(c)
				c.Note("witness %v", w)
				c.Fail("combined sparse", "the combined polynomials differ: dense %s, sparse %s %v", vecString(px), vecString(sx), err)
				return false
			}
			if good {
				c.Count("divisible", 1)
			} else {
				c.Count("not divisible", 1)
			}
			c.Distinct("div", in.name, fmt.Sprint(w))
		}
	}
	return true
}

// ---- C12

// toxicX reads the secret point, which is not exported. nil if there is no such field
func toxicX(s *zkSNARK.Setup) *big.Int {
	v := reflect.ValueOf(s).Elem().FieldByName("Toxic")
	if !v.IsValid() {
		return nil
	}
	v = v.FieldByName("x")
	if !v.IsValid() || v.Type() != reflect.TypeOf((*big.Int)(nil)) {
		return nil
	}
	return (*big.Int)(unsafe.Pointer(v.Pointer()))
}

func hiddenGT(pk *zkSNARK.Pk, name string) *bn256.GT {
	v := reflect.ValueOf(pk).Elem().FieldByName(name)
	if !v.IsValid() || v.Type() != reflect.TypeOf((*bn256.GT)(nil)) {
		return nil
	}
	return (*bn256.GT)(unsafe.Pointer(v.Pointer()))
}

var (
	trapdoorMu sync.Mutex
	trapdoors  = map[string]string{} // every trapdoor seen by this process
)

func freshValue(c *Ctx, v *big.Int, what string) bool {
	if v == nil {
		c.Fail("trapdoor", "%s is missing", what)
		return false
	}
	if v.Sign() <= 0 || v.Cmp(N) >= 0 {
		c.Fail("trapdoor", "%s is %v, not a non-zero field element", what, v)
		return false
	}
	if v.BitLen() < 128 {
		c.Fail("trapdoor", "%s is %v, which can be guessed", what, v)
		return false
	}
	trapdoorMu.Lock()
	defer trapdoorMu.Unlock()
	if old, ex := trapdoors[v.String()]; ex {
		c.Fail("trapdoor", "%s equals %s: %v", what, old, v)
		return false
	}
	trapdoors[v.String()] = fmt.Sprintf("%s of case %d", what, c.Idx)
	c.Count("fresh values compared", 1)
	return true
}

func runC12(c *Ctx) {
	r := c.R
	if c.Idx%7 == 3 {
		// randomness of another process
		self, _ := os.Executable()
		var runs []string
		for k := 0; k < 2; k++ {
			out, err := exec.Command(self, "-randoms").Output()
			if err != nil {
				panic(err)
			}
			runs = append(runs, string(out))
		}
		seen := map[string]bool{}
		for _, l := range strings.Fields(strings.Join(runs, "\n")) {
			v, ok := new(big.Int).SetString(l, 10)
			if !ok || seen[l] {
				c.Fail("random", "two processes draw the same field element %s", l)
				return
			}
			seen[l] = true
			if !freshValue(c, v, "drawn element of another process") {
				return
			}
		}
		c.Count("processes compared", 2)
	}
	for k := 0; k < 40; k++ {
		v, err := utils.Field.ArithmeticField.Rand()
		if err != nil {
			panic(err)
		}
		if !freshValue(c, v, "drawn element") {
			return
		}
	}
	if c.Idx == 9 || c.Idx == 10 {
		// many setups in one process
		comp := mustCompile(c, "func main(x,c){\nequal(x,c)\n}\n", false)
		if comp == nil {
			return
		}
		td, ts := comp.dense.Transpose(), comp.sparse.TransposeSparse()
		for k := 0; k < 200; k++ {
			var s *zkSNARK.Setup
			var err error
			if c.Idx == 9 {
				s, err = zkSNARK.GenerateTrustedSetup(1, td)
			} else {
				s, err = zkSNARK.GenerateTrustedSetupSparse(1, ts)
			}
			if err != nil {
				c.Fail("setup", "no setup: %v", err)
				return
			}
			t := &s.Toxic
			for _, v := range []*big.Int{t.Kalpha, t.Kbeta, t.Kgamma, t.Kdelta} {
				if !freshValue(c, v, "a trapdoor of many setups") {
					return
				}
			}
			if x := toxicX(s); x != nil && !freshValue(c, x, "a hidden point of many setups") {
				return
			}
			c.Count("setups in a row", 1)
		}
	}
	in := drawInstance(c, 8, 12, 1)
	if in == nil {
		return
	}
	c.Sample(in.describe())
	sparse := chance(r, 1, 2)
	if chance(r, 1, 5) {
		// systems over exponents as well
		for j := range in.c.sys.E {
			for i := range in.c.sys.E[j] {
				if chance(r, 1, 4) {
					in.c.sys.E[j][i] = fieldElem(r, N)
				}
			}
		}
		s := in.c.sys
		in.c = &compiled{src: s.String(), dense: s.dense(), sparse: s.sparse(), sys: s, pubN: in.pubN}
		in.prover = newProver(in.c)
	}
	in.c.pubN = in.pubN
	s := in.setup(sparse)
	t := &s.Toxic
	x := toxicX(s)
	vals := map[string]*big.Int{"alpha": t.Kalpha, "beta": t.Kbeta, "gamma": t.Kgamma, "delta": t.Kdelta}
	if x != nil {
		vals["x"] = x
	}
	for _, n := range []string{"x", "alpha", "beta", "gamma", "delta"} {
		if v, ex := vals[n]; ex && !freshValue(c, v, n) {
			return
		}
	}
	m := in.c.sys
	n := m.gates
	pk := &s.Pk
	fail := func(f string, a ...interface{}) {
		in.note(c)
		c.Fail("string "+pipeName(sparse), f, a...)
	}
	if len(pk.G1.PowersX) < n || len(pk.G2.PowersX) < n || len(pk.G1.PowersX_Domain_Delta) < n-1 || len(pk.G1.Ex) != m.wit || len(pk.G1.Lx_plus_Ex) != m.wit ||
		len(pk.G2.Rx) != m.wit || len(pk.G1.RLEO_Gamma) != in.pubN || len(pk.G1.RLEO_Delta) != m.wit-in.pubN {
		fail("sizes: powers %d %d, domain %d, E %d, L+E %d, R %d, public %d, private %d for %d constraints, %d entries, %d public", len(pk.G1.PowersX), len(pk.G2.PowersX), len(pk.G1.PowersX_Domain_Delta),
			len(pk.G1.Ex), len(pk.G1.Lx_plus_Ex), len(pk.G2.Rx), len(pk.G1.RLEO_Gamma), len(pk.G1.RLEO_Delta), n, m.wit, in.pubN)
		return
	}
	if !vecEqual(trim(reduceVec(pk.Domain, N)), domainPoly(n, N)) {
		fail("domain polynomial %s, expected %s", vecString(pk.Domain), vecString(domainPoly(n, N)))
		return
	}
	is1 := func(p *bn256.G1, k *big.Int, f string, a ...interface{}) bool {
		c.Count("group elements compared", 1)
		if !eq1(p, new(bn256.G1).ScalarBaseMult(k)) {
			fail(f+" is wrong", a...)
			return false
		}
		return true
	}
	is2 := func(p *bn256.G2, k *big.Int, f string, a ...interface{}) bool {
		c.Count("group elements compared", 1)
		if !eq2(p, new(bn256.G2).ScalarBaseMult(k)) {
			fail(f+" is wrong", a...)
			return false
		}
		return true
	}
	if !is1(pk.G1.Alpha, t.Kalpha, "alpha") || !is1(pk.G1.Beta, t.Kbeta, "beta") || !is1(pk.G1.Delta, t.Kdelta, "delta") ||
		!is2(pk.G2.Beta, t.Kbeta, "beta in the second group") || !is2(pk.G2.Gamma, t.Kgamma, "gamma") || !is2(pk.G2.Delta, t.Kdelta, "delta in the second group") {
		return
	}
	if g := hiddenGT(pk, "eGH"); g != nil {
		if string(g.Marshal()) != string(bn256.Pair(new(bn256.G1).ScalarBaseMult(one), new(bn256.G2).ScalarBaseMult(one)).Marshal()) {
			fail("the pairing of the generators is wrong")
			return
		}
		c.Count("group elements compared", 1)
	}
	if g := hiddenGT(pk, "eGHalphaBeta"); g != nil {
		if string(g.Marshal()) != string(bn256.Pair(pk.G1.Alpha, pk.G2.Beta).Marshal()) {
			fail("the pairing of alpha and beta is wrong")
			return
		}
		c.Count("group elements compared", 1)
	}
	// the relations that need no secrets
	g1 := new(bn256.G1).ScalarBaseMult(one)
	g2 := new(bn256.G2).ScalarBaseMult(one)
	same := func(a1 *bn256.G1, a2 *bn256.G2, b1 *bn256.G1, b2 *bn256.G2, f string, a ...interface{}) bool {
		c.Count("pairing relations", 1)
		if string(bn256.Pair(a1, a2).Marshal()) != string(bn256.Pair(b1, b2).Marshal()) {
			fail(f, a...)
			return false
		}
		return true
	}
	if n > 1 {
		i := 1 + r.Intn(n-1)
		if !same(pk.G1.PowersX[i], g2, g1, pk.G2.PowersX[i], "power %d differs in the two groups", i) || !same(pk.G1.PowersX[i], g2, pk.G1.PowersX[i-1], pk.G2.PowersX[1], "power %d is not the product of power %d and the secret point", i, i-1) {
			return
		}
		if i < len(pk.G1.PowersX_Domain_Delta) && !same(pk.G1.PowersX_Domain_Delta[i], g2, pk.G1.PowersX_Domain_Delta[i-1], pk.G2.PowersX[1], "domain element %d is not domain element %d times the secret point", i, i-1) {
			return
		}
	}
	if x == nil {
		return
	}
	pw := bi(1)
	for i := range pk.G1.PowersX {
		if !is1(pk.G1.PowersX[i], pw, "power %d", i) || (i < len(pk.G2.PowersX) && !is2(pk.G2.PowersX[i], pw, "power %d in the second group", i)) {
			return
		}
		pw = fmul(pw, x)
	}
	dx := bi(1)
	for k := 0; k < n; k++ {
		dx = fmul(dx, fsub(x, bi(int64(k))))
	}
	pw = fmul(dx, minv(t.Kdelta, N))
	for i := range pk.G1.PowersX_Domain_Delta {
		if !is1(pk.G1.PowersX_Domain_Delta[i], pw, "domain element %d", i) {
			return
		}
		pw = fmul(pw, x)
	}
	// Lagrange basis at the secret point
	lag := make([]*big.Int, n)
	for j := range lag {
		num, den := bi(1), bi(1)
		for k := 0; k < n; k++ {
			if k != j {
				num = fmul(num, fsub(x, bi(int64(k))))
				den = fmul(den, fsub(bi(int64(j)), bi(int64(k))))
			}
		}
		lag[j] = fmul(num, minv(den, N))
	}
	at := func(mat [][]*big.Int, i int) *big.Int {
		v := bi(0)
		for j := 0; j < n; j++ {
			v = fadd(v, fmul(mat[j][i], lag[j]))
		}
		return v
	}
	for i := 0; i < m.wit; i++ {
		l, rr, e, o := at(m.L, i), at(m.R, i), at(m.E, i), at(m.O, i)
		if !is1(pk.G1.Ex[i], e, "E of entry %d", i) || !is1(pk.G1.Lx_plus_Ex[i], fadd(l, e), "L+E of entry %d", i) || !is2(pk.G2.Rx[i], rr, "R of entry %d", i) {
			return
		}
		v := fadd(fadd(fmul(t.Kalpha, rr), fmul(t.Kbeta, fadd(l, e))), o)
		if i < in.pubN {
			if !is1(pk.G1.RLEO_Gamma[i], fmul(v, minv(t.Kgamma, N)), "public polynomial %d", i) {
				return
			}
		} else if !is1(pk.G1.RLEO_Delta[i-in.pubN], fmul(v, minv(t.Kdelta, N)), "private polynomial %d", i) {
			return
		}
	}
	c.Count("reference strings recomputed ("+pipeName(sparse)+")", 1)
	c.Distinct(in.name, sparse)
}

func init() {
	assume := []string{"programs without base point multiplication, with a constraint and a private entry", "a forged relation in a random group element has probability below 2^-200"}
	register(&Prop{ID: "C07", Quick: 260, Thorough: 6000, Run: runC07, Assume: assume,
		Rule: "a case draws a program or a satisfied constraint system with up to 8 constraints and 14 entries, runs a setup, proves and verifies up to two witnesses and one variant (encoded, other representation, repeated); distinct by system and witness",
		Need: []string{"honest proofs verified (dense setup, dense prover)", "decoded proofs verified", "other representations verified", "repeated proofs verified"}})
	register(&Prop{ID: "C08", Quick: 180, Thorough: 5000, Run: runC08, Assume: assume,
		Rule: "a case draws a program or a satisfied constraint system, runs both setups and verifies the three combinations with a sparse part; distinct by system and witness",
		Need: []string{"honest proofs verified (sparse setup, sparse prover)", "honest proofs verified (sparse setup, dense prover)", "honest proofs verified (dense setup, sparse prover)"}})
	register(&Prop{ID: "C09", Quick: 130, Thorough: 4000, Run: runC09, Assume: assume,
		Rule: "a case verifies one honest proof against up to 14 altered lists of signals which a constraint can tell apart; distinct by system and altered list",
		Need: []string{"altered statements rejected", "rejected: exchanged", "rejected: missing", "rejected: added", "rejected: leading", "rejected: not canonical", "rejected: negative", "rejected: changed", "rejected: divided elsewhere", "honest again"}})
	register(&Prop{ID: "C10", Quick: 130, Thorough: 4000, Run: runC10, Assume: assume,
		Rule: "a case verifies up to 12 single replacements in an honest proof, the proof of another statement, the key of another setup and a key with one foreign part; distinct by system, alteration and signals",
		Need: []string{"altered proofs rejected", "rejected: key of another setup", "rejected: A of another proof", "rejected: B of another proof", "rejected: C of another proof", "honest again"}})
	register(&Prop{ID: "C11", Quick: 160, Thorough: 5000, Run: runC11, Assume: assume,
		Rule: "a case compares divisibility (own division) and values of the combined polynomials of both pipelines with the defects of the constraints for valid and altered witnesses of six systems, then lets both provers prove altered witnesses, also with a foreign polynomial, and forges a proof with a freely chosen element F; distinct by system and witness",
		Need: []string{"divisible", "not divisible", "systems over exponents", "false witnesses refused (dense)", "false witnesses refused (sparse)", "false proofs rejected", "forgeries with a free element F rejected"}})
	register(&Prop{ID: "C12", Quick: 200, Thorough: 6000, Run: runC12, Assume: []string{"the recomputation reads the trapdoors from Setup.Toxic"},
		Rule: "a case recomputes every group element of a reference string from trapdoors and Lagrange basis values, checks pairing relations without trapdoors, and compares all trapdoors and drawn elements of the process with each other, some with other processes; distinct by system and pipeline",
		Need: []string{"group elements compared", "pairing relations", "fresh values compared", "processes compared", "reference strings recomputed (dense)", "reference strings recomputed (sparse)"}})
}

// fsubVec subtracts entry by entry
func fsubVec(a, b []*big.Int) []*big.Int {
	out := make([]*big.Int, len(a))
	for i := range a {
		out[i] = fsub(a[i], b[i])
	}
	return out
}
