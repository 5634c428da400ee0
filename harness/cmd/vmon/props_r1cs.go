package main

import (
	"crypto/sha256"
	"fmt"
	"math/big"
	"math/rand"
	"sort"
	"strings"

	"github.com/mottla/go-AlgebraicProgram-SNARK/circuitcompiler"
	"github.com/mottla/go-AlgebraicProgram-SNARK/utils"
	"github.com/mottla/go-AlgebraicProgram-SNARK/zkSNARK"
)

// Monitors of the constraint systems: C03, C04, C05, C06, C13, C26.

// richConf adds base point multiplications and bit decompositions
func richConf(r *rand.Rand) gconf {
	conf := randomConf(r)
	conf.sbm = chance(r, 1, 3)
	conf.split = chance(r, 1, 25)
	conf.earlyMain = true
	return conf
}

func smallConf(r *rand.Rand) gconf {
	conf := randomConf(r)
	conf.stmts = 1 + r.Intn(3)
	conf.depth = 1 + r.Intn(2)
	conf.funcs = r.Intn(3)
	conf.outs = 1 + r.Intn(2)
	conf.maxArgs = 1 + r.Intn(3)
	return conf
}

func runC03(c *Ctx) {
	if chance(c.R, 1, 300) {
		if chance(c.R, 1, 2) {
			longCase(c, 3000, false)
		} else {
			longCase(c, 300, true)
		}
		return
	}
	conf := richConf(c.R)
	if chance(c.R, 1, 3) {
		// contradicting or trivially true assertions between inputs
		conf.selfCheck = true
	}
	p := drawProgram(c.R, conf, 120)
	src := p.source()
	c.Note("%s", src)
	in := p.inputs(c.R)
	_, res := p.solveOuts(in, stepLimit)
	comp := mustCompile(c, src, res.div0)
	if comp == nil || res.abort != "" {
		return
	}
	c.Sample(map[string]interface{}{"program": src, "constraints": comp.sys.gates, "entries": comp.sys.wit})
	checkWitness(c, p, comp, in, res, true)
	if !c.failed() && chance(c.R, 1, 4) {
		foreignName(c, comp, vector(comp.inputs, in))
	}
	// random claims as well, nearly all of them wrong
	for k := 0; k < 2 && !c.failed(); k++ {
		v := p.inputs(c.R)
		for _, o := range p.outs {
			v[o] = fieldElem(c.R, N)
		}
		checkWitness(c, p, comp, v, p.eval(v, stepLimit), false)
	}
}

// foreignName hands over a value under a name that is not an argument of main.
func foreignName(c *Ctx, comp *compiled, vec []*big.Int) {
	known := map[string]bool{}
	for _, n := range comp.inputs {
		known[n] = true
	}
	name := pick(c.R, "nosuch", "1", "", "main", "x[99]", "out", "1@randomIn", "one")
	if known[name] {
		return
	}
	names, vals := append([]string{}, comp.inputs...), cloneVec(vec)
	if i := c.R.Intn(len(names) + 1); i < len(names) && chance(c.R, 1, 2) {
		names[i] = name
	} else {
		names = append(names[:i], append([]string{name}, names[i:]...)...)
		vals = append(vals[:i], append([]*big.Int{pickBig(c.R, bi(0), bi(1), bi(2), fieldElem(c.R, N))}, vals[i:]...)...)
	}
	for _, sparse := range []bool{false, true} {
		var w []*big.Int
		var err error
		caught := try(func() {
			in := circuitcompiler.CombineInputs(names, vals)
			if sparse {
				w, err = circuitcompiler.CalculateSparseWitness(comp.sparse, in)
			} else {
				w, err = circuitcompiler.CalculateWitness(comp.dense, in)
			}
		})
		c.Count("values under foreign names", 1)
		if caught == nil && err == nil {
			c.Fail("foreign name", "%s: the inputs %v include the unknown name %q, yet a witness came back: %s", pipeName(sparse), names, name, vecString(w))
			return
		}
	}
}

func checkWitness(c *Ctx, p *program, comp *compiled, in map[string]*big.Int, res *evaluation, det bool) {
	vec := vector(comp.inputs, in)
	w := against(c, p, comp, in, res)
	if c.failed() || w == nil {
		return
	}
	raw, _, _ := comp.witness(vec)
	if raw[0].Cmp(one) != 0 {
		c.Fail("one", "the witness begins with %v", raw[0])
		return
	}
	pos := comp.index()
	for i, a := range comp.inputs {
		if raw[pos[a]].Cmp(vec[i]) != 0 {
			c.Note("inputs %s", inputString(comp.inputs, in))
			c.Fail("input", "input %s=%v is %v in the witness (entry %d)", a, vec[i], raw[pos[a]], pos[a])
			return
		}
	}
	c.Count("inputs found in the witness", len(vec))
	for i := range raw {
		if raw[i].Sign() < 0 || raw[i].Cmp(N) >= 0 {
			c.Note("inputs %s", inputString(comp.inputs, in))
			c.Fail("range", "entry %d of the witness is %v", i, raw[i])
			return
		}
	}
	if !det {
		return
	}
	c.Distinct(shapeOf(p), inputString(comp.inputs, in))
	// every derived entry is determined
	derived := len(pos) + 1
	step := 1
	if comp.sys.wit-derived > 400 {
		step = 7
	}
	for i := derived; i < comp.sys.wit; i += step {
		bad := append([]*big.Int{}, w...)
		bad[i] = fadd(w[i], delta(c.R))
		if comp.sys.brokenBy(bad, i) < 0 {
			c.Note("inputs %s", inputString(comp.inputs, in))
			c.Note("%s", comp.sys)
			c.Fail("free entry", "entry %d of the witness can be changed from %v to %v without breaking a constraint", i, w[i], bad[i])
			return
		}
		c.Count("derived entries changed", 1)
	}
}

// ---- C04

func treePoly(t *utils.AvlTree, limit int) ([]*big.Int, error) {
	v, err := treeVec(t, limit, "polynomial")
	return trim(v), err
}

func runC04(c *Ctx) {
	conf := smallConf(c.R)
	if chance(c.R, 1, 4) {
		conf = richConf(c.R)
	}
	conf.sbm = chance(c.R, 1, 4)
	conf.split = false
	p := drawProgram(c.R, conf, 40)
	src := p.source()
	c.Note("%s", src)
	in := p.inputs(c.R)
	_, res := p.solveOuts(in, stepLimit)
	comp := mustCompile(c, src, res.div0)
	if comp == nil || comp.sys.gates == 0 || comp.sys.gates > 40 {
		return
	}
	n, m := comp.sys.gates, comp.sys.wit
	c.Sample(map[string]interface{}{"program": src, "constraints": n, "entries": m})
	tr, ts := comp.dense.Transpose(), comp.sparse.TransposeSparse()
	if tr.NumberOfGates != n || ts.NumberOfGates != n || tr.WitnessLength != m || ts.WitnessLength != m {
		c.Fail("dimension", "transposes claim %dx%d and %dx%d instead of %dx%d", tr.NumberOfGates, tr.WitnessLength, ts.NumberOfGates, ts.WitnessLength, n, m)
		return
	}
	mats := [][2]interface{}{{tr.L, ts.L}, {tr.R, ts.R}, {tr.E, ts.E}, {tr.O, ts.O}}
	for k, mt := range mats {
		d, s := mt[0].([][]*big.Int), mt[1].([]*utils.AvlTree)
		if len(d) != m || len(s) != m {
			c.Fail("dimension", "transpose of matrix %c has %d and %d rows instead of %d", "LREO"[k], len(d), len(s), m)
			return
		}
		for i := 0; i < m; i++ {
			sv, err := treeVec(s[i], n, "transpose")
			if err != nil || len(d[i]) != n || !vecEqual(reduceVec(d[i], N), sv) {
				c.Fail("transpose", "matrix %c entry %d: dense %v sparse %v %v", "LREO"[k], i, vecString(d[i]), sv, err)
				return
			}
			c.Count("transposed rows compared", 1)
		}
	}
	var dp [4][][]*big.Int
	var sp [4][]*utils.AvlTree
	dp[0], dp[1], dp[2], dp[3] = tr.ER1CSToEAP()
	sp[0], sp[1], sp[2], sp[3] = ts.ER1CSToEAPSparse()
	for k := range dp {
		if len(dp[k]) != m || len(sp[k]) != m {
			c.Fail("dimension", "%d and %d polynomials of matrix %c instead of %d", len(dp[k]), len(sp[k]), "LREO"[k], m)
			return
		}
		for i := range dp[k] {
			s, err := treePoly(sp[k][i], n)
			if err != nil || !vecEqual(reduceVec(dp[k][i], N), s) {
				c.Fail("polynomial", "matrix %c polynomial %d: dense %v sparse %v %v", "LREO"[k], i, vecString(dp[k][i]), vecString(s), err)
				return
			}
			c.Count("polynomials compared", 1)
		}
	}
	// combined polynomial and quotient for a satisfying witness and for an arbitrary one
	w, ok, done := runBoth(c, comp, vector(comp.inputs, in))
	if !done {
		return
	}
	var ws [][]*big.Int
	if ok {
		ws = append(ws, w)
	}
	if !res.div0 && ok != res.satisfied() {
		c.Fail("verdict", "evaluation and witness generation disagree")
		return
	}
	arb := make([]*big.Int, m)
	for i := range arb {
		arb[i] = fieldElem(c.R, N)
	}
	ws = append(ws, arb)
	dom := utils.Field.PolynomialField.DomainPolynomial(n)
	for k, w := range ws {
		px := zkSNARK.CombinePolynomials2(cloneVec(w), tr)
		psx := zkSNARK.CombineSparsePolynomials(cloneVec(w), ts)
		s, err := treePoly(psx, 2*n+2)
		if err != nil || !vecEqual(reduceVec(px, N), s) {
			c.Fail("combined", "combined polynomial (witness %d): dense %v sparse %v %v", k, vecString(px), vecString(s), err)
			return
		}
		q, rem := utils.Field.PolynomialField.Div(px, dom)
		sq, srem := utils.Field.ArithmeticField.DivideSparse(psx.Clone(), utils.NewSparseArrayFromArray(dom))
		s, err = treePoly(sq, 2*n+2)
		t, err2 := treePoly(srem, 2*n+2)
		if err != nil || err2 != nil || !vecEqual(reduceVec(q, N), s) || !vecEqual(reduceVec(rem, N), t) {
			c.Fail("quotient", "quotient (witness %d): dense %v rest %v, sparse %v rest %v, %v %v", k, vecString(q), vecString(rem), vecString(s), vecString(t), err, err2)
			return
		}
		c.Count("quotients compared", 1)
		if k == 0 && ok {
			c.Count("satisfying witnesses", 1)
		}
	}
	c.Distinct(shapeOf(p), inputString(comp.inputs, in))
}

// ---- C13

// randomSystem draws a constraint system that no program needs to have
func randomSystem(r *rand.Rand, n, m int) *sys {
	density := 1 + r.Intn(4)
	mat := func(den int) [][]*big.Int {
		out := make([][]*big.Int, n)
		for j := range out {
			out[j] = make([]*big.Int, m)
			for i := range out[j] {
				out[j][i] = bi(0)
				if r.Intn(4) < den {
					out[j][i] = fieldElem(r, N)
				}
			}
		}
		return out
	}
	s := &sys{gates: n, wit: m, L: mat(density), R: mat(density), O: mat(density), E: mat(0)}
	if r.Intn(3) == 0 {
		for j := 0; j < n; j++ {
			if r.Intn(3) == 0 {
				s.E[j][r.Intn(m)] = fieldElem(r, N)
			}
		}
	}
	s.alias = chance(r, 1, 3)
	if chance(r, 1, 4) {
		// columns with few values
		for _, a := range [][][]*big.Int{s.L, s.R, s.O} {
			for i := 0; i < m; i++ {
				col := make([]*big.Int, n)
				for j := range col {
					col[j] = a[j][i]
				}
				fewValues(r, col)
				for j := range col {
					a[j][i] = col[j]
				}
			}
		}
	}
	return s
}

func (s *sys) dense() *circuitcompiler.ER1CS {
	seen := map[string]*big.Int{}
	cl := func(a [][]*big.Int) (out [][]*big.Int) {
		for _, r := range a {
			row := cloneVec(r)
			for i, v := range row {
				if k := v.String(); s.alias && seen[k] != nil {
					row[i] = seen[k]
				} else {
					seen[k] = v
				}
			}
			out = append(out, row)
		}
		return
	}
	return &circuitcompiler.ER1CS{WitnessLength: s.wit, NumberOfGates: s.gates, L: cl(s.L), R: cl(s.R), E: cl(s.E), O: cl(s.O)}
}

func (s *sys) sparse() *circuitcompiler.ER1CSSparse {
	seen := map[string]*big.Int{}
	cl := func(a [][]*big.Int) (out []*utils.AvlTree) {
		for _, r := range a {
			t := utils.NewAvlTree()
			for i, e := range r {
				if e.Sign() == 0 {
					continue
				}
				v := cp(e)
				if k := v.String(); s.alias && seen[k] != nil {
					v = seen[k]
				} else {
					seen[k] = v
				}
				t.Insert(uint(i), v)
			}
			out = append(out, t)
		}
		return
	}
	return &circuitcompiler.ER1CSSparse{WitnessLength: s.wit, NumberOfGates: s.gates, L: cl(s.L), R: cl(s.R), E: cl(s.E), O: cl(s.O)}
}

func runC13(c *Ctx) {
	var s *sys
	var dense *circuitcompiler.ER1CS
	var sparse *circuitcompiler.ER1CSSparse
	if chance(c.R, 1, 2) {
		p := drawProgram(c.R, smallConf(c.R), 30)
		src := p.source()
		c.Note("%s", src)
		comp, err := compile(src)
		if err != nil || comp.sys.gates == 0 || comp.sys.gates > 30 {
			return
		}
		s, dense, sparse = comp.sys, comp.dense, comp.sparse
		c.Count("systems of programs", 1)
	} else {
		n, m := 1+c.R.Intn(12), 1+c.R.Intn(10)
		if chance(c.R, 1, 12) {
			n, m = 15+c.R.Intn(50), 1+c.R.Intn(3)
			c.Count("random systems of 15 to 64 constraints", 1)
		}
		s = randomSystem(c.R, n, m)
		dense, sparse = s.dense(), s.sparse()
		c.Count("random systems", 1)
	}
	n, m := s.gates, s.wit
	c.Note("%s", s)
	c.Sample(map[string]interface{}{"system": s.String()})
	tr, ts := dense.Transpose(), sparse.TransposeSparse()
	var dp [4][][]*big.Int
	var sp [4][]*utils.AvlTree
	dp[0], dp[1], dp[2], dp[3] = tr.ER1CSToEAP()
	sp[0], sp[1], sp[2], sp[3] = ts.ER1CSToEAPSparse()
	orig := [4][][]*big.Int{s.L, s.R, s.E, s.O}
	trs := [4][][]*big.Int{tr.L, tr.R, tr.E, tr.O}
	tss := [4][]*utils.AvlTree{ts.L, ts.R, ts.E, ts.O}
	for k := 0; k < 4; k++ {
		if len(dp[k]) != m || len(sp[k]) != m || len(trs[k]) != m || len(tss[k]) != m {
			c.Fail("dimension", "matrix %c: %d dense and %d sparse polynomials for %d entries", "LREO"[k], len(dp[k]), len(sp[k]), m)
			return
		}
		for i := 0; i < m; i++ {
			tv, err := treeVec(tss[k][i], n, "transpose")
			if err != nil {
				c.Fail("transpose", "%v", err)
				return
			}
			d := reduceVec(dp[k][i], N)
			sv, err := treePoly(sp[k][i], 2*n+2)
			if err != nil || len(trim(d)) > n || len(trim(sv)) > n {
				c.Fail("degree", "matrix %c entry %d: dense %d coefficients, sparse %d, %d constraints, %v", "LREO"[k], i, len(trim(d)), len(sv), n, err)
				return
			}
			for j := 0; j < n; j++ {
				e := orig[k][j][i]
				if len(trs[k][i]) != n || mod(trs[k][i][j], N).Cmp(e) != 0 || tv[j].Cmp(e) != 0 {
					c.Fail("transpose", "matrix %c constraint %d entry %d is %v, dense transpose %v, sparse transpose %v", "LREO"[k], j, i, e, trs[k][i], tv[j])
					return
				}
				x := bi(int64(j))
				if polyEval(d, x, N).Cmp(e) != 0 {
					c.Fail("interpolation", "dense polynomial %d of matrix %c is %v at point %d, matrix entry %v", i, "LREO"[k], polyEval(d, x, N), j, e)
					return
				}
				if polyEval(sv, x, N).Cmp(e) != 0 {
					c.Fail("interpolation", "sparse polynomial %d of matrix %c is %v at point %d, matrix entry %v", i, "LREO"[k], polyEval(sv, x, N), j, e)
					return
				}
				c.Count("matrix entries evaluated", 1)
			}
		}
	}
	for k := 0; k < 3; k++ {
		w := make([]*big.Int, m)
		for i := range w {
			w[i] = fieldElem(c.R, N)
		}
		if k == 1 {
			for i := range w {
				w[i] = bi(0)
			}
		}
		px := reduceVec(zkSNARK.CombinePolynomials2(cloneVec(w), tr), N)
		psx, err := treePoly(zkSNARK.CombineSparsePolynomials(cloneVec(w), ts), 2*n+2)
		if err != nil {
			c.Fail("combined", "%v", err)
			return
		}
		for j := 0; j < n; j++ {
			d := s.defect(j, w)
			if v := polyEval(px, bi(int64(j)), N); v.Cmp(d) != 0 {
				c.Fail("combined", "dense combined polynomial is %v at point %d, the defect is %v (witness %v)", v, j, d, vecString(w))
				return
			}
			if v := polyEval(psx, bi(int64(j)), N); v.Cmp(d) != 0 {
				c.Fail("combined", "sparse combined polynomial is %v at point %d, the defect is %v (witness %v)", v, j, d, vecString(w))
				return
			}
			c.Count("defects evaluated", 1)
		}
		if len(trim(px)) > 2*n-1 || len(psx) > 2*n-1 {
			c.Fail("degree", "combined polynomial with %d and %d coefficients for %d constraints", len(trim(px)), len(psx), n)
			return
		}
	}
	d := c.R.Intn(25) + 1
	if chance(c.R, 1, 6) {
		d = 25 + c.R.Intn(140)
	}
	dom := reduceVec(utils.Field.PolynomialField.DomainPolynomial(d), N)
	if len(trim(dom)) != d+1 || dom[d].Cmp(one) != 0 {
		c.Fail("domain", "domain polynomial of %d constraints has %d coefficients, leading %v", d, len(trim(dom)), dom[len(dom)-1])
		return
	}
	for j := -2; j < d+2; j++ {
		v := polyEval(dom, mod(bi(int64(j)), N), N)
		if (v.Sign() == 0) != (j >= 0 && j < d) {
			c.Fail("domain", "domain polynomial of %d constraints is %v at %d", d, v, j)
			return
		}
		c.Count("domain points evaluated", 1)
	}
	c.Distinct(s.String())
}

// ---- C05

func runC05(c *Ctx) {
	conf := richConf(c.R)
	conf.pub = false
	conf.maxArgs = 1 + c.R.Intn(7)
	conf.sbm = false
	p := drawProgram(c.R, conf, 60)
	names := p.argNames()
	perm := c.R.Perm(len(names))
	k := c.R.Intn(len(names) + 1)
	p.public = []string{}
	for _, i := range perm[:k] {
		p.public = append(p.public, names[i])
	}
	if k == 0 && chance(c.R, 1, 2) {
		p.public = nil
	}
	if p.public != nil && len(p.public) == 0 {
		p.public = nil
	}
	src := p.source()
	c.Note("%s", src)
	in := p.inputs(c.R)
	_, res := p.solveOuts(in, stepLimit)
	comp := mustCompile(c, src, res.div0)
	if comp == nil {
		return
	}
	c.Sample(map[string]interface{}{"program": src, "public": p.public})
	if comp.pubN != 1+len(p.public) {
		c.Fail("count", "%d public inputs reported, %d declared", comp.pubN, len(p.public))
		return
	}
	if len(comp.public) != comp.pubN || comp.public[0] != "1" || strings.Join(comp.public[1:], " ") != strings.Join(p.public, " ") {
		c.Fail("names", "public inputs %v, declared %v", comp.public, p.public)
		return
	}
	if strings.Join(comp.inputs, " ") != strings.Join(names, " ") {
		c.Fail("arguments", "arguments of main are %v, declared %v", comp.inputs, names)
		return
	}
	if !res.satisfied() || res.abort != "" {
		return
	}
	w, ok, done := runBoth(c, comp, vector(names, in))
	if !done {
		return
	}
	if !ok {
		c.Fail("rejected", "satisfying inputs are rejected: %s", inputString(names, in))
		return
	}
	want := []*big.Int{bi(1)}
	lab := []string{"one"}
	isPub := map[string]bool{}
	for _, x := range p.public {
		want = append(want, in[x])
		lab = append(lab, x)
		isPub[x] = true
	}
	for _, x := range names {
		if !isPub[x] {
			want = append(want, in[x])
			lab = append(lab, x)
		}
	}
	if len(w) < len(want) {
		c.Fail("layout", "witness of %d entries for %d arguments", len(w), len(names))
		return
	}
	distinct := map[string]bool{}
	for i := range want {
		distinct[want[i].String()] = true
		if w[i].Cmp(want[i]) != 0 {
			c.Fail("layout", "entry %d should hold %s=%v but is %v (public %v, arguments %v)", i, lab[i], want[i], w[i], p.public, names)
			return
		}
	}
	c.Count("witness prefixes checked", 1)
	c.Count("public entries checked", len(p.public))
	if len(p.public) > 1 && len(distinct) > 2 {
		c.Count("prefixes with several distinct values", 1)
	}
	c.Distinct(strings.Join(names, ","), strings.Join(p.public, ","), inputString(names, in))
	// invalid declarations
	bad := append([]string{}, p.public...)
	kind := ""
	switch c.R.Intn(5) {
	case 0:
		if len(bad) == 0 {
			bad = []string{names[0]}
		}
		kind = "twice"
		bad = append(bad, bad[c.R.Intn(len(bad))])
	case 1:
		kind = "undeclared"
		bad = append(bad, "nowhere")
	case 2:
		kind = "local variable"
		p.body = append([]*stmt{sVar("localvariable", eNum(3))}, p.body...)
		bad = append(bad, "localvariable")
	case 3:
		kind = "function"
		p.globals = append(p.globals, &stmt{kind: "func", fn: &fdecl{name: "someFunction", params: []string{"a"}, body: []*stmt{sRet(eVar("a"))}}})
		bad = append(bad, "someFunction")
	case 4:
		kind = "global"
		p.globals = append(p.globals, sVar("someGlobal", eNum(5)))
		bad = append(bad, "someGlobal")
	}
	c.R.Shuffle(len(bad), func(i, j int) { bad[i], bad[j] = bad[j], bad[i] })
	p.public = bad
	src = p.source()
	if comp, err := compile(src); err == nil {
		c.Note("%s", src)
		c.Fail("declaration", "public declaration %v accepted (%s), %d public inputs", bad, kind, comp.pubN)
		return
	}
	c.Count("invalid declarations refused", 1)
}

// ---- C06

func fingerprint(comp *compiled) string {
	h := sha256.New()
	for _, g := range comp.gates {
		fmt.Fprintln(h, g.String(), g.ID())
	}
	fmt.Fprintln(h, comp.inputs, comp.public, comp.pubN, comp.sys.gates, comp.sys.wit)
	fmt.Fprintln(h, comp.sys.String())
	fmt.Fprintln(h, comp.ssys.String())
	return fmt.Sprintf("%x", h.Sum(nil)[:12])
}

func describe(src string) (string, *compiled) {
	comp, err := compile(src)
	if err != nil {
		return "refused", nil
	}
	return fingerprint(comp), comp
}

func describeTimed(src string) (string, *compiled, bool) {
	comp, err, hang := compileTimed(src)
	if hang || err != nil {
		return "refused", nil, hang
	}
	return fingerprint(comp), comp, false
}

func runC06(c *Ctx) {
	var p *program
	if chance(c.R, 1, 60) {
		// the bits of several values
		p = drawProgram(c.R, smallConf(c.R), 10)
		var names []string
		for _, n := range p.argNames() {
			if !strings.Contains(n, "[") {
				names = append(names, n)
			}
		}
		if len(names) > 0 {
			x, y := names[0], names[len(names)-1]
			vs := []*expr{eVar(x), eBin("*", eVar(x), eVar(y)), eBin("*", eVar(x), eBin("+", eVar(y), eVar(x)))}
			if x != y {
				vs = append(vs, eVar(y))
			}
			c.R.Shuffle(len(vs), func(i, j int) { vs[i], vs[j] = vs[j], vs[i] })
			for _, v := range vs[:2+c.R.Intn(2)] {
				p.body = append(p.body, sCall(eCall("SPLIT", v)))
			}
			c.Count("programs with several decompositions", 1)
		}
	} else {
		p = drawProgram(c.R, richConf(c.R), 100)
	}
	src := p.source()
	c.Note("%s", src)
	in := p.inputs(c.R)
	p.solveOuts(in, stepLimit)
	d0, comp := describe(src)
	c.Sample(map[string]interface{}{"program": src, "fingerprint": d0})
	wit := ""
	if comp != nil {
		w, err, caught := comp.witness(vector(comp.inputs, in))
		wit = fmt.Sprint(w, err != nil, caught != nil)
	}
	c.digest = d0 + "/" + fmt.Sprintf("%x", sha256.Sum256([]byte(wit)))[:12]
	// the same program again after others
	for i := 0; i < 3; i++ {
		kind := c.R.Intn(4)
		if i == 0 && c.Idx%250 == 125 {
			kind = 4
		}
		switch kind {
		case 4:
			if n, accepted := failingCompilations(c.R, 4000); accepted != "" {
				c.Note("---- accepted\n%s", accepted)
				c.Fail("malformed", "a malformed program is compiled")
				return
			} else {
				c.Count("failing compilations in a row", n)
			}
		case 0:
			compile(src + "\nfunc main(a){\n equal(a,b)\n")
		case 1:
			q := drawProgram(c.R, randomConf(c.R), 60)
			compile(q.source())
		case 2:
			// names of the program with other meanings
			if other := strings.Replace(src, "*", "+", 1+c.R.Intn(3)); ends(c.R, other) {
				compile(other)
			}
		case 3:
			if comp != nil {
				try(func() {
					comp.prog.GatesToR1CS(comp.prog.Execute(), false)
				})
			}
		}
		d, again := describe(src)
		if d != d0 {
			c.Fail("history", "compiling the program again gave %s instead of %s", d, d0)
			return
		}
		c.Count("recompilations compared", 1)
		if again != nil && wit != "" {
			w, err, caught := again.witness(vector(again.inputs, in))
			if s := fmt.Sprint(w, err != nil, caught != nil); s != wit {
				c.Fail("witness", "the witness of the recompiled program differs: %s instead of %s", clip(s, 500), clip(wit, 500))
				return
			}
		}
	}
	if chance(c.R, 1, 4) && !importCase(c, src, d0) {
		return
	}
	if comp == nil {
		return
	}
	// executing one parsed program repeatedly
	for i := 0; i < 2; i++ {
		g := comp.prog.Execute()
		again := &compiled{src: src, prog: comp.prog, gates: g, inputs: comp.inputs, public: comp.public, pubN: comp.prog.GlobalInputCount()}
		again.dense = comp.prog.GatesToR1CS(g, false)
		again.sparse = comp.prog.GatesToSparseR1CS(g, false)
		var err error
		if again.sys, err = denseSys(again.dense); err == nil {
			again.ssys, err = sparseSys(again.sparse)
		}
		if err != nil {
			c.Fail("execute", "%v", err)
			return
		}
		if d := fingerprint(again); d != d0 {
			c.Fail("execute", "execution %d of the same parsed program gave %s instead of %s; %s", i+2, d, d0, comp.sys.diff(again.sys))
			return
		}
		c.Count("re-executions compared", 1)
	}
	// the gates of one execution turned into constraints repeatedly
	d2 := comp.prog.GatesToR1CS(comp.gates, false)
	if s, err := denseSys(d2); err != nil || comp.sys.diff(s) != "" {
		c.Fail("emission", "emitting the constraints of the same gates again differs: %v", err)
		return
	}
	c.Distinct(src)
}

// failingCompilations compiles nothing but malformed programs
func failingCompilations(r *rand.Rand, n int) (done int, accepted string) {
	lines := []string{"equal(x,)", "equal(x,y", "var a = ", "var a = nope", "x[3] = 2", "var x = 1", "return (x", "equal(x,%)", "for(x<3;x=x+1){\n}",
		"if x==1 {\n}", "equal(x/0,c)", "f(1,2,3)", "var b[] = {1,2}\nequal(b[7],c)", "equal(\"a\",c)", "var i = 0\nfor(i<9;i=i+1){\nif i==5{\nequal(b,c)\n}\n}", "func x(){\n}"}
	switch r.Intn(4) {
	case 0:
		// always the same mistake
		lines = []string{pick(r, lines...)}
	case 1, 2:
		// mistakes that end the reading
		lines = []string{pick(r, "equal(x,y", "var a = ", "var a = x**x", "return (x", "equal(x,%)", "if x==1 {\n}", "for(x<3){\n}", "var a b")}
	}
	before := pick(r, "", "func f(a){\nreturn a*a\n}\n")
	for ; done < n; done++ {
		body := ""
		for k := r.Intn(6); k > 0; k-- {
			body += fmt.Sprintf("var v%d = x*%d\n", k, r.Intn(9))
		}
		src := before + "func main(x,c){\n" + body + pick(r, lines...) + "\n}\n"
		if _, err := compile(src); err == nil {
			return done, src
		}
	}
	return
}

// ---- C26

func runC26(c *Ctx) {
	r := c.R
	if chance(r, 1, 1000) {
		longCase(c, 6000, false)
		return
	}
	conf := fullConf
	conf.div = false
	conf.agc = false
	conf.arrays = chance(r, 1, 2)
	g := &generator{r: r, conf: conf, silent: true}
	p := &program{}
	glob := &gscope{}
	for i := r.Intn(3); i > 0; i-- {
		// functions of a single expression, with branches and loops inside
		name := g.fresh("f")
		d, x := g.plainFunc(glob, 2, name, 1+r.Intn(2))
		p.globals = append(p.globals, d)
		glob.add(x)
	}
	m := &gscope{parent: glob}
	for i := 1 + r.Intn(4); i > 0; i-- {
		n := g.fresh("x")
		p.args = append(p.args, mainArg{name: n})
		m.add(&sym{name: n, kind: "f"})
	}
	p.outs = []string{g.fresh("out")}
	p.args = append(p.args, mainArg{name: p.outs[0]})
	e := g.mix(m, g.field(m, 1+r.Intn(4)), r.Intn(5))
	if chance(r, 1, 2) {
		// the same expression once more with swapped operands
		o := swapped(r, e)
		if chance(r, 1, 2) {
			o = rescaled(r, o)
		}
		e = eBin(pick(r, "+", "-"), e, o)
	}
	p.body = []*stmt{sEqual(e, eVar(p.outs[0]))}
	if chance(r, 1, 4) {
		p.body = []*stmt{sEqual(eVar(p.outs[0]), e)}
	}
	p.mainPos = r.Intn(len(p.globals) + 1)
	in := p.inputs(r)
	res := p.eval(in, stepLimit)
	if res.abort != "" || res.muls > 200 {
		return
	}
	src := p.source()
	c.Note("%s", src)
	te := &termRun{prods: map[string]bool{}, muls: 0}
	if !te.run(p) {
		return
	}
	comp := mustCompile(c, src, false)
	if comp == nil {
		return
	}
	c.Sample(map[string]interface{}{"program": src, "constraints": comp.sys.gates, "distinct products": len(te.prods), "products": te.muls})
	c.Count("products", te.muls)
	c.Count("distinct products", len(te.prods))
	c.Count("constraints", comp.sys.gates)
	if te.muls > len(te.prods) {
		c.Count("programs with repeated products", 1)
	}
	if comp.sys.gates > 1+len(te.prods) {
		c.Note("%s", comp.sys)
		c.Fail("constraints", "%d constraints for an asserted expression with %d distinct products", comp.sys.gates, len(te.prods))
		return
	}
	c.Distinct(src)
}

// rescaled multiplies operands of products by constants
func rescaled(r *rand.Rand, e *expr) *expr {
	out := &expr{op: e.op, num: e.num, name: e.name}
	for _, k := range e.kids {
		k = rescaled(r, k)
		if e.op == "*" && chance(r, 1, 3) {
			var n *big.Int
			switch r.Intn(5) {
			case 0:
				n = new(big.Int).Add(new(big.Int).Lsh(one, uint(r.Intn(250))), bi(int64(r.Intn(3))))
			case 1:
				n = new(big.Int).Sub(N, bi(int64(1+r.Intn(4))))
			case 2:
				n = randBelow(r, N)
			default:
				n = bi(int64(1 + r.Intn(30)))
			}
			if k = eBin("*", eBig(n), k); chance(r, 1, 2) {
				k.kids[0], k.kids[1] = k.kids[1], k.kids[0]
			}
		}
		out.kids = append(out.kids, k)
	}
	return out
}

// swapped exchanges operands of commutative operations at random
func swapped(r *rand.Rand, e *expr) *expr {
	out := &expr{op: e.op, num: e.num, name: e.name}
	for _, k := range e.kids {
		out.kids = append(out.kids, swapped(r, k))
	}
	if (e.op == "*" || e.op == "+") && chance(r, 1, 2) {
		out.kids[0], out.kids[1] = out.kids[1], out.kids[0]
	}
	return out
}

// termRun evaluates a program symbolically: values are terms, identified modulo the order of operands
type termRun struct {
	prods map[string]bool
	muls  int
}

func (t *termRun) run(p *program) bool {
	ev := &symEval{t: t}
	ok := true
	if try(func() { ev.program(p) }) != nil {
		ok = false
	}
	return ok && ev.steps < stepLimit
}

type symEval struct {
	t     *termRun
	steps int
}

type symCell struct{ v interface{} } // term, static or function

type symEnv struct {
	vars   map[string]*symCell
	parent *symEnv
}

func (e *symEnv) find(n string) *symCell {
	for ; e != nil; e = e.parent {
		if c, ok := e.vars[n]; ok {
			return c
		}
	}
	return nil
}

// symVal is a linear combination of inputs, products and one
type symVal struct {
	form   map[string]*big.Int // coefficients between 1 and the order
	static bool                // computed from constants only
}

func symNum(v *big.Int) symVal {
	f := map[string]*big.Int{}
	if v = mod(v, N); v.Sign() != 0 {
		f["1"] = v
	}
	return symVal{f, true}
}

// number gives the value of a constant
func (v symVal) number() *big.Int {
	if len(v.form) == 0 {
		return bi(0)
	}
	if n := v.form["1"]; n != nil && len(v.form) == 1 {
		return n
	}
	return nil
}

func (v symVal) scaled(k *big.Int) symVal {
	f := map[string]*big.Int{}
	if k = mod(k, N); k.Sign() != 0 {
		for n, c := range v.form {
			f[n] = fmul(c, k)
		}
	}
	return symVal{form: f}
}

func (v symVal) plus(o symVal) symVal {
	f := map[string]*big.Int{}
	for n, c := range v.form {
		f[n] = c
	}
	for n, c := range o.form {
		x := c
		if f[n] != nil {
			x = fadd(f[n], c)
		}
		if delete(f, n); x.Sign() != 0 {
			f[n] = x
		}
	}
	return symVal{form: f}
}

// primitive splits the value into a constant and a form without common factor
func (v symVal) primitive() (k *big.Int, key string) {
	names := []string{}
	small := map[string]*big.Int{}
	gcd := bi(0)
	for n, c := range v.form {
		names = append(names, n)
		if m := new(big.Int).Sub(c, N); m.CmpAbs(c) < 0 {
			c = m
		}
		small[n] = c
		gcd.GCD(nil, nil, gcd, new(big.Int).Abs(c))
	}
	sort.Strings(names)
	if len(names) == 1 {
		return v.form[names[0]], names[0]
	}
	for _, n := range names {
		key += fmt.Sprintf("+%v%s", new(big.Int).Div(small[n], gcd), n)
	}
	return gcd, key
}

type symFn struct {
	fn    *fdecl
	env   *symEnv
	bound []interface{}
}

func (s *symEval) program(p *program) {
	g := &symEnv{vars: map[string]*symCell{}}
	for _, st := range p.globals {
		s.stmt(g, st)
	}
	m := &symEnv{vars: map[string]*symCell{}, parent: g}
	for _, a := range p.argNames() {
		m.vars[a] = &symCell{symVal{form: map[string]*big.Int{"<" + a + ">": one}}}
	}
	s.block(m, p.body)
}

func (s *symEval) block(e *symEnv, ss []*stmt) (interface{}, bool) {
	for _, st := range ss {
		if st.kind == "func" {
			e.vars[st.fn.name] = &symCell{&symFn{fn: st.fn, env: e}}
		}
	}
	for _, st := range ss {
		if v, ret := s.stmt(e, st); ret {
			return v, true
		}
	}
	return nil, false
}

func (s *symEval) test(e *symEnv, c *cond) bool {
	l, r := s.val(e, c.l), s.val(e, c.r)
	x := l.number().Cmp(r.number())
	switch c.op {
	case "==":
		return x == 0
	case "!=":
		return x != 0
	case "<":
		return x < 0
	case "<=":
		return x <= 0
	case ">":
		return x > 0
	}
	return x >= 0
}

func (s *symEval) name(e *symEnv, x *expr) string {
	n := x.name
	for _, k := range x.kids {
		n += "[" + s.val(e, k).number().String() + "]"
	}
	return n
}

func (s *symEval) stmt(e *symEnv, st *stmt) (interface{}, bool) {
	if s.steps++; s.steps > stepLimit {
		panic("too long")
	}
	switch st.kind {
	case "var":
		e.vars[st.name] = &symCell{s.expr(e, st.e)}
	case "arr":
		for i, x := range st.elems {
			e.vars[fmt.Sprintf("%s[%d]", st.name, i)] = &symCell{s.expr(e, x)}
		}
	case "set":
		n := st.target.name
		if st.target.op == "idx" {
			n = s.name(e, st.target)
		}
		e.find(n).v = s.expr(e, st.e)
	case "func":
		e.vars[st.fn.name] = &symCell{&symFn{fn: st.fn, env: e}}
	case "return":
		if st.e == nil {
			return symNum(one), true
		}
		return s.expr(e, st.e), true
	case "call":
		s.expr(e, st.e)
	case "if":
		for _, b := range st.branches {
			if b.cond == nil || s.test(e, b.cond) {
				return s.block(&symEnv{vars: map[string]*symCell{}, parent: e}, b.body)
			}
		}
	case "for":
		for s.test(e, st.cond) {
			if s.steps++; s.steps > stepLimit {
				panic("too long")
			}
			if v, ret := s.block(&symEnv{vars: map[string]*symCell{}, parent: e}, st.body); ret {
				return v, true
			}
			s.stmt(e, st.inc)
		}
	}
	return nil, false
}

func (s *symEval) val(e *symEnv, x *expr) symVal { return s.expr(e, x).(symVal) }

func (s *symEval) expr(e *symEnv, x *expr) interface{} {
	switch x.op {
	case "num":
		return symNum(x.num)
	case "var":
		return e.find(x.name).v
	case "idx":
		return e.find(s.name(e, x)).v
	case "call":
		if x.name == "equal" {
			s.val(e, x.kids[0])
			s.val(e, x.kids[1])
			return nil
		}
		f := e.find(x.name).v.(*symFn)
		args := append([]interface{}{}, f.bound...)
		for _, k := range x.kids {
			args = append(args, s.expr(e, k))
		}
		if len(args) < len(f.fn.params) {
			return &symFn{fn: f.fn, env: f.env, bound: args}
		}
		fe := &symEnv{vars: map[string]*symCell{}, parent: f.env}
		for i, p := range f.fn.params {
			fe.vars[p] = &symCell{args[i]}
		}
		if s.steps++; s.steps > stepLimit {
			panic("too long")
		}
		v, _ := s.block(fe, f.fn.body)
		return v
	}
	l, r := s.val(e, x.kids[0]), s.val(e, x.kids[1])
	ln, rn := l.number(), r.number()
	if l.static && r.static {
		switch x.op {
		case "+":
			return symNum(fadd(ln, rn))
		case "-":
			return symNum(fsub(ln, rn))
		case "*":
			return symNum(fmul(ln, rn))
		}
		return symNum(fmul(ln, minv(rn, N)))
	}
	switch {
	case x.op == "+":
		return l.plus(r)
	case x.op == "-":
		return l.plus(r.scaled(bi(-1)))
	case x.op == "*" && l.static:
		return r.scaled(ln)
	case x.op == "*" && r.static:
		return l.scaled(rn)
	case x.op == "/" && r.static:
		return l.scaled(minv(rn, N))
	}
	if ln != nil || rn != nil {
		// an operand whose inputs cancel: the product may be computed, it is not compared with others
		s.t.muls++
		key := fmt.Sprintf("cancelled%d", s.t.muls)
		s.t.prods[key] = true
		return symVal{form: map[string]*big.Int{key: one}}
	}
	kl, nl := l.primitive()
	kr, nr := r.primitive()
	k, n := fmul(kl, kr), []string{nl, nr}
	if x.op == "*" {
		sort.Strings(n)
	} else {
		k = fmul(kl, minv(kr, N))
	}
	key := fmt.Sprintf("%x", sha256.Sum256([]byte("("+n[0]+x.op+n[1]+")")))[:24]
	s.t.muls++
	s.t.prods[key] = true
	return symVal{form: map[string]*big.Int{key: k}}
}

func init() {
	register(&Prop{ID: "C03", Quick: 12000, Thorough: 400000, Run: runC03,
		Rule: "a case draws a program, sometimes with base point multiplications and bit decompositions, one satisfying and two arbitrary input vectors; accepted witnesses are evaluated against every constraint by independent arithmetic and every derived entry is changed on its own; sometimes a value is handed over under a name that is not an argument of main, which must be refused; non-trivial: an accepted witness, distinct by program shape and inputs",
		Need: []string{"satisfied", "refused", "derived entries changed", "inputs found in the witness", "values under foreign names"}})
	register(&Prop{ID: "C04", Quick: 3500, Thorough: 100000, Run: runC04,
		Rule: "a case compiles a random program with both back ends and compares matrices, transposes, interpolated polynomials, witnesses, combined polynomials and quotients for the satisfying and for an arbitrary witness; non-trivial: everything was compared, distinct by program shape and inputs",
		Need: []string{"transposed rows compared", "polynomials compared", "quotients compared", "satisfying witnesses"}})
	register(&Prop{ID: "C13", Quick: 2500, Thorough: 80000, Run: runC13,
		Rule: "a case takes the system of a random program or a random system (constraints up to 12, also with exponents), evaluates every polynomial of both pipelines at every constraint point with independent arithmetic and compares the combined polynomial with the defects under random witnesses; distinct by system",
		Need: []string{"matrix entries evaluated", "defects evaluated", "domain points evaluated", "systems of programs", "random systems"}})
	register(&Prop{ID: "C05", Quick: 12000, Thorough: 400000, Run: runC05,
		Rule: "a case draws a program, publishes a random sublist of its arguments in random order and compares the witness with the declared layout, then adds an invalid public declaration; distinct by arguments, declaration and inputs",
		Need: []string{"witness prefixes checked", "prefixes with several distinct values", "invalid declarations refused"}})
	register(&Prop{ID: "C06", Quick: 4000, Thorough: 120000, Compare: true, Run: runC06,
		Rule: "a case compiles one program in two processes that run the cases in different orders, and again in each process after other, similar and malformed programs; gates, matrices, layout and witness are compared; distinct by source",
		Need: []string{"digest pairs compared", "recompilations compared", "re-executions compared", "distributed programs compared"}})
	register(&Prop{ID: "C26", Quick: 25000, Thorough: 1000000, Run: runC26,
		Rule: "a case asserts one random expression (with function calls, repeated and swapped products) and compares the number of constraints with one plus the number of distinct products of a symbolic evaluation, products counted as equal if their operands are the same linear forms modulo order and common constant factors; distinct by source",
		Need: []string{"programs with repeated products", "constraints"}})
}
