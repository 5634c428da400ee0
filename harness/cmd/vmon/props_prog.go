package main

import (
	"fmt"
	"math/big"
	"math/rand"
	"strings"
)

// Monitors of the compiler: C01 - C06, C26.

const stepLimit = 4000

// drawProgram generates programs until one can be evaluated within the bounds.
func drawProgram(r *rand.Rand, conf gconf, maxMul int) *program {
	for {
		p := generate(r, conf)
		in := p.inputs(r)
		res := p.evalMode(in, stepLimit, true)
		if res.abort != "" || res.muls > maxMul {
			continue
		}
		if chance(r, 1, 10) {
			internalConstants(r, p, in, maxMul)
		}
		return p
	}
}

// digits returns the number a name of the library looks like
func digits(name string, length int) *big.Int {
	d := ""
	for _, ch := range name {
		if ch >= '0' && ch <= '9' && len(d) < length {
			d += string(ch)
		}
	}
	n, ok := new(big.Int).SetString(d, 10)
	if !ok {
		return nil
	}
	return n.Mod(n, N)
}

// numbers lists the constants of the program
func (p *program) numbers() (out []*expr) {
	var walkE func(e *expr)
	walkE = func(e *expr) {
		if e == nil || e.op == "idx" {
			return
		}
		if e.op == "num" {
			out = append(out, e)
		}
		for _, k := range e.kids {
			walkE(k)
		}
	}
	var walk func(ss []*stmt)
	walk = func(ss []*stmt) {
		for _, s := range ss {
			walkE(s.e)
			for _, e := range s.elems {
				walkE(e)
			}
			if s.fn != nil {
				walk(s.fn.body)
			}
			for _, b := range s.branches {
				walk(b.body)
			}
			walk(s.body)
		}
	}
	walk(p.globals)
	walk(p.body)
	return
}

// internalConstants replaces constants of the program by numbers that look like the names the library gives to the
// constraints of the program.
func internalConstants(r *rand.Rand, p *program, in map[string]*big.Int, maxMul int) {
	nums := p.numbers()
	comp, err := compile(p.source())
	if err != nil || len(nums) == 0 || len(comp.gates) == 0 {
		return
	}
	for i := 0; i < 3; i++ {
		n := nums[r.Intn(len(nums))]
		old := n.num
		new := digits(comp.gates[r.Intn(len(comp.gates))].ID(), []int{16, 16, 100}[r.Intn(3)])
		if new == nil {
			continue
		}
		n.num = new
		if res := p.evalMode(in, stepLimit, true); res.abort != "" || res.muls > maxMul {
			n.num = old
		}
	}
}

func randomConf(r *rand.Rand) gconf {
	conf := fullConf
	conf.stmts = 2 + r.Intn(9)
	conf.depth = 1 + r.Intn(3)
	conf.funcs = r.Intn(6)
	conf.outs = 1 + r.Intn(3)
	conf.maxArgs = 1 + r.Intn(5)
	conf.div = chance(r, 2, 3)
	conf.loops = chance(r, 3, 4)
	conf.arrays = chance(r, 3, 4)
	conf.closures = chance(r, 3, 4)
	conf.agc = chance(r, 1, 3)
	conf.nested = chance(r, 3, 4)
	conf.selfCheck = chance(r, 1, 8)
	return conf
}

func shapeOf(p *program) string {
	kinds := map[string]int{}
	var walkE func(e *expr)
	walkE = func(e *expr) {
		if e == nil {
			return
		}
		kinds[e.op]++
		for _, k := range e.kids {
			walkE(k)
		}
	}
	var walk func(ss []*stmt)
	walk = func(ss []*stmt) {
		for _, s := range ss {
			kinds[s.kind]++
			walkE(s.e)
			walkE(s.target)
			for _, e := range s.elems {
				walkE(e)
			}
			if s.fn != nil {
				walk(s.fn.body)
			}
			for _, b := range s.branches {
				walk(b.body)
			}
			walk(s.body)
		}
	}
	walk(p.globals)
	walk(p.body)
	return fmt.Sprint(kinds)
}

// mustCompile compiles a well formed program. div0 tells that the evaluation divides by zero, in which case the
// library may refuse the program already (the divisor can be constant).
func mustCompile(c *Ctx, src string, div0 bool) *compiled {
	comp, err := compile(src)
	if err == nil {
		if d := comp.sys.diff(comp.ssys); d != "" {
			c.Fail("representation", "dense and sparse constraints differ: %s", d)
			return nil
		}
		return comp
	}
	if div0 && strings.Contains(err.Error(), "zero") {
		c.Count("constant divisions by zero refused", 1)
		return nil
	}
	if ce, ok := err.(*compileErr); ok {
		c.Note("%s", ce.caught.Stack)
	}
	c.Fail("refused", "a valid program is refused: %v", clip(err.Error(), 600))
	return nil
}

// runBoth computes both witnesses. ok: both succeeded and agree.
func runBoth(c *Ctx, comp *compiled, in []*big.Int) (w []*big.Int, ok, done bool) {
	w, err, caught := comp.witness(in)
	if caught != nil {
		c.Note("%s", caught.Stack)
		c.Fail("witness panic", "witness generation panicked: %v", caught)
		return nil, false, false
	}
	sw, serr, caught := comp.sparseWitness(in)
	if caught != nil {
		c.Note("%s", caught.Stack)
		c.Fail("witness panic", "sparse witness generation panicked: %v", caught)
		return nil, false, false
	}
	if (err == nil) != (serr == nil) {
		c.Fail("pipelines", "dense witness: %v, sparse witness: %v", err, serr)
		return nil, false, false
	}
	if err != nil {
		return nil, false, true
	}
	if len(w) != comp.sys.wit || len(sw) != comp.sys.wit {
		c.Fail("witness", "witness of %d and %d entries for a system over %d", len(w), len(sw), comp.sys.wit)
		return nil, false, false
	}
	for i := range w {
		if w[i] == nil || sw[i] == nil || mod(w[i], N).Cmp(mod(sw[i], N)) != 0 {
			c.Fail("pipelines", "entry %d of the witness is %v (dense) and %v (sparse)", i, w[i], sw[i])
			return nil, false, false
		}
	}
	return w, true, true
}

// against compares the verdict of the library about the inputs with the evaluation. It returns the witness of accepted
// inputs.
func against(c *Ctx, p *program, comp *compiled, in map[string]*big.Int, res *evaluation) (w []*big.Int) {
	vec := vector(comp.inputs, in)
	w, ok, done := runBoth(c, comp, vec)
	if !done {
		c.Note("inputs %s", inputString(comp.inputs, in))
		return nil
	}
	want := res.satisfied()
	if ok && !want {
		c.Note("inputs %s", inputString(comp.inputs, in))
		c.Note("witness %v", w)
		if j := comp.sys.broken(reduceVec(w, N)); j >= 0 {
			c.Fail("accepted", "inputs that violate the program are accepted although constraint %d is violated; %s", j, verdictString(res))
		} else {
			c.Fail("accepted", "inputs that violate the program are accepted and satisfy all constraints; %s", verdictString(res))
		}
		return nil
	}
	if !ok && want {
		c.Note("inputs %s", inputString(comp.inputs, in))
		c.Fail("rejected", "inputs that satisfy the program are rejected; %s", verdictString(res))
		return nil
	}
	if ok {
		if j := comp.sys.broken(reduceVec(w, N)); j >= 0 {
			c.Note("inputs %s", inputString(comp.inputs, in))
			c.Fail("unsatisfied", "the returned witness violates constraint %d", j)
			return nil
		}
		c.Count("satisfied", 1)
		return reduceVec(w, N)
	}
	c.Count("refused", 1)
	return nil
}

func verdictString(res *evaluation) string {
	s := fmt.Sprintf("evaluation: division by zero %v, %d assertions", res.div0, len(res.eqs))
	for i, e := range res.eqs {
		if e.l.Cmp(e.r) != 0 {
			s += fmt.Sprintf(", assertion %d: %v != %v", i, e.l, e.r)
		}
	}
	return s
}

// reached lists the claimed outputs that occur in a reached assertion
func reached(p *program, res *evaluation) (out []string) {
	for _, o := range p.outs {
		for _, e := range res.eqs {
			if usesVar(e.call, o) {
				out = append(out, o)
				break
			}
		}
	}
	return
}

func delta(r *rand.Rand) *big.Int {
	switch r.Intn(4) {
	case 0:
		return bi(1)
	case 1:
		return new(big.Int).Sub(N, one)
	}
	return nonZeroElem(r, N)
}

func runC01(c *Ctx) {
	if chance(c.R, 1, 700) {
		longCase(c, 6000, false)
		return
	}
	conf := randomConf(c.R)
	conf.earlyMain = true
	p := drawProgram(c.R, conf, 160)
	checkProgram(c, p, 3)
	for k := 0; k < 2 && !c.failed(); k++ {
		// other names, numbers and orders of lines
		checkMutant(c, p, mutate(c.R, p.source(), 1+c.R.Intn(4), 7), true)
	}
}

// checkProgram decides C01 for one program on several inputs
func checkProgram(c *Ctx, p *program, inputs int) {
	src := p.source()
	c.Note("%s", src)
	ins := make([]map[string]*big.Int, inputs)
	var evs []*evaluation
	div0 := false
	for i := range ins {
		ins[i] = p.inputs(c.R)
		_, res := p.solveOuts(ins[i], stepLimit)
		evs = append(evs, res)
		div0 = div0 || res.div0
	}
	comp := mustCompile(c, src, div0)
	if comp == nil {
		return
	}
	c.Count("programs compiled", 1)
	c.Count("constraints", comp.sys.gates)
	c.Sample(map[string]interface{}{"program": src, "constraints": comp.sys.gates, "entries": comp.sys.wit})
	pos := comp.index()
	for i, in := range ins {
		res := evs[i]
		if res.abort != "" {
			continue
		}
		if res.div0 {
			c.Count("division by zero", 1)
		}
		w := against(c, p, comp, in, res)
		if c.failed() {
			return
		}
		if w == nil {
			continue
		}
		c.Distinct(shapeOf(p), inputString(comp.inputs, in))
		for _, o := range reached(p, res) {
			wrong := map[string]*big.Int{}
			for k, v := range in {
				wrong[k] = v
			}
			d := delta(c.R)
			wrong[o] = fadd(in[o], d)
			r2 := p.eval(wrong, stepLimit)
			if r2.satisfied() {
				continue
			}
			against(c, p, comp, wrong, r2)
			// the constraints themselves must refuse the wrong claim
			bad := cloneVec(w)
			bad[pos[o]] = fadd(bad[pos[o]], d)
			if comp.sys.brokenBy(bad, pos[o]) < 0 {
				c.Note("inputs %s", inputString(comp.inputs, in))
				c.Fail("unconstrained", "all constraints hold although the claimed output %s is wrong by %v", o, d)
			}
			if c.failed() {
				return
			}
			c.Count("wrong claims refused", 1)
		}
	}
}

func init() {
	register(&Prop{ID: "C01", Quick: 30000, Thorough: 2000000, Run: runC01,
		Rule: "a case draws a program (functions, closures, partial application, recursion, arrays, loops, branches, shadowing, random layout) and three input vectors, compiles it with both back ends, solves the claimed outputs with an independent evaluator and asks the library for witnesses of correct and wrong claims; two variants with changed names, numbers and lines are judged alike if they are accepted; a case counts as non-trivial when a correct claim was accepted, distinct by program shape and inputs",
		Assume: []string{"static conditions compare the representatives below the group order; unary minus and local arrays of several dimensions do not exist in the language",
			"a quotient 0/0 is only judged by witness generation"},
		Need: []string{"satisfied", "refused", "wrong claims refused"}})
}
