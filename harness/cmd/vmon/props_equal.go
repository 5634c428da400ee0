package main

import (
	"fmt"
	"math/big"
	"math/rand"
)

// Monitor of C02: programs whose assertions stand in all kinds of places.

type assertGen struct {
	g    *generator
	p    *program
	glob *gscope
	m    *gscope
	body []*stmt
	outs []string
	// assertions in functions called by conditions and indices
	tests int
	// the literals that make an assertion between constants false
	lies  []*expr
	truth []*big.Int
}

// constants places an assertion between constants, sometimes a false one
func (a *assertGen) constants() {
	g, r := a.g, a.g.r
	var pre []*stmt
	k, d := int64(r.Intn(50)), int64(0)
	if chance(r, 1, 2) {
		d = int64(1 + r.Intn(5))
	}
	lit := eNum(k + d)
	if d != 0 {
		a.lies = append(a.lies, lit)
	}
	side := func(e *expr, v int64) *expr {
		switch r.Intn(4) {
		case 0:
			n := g.fresh("k")
			pre = append(pre, sVar(n, e))
			return eVar(n)
		case 1:
			j := int64(r.Intn(9))
			return eBin("-", eBin("+", e, eNum(j)), eNum(j))
		}
		return e
	}
	l, o := side(eNum(k), k), side(lit, k+d)
	if d != 0 {
		a.truth = append(a.truth, bi(k))
	}
	if chance(r, 1, 2) {
		l, o = o, l
	}
	as := sEqual(l, o)
	switch r.Intn(5) {
	case 0:
		n := g.fresh("chk")
		a.body = append(append(a.body, pre...), &stmt{kind: "func", fn: &fdecl{name: n, params: []string{"u", "o"}, body: []*stmt{sEqual(eVar("o"), eVar("u"))}}}, sCall(eCall(n, l, o)))
	case 1:
		a.body = append(append(a.body, pre...), &stmt{kind: "if", branches: []branch{{&cond{"<=", eNum(k), eNum(k)}, []*stmt{as}}}})
	case 2:
		i := g.fresh("i")
		a.body = append(append(a.body, pre...), sVar(i, eNum(0)), sFor(&cond{"<", eVar(i), eNum(2)}, sSet(eVar(i), eBin("+", eVar(i), eNum(1))), as))
	default:
		a.body = append(append(a.body, pre...), as)
	}
}

func (a *assertGen) out() string {
	o := a.g.fresh("out")
	a.outs = append(a.outs, o)
	return o
}

// sides returns an assertion that L equals o in one of several affine forms
func (a *assertGen) sides(s *gscope, l, o *expr) *stmt {
	r := a.g.r
	switch r.Intn(8) {
	case 0:
		l, o = o, l
	case 1:
		t := a.g.field(s, 1)
		l, o = eBin("+", l, t), eBin("+", t, o)
	case 2:
		k := a.g.num()
		if mod(k.num, N).Sign() != 0 {
			l, o = eBin("*", k, l), eBin("*", o, k)
		}
	case 3:
		l, o = eBin("-", l, o), eNum(0)
	case 4:
		l, o = eNum(0), eBin("-", o, l)
	case 5:
		t := a.g.field(s, 1)
		l, o = eBin("-", t, l), eBin("-", t, o)
	}
	return sEqual(l, o)
}

// place adds one assertion to the program
func (a *assertGen) place() {
	g, r := a.g, a.g.r
	fld := func() *expr { return g.field(a.m, 2) }
	proc := func(params []string, body ...*stmt) string {
		n := g.fresh("chk")
		d := &stmt{kind: "func", fn: &fdecl{name: n, params: params, body: body, anon: chance(r, 1, 2)}}
		if chance(r, 1, 2) {
			a.p.globals = append(a.p.globals, d)
		} else {
			a.body = append(a.body, d)
		}
		return n
	}
	inner := func(names ...string) *gscope {
		s := &gscope{}
		for _, n := range names {
			s.add(&sym{name: n, kind: "f"})
		}
		return s
	}
	maybeRet := func(s *gscope, ss []*stmt) []*stmt {
		switch r.Intn(3) {
		case 0:
			return append(ss, sRet(nil))
		case 1:
			return append(ss, sRet(g.field(s, 1)))
		}
		return ss
	}
	switch r.Intn(17) {
	case 0, 1:
		a.body = append(a.body, a.sides(a.m, fld(), eVar(a.out())))
	case 2:
		// in a procedure
		s := inner("u", "o")
		n := proc([]string{"u", "o"}, maybeRet(s, []*stmt{a.sides(inner("u"), g.field(inner("u"), 2), eVar("o"))})...)
		for i := 1 + r.Intn(2); i > 0; i-- {
			a.body = append(a.body, sCall(eCall(n, fld(), eVar(a.out()))))
		}
	case 3:
		// in a function whose value is used
		n := proc([]string{"u", "o"}, a.sides(inner("u"), g.field(inner("u"), 2), eVar("o")), sRet(g.field(inner("u"), 1)))
		v := g.fresh("v")
		e := eCall(n, fld(), eVar(a.out()))
		if chance(r, 1, 2) {
			e = eBin(pick(r, "+", "*", "-"), fld(), e)
		}
		a.body = append(a.body, sVar(v, e))
		if chance(r, 1, 2) {
			a.m.add(&sym{name: v, kind: "f"})
		}
	case 4:
		// in a branch that is taken
		k := int64(r.Intn(4))
		st := &stmt{kind: "if"}
		b := []*stmt{a.sides(a.m, fld(), eVar(a.out()))}
		switch r.Intn(3) {
		case 0:
			st.branches = []branch{{&cond{"==", eNum(k), eNum(k)}, b}}
		case 1:
			st.branches = []branch{{&cond{"<", eNum(k), eNum(k)}, []*stmt{sEqual(fld(), eNum(7))}}, {nil, b}}
		default:
			st.branches = []branch{{&cond{"!=", eNum(k), eNum(k)}, []*stmt{sEqual(fld(), eNum(7))}}, {&cond{"<=", eNum(k), eNum(k + 1)}, b}, {nil, []*stmt{sEqual(fld(), fld())}}}
		}
		a.body = append(a.body, st)
	case 5, 6:
		// in a loop, one assertion per iteration
		n := 1 + r.Intn(4)
		i := g.fresh("i")
		arr := g.fresh("a")
		oarr := g.fresh("oa")
		var es, os []*expr
		for j := 0; j < n; j++ {
			es = append(es, fld())
			os = append(os, eVar(a.out()))
		}
		a.body = append(a.body, &stmt{kind: "arr", name: arr, elems: es}, &stmt{kind: "arr", name: oarr, elems: os})
		as := sEqual(eIdx(arr, eVar(i)), eIdx(oarr, eVar(i)))
		if chance(r, 1, 2) {
			as = sEqual(eBin("*", eIdx(arr, eVar(i)), eIdx(arr, eVar(i))), eIdx(oarr, eVar(i)))
		}
		b := []*stmt{as}
		if chance(r, 1, 3) {
			b = []*stmt{{kind: "if", branches: []branch{{&cond{">=", eVar(i), eNum(0)}, b}}}}
		}
		if chance(r, 1, 3) {
			// nested: the inner loop repeats the same assertion
			j := g.fresh("j")
			b = []*stmt{sVar(j, eNum(0)), sFor(&cond{"<", eVar(j), eNum(2)}, sSet(eVar(j), eBin("+", eVar(j), eNum(1))), b...)}
		}
		a.body = append(a.body, sVar(i, eNum(0)), sFor(&cond{"<", eVar(i), eNum(int64(n))}, sSet(eVar(i), eBin("+", eVar(i), eNum(1))), b...))
	case 7:
		// in a nested function that sees the claimed output of its surrounding
		o := a.out()
		n := g.fresh("h")
		d := &stmt{kind: "func", fn: &fdecl{name: n, params: []string{"q"}, anon: chance(r, 1, 2), body: maybeRet(inner("q"), []*stmt{a.sides(inner("q"), g.field(inner("q"), 2), eVar(o))})}}
		a.body = append(a.body, d, sCall(eCall(n, fld())))
	case 8:
		// through a function argument
		f := proc([]string{"q"}, sRet(g.field(inner("q"), 2)))
		n := proc([]string{"F", "u", "o"}, sEqual(eCall("F", eVar("u")), eVar("o")))
		a.body = append(a.body, sCall(eCall(n, eVar(f), fld(), eVar(a.out()))))
	case 9:
		// partial application, completed one or several times
		n := proc([]string{"u", "o"}, sEqual(g.field(inner("u"), 2), eVar("o")))
		k := g.fresh("k")
		a.body = append(a.body, sVar(k, eCall(n, fld())))
		for i := 1 + r.Intn(2); i > 0; i-- {
			a.body = append(a.body, sCall(eCall(k, eVar(a.out()))))
		}
	case 10:
		// at the end of a recursion
		n := g.fresh("rec")
		d := &stmt{kind: "func", fn: &fdecl{name: n, params: []string{"n", "u", "o"}, anon: chance(r, 1, 2), body: []*stmt{
			{kind: "if", branches: []branch{{&cond{"==", eVar("n"), eNum(0)}, []*stmt{sEqual(eVar("u"), eVar("o")), sRet(nil)}}}},
			sCall(eCall(n, eBin("-", eVar("n"), eNum(1)), eBin("*", eVar("u"), g.field(inner("u"), 1)), eVar("o")))}}}
		a.p.globals = append(a.p.globals, d)
		a.body = append(a.body, sCall(eCall(n, eNum(int64(r.Intn(4))), fld(), eVar(a.out()))))
	case 11:
		// the operands were multiplied before
		o := a.out()
		x := g.field(a.m, 0)
		v := g.fresh("v")
		a.body = append(a.body, sVar(v, eBin("*", x, eVar(o))), sVar(v+"y", eBin("*", eVar(o), x)))
		a.body = append(a.body, sEqual(x, eVar(o)))
		if chance(r, 1, 2) {
			a.body = append(a.body, sEqual(eVar(o), x))
		}
	case 12:
		// the operands were added or divided before
		o := a.out()
		x := g.field(a.m, 0)
		v := g.fresh("v")
		a.body = append(a.body, sVar(v, eCall("addGateConstraint", x, eVar(o))))
		if chance(r, 1, 2) {
			a.body = append(a.body, sVar(v+"y", eCall("addGateConstraint", eVar(o), x)))
		}
		a.body = append(a.body, sEqual(x, eVar(o)))
	case 14, 15:
		// in a function called by a condition or an index
		n := proc([]string{"n", "u", "o"}, a.sides(inner("u"), g.field(inner("u"), 2), eVar("o")), sRet(eVar("n")))
		e := func(k int64) *expr {
			if chance(r, 1, 2) {
				return eCall(n, eNum(k), fld(), eVar(a.out()))
			}
			return eBin("+", eCall(n, eNum(k-1), fld(), eVar(a.out())), eNum(1))
		}
		k := int64(1 + r.Intn(3))
		switch r.Intn(5) {
		case 0:
			// a condition that holds
			c := &cond{"==", e(k), eNum(k)}
			if chance(r, 1, 2) {
				c = &cond{"<", eNum(k - 1), e(k)}
			}
			a.body = append(a.body, &stmt{kind: "if", branches: []branch{{c, []*stmt{sVar(g.fresh("v"), fld())}}}})
		case 1:
			// a condition that does not hold, possibly after another
			st := &stmt{kind: "if", branches: []branch{{&cond{"!=", e(k), eNum(k)}, []*stmt{sVar(g.fresh("v"), fld())}}}}
			if chance(r, 1, 2) {
				st.branches = append(st.branches, branch{&cond{">=", e(k), eNum(k)}, []*stmt{sVar(g.fresh("v"), fld())}})
			}
			if len(st.branches) > 1 || chance(r, 1, 2) {
				st.branches = append(st.branches, branch{nil, []*stmt{sVar(g.fresh("v"), fld())}})
			}
			a.body = append(a.body, st)
		case 2:
			// the condition of a loop
			i := g.fresh("i")
			a.body = append(a.body, sVar(i, eNum(0)), sFor(&cond{"<", eVar(i), e(k)}, sSet(eVar(i), eBin("+", eVar(i), eNum(1)))))
		case 3:
			// an element that is read
			arr := g.fresh("a")
			a.body = append(a.body, &stmt{kind: "arr", name: arr, elems: []*expr{fld(), fld(), fld(), fld()}}, sVar(g.fresh("v"), eBin("*", fld(), eIdx(arr, e(k)))))
		default:
			// an element that is set
			arr := g.fresh("a")
			a.body = append(a.body, &stmt{kind: "arr", name: arr, elems: []*expr{fld(), fld(), fld(), fld()}}, sSet(eIdx(arr, e(k)), fld()))
		}
		a.tests++
	case 13:
		// the same expression claimed twice by two outputs
		e := fld()
		a.body = append(a.body, sEqual(e, eVar(a.out())), sEqual(e, eVar(a.out())))
	default:
		// a claim against a constant multiple and a repeated claim
		e := fld()
		o := a.out()
		a.body = append(a.body, sEqual(eBin("*", eNum(3), e), eVar(o)), sEqual(eVar(o), eBin("+", e, eBin("+", e, e))))
	}
}

func genAsserts(r *rand.Rand) (*program, *assertGen) {
	conf := fullConf
	conf.div = chance(r, 1, 3)
	g := &generator{r: r, conf: conf}
	p := &program{}
	if chance(r, 1, 2) {
		p.style = &style{r: r, blanks: chance(r, 1, 2), comments: chance(r, 1, 2), parens: chance(r, 1, 2), zeros: chance(r, 1, 4)}
	}
	a := &assertGen{g: g, p: p, glob: &gscope{}}
	a.m = &gscope{parent: a.glob}
	for i := 1 + r.Intn(3); i > 0; i-- {
		n := g.fresh("x")
		p.args = append(p.args, mainArg{name: n})
		a.m.add(&sym{name: n, kind: "f"})
	}
	for i := 1 + r.Intn(4); i > 0; i-- {
		if chance(r, 1, 3) {
			a.body = append(a.body, g.block(a.m, 1, 2, false)...)
		}
		a.place()
	}
	for i := r.Intn(10) - 7; i > 0; i-- {
		a.constants()
	}
	if chance(r, 1, 3) {
		a.body = append(a.body, sRet(g.field(a.m, 1)))
	}
	p.body = a.body
	p.outs = a.outs
	for _, o := range a.outs {
		pos := r.Intn(len(p.args) + 1)
		p.args = append(p.args[:pos], append([]mainArg{{name: o}}, p.args[pos:]...)...)
	}
	p.mainPos = r.Intn(len(p.globals) + 1)
	if chance(r, 1, 2) {
		p.public = drawPublic(r, p.argNames())
	}
	return p, a
}

// collidingNames decides programs whose assertions once shared a name and were taken for one assertion
func collidingNames(c *Ctx) {
	for _, k := range [][2]int64{{213924580, 179913178}} {
		src := fmt.Sprintf("func main(x,c){ equal(%d*x,c)\n equal(%d*x,c) }", k[0], k[1])
		c.Note("%s", src)
		comp := mustCompile(c, src, false)
		if comp == nil {
			return
		}
		pos := comp.index()
		for i, in := range [][2]int64{{0, 0}, {1, k[0]}, {1, k[1]}} {
			x := map[string]*big.Int{"x": bi(in[0]), "c": bi(in[1])}
			_, ok, done := runBoth(c, comp, vector(comp.inputs, x))
			if !done {
				return
			}
			w := make([]*big.Int, comp.sys.wit)
			for j := range w {
				w[j] = bi(0)
			}
			w[0], w[pos["x"]], w[pos["c"]] = one, x["x"], x["c"]
			if holds := comp.sys.wit == 3 && comp.sys.broken(w) < 0; ok != (i == 0) || (comp.sys.wit == 3 && holds != (i == 0)) {
				c.Note("inputs %v", x)
				c.Fail("unconstrained", "accepted: %v, all constraints hold: %v", ok, holds)
				return
			}
			c.Count("assertions that once shared a name", 1)
			c.Distinct(src, i)
		}
	}
}

func runC02(c *Ctx) {
	if c.Idx == 0 {
		collidingNames(c)
		return
	}
	if chance(c.R, 1, 600) {
		longCase(c, 6000, false)
		return
	}
	if chance(c.R, 1, 8) {
		twins(c)
		return
	}
	var p *program
	var a *assertGen
	for {
		p, a = genAsserts(c.R)
		res := p.eval(p.inputs(c.R), stepLimit)
		if res.abort == "" && res.muls < 200 {
			break
		}
	}
	src := p.source()
	c.Note("%s", src)
	in := p.inputs(c.R)
	if len(a.lies) > 0 {
		falseConstants(c, p, a, src, in)
		return
	}
	ok, res := p.solveAll(in)
	comp := mustCompile(c, src, res.div0)
	if comp == nil {
		return
	}
	c.Sample(map[string]interface{}{"program": src, "assertions reached": len(res.eqs)})
	pos := comp.index()
	w := against(c, p, comp, in, res)
	if c.failed() {
		return
	}
	// arbitrary inputs as well
	for i := 0; i < 2; i++ {
		v := p.inputs(c.R)
		for _, o := range p.outs {
			v[o] = fieldElem(c.R, N)
		}
		against(c, p, comp, v, p.eval(v, stepLimit))
		if c.failed() {
			return
		}
	}
	if !ok || w == nil {
		return
	}
	c.Count("assertions reached", len(res.eqs))
	c.Count("programs with assertions in conditions and indices", min(1, a.tests))
	for _, o := range p.outs {
		for k := 0; k < 2; k++ {
			d := delta(c.R)
			v := map[string]*big.Int{}
			for n, x := range in {
				v[n] = x
			}
			v[o] = fadd(in[o], d)
			r2 := p.eval(v, stepLimit)
			violated := 0
			for _, e := range r2.eqs {
				if e.l.Cmp(e.r) != 0 {
					violated++
				}
			}
			if r2.div0 || violated == 0 {
				continue
			}
			c.Distinct(src, o, k)
			c.Count("violated assertions refused", 1)
			if violated == 1 {
				c.Count("exactly one assertion violated", 1)
			}
			against(c, p, comp, v, r2)
			bad := cloneVec(w)
			bad[pos[o]] = v[o]
			if comp.sys.brokenBy(bad, pos[o]) < 0 {
				c.Note("inputs %s", inputString(comp.inputs, in))
				c.Fail("unconstrained", "all constraints hold although the assertion on %s is violated", o)
			}
			if c.failed() {
				return
			}
		}
	}
}

// falseConstants decides a program with false assertions between constants: it is refused as a whole, or no inputs
// and no witness satisfy it.
func falseConstants(c *Ctx, p *program, a *assertGen, src string, in map[string]*big.Int) {
	comp, err := compile(src)
	c.Count("programs with a false assertion between constants", 1)
	c.Distinct(src)
	// the same program with true assertions
	var false_ []*big.Int
	for i, e := range a.lies {
		false_ = append(false_, e.num)
		e.num = a.truth[i]
	}
	truth := p.source()
	ok, res := p.solveAll(in)
	tcomp := mustCompile(c, truth, res.div0)
	if tcomp == nil {
		return
	}
	w := against(c, p, tcomp, in, res)
	if c.failed() {
		return
	}
	if err != nil {
		c.Count("programs with a false assertion refused", 1)
		return
	}
	for i, e := range a.lies {
		e.num = false_[i]
	}
	// whatever the inputs
	for i := 0; i < 3; i++ {
		v := in
		if i > 0 {
			v = p.inputs(c.R)
			if i == 2 {
				p.solveAll(v)
			}
		}
		r2 := p.eval(v, stepLimit)
		if r2.abort == "" {
			against(c, p, comp, v, r2)
		}
		if c.failed() {
			return
		}
	}
	if ok && w != nil && len(w) == comp.sys.wit && comp.sys.broken(w) < 0 {
		c.Note("inputs %s", inputString(comp.inputs, in))
		c.Fail("unconstrained", "all constraints hold although an assertion between constants is false; witness %v", w)
		return
	}
	c.Count("false assertions between constants refused", 1)
}

// solveAll solves the claimed outputs one after the other
func (p *program) solveAll(in map[string]*big.Int) (bool, *evaluation) {
	res := p.eval(in, stepLimit)
	for _, o := range p.outs {
		if res.abort != "" || res.div0 {
			return false, res
		}
		save := in[o]
		in[o] = fadd(save, one)
		r1 := p.eval(in, stepLimit)
		in[o] = save
		if r1.abort != "" || r1.div0 || len(r1.eqs) != len(res.eqs) {
			continue
		}
		for k := range res.eqs {
			d0, d1 := fsub(res.eqs[k].l, res.eqs[k].r), fsub(r1.eqs[k].l, r1.eqs[k].r)
			slope := fsub(d1, d0)
			if slope.Sign() != 0 {
				in[o] = fsub(save, fmul(d0, minv(slope, N)))
				break
			}
		}
		res = p.eval(in, stepLimit)
	}
	return res.satisfied(), res
}

func init() {
	register(&Prop{ID: "C02", Quick: 25000, Thorough: 1500000, Run: runC02,
		Rule: "a case draws a program with assertions in procedures, functions, branches, loops, nested functions, function arguments, partial applications, recursions and functions called by conditions and indices, also after products, sums or quotients of the same operands; every claimed output is solved with an independent evaluator and then violated on its own, twice; one case in eight asserts two expressions that differ in one aspect only (bits of a coefficient, its sign, order, names) in one program; each such violation is a non-trivial evaluation, distinct by program and output",
		Need: []string{"violated assertions refused", "exactly one assertion violated", "satisfied", "twin assertions satisfied", "programs with a false assertion between constants", "programs with assertions in conditions and indices"}})
	_ = fmt.Sprint
}
