package main

import (
	"fmt"
	"math/big"
	"math/rand"
	"strings"
)

// The language as this monitor understands it: an abstract syntax, a printer and an ordinary evaluator over the
// field with lexical scope. Neither uses the library.

type expr struct {
	op   string // num var call idx + - * /
	num  *big.Int
	name string
	kids []*expr
}

func eNum(i int64) *expr               { return &expr{op: "num", num: bi(i)} }
func eBig(i *big.Int) *expr            { return &expr{op: "num", num: i} }
func eVar(n string) *expr              { return &expr{op: "var", name: n} }
func eBin(op string, l, r *expr) *expr { return &expr{op: op, kids: []*expr{l, r}} }
func eCall(n string, a ...*expr) *expr { return &expr{op: "call", name: n, kids: a} }
func eIdx(n string, a ...*expr) *expr  { return &expr{op: "idx", name: n, kids: a} }
func sVar(n string, e *expr) *stmt     { return &stmt{kind: "var", name: n, e: e} }
func sSet(t *expr, e *expr) *stmt      { return &stmt{kind: "set", target: t, e: e} }
func sRet(e *expr) *stmt               { return &stmt{kind: "return", e: e} }
func sCall(e *expr) *stmt              { return &stmt{kind: "call", e: e} }
func sEqual(l, r *expr) *stmt          { return &stmt{kind: "call", e: eCall("equal", l, r)} }
func sFor(c *cond, inc *stmt, b ...*stmt) *stmt {
	return &stmt{kind: "for", cond: c, inc: inc, body: b}
}

type cond struct {
	op   string
	l, r *expr
}

type branch struct {
	cond *cond // nil: else
	body []*stmt
}

type stmt struct {
	kind     string // var arr set func if for return call raw
	name     string
	target   *expr
	e        *expr
	elems    []*expr
	fn       *fdecl
	branches []branch
	cond     *cond
	inc      *stmt
	body     []*stmt
	raw      string
}

type fdecl struct {
	name   string
	params []string
	body   []*stmt
	anon   bool // var f = func(..){..}
}

type mainArg struct {
	name string
	dims []int
}

// flat lists the single arguments an argument of main stands for.
func (a mainArg) flat() (out []string) {
	out = []string{a.name}
	for _, d := range a.dims {
		var next []string
		for _, p := range out {
			for i := 0; i < d; i++ {
				next = append(next, fmt.Sprintf("%s[%d]", p, i))
			}
		}
		out = next
	}
	return
}

type program struct {
	globals []*stmt // var, arr and func statements; main stands at position mainPos
	mainPos int
	args    []mainArg
	public  []string
	body    []*stmt
	outs    []string // arguments that only appear in equality assertions
	style   *style
}

func (p *program) argNames() (out []string) {
	for _, a := range p.args {
		out = append(out, a.flat()...)
	}
	return
}

// ---------------------------------------------------------------- printer

// style draws the layout of the printed source.
type style struct {
	r        *rand.Rand
	blanks   bool // random blanks
	comments bool // random comments and blank lines
	parens   bool // redundant parentheses
	zeros    bool // leading zeros of numbers
}

type printer struct {
	b     strings.Builder
	st    *style
	level int
}

func (p *printer) sp() string {
	if p.st == nil || !p.st.blanks {
		return ""
	}
	switch p.st.r.Intn(6) {
	case 0:
		return " "
	case 1:
		return "  "
	case 2:
		return "\t"
	case 3:
		return " \t "
	}
	return ""
}

// zeros are meaningless digits in front of a number
func (p *printer) zeros() string {
	if p.st == nil || !p.st.zeros || p.st.r.Intn(2) == 0 {
		return ""
	}
	return strings.Repeat("0", 1+p.st.r.Intn(2))
}

// must is at least one blank
func (p *printer) must() string { return " " + p.sp() }

func (p *printer) line(s string) {
	if p.st != nil && p.st.blanks {
		p.b.WriteString(strings.Repeat(pick(p.st.r, " ", "\t", "   "), p.st.r.Intn(4)))
	} else {
		p.b.WriteString(strings.Repeat("\t", p.level))
	}
	p.b.WriteString(s)
	p.eol()
}

func (p *printer) eol() {
	if p.st != nil && p.st.comments && p.st.r.Intn(5) == 0 {
		p.b.WriteString(p.sp() + "#" + pick(p.st.r, "", " a comment", " var q = 3", "}{)(", " equal(1,2)", " x = y # twice", " \"quoted", " return"))
	}
	p.b.WriteString("\n")
	if p.st != nil && p.st.comments {
		switch p.st.r.Intn(9) {
		case 0:
			p.b.WriteString("\n")
		case 1:
			p.b.WriteString(" \t\n\n")
		case 2:
			p.b.WriteString("# between " + pick(p.st.r, "", "{", "func f(a){", "if") + "\n")
		}
	}
}

func prec(op string) int {
	switch op {
	case "+", "-":
		return 1
	case "*", "/":
		return 2
	}
	return 3
}

func (p *printer) expr(e *expr) string {
	s := p.bare(e)
	if p.st != nil && p.st.parens && p.st.r.Intn(7) == 0 {
		s = "(" + p.sp() + s + p.sp() + ")"
		if p.st.r.Intn(400) == 0 {
			// hundreds of brackets around it
			n := 100 + p.st.r.Intn(600)
			s = strings.Repeat("(", n) + s + strings.Repeat(")", n)
		}
	}
	return s
}

func (p *printer) bare(e *expr) string {
	switch e.op {
	case "num":
		return p.zeros() + e.num.String()
	case "var":
		return e.name
	case "call":
		return p.call(e)
	case "idx":
		s := e.name
		for _, k := range e.kids {
			s += "[" + p.sp() + p.expr(k) + p.sp() + "]"
		}
		return s
	}
	l, r := p.expr(e.kids[0]), p.expr(e.kids[1])
	if prec(e.kids[0].op) < prec(e.op) {
		l = "(" + l + ")"
	}
	if prec(e.kids[1].op) <= prec(e.op) {
		r = "(" + r + ")"
	}
	return l + p.sp() + e.op + p.sp() + r
}

func (p *printer) call(e *expr) string {
	var a []string
	for _, k := range e.kids {
		a = append(a, p.sp()+p.expr(k)+p.sp())
	}
	return e.name + "(" + strings.Join(a, ",") + ")"
}

func (p *printer) cond(c *cond) string {
	s := p.expr(c.l) + p.sp() + c.op + p.sp() + p.expr(c.r)
	return s
}

func (p *printer) stmts(ss []*stmt) {
	p.level++
	for _, s := range ss {
		p.stmt(s)
	}
	p.level--
}

func (p *printer) params(ps []string) string {
	var a []string
	for _, x := range ps {
		a = append(a, p.sp()+x+p.sp())
	}
	return strings.Join(a, ",")
}

func (p *printer) set(s *stmt) string {
	return p.bare(s.target) + p.sp() + "=" + p.sp() + p.expr(s.e)
}

func (p *printer) stmt(s *stmt) {
	switch s.kind {
	case "raw":
		p.line(s.raw)
	case "var":
		p.line("var" + p.must() + s.name + p.sp() + "=" + p.sp() + p.expr(s.e))
	case "arr":
		var a []string
		for _, k := range s.elems {
			a = append(a, p.sp()+p.expr(k)+p.sp())
		}
		p.line("var" + p.must() + s.name + "[" + p.sp() + "]" + p.sp() + "=" + p.sp() + "{" + strings.Join(a, ",") + "}")
	case "set":
		p.line(p.set(s))
	case "return":
		if s.e == nil {
			p.line("return")
		} else {
			p.line("return" + p.must() + p.expr(s.e))
		}
	case "call":
		p.line(p.call(s.e))
	case "func":
		if s.fn.anon {
			p.line("var" + p.must() + s.fn.name + p.sp() + "=" + p.sp() + "func" + p.sp() + "(" + p.params(s.fn.params) + ")" + p.sp() + "{")
		} else {
			p.line("func" + p.must() + s.fn.name + "(" + p.params(s.fn.params) + ")" + p.sp() + "{")
		}
		p.stmts(s.fn.body)
		p.line("}")
	case "if":
		for i, b := range s.branches {
			switch {
			case i == 0:
				c := p.cond(b.cond)
				if p.st != nil && p.st.parens && p.st.r.Intn(3) == 0 {
					c = "(" + c + ")"
				}
				p.line("if" + p.must() + c + p.sp() + "{")
			case b.cond != nil:
				p.line("}" + p.sp() + "else" + p.must() + "if" + p.must() + p.cond(b.cond) + p.sp() + "{")
			default:
				p.line("}" + p.sp() + "else" + p.sp() + "{")
			}
			p.stmts(b.body)
		}
		p.line("}")
	case "for":
		p.line("for" + p.sp() + "(" + p.sp() + p.cond(s.cond) + p.sp() + ";" + p.sp() + p.set(s.inc) + p.sp() + ")" + p.sp() + "{")
		p.stmts(s.body)
		p.line("}")
	default:
		panic("printer: " + s.kind)
	}
}

func (prog *program) source() string {
	p := &printer{st: prog.style}
	if prog.style != nil && prog.style.comments {
		p.eol()
	}
	emitMain := func() {
		var a []string
		for _, x := range prog.args {
			s := p.sp() + x.name
			for _, d := range x.dims {
				s += fmt.Sprintf("[%s%d]", p.zeros(), d)
			}
			a = append(a, s+p.sp())
		}
		p.line("func" + p.must() + "main(" + strings.Join(a, ",") + ")" + p.sp() + "{")
		p.level++
		if prog.public != nil {
			var pub []string
			for _, x := range prog.public {
				pub = append(pub, p.sp()+x+p.sp())
			}
			p.line("public" + p.sp() + "{" + strings.Join(pub, ",") + "}")
		}
		p.level--
		p.stmts(prog.body)
		p.line("}")
	}
	for i, g := range prog.globals {
		if i == prog.mainPos {
			emitMain()
		}
		p.stmt(g)
	}
	if prog.mainPos >= len(prog.globals) {
		emitMain()
	}
	return p.b.String()
}

// ---------------------------------------------------------------- evaluator

type closure struct {
	fn    *fdecl
	env   *env
	bound []interface{}
	main  bool
}

type cell struct{ v interface{} } // *big.Int or *closure

type env struct {
	vars   map[string]*cell
	parent *env
}

func newEnv(p *env) *env { return &env{vars: map[string]*cell{}, parent: p} }

func (e *env) find(n string) *cell {
	for ; e != nil; e = e.parent {
		if c, ok := e.vars[n]; ok {
			return c
		}
	}
	return nil
}

type evalStop struct{ why string }

// eqEvent is one executed equality assertion.
type eqEvent struct {
	l, r *big.Int
	call *expr
}

type evaluation struct {
	eqs   []eqEvent
	div0  bool
	abort string // the evaluation gave up, the program is not usable
	muls  int
	steps int
	ret   interface{}
}

type evaluator struct {
	res     *evaluation
	max     int
	lenient bool
	// tolerant: faults of the program are noted, the evaluation goes on with zero
	tolerant bool
}

var builtins = map[string]int{"equal": 2, "addGateConstraint": 2, "scalarBaseMultiply": 1, "SPLIT": 1, "BREAK": -1, "AND": -1, "OR": -1, "NAND": -1, "NOT": -1}

// fault is an error of the program
func (ev *evaluator) fault(why string) {
	if !ev.tolerant {
		ev.stop(why)
	}
}

func (ev *evaluator) stop(why string) { panic(evalStop{why}) }

// eval runs the program on the given main arguments.
func (prog *program) eval(in map[string]*big.Int, maxSteps int) (res *evaluation) {
	return prog.evalMode(in, maxSteps, false)
}

// evalMode runs the program. lenient: a division by zero gives zero and does not end the run, which serves to measure
// the program as the compiler sees it.
func (prog *program) evalMode(in map[string]*big.Int, maxSteps int, lenient bool) (res *evaluation) {
	return prog.evalWith(in, &evaluator{max: maxSteps, lenient: lenient})
}

func (prog *program) evalWith(in map[string]*big.Int, ev *evaluator) (res *evaluation) {
	res = &evaluation{}
	ev.res = res
	defer func() {
		if r := recover(); r != nil {
			s, ok := r.(evalStop)
			if !ok {
				panic(r)
			}
			if s.why == "div0" {
				res.div0 = true
				return
			}
			res.abort = s.why
		}
	}()
	g := newEnv(nil)
	g.vars["main"] = &cell{&closure{fn: &fdecl{name: "main", params: prog.argNames(), body: prog.body}, env: g, main: true}}
	if _, ret := ev.block(g, prog.globals); ret {
		ev.fault("return outside of a function")
	}
	m := newEnv(g)
	for _, a := range prog.argNames() {
		v, ok := in[a]
		if !ok {
			panic("evaluator: no input for " + a)
		}
		m.vars[a] = &cell{cp(v)}
	}
	res.ret, _ = ev.block(m, prog.body)
	return
}

func (res *evaluation) satisfied() bool {
	if res.div0 {
		return false
	}
	for _, e := range res.eqs {
		if e.l.Cmp(e.r) != 0 {
			return false
		}
	}
	return true
}

func (ev *evaluator) block(e *env, ss []*stmt) (interface{}, bool) {
	// functions are visible in their whole block
	for _, s := range ss {
		if s.kind == "func" {
			e.vars[s.fn.name] = &cell{&closure{fn: s.fn, env: e}}
		}
	}
	for _, s := range ss {
		if v, ret := ev.stmt(e, s); ret {
			return v, true
		}
	}
	return nil, false
}

func (ev *evaluator) field(e *env, x *expr) *big.Int {
	v := ev.expr(e, x)
	f, ok := v.(*big.Int)
	if !ok {
		ev.fault("function where a value is expected: " + x.op + x.name)
		return bi(0)
	}
	return f
}

func (ev *evaluator) test(e *env, c *cond) bool {
	r := ev.field(e, c.l).Cmp(ev.field(e, c.r))
	switch c.op {
	case "==":
		return r == 0
	case "!=":
		return r != 0
	case "<":
		return r < 0
	case "<=":
		return r <= 0
	case ">":
		return r > 0
	case ">=":
		return r >= 0
	}
	ev.fault("condition " + c.op)
	return false
}

func (ev *evaluator) elemName(e *env, x *expr) string {
	n := x.name
	for _, k := range x.kids {
		n += "[" + ev.field(e, k).String() + "]"
	}
	return n
}

func (ev *evaluator) set(e *env, s *stmt) {
	n := s.target.name
	if s.target.op == "idx" {
		n = ev.elemName(e, s.target)
	}
	v := ev.expr(e, s.e)
	c := e.find(n)
	if c == nil {
		ev.fault("assignment to undeclared " + n)
		return
	}
	if f, ok := c.v.(*closure); ok && n == "main" && f.main {
		ev.fault("assignment to main")
		return
	}
	c.v = v
}

func (ev *evaluator) stmt(e *env, s *stmt) (interface{}, bool) {
	ev.res.steps++
	if ev.res.steps > ev.max {
		ev.stop("too long")
	}
	switch s.kind {
	case "var":
		e.vars[s.name] = &cell{ev.expr(e, s.e)}
	case "arr":
		// the elements are visible when all of them are known
		var vs []*cell
		for _, x := range s.elems {
			vs = append(vs, &cell{ev.expr(e, x)})
		}
		for i, v := range vs {
			e.vars[fmt.Sprintf("%s[%d]", s.name, i)] = v
		}
	case "set":
		ev.set(e, s)
	case "func":
		e.vars[s.fn.name] = &cell{&closure{fn: s.fn, env: e}}
	case "return":
		if s.e == nil {
			return bi(1), true
		}
		return ev.expr(e, s.e), true
	case "call":
		ev.expr(e, s.e)
	case "if":
		for _, b := range s.branches {
			if b.cond == nil || ev.test(e, b.cond) {
				return ev.block(newEnv(e), b.body)
			}
		}
	case "for":
		for ev.test(e, s.cond) {
			ev.res.steps++
			if ev.res.steps > ev.max {
				ev.stop("too long")
			}
			if v, ret := ev.block(newEnv(e), s.body); ret {
				return v, true
			}
			ev.set(e, s.inc)
		}
	default:
		panic("evaluator: " + s.kind)
	}
	return nil, false
}

func (ev *evaluator) expr(e *env, x *expr) interface{} {
	switch x.op {
	case "num":
		return mod(x.num, N)
	case "var":
		c := e.find(x.name)
		if c == nil {
			ev.fault("undeclared " + x.name)
			return bi(0)
		}
		return c.v
	case "idx":
		n := ev.elemName(e, x)
		c := e.find(n)
		if c == nil {
			ev.fault("undeclared " + n)
			return bi(0)
		}
		return c.v
	case "call":
		if n, ok := builtins[x.name]; ok && n >= 0 && n != len(x.kids) {
			ev.fault("arity of " + x.name)
			for _, k := range x.kids {
				ev.expr(e, k)
			}
			return nil
		}
		switch x.name {
		case "BREAK":
			for _, k := range x.kids {
				ev.expr(e, k)
			}
			return nil
		case "AND", "OR", "NAND", "NOT":
			ev.fault("unsupported " + x.name)
			return nil
		case "equal":
			l, r := ev.field(e, x.kids[0]), ev.field(e, x.kids[1])
			ev.res.eqs = append(ev.res.eqs, eqEvent{l, r, x})
			return nil
		case "addGateConstraint":
			ev.res.muls++
			return fadd(ev.field(e, x.kids[0]), ev.field(e, x.kids[1]))
		case "scalarBaseMultiply":
			return gX(ev.field(e, x.kids[0]))
		case "SPLIT":
			ev.field(e, x.kids[0])
			return nil
		}
		c := e.find(x.name)
		if c == nil {
			ev.fault("undeclared function " + x.name)
			c = &cell{bi(0)}
		}
		f, ok := c.v.(*closure)
		if !ok && len(x.kids) == 0 {
			// a variable is a function without arguments
			return c.v
		}
		if !ok {
			ev.fault("call of a value " + x.name)
			for _, k := range x.kids {
				ev.expr(e, k)
			}
			return bi(0)
		}
		args := append([]interface{}{}, f.bound...)
		for _, k := range x.kids {
			v := ev.expr(e, k)
			args = append(args, v)
		}
		if len(args) > len(f.fn.params) {
			ev.fault("too many arguments")
			return bi(0)
		}
		if len(args) < len(f.fn.params) {
			return &closure{fn: f.fn, env: f.env, bound: args}
		}
		fe := newEnv(f.env)
		for i, p := range f.fn.params {
			fe.vars[p] = &cell{args[i]}
		}
		ev.res.steps++
		if ev.res.steps > ev.max {
			ev.stop("too long")
		}
		v, _ := ev.block(fe, f.fn.body)
		return v
	}
	l := ev.field(e, x.kids[0])
	r := ev.field(e, x.kids[1])
	switch x.op {
	case "+":
		return fadd(l, r)
	case "-":
		return fsub(l, r)
	case "*":
		ev.res.muls++
		return fmul(l, r)
	case "/":
		ev.res.muls++
		if r.Sign() == 0 {
			if ev.lenient {
				return bi(0)
			}
			ev.stop("div0")
		}
		return fmul(l, minv(r, N))
	}
	ev.fault("operator " + x.op)
	return bi(0)
}
