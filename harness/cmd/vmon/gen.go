package main

import (
	"fmt"
	"math/big"
	"math/rand"
)

// gconf selects the features of generated programs.
type gconf struct {
	stmts     int // statements in main
	depth     int // depth of expressions
	funcs     int // top level functions
	outs      int // equality assertions against separate arguments
	div       bool
	loops     bool
	arrays    bool
	closures  bool
	agc       bool
	nested    bool // nested functions and shadowing
	selfCheck bool // assertions between inputs that random inputs do not satisfy
	maxArgs   int
	pub       bool
	sugar     bool // random layout
	bigNums   bool
	sbm       bool // base point multiplications
	split     bool // bit decompositions
	earlyMain bool // conditional returns in main
}

var fullConf = gconf{stmts: 7, depth: 3, funcs: 4, outs: 1, div: true, loops: true, arrays: true, closures: true, agc: true, nested: true, maxArgs: 4, pub: true, sugar: true, bigNums: true}

// kinds of values: f field, s static (known at compile time), F1/F2 function of one/two field elements
type sym struct {
	name   string
	kind   string
	params []string // kinds of the parameters of a function
	proc   bool     // a function without value
	ret    string   // kind of the value of a function
	arr    int      // length of an array
	dims   []int    // dimensions of an array argument
	set    bool     // may be assigned
	frozen bool     // running variable of a loop
	bound  int      // running variable: exclusive bound
	arg    bool     // argument of main that is never assigned
	fvar   bool     // a variable that holds a function
	far    bool     // running variable with large values
}

type gscope struct {
	syms   []*sym
	parent *gscope
}

func (s *gscope) add(x *sym) { s.syms = append(s.syms, x) }

func (s *gscope) all(f func(*sym) bool) (out []*sym) {
	seen := map[string]bool{}
	for c := s; c != nil; c = c.parent {
		for i := len(c.syms) - 1; i >= 0; i-- {
			x := c.syms[i]
			if seen[x.name] {
				continue
			}
			seen[x.name] = true
			if f(x) {
				out = append(out, x)
			}
		}
	}
	return
}

type generator struct {
	r     *rand.Rand
	conf  gconf
	n     int
	ndef  int
	inFor int
	style int // of names, 0 if not drawn yet
	// no assertions in functions that return values
	silent bool
}

func (g *generator) fresh(p string) string {
	g.n++
	if g.style == 0 {
		g.style = 1 + g.r.Intn(24)
	}
	if g.style <= 5 || chance(g.r, 1, 12) {
		// some programs have names of one kind
		k := g.style - 1
		if k > 4 {
			k = g.r.Intn(5)
		}
		switch k {
		case 4:
			// names that differ in the middle only
			return fmt.Sprintf("aLongBeginning%dAndALongEndThatAllTheNamesShare", g.n)
		case 0:
			// names that differ in the end only
			return fmt.Sprintf("aNameThatSharesAVeryLongBeginningWithManyOtherNames%d", g.n)
		case 1:
			// names that begin like words of the language
			return fmt.Sprintf("%s%d", pick(g.r, "if", "else", "for", "func", "var", "return", "public", "equal", "main", "SPLIT", "array", "input", "BREAK", "import"), g.n)
		case 2:
			// names that differ in the case of a letter only
			return fmt.Sprintf("%s%d", []string{"name", "Name"}[g.n%2], g.n/2)
		case 3:
			// one name is the beginning of another
			k := "z"
			for i := g.n; i > 0; i-- {
				k += "z"
			}
			return k
		}
	}
	switch g.r.Intn(4) {
	case 0:
		return fmt.Sprintf("%s%d", p, g.n)
	case 1:
		return fmt.Sprintf("%s_%d", p, g.n)
	case 2:
		return fmt.Sprintf("%s%dx", p, g.n)
	}
	return fmt.Sprintf("%s%c%d", p, 'A'+rune(g.r.Intn(26)), g.n)
}

func (g *generator) num() *expr {
	switch g.r.Intn(12) {
	case 0:
		return eNum(0)
	case 1, 2:
		return eNum(1)
	case 3:
		return eNum(2)
	case 4:
		if g.conf.bigNums {
			switch g.r.Intn(4) {
			case 0:
				return eBig(new(big.Int).Sub(N, one))
			case 1:
				return eBig(new(big.Int).Sub(N, bi(int64(2+g.r.Intn(5)))))
			case 2:
				return eBig(new(big.Int).Lsh(one, uint(g.r.Intn(253))))
			}
			return eBig(randBelow(g.r, N))
		}
	}
	return eNum(int64(g.r.Intn(30)))
}

// static produces an expression that is known at compile time and small
func (g *generator) static(s *gscope, depth int) *expr {
	if chance(g.r, 1, 10) {
		a, b := int64(g.r.Intn(4)), int64(g.r.Intn(4))
		if chance(g.r, 1, 2) {
			return eBin("-", eNum(a+b), eNum(b))
		}
		return eBin("/", eNum(a*(b+1)), eNum(b+1))
	}
	if depth > 0 && chance(g.r, 1, 3) {
		return eBin(pick(g.r, "+", "*"), g.static(s, depth-1), g.static(s, depth-1))
	}
	if vs := s.all(func(x *sym) bool { return x.kind == "s" && x.arr == 0 && !x.far }); len(vs) > 0 && chance(g.r, 1, 2) {
		return eVar(vs[g.r.Intn(len(vs))].name)
	}
	return eNum(int64(g.r.Intn(5)))
}

// element produces an array access or nil
func (g *generator) element(s *gscope, settable bool) *expr {
	as := s.all(func(x *sym) bool { return x.kind == "f" && (x.arr > 0 || x.dims != nil) && (!settable || x.set) })
	if len(as) == 0 {
		return nil
	}
	a := as[g.r.Intn(len(as))]
	dims := a.dims
	if dims == nil {
		dims = []int{a.arr}
	}
	var idx []*expr
	for _, d := range dims {
		iv := s.all(func(x *sym) bool { return x.frozen && x.bound <= d })
		if len(iv) > 0 && chance(g.r, 1, 2) {
			idx = append(idx, eVar(iv[g.r.Intn(len(iv))].name))
			continue
		}
		k := g.r.Intn(d)
		switch g.r.Intn(5) {
		case 0:
			if k > 0 {
				idx = append(idx, eBin("+", eNum(int64(k-1)), eNum(1)))
				continue
			}
		case 1:
			idx = append(idx, eBin("*", eNum(int64(k)), eNum(1)))
			continue
		}
		idx = append(idx, eNum(int64(k)))
	}
	return eIdx(a.name, idx...)
}

func isField(x *sym) bool { return (x.kind == "f" || x.kind == "s") && x.arr == 0 && x.dims == nil }

// field produces an expression of a field value
func (g *generator) field(s *gscope, depth int) *expr {
	if depth <= 0 || chance(g.r, 1, 6) {
		if chance(g.r, 1, 6) {
			return g.num()
		}
		if g.conf.arrays && chance(g.r, 1, 4) {
			if e := g.element(s, false); e != nil {
				return e
			}
		}
		vs := s.all(func(x *sym) bool { return x.kind == "f" && isField(x) })
		if chance(g.r, 1, 8) {
			vs = s.all(isField)
		}
		if len(vs) == 0 {
			return g.num()
		}
		// recently declared names come first
		if len(vs) > 3 && chance(g.r, 1, 2) {
			vs = vs[:3]
		}
		return eVar(vs[g.r.Intn(len(vs))].name)
	}
	switch k := g.r.Intn(20); {
	case k < 5:
		return eBin("+", g.field(s, depth-1), g.field(s, depth-1))
	case k < 8:
		return eBin("-", g.field(s, depth-1), g.field(s, depth-1))
	case k < 13:
		return eBin("*", g.field(s, depth-1), g.field(s, depth-1))
	case k < 14:
		if g.conf.div {
			return eBin("/", g.field(s, depth-1), g.field(s, depth-1))
		}
		return eBin("*", g.field(s, depth-1), g.field(s, depth-1))
	case k < 15:
		// repeat a subexpression in another order, to provoke the reuse of gates
		a, b := g.field(s, depth-1), g.field(s, depth-2)
		return eBin(pick(g.r, "+", "-", "*"), eBin("*", a, b), eBin("*", b, a))
	case k < 16:
		if g.conf.sbm && chance(g.r, 1, 4) {
			return eCall("scalarBaseMultiply", g.field(s, depth-1))
		}
		if g.conf.agc {
			return eCall("addGateConstraint", g.field(s, depth-1), g.field(s, depth-1))
		}
		return eBin("+", g.field(s, depth-1), g.field(s, depth-1))
	default:
		if c := g.call(s, depth); c != nil {
			return c
		}
		return eBin("*", g.field(s, depth-1), g.field(s, depth-1))
	}
}

func (g *generator) arg(s *gscope, kind string, depth int) *expr {
	switch kind {
	case "f":
		return g.field(s, depth)
	case "s":
		return g.static(s, 1)
	}
	return g.function(s, kind, depth)
}

// function produces an expression of a function value of n field arguments, or nil
func (g *generator) function(s *gscope, kind string, depth int) *expr {
	n := int(kind[1] - '0')
	fits := s.all(func(x *sym) bool {
		if x.kind != "fn" || x.proc || x.ret != "f" || len(x.params) < n {
			return false
		}
		for i, p := range x.params {
			if i >= len(x.params)-n && p != "f" {
				return false
			}
			if p != "f" && p != "s" {
				return false
			}
		}
		return true
	})
	if len(fits) == 0 {
		return nil
	}
	f := fits[g.r.Intn(len(fits))]
	if len(f.params) == n {
		return eVar(f.name)
	}
	// preload the leading parameters
	var a []*expr
	for _, p := range f.params[:len(f.params)-n] {
		x := g.arg(s, p, depth-1)
		if x == nil {
			return nil
		}
		a = append(a, x)
	}
	return eCall(f.name, a...)
}

// stages declares function variables that take the arguments of a function one after the other
func (g *generator) stages(s *gscope, depth int) (out []*stmt) {
	fs := s.all(func(x *sym) bool {
		if x.kind != "fn" || x.proc || x.ret != "f" || len(x.params) < 2 {
			return false
		}
		for _, p := range x.params[1:] {
			if p != "f" {
				return false
			}
		}
		return x.params[0] == "f" || x.params[0] == "s"
	})
	if len(fs) == 0 {
		return
	}
	f := fs[g.r.Intn(len(fs))]
	name, params := f.name, f.params
	for len(params) > 1 {
		k := 1
		if len(params) > 2 && chance(g.r, 1, 3) {
			k = 2
		}
		var a []*expr
		for _, p := range params[:k] {
			x := g.arg(s, p, depth-1)
			if x == nil {
				return
			}
			a = append(a, x)
		}
		nm := g.fresh("st")
		out = append(out, sVar(nm, eCall(name, a...)))
		params = params[k:]
		s.add(&sym{name: nm, kind: "fn", ret: "f", params: params, fvar: true})
		name = nm
	}
	return
}

func (g *generator) callOf(s *gscope, f *sym, depth int) *expr {
	var a []*expr
	for _, p := range f.params {
		x := g.arg(s, p, depth-1)
		if x == nil {
			return nil
		}
		a = append(a, x)
	}
	return eCall(f.name, a...)
}

func (g *generator) call(s *gscope, depth int) *expr {
	fs := s.all(func(x *sym) bool { return x.kind == "fn" && !x.proc && x.ret == "f" })
	if len(fs) == 0 {
		return nil
	}
	return g.callOf(s, fs[g.r.Intn(len(fs))], depth)
}

func (g *generator) cond(s *gscope) *cond {
	op := pick(g.r, "==", "!=", "<", "<=", ">", ">=")
	if chance(g.r, 1, 6) {
		// close to each other, of any size
		a := new(big.Int).Lsh(one, uint(g.r.Intn(250)))
		if chance(g.r, 1, 2) {
			a.SetInt64(int64(9 + 90*g.r.Intn(2)))
		}
		b := new(big.Int).Add(a, bi(int64(g.r.Intn(3)-1)))
		if chance(g.r, 1, 3) {
			return &cond{op, eBin("+", eBig(a), eNum(1)), eBig(b)}
		}
		return &cond{op, eBig(a), eBig(b)}
	}
	if chance(g.r, 1, 12) {
		// far from each other, of any size
		a, b := new(big.Int).Rsh(randBelow(g.r, N), uint(g.r.Intn(253))), new(big.Int).Rsh(randBelow(g.r, N), uint(g.r.Intn(253)))
		return &cond{op, eBig(a), eBig(b)}
	}
	return &cond{op, g.static(s, 1), g.static(s, 1)}
}

// funcDecl generates a function. usable: what its body sees besides its parameters
func (g *generator) funcDecl(s *gscope, depth int, name string) (*stmt, *sym) {
	g.ndef++
	if name == "" {
		name = g.fresh("f")
	}
	f := &fdecl{name: name, anon: chance(g.r, 1, 2)}
	x := &sym{name: name, kind: "fn", ret: "f"}
	inner := &gscope{parent: s}
	np := 1 + g.r.Intn(3)
	if chance(g.r, 1, 10) {
		np = 0
	} else if chance(g.r, 1, 15) {
		np = 4 + g.r.Intn(4)
	}
	for i := 0; i < np; i++ {
		k := "f"
		if g.conf.closures {
			switch g.r.Intn(8) {
			case 0:
				k = "F1"
			case 1:
				k = "F2"
			case 2:
				k = "s"
			}
		}
		pn := g.fresh("p")
		if g.conf.nested && chance(g.r, 1, 5) {
			// shadow a visible name
			vs := s.all(func(x *sym) bool { return true })
			if len(vs) > 0 {
				pn = vs[g.r.Intn(len(vs))].name
			}
			for _, q := range f.params {
				if q == pn {
					pn = g.fresh("p")
				}
			}
			if pn == name {
				pn = g.fresh("p")
			}
		}
		f.params = append(f.params, pn)
		x.params = append(x.params, k)
		ps := &sym{name: pn, kind: k, set: true}
		if k == "F1" || k == "F2" {
			ps = &sym{name: pn, kind: "fn", ret: "f", params: []string{"f", "f"}[:int(k[1]-'0')]}
		}
		inner.add(ps)
	}
	switch k := g.r.Intn(10); {
	case k == 0 && g.conf.closures:
		// a function that returns a function
		in := g.fresh("h")
		d, ix := g.plainFunc(inner, depth, in, 1+g.r.Intn(2))
		f.body = append(f.body, d)
		if chance(g.r, 1, 2) {
			f.body = append(f.body, g.block(inner, 1, depth-1, false)...)
		}
		f.body = append(f.body, sRet(eVar(in)))
		x.ret = fmt.Sprintf("F%d", len(ix.params))
	case k == 1 && np > 0 && x.params[0] == "s":
		fallthrough
	case k == 2:
		// recursion over a counter
		cn := g.fresh("n")
		f.params = append([]string{cn}, f.params...)
		x.params = append([]string{"s"}, x.params...)
		inner.add(&sym{name: cn, kind: "s"})
		self := &sym{name: name, kind: "fn", ret: "f", params: x.params}
		rec := g.callOf(&gscope{syms: inner.syms, parent: s}, self, depth)
		if rec == nil {
			f.body = append(f.body, sRet(g.field(inner, depth)))
			break
		}
		rec.kids[0] = eBin("-", eVar(cn), eNum(1))
		f.body = append(f.body, &stmt{kind: "if", branches: []branch{{&cond{"==", eVar(cn), eNum(0)}, []*stmt{sRet(g.field(inner, 1))}}}})
		f.body = append(f.body, sRet(eBin(pick(g.r, "+", "*", "-"), rec, g.field(inner, 1))))
	default:
		f.body = append(f.body, g.block(inner, g.r.Intn(4), depth-1, true)...)
		if len(f.body) > 0 && f.body[len(f.body)-1].kind == "if" && chance(g.r, 1, 6) && g.allReturn(f.body[len(f.body)-1]) {
			break
		}
		f.body = append(f.body, sRet(g.mix(inner, g.field(inner, depth), g.r.Intn(3))))
	}
	return &stmt{kind: "func", fn: f}, x
}

// hidden picks the name of a variable of an outer scope that a declaration in this scope may hide. Functions declared in
// this scope would be hit by it as well, in their presence nothing is hidden.
func (g *generator) hidden(s *gscope, f func(*sym) bool) string {
	own := map[string]bool{}
	for _, x := range s.syms {
		if x.kind == "fn" {
			return ""
		}
		own[x.name] = true
	}
	vs := s.all(func(x *sym) bool { return f(x) && !own[x.name] && !x.frozen })
	if len(vs) == 0 {
		return ""
	}
	return vs[g.r.Intn(len(vs))].name
}

// usesField tells whether a name stands for a field element here
func usesField(s *gscope, n string) bool {
	return len(s.all(func(x *sym) bool { return x.name == n && isField(x) })) > 0
}

// allReturn tells whether every branch of an if-else chain returns
func (g *generator) allReturn(s *stmt) bool {
	if s.branches[len(s.branches)-1].cond != nil {
		return false
	}
	for _, b := range s.branches {
		if len(b.body) == 0 || b.body[len(b.body)-1].kind != "return" {
			return false
		}
	}
	return true
}

// plainFunc is a function of n field elements
func (g *generator) plainFunc(s *gscope, depth int, name string, n int) (*stmt, *sym) {
	f := &fdecl{name: name, anon: chance(g.r, 1, 2)}
	inner := &gscope{parent: s}
	x := &sym{name: name, kind: "fn", ret: "f"}
	for i := 0; i < n; i++ {
		pn := g.fresh("q")
		f.params = append(f.params, pn)
		x.params = append(x.params, "f")
		inner.add(&sym{name: pn, kind: "f", set: true})
	}
	f.body = append(f.body, g.block(inner, g.r.Intn(2), depth-1, false)...)
	f.body = append(f.body, sRet(g.field(inner, depth)))
	return &stmt{kind: "func", fn: f}, x
}

// block generates statements and adds what they declare to the scope. early: a conditional return may occur
func (g *generator) block(s *gscope, n, depth int, early bool) (out []*stmt) {
	if depth < 0 {
		depth = 0
	}
	for i := 0; i < n; i++ {
		switch k := g.r.Intn(20); {
		case k < 6:
			nm := g.fresh("v")
			if g.conf.nested && chance(g.r, 1, 5) {
				if o := g.hidden(s, isField); o != "" {
					// the initialiser still sees the outer variable
					nm = o
				}
			}
			e := g.field(s, depth)
			if chance(g.r, 1, 3) && usesField(s, nm) {
				e = eBin(pick(g.r, "+", "*", "-"), e, eVar(nm))
			}
			out = append(out, sVar(nm, e))
			s.add(&sym{name: nm, kind: "f", set: true})
		case k < 8:
			if g.conf.nested && chance(g.r, 1, 8) {
				out = append(out, g.working(s, depth)...)
				continue
			}
			nm := g.fresh("c")
			out = append(out, sVar(nm, g.static(s, 1)))
			s.add(&sym{name: nm, kind: "s", set: true})
		case k < 11:
			if g.conf.arrays && chance(g.r, 1, 3) {
				if t := g.element(s, true); t != nil {
					out = append(out, sSet(t, g.field(s, depth)))
					continue
				}
			}
			vs := s.all(func(x *sym) bool { return isField(x) && x.set && !x.frozen })
			if len(vs) > 0 {
				v := vs[g.r.Intn(len(vs))]
				if v.kind == "s" {
					out = append(out, sSet(eVar(v.name), g.static(s, 1)))
				} else {
					out = append(out, sSet(eVar(v.name), g.field(s, depth)))
				}
			}
		case k < 13:
			if g.conf.split && chance(g.r, 1, 4) {
				vs := s.all(func(x *sym) bool { return x.kind == "f" && isField(x) && x.arg })
				if len(vs) > 0 {
					out = append(out, sCall(eCall("SPLIT", eVar(vs[g.r.Intn(len(vs))].name))))
				}
				continue
			}
			if g.conf.arrays {
				nm := g.fresh("a")
				if g.conf.nested && chance(g.r, 1, 6) {
					if o := g.hidden(s, func(x *sym) bool { return x.arr > 0 || x.dims != nil }); o != "" {
						nm = o
					}
				}
				l := 1 + g.r.Intn(4)
				if chance(g.r, 1, 12) {
					l = 9 + g.r.Intn(6)
				}
				var es []*expr
				for j := 0; j < l; j++ {
					es = append(es, g.field(s, depth-1))
				}
				out = append(out, &stmt{kind: "arr", name: nm, elems: es})
				s.add(&sym{name: nm, kind: "f", arr: l, set: true})
			}
		case k < 15:
			out = append(out, g.ifStmt(s, depth, early))
		case k < 17:
			if g.conf.loops && g.inFor < 2 {
				out = append(out, g.forStmt(s, depth, early)...)
			}
		case k < 18:
			if g.conf.nested && depth > 0 && chance(g.r, 1, 8) {
				out = append(out, g.deep(s, 2+g.r.Intn(9))...)
				continue
			}
			if g.conf.nested && chance(g.r, 1, 4) {
				d, x := g.procDecl(s)
				out = append(out, d)
				s.add(x)
				out = append(out, g.calls(s, x, depth)...)
				continue
			}
			if g.conf.nested && depth > 0 && g.ndef < 12 {
				d, x := g.funcDecl(s, depth, "")
				out = append(out, d)
				s.add(x)
			}
		case k < 19:
			if g.conf.closures {
				if chance(g.r, 1, 5) {
					out = append(out, g.stages(s, depth)...)
					continue
				}
				if vs := s.all(func(x *sym) bool { return x.fvar }); len(vs) > 0 && chance(g.r, 1, 3) {
					// another function in the same variable
					v := vs[g.r.Intn(len(vs))]
					if len(v.params) <= 2 {
						if fx := g.function(s, fmt.Sprintf("F%d", len(v.params)), depth); fx != nil && !(fx.op == "var" && fx.name == v.name) && !usesVar(fx, v.name) && fx.name != v.name {
							out = append(out, sSet(eVar(v.name), fx))
						}
					}
					continue
				}
				// keep a function in a variable
				if chance(g.r, 1, 2) {
					kind := pick(g.r, "F1", "F2")
					if fx := g.function(s, kind, depth); fx != nil {
						nm := g.fresh("k")
						out = append(out, sVar(nm, fx))
						s.add(&sym{name: nm, kind: "fn", ret: "f", params: []string{"f", "f"}[:int(kind[1]-'0')], fvar: true})
					}
					continue
				}
				mk := s.all(func(x *sym) bool { return x.kind == "fn" && (x.ret == "F1" || x.ret == "F2") })
				if len(mk) > 0 {
					m := mk[g.r.Intn(len(mk))]
					if c := g.callOf(s, m, depth); c != nil {
						nm := g.fresh("k")
						out = append(out, sVar(nm, c))
						s.add(&sym{name: nm, kind: "fn", ret: "f", params: []string{"f", "f"}[:int(m.ret[1]-'0')], fvar: true})
					}
				}
			}
		default:
			// a call for its effect on captured variables
			fs := s.all(func(x *sym) bool { return x.kind == "fn" && (x.ret == "f" || x.proc) })
			if len(fs) > 0 {
				out = append(out, g.calls(s, fs[g.r.Intn(len(fs))], depth)...)
			}
		}
	}
	return
}

// working is a condition or an index that calls a function with an effect
func (g *generator) working(s *gscope, depth int) (out []*stmt) {
	t, f := g.fresh("t"), g.fresh("w")
	out = append(out, sVar(t, g.field(s, 0)))
	s.add(&sym{name: t, kind: "f", set: true})
	in := &gscope{parent: s}
	in.add(&sym{name: f + "u", kind: "f"})
	body := []*stmt{sSet(eVar(t), eBin(pick(g.r, "*", "*", "+"), eVar(t), g.field(in, 1)))}
	if !g.silent && chance(g.r, 1, 4) {
		e := g.field(in, 1)
		body = append(body, sEqual(e, e))
	}
	body = append(body, sRet(eVar(f+"n")))
	out = append(out, &stmt{kind: "func", fn: &fdecl{name: f, params: []string{f + "n", f + "u"}, body: body, anon: chance(g.r, 1, 2)}})
	e := func(k int64) *expr {
		x := eCall(f, eNum(k), g.field(s, 1))
		if chance(g.r, 1, 4) {
			x = eBin("+", x, eNum(0))
		}
		return x
	}
	some := func() []*stmt { return []*stmt{sSet(eVar(t), g.field(s, 1))} }
	k := int64(g.r.Intn(3))
	switch g.r.Intn(4) {
	case 0:
		c := &cond{pick(g.r, "==", "!=", "<", "<=", ">", ">="), e(k), e(int64(g.r.Intn(3)))}
		st := &stmt{kind: "if", branches: []branch{{c, some()}}}
		if chance(g.r, 1, 2) {
			st.branches = append(st.branches, branch{&cond{"==", e(k), e(int64(g.r.Intn(3)))}, some()})
		}
		if len(st.branches) > 1 || chance(g.r, 1, 2) {
			st.branches = append(st.branches, branch{nil, some()})
		}
		out = append(out, st)
	case 1:
		i := g.fresh("i")
		out = append(out, sVar(i, eNum(0)), sFor(&cond{"<", eVar(i), e(k)}, sSet(eVar(i), eBin("+", eVar(i), eNum(1)))))
	default:
		arr := g.fresh("a")
		out = append(out, &stmt{kind: "arr", name: arr, elems: []*expr{g.field(s, 0), g.field(s, 1), g.field(s, 0)}})
		if chance(g.r, 1, 2) {
			out = append(out, sSet(eIdx(arr, e(k)), g.field(s, 1)))
		} else {
			out = append(out, sSet(eVar(t), eBin("+", eVar(t), eIdx(arr, e(k)))))
		}
		s.add(&sym{name: arr, kind: "f", arr: 3, set: true})
	}
	return
}

// calls are one or more equal calls of a function for its effect
func (g *generator) calls(s *gscope, f *sym, depth int) (out []*stmt) {
	n := 1
	if chance(g.r, 1, 3) {
		n = 2 + g.r.Intn(2)
	}
	if c := g.callOf(s, f, depth); c != nil {
		for ; n > 0; n-- {
			out = append(out, sCall(c))
		}
	}
	return
}

// procDecl generates a function without value, that changes variables of its surroundings
func (g *generator) procDecl(s *gscope) (*stmt, *sym) {
	g.ndef++
	f := &fdecl{name: g.fresh("e"), anon: chance(g.r, 1, 2)}
	x := &sym{name: f.name, kind: "fn", proc: true}
	in := &gscope{parent: s}
	for i := g.r.Intn(4); i > 0; i-- {
		k, pn := "f", g.fresh("p")
		if chance(g.r, 1, 3) {
			k = "s"
		}
		f.params, x.params = append(f.params, pn), append(x.params, k)
		in.add(&sym{name: pn, kind: k, set: true})
	}
	for i := 1 + g.r.Intn(2); i > 0; i-- {
		vs := s.all(func(x *sym) bool { return isField(x) && x.kind == "f" && x.set && !x.frozen })
		if len(vs) == 0 {
			break
		}
		v := vs[g.r.Intn(len(vs))]
		f.body = append(f.body, sSet(eVar(v.name), eBin(pick(g.r, "+", "+", "-", "*"), eVar(v.name), g.field(in, 1))))
	}
	if len(f.body) == 0 || chance(g.r, 1, 4) {
		f.body = append(f.body, sVar(g.fresh("v"), g.field(in, 1)))
	}
	return &stmt{kind: "func", fn: f}, x
}

// deep generates branches, loops and functions nested into each other
func (g *generator) deep(s *gscope, levels int) (out []*stmt) {
	if chance(g.r, 1, 4) {
		nm := g.fresh("v")
		out = append(out, sVar(nm, g.field(s, 1)))
		s.add(&sym{name: nm, kind: "f", set: true})
	}
	if levels == 0 {
		out = append(out, g.block(s, g.r.Intn(2), 0, false)...)
		if vs := s.all(func(x *sym) bool { return x.kind == "f" && isField(x) && x.set && !x.frozen }); len(vs) > 0 {
			// any of the surroundings
			v := vs[g.r.Intn(len(vs))]
			out = append(out, sSet(eVar(v.name), g.mix(s, eVar(v.name), 1+g.r.Intn(2))))
		}
		return
	}
	in := &gscope{parent: s}
	body := g.deep(in, levels-1)
	if len(body) == 0 {
		body = []*stmt{sVar(g.fresh("v"), g.field(in, 0))}
	}
	switch g.r.Intn(6) {
	case 0:
		i := g.fresh("i")
		out = append(out, sVar(i, eNum(0)), sFor(&cond{"<", eVar(i), eNum(1)}, sSet(eVar(i), eBin("+", eVar(i), eNum(1))), body...))
		s.add(&sym{name: i, kind: "s", frozen: true, bound: 1 << 30})
	case 1:
		f := &fdecl{name: g.fresh("e"), anon: chance(g.r, 1, 2), body: body}
		out = append(out, &stmt{kind: "func", fn: f}, sCall(eCall(f.name)))
		s.add(&sym{name: f.name, kind: "fn", proc: true})
	case 2:
		out = append(out, &stmt{kind: "if", branches: []branch{{&cond{"==", eNum(1), eNum(2)}, g.block(&gscope{parent: s}, 1, 0, false)}, {nil, body}}})
	default:
		out = append(out, &stmt{kind: "if", branches: []branch{{&cond{"<", eNum(1), eNum(2)}, body}}})
	}
	return
}

func (g *generator) ifStmt(s *gscope, depth int, early bool) *stmt {
	st := &stmt{kind: "if"}
	n := 1
	if chance(g.r, 1, 3) {
		n = 2 + g.r.Intn(2)
	}
	body := func() []*stmt {
		in := &gscope{parent: s}
		b := g.block(in, 1+g.r.Intn(2), depth-1, early)
		if early && chance(g.r, 1, 3) {
			if chance(g.r, 1, 8) {
				b = append(b, sRet(nil))
			} else {
				b = append(b, sRet(g.field(in, depth)))
			}
		}
		return b
	}
	if n > 1 && depth > 0 && chance(g.r, 1, 6) {
		// a long chain
		n = 4 + g.r.Intn(22)
		k := g.r.Intn(n + 1)
		vs := s.all(func(x *sym) bool { return x.kind == "f" && isField(x) && x.set && !x.frozen })
		some := func() []*stmt {
			if len(vs) > 0 {
				return []*stmt{sSet(eVar(vs[g.r.Intn(len(vs))].name), g.field(s, 1))}
			}
			return body()
		}
		for i := 0; i < n; i++ {
			st.branches = append(st.branches, branch{&cond{"==", eNum(int64(k)), eNum(int64(i))}, some()})
		}
		st.branches = append(st.branches, branch{nil, some()})
		return st
	}
	for i := 0; i < n; i++ {
		st.branches = append(st.branches, branch{g.cond(s), body()})
	}
	if n > 1 || chance(g.r, 1, 2) {
		st.branches = append(st.branches, branch{nil, body()})
	}
	return st
}

func (g *generator) forStmt(s *gscope, depth int, early bool) []*stmt {
	g.inFor++
	defer func() { g.inFor-- }()
	i := g.fresh("i")
	from := g.r.Intn(3)
	to := from + g.r.Intn(4)
	if chance(g.r, 1, 15) {
		to = from + 8 + g.r.Intn(8)
	}
	decl := sVar(i, eNum(int64(from)))
	in := &gscope{parent: s}
	run := &sym{name: i, kind: "s", frozen: true, bound: to}
	c := &cond{"<", eVar(i), eNum(int64(to))}
	step := int64(1)
	switch g.r.Intn(4) {
	case 0:
		if to > from {
			c = &cond{"<=", eVar(i), eNum(int64(to - 1))}
		}
	case 1:
		c = &cond{"!=", eVar(i), eNum(int64(to))}
	case 2:
		step = 2
	}
	inc := sSet(eVar(i), eBin("+", eVar(i), eNum(step)))
	switch g.r.Intn(12) {
	case 0:
		// downwards
		decl = sVar(i, eNum(int64(to)))
		c = &cond{">", eVar(i), eNum(int64(from))}
		if from > 0 && chance(g.r, 1, 2) {
			c = &cond{">=", eVar(i), eNum(int64(from))}
		}
		inc = sSet(eVar(i), eBin("-", eVar(i), eNum(1)))
		run.bound = to + 1
	case 1:
		// doubling
		decl = sVar(i, eNum(int64(from+1)))
		c = &cond{"<", eVar(i), eNum(int64(to + 4))}
		inc = sSet(eVar(i), eBin("*", eNum(2), eVar(i)))
		run.bound = to + 4
	case 2:
		// far from zero
		off := int64(1000 * (1 + g.r.Intn(3000000)))
		decl = sVar(i, eNum(int64(from)+off))
		c = &cond{"<", eVar(i), eNum(int64(to) + off)}
		inc = sSet(eVar(i), eBin("+", eVar(i), eNum(1)))
		run.bound, run.far = 1<<30, true
	case 3:
		// the limit is computed
		c = &cond{"<", eBin("+", eVar(i), eNum(1)), eBin("+", eNum(int64(to)), eNum(1))}
		inc = sSet(eVar(i), eBin("+", eVar(i), eNum(1)))
	}
	in.add(run)
	n := 1 + g.r.Intn(2)
	body := g.block(in, n, depth-1, early)
	if len(body) == 0 {
		if vs := s.all(func(x *sym) bool { return x.kind == "f" && isField(x) && x.set }); len(vs) > 0 {
			v := vs[g.r.Intn(len(vs))]
			body = append(body, sSet(eVar(v.name), eBin(pick(g.r, "*", "+", "-"), eVar(v.name), g.field(in, 1))))
		}
	}
	if early && chance(g.r, 1, 6) {
		body = append(body, &stmt{kind: "if", branches: []branch{{&cond{"==", eVar(i), eNum(int64(from + 1))}, []*stmt{sRet(g.field(in, 1))}}}})
	}
	s.add(&sym{name: i, kind: "s", frozen: true, bound: 1 << 30, far: run.far})
	return []*stmt{decl, sFor(c, inc, body...)}
}

// generate draws a program. The arguments listed in outs appear in equality assertions only.
func generate(r *rand.Rand, conf gconf) *program {
	g := &generator{r: r, conf: conf}
	p := &program{}
	if conf.sugar && chance(r, 2, 3) {
		p.style = &style{r: r, blanks: chance(r, 1, 2), comments: chance(r, 1, 2), parens: chance(r, 1, 2), zeros: chance(r, 1, 4)}
	}
	glob := &gscope{}
	for i := r.Intn(3); i > 0; i-- {
		if chance(r, 1, 3) && conf.arrays {
			nm := g.fresh("ga")
			var es []*expr
			l := 1 + r.Intn(3)
			for j := 0; j < l; j++ {
				es = append(es, g.num())
			}
			p.globals = append(p.globals, &stmt{kind: "arr", name: nm, elems: es})
			glob.add(&sym{name: nm, kind: "f", arr: l, set: true})
		} else {
			nm := g.fresh("g")
			p.globals = append(p.globals, sVar(nm, g.num()))
			glob.add(&sym{name: nm, kind: "f", set: true})
		}
	}
	for i := 0; i < conf.funcs; i++ {
		if chance(r, 2, 3) {
			d, x := g.funcDecl(glob, 2, "")
			p.globals = append(p.globals, d)
			glob.add(x)
		}
	}
	if conf.nested && chance(r, 1, 3) {
		// statements outside of functions are executed in order before main
		if chance(r, 1, 2) {
			p.globals = append(p.globals, g.block(glob, 1+r.Intn(3), 1, false)...)
		} else {
			for i := r.Intn(3); i >= 0; i-- {
				nm := g.fresh("d")
				p.globals = append(p.globals, sVar(nm, g.field(glob, 2)))
				glob.add(&sym{name: nm, kind: "f", set: true})
			}
		}
		if chance(r, 1, 6) {
			a := g.field(glob, 1)
			b := a
			if conf.selfCheck && chance(r, 1, 4) {
				b = g.field(glob, 1)
			}
			p.globals = append(p.globals, sEqual(a, b))
		}
		if chance(r, 1, 2) {
			// functions may stand anywhere, except where statements refer to their value
			names, used := map[string]bool{}, false
			for _, st := range p.globals {
				if st.kind == "func" {
					names[st.fn.name] = true
				}
			}
			for _, st := range p.globals {
				if st.kind != "func" {
					walkExprs([]*stmt{st}, func(e *expr) { used = used || e.op == "var" && names[e.name] })
				}
			}
			var os []*stmt
			for i := len(p.globals) - 1; i >= 0; i-- {
				if st := p.globals[i]; st.kind != "func" {
					os = insertAt(os, 0, st)
				} else if used {
					os = insertAt(os, 0, st)
				} else {
					os = insertAt(os, r.Intn(len(os)+1), st)
				}
			}
			p.globals = os
		}
	} else if chance(r, 1, 2) {
		r.Shuffle(len(p.globals), func(i, j int) { p.globals[i], p.globals[j] = p.globals[j], p.globals[i] })
	}
	p.mainPos = r.Intn(len(p.globals) + 1)
	m := &gscope{parent: glob}
	na := 1 + r.Intn(conf.maxArgs)
	if chance(r, 1, 40) && conf.maxArgs > 2 {
		na = 8 + r.Intn(8)
	}
	for i := 0; i < na; i++ {
		a := mainArg{name: g.fresh("x")}
		if conf.arrays && chance(r, 1, 5) {
			a.dims = []int{1 + r.Intn(3)}
			if chance(r, 1, 3) {
				a.dims = append(a.dims, 1+r.Intn(2))
				if chance(r, 1, 6) {
					a.dims = append(a.dims, 1+r.Intn(2))
				}
			} else if chance(r, 1, 12) && conf.maxArgs > 2 {
				a.dims = []int{9 + r.Intn(6)}
			}
		}
		p.args = append(p.args, a)
		arg := chance(r, 1, 4)
		m.add(&sym{name: a.name, kind: "f", set: !arg && (a.dims == nil || chance(r, 1, 2)), dims: a.dims, arg: arg})
	}
	// a conditional return in main makes the assertions behind it unreachable
	early := conf.earlyMain && chance(r, 1, 25)
	body := g.block(m, conf.stmts/2+r.Intn(conf.stmts/2+1), conf.depth, early)
	for i := 0; i < conf.outs; i++ {
		o := g.fresh("out")
		p.outs = append(p.outs, o)
		e := g.field(m, conf.depth)
		if chance(r, 1, 25) {
			e = g.mix(m, e, 8+r.Intn(20))
		} else if chance(r, 1, 25) {
			// long sums
			long := func() *expr {
				var l *expr
				for i := 3 + r.Intn(14); i > 0; i-- {
					t := g.field(m, 0)
					if chance(r, 1, 4) {
						t = eBin("*", g.num(), t)
					}
					if chance(r, 1, 8) {
						t = g.num()
					}
					if l == nil {
						l = t
					} else {
						l = eBin(pick(r, "+", "+", "-"), l, t)
					}
				}
				return l
			}
			a, b := long(), long()
			if chance(r, 1, 2) {
				// kept in variables first
				n1, n2 := g.fresh("v"), g.fresh("v")
				body = append(body, sVar(n1, a), sVar(n2, b))
				m.add(&sym{name: n1, kind: "f"})
				m.add(&sym{name: n2, kind: "f"})
				a, b = eVar(n1), eVar(n2)
			}
			e = eBin(pick(r, "+", "-", "*"), a, b)
		} else if chance(r, 2, 3) {
			e = g.mix(m, e, 1+r.Intn(6))
		}
		l, rr := e, eVar(o)
		switch r.Intn(6) {
		case 0:
			l, rr = rr, l
		case 1:
			// the claimed value stands in a sum
			t := g.field(m, 1)
			l, rr = eBin("+", l, t), eBin("+", rr, t)
		case 2:
			// scaled claim
			k := eNum(int64(2 + r.Intn(9)))
			l, rr = eBin("*", k, l), eBin("*", rr, k)
		}
		body = append(body, sEqual(l, rr))
		if r.Intn(3) == 0 {
			body = append(body, g.block(m, 1, conf.depth, false)...)
		}
		pos := r.Intn(len(p.args) + 1)
		p.args = append(p.args[:pos], append([]mainArg{{name: o}}, p.args[pos:]...)...)
	}
	if conf.selfCheck && chance(r, 1, 2) {
		body = append(body, sEqual(g.field(m, 1), g.field(m, 1)))
	}
	if chance(r, 1, 2) {
		if chance(r, 1, 4) {
			body = append(body, sRet(nil))
		} else {
			body = append(body, sRet(g.field(m, conf.depth-1)))
		}
	}
	p.body = body
	if conf.pub && chance(r, 2, 3) {
		p.public = drawPublic(r, p.argNames())
	}
	return p
}

// walkExprs visits the expressions of statements, those within functions and branches included
func walkExprs(ss []*stmt, f func(*expr)) {
	var in func(e *expr)
	in = func(e *expr) {
		if e == nil {
			return
		}
		f(e)
		for _, k := range e.kids {
			in(k)
		}
	}
	for _, s := range ss {
		in(s.e)
		in(s.target)
		for _, e := range s.elems {
			in(e)
		}
		if s.cond != nil {
			in(s.cond.l)
			in(s.cond.r)
		}
		if s.inc != nil {
			walkExprs([]*stmt{s.inc}, f)
		}
		if s.fn != nil {
			walkExprs(s.fn.body, f)
		}
		for _, b := range s.branches {
			if b.cond != nil {
				in(b.cond.l)
				in(b.cond.r)
			}
			walkExprs(b.body, f)
		}
		walkExprs(s.body, f)
	}
}

// mix combines an expression with many visible values, so that few computations stay without consequence
func (g *generator) mix(s *gscope, e *expr, n int) *expr {
	for i := 0; i < n; i++ {
		var t *expr
		if chance(g.r, 1, 3) {
			t = g.element(s, false)
		}
		if t == nil && chance(g.r, 1, 3) {
			t = g.call(s, 2)
		}
		if t == nil {
			vs := s.all(isField)
			if len(vs) == 0 {
				continue
			}
			if len(vs) > 4 && chance(g.r, 1, 2) {
				vs = vs[:4]
			}
			t = eVar(vs[g.r.Intn(len(vs))].name)
		}
		switch g.r.Intn(5) {
		case 0:
			e = eBin("*", e, t)
		case 1:
			e = eBin("-", e, t)
		case 2:
			e = eBin("+", eBin("*", eNum(int64(2+g.r.Intn(20))), e), t)
		default:
			e = eBin("+", e, t)
		}
	}
	return e
}

// drawPublic picks a sublist of the arguments in random order. It leaves at least one private argument
func drawPublic(r *rand.Rand, names []string) []string {
	perm := r.Perm(len(names))
	n := r.Intn(len(names))
	var out []string
	for _, i := range perm[:n] {
		out = append(out, names[i])
	}
	return out
}

// inputs draws field elements for all arguments except the claimed outputs, which are zero
func (p *program) inputs(r *rand.Rand) map[string]*big.Int {
	in := map[string]*big.Int{}
	for _, a := range p.argNames() {
		in[a] = fieldElem(r, N)
		if chance(r, 1, 3) {
			in[a] = randBelow(r, N)
		}
	}
	if names := p.argNames(); chance(r, 1, 5) {
		// values that have something in common with the one before
		for i := 1; i < len(names); i++ {
			v := in[names[i-1]]
			switch r.Intn(8) {
			case 0:
				in[names[i]] = v
			case 1, 2:
				in[names[i]] = fadd(v, mod(new(big.Int).Lsh(bi(1+r.Int63n(1<<40)), 64), N))
			case 3:
				in[names[i]] = fadd(v, mod(new(big.Int).Lsh(bi(1+r.Int63n(1<<40)), uint(pick2(r, 8, 16, 32, 128, 192))), N))
			case 4:
				in[names[i]] = fsub(zero, v)
			case 5:
				in[names[i]] = fadd(v, one)
			}
		}
	}
	for _, o := range p.outs {
		in[o] = bi(0)
	}
	return in
}

// vector orders inputs as main expects them
func vector(names []string, in map[string]*big.Int) (out []*big.Int) {
	for _, n := range names {
		out = append(out, in[n])
	}
	return
}

func inputString(names []string, in map[string]*big.Int) string {
	s := ""
	for _, n := range names {
		s += n + "=" + in[n].String() + " "
	}
	return s
}

// solveOuts sets the claimed outputs to the values that satisfy their assertions. It returns false if there is none:
// the assertion is not reached, reached several times with different values, or the evaluation fails.
func (p *program) solveOuts(in map[string]*big.Int, maxSteps int) (ok bool, res *evaluation) {
	res = p.eval(in, maxSteps)
	if res.abort != "" || res.div0 {
		return false, res
	}
	for _, o := range p.outs {
		// the difference of both sides is affine in the claimed value
		for k, e := range res.eqs {
			if !usesVar(e.call, o) {
				continue
			}
			save := in[o]
			in[o] = fadd(save, one)
			res2 := p.eval(in, maxSteps)
			if k >= len(res2.eqs) {
				in[o] = save
				return false, res
			}
			d0, d1 := fsub(e.l, e.r), fsub(res2.eqs[k].l, res2.eqs[k].r)
			slope := fsub(d1, d0)
			if slope.Sign() == 0 {
				in[o] = save
				return false, res
			}
			in[o] = fsub(save, fmul(d0, minv(slope, N)))
			break
		}
	}
	res = p.eval(in, maxSteps)
	return res.satisfied(), res
}

func usesVar(e *expr, n string) bool {
	if (e.op == "var" || e.op == "idx") && e.name == n {
		return true
	}
	for _, k := range e.kids {
		if usesVar(k, n) {
			return true
		}
	}
	return false
}
