package main

import (
	"fmt"
	"math/big"
	"strings"

	"github.com/mottla/go-AlgebraicProgram-SNARK/circuitcompiler"
	"github.com/mottla/go-AlgebraicProgram-SNARK/utils"
)

// Long programs: loops that emit hundreds to thousands of constraints. Only here can identifiers of gates collide,
// positions need several digits and tables grow.

// sparseRow is a row of a sparse system.
type sparseRow struct {
	l, r, e, o map[int]*big.Int
}

type longSys struct {
	rows []sparseRow
	wit  int
	by   map[int][]int // rows that mention an entry
}

func treeMap(t *utils.AvlTree) map[int]*big.Int {
	m := map[int]*big.Int{}
	for e := range t.ChannelNodes(true) {
		m[int(e.Key)] = mod(e.Value, N)
	}
	return m
}

func newLongSys(s *circuitcompiler.ER1CSSparse) *longSys {
	out := &longSys{wit: s.WitnessLength, by: map[int][]int{}}
	for j := range s.L {
		row := sparseRow{treeMap(s.L[j]), treeMap(s.R[j]), treeMap(s.E[j]), treeMap(s.O[j])}
		seen := map[int]bool{}
		for _, m := range []map[int]*big.Int{row.l, row.r, row.e, row.o} {
			for i := range m {
				if !seen[i] {
					seen[i] = true
					out.by[i] = append(out.by[i], j)
				}
			}
		}
		out.rows = append(out.rows, row)
	}
	return out
}

func mapDot(m map[int]*big.Int, w []*big.Int) *big.Int {
	s := bi(0)
	for i, v := range m {
		s.Add(s, new(big.Int).Mul(v, w[i]))
	}
	return s.Mod(s, N)
}

func (s *longSys) holds(j int, w []*big.Int) bool {
	row := s.rows[j]
	v := fmul(mapDot(row.l, w), mapDot(row.r, w))
	if len(row.e) > 0 {
		v = fadd(v, gX(mapDot(row.e, w)))
	}
	return v.Cmp(mapDot(row.o, w)) == 0
}

func (s *longSys) broken(w []*big.Int) int {
	for j := range s.rows {
		if !s.holds(j, w) {
			return j
		}
	}
	return -1
}

// sees tells whether a change of entry i breaks a constraint
func (s *longSys) sees(w []*big.Int, i int, d *big.Int) bool {
	old := w[i]
	w[i] = fadd(old, d)
	defer func() { w[i] = old }()
	for _, j := range s.by[i] {
		if !s.holds(j, w) {
			return true
		}
	}
	return false
}

// longProgram is a program whose evaluation is known in closed form.
type longProgram struct {
	src    string
	in     map[string]*big.Int
	order  []string // arguments of main
	public []string
	claims []string // arguments that exactly one assertion pins down
	prods  int      // distinct products
	eqs    int      // assertions
}

func drawLong(c *Ctx, max int) *longProgram {
	r := c.R
	n := 100 + r.Intn(200)
	if max > 400 {
		n = []int{120, 300, 1030, 2500, 5000}[r.Intn(5)] + r.Intn(500)
	}
	if n > max {
		n = max
	}
	p := &longProgram{in: map[string]*big.Int{}}
	arg := func(name string, v *big.Int) {
		p.order = append(p.order, name)
		p.in[name] = v
	}
	var b strings.Builder
	switch r.Intn(3) {
	case 0:
		// one assertion for every element of an array
		k := int64(2 + r.Intn(1000))
		form := r.Intn(6)
		body := []string{"equal(x[i]*x[i],y[i])", "equal(y[i],x[i]*x[i]+i)", fmt.Sprintf("equal(x[i]*%d,y[i])", k),
			"equal(f(x[i],x[0]),y[i])", fmt.Sprintf("var t=x[i]*%d\n equal(t-x[0],y[i])", k), "equal(y[i],x[i]-i)"}[form]
		fmt.Fprintf(&b, "func f(a,b){\n return a*b+a\n}\nfunc main(x[%d],y[%d]){\n%%s var i=0\n for(i<%d;i=i+1){\n %s\n }\n}\n", n, n, n, body)
		xs := make([]*big.Int, n)
		for i := range xs {
			xs[i] = fieldElem(r, N)
			arg(fmt.Sprintf("x[%d]", i), xs[i])
		}
		for i := range xs {
			var v *big.Int
			switch form {
			case 0:
				v = fmul(xs[i], xs[i])
			case 1:
				v = fadd(fmul(xs[i], xs[i]), bi(int64(i)))
			case 2:
				v = fmul(xs[i], bi(k))
			case 3:
				v = fadd(fmul(xs[i], xs[0]), xs[i])
			case 4:
				v = fsub(fmul(xs[i], bi(k)), xs[0])
			case 5:
				v = fsub(xs[i], bi(int64(i)))
			}
			arg(fmt.Sprintf("y[%d]", i), v)
			p.claims = append(p.claims, fmt.Sprintf("y[%d]", i))
		}
		p.eqs = n
		if form < 2 || form == 3 {
			p.prods = n
		}
	case 1:
		// a chain of products with assertions on the way
		form := r.Intn(3)
		step := []string{"y=y*x+i", "y=x*(y-i)", "y=y*(x+i)"}[form]
		at := map[int]bool{0: true, n - 1: true, r.Intn(n): true, r.Intn(n): true}
		fmt.Fprintf(&b, "func main(x,y,out")
		x, y := nonZeroElem(r, N), nonZeroElem(r, N)
		arg("x", x)
		arg("y", y)
		p.order = append(p.order, "out")
		p.claims = append(p.claims, "out")
		checks := ""
		m := 0
		for i := 0; i < n; i++ {
			switch form {
			case 0:
				y = fadd(fmul(y, x), bi(int64(i)))
			case 1:
				y = fmul(x, fsub(y, bi(int64(i))))
			case 2:
				y = fmul(y, fadd(x, bi(int64(i))))
			}
			if at[i] {
				nm := fmt.Sprintf("m%d", m)
				m++
				fmt.Fprintf(&b, ",%s", nm)
				arg(nm, y)
				p.claims = append(p.claims, nm)
				checks += fmt.Sprintf("  if i==%d{\n   equal(y,%s)\n  }\n", i, nm)
			}
		}
		p.in["out"] = y
		fmt.Fprintf(&b, "){\n%%s var i=0\n for(i<%d;i=i+1){\n  %s\n%s }\n equal(out,y)\n}\n", n, step, checks)
		p.prods, p.eqs = n, m+1
	case 2:
		// all products of two elements, each of them twice
		q := 2
		for q*q < n {
			q++
		}
		q /= 2
		fmt.Fprintf(&b, "func main(x[%d],y[%d]){\n%%s var i=0\n for(i<%d;i=i+1){\n  var j=0\n  for(j<%d;j=j+1){\n   equal(x[i]*x[j],y[i*%d+j])\n  }\n }\n}\n", q, q*q, q, q, q)
		xs := make([]*big.Int, q)
		for i := range xs {
			xs[i] = fieldElem(r, N)
			arg(fmt.Sprintf("x[%d]", i), xs[i])
		}
		for i := range xs {
			for j := range xs {
				nm := fmt.Sprintf("y[%d]", i*q+j)
				arg(nm, fmul(xs[i], xs[j]))
				p.claims = append(p.claims, nm)
			}
		}
		p.prods, p.eqs = q*(q+1)/2, q*q
	}
	pub := ""
	if chance(r, 1, 2) {
		for i := 1 + r.Intn(4); i > 0; i-- {
			nm := p.order[r.Intn(len(p.order))]
			dup := false
			for _, o := range p.public {
				dup = dup || o == nm
			}
			if !dup {
				p.public = append(p.public, nm)
			}
		}
		pub = " public{" + strings.Join(p.public, ",") + "}\n"
	}
	p.src = strings.Replace(b.String(), "%s", pub, 1)
	return p
}

// longCase decides a long program: every claim is accepted when right and refused when wrong, the witness satisfies all
// constraints, and every entry is determined.
func longCase(c *Ctx, max int, dense bool) {
	p := drawLong(c, max)
	r := c.R
	c.Note("%s", p.src)
	var prog *circuitcompiler.Program
	var sp *circuitcompiler.ER1CSSparse
	var de *circuitcompiler.ER1CS
	if caught := try(func() {
		prog = circuitcompiler.Parse(p.src, true)
		g := prog.Execute()
		sp = prog.GatesToSparseR1CS(g, false)
		if dense {
			de = prog.GatesToR1CS(g, false)
		}
	}); caught != nil {
		c.Note("%s", caught.Stack)
		c.Fail("refused", "a long valid program is refused: %v", clip(caught.String(), 400))
		return
	}
	c.Sample(map[string]interface{}{"program": p.src, "constraints": sp.NumberOfGates, "entries": sp.WitnessLength})
	c.Count("long programs", 1)
	c.Count("constraints of long programs", sp.NumberOfGates)
	if c.Prop == "C26" {
		if sp.NumberOfGates <= p.prods+p.eqs {
			c.Distinct(p.src)
			return
		}
		c.Fail("constraints", "%d constraints for %d distinct products and %d assertions", sp.NumberOfGates, p.prods, p.eqs)
		return
	}
	sys := newLongSys(sp)
	if dense {
		ds, err := denseSys(de)
		if err != nil {
			c.Fail("representation", "%v", err)
			return
		}
		ss, err := sparseSys(sp)
		if err != nil {
			c.Fail("representation", "%v", err)
			return
		}
		if d := ds.diff(ss); d != "" {
			c.Fail("representation", "dense and sparse constraints differ: %s", d)
			return
		}
	}
	pos := map[string]int{}
	at := 1
	for _, n := range append(append([]string{}, p.public...), p.order...) {
		if _, ex := pos[n]; !ex {
			pos[n] = at
			at++
		}
	}
	names := prog.GetMainCircuit().Inputs
	if len(names) != len(p.order) {
		c.Fail("arguments", "main has %d arguments, %d are declared", len(names), len(p.order))
		return
	}
	run := func(in map[string]*big.Int) (w []*big.Int, ok bool) {
		vec := make([]*big.Int, len(names))
		for i, n := range names {
			vec[i] = in[n]
		}
		for k := 0; k < 2; k++ {
			if k == 1 && !dense {
				break
			}
			var v []*big.Int
			var err error
			caught := try(func() {
				if k == 0 {
					v, err = circuitcompiler.CalculateSparseWitness(sp, circuitcompiler.CombineInputs(names, represent(vec)))
				} else {
					v, err = circuitcompiler.CalculateWitness(de, circuitcompiler.CombineInputs(names, represent(vec)))
				}
			})
			if caught != nil {
				c.Note("%s", caught.Stack)
				c.Fail("witness panic", "witness generation of a long program panicked: %v", caught)
				return nil, false
			}
			if k == 1 && (err == nil) != ok {
				c.Fail("pipelines", "sparse witness accepted: %v, dense witness: %v", ok, err)
				return nil, false
			}
			if err != nil {
				ok = false
				continue
			}
			v = reduceVec(v, N)
			if k == 1 {
				for i := range v {
					if v[i].Cmp(w[i]) != 0 {
						c.Fail("pipelines", "entry %d of the witness is %v (sparse) and %v (dense)", i, w[i], v[i])
						return nil, false
					}
				}
			}
			w, ok = v, true
		}
		return
	}
	w, ok := run(p.in)
	if c.failed() {
		return
	}
	if !ok {
		c.Fail("rejected", "inputs that satisfy the long program are rejected")
		return
	}
	if len(w) != sys.wit || w[0].Cmp(one) != 0 {
		c.Fail("witness", "witness of %d entries for a system over %d", len(w), sys.wit)
		return
	}
	for n, i := range pos {
		if w[i].Cmp(p.in[n]) != 0 {
			c.Fail("inputs", "entry %d of the witness should be %s", i, n)
			return
		}
	}
	if j := sys.broken(w); j >= 0 {
		c.Fail("unsatisfied", "the returned witness violates constraint %d", j)
		return
	}
	c.Count("satisfied", 1)
	for _, n := range p.claims {
		if !sys.sees(w, pos[n], delta(r)) {
			c.Fail("unconstrained", "all constraints hold although the asserted value %s is wrong", n)
			return
		}
	}
	for i := at; i < sys.wit && c.Prop == "C03"; i++ {
		if !sys.sees(w, i, delta(r)) {
			c.Fail("undetermined", "no constraint determines entry %d of %d", i, sys.wit)
			return
		}
	}
	c.Count("entries of long programs changed", sys.wit-at+len(p.claims))
	for k := 0; k < 4; k++ {
		n := p.claims[r.Intn(len(p.claims))]
		old := p.in[n]
		p.in[n] = fadd(old, delta(r))
		_, ok := run(p.in)
		p.in[n] = old
		if c.failed() {
			return
		}
		if ok {
			c.Fail("accepted", "inputs with a wrong value of %s are accepted", n)
			return
		}
		c.Count("refused", 1)
	}
	c.Distinct(p.src, fmt.Sprint(w))
}
