package main

import (
	"fmt"
	"math/big"
)

// Monitor of randomised constraint systems: C28.

func runC28(c *Ctx) {
	conf := richConf(c.R)
	if chance(c.R, 1, 3) {
		conf.selfCheck = true
	}
	p := drawProgram(c.R, conf, 60)
	src := p.source()
	c.Note("%s", src)
	in := p.inputs(c.R)
	_, res := p.solveOuts(in, stepLimit)
	comp := mustCompile(c, src, res.div0)
	if comp == nil || res.abort != "" {
		return
	}
	c.Sample(map[string]interface{}{"program": src, "constraints": comp.sys.gates, "entries": comp.sys.wit})
	// both emitters, in either order, from the gates that already went through the plain emission
	var ds, ss *sys
	rd := &compiled{}
	*rd = *comp
	emit := []func() error{
		func() (err error) {
			rd.dense = comp.prog.GatesToR1CS(comp.gates, true)
			ds, err = denseSys(rd.dense)
			return
		},
		func() (err error) {
			rd.sparse = comp.prog.GatesToSparseR1CS(comp.gates, true)
			ss, err = sparseSys(rd.sparse)
			return
		},
	}
	first := c.R.Intn(2)
	for k := 0; k < 2; k++ {
		var err error
		if caught := try(func() { err = emit[(first+k)%2]() }); caught != nil {
			c.Note("%s", caught.Stack)
			c.Fail("refused", "the randomised emission panicked: %v", caught)
			return
		}
		if err != nil {
			c.Fail("malformed", "the randomised system is malformed: %v", err)
			return
		}
	}
	if d := ds.diff(ss); d != "" {
		c.Fail("representation", "dense and sparse randomised systems differ: %s", d)
		return
	}
	rin, msg := extends(comp.sys, ds)
	if msg != "" {
		c.Note("%s", ds)
		c.Fail("extension", "%s", msg)
		return
	}
	rd.sys, rd.ssys = ds, ss
	c.Count("randomised systems compared with the plain one", 1)
	rout := 2*comp.sys.wit + 1 - rin

	check := func(in map[string]*big.Int, satisfied bool) {
		vec := vector(comp.inputs, in)
		var seen []*big.Int
		for k := 0; k < 2 && !c.failed(); k++ {
			for _, sparse := range []bool{false, true} {
				f := rd.witness
				if sparse {
					f = rd.sparseWitness
				}
				w, err, caught := f(vec)
				if caught != nil {
					c.Note("%s", caught.Stack)
					c.Fail("witness panic", "%s witness generation panicked: %v", pipeName(sparse), caught)
					return
				}
				if (err == nil) != satisfied {
					c.Note("inputs %s", inputString(comp.inputs, in))
					c.Fail("verdict", "%s witness generation of the randomised system returned error %v, inputs satisfy the program: %v", pipeName(sparse), err, satisfied)
					return
				}
				if err != nil {
					c.Count("refused", 1)
					continue
				}
				if len(w) != ds.wit {
					c.Fail("witness", "witness of %d entries for a system over %d", len(w), ds.wit)
					return
				}
				for i, v := range w {
					if v == nil || v.Sign() < 0 || v.Cmp(N) >= 0 {
						c.Fail("witness", "entry %d of the witness is %v", i, v)
						return
					}
				}
				if j := ds.broken(w); j >= 0 {
					c.Note("%s", ds)
					c.Fail("unsatisfied", "%s: the witness of the randomised system violates constraint %d", pipeName(sparse), j)
					return
				}
				plain, perr, pc := comp.witness(vec)
				if perr != nil || pc != nil {
					c.Fail("verdict", "inputs accepted by the randomised system are refused by the plain one: %v %v", perr, pc)
					return
				}
				for i := range plain {
					if plain[i].Cmp(w[i]) != 0 {
						c.Fail("prefix", "%s: entry %d is %v in the plain witness and %v in the randomised one", pipeName(sparse), i, plain[i], w[i])
						return
					}
				}
				r := w[rin]
				if r.BitLen() < 128 {
					c.Fail("random entry", "%s: the random entry is %v, which can be guessed", pipeName(sparse), r)
					return
				}
				for _, o := range seen {
					if o.Cmp(r) == 0 {
						c.Fail("random entry", "two witnesses carry the same random entry %v", r)
						return
					}
				}
				if !freshValue(c, r, "the random entry") {
					return
				}
				seen = append(seen, r)
				for _, i := range []int{rin, rout} {
					bad := append([]*big.Int{}, w...)
					bad[i] = fadd(w[i], delta(c.R))
					if i == rin && bad[i].Cmp(fsub(zero, w[i])) == 0 {
						continue
					}
					if ds.broken(bad) != ds.gates-1 {
						c.Fail("free entry", "entry %d of the witness can be changed from %v to %v without breaking the last constraint", i, w[i], bad[i])
						return
					}
				}
				c.Count("randomised witnesses", 1)
			}
		}
		if satisfied {
			c.Distinct(shapeOf(p), inputString(comp.inputs, in))
		}
	}
	check(in, res.satisfied())
	if !c.failed() {
		v := p.inputs(c.R)
		for _, o := range p.outs {
			v[o] = fieldElem(c.R, N)
		}
		check(v, p.eval(v, stepLimit).satisfied())
	}
	// the transposed forms carry the additional entries as well
	if c.failed() {
		return
	}
	tr, ts := rd.dense.Transpose(), rd.sparse.TransposeSparse()
	if tr.WitnessLength != ds.wit || ts.WitnessLength != ds.wit || tr.NumberOfGates != ds.gates || ts.NumberOfGates != ds.gates {
		c.Fail("transpose", "transposing changes the size of the system")
		return
	}
	for k, m := range [][][]*big.Int{tr.L, tr.R, tr.E, tr.O} {
		st := [][]*big.Int{}
		var err error
		switch k {
		case 0:
			st, err = sparseRows(ts.L, ds.wit, ds.gates, "transposed L")
		case 1:
			st, err = sparseRows(ts.R, ds.wit, ds.gates, "transposed R")
		case 2:
			st, err = sparseRows(ts.E, ds.wit, ds.gates, "transposed E")
		case 3:
			st, err = sparseRows(ts.O, ds.wit, ds.gates, "transposed O")
		}
		if err != nil || len(m) != ds.wit {
			c.Fail("transpose", "transposed matrix %d: %v, %d rows", k, err, len(m))
			return
		}
		orig := [][][]*big.Int{ds.L, ds.R, ds.E, ds.O}[k]
		for i := 0; i < ds.wit; i++ {
			for j := 0; j < ds.gates; j++ {
				if mod(m[i][j], N).Cmp(orig[j][i]) != 0 || st[i][j].Cmp(orig[j][i]) != 0 {
					c.Fail("transpose", "matrix %d constraint %d entry %d: %v, transposed %v (dense) %v (sparse)", k, j, i, orig[j][i], m[i][j], st[i][j])
					return
				}
			}
		}
	}
	// a plain emission afterwards is not affected
	again := comp.prog.GatesToR1CS(comp.gates, false)
	as, err := denseSys(again)
	if err != nil {
		c.Fail("malformed", "the plain system after the randomised one is malformed: %v", err)
		return
	}
	if d := as.diff(comp.sys); d != "" {
		c.Fail("history", "the plain system changes after a randomised emission: %s", d)
	}
}

// extends checks that b is a followed by the constraint r*r + g^r = o over two additional final entries and returns the
// position of r.
func extends(a, b *sys) (rin int, msg string) {
	if b.gates != a.gates+1 || b.wit != a.wit+2 {
		return 0, fmt.Sprintf("%d constraints over %d entries become %d over %d", a.gates, a.wit, b.gates, b.wit)
	}
	as, bs := [][][]*big.Int{a.L, a.R, a.E, a.O}, [][][]*big.Int{b.L, b.R, b.E, b.O}
	for k := range as {
		for j := 0; j < a.gates; j++ {
			for i := 0; i < b.wit; i++ {
				want := zero
				if i < a.wit {
					want = as[k][j][i]
				}
				if bs[k][j][i].Cmp(want) != 0 {
					return 0, fmt.Sprintf("matrix %c constraint %d entry %d: %v instead of %v", "LREO"[k], j, i, bs[k][j][i], want)
				}
			}
		}
	}
	rin = -1
	for i := a.wit; i < b.wit; i++ {
		if b.L[a.gates][i].Sign() != 0 {
			rin = i
		}
	}
	if rin < 0 {
		return 0, "the last constraint does not use an additional entry"
	}
	rout := 2*a.wit + 1 - rin
	for i := 0; i < b.wit; i++ {
		in, out := zero, zero
		if i == rin {
			in = one
		}
		if i == rout {
			out = one
		}
		if b.L[a.gates][i].Cmp(in) != 0 || b.R[a.gates][i].Cmp(in) != 0 || b.E[a.gates][i].Cmp(in) != 0 || b.O[a.gates][i].Cmp(out) != 0 {
			return 0, fmt.Sprintf("the last constraint is %s*%s+g^%s=%s", sparseString(b.L[a.gates]), sparseString(b.R[a.gates]), sparseString(b.E[a.gates]), sparseString(b.O[a.gates]))
		}
	}
	return rin, ""
}

func init() {
	register(&Prop{ID: "C28", Quick: 4000, Thorough: 120000, Run: runC28,
		Rule: "a case draws a program, emits both representations with randomisation and compares them with the plain system; for a satisfying and an arbitrary input vector it computes two witnesses per representation, evaluates all constraints, compares the prefix with the plain witness and the random entry with all earlier ones; non-trivial: an accepted input, distinct by program shape and inputs",
		Need: []string{"randomised systems compared with the plain one", "randomised witnesses", "refused", "fresh values compared"}})
}
