package main

import (
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"math/big"
	"math/rand"
	"reflect"
	"strings"
	"unsafe"

	"github.com/mottla/go-AlgebraicProgram-SNARK/circuitcompiler"
	bn256 "github.com/mottla/go-AlgebraicProgram-SNARK/pairing"
	"github.com/mottla/go-AlgebraicProgram-SNARK/utils"
	"github.com/mottla/go-AlgebraicProgram-SNARK/zkSNARK"
)

// Monitor of the arguments of library calls: C25. Every value that was ever handed to the library in a case is watched: its
// content is recorded, and compared again after every later call.

type watched struct {
	name string
	snap func() string
	was  string
}

type guard struct {
	c     *Ctx
	items []*watched
	calls []string
}

func (g *guard) watch(name string, snap func() string) *watched {
	w := &watched{name: name, snap: snap, was: snap()}
	g.items = append(g.items, w)
	return w
}

// call executes an operation and compares everything that is watched, except for the designated result.
func (g *guard) call(what string, result *watched, f func()) bool {
	g.calls = append(g.calls, what)
	caught := try(f)
	if caught != nil {
		what += " (which panicked: " + clip(caught.String(), 200) + ")"
	}
	for _, w := range g.items {
		now := w.snap()
		if w == result {
			w.was = now
			continue
		}
		if now != w.was {
			for _, s := range g.calls {
				g.c.Note("%s", s)
			}
			g.c.Fail("modified", "%s changed %s from %s to %s", what, w.name, clip(w.was, 600), clip(now, 600))
			return false
		}
	}
	g.c.Count("values compared after a call", len(g.items))
	g.c.Count("calls watched", 1)
	return caught == nil
}

// ---- snapshots

func snapBig(v *big.Int) string {
	if v == nil {
		return "nil"
	}
	return v.Text(62)
}

// snapVec includes what lies between the length and the capacity of the slice.
func snapVec(v []*big.Int) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%d:", len(v))
	for _, e := range v[:cap(v)] {
		b.WriteString(snapBig(e))
		b.WriteByte(' ')
	}
	return b.String()
}

func snapTree(t *utils.AvlTree) string {
	if t == nil {
		return "nil"
	}
	var b strings.Builder
	var walk func(n *utils.AvlNode, depth int)
	walk = func(n *utils.AvlNode, depth int) {
		if n == nil || depth > 200 {
			return
		}
		walk(n.Left(), depth+1)
		fmt.Fprintf(&b, "%d=%s ", n.Key(), snapBig(n.Value()))
		walk(n.Right(), depth+1)
	}
	walk(t.Root(), 0)
	return b.String()
}

// snapAny describes every value that is reachable from v by its meaning: numbers, trees and group elements are compared as
// such, everything else by its fields.
func snapAny(v interface{}) string {
	h := sha256.New()
	seen := map[uintptr]bool{}
	var walk func(v reflect.Value, depth int)
	walk = func(v reflect.Value, depth int) {
		if depth > 60 {
			return
		}
		if v.Kind() == reflect.Ptr {
			if v.IsNil() {
				h.Write([]byte("nil"))
				return
			}
			p := unsafe.Pointer(v.Pointer())
			switch v.Type() {
			case reflect.TypeOf((*big.Int)(nil)):
				h.Write([]byte(snapBig((*big.Int)(p)) + ";"))
				return
			case reflect.TypeOf((*utils.AvlTree)(nil)):
				h.Write([]byte(snapTree((*utils.AvlTree)(p)) + ";"))
				return
			case reflect.TypeOf((*bn256.G1)(nil)):
				h.Write((*bn256.G1)(p).Marshal())
				return
			case reflect.TypeOf((*bn256.G2)(nil)):
				h.Write((*bn256.G2)(p).Marshal())
				return
			case reflect.TypeOf((*bn256.GT)(nil)):
				h.Write((*bn256.GT)(p).Marshal())
				return
			}
			if seen[v.Pointer()] {
				h.Write([]byte("seen"))
				return
			}
			seen[v.Pointer()] = true
			walk(v.Elem(), depth+1)
			return
		}
		switch v.Kind() {
		case reflect.Interface:
			if !v.IsNil() {
				walk(v.Elem(), depth+1)
			}
		case reflect.Struct:
			if v.Type().PkgPath() == "sync" {
				return
			}
			for i := 0; i < v.NumField(); i++ {
				walk(v.Field(i), depth+1)
			}
		case reflect.Slice, reflect.Array:
			fmt.Fprintf(h, "[%d", v.Len())
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i), depth+1)
			}
		case reflect.Map:
			// the order of a map is drawn anew each time
			sum := make([]byte, sha256.Size)
			for _, k := range v.MapKeys() {
				sub := sha256.New()
				h, sub = sub, h
				walk(k, depth+1)
				walk(v.MapIndex(k), depth+1)
				h, sub = sub, h
				for i, x := range sub.Sum(nil) {
					sum[i] ^= x
				}
			}
			fmt.Fprintf(h, "m%d", v.Len())
			h.Write(sum)
		case reflect.String:
			h.Write([]byte(v.String() + ";"))
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			fmt.Fprintf(h, "%d;", v.Int())
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			fmt.Fprintf(h, "%d;", v.Uint())
		case reflect.Bool:
			fmt.Fprint(h, v.Bool())
		}
	}
	walk(reflect.ValueOf(v), 0)
	return hex.EncodeToString(h.Sum(nil))
}

func runC25(c *Ctx) {
	switch {
	case c.Idx%40 == 7:
		proofArguments(c)
	case c.Idx%8 == 3:
		groupArguments(c)
	case c.Idx%2 == 0:
		mathArguments(c)
	default:
		circuitArguments(c)
	}
}

// ---- field, polynomials, trees

type mathPool struct {
	*guard
	q     *big.Int
	nums  []*big.Int
	polys [][]*big.Int
	trees []*utils.AvlTree
	tw    []*watched
}

func (m *mathPool) addNum(v *big.Int, name string) {
	if v == nil || len(m.nums) > 14 {
		return
	}
	m.nums = append(m.nums, v)
	m.watch(name, func() string { return snapBig(v) })
}

func (m *mathPool) addPoly(p []*big.Int, name string) {
	if len(p) == 0 || len(m.polys) > 14 || len(p) > 40 {
		return
	}
	m.polys = append(m.polys, p)
	m.watch(name, func() string { return snapVec(p) })
}

func (m *mathPool) addTree(t *utils.AvlTree, name string) {
	if t == nil || len(m.trees) > 14 || t.Size() > 40 {
		return
	}
	for _, o := range m.trees {
		if o == t {
			return
		}
	}
	m.trees = append(m.trees, t)
	m.tw = append(m.tw, m.watch(name, func() string { return snapTree(t) }))
}

// sharing draws a vector out of the numbers of the pool, as a part of a longer one
func (m *mathPool) sharing(r *rand.Rand, n int) []*big.Int {
	v := make([]*big.Int, n+r.Intn(4))
	for i := range v {
		v[i] = m.nums[r.Intn(len(m.nums))]
	}
	return v[:n]
}

func mathArguments(c *Ctx) {
	r := c.R
	q := drawPrime(r)
	for q.BitLen() < 6 {
		q = drawPrime(r)
	}
	f := fieldFor(q)
	fq, pf := f.ArithmeticField, f.PolynomialField
	m := &mathPool{guard: &guard{c: c}, q: q}
	m.watch("the modulus", func() string { return snapBig(fq.Q) })
	m.watch("the group order", func() string { return snapBig(bn256.Order) })
	rep := func() *big.Int {
		if chance(r, 1, 3) {
			return anyRep(r, q)
		}
		return fieldElem(r, q)
	}
	for i := 0; i < 4; i++ {
		m.addNum(rep(), fmt.Sprintf("number %d", i))
	}
	m.addNum(bi(0), "zero")
	m.addNum(bi(1), "one")
	for i := 0; i < 3; i++ {
		m.addPoly(m.sharing(r, 1+r.Intn(7)), fmt.Sprintf("vector %d", i))
		m.addPoly(drawPoly(r, q, 7, true), fmt.Sprintf("polynomial %d", i))
	}
	if p := m.polys[r.Intn(len(m.polys))]; len(p) > 2 {
		m.addPoly(p[:1+r.Intn(len(p)-1)], "a prefix of another vector")
	}
	for i := 0; i < 2; i++ {
		m.addTree(treeOf(drawPoly(r, q, 12, true), r), fmt.Sprintf("tree %d", i))
	}
	p := m.polys[r.Intn(len(m.polys))]
	m.call("building a tree from a vector", nil, func() { m.addTree(utils.NewSparseArrayFromArray(p), "tree of a vector") })
	num := func() *big.Int { return m.nums[r.Intn(len(m.nums))] }
	poly := func() []*big.Int { return m.polys[r.Intn(len(m.polys))] }
	ti := func() int { return r.Intn(len(m.trees)) }
	tree := func() *utils.AvlTree { return m.trees[ti()] }
	steps := 15 + r.Intn(40)
	kinds := map[string]bool{}
	for k := 0; k < steps && !c.failed(); k++ {
		id := fmt.Sprintf("#%d", k)
		a, b := num(), num()
		x, y := poly(), poly()
		s, t := tree(), tree()
		// lists of them, now and then long ones
		n := 1 + r.Intn(4)
		if chance(r, 1, 4) {
			n = 1 + r.Intn(24)
		}
		xs, ss, ns := [][]*big.Int{x}, []*utils.AvlTree{s}, []*big.Int{a}
		rows := [][]*big.Int{x}
		for len(xs) < n {
			xs, ss, ns = append(xs, poly()), append(ss, tree()), append(ns, num())
			rows = append(rows, m.sharing(r, len(x)))
		}
		if r.Intn(2) == 0 {
			xs[n-1], ss[n-1] = x, s
		}
		op := pick(r, "field", "field", "poly", "poly", "poly", "sparse", "sparse", "sparse", "tree", "tree", "matrix")
		kinds[op] = true
		switch op {
		case "field":
			ops := []struct {
				n string
				f func() *big.Int
			}{
				{"Add", func() *big.Int { return fq.Add(a, b) }}, {"Sub", func() *big.Int { return fq.Sub(a, b) }},
				{"Mul", func() *big.Int { return fq.Mul(a, b) }}, {"Neg", func() *big.Int { return fq.Neg(a) }},
				{"Double", func() *big.Int { return fq.Double(a) }}, {"Square", func() *big.Int { return fq.Square(a) }},
				{"Inverse", func() *big.Int { return fq.Inverse(a) }}, {"Div", func() *big.Int { return fq.Div(a, b) }},
				{"Exp", func() *big.Int { return fq.Exp(a, b) }}, {"ExpInt", func() *big.Int { return fq.ExpInt(a, uint(r.Intn(50))) }},
				{"MulScalar", func() *big.Int { return fq.MulScalar(a, b) }}, {"Copy", func() *big.Int { return fq.Copy(a) }},
				{"Affine", func() *big.Int { return fq.Affine(a) }}, {"IsZero", func() *big.Int { fq.IsZero(a); return nil }},
				{"Equal", func() *big.Int { fq.Equal(a, b); return nil }}, {"EvalPoly", func() *big.Int { return fq.EvalPoly(x, a) }},
				{"ScalarProduct", func() *big.Int { return fq.ScalarProduct(x, m.sharing(r, len(x))) }},
				{"Zero", func() *big.Int { return fq.Zero() }}, {"One", func() *big.Int { return fq.One() }},
				{"BigIsOdd", func() *big.Int { utils.BigIsOdd(a); return nil }},
				{"EvalSparsePoly", func() *big.Int { return fq.EvalSparsePoly(s, a) }},
				{"SparseScalarProduct", func() *big.Int { return fq.SparseScalarProduct(s, m.sharing(r, 1+int(s.MaxPower()))) }},
			}
			o := ops[r.Intn(len(ops))]
			var res *big.Int
			if m.call(id+" "+o.n, nil, func() { res = o.f() }) {
				m.addNum(res, id+" "+o.n)
			}
		case "poly":
			ops := []struct {
				n string
				f func() []*big.Int
			}{
				{"Add", func() []*big.Int { return pf.Add(x, y) }}, {"Sub", func() []*big.Int { return pf.Sub(x, y) }},
				{"Mul", func() []*big.Int { return pf.Mul(x, y) }}, {"MulSimple", func() []*big.Int { return pf.MulSimple(x, y) }},
				{"MulScalar", func() []*big.Int { return pf.MulScalar(x, a) }},
				{"Div quotient", func() []*big.Int { v, _ := pf.Div(x, y); return v }},
				{"Div remainder", func() []*big.Int { _, v := pf.Div(x, y); return v }},
				{"LagrangeInterpolation", func() []*big.Int { return pf.LagrangeInterpolation(x) }},
				{"LagrangeInterpolation of the same length", func() []*big.Int { return pf.LagrangeInterpolation(m.sharing(r, len(x))) }},
				{"DomainPolynomial", func() []*big.Int { return pf.DomainPolynomial(len(x)) }},
				{"NewPolZeroAt", func() []*big.Int { return pf.NewPolZeroAt(r.Intn(len(x)), len(x), a) }},
				{"AddPolynomials", func() []*big.Int { return pf.AddPolynomials(xs) }},
				{"LinearCombine", func() []*big.Int { return pf.LinearCombine(xs, ns)[r.Intn(len(xs))] }},
				{"Transpose", func() []*big.Int { return utils.Transpose(rows)[r.Intn(len(x))] }},
				{"ArrayOfBigZeros", func() []*big.Int { return utils.ArrayOfBigZeros(1 + r.Intn(5)) }},
				{"BigArraysEqual", func() []*big.Int { utils.BigArraysEqual(x, y); return nil }},
				{"IsZeroArray", func() []*big.Int { utils.IsZeroArray(x); return nil }},
				{"ToArray", func() []*big.Int { return s.ToArray(int(s.MaxPower()) + 1) }},
			}
			o := ops[r.Intn(len(ops))]
			var res []*big.Int
			if m.call(id+" polynomial "+o.n, nil, func() { res = o.f() }) {
				m.addPoly(res, id+" polynomial "+o.n)
			}
		case "sparse":
			ops := []struct {
				n string
				f func() *utils.AvlTree
			}{
				{"AddToSparse", func() *utils.AvlTree { return fq.AddToSparse(s, t) }},
				{"SubToSparse", func() *utils.AvlTree { return fq.SubToSparse(s, t) }},
				{"MulSparse", func() *utils.AvlTree { return fq.MulSparse(s, t) }},
				{"MulSparseScalar", func() *utils.AvlTree { return fq.MulSparseScalar(s, a) }},
				{"DivideSparse quotient", func() *utils.AvlTree { v, _ := fq.DivideSparse(s, t); return v }},
				{"DivideSparse remainder", func() *utils.AvlTree { _, v := fq.DivideSparse(s, t); return v }},
				{"InterpolateSparseArray", func() *utils.AvlTree { return fq.InterpolateSparseArray(s, int(s.MaxPower())+1+r.Intn(3)) }},
				{"AddPolynomials", func() *utils.AvlTree { return fq.AddPolynomials(ss) }},
				{"LinearCombine", func() *utils.AvlTree { return fq.LinearCombine(ss, ns)[r.Intn(len(ss))] }},
				{"Clone", func() *utils.AvlTree { return s.Clone() }},
				{"NewSparseArrayFromArray", func() *utils.AvlTree { return utils.NewSparseArrayFromArray(x) }},
				{"NewSparseArrayWith", func() *utils.AvlTree { return utils.NewSparseArrayWith(uint(r.Intn(9)), a) }},
				{"reading", func() *utils.AvlTree {
					for range s.ChannelNodes(chance(r, 1, 2)) {
					}
					s.DecendingNodes()
					s.Has(uint(r.Intn(12)))
					s.Get(uint(r.Intn(12)))
					s.MaxNode()
					s.MaxPower()
					s.Size()
					_ = s.String()
					return nil
				}},
			}
			o := ops[r.Intn(len(ops))]
			var res *utils.AvlTree
			if m.call(id+" sparse "+o.n, nil, func() { res = o.f() }) {
				m.addTree(res, id+" sparse "+o.n)
			}
		case "tree":
			// the tree itself is the designated result; others, also those that share values or were cloned from it, are not
			i := ti()
			t, w := m.trees[i], m.tw[i]
			key := uint(r.Intn(14))
			switch r.Intn(5) {
			case 0:
				m.call(fmt.Sprintf("%s Insert %d into %s", id, key, w.name), w, func() { t.Insert(key, a) })
			case 1:
				m.call(fmt.Sprintf("%s Put %d into %s", id, key, w.name), w, func() { t.Put(key, a, fq.Add) })
			case 2:
				m.call(fmt.Sprintf("%s Remove %d from %s", id, key, w.name), w, func() {
					if t.Has(key) {
						t.Remove(key)
					}
				})
			case 3:
				v := m.sharing(r, 1+int(t.MaxPower()))
				m.call(fmt.Sprintf("%s Combine %s", id, w.name), w, func() { fq.Combine(t, v) })
			case 4:
				m.call(fmt.Sprintf("%s InsertNoOverwriteAllowed %d into %s", id, key, w.name), w, func() {
					if !t.Has(key) {
						t.InsertNoOverwriteAllowed(key, a)
					}
				})
			}
		case "matrix":
			mt := ss
			wit := 1
			for _, t := range ss {
				wit = max(wit, int(t.MaxPower())+1)
			}
			var res []*utils.AvlTree
			if m.call(id+" TransposeSparse", nil, func() { res = utils.TransposeSparse(mt, wit) }) && len(res) > 0 {
				m.addTree(res[r.Intn(len(res))], id+" TransposeSparse")
			}
		}
	}
	if c.failed() {
		return
	}
	c.Sample(map[string]interface{}{"kind": "field, polynomials, trees", "field": snapBig(q), "calls": m.calls})
	c.Distinct("math", strings.Join(m.calls, ","))
}

// ---- groups

func groupArguments(c *Ctx) {
	r := c.R
	g := &guard{c: c}
	var ks []*big.Int
	for i := 0; i < 4; i++ {
		k := drawScalar(r)
		ks = append(ks, k)
		g.watch(fmt.Sprintf("scalar %d", i), func() string { return snapBig(k) })
	}
	g.watch("the group order", func() string { return snapBig(bn256.Order) })
	g.watch("the field prime", func() string { return snapBig(bn256.P) })
	var a []*bn256.G1
	var b []*bn256.G2
	var t []*bn256.GT
	var aw, bw, tw []*watched
	add1 := func(e *bn256.G1, n string) {
		a = append(a, e)
		aw = append(aw, g.watch(n, func() string { return hex.EncodeToString(e.Marshal()) }))
	}
	add2 := func(e *bn256.G2, n string) {
		b = append(b, e)
		bw = append(bw, g.watch(n, func() string { return hex.EncodeToString(e.Marshal()) }))
	}
	addT := func(e *bn256.GT, n string) {
		t = append(t, e)
		tw = append(tw, g.watch(n, func() string { return hex.EncodeToString(e.Marshal()) }))
	}
	for i := 0; i < 3; i++ {
		add1(drawElem(c, 1).a, fmt.Sprintf("A%d", i))
		add2(drawElem(c, 2).b, fmt.Sprintf("B%d", i))
	}
	add1(new(bn256.G1).ScalarBaseMult(bi(0)), "neutral A")
	add2(new(bn256.G2).ScalarBaseMult(bi(0)), "neutral B")
	addT(bn256.OneGT(), "one of the target group")
	addT(bn256.Pair(a[0], b[0]), "T0")
	gens := func() string {
		return hex.EncodeToString(new(bn256.G1).ScalarBaseMult(one).Marshal()) + hex.EncodeToString(new(bn256.G2).ScalarBaseMult(one).Marshal())
	}
	g.watch("the generators", gens)
	g.watch("fresh OneGT and ZeroGT", func() string {
		return hex.EncodeToString(bn256.OneGT().Marshal()) + hex.EncodeToString(bn256.ZeroGT().Marshal())
	})
	n1, n2, nt := len(a), len(b), len(t)
	for k := 0; k < 14+r.Intn(14) && !c.failed(); k++ {
		i1, j1, d1 := r.Intn(len(a)), r.Intn(len(a)), r.Intn(len(a))
		i2, j2, d2 := r.Intn(len(b)), r.Intn(len(b)), r.Intn(len(b))
		it, jt, dt := r.Intn(len(t)), r.Intn(len(t)), r.Intn(len(t))
		s := ks[r.Intn(len(ks))]
		into := chance(r, 1, 2) // the result replaces an element of the pool
		id := fmt.Sprintf("#%d", k)
		switch r.Intn(13) {
		case 0, 1:
			if into {
				g.call(fmt.Sprintf("%s %s = %s + %s", id, aw[d1].name, aw[i1].name, aw[j1].name), aw[d1], func() { a[d1].Add(a[i1], a[j1]) })
			} else if len(a) < n1+4 {
				g.call(fmt.Sprintf("%s %s + %s", id, aw[i1].name, aw[j1].name), nil, func() { add1(new(bn256.G1).Add(a[i1], a[j1]), id) })
			}
		case 2:
			if into {
				g.call(fmt.Sprintf("%s %s = %v*%s", id, aw[d1].name, s, aw[i1].name), aw[d1], func() { a[d1].ScalarMult(a[i1], s) })
			} else if len(a) < n1+4 {
				g.call(fmt.Sprintf("%s %v*%s", id, s, aw[i1].name), nil, func() { add1(new(bn256.G1).ScalarMult(a[i1], s), id) })
			}
		case 3:
			if into {
				g.call(fmt.Sprintf("%s %s = -%s", id, aw[d1].name, aw[i1].name), aw[d1], func() { a[d1].Neg(a[i1]) })
			} else if len(a) < n1+4 {
				g.call(fmt.Sprintf("%s -%s", id, aw[i1].name), nil, func() { add1(new(bn256.G1).Neg(a[i1]), id) })
			}
		case 4:
			if chance(r, 1, 2) {
				g.call(fmt.Sprintf("%s %s = %v*G1", id, aw[d1].name, s), aw[d1], func() { a[d1].ScalarBaseMult(s) })
			} else {
				g.call(fmt.Sprintf("%s %s = %v*G2", id, bw[d2].name, s), bw[d2], func() { b[d2].ScalarBaseMult(s) })
			}
		case 5, 6:
			if into {
				g.call(fmt.Sprintf("%s %s = %s + %s", id, bw[d2].name, bw[i2].name, bw[j2].name), bw[d2], func() { b[d2].Add(b[i2], b[j2]) })
			} else if len(b) < n2+4 {
				g.call(fmt.Sprintf("%s %s + %s", id, bw[i2].name, bw[j2].name), nil, func() { add2(new(bn256.G2).Add(b[i2], b[j2]), id) })
			}
		case 7:
			if into {
				g.call(fmt.Sprintf("%s %s = %v*%s", id, bw[d2].name, s, bw[i2].name), bw[d2], func() { b[d2].ScalarMult(b[i2], s) })
			} else if len(b) < n2+4 {
				g.call(fmt.Sprintf("%s %v*%s", id, s, bw[i2].name), nil, func() { add2(new(bn256.G2).ScalarMult(b[i2], s), id) })
			}
		case 8:
			if len(t) < nt+3 {
				g.call(fmt.Sprintf("%s pair %s %s", id, aw[i1].name, bw[i2].name), nil, func() { addT(bn256.Pair(a[i1], b[i2]), id) })
			}
		case 9:
			g.call(fmt.Sprintf("%s PairingCheck", id), nil, func() { bn256.PairingCheck([]*bn256.G1{a[i1], a[j1]}, []*bn256.G2{b[i2], b[j2]}) })
		case 10:
			if into {
				g.call(fmt.Sprintf("%s %s = %s * %s", id, tw[dt].name, tw[it].name, tw[jt].name), tw[dt], func() { t[dt].Add(t[it], t[jt]) })
			} else if len(t) < nt+3 {
				g.call(fmt.Sprintf("%s %s * %s", id, tw[it].name, tw[jt].name), nil, func() { addT(new(bn256.GT).Add(t[it], t[jt]), id) })
			}
		case 11:
			if into {
				g.call(fmt.Sprintf("%s %s = %s inverted", id, tw[dt].name, tw[it].name), tw[dt], func() { t[dt].Neg(t[it]) })
			} else if len(t) < nt+3 {
				g.call(fmt.Sprintf("%s %s^%v", id, tw[it].name, s), nil, func() { addT(new(bn256.GT).ScalarMult(t[it], s), id) })
			}
		case 12:
			g.call(id+" reading", nil, func() {
				_ = a[i1].String() + b[i2].String() + t[it].String()
				a[i1].X()
				a[i1].CurvePoints()
				b[i2].CurvePoints()
				// the bytes that are decoded
				e1, e2, et := a[i1].Marshal(), b[i2].Marshal(), t[it].Marshal()
				f1, f2, ft := append([]byte{}, e1...), append([]byte{}, e2...), append([]byte{}, et...)
				new(bn256.G1).Unmarshal(e1)
				new(bn256.G2).Unmarshal(e2)
				new(bn256.GT).Unmarshal(et)
				if string(e1) != string(f1) || string(e2) != string(f2) || string(et) != string(ft) {
					c.Fail("modified", "decoding changed the bytes")
				}
				// what is returned does not give access to the element
				for i := range e1 {
					e1[i] ^= 0x5a
				}
				for i := range e2 {
					e2[i] ^= 0x5a
				}
			})
		}
	}
	if c.failed() {
		return
	}
	c.Sample(map[string]interface{}{"kind": "groups", "calls": g.calls})
	c.Distinct("group", strings.Join(g.calls, ","))
}

// ---- circuits

func snapDense(r *circuitcompiler.ER1CS) string { return snapAny(r) }

func circuitArguments(c *Ctx) {
	r := c.R
	p := drawProgram(r, richConf(r), 60)
	src := p.source()
	var plain []string
	for _, a := range p.args {
		if len(a.dims) == 0 {
			plain = append(plain, a.name)
		}
	}
	if first, err := compile(src); err == nil && chance(r, 1, 3) && len(plain) > 0 && first.sys.gates < first.sys.wit {
		// as many constraints as the witness has entries
		var add []*stmt
		for k := first.sys.gates; k < first.sys.wit; k++ {
			x := eBin("*", eNum(int64(k+2)), eVar(pick(r, plain...)))
			add = append(add, sEqual(x, x))
		}
		p.body = append(add, p.body...)
		src = p.source()
		if second, err := compile(src); err == nil && second.sys.gates == second.sys.wit {
			c.Count("square systems", 1)
		}
	}
	c.Note("%s", src)
	in := p.inputs(r)
	_, res := p.solveOuts(in, stepLimit)
	comp := mustCompile(c, src, res.div0)
	if comp == nil || res.abort != "" {
		return
	}
	g := &guard{c: c}
	names := append([]string{}, comp.inputs...)
	vec := vector(names, in)
	bad := append([]*big.Int{}, vec...)
	if len(bad) > 0 {
		bad[r.Intn(len(bad))] = anyRep(r, N)
	}
	g.watch("the dense system", func() string { return snapAny(comp.dense) })
	g.watch("the sparse system", func() string { return snapAny(comp.sparse) })
	g.watch("the argument names", func() string { return fmt.Sprint(names, comp.prog.GetMainCircuit().Inputs) })
	g.watch("the public declaration", func() string { return fmt.Sprint(comp.prog.PublicInputs, comp.prog.GlobalInputCount()) })
	g.watch("the inputs", func() string { return snapVec(vec) })
	g.watch("the other inputs", func() string { return snapVec(bad) })
	args := circuitcompiler.CombineInputs(names, vec)
	badArgs := circuitcompiler.CombineInputs(names, bad)
	g.watch("the combined inputs", func() string { return snapAny(args) + snapAny(badArgs) })
	// gates nobody has emitted yet
	gates := comp.gates
	if chance(r, 1, 2) {
		gates = comp.prog.Execute()
	}
	g.watch("the gates", func() string { return snapAny(gates) })
	// emitting does not consume the gates: every further emission gives the same system
	wantD, wantS := snapAny(comp.dense), snapAny(comp.sparse)
	var tr *circuitcompiler.ER1CSTransposed
	var ts *circuitcompiler.ER1CSsPARSETransposed
	var wits int
	poly := false
	for k := 0; k < 8+r.Intn(8) && !c.failed(); k++ {
		switch r.Intn(8) {
		case 0:
			var d *circuitcompiler.ER1CS
			g.call("GatesToR1CS", nil, func() { d = comp.prog.GatesToR1CS(gates, false) })
			if !c.failed() && snapAny(d) != wantD {
				c.Fail("emission", "emitting the dense system again gives another one, after %v", g.calls)
			}
		case 1:
			var d *circuitcompiler.ER1CSSparse
			g.call("GatesToSparseR1CS", nil, func() { d = comp.prog.GatesToSparseR1CS(gates, false) })
			if !c.failed() && snapAny(d) != wantS {
				c.Fail("emission", "emitting the sparse system again gives another one, after %v", g.calls)
			}
		case 2:
			g.call("randomised emission", nil, func() {
				comp.prog.GatesToR1CS(gates, true)
				comp.prog.GatesToSparseR1CS(gates, true)
			})
		case 3:
			v, n := args, "CalculateWitness"
			if chance(r, 1, 2) {
				v, n = badArgs, "CalculateWitness of arbitrary inputs"
			}
			var w []*big.Int
			g.call(n, nil, func() { w, _ = circuitcompiler.CalculateWitness(comp.dense, v) })
			if w != nil && wits < 4 {
				wits++
				g.watch(fmt.Sprintf("witness %d", wits), func() string { return snapVec(w) })
			}
		case 4:
			v, n := args, "CalculateSparseWitness"
			if chance(r, 1, 2) {
				v, n = badArgs, "CalculateSparseWitness of arbitrary inputs"
			}
			var w []*big.Int
			g.call(n, nil, func() { w, _ = circuitcompiler.CalculateSparseWitness(comp.sparse, v) })
			if w != nil && wits < 4 {
				wits++
				g.watch(fmt.Sprintf("witness %d", wits), func() string { return snapVec(w) })
			}
		case 5:
			first := tr == nil
			g.call("transposition", nil, func() { tr, ts = comp.dense.Transpose(), comp.sparse.TransposeSparse() })
			if first && tr != nil && ts != nil {
				a, b := tr, ts
				g.watch("the transposed dense system", func() string { return snapAny(a) })
				g.watch("the transposed sparse system", func() string { return snapAny(b) })
			}
		case 6:
			if tr != nil && ts != nil && comp.sys.gates <= 25 && comp.sys.wit <= 40 && !poly {
				poly = true
				g.call("interpolation", nil, func() {
					tr.ER1CSToEAP()
					ts.ER1CSToEAPSparse()
				})
			}
		case 7:
			// another program, and the same one once more
			g.call("another compilation", nil, func() {
				if chance(r, 1, 2) {
					compile(src)
				} else {
					q := circuitcompiler.Parse("func main(x,y,out){\nequal(out,x*y)\n}\n", true)
					q.GatesToR1CS(q.Execute(), false)
				}
			})
		}
	}
	if c.failed() {
		return
	}
	c.Sample(map[string]interface{}{"kind": "circuit", "program": src, "calls": g.calls})
	c.Distinct("circuit", shapeOf(p), strings.Join(g.calls, ","))
}

// ---- proofs

func proofArguments(c *Ctx) {
	r := c.R
	in := drawInstance(c, 5, 9, 2)
	if in == nil {
		return
	}
	in.note(c)
	g := &guard{c: c}
	w := in.wits[0]
	bad, _ := in.corrupt(r, w)
	sig := cloneVec(w[:in.pubN])
	g.watch("the transposed dense system", func() string { return snapAny(in.tr) })
	g.watch("the transposed sparse system", func() string { return snapAny(in.ts) })
	g.watch("the witness", func() string { return snapVec(w) })
	g.watch("the corrupt witness", func() string { return snapVec(bad) })
	g.watch("the public signals", func() string { return snapVec(sig) })
	var keys []*zkSNARK.Setup
	for k := 0; k < 2 && !c.failed(); k++ {
		sparse := (k == 0) == chance(r, 1, 2)
		var s *zkSNARK.Setup
		g.call(pipeName(sparse)+" setup", nil, func() { s = in.setup(sparse) })
		if s == nil {
			if !c.failed() {
				c.Fail("setup", "the setup failed")
			}
			return
		}
		keys = append(keys, s)
		g.watch(fmt.Sprintf("key %d", k), func() string { return snapAny(&s.Pk) })
	}
	var px []*big.Int
	var ps *utils.AvlTree
	var proofs []*zkSNARK.Proof
	g.call("CombinePolynomials2", nil, func() { px = zkSNARK.CombinePolynomials2(w, in.tr) })
	g.call("CombineSparsePolynomials", nil, func() { ps = zkSNARK.CombineSparsePolynomials(w, in.ts) })
	if c.failed() {
		return
	}
	g.watch("the combined polynomial", func() string { return snapVec(px) })
	g.watch("the sparse combined polynomial", func() string { return snapTree(ps) })
	for k := 0; k < 6 && !c.failed(); k++ {
		s := keys[r.Intn(len(keys))]
		switch v := r.Intn(7); v {
		case 0, 1:
			var p *zkSNARK.Proof
			g.call("GenerateProofs", nil, func() { p, _ = zkSNARK.GenerateProofs(in.pubN, &s.Pk, w, px) })
			if p != nil {
				proofs = append(proofs, p)
				g.watch(fmt.Sprintf("proof %d", len(proofs)), func() string { return snapAny(p) })
			}
		case 2, 3:
			var p *zkSNARK.Proof
			g.call("GenerateProof_Sparse", nil, func() { p, _ = zkSNARK.GenerateProof_Sparse(in.pubN, &s.Pk, w, ps) })
			if p != nil {
				proofs = append(proofs, p)
				g.watch(fmt.Sprintf("proof %d", len(proofs)), func() string { return snapAny(p) })
			}
		case 4:
			g.call("a refused proof", nil, func() {
				zkSNARK.GenerateProofs(in.pubN, &s.Pk, bad, zkSNARK.CombinePolynomials2(bad, in.tr))
			})
		case 5:
			if len(proofs) > 0 {
				p := proofs[r.Intn(len(proofs))]
				g.call("VerifyProof", nil, func() { zkSNARK.VerifyProof(&s.Pk, p, sig, chance(r, 1, 2)) })
			}
		case 6:
			if len(proofs) > 0 {
				p := proofs[r.Intn(len(proofs))]
				o := cloneVec(sig)
				o[len(o)-1].Add(o[len(o)-1], one)
				g.call("VerifyProof of another statement", nil, func() { zkSNARK.VerifyProof(&s.Pk, p, o, false) })
			}
		}
	}
	// the work with the keys did not wear them out
	if !c.failed() {
		for _, s := range keys {
			if in.honest(c, s, false, chance(r, 1, 2), w) == nil {
				return
			}
		}
	}
	if c.failed() {
		return
	}
	c.Sample(map[string]interface{}{"kind": "proofs", "instance": in.describe(), "calls": g.calls})
	c.Distinct("proof", in.name, fmt.Sprint(w), strings.Join(g.calls, ","))
}

func init() {
	register(&Prop{ID: "C25", Quick: 4000, Thorough: 150000, Run: runC25,
		Rule: "a case is a history of calls over a pool of values that alias each other (numbers shared between vectors, vectors that are parts of others, cloned trees, reused group elements, emitted systems, keys, proofs); the content of every value of the pool is compared after every call, except for the designated result of the call; non-trivial: a completed history, distinct by its calls",
		Need: []string{"calls watched", "values compared after a call"}})
}
