package main

import (
	"fmt"
	"math/big"
	"math/rand"
	"regexp"
	"sort"
	"strings"

	"github.com/mottla/go-AlgebraicProgram-SNARK/utils"
)

// Monitors of the arithmetic: C14 - C16.

var primes = []*big.Int{N, P, bi(2), bi(3), bi(5), bi(7), bi(13), bi(101), bi(601), bi(65537), dec("2305843009213693951"), dec("18446744073709551557"),
	dec("170141183460469231731687303715884105727"), new(big.Int).Sub(new(big.Int).Lsh(one, 255), bi(19)), new(big.Int).Sub(new(big.Int).Lsh(one, 521), one)}

// fields are kept by the process, so that every case meets the history of its predecessors
var fieldsOf = map[string]utils.Fields{}

func fieldFor(q *big.Int) utils.Fields {
	k := q.String()
	f, ok := fieldsOf[k]
	if !ok {
		if q.Cmp(N) == 0 {
			f = utils.Field
		} else {
			f = utils.PrepareFields(cp(q))
		}
		fieldsOf[k] = f
	}
	return f
}

func drawPrime(r *rand.Rand) *big.Int {
	if chance(r, 1, 2) {
		return N
	}
	return primes[r.Intn(len(primes))]
}

// anyRep returns an integer that represents a field element, not necessarily the canonical one
func anyRep(r *rand.Rand, q *big.Int) *big.Int {
	v := fieldElem(r, q)
	switch r.Intn(6) {
	case 0:
		v.Sub(v, q)
	case 1:
		v.Add(v, q)
	case 2:
		v.Add(v, new(big.Int).Mul(q, bi(int64(r.Intn(1000)-500))))
	case 3:
		if chance(r, 1, 3) {
			v.Mul(v, q)
			v.Add(v, bi(int64(r.Intn(3))))
		}
	}
	return v
}

func isCanonical(v, q *big.Int) bool { return v != nil && v.Sign() >= 0 && v.Cmp(q) < 0 }

var decimal = regexp.MustCompile(`^[+-]?[0-9]+$`)

func runC14(c *Ctx) {
	r := c.R
	q := drawPrime(r)
	f := fieldFor(q).ArithmeticField
	a, b := anyRep(r, q), anyRep(r, q)
	if chance(r, 1, 8) {
		b = cp(a)
	}
	// the same object on both sides
	bb := b
	if chance(r, 1, 8) {
		b, bb = a, a
	}
	c.Note("modulus %v a=%v b=%v", q, a, b)
	c.Sample(map[string]string{"modulus": q.String(), "a": a.String(), "b": b.String()})
	ca, cb := mod(a, q), mod(b, q)
	check := func(name string, got, want *big.Int) {
		c.Count("results compared", 1)
		if got == nil || got.Cmp(want) != 0 {
			c.Fail(name, "%s(%v, %v) mod %v is %v, expected %v", name, a, b, q, got, want)
		}
	}
	check("Add", f.Add(a, bb), madd(ca, cb, q))
	check("Sub", f.Sub(a, bb), msub(ca, cb, q))
	check("Mul", f.Mul(a, bb), mmul(ca, cb, q))
	check("MulScalar", f.MulScalar(a, bb), mmul(ca, cb, q))
	check("Neg", f.Neg(a), mod(new(big.Int).Neg(ca), q))
	check("Double", f.Double(a), madd(ca, ca, q))
	check("Square", f.Square(a), mmul(ca, ca, q))
	check("Copy", f.Copy(a), ca)
	check("Affine", f.Affine(a), ca)
	check("Zero", f.Zero(), bi(0))
	check("One", f.One(), bi(1))
	if cb.Sign() != 0 {
		check("Inverse", f.Inverse(bb), minv(cb, q))
		check("Div", f.Div(a, bb), mmul(ca, minv(cb, q), q))
	} else {
		// zero has no inverse, all of its representatives are treated as zero itself
		if caught := try(func() {
			check("Inverse of zero", f.Inverse(bb), f.Inverse(bi(0)))
			check("Div by zero", f.Div(a, bb), f.Div(a, bi(0)))
		}); caught != nil {
			c.Fail("Inverse of zero", "inverting %v mod %v fails with %v, inverting 0 does not", bb, q, caught)
		}
		c.Count("inverses of multiples of the modulus", 1)
	}
	e := pickBig(r, bi(0), bi(1), bi(2), bi(int64(r.Intn(1000))), cb, new(big.Int).Add(q, bi(int64(r.Intn(5)))), new(big.Int).Sub(q, one), new(big.Int).Sub(q, two), q, new(big.Int).Lsh(one, uint(r.Intn(300))), new(big.Int).Rand(r, new(big.Int).Lsh(one, 400)))
	c.Note("exponent %v", e)
	check("Exp", f.Exp(a, e), new(big.Int).Mod(new(big.Int).Exp(ca, e, q), q))
	if ca.Sign() != 0 {
		check("Exp of a negative exponent", f.Exp(a, new(big.Int).Neg(e)), new(big.Int).Mod(new(big.Int).Exp(minv(ca, q), e, q), q))
	}
	ei := uint(r.Uint64() >> uint(r.Intn(64)))
	if chance(r, 1, 4) {
		ei = uint(1)<<uint(r.Intn(64)) - uint(r.Intn(2))
	}
	check("ExpInt", f.ExpInt(a, ei), new(big.Int).Mod(new(big.Int).Exp(ca, new(big.Int).SetUint64(uint64(ei)), q), q))
	if f.Equal(a, b) != (ca.Cmp(cb) == 0) {
		c.Fail("Equal", "Equal(%v,%v) mod %v is %v", a, b, q, f.Equal(a, b))
	}
	alt := new(big.Int).Add(a, new(big.Int).Mul(q, bi(int64(r.Intn(9)-4))))
	if !f.Equal(a, alt) || !f.Equal(alt, a) {
		c.Fail("Equal", "Equal(%v,%v) mod %v is false", a, alt, q)
	}
	if z := pickBig(r, a, b, bi(0), q, new(big.Int).Mul(q, bi(-3)), one); f.IsZero(z) != (mod(z, q).Sign() == 0) {
		c.Fail("IsZero", "IsZero(%v) mod %v is %v", z, q, f.IsZero(z))
	}
	// vectors
	n := r.Intn(9)
	l, m := make([]*big.Int, n), make([]*big.Int, n)
	want := bi(0)
	for i := range l {
		l[i], m[i] = anyRep(r, q), anyRep(r, q)
		want = madd(want, mmul(mod(l[i], q), mod(m[i], q), q), q)
	}
	c.Note("vectors %v %v", l, m)
	check("ScalarProduct", f.ScalarProduct(l, m), want)
	if n > 0 {
		check("EvalPoly", f.EvalPoly(l, a), polyEval(reduceVec(l, q), ca, q))
	}
	if caught := try(func() { f.ScalarProduct(l, append(m[:n:n], bi(1))) }); caught == nil {
		c.Fail("ScalarProduct", "vectors of different lengths are multiplied")
	}
	// random elements
	if chance(r, 1, 4) {
		seen := map[string]bool{}
		for k := 0; k < 20; k++ {
			v, err := f.Rand()
			if err != nil || !isCanonical(v, q) {
				c.Fail("Rand", "drawn %v %v for modulus %v", v, err, q)
				break
			}
			if q.BitLen() > 100 && seen[v.String()] {
				c.Fail("Rand", "drawn %v twice", v)
			}
			seen[v.String()] = true
			c.Count("random elements", 1)
		}
	}
	// strings
	for k := 0; k < 4; k++ {
		s := ""
		switch r.Intn(5) {
		case 0:
			s = a.String()
		case 1:
			s = pick(r, "", "-", "+", "--1", "+-1", "1.5", "1e5", "0x12", "abc", "12a", " 5", "5 ", "1_000", "_1", "0b1", "0o7", "٣", "1,000", "\n", "NaN", "Inf", "5\x00")
		case 2:
			s = strings.Repeat("0", r.Intn(5)) + new(big.Int).Abs(b).String()
		case 3:
			s = pick(r, "+", "-", "") + new(big.Int).Rand(r, new(big.Int).Lsh(one, 600)).String()
		case 4:
			d := []byte(a.String())
			d[r.Intn(len(d))] = byte(32 + r.Intn(95))
			s = string(d)
		}
		v, ok := f.StringToFieldElement(s)
		if ok != decimal.MatchString(s) {
			c.Fail("string", "StringToFieldElement(%q) reports %v", s, ok)
		} else if ok {
			w, _ := new(big.Int).SetString(s, 10)
			check("StringToFieldElement "+s, v, mod(w, q))
		} else {
			c.Count("malformed strings", 1)
		}
	}
	c.Distinct(q, a, b)
}

// ---- C15

func drawPoly(r *rand.Rand, q *big.Int, maxLen int, canonical bool) []*big.Int {
	n := 1 + r.Intn(maxLen)
	if chance(r, 1, 6) {
		n = 1
	}
	p := make([]*big.Int, n)
	den := 1 + r.Intn(4)
	for i := range p {
		p[i] = bi(0)
		if r.Intn(4) < den {
			if canonical || chance(r, 2, 3) {
				p[i] = fieldElem(r, q)
			} else {
				p[i] = anyRep(r, q)
			}
		}
	}
	if chance(r, 1, 6) {
		for i := n - 1; i >= 0 && i > n-1-1-r.Intn(3); i-- {
			p[i] = bi(0)
		}
	}
	return p
}

// polyLen draws the bound of the length of a polynomial, mostly small
func polyLen(r *rand.Rand) int {
	switch {
	case chance(r, 1, 60):
		return 150
	case chance(r, 1, 10):
		return 45
	}
	return 12
}

// pointCount draws a number of points, mostly small
func pointCount(r *rand.Rand) int {
	switch {
	case chance(r, 1, 60):
		return 60 + r.Intn(40)
	case chance(r, 1, 10):
		return 15 + r.Intn(45)
	}
	return 1 + r.Intn(14)
}

func bigPrime(r *rand.Rand) *big.Int {
	for {
		if q := drawPrime(r); q.BitLen() > 6 {
			return q
		}
	}
}

func runC15(c *Ctx) {
	r := c.R
	q := bigPrime(r)
	fl := fieldFor(q)
	pf := fl.PolynomialField
	canonical := chance(r, 1, 2)
	la, lb := polyLen(r), polyLen(r)
	a, b := drawPoly(r, q, la, canonical), drawPoly(r, q, lb, canonical)
	if chance(r, 1, 10) {
		b = a
	}
	// the zero polynomial without any coefficient, as a division by a constant leaves it
	if chance(r, 1, 20) {
		a = []*big.Int{}
	}
	if chance(r, 1, 20) {
		b = []*big.Int{}
	}
	c.Note("modulus %v\na=%v\nb=%v", q, a, b)
	c.Sample(map[string]string{"modulus": q.String(), "a": vecString(a), "b": vecString(b)})
	check := func(name string, got, want []*big.Int) bool {
		c.Count("polynomials compared", 1)
		for _, v := range got {
			if v == nil {
				c.Fail(name, "%s has a missing coefficient", name)
				return false
			}
		}
		if !vecEqual(reduceVec(got, q), reduceVec(want, q)) {
			c.Fail(name, "%s is %s, expected %s modulo %v", name, vecString(got), vecString(want), q)
			return false
		}
		return true
	}
	s := anyRep(r, q)
	check("Add", pf.Add(a, b), polyAdd(a, b, q))
	check("Sub", pf.Sub(a, b), polySub(a, b, q))
	check("Mul", pf.Mul(a, b), polyMul(a, b, q))
	check("MulScalar", pf.MulScalar(a, s), polyScale(a, s, q))
	// evaluation is a homomorphism, judged at a random point by the library's evaluation too
	x := anyRep(r, q)
	if got, want := fl.ArithmeticField.EvalPoly(pf.Mul(a, b), x), mmul(polyEval(reduceVec(a, q), mod(x, q), q), polyEval(reduceVec(b, q), mod(x, q), q), q); mod(got, q).Cmp(want) != 0 {
		c.Fail("evaluation", "the product evaluates to %v at %v, the factors to a product of %v", got, x, want)
	}
	// linear combinations
	k := 1 + r.Intn(5)
	var ps [][]*big.Int
	var w []*big.Int
	var want []*big.Int
	for i := 0; i < k; i++ {
		p := drawPoly(r, q, 8, canonical)
		v := anyRep(r, q)
		if chance(r, 1, 5) {
			v = bi(0)
		}
		ps, w = append(ps, p), append(w, v)
		want = polyAdd(want, polyScale(p, v, q), q)
	}
	lc := pf.LinearCombine(ps, w)
	if len(lc) != k {
		c.Fail("LinearCombine", "%d polynomials combined to %d", k, len(lc))
		return
	}
	for i := range lc {
		check("LinearCombine", lc[i], polyScale(ps[i], w[i], q))
	}
	check("AddPolynomials", pf.AddPolynomials(lc), want)
	// division
	if len(trim(reduceVec(b, q))) > 0 {
		dividends := [][]*big.Int{a, pf.Mul(a, b), polyAdd(polyMul(a, b, q), []*big.Int{one}, q), b}
		d := dividends[r.Intn(len(dividends))]
		quo, rem := pf.Div(d, b)
		wq, wr := polyDivMod(d, b, q)
		c.Note("dividend %v", d)
		if check("quotient", quo, wq) && check("remainder", rem, wr) {
			if len(trim(reduceVec(rem, q))) >= len(trim(reduceVec(b, q))) {
				c.Fail("remainder", "remainder %s of a division by %s", vecString(rem), vecString(b))
			}
			c.Count("divisions", 1)
			if len(trim(wr)) == 0 {
				c.Count("divisions without remainder", 1)
				if !utils.IsZeroArray(reduceVec(rem, q)) {
					c.Fail("IsZeroArray", "IsZeroArray(%s) is false", vecString(rem))
				}
			}
			// what the division returns serves the other operations
			check("quotient times divisor plus remainder", pf.Add(pf.Mul(quo, b), rem), d)
			check("product with the remainder", pf.Mul(rem, a), polyMul(wr, a, q))
			if got, want := fl.ArithmeticField.EvalPoly(rem, x), polyEval(reduceVec(wr, q), mod(x, q), q); mod(got, q).Cmp(want) != 0 {
				c.Fail("evaluation", "the remainder %s evaluates to %v at %v", vecString(rem), got, x)
			}
		}
	}
	// interpolation
	for i := 1 + r.Intn(3); i > 0; i-- {
		n := pointCount(r)
		if big.NewInt(int64(n)).Cmp(q) >= 0 {
			continue
		}
		if n > 20 {
			c.Count("interpolations of more than 20 points", 1)
		}
		ys := make([]*big.Int, n)
		den := r.Intn(4)
		for i := range ys {
			ys[i] = bi(0)
			if r.Intn(3) < den {
				ys[i] = fieldElem(r, q)
				if !canonical {
					ys[i] = anyRep(r, q)
				}
			}
		}
		if chance(r, 1, 4) {
			fewValues(r, ys)
		}
		c.Note("points %v", ys)
		p := pf.LagrangeInterpolation(ys)
		if !check("interpolation", p, interpolate(ys, q)) {
			return
		}
		if len(p) > n {
			c.Fail("interpolation", "a polynomial of %d coefficients through %d points", len(p), n)
		}
		c.Count("interpolations", 1)
		// the polynomial with a single value
		j := r.Intn(n)
		h := anyRep(r, q)
		one := make([]*big.Int, n)
		for i := range one {
			one[i] = bi(0)
		}
		one[j] = mod(h, q)
		check("single value", pf.NewPolZeroAt(j, n, h), interpolate(one, q))
		check("domain", pf.DomainPolynomial(n), domainPoly(n, q))
	}
	// matrices
	rw, cl := 1+r.Intn(5), 1+r.Intn(5)
	m := make([][]*big.Int, rw)
	for i := range m {
		m[i] = make([]*big.Int, cl)
		for j := range m[i] {
			m[i][j] = fieldElem(r, q)
		}
	}
	t := utils.Transpose(m)
	bad := len(t) != cl
	for j := 0; j < cl && !bad; j++ {
		bad = bad || len(t[j]) != rw
		for i := 0; i < rw && !bad; i++ {
			bad = bad || t[j][i].Cmp(m[i][j]) != 0
		}
	}
	if bad {
		c.Fail("Transpose", "transposed %v is %v", m, t)
	}
	if eq := utils.BigArraysEqual(a, b); eq != vecEqual2(a, b) || !utils.BigArraysEqual(a, cloneVec(a)) {
		c.Fail("BigArraysEqual", "BigArraysEqual(%v,%v) is %v", a, b, eq)
	}
	c.Distinct(q, vecString(a), vecString(b))
}

// fewValues replaces the entries of a vector by a few of them, most of them by the same one
func fewValues(r *rand.Rand, v []*big.Int) {
	if len(v) == 0 {
		return
	}
	p := []*big.Int{v[r.Intn(len(v))], v[r.Intn(len(v))]}
	most := r.Intn(len(v) + 1)
	for i := range v {
		if v[i] = p[0]; r.Intn(len(v)+1) < most {
			v[i] = p[1]
		}
	}
	if chance(r, 1, 2) {
		// all but one
		for i := range v {
			v[i] = p[0]
		}
		v[r.Intn(len(v))] = p[1]
	}
}

// ---- C16

type refMap map[uint]*big.Int

func (m refMap) keys() (out []uint) {
	for k := range m {
		out = append(out, k)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return
}

// checkTree compares everything the tree reveals with the map
func checkTree(c *Ctx, t *utils.AvlTree, m refMap, what string) bool {
	c.Count("trees compared", 1)
	ks := m.keys()
	bad := func(f string, a ...interface{}) bool {
		c.Fail(what, "%s", fmt.Sprintf(f, a...))
		return false
	}
	if t.Size() != len(m) {
		return bad("size %d, expected %d", t.Size(), len(m))
	}
	i := 0
	var wrong string
	for e := range t.ChannelNodes(true) {
		if wrong == "" && (i >= len(ks) || e.Key != ks[i] || e.Value == nil || e.Value.Cmp(m[e.Key]) != 0 || e.Value.Sign() == 0) {
			wrong = fmt.Sprintf("ascending entry %d is %d:%v", i, e.Key, e.Value)
		}
		i++
	}
	if wrong != "" || i != len(ks) {
		return bad("%s, %d entries, expected keys %v", wrong, i, clip(fmt.Sprint(ks), 300))
	}
	i = len(ks)
	for e := range t.ChannelNodes(false) {
		i--
		if wrong == "" && (i < 0 || e.Key != ks[i] || e.Value.Cmp(m[e.Key]) != 0) {
			wrong = fmt.Sprintf("descending entry %d is %d:%v", len(ks)-1-i, e.Key, e.Value)
		}
	}
	if wrong != "" || i != 0 {
		return bad("%s, %d missing", wrong, i)
	}
	dn := t.DecendingNodes()
	if len(dn) != len(ks) {
		return bad("%d descending nodes, expected %d", len(dn), len(ks))
	}
	for i, e := range dn {
		if k := ks[len(ks)-1-i]; e.Key != k || e.Value.Cmp(m[k]) != 0 {
			return bad("descending node %d is %d:%v, expected key %d", i, e.Key, e.Value, k)
		}
	}
	if len(ks) == 0 {
		if t.MaxNode().Key() != 0 || t.MaxNode().Value().Sign() != 0 || t.MinNode().Key() != 0 || t.MinNode().Value().Sign() != 0 {
			return bad("limits of an empty tree are not zero")
		}
		c.Count("empty trees", 1)
	}
	if len(ks) > 0 {
		hi, lo := ks[len(ks)-1], ks[0]
		if t.MaxPower() != hi || t.MaxNode().Key() != hi || t.MaxNode().Value().Cmp(m[hi]) != 0 {
			return bad("maximum %d %d, expected %d", t.MaxPower(), t.MaxNode().Key(), hi)
		}
		if t.MinNode().Key() != lo || t.MinNode().Value().Cmp(m[lo]) != 0 {
			return bad("minimum %d, expected %d", t.MinNode().Key(), lo)
		}
		if hi < 3000 {
			n := int(hi) + 1 + c.R.Intn(3)
			arr := t.ToArray(n)
			if len(arr) != n {
				return bad("array of %d, expected %d", len(arr), n)
			}
			for i, v := range arr {
				w, ok := m[uint(i)]
				if !ok {
					w = zero
				}
				if v == nil || v.Cmp(w) != 0 {
					return bad("array entry %d is %v, expected %v", i, v, w)
				}
			}
		}
	} else if t.MaxPower() != 0 {
		return bad("maximum of an empty tree %d", t.MaxPower())
	}
	return true
}

func drawKey(r *rand.Rand, mode int, step int) uint {
	switch mode {
	case 0:
		return uint(step)
	case 1:
		return uint(100000 - step)
	case 2:
		return uint(r.Intn(12))
	case 3:
		return uint(r.Intn(200))
	case 4:
		return uint(r.Uint64())
	case 5:
		if step%2 == 0 {
			return uint(step)
		}
		return ^uint(0) - uint(step)
	}
	return uint(r.Intn(1 << uint(1+r.Intn(30))))
}

func runC16(c *Ctx) {
	if chance(c.R, 1, 3) {
		treeHistory(c)
	} else {
		sparseOps(c)
	}
}

func treeHistory(c *Ctx) {
	r := c.R
	f := utils.Field.ArithmeticField
	t := utils.NewAvlTree()
	m := refMap{}
	mode := r.Intn(7)
	steps := 1 + r.Intn(120)
	if chance(r, 1, 20) {
		steps = 1000
	}
	var log []string
	put := func(k uint, v *big.Int) {
		if v.Sign() == 0 {
			delete(m, k)
		} else {
			m[k] = cp(v)
		}
	}
	old := func(k uint) *big.Int {
		if v, ok := m[k]; ok {
			return v
		}
		return bi(0)
	}
	for s := 0; s < steps && !c.failed(); s++ {
		k := drawKey(r, mode, s)
		if ks := m.keys(); len(ks) > 0 && len(ks) < 300 && chance(r, 1, 3) {
			k = ks[r.Intn(len(ks))]
		}
		v := fieldElem(r, N)
		if chance(r, 1, 6) {
			v = bi(0)
		}
		op := r.Intn(9)
		if len(log) < 400 {
			log = append(log, fmt.Sprintf("%s key %d value %v", []string{"insert", "insert", "insert", "insert new", "add", "cancel", "remove", "remove", "clone"}[op], k, v))
		}
		switch op {
		case 0, 1, 2:
			t.Insert(k, v)
			put(k, v)
		case 3:
			_, ex := m[k]
			caught := try(func() { t.InsertNoOverwriteAllowed(k, v) })
			if ex != (caught != nil) {
				c.Note("%s", strings.Join(log, "\n"))
				c.Fail("overwrite", "InsertNoOverwriteAllowed of key %d, which exists: %v, panics: %v", k, ex, caught)
				return
			}
			if !ex {
				put(k, v)
			}
		case 4:
			t.Put(k, v, f.Add)
			put(k, fadd(old(k), v))
		case 5:
			// cancels the entry
			x := fsub(zero, old(k))
			t.Put(k, x, f.Add)
			put(k, bi(0))
		case 6, 7:
			want, ex := m[k]
			got, err := t.Remove(k)
			if ex != (err == nil) || (ex && (got == nil || got.Cmp(want) != 0)) {
				c.Note("%s", strings.Join(log, "\n"))
				c.Fail("remove", "removing key %d: %v %v, expected %v", k, got, err, want)
				return
			}
			delete(m, k)
			c.Count("removals", 1)
		case 8:
			cl := t.Clone()
			if chance(r, 1, 2) {
				// go on with the copy, the original is changed and dropped
				t.Insert(k, bi(77))
				t.Remove(drawKey(r, mode, s/2))
				t = cl
			} else {
				cl.Insert(k, bi(77))
				cl.Remove(drawKey(r, mode, s/2))
			}
		}
		c.Count("tree operations", 1)
		want, ex := m[k]
		got, err := t.Get(k)
		if t.Has(k) != ex || (err == nil) != ex || (ex && got.Cmp(want) != 0) {
			c.Note("%s", strings.Join(log, "\n"))
			c.Fail("get", "key %d: has %v, get %v %v, expected %v %v", k, t.Has(k), got, err, want, ex)
			return
		}
		if s == steps-1 || chance(r, 1, 12) {
			if !checkTree(c, t, m, "history") {
				c.Note("%s", strings.Join(log, "\n"))
				return
			}
		}
	}
	c.Distinct("history", strings.Join(log, ","))
	c.Sample(map[string]interface{}{"tree operations": steps, "first": log[:min(len(log), 5)]})
}

func treeOf(p []*big.Int, r *rand.Rand) *utils.AvlTree {
	t := utils.NewAvlTree()
	for _, i := range r.Perm(len(p)) {
		if p[i].Sign() != 0 {
			t.Insert(uint(i), cp(p[i]))
		}
	}
	return t
}

func mapOf(p []*big.Int) refMap {
	m := refMap{}
	for i, v := range p {
		if v.Sign() != 0 {
			m[uint(i)] = v
		}
	}
	return m
}

func sparseOps(c *Ctx) {
	r := c.R
	q := bigPrime(r)
	fl := fieldFor(q)
	f := fl.ArithmeticField
	ln := 12
	if chance(r, 1, 8) {
		ln = 80
	}
	a, b := drawPoly(r, q, ln, true), drawPoly(r, q, polyLen(r), true)
	c.Note("modulus %v\na=%v\nb=%v", q, a, b)
	c.Sample(map[string]string{"modulus": q.String(), "a": vecString(a), "b": vecString(b)})
	ta, tb := treeOf(a, r), treeOf(b, r)
	if chance(r, 1, 2) {
		ta = utils.NewSparseArrayFromArray(cloneVec(a))
	}
	if chance(r, 1, 10) {
		b, tb = a, ta
	}
	check := func(name string, got *utils.AvlTree, want []*big.Int) bool {
		if got == nil {
			c.Fail(name, "%s gives nothing", name)
			return false
		}
		c.Count("sparse results", 1)
		if !checkTree(c, got, mapOf(want), name) {
			return false
		}
		if name == "from array" || name == "LinearCombine" || chance(r, 1, 2) {
			return true
		}
		// a result belongs to its receiver, who may change it
		c.Count("sparse results changed by their receiver", 1)
		m := mapOf(want)
		switch v := fieldElem(r, q); {
		case chance(r, 1, 2):
			w := make([]*big.Int, len(want)+1)
			for i := range w {
				if w[i] = fieldElem(r, q); i < len(want) {
					if v := mmul(want[i], w[i], q); v.Sign() == 0 {
						delete(m, uint(i))
					} else {
						m[uint(i)] = v
					}
				}
			}
			f.Combine(got, w)
		case len(want) > 0 && v.Sign() != 0:
			i := uint(r.Intn(len(want)))
			got.Insert(i, v)
			m[i] = v
		default:
			if ks := m.keys(); len(ks) > 0 {
				got.Remove(ks[0])
				delete(m, ks[0])
			}
		}
		return checkTree(c, got, m, name+" after a change")
	}
	s := fieldElem(r, q)
	if !check("from array", ta, a) || !check("AddToSparse", f.AddToSparse(ta, tb), polyAdd(a, b, q)) || !check("SubToSparse", f.SubToSparse(ta, tb), polySub(a, b, q)) ||
		!check("MulSparse", f.MulSparse(ta, tb), polyMul(a, b, q)) || !check("MulSparseScalar", f.MulSparseScalar(ta, s), polyScale(a, s, q)) {
		return
	}
	if !check("difference with itself", f.SubToSparse(ta, ta), nil) {
		return
	}
	k := uint(r.Intn(40))
	if v := fieldElem(r, q); !check("NewSparseArrayWith", utils.NewSparseArrayWith(k, v), append(zeros(int(k)), v)) {
		return
	}
	// evaluation
	x := anyRep(r, q)
	if chance(r, 1, 6) {
		x = bi(int64(r.Intn(3) - 1))
	}
	if got, want := f.EvalSparsePoly(ta, x), polyEval(a, mod(x, q), q); mod(got, q).Cmp(want) != 0 {
		c.Fail("EvalSparsePoly", "EvalSparsePoly at %v is %v, expected %v", x, got, want)
		return
	}
	// very sparse polynomials
	big1 := utils.NewAvlTree()
	wantv := bi(0)
	for i := r.Intn(6); i > 0; i-- {
		key, v := uint(r.Int63n(1<<uint(1+r.Intn(61)))), fieldElem(r, q)
		if big1.Has(key) || v.Sign() == 0 {
			continue
		}
		big1.Insert(key, v)
		wantv = madd(wantv, mmul(v, new(big.Int).Exp(mod(x, q), new(big.Int).SetUint64(uint64(key)), q), q), q)
	}
	if got := f.EvalSparsePoly(big1, x); mod(got, q).Cmp(mod(wantv, q)) != 0 {
		c.Note("polynomial %v", big1)
		c.Fail("EvalSparsePoly", "EvalSparsePoly at %v is %v, expected %v", x, got, wantv)
		return
	}
	// division
	if len(trim(b)) > 0 {
		d := [][]*big.Int{a, polyMul(a, b, q), polyAdd(polyMul(a, b, q), []*big.Int{one}, q), b}[r.Intn(4)]
		c.Note("dividend %v", d)
		quo, rem := f.DivideSparse(treeOf(d, r), tb)
		wq, wr := polyDivMod(d, b, q)
		if !check("quotient", quo, wq) || !check("remainder", rem, wr) {
			return
		}
		c.Count("sparse divisions", 1)
	}
	// coefficients in any representation, also such that vanish modulo the prime
	if chance(r, 1, 3) && !anyRepOps(c, f, q) {
		return
	}
	// vectors
	n := len(a) + r.Intn(3)
	w := make([]*big.Int, n)
	comb := make([]*big.Int, len(a))
	sum := bi(0)
	for i := range w {
		w[i] = fieldElem(r, q)
		if i < len(a) {
			comb[i] = mmul(a[i], w[i], q)
			sum = madd(sum, comb[i], q)
		}
	}
	if got := f.SparseScalarProduct(ta, w); got.Cmp(sum) != 0 {
		c.Fail("SparseScalarProduct", "scalar product %v, expected %v", got, sum)
		return
	}
	if !check("Combine", f.Combine(ta.Clone(), w), comb) {
		return
	}
	// linear combinations
	var ts []*utils.AvlTree
	var want []*big.Int
	var ws []*big.Int
	var ps [][]*big.Int
	for i := r.Intn(5); i >= 0; i-- {
		p := drawPoly(r, q, 8, true)
		v := fieldElem(r, q)
		ts, ws, ps = append(ts, treeOf(p, r)), append(ws, v), append(ps, p)
		want = polyAdd(want, polyScale(p, v, q), q)
	}
	lc := f.LinearCombine(ts, ws)
	if len(lc) != len(ws) {
		c.Fail("LinearCombine", "%d polynomials combined to %d", len(ws), len(lc))
		return
	}
	for i := range lc {
		if !check("LinearCombine", lc[i], polyScale(ps[i], ws[i], q)) {
			return
		}
	}
	if !check("AddPolynomials", f.AddPolynomials(lc), want) {
		return
	}
	// transposition
	cols := 1
	for _, p := range ps {
		if len(p) > cols {
			cols = len(p)
		}
	}
	cols += r.Intn(2)
	tr := utils.TransposeSparse(ts, cols)
	if len(tr) != cols {
		c.Fail("TransposeSparse", "%d columns, expected %d", len(tr), cols)
		return
	}
	for j := range tr {
		col := make([]*big.Int, len(ps))
		for i, p := range ps {
			col[i] = bi(0)
			if j < len(p) {
				col[i] = p[j]
			}
		}
		if !check("TransposeSparse", tr[j], col) {
			return
		}
	}
	// interpolation
	pts := pointCount(r)
	if big.NewInt(int64(pts)).Cmp(q) >= 0 {
		pts = 1 + r.Intn(13)
	}
	ys := make([]*big.Int, pts)
	den := r.Intn(4)
	for i := range ys {
		ys[i] = bi(0)
		if r.Intn(3) < den {
			ys[i] = fieldElem(r, q)
		}
	}
	if chance(r, 1, 4) {
		// a base
		for i := range ys {
			ys[i] = bi(0)
		}
		ys[r.Intn(pts)] = pickBig(r, one, one, fieldElem(r, q))
	}
	c.Note("points %v", ys)
	for k := 0; k < 2; k++ {
		if !check("InterpolateSparseArray", f.InterpolateSparseArray(treeOf(ys, r), pts), interpolate(ys, q)) {
			return
		}
		c.Count("sparse interpolations", 1)
		if pts > 30 {
			break
		}
	}
	if caught := try(func() { f.InterpolateSparseArray(treeOf(append(zeros(pts), one), r), pts) }); caught == nil {
		c.Fail("InterpolateSparseArray", "a value beyond the %d points is accepted", pts)
	}
	c.Distinct(q, vecString(a), vecString(b))
}

// anyRepOps repeats the operations over coefficients that are not canonical. The results are compared modulo the prime.
func anyRepOps(c *Ctx, f utils.Fq, q *big.Int) bool {
	r := c.R
	draw := func(n int) []*big.Int {
		p := make([]*big.Int, 1+r.Intn(n))
		for i := range p {
			p[i] = anyRep(r, q)
			if chance(r, 1, 3) {
				p[i] = new(big.Int).Mul(q, bi(int64(r.Intn(5)-2)))
			}
		}
		return p
	}
	a, b := draw(10), draw(6)
	c.Note("unreduced a=%v b=%v", a, b)
	ra, rb := reduceVec(a, q), reduceVec(b, q)
	ta, tb := treeOf(a, r), treeOf(b, r)
	same := func(name string, got *utils.AvlTree, want []*big.Int) bool {
		var v []*big.Int
		for e := range got.ChannelNodes(true) {
			if int(e.Key) > 100 {
				c.Fail(name, "%s of unreduced operands has degree %d", name, e.Key)
				return false
			}
			for len(v) <= int(e.Key) {
				v = append(v, zero)
			}
			v[e.Key] = mod(e.Value, q)
		}
		if !vecEqual(trim(v), trim(want)) {
			c.Fail(name, "%s of unreduced operands gives %s, expected %s", name, vecString(v), vecString(want))
			return false
		}
		c.Count("sparse results over unreduced operands", 1)
		return true
	}
	s, x := anyRep(r, q), anyRep(r, q)
	if !same("AddToSparse", f.AddToSparse(ta, tb), polyAdd(ra, rb, q)) || !same("SubToSparse", f.SubToSparse(ta, tb), polySub(ra, rb, q)) ||
		!same("MulSparse", f.MulSparse(ta, tb), polyMul(ra, rb, q)) || !same("MulSparseScalar", f.MulSparseScalar(ta, s), polyScale(ra, mod(s, q), q)) {
		return false
	}
	if got, want := f.EvalSparsePoly(ta, x), polyEval(ra, mod(x, q), q); mod(got, q).Cmp(want) != 0 {
		c.Fail("EvalSparsePoly", "the value of an unreduced polynomial at %v is %v, expected %v", x, got, want)
		return false
	}
	if len(trim(rb)) > 0 {
		quo, rem := f.DivideSparse(ta, tb)
		wq, wr := polyDivMod(ra, rb, q)
		if !same("quotient", quo, wq) || !same("remainder", rem, wr) {
			return false
		}
	} else if caught := try(func() { f.DivideSparse(ta, tb) }); caught == nil {
		c.Fail("DivideSparse", "division by a polynomial that vanishes modulo the prime is accepted")
		return false
	}
	n := len(a) + r.Intn(3)
	if !same("InterpolateSparseArray", f.InterpolateSparseArray(ta, n), interpolate(append(append([]*big.Int{}, ra...), zeros(n-len(a))...), q)) {
		return false
	}
	return same("LinearCombine", f.AddPolynomials(f.LinearCombine([]*utils.AvlTree{ta, tb}, []*big.Int{s, x})), polyAdd(polyScale(ra, mod(s, q), q), polyScale(rb, mod(x, q), q), q))
}

func zeros(n int) []*big.Int {
	out := make([]*big.Int, n)
	for i := range out {
		out[i] = bi(0)
	}
	return out
}

func init() {
	register(&Prop{ID: "C14", Quick: 60000, Thorough: 6000000, Run: runC14,
		Rule: "a case draws a prime, two operands in arbitrary (negative, unreduced, equal, identical) representation, vectors, exponents and strings and compares every field operation with math/big; distinct by modulus and operands",
		Need: []string{"results compared", "random elements", "malformed strings"}})
	register(&Prop{ID: "C15", Quick: 20000, Thorough: 1500000, Run: runC15,
		Rule: "a case draws polynomials (zero, constant, leading zeros, unreduced, identical) over one of several primes and compares all operations, division with both results and interpolations with the schoolbook algorithms; fields and their caches live as long as the process; distinct by modulus and operands",
		Need: []string{"polynomials compared", "divisions", "divisions without remainder", "interpolations"}})
	register(&Prop{ID: "C16", Quick: 20000, Thorough: 1500000, Run: runC16,
		Rule: "a case is a history of up to 1000 insertions, combinations, cancellations, removals and copies compared with a map, or a pair of sparse polynomials on which every operation is compared with the dense reference; distinct by history or operands",
		Need: []string{"trees compared", "tree operations", "removals", "sparse results", "sparse divisions", "sparse interpolations"}})
}
