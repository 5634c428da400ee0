package main

import (
	"bytes"
	"encoding/hex"
	"errors"
	"fmt"
	"math/big"
	"math/rand"
	"strings"

	bn256 "github.com/mottla/go-AlgebraicProgram-SNARK/pairing"
)

// Monitors of the groups: C17 group operations, C18 pairing, C19 encodings.

// elem is a library element of one of the source groups next to the affine point it has to be.
type elem struct {
	g  int // 1 or 2
	a  *bn256.G1
	b  *bn256.G2
	p1 pt1
	p2 pt2
}

func (e *elem) marshal() []byte {
	if e.g == 1 {
		return e.a.Marshal()
	}
	return e.b.Marshal()
}

func (e *elem) want() []byte {
	if e.g == 1 {
		return e.p1.bytes()
	}
	return e.p2.bytes()
}

func (e *elem) neutral() bool { return e.g == 1 && e.p1.inf || e.g == 2 && e.p2.inf }

func (e *elem) String() string {
	if e.g == 1 {
		return e.p1.String()
	}
	return e.p2.String()
}

// cofactor2 clears the cofactor of the twist
var cofactor2 = new(big.Int).Sub(new(big.Int).Lsh(P, 1), N)

func fromBytes(g int, b []byte) (e *elem, err error) {
	e = &elem{g: g}
	if g == 1 {
		e.a = new(bn256.G1)
		_, err = e.a.Unmarshal(b)
	} else {
		e.b = new(bn256.G2)
		_, err = e.b.Unmarshal(b)
	}
	return
}

func baseMul(g int, k *big.Int) *elem {
	e := &elem{g: g}
	if g == 1 {
		e.a = new(bn256.G1).ScalarBaseMult(k)
		e.p1 = g1gen.mul(k)
	} else {
		e.b = new(bn256.G2).ScalarBaseMult(k)
		e.p2 = g2gen.mul(k)
	}
	return e
}

// drawScalar draws a scalar, some of them negative
func drawScalar(r *rand.Rand) *big.Int {
	k := drawMagnitude(r)
	if chance(r, 1, 7) {
		k.Neg(k)
	}
	return k
}

func drawMagnitude(r *rand.Rand) *big.Int {
	switch r.Intn(9) {
	case 0:
		return bi(int64(r.Intn(4)))
	case 1:
		return new(big.Int).Add(N, bi(int64(r.Intn(4)-2)))
	case 2:
		return new(big.Int).Rand(r, new(big.Int).Lsh(one, uint(1+r.Intn(512))))
	case 3:
		return new(big.Int).Lsh(one, uint(r.Intn(260)))
	case 4:
		return new(big.Int).Sub(new(big.Int).Lsh(one, uint(r.Intn(260))), one)
	case 5:
		return randBelow(r, N)
	}
	return new(big.Int).Rand(r, new(big.Int).Lsh(one, uint(1+r.Intn(24))))
}

// drawElem draws an element
func drawElem(c *Ctx, g int) *elem {
	r := c.R
	switch r.Intn(8) {
	case 0:
		return baseMul(g, drawScalar(r))
	case 1:
		// a decoded element, not built from the generator
		e := &elem{g: g}
		if g == 1 {
			e.p1 = randCurve1(r)
			if chance(r, 1, 10) {
				e.p1 = pt1{inf: true}
			}
		} else if chance(r, 1, 8) {
			e.p2 = randTwist(r).mul(cofactor2)
		} else {
			e.p2 = g2gen.mul(bi(int64(r.Intn(50))))
		}
		d, err := fromBytes(g, e.want())
		if err != nil {
			c.Fail("decode", "the encoding of %v is refused: %v", e, err)
			return nil
		}
		e.a, e.b = d.a, d.b
		return e
	case 2:
		e := baseMul(g, bi(int64(r.Intn(20))))
		if g == 1 {
			e.a = otherRep1(r, e.a)
		} else {
			e.b = otherRep2(r, e.b)
		}
		return e
	case 3:
		if g == 1 {
			e := baseMul(g, bi(int64(1+r.Intn(5))))
			e.a = new(bn256.G1).Neg(e.a)
			e.p1 = e.p1.neg()
			return e
		}
		return baseMul(g, new(big.Int).Sub(N, bi(int64(r.Intn(5)))))
	}
	return baseMul(g, bi(int64(r.Intn(6))))
}

func runC17(c *Ctx) {
	r := c.R
	g := 1 + c.Idx%2
	if c.Idx%16 == 3 {
		randomElements(c)
		return
	}
	var pool []*elem
	for i := 0; i < 4; i++ {
		e := drawElem(c, g)
		if e == nil {
			return
		}
		pool = append(pool, e)
	}
	var log []string
	for s := 0; s < 10; s++ {
		i, j := r.Intn(len(pool)), r.Intn(len(pool))
		x, y := pool[i], pool[j]
		op := r.Intn(7)
		// where the result goes: 0 fresh, 1 over the first operand, 2 over the second, 3 over a third element
		dst := r.Intn(4)
		k := drawScalar(r)
		if chance(r, 1, 2) {
			k = bi(int64(r.Intn(40)))
		}
		if op == 4 && chance(r, 1, 2) {
			// opposite operands
			if g == 1 {
				y = &elem{g: 1, a: new(bn256.G1).Neg(x.a), p1: x.p1.neg()}
			} else {
				y = &elem{g: 2, b: new(bn256.G2).ScalarMult(x.b, new(big.Int).Sub(N, one)), p2: x.p2.neg()}
			}
			pool = append(pool, y)
			j = len(pool) - 1
		}
		if op == 5 {
			// the same element in another representation
			y = &elem{g: g, p1: x.p1, p2: x.p2}
			if g == 1 {
				y.a = otherRep1(r, x.a)
			} else {
				y.b = otherRep2(r, x.b)
			}
			pool = append(pool, y)
			j = len(pool) - 1
		}
		if op == 6 {
			y, j = x, i
		}
		var res *elem
		at := -1
		switch dst {
		case 0:
			res = &elem{g: g, a: new(bn256.G1), b: new(bn256.G2)}
		case 1:
			at = i
		case 2:
			at = j
		case 3:
			at = r.Intn(len(pool))
		}
		if at >= 0 {
			// the object is replaced in the pool; all aliases of it are the same pool entry
			res = &elem{g: g, a: pool[at].a, b: pool[at].b}
		}
		var name string
		var ret interface{}
		var kk = cp(k)
		switch {
		case op == 0 || op == 1:
			name = fmt.Sprintf("#%d times %v", i, k)
			if g == 1 {
				ret = res.a.ScalarMult(x.a, k)
				res.p1 = x.p1.mul(k)
			} else {
				ret = res.b.ScalarMult(x.b, k)
				res.p2 = x.p2.mul(k)
			}
		case op == 2 && chance(r, 1, 3):
			name = fmt.Sprintf("generator times %v", k)
			if g == 1 {
				ret = res.a.ScalarBaseMult(k)
				res.p1 = g1gen.mul(k)
			} else {
				ret = res.b.ScalarBaseMult(k)
				res.p2 = g2gen.mul(k)
			}
		case op == 3 && g == 1:
			name = fmt.Sprintf("negative of #%d", i)
			ret = res.a.Neg(x.a)
			res.p1 = x.p1.neg()
		default:
			name = fmt.Sprintf("#%d + #%d", i, j)
			if g == 1 {
				ret = res.a.Add(x.a, y.a)
				res.p1 = x.p1.add(y.p1)
			} else {
				ret = res.b.Add(x.b, y.b)
				res.p2 = x.p2.add(y.p2)
			}
		}
		log = append(log, fmt.Sprintf("%s (%v, %v) -> destination %d at %d", name, x, y, dst, at))
		if at >= 0 {
			pool[at] = res
		} else {
			pool = append(pool, res)
		}
		bad := ""
		if g == 1 && ret.(*bn256.G1) != res.a || g == 2 && ret.(*bn256.G2) != res.b {
			bad = "the receiver is not returned"
		}
		if k.Cmp(kk) != 0 {
			bad = "the scalar was changed"
		}
		if !bytes.Equal(res.marshal(), res.want()) {
			bad = fmt.Sprintf("got %x, expected %v", res.marshal(), res)
		}
		for n, e := range pool {
			if bad == "" && !bytes.Equal(e.marshal(), e.want()) {
				bad = fmt.Sprintf("element #%d was changed to %x, it was %v", n, e.marshal(), e)
			}
		}
		if g == 1 && bad == "" {
			wx := bi(0)
			if !res.p1.inf {
				wx = res.p1.x
			}
			if res.a.X().Cmp(wx) != 0 {
				bad = fmt.Sprintf("the first coordinate is %v, expected %v", res.a.X(), wx)
			}
		}
		if bad != "" {
			c.Note("%s", strings.Join(log, "\n"))
			c.Fail("operation", "group %d: %s: %s", g, name, bad)
			return
		}
		c.Count("operations compared", 1)
		if k.Sign() < 0 && op <= 2 {
			c.Count("multiples by negative numbers", 1)
		}
		if res.neutral() {
			c.Count("neutral results", 1)
		}
		if dst > 0 {
			c.Count("results over an operand or another element", 1)
		}
		c.Distinct(g, name, x, y, dst)
	}
	// the order
	x := pool[r.Intn(len(pool))]
	m := new(big.Int).Mul(N, bi(int64(1+r.Intn(3))))
	n := &elem{g: g, p1: pt1{inf: true}, p2: pt2{inf: true}}
	if g == 1 {
		n.a = new(bn256.G1).ScalarMult(x.a, m)
	} else {
		n.b = new(bn256.G2).ScalarMult(x.b, m)
	}
	if !bytes.Equal(n.marshal(), n.want()) {
		c.Note("%s", strings.Join(log, "\n"))
		c.Fail("order", "group %d: %v times a multiple of the order is %x", g, x, n.marshal())
		return
	}
	c.Count("orders", 1)
	c.Sample(map[string]interface{}{"group": g, "operations": log[:3]})
}

// scripted is a source of random bytes with a given beginning
type scripted struct {
	head []byte
	r    *rand.Rand
	fail int // bytes after which it fails, negative: never
}

func (s *scripted) Read(p []byte) (int, error) {
	for i := range p {
		if s.fail == 0 {
			return i, errors.New("source exhausted")
		}
		if s.fail > 0 {
			s.fail--
		}
		if len(s.head) > 0 {
			p[i] = s.head[0]
			s.head = s.head[1:]
		} else {
			p[i] = byte(s.r.Intn(256))
		}
	}
	return len(p), nil
}

// randomElements judges the random elements of both groups
func randomElements(c *Ctx) {
	r := c.R
	for n := 0; n < 3; n++ {
		src := &scripted{r: r, fail: -1}
		kind := r.Intn(4)
		switch kind {
		case 0: // zero first
			src.head = make([]byte, 32*(1+r.Intn(3)))
		case 1: // values above the order first
			src.head = bytes.Repeat([]byte{255}, 32*(1+r.Intn(3)))
		case 2:
			src.fail = r.Intn(32)
		}
		for g := 1; g <= 2; g++ {
			var k *big.Int
			var err error
			e := &elem{g: g}
			s := *src
			s.head = append([]byte{}, src.head...)
			if g == 1 {
				k, e.a, err = bn256.RandomG1(&s)
			} else {
				k, e.b, err = bn256.RandomG2(&s)
			}
			if kind == 2 {
				if err == nil {
					c.Fail("random", "group %d: an exhausted source gives an element", g)
					return
				}
				c.Count("failing sources reported", 1)
				continue
			}
			if err != nil || k == nil || k.Sign() <= 0 || k.Cmp(N) >= 0 {
				c.Fail("random", "group %d: random exponent %v %v", g, k, err)
				return
			}
			if g == 1 {
				e.p1 = g1gen.mul(k)
			} else {
				e.p2 = g2gen.mul(k)
			}
			if !bytes.Equal(e.marshal(), e.want()) {
				c.Fail("random", "group %d: the random element is %x, its exponent %v", g, e.marshal(), k)
				return
			}
			c.Count("random group elements", 1)
			c.Distinct("random", g, k)
		}
	}
}

// ---- the target group: polynomials in w with w^6 = i+9 over the quadratic extension

type f12 [6]f2

var xi = f2{bi(1), bi(9)}

func f12one() (o f12) {
	for i := range o {
		o[i] = f2small(0)
	}
	o[0] = f2small(1)
	return
}

func f12mul(a, b f12) (o f12) {
	var t [11]f2
	for i := range t {
		t[i] = f2small(0)
	}
	for i := range a {
		if f2zero(a[i]) {
			continue
		}
		for j := range b {
			t[i+j] = f2add(t[i+j], f2mul(a[i], b[j]))
		}
	}
	for i := range o {
		o[i] = t[i]
		if i+6 < 11 {
			o[i] = f2add(o[i], f2mul(t[i+6], xi))
		}
	}
	return
}

func f12exp(a f12, k *big.Int) f12 {
	acc := f12one()
	for i := k.BitLen() - 1; i >= 0; i-- {
		acc = f12mul(acc, acc)
		if k.Bit(i) == 1 {
			acc = f12mul(acc, a)
		}
	}
	return acc
}

func f12eq(a, b f12) bool {
	for i := range a {
		if !f2eq(a[i], b[i]) {
			return false
		}
	}
	return true
}

// the places of the powers of w in the encoding
var gtOrder = [6]int{5, 3, 1, 4, 2, 0}

func f12bytes(a f12) []byte {
	out := make([]byte, 384)
	for n, k := range gtOrder {
		put32(out[64*n:], a[k].a)
		put32(out[64*n+32:], a[k].b)
	}
	return out
}

func f12from(b []byte) (a f12, err error) {
	if len(b) != 384 {
		return a, fmt.Errorf("%d bytes", len(b))
	}
	for n, k := range gtOrder {
		a[k] = f2{new(big.Int).SetBytes(b[64*n : 64*n+32]), new(big.Int).SetBytes(b[64*n+32 : 64*n+64])}
		if a[k].a.Cmp(P) >= 0 || a[k].b.Cmp(P) >= 0 {
			return a, errors.New("coordinate not canonical")
		}
	}
	return a, nil
}

var gtBaseMemo *f12

// gtBase is the pairing of the generators, read from the library once
func gtBase(c *Ctx) *f12 {
	if gtBaseMemo != nil {
		return gtBaseMemo
	}
	v, err := f12from(bn256.Pair(new(bn256.G1).ScalarBaseMult(one), new(bn256.G2).ScalarBaseMult(one)).Marshal())
	if err != nil {
		c.Fail("base", "the pairing of the generators: %v", err)
		return nil
	}
	if f12eq(v, f12one()) {
		c.Fail("degenerate", "the pairing of the generators is trivial")
		return nil
	}
	if !f12eq(f12exp(v, N), f12one()) {
		c.Fail("order", "the pairing of the generators does not have the group order")
		return nil
	}
	gtBaseMemo = &v
	return gtBaseMemo
}

func smallOrBig(r *rand.Rand) *big.Int {
	switch r.Intn(6) {
	case 0:
		return bi(0)
	case 1, 2:
		return bi(int64(1 + r.Intn(30)))
	case 3:
		return new(big.Int).Sub(N, bi(int64(1+r.Intn(30))))
	}
	return randBelow(r, N)
}

// lib1, lib2 build k*G in a drawn representation
func lib1(r *rand.Rand, k *big.Int) *bn256.G1 {
	switch r.Intn(4) {
	case 0:
		return recode1(new(bn256.G1).ScalarBaseMult(k))
	case 1:
		return otherRep1(r, new(bn256.G1).ScalarBaseMult(k))
	case 2:
		return new(bn256.G1).Neg(new(bn256.G1).ScalarBaseMult(fsub(zero, k)))
	}
	return new(bn256.G1).ScalarBaseMult(k)
}

func lib2(r *rand.Rand, k *big.Int) *bn256.G2 {
	switch r.Intn(4) {
	case 0:
		return recode2(new(bn256.G2).ScalarBaseMult(k))
	case 1:
		return otherRep2(r, new(bn256.G2).ScalarBaseMult(k))
	case 2:
		return new(bn256.G2).ScalarMult(new(bn256.G2).ScalarBaseMult(fsub(zero, k)), new(big.Int).Sub(N, one))
	}
	return new(bn256.G2).ScalarBaseMult(k)
}

func runC18(c *Ctx) {
	r := c.R
	base := gtBase(c)
	if base == nil {
		return
	}
	// powers of the pairing of the generators
	a, b := smallOrBig(r), smallOrBig(r)
	A, B := lib1(r, a), lib2(r, b)
	mA, mB := A.Marshal(), B.Marshal()
	e := bn256.Pair(A, B)
	want := f12exp(*base, fmul(a, b))
	if got := e.Marshal(); !bytes.Equal(got, f12bytes(want)) {
		c.Fail("bilinear", "pairing of %v*G and %v*H is %x, expected the %v-th power of the pairing of the generators", a, b, got, fmul(a, b))
		return
	}
	if (a.Sign() == 0 || b.Sign() == 0) != f12eq(want, f12one()) {
		c.Fail("trivial", "reference: pairing of %v*G and %v*H", a, b)
		return
	}
	if !bytes.Equal(A.Marshal(), mA) || !bytes.Equal(B.Marshal(), mB) {
		c.Fail("operands", "pairing changed its operands")
		return
	}
	if a.Sign() == 0 || b.Sign() == 0 {
		c.Count("pairings of a neutral element", 1)
	}
	c.Count("pairings", 1)
	c.Distinct("pair", a, b)
	c.Sample(map[string]string{"a": a.String(), "b": b.String()})

	// the same elements, changed in place and paired again
	if chance(r, 1, 2) && !changedInPlace(c, *base, A, B, a, b) {
		return
	}

	// additivity, for elements which are not known multiples of the generator
	if A, B = lib1(r, a), lib2(r, b); chance(r, 1, 3) {
		p := randCurve1(r)
		X := new(bn256.G1)
		if _, err := X.Unmarshal(p.bytes()); err != nil {
			c.Fail("decode", "%v: %v", p, err)
			return
		}
		l, e1 := f12from(bn256.Pair(new(bn256.G1).Add(X, A), B).Marshal())
		m, e2 := f12from(bn256.Pair(X, B).Marshal())
		if e1 != nil || e2 != nil {
			c.Fail("encoding", "%v %v", e1, e2)
			return
		}
		if !f12eq(l, f12mul(m, want)) {
			c.Fail("additive", "the pairing is not multiplicative: %v and %v*G with %v*H", p, a, b)
			return
		}
		if f12eq(m, f12one()) != (b.Sign() == 0) {
			c.Fail("degenerate", "the pairing of %v and %v*H", p, b)
			return
		}
		b2 := smallOrBig(r)
		B2 := lib2(r, b2)
		m2, e1 := f12from(bn256.Pair(X, B2).Marshal())
		l2, e2 := f12from(bn256.Pair(X, new(bn256.G2).Add(B2, B)).Marshal())
		if e1 != nil || e2 != nil || !f12eq(l2, f12mul(m, m2)) {
			c.Fail("additive", "the pairing is not multiplicative in the second argument: %v, %v*H, %v*H", p, b, b2)
			return
		}
		c.Count("additivity", 2)
		c.Distinct("additive", p, a, b)
	}

	// operations of the target group
	ops := []string{}
	type gt struct {
		e *bn256.GT
		v f12
	}
	pool := []*gt{{e, want}, {bn256.OneGT(), f12one()}, {bn256.Pair(lib1(r, one), lib2(r, one)), *base}}
	for s := 0; s < 5; s++ {
		i, j := r.Intn(len(pool)), r.Intn(len(pool))
		x, y := pool[i], pool[j]
		at := -1
		res := &gt{e: new(bn256.GT)}
		if chance(r, 2, 3) {
			at = []int{i, j, r.Intn(len(pool))}[r.Intn(3)]
			res.e = pool[at].e
		}
		var name string
		switch r.Intn(4) {
		case 0:
			k := bi(int64(r.Intn(20)))
			if chance(r, 1, 4) {
				k = drawScalar(r)
			}
			name = fmt.Sprintf("#%d power %v", i, k)
			res.v = f12exp(x.v, mod(k, N))
			res.e.ScalarMult(x.e, k)
			if k.Sign() < 0 {
				c.Count("powers by negative numbers", 1)
			}
		case 1:
			name = fmt.Sprintf("inverse #%d", i)
			res.v = f12exp(x.v, new(big.Int).Sub(N, one))
			res.e.Neg(x.e)
		default:
			name = fmt.Sprintf("#%d * #%d", i, j)
			res.v = f12mul(x.v, y.v)
			res.e.Add(x.e, y.e)
		}
		ops = append(ops, fmt.Sprintf("%s -> %d", name, at))
		if at >= 0 {
			pool[at] = res
		} else {
			pool = append(pool, res)
		}
		for n, p := range pool {
			if !bytes.Equal(p.e.Marshal(), f12bytes(p.v)) {
				c.Note("a=%v b=%v", a, b)
				c.Fail("target", "target group: %s: element #%d is wrong", strings.Join(ops, ", "), n)
				return
			}
		}
		c.Count("target group operations", 1)
	}
	c.Distinct("target", strings.Join(ops, ","), a, b)

	// product checks
	n := r.Intn(6)
	long := c.Idx%40 == 24
	if long {
		// long lists
		n = 17 + r.Intn(60)
		if c.Idx%120 == 24 {
			n = 65 + r.Intn(80)
		}
		c.Count("product checks of 17 to 145 pairs", 1)
	}
	var ks, ls []*big.Int
	sum := bi(0)
	for i := 0; i < n; i++ {
		k, l := smallOrBig(r), smallOrBig(r)
		if i > 0 {
			j := i - 1
			if chance(r, 1, 3) {
				j = r.Intn(i)
			}
			switch r.Intn(8) {
			case 0, 1:
				k, l = ks[j], ls[j]
			case 2:
				k = ks[j]
			case 3:
				l = ls[j]
			}
		}
		ks, ls = append(ks, k), append(ls, l)
		sum = fadd(sum, fmul(k, l))
	}
	balanced := chance(r, 1, 2)
	if balanced || long {
		// the last pair makes the product trivial
		l := nonZeroElem(r, N)
		if chance(r, 1, 2) {
			l = bi(1)
		}
		k := fmul(fsub(zero, sum), minv(l, N))
		at := r.Intn(len(ks) + 1)
		ks = append(ks[:at:at], append([]*big.Int{k}, ks[at:]...)...)
		ls = append(ls[:at:at], append([]*big.Int{l}, ls[at:]...)...)
		sum = bi(0)
	}
	var as []*bn256.G1
	var bs []*bn256.G2
	for i := range ks {
		// points can occur several times in the lists
		A, B := lib1(r, ks[i]), lib2(r, ls[i])
		for j := 0; j < i; j++ {
			if ks[j].Cmp(ks[i]) == 0 && chance(r, 2, 3) {
				A = as[j]
			}
			if ls[j].Cmp(ls[i]) == 0 && chance(r, 2, 3) {
				B = bs[j]
			}
		}
		as, bs = append(as, A), append(bs, B)
	}
	ok := bn256.PairingCheck(as, bs)
	if ok != (sum.Sign() == 0) {
		c.Fail("product check", "the product check of exponents %v and %v succeeds: %v", ks, ls, ok)
		return
	}
	if long {
		// one exponent decides
		i := r.Intn(len(as))
		cs := append([]*bn256.G1{}, as...)
		cs[i] = lib1(r, fadd(ks[i], bi(1)))
		if ls[i].Sign() != 0 && bn256.PairingCheck(cs, bs) {
			c.Fail("product check", "the product check of exponents %v and %v still succeeds when the exponent at %d is increased by one", ks, ls, i)
			return
		}
	}
	for i := range as {
		if !bytes.Equal(as[i].Marshal(), g1gen.mul(ks[i]).bytes()) || !bytes.Equal(bs[i].Marshal(), g2gen.mul(ls[i]).bytes()) {
			c.Fail("operands", "the product check changed its operands")
			return
		}
	}
	c.Count(fmt.Sprintf("product checks: %v", ok), 1)
	c.Distinct("check", ks, ls)
}

// changedInPlace changes elements that have been paired, a*G and b*H, and
// pairs them again
func changedInPlace(c *Ctx, base f12, A *bn256.G1, B *bn256.G2, a, b *big.Int) bool {
	r := c.R
	var ops []string
	for n := 1 + r.Intn(3); n > 0; n-- {
		k := smallOrBig(r)
		switch r.Intn(9) {
		case 0:
			A.Add(A, lib1(r, k))
			a = fadd(a, k)
		case 1:
			A.ScalarMult(A, k)
			a = fmul(a, k)
		case 2:
			A.Neg(A)
			a = fsub(zero, a)
		case 3:
			if _, err := A.Unmarshal(g1gen.mul(k).bytes()); err != nil {
				c.Fail("decode", "%v", err)
				return false
			}
			a = k
		case 4:
			B.Add(B, lib2(r, k))
			b = fadd(b, k)
		case 5:
			B.ScalarMult(B, k)
			b = fmul(b, k)
		case 6:
			B.Add(B, B)
			b = fadd(b, b)
		case 7:
			if _, err := B.Unmarshal(g2gen.mul(k).bytes()); err != nil {
				c.Fail("decode", "%v", err)
				return false
			}
			b = k
		case 8:
			B.ScalarBaseMult(k)
			b = k
		}
		ops = append(ops, fmt.Sprintf("now %v*G and %v*H", a, b))
		if chance(r, 1, 3) {
			// in a product check with fresh elements
			l := nonZeroElem(r, N)
			x := fmul(fsub(zero, fmul(a, b)), minv(l, N))
			off := chance(r, 1, 2)
			if off {
				x = fadd(x, one)
			}
			if bn256.PairingCheck([]*bn256.G1{A, lib1(r, x)}, []*bn256.G2{B, lib2(r, l)}) == off {
				c.Fail("changed in place", "%s: product check with %v*G and %v*H succeeds: %v", strings.Join(ops, "; "), x, l, off)
				return false
			}
		}
		want := f12bytes(f12exp(base, fmul(a, b)))
		if got := bn256.Pair(A, B).Marshal(); !bytes.Equal(got, want) {
			c.Fail("changed in place", "%s: the pairing is %x, expected %x", strings.Join(ops, "; "), got, want)
			return false
		}
		c.Count("pairings of elements changed in place", 1)
	}
	return true
}

// ---- C19

func runC19(c *Ctx) {
	r := c.R
	switch c.Idx % 4 {
	case 0, 1:
		encodings(c, 1+c.Idx%2)
	case 2:
		encodings(c, 1+r.Intn(2))
	default:
		targetEncodings(c)
	}
}

// valid tells what decoding has to do, by an independent decoder
func valid(g int, b []byte) (p1 pt1, p2 pt2, ok bool) {
	coords := 2 * g
	if len(b) != 32*coords {
		return
	}
	var v []*big.Int
	all := true
	for i := 0; i < coords; i++ {
		x := new(big.Int).SetBytes(b[32*i : 32*i+32])
		if x.Cmp(P) >= 0 {
			return
		}
		all = all && x.Sign() == 0
		v = append(v, x)
	}
	if all {
		return pt1{inf: true}, pt2{inf: true}, true
	}
	if g == 1 {
		p1 = pt1{x: v[0], y: v[1]}
		return p1, p2, p1.onCurve()
	}
	p2 = pt2{x: f2{v[0], v[1]}, y: f2{v[2], v[3]}}
	return p1, p2, p2.onTwist() && p2.mul(N).inf
}

func encodings(c *Ctx, g int) {
	r := c.R
	e := drawElem(c, g)
	if e == nil {
		return
	}
	enc := e.marshal()
	if !bytes.Equal(enc, e.want()) {
		c.Fail("encoding", "group %d: %v is encoded as %x", g, e, enc)
		return
	}
	c.Count("elements encoded", 1)
	for n := 0; n < 5; n++ {
		b := append([]byte{}, enc...)
		kind := ""
		switch r.Intn(12) {
		case 0:
			kind = "as encoded"
		case 1:
			kind = "length"
			switch r.Intn(6) {
			case 0:
				b = b[:len(b)-1]
			case 1:
				b = append(b, byte(r.Intn(256)))
			case 2:
				b = nil
			case 3:
				b = append(b, b...)
			case 4:
				b = b[:len(b)/2]
			case 5:
				b = append(make([]byte, 1+r.Intn(64)), b...)
			}
		case 2, 3:
			kind = "flipped bit"
			b[r.Intn(len(b))] ^= 1 << uint(r.Intn(8))
		case 4:
			// another representative of one coordinate
			kind = "coordinate plus modulus"
			i := r.Intn(len(b) / 32)
			v := new(big.Int).Add(new(big.Int).SetBytes(b[32*i:32*i+32]), new(big.Int).Mul(P, bi(int64(1+r.Intn(5)))))
			if v.BitLen() > 256 {
				v = new(big.Int).Add(new(big.Int).SetBytes(b[32*i:32*i+32]), P)
			}
			put32(b[32*i:32*i+32], bi(0))
			for z := 32 * i; z < 32*i+32; z++ {
				b[z] = 0
			}
			put32(b[32*i:], v)
		case 5:
			kind = "exchanged coordinates"
			i, j := r.Intn(len(b)/32), r.Intn(len(b)/32)
			t := append([]byte{}, b[32*i:32*i+32]...)
			copy(b[32*i:], b[32*j:32*j+32])
			copy(b[32*j:], t)
		case 6:
			kind = "opposite"
			if g == 1 {
				b = e.p1.neg().bytes()
			} else {
				b = e.p2.neg().bytes()
			}
		case 7:
			kind = "random coordinates"
			for i := 0; i < len(b)/32; i++ {
				for z := 32 * i; z < 32*i+32; z++ {
					b[z] = 0
				}
				put32(b[32*i:], randBelow(r, P))
			}
			if chance(r, 1, 3) {
				r.Read(b)
			}
		case 8:
			kind = "one coordinate zero"
			i := r.Intn(len(b) / 32)
			for z := 32 * i; z < 32*i+32; z++ {
				b[z] = 0
			}
		case 9:
			kind = "limits"
			i := r.Intn(len(b) / 32)
			v := new(big.Int).Add(P, bi(int64(r.Intn(3)-1)))
			if chance(r, 1, 4) {
				v = new(big.Int).Sub(new(big.Int).Lsh(one, 256), one)
			}
			for z := 32 * i; z < 32*i+32; z++ {
				b[z] = 0
			}
			put32(b[32*i:], v)
			if chance(r, 1, 3) {
				b = make([]byte, len(b))
				put32(b[32*i:], v)
			}
		case 10:
			if g == 1 {
				kind = "another curve"
				// a point of y^2 = x^3 + k
				x, y := randBelow(r, P), randBelow(r, P)
				b = pt1{x: x, y: y}.bytes()
			} else {
				kind = "outside the subgroup"
				t := randTwist(r)
				if !e.p2.inf && chance(r, 1, 3) {
					// one coordinate is that of a member
					for ok := false; !ok; {
						t.x = f2{randBelow(r, P), e.p2.x.b}
						if i := r.Intn(2); i == 0 {
							t.x = f2{e.p2.x.a, randBelow(r, P)}
						}
						t.y, ok = f2sqrt(f2add(f2mul(t.x, f2mul(t.x, t.x)), twistB))
					}
					if _, err := new(bn256.G2).Unmarshal(e.p2.bytes()); err != nil {
						c.Fail("decoding", "a member is refused: %v", err)
						return
					}
					c.Count("half a member outside the subgroup", 1)
					b = t.bytes()
					break
				}
				switch r.Intn(4) {
				case 0:
					// of an order that divides the cofactor
					t = t.mul(N)
				case 1:
					// near a member
					if !e.p2.inf {
						t = t.mul(N).add(e.p2)
					}
				}
				b = t.bytes()
			}
		case 11:
			kind = "neutral"
			b = make([]byte, len(b))
		}
		w1, w2, ok := valid(g, b)
		orig := append([]byte{}, b...)
		d := &elem{g: g, p1: w1, p2: w2}
		// the receiver may be new or hold another element
		var rest []byte
		var err error
		if g == 1 {
			d.a = new(bn256.G1)
			if chance(r, 1, 2) {
				d.a.ScalarBaseMult(bi(int64(r.Intn(9))))
			}
			rest, err = d.a.Unmarshal(b)
		} else {
			d.b = new(bn256.G2)
			if chance(r, 1, 2) {
				d.b.ScalarBaseMult(bi(int64(r.Intn(9))))
			}
			rest, err = d.b.Unmarshal(b)
		}
		if !bytes.Equal(b, orig) {
			c.Fail("argument", "decoding changed the bytes")
			return
		}
		if ok != (err == nil) {
			c.Fail("decoding", "group %d, %s: %s is decoded: %v (%v), expected %v", g, kind, hex.EncodeToString(b), err == nil, err, ok)
			return
		}
		if ok {
			if len(rest) != 0 || !bytes.Equal(d.marshal(), b) {
				c.Fail("round trip", "group %d, %s: %x is encoded again as %x, left over %x", g, kind, b, d.marshal(), rest)
				return
			}
			// the decoded element takes part in operations
			s := &elem{g: g}
			if g == 1 {
				s.a = new(bn256.G1).Add(new(bn256.G1).Add(d.a, e.a), d.a)
				s.p1 = d.p1.add(e.p1).add(d.p1)
			} else {
				s.b = new(bn256.G2).Add(new(bn256.G2).Add(d.b, e.b), d.b)
				s.p2 = d.p2.add(e.p2).add(d.p2)
			}
			if !bytes.Equal(s.marshal(), s.want()) {
				c.Fail("decoded operand", "group %d, %s: 2*%v + %v is %x", g, kind, d, e, s.marshal())
				return
			}
			c.Count("decoded", 1)
		} else {
			c.Count("refused: "+kind, 1)
		}
		c.Distinct(g, string(b))
	}
	c.Sample(map[string]string{"element": e.String(), "encoding": hex.EncodeToString(enc)})
}

func targetEncodings(c *Ctx) {
	r := c.R
	base := gtBase(c)
	if base == nil {
		return
	}
	k := smallOrBig(r)
	want := f12exp(*base, k)
	var e *bn256.GT
	switch r.Intn(3) {
	case 0:
		e = bn256.Pair(lib1(r, k), lib2(r, one))
	case 1:
		e = new(bn256.GT).ScalarMult(bn256.Pair(lib1(r, one), lib2(r, one)), k)
	case 2:
		e = new(bn256.GT).Neg(bn256.Pair(lib1(r, fsub(zero, k)), lib2(r, one)))
	}
	enc := e.Marshal()
	if !bytes.Equal(enc, f12bytes(want)) {
		c.Fail("target encoding", "power %v of the pairing of the generators is encoded as %x", k, enc)
		return
	}
	d := new(bn256.GT)
	if chance(r, 1, 2) {
		d = bn256.OneGT()
	}
	d2, ok := d.Unmarshal(enc)
	if !ok || d2 != d || !bytes.Equal(d.Marshal(), enc) {
		c.Fail("target round trip", "power %v: %v", k, ok)
		return
	}
	if s := new(bn256.GT).Add(d, e); !bytes.Equal(s.Marshal(), f12bytes(f12mul(want, want))) {
		c.Fail("target decoded operand", "power %v", k)
		return
	}
	c.Count("target elements", 1)
	for n := 0; n < 4; n++ {
		var b []byte
		switch r.Intn(6) {
		case 5:
			// the same element, or another one, with a coordinate outside of the base field
			b = append([]byte{}, enc...)
			i := r.Intn(12)
			v := new(big.Int).SetBytes(b[32*i : 32*i+32])
			switch r.Intn(3) {
			case 0:
				v.Add(v, P)
			case 1:
				v.Sub(new(big.Int).Lsh(one, 256), bi(int64(1+r.Intn(3))))
			case 2:
				v.Add(P, bi(int64(r.Intn(2))))
			}
			put32(b[32*i:], v)
			w, ok := new(bn256.GT).Unmarshal(b)
			if ok || w != nil {
				c.Fail("target coordinate", "coordinate %d of %x is decoded", i, b)
				return
			}
			c.Count("refused: target coordinate", 1)
			continue
		case 0:
			b = enc[:len(enc)-1-r.Intn(40)]
		case 1:
			b = append(append([]byte{}, enc...), make([]byte, 1+r.Intn(40))...)
		case 2:
			b = nil
		case 3:
			b = append(append([]byte{}, enc...), enc...)
		case 4:
			b = enc[:32*r.Intn(12)]
		}
		v, ok := new(bn256.GT).Unmarshal(b)
		if ok || v != nil {
			c.Fail("target length", "%d bytes are decoded", len(b))
			return
		}
		c.Count("refused: target length", 1)
	}
	c.Distinct("gt", k)
	c.Sample(map[string]string{"exponent": k.String(), "encoding": hex.EncodeToString(enc)})
}

func init() {
	register(&Prop{ID: "C17", Quick: 2000, Thorough: 150000, Run: runC17,
		Rule:   "a case runs ten operations on a pool of elements of one source group in drawn representations (results fresh or over operands; equal, opposite, neutral operands) and compares the whole pool with affine arithmetic after each; distinct by operation, operands and destination",
		Need:   []string{"operations compared", "neutral results", "results over an operand or another element", "orders", "random group elements", "failing sources reported", "multiples by negative numbers"}})
	register(&Prop{ID: "C18", Quick: 400, Thorough: 15000, Run: runC18,
		Assume: []string{"the pairing of the generators is read from the library and has to be a non-trivial element of the group order"},
		Rule:   "a case compares a pairing with the power of the pairing of the generators in an independent twelfth-degree extension, additivity for unrelated points, five target group operations and a product check over up to five pairs; distinct by exponents",
		Need:   []string{"pairings", "pairings of a neutral element", "additivity", "target group operations", "product checks: true", "product checks: false"}})
	register(&Prop{ID: "C19", Quick: 1500, Thorough: 80000, Run: runC19,
		Rule: "a case encodes one element in a drawn representation and decodes it and four corruptions of its encoding (lengths, bits, coordinates, other curves and subgroups), judged by an independent decoder; distinct by byte string",
		Need: []string{"elements encoded", "decoded", "target elements", "refused: length", "refused: flipped bit", "refused: coordinate plus modulus", "refused: outside the subgroup", "refused: another curve", "refused: limits", "refused: target length", "refused: target coordinate"}})
}
