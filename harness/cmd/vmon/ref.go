package main

import (
	"fmt"
	"math/big"
	"math/rand"
)

// Reference arithmetic. Nothing in this file uses the library.

var (
	// N is the order of the groups, P the characteristic of the base field of the curve.
	N, _ = new(big.Int).SetString("21888242871839275222246405745257275088548364400416034343698204186575808495617", 10)
	P, _ = new(big.Int).SetString("21888242871839275222246405745257275088696311157297823662689037894645226208583", 10)
)

var (
	zero = big.NewInt(0)
	one  = big.NewInt(1)
	two  = big.NewInt(2)
)

func bi(i int64) *big.Int { return big.NewInt(i) }

func cp(a *big.Int) *big.Int { return new(big.Int).Set(a) }

func mod(a, m *big.Int) *big.Int { return new(big.Int).Mod(a, m) }

func madd(a, b, m *big.Int) *big.Int { r := new(big.Int).Add(a, b); return r.Mod(r, m) }
func msub(a, b, m *big.Int) *big.Int { r := new(big.Int).Sub(a, b); return r.Mod(r, m) }
func mmul(a, b, m *big.Int) *big.Int { r := new(big.Int).Mul(a, b); return r.Mod(r, m) }
func minv(a, m *big.Int) *big.Int {
	r := new(big.Int).ModInverse(mod(a, m), m)
	if r == nil {
		panic("reference: no inverse")
	}
	return r
}

func fadd(a, b *big.Int) *big.Int { return madd(a, b, N) }
func fsub(a, b *big.Int) *big.Int { return msub(a, b, N) }
func fmul(a, b *big.Int) *big.Int { return mmul(a, b, N) }

// randBelow returns a uniform integer in [0,m).
func randBelow(r *rand.Rand, m *big.Int) *big.Int { return new(big.Int).Rand(r, m) }

// fieldElem draws a field element with an emphasis on special values.
func fieldElem(r *rand.Rand, m *big.Int) *big.Int {
	switch r.Intn(10) {
	case 0:
		return bi(0)
	case 1:
		return bi(1)
	case 2:
		return new(big.Int).Sub(m, one)
	case 3:
		return mod(bi(2), m)
	case 4, 5:
		return mod(bi(int64(r.Intn(1000))), m)
	case 6:
		// around powers of two, those of machine words before others
		k := r.Intn(256)
		if r.Intn(2) == 0 {
			k = []int{8, 15, 16, 24, 31, 32, 48, 52, 53, 62, 63, 64, 65, 127, 128, 191, 192, 252, 253, 254, 255, 256}[r.Intn(22)]
		}
		v := new(big.Int).Lsh(one, uint(k))
		if r.Intn(2) == 0 {
			v.Add(v, bi(int64(r.Intn(7)-3)))
		}
		return mod(v, m)
	case 7:
		// any length
		return mod(randBelow(r, new(big.Int).Lsh(one, uint(1+r.Intn(256)))), m)
	}
	return randBelow(r, m)
}

// nonZeroElem draws a field element that is not zero.
func nonZeroElem(r *rand.Rand, m *big.Int) *big.Int {
	for {
		if v := fieldElem(r, m); v.Sign() != 0 {
			return v
		}
	}
}

// ---- polynomials as coefficient vectors over an arbitrary prime

func trim(p []*big.Int) []*big.Int {
	for len(p) > 0 && p[len(p)-1].Sign() == 0 {
		p = p[:len(p)-1]
	}
	return p
}

func reduceVec(p []*big.Int, m *big.Int) []*big.Int {
	out := make([]*big.Int, len(p))
	for i := range p {
		if p[i] == nil {
			out[i] = bi(0)
			continue
		}
		out[i] = mod(p[i], m)
	}
	return out
}

func polyEval(p []*big.Int, x, m *big.Int) *big.Int {
	acc := bi(0)
	for i := len(p) - 1; i >= 0; i-- {
		acc.Mul(acc, x)
		acc.Add(acc, p[i])
		acc.Mod(acc, m)
	}
	return acc
}

func polyAdd(a, b []*big.Int, m *big.Int) []*big.Int {
	n := len(a)
	if len(b) > n {
		n = len(b)
	}
	out := make([]*big.Int, n)
	for i := range out {
		out[i] = bi(0)
		if i < len(a) {
			out[i].Add(out[i], a[i])
		}
		if i < len(b) {
			out[i].Add(out[i], b[i])
		}
		out[i].Mod(out[i], m)
	}
	return out
}

func polyScale(a []*big.Int, s, m *big.Int) []*big.Int {
	out := make([]*big.Int, len(a))
	for i := range a {
		out[i] = mmul(a[i], s, m)
	}
	return out
}

func polySub(a, b []*big.Int, m *big.Int) []*big.Int {
	return polyAdd(a, polyScale(b, bi(-1), m), m)
}

func polyMul(a, b []*big.Int, m *big.Int) []*big.Int {
	if len(a) == 0 || len(b) == 0 {
		return nil
	}
	out := make([]*big.Int, len(a)+len(b)-1)
	for i := range out {
		out[i] = bi(0)
	}
	for i := range a {
		for j := range b {
			t := new(big.Int).Mul(a[i], b[j])
			out[i+j].Add(out[i+j], t)
			out[i+j].Mod(out[i+j], m)
		}
	}
	return out
}

// polyDivMod is schoolbook division. b must not be zero.
func polyDivMod(a, b []*big.Int, m *big.Int) (q, r []*big.Int) {
	r = trim(reduceVec(a, m))
	b = trim(reduceVec(b, m))
	inv := minv(b[len(b)-1], m)
	if len(r) < len(b) {
		return nil, r
	}
	q = make([]*big.Int, len(r)-len(b)+1)
	for i := range q {
		q[i] = bi(0)
	}
	for len(r) >= len(b) {
		d := len(r) - len(b)
		f := mmul(r[len(r)-1], inv, m)
		q[d] = f
		for i := range b {
			r[i+d] = msub(r[i+d], mmul(b[i], f, m), m)
		}
		r = trim(r)
	}
	return
}

// domainPoly returns x(x-1)...(x-(n-1)).
func domainPoly(n int, m *big.Int) []*big.Int {
	p := []*big.Int{bi(1)}
	for i := 0; i < n; i++ {
		p = polyMul(p, []*big.Int{mod(bi(int64(-i)), m), bi(1)}, m)
	}
	return p
}

// interpolate returns the polynomial of degree < n with p(i) = ys[i] (newton's method).
func interpolate(ys []*big.Int, m *big.Int) []*big.Int {
	n := len(ys)
	coef := make([]*big.Int, n)
	for i := range ys {
		coef[i] = mod(ys[i], m)
	}
	for j := 1; j < n; j++ {
		for i := n - 1; i >= j; i-- {
			num := msub(coef[i], coef[i-1], m)
			coef[i] = mmul(num, minv(bi(int64(j)), m), m)
		}
	}
	var p []*big.Int
	for i := n - 1; i >= 0; i-- {
		// p = p*(x-i) + coef[i]
		p = polyAdd(polyMul(p, []*big.Int{mod(bi(int64(-i)), m), bi(1)}, m), []*big.Int{coef[i]}, m)
	}
	return p
}

func vecEqual(a, b []*big.Int) bool {
	a, b = trim(a), trim(b)
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].Cmp(b[i]) != 0 {
			return false
		}
	}
	return true
}

func vecString(v []*big.Int) string {
	s := "["
	for i, e := range v {
		if i > 0 {
			s += " "
		}
		s += short(e)
	}
	return s + "]"
}

func short(e *big.Int) string {
	if e == nil {
		return "nil"
	}
	s := e.String()
	return s
}

// ---- affine curve arithmetic in source group 1

type pt1 struct {
	x, y *big.Int
	inf  bool
}

var g1gen = pt1{x: bi(1), y: bi(2)}

func (a pt1) String() string {
	if a.inf {
		return "inf"
	}
	return fmt.Sprintf("(%v,%v)", a.x, a.y)
}

func (a pt1) eq(b pt1) bool {
	if a.inf || b.inf {
		return a.inf == b.inf
	}
	return a.x.Cmp(b.x) == 0 && a.y.Cmp(b.y) == 0
}

func (a pt1) neg() pt1 {
	if a.inf {
		return a
	}
	return pt1{x: a.x, y: msub(zero, a.y, P)}
}

func (a pt1) add(b pt1) pt1 {
	if a.inf {
		return b
	}
	if b.inf {
		return a
	}
	var l *big.Int
	if a.x.Cmp(b.x) == 0 {
		if a.y.Cmp(b.y) != 0 || a.y.Sign() == 0 {
			return pt1{inf: true}
		}
		l = mmul(mmul(bi(3), mmul(a.x, a.x, P), P), minv(mmul(two, a.y, P), P), P)
	} else {
		l = mmul(msub(b.y, a.y, P), minv(msub(b.x, a.x, P), P), P)
	}
	x := msub(msub(mmul(l, l, P), a.x, P), b.x, P)
	y := msub(mmul(l, msub(a.x, x, P), P), a.y, P)
	return pt1{x: x, y: y}
}

func (a pt1) mul(k *big.Int) pt1 {
	if k.Sign() < 0 {
		return a.mul(new(big.Int).Neg(k)).neg()
	}
	acc := pt1{inf: true}
	for i := k.BitLen() - 1; i >= 0; i-- {
		acc = acc.add(acc)
		if k.Bit(i) == 1 {
			acc = acc.add(a)
		}
	}
	return acc
}

func (a pt1) onCurve() bool {
	if a.inf {
		return true
	}
	return mmul(a.y, a.y, P).Cmp(madd(mmul(a.x, mmul(a.x, a.x, P), P), bi(3), P)) == 0
}

func (a pt1) bytes() []byte {
	out := make([]byte, 64)
	if a.inf {
		return out
	}
	put32(out[0:], a.x)
	put32(out[32:], a.y)
	return out
}

func put32(dst []byte, v *big.Int) {
	b := v.Bytes()
	copy(dst[32-len(b):32], b)
}

// randCurve1 draws a point of the curve by its x coordinate
func randCurve1(r *rand.Rand) pt1 {
	for {
		x := randBelow(r, P)
		y2 := madd(mmul(x, mmul(x, x, P), P), bi(3), P)
		if y := new(big.Int).ModSqrt(y2, P); y != nil {
			if r.Intn(2) == 0 {
				y = msub(zero, y, P)
			}
			return pt1{x: x, y: y}
		}
	}
}

// ---- the quadratic extension: a*i + b with i^2 = -1

type f2 struct{ a, b *big.Int } // a is the coefficient of i

func f2add(x, y f2) f2 { return f2{madd(x.a, y.a, P), madd(x.b, y.b, P)} }
func f2sub(x, y f2) f2 { return f2{msub(x.a, y.a, P), msub(x.b, y.b, P)} }
func f2mul(x, y f2) f2 {
	return f2{madd(mmul(x.a, y.b, P), mmul(x.b, y.a, P), P), msub(mmul(x.b, y.b, P), mmul(x.a, y.a, P), P)}
}
func f2inv(x f2) f2 {
	n := minv(madd(mmul(x.a, x.a, P), mmul(x.b, x.b, P), P), P)
	return f2{mmul(msub(zero, x.a, P), n, P), mmul(x.b, n, P)}
}
func f2zero(x f2) bool   { return x.a.Sign() == 0 && x.b.Sign() == 0 }
func f2eq(x, y f2) bool  { return x.a.Cmp(y.a) == 0 && x.b.Cmp(y.b) == 0 }
func f2small(i int64) f2 { return f2{bi(0), bi(i)} }
func f2exp(x f2, e *big.Int) f2 {
	acc := f2small(1)
	for i := e.BitLen() - 1; i >= 0; i-- {
		acc = f2mul(acc, acc)
		if e.Bit(i) == 1 {
			acc = f2mul(acc, x)
		}
	}
	return acc
}

// f2sqrt returns a square root if there is one (p = 3 mod 4, complex method).
func f2sqrt(x f2) (f2, bool) {
	if f2zero(x) {
		return x, true
	}
	// norm must be a square in the base field
	n := madd(mmul(x.a, x.a, P), mmul(x.b, x.b, P), P)
	s := new(big.Int).ModSqrt(n, P)
	if s == nil {
		return f2{}, false
	}
	half := minv(two, P)
	for _, t := range []*big.Int{s, msub(zero, s, P)} {
		d := mmul(madd(x.b, t, P), half, P)
		r := new(big.Int).ModSqrt(d, P)
		if r == nil || r.Sign() == 0 {
			continue
		}
		im := mmul(x.a, minv(mmul(two, r, P), P), P)
		c := f2{im, r}
		if f2eq(f2mul(c, c), x) {
			return c, true
		}
	}
	// purely imaginary root
	if x.a.Sign() == 0 {
		r := new(big.Int).ModSqrt(msub(zero, x.b, P), P)
		if r != nil {
			return f2{r, bi(0)}, true
		}
	}
	return f2{}, false
}

type pt2 struct {
	x, y f2
	inf  bool
}

func (a pt2) String() string {
	if a.inf {
		return "inf"
	}
	return fmt.Sprintf("((%v,%v),(%v,%v))", a.x.a, a.x.b, a.y.a, a.y.b)
}
func (a pt2) eq(b pt2) bool {
	if a.inf || b.inf {
		return a.inf == b.inf
	}
	return f2eq(a.x, b.x) && f2eq(a.y, b.y)
}
func (a pt2) neg() pt2 {
	if a.inf {
		return a
	}
	return pt2{x: a.x, y: f2sub(f2small(0), a.y)}
}
func (a pt2) add(b pt2) pt2 {
	if a.inf {
		return b
	}
	if b.inf {
		return a
	}
	var l f2
	if f2eq(a.x, b.x) {
		if !f2eq(a.y, b.y) || f2zero(a.y) {
			return pt2{inf: true}
		}
		l = f2mul(f2mul(f2small(3), f2mul(a.x, a.x)), f2inv(f2add(a.y, a.y)))
	} else {
		l = f2mul(f2sub(b.y, a.y), f2inv(f2sub(b.x, a.x)))
	}
	x := f2sub(f2sub(f2mul(l, l), a.x), b.x)
	y := f2sub(f2mul(l, f2sub(a.x, x)), a.y)
	return pt2{x: x, y: y}
}
func (a pt2) mul(k *big.Int) pt2 {
	if k.Sign() < 0 {
		return a.mul(new(big.Int).Neg(k)).neg()
	}
	acc := pt2{inf: true}
	for i := k.BitLen() - 1; i >= 0; i-- {
		acc = acc.add(acc)
		if k.Bit(i) == 1 {
			acc = acc.add(a)
		}
	}
	return acc
}
func (a pt2) bytes() []byte {
	out := make([]byte, 128)
	if a.inf {
		return out
	}
	put32(out[0:], a.x.a)
	put32(out[32:], a.x.b)
	put32(out[64:], a.y.a)
	put32(out[96:], a.y.b)
	return out
}

func dec(s string) *big.Int {
	v, ok := new(big.Int).SetString(s, 10)
	if !ok {
		panic(s)
	}
	return v
}

// the generator of the second source group and the coefficient of the twist it lies on
var g2gen, twistB = func() (pt2, f2) {
	g := pt2{
		x: f2{dec("11559732032986387107991004021392285783925812861821192530917403151452391805634"), dec("10857046999023057135944570762232829481370756359578518086990519993285655852781")},
		y: f2{dec("4082367875863433681332203403145435568316851327593401208105741076214120093531"), dec("8495653923123431417604973247489272438418190587263600148770280649306958101930")},
	}
	b := f2sub(f2mul(g.y, g.y), f2mul(g.x, f2mul(g.x, g.x)))
	return g, b
}()

func (a pt2) onTwist() bool {
	if a.inf {
		return true
	}
	return f2eq(f2mul(a.y, a.y), f2add(f2mul(a.x, f2mul(a.x, a.x)), twistB))
}

// randTwist draws a point of the twist, which almost never lies in the subgroup of order N
func randTwist(r *rand.Rand) pt2 {
	for {
		x := f2{randBelow(r, P), randBelow(r, P)}
		if y, ok := f2sqrt(f2add(f2mul(x, f2mul(x, x)), twistB)); ok {
			return pt2{x: x, y: y}
		}
	}
}

// ---- constraint systems as plain matrices

type sys struct {
	L, R, E, O [][]*big.Int // [constraint][entry], canonical
	gates, wit int
	alias      bool // equal entries of the library's system are the same object
}

// gX is the first coordinate of the e-fold generator, as it appears in an exponent constraint.
func gX(e *big.Int) *big.Int {
	if e.Sign() == 0 {
		return bi(0)
	}
	k := mod(e, N).String()
	if v, ok := gXMemo[k]; ok {
		return v
	}
	if len(gXMemo) > 20000 {
		gXMemo = map[string]*big.Int{}
	}
	v := bi(0)
	if m := g1gen.mul(mod(e, N)); !m.inf {
		v = mod(m.x, N)
	}
	gXMemo[k] = v
	return v
}

var gXMemo = map[string]*big.Int{}

func dot(a, w []*big.Int) *big.Int {
	acc := bi(0)
	for i := range a {
		if a[i].Sign() != 0 {
			acc.Add(acc, new(big.Int).Mul(a[i], w[i]))
		}
	}
	return acc.Mod(acc, N)
}

// defect of constraint j under the witness: L*R + g^E - O
func (s *sys) defect(j int, w []*big.Int) *big.Int {
	d := fmul(dot(s.L[j], w), dot(s.R[j], w))
	if e := dot(s.E[j], w); e.Sign() != 0 {
		d = fadd(d, gX(e))
	}
	return fsub(d, dot(s.O[j], w))
}

// broken returns the index of the first violated constraint or -1
func (s *sys) broken(w []*big.Int) int {
	for j := 0; j < s.gates; j++ {
		if s.defect(j, w).Sign() != 0 {
			return j
		}
	}
	return -1
}

// mentions tells whether constraint j refers to witness entry i
func (s *sys) mentions(j, i int) bool {
	return s.L[j][i].Sign() != 0 || s.R[j][i].Sign() != 0 || s.E[j][i].Sign() != 0 || s.O[j][i].Sign() != 0
}

// brokenBy is broken restricted to the constraints that mention entry i
func (s *sys) brokenBy(w []*big.Int, i int) int {
	for j := 0; j < s.gates; j++ {
		if s.mentions(j, i) && s.defect(j, w).Sign() != 0 {
			return j
		}
	}
	return -1
}
