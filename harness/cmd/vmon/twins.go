package main

import (
	"fmt"
	"math/big"
	"math/rand"
	"strings"
)

// Twins: two expressions that are nearly the same, in two assertions of one program. A compiler that identifies equal
// gates must not identify these.

type linear struct {
	names []string
	k     []*big.Int
}

func (l linear) eval(x map[string]*big.Int) *big.Int {
	v := bi(0)
	for i, n := range l.names {
		v = fadd(v, fmul(l.k[i], x[n]))
	}
	return v
}

func (l linear) text(r *rand.Rand) string {
	var t []string
	for i, n := range l.names {
		k := l.k[i]
		switch {
		case n == "":
			t = append(t, k.String())
		case k.Cmp(one) == 0 && chance(r, 3, 4):
			t = append(t, n)
		case chance(r, 1, 6):
			t = append(t, n+"*"+k.String())
		default:
			t = append(t, k.String()+"*"+n)
		}
	}
	return strings.Join(t, "+")
}

// twinOf alters one aspect of a linear form
func twinOf(r *rand.Rand, l linear, names []string) linear {
	t := linear{append([]string{}, l.names...), cloneVec(l.k)}
	i := r.Intn(len(t.k))
	switch r.Intn(10) {
	case 0, 1, 2:
		// coefficients that agree in many bits
		d := new(big.Int).Lsh(one, uint([]int{8, 16, 31, 32, 53, 62, 63, 64, 65, 96, 128, 192, 200, 248, 252}[r.Intn(15)]))
		t.k[i] = fadd(t.k[i], d)
	case 3:
		t.k[i] = fsub(bi(0), t.k[i])
	case 4:
		if t.k[i].Sign() != 0 {
			t.k[i] = minv(t.k[i], N)
		}
	case 5:
		// digits appended or cut off
		if s := t.k[i].String(); len(s) > 1 && chance(r, 1, 2) {
			t.k[i], _ = new(big.Int).SetString(s[:len(s)-1], 10)
		} else {
			t.k[i], _ = new(big.Int).SetString(s+pick(r, "0", "1", s[:1]), 10)
		}
		t.k[i] = mod(t.k[i], N)
	case 6, 7:
		j := r.Intn(len(t.k))
		t.k[i], t.k[j] = t.k[j], t.k[i]
	case 8:
		n := names[r.Intn(len(names))]
		for _, o := range t.names {
			if o == n {
				return t
			}
		}
		t.names[i] = n
	default:
		t.k[i] = fadd(t.k[i], delta(r))
	}
	return t
}

func twins(c *Ctx) {
	r := c.R
	for round := 0; round < 4 && !c.failed(); round++ {
		names := [][]string{{"x", "y", "z"}, {"x", "x1", "x11"}, {"a", "aa", "aaa"}, {"k1", "k11", "k2"}, {"b", "b0", "b00"}}[r.Intn(5)]
		var l linear
		for _, n := range names[:1+r.Intn(3)] {
			k := fieldElem(r, N)
			if chance(r, 1, 2) {
				k = bi(int64([]int{1, 2, 3, 11, 10, 111, 12, 21}[r.Intn(8)]))
			}
			l.names, l.k = append(l.names, n), append(l.k, k)
		}
		if chance(r, 1, 3) {
			// a constant
			l.names, l.k = append(l.names, ""), append(l.k, fieldElem(r, N))
		}
		t := twinOf(r, l, names)
		x := map[string]*big.Int{"": one}
		for _, n := range names {
			x[n] = fieldElem(r, N)
		}
		x["u"] = nonZeroElem(r, N)
		zero := false
		for _, k := range append(cloneVec(l.k), t.k...) {
			zero = zero || k.Sign() == 0
		}
		if zero {
			continue
		}
		diff := linear{append(append([]string{}, l.names...), t.names...), append(cloneVec(l.k), scaleVec(t.k, bi(-1))...)}
		product := chance(r, 1, 2)
		le, te := l.text(r), t.text(r)
		if product {
			le, te = "u*("+le+")", "u*("+te+")"
			if chance(r, 1, 2) {
				te = "(" + t.text(r) + ")*u"
			}
		}
		side := func(e, o string) string {
			if chance(r, 1, 3) {
				return o + "," + e
			}
			return e + "," + o
		}
		two := chance(r, 1, 2)
		args := append(append([]string{}, names...), "u", "c")
		o := "c"
		if two {
			o = "d"
			args = append(args, "d")
		}
		src := fmt.Sprintf("func main(%s){\nequal(%s)\nequal(%s)\n}\n", strings.Join(args, ","), side(le, "c"), side(te, o))
		if chance(r, 1, 3) {
			src = fmt.Sprintf("func main(%s){\nvar g=%s\nvar h=%s\nequal(%s)\nequal(%s)\n}\n", strings.Join(args, ","), le, te, side("g", "c"), side("h", o))
		}
		c.Note("%s", src)
		comp := mustCompile(c, src, false)
		if comp == nil {
			return
		}
		scale := one
		if product {
			scale = x["u"]
		}
		try := func(what string) {
			want := fmul(scale, l.eval(x)).Cmp(x["c"]) == 0 && fmul(scale, t.eval(x)).Cmp(x[o]) == 0
			vec := make([]*big.Int, 0, len(args))
			for _, n := range comp.inputs {
				vec = append(vec, x[n])
			}
			w, ok, done := runBoth(c, comp, vec)
			if !done {
				c.Note("inputs %v", x)
				return
			}
			if ok != want || (ok && comp.sys.broken(reduceVec(w, N)) >= 0) {
				c.Note("inputs %v", x)
				c.Fail("twins", "%s: accepted %v, both assertions hold: %v", what, ok, want)
				return
			}
			c.Count("twin assertions decided", 1)
			if want {
				c.Count("twin assertions satisfied", 1)
			}
			c.Distinct(src, what)
		}
		if two {
			x["c"], x["d"] = fmul(scale, l.eval(x)), fmul(scale, t.eval(x))
			try("both hold")
			for _, n := range []string{"c", "d"} {
				save := x[n]
				x[n] = fadd(save, delta(r))
				try(n + " is wrong")
				x[n] = save
			}
			x["c"], x["d"] = x["d"], x["c"]
			try("exchanged")
			continue
		}
		x["c"] = fmul(scale, l.eval(x))
		try("the first holds")
		x["c"] = fmul(scale, t.eval(x))
		try("the second holds")
		if c.failed() {
			return
		}
		// inputs for which both expressions have the same value
		for _, n := range names {
			slope := bi(0)
			for i, m := range diff.names {
				if m == n {
					slope = fadd(slope, diff.k[i])
				}
			}
			if slope.Sign() != 0 {
				x[n] = fsub(x[n], fmul(diff.eval(x), minv(slope, N)))
				x["c"] = fmul(scale, l.eval(x))
				try("the same value")
				break
			}
		}
	}
}

func scaleVec(a []*big.Int, k *big.Int) (out []*big.Int) {
	for _, v := range a {
		out = append(out, mod(new(big.Int).Mul(v, k), N))
	}
	return
}
