package main

import (
	"encoding/hex"
	"fmt"
	"math/big"
	"math/rand"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/mottla/go-AlgebraicProgram-SNARK/circuitcompiler"
	bn256 "github.com/mottla/go-AlgebraicProgram-SNARK/pairing"
	"github.com/mottla/go-AlgebraicProgram-SNARK/utils"
	"github.com/mottla/go-AlgebraicProgram-SNARK/zkSNARK"
)

// Monitor of concurrent use: C20. The race detector watches the library while several goroutines use values they share; every
// result is compared with the result of the same call in a sequential run over equal but separate values.

// op is one call. It must not touch anything that is shared and not read-only.
type op struct {
	name string
	f    func() string
}

// span is one executed call. Spans are kept per goroutine: a shared log would order the goroutines and hide races.
type span struct {
	op       int
	from, to time.Time
}

// outcome executes a call; a panic is a possible outcome
func outcome(o op) (s string) {
	if caught := try(func() { s = o.f() }); caught != nil {
		return "panic: " + clip(caught.String(), 100)
	}
	return s
}

// concurrently runs the calls of shared over several goroutines, and compares with the calls of alone. Both lists are built by
// the same recipe over separate values. pick tells which calls are executed, and in which order.
func concurrently(c *Ctx, kind string, shared, alone []op, goroutines, calls int) {
	r := c.R
	plan := make([][]int, goroutines)
	same := chance(r, 1, 3) // all goroutines make the same calls in the same order
	var line []int
	for k := 0; k < calls; k++ {
		line = append(line, r.Intn(len(shared)))
	}
	used := map[int]bool{}
	for i := range plan {
		if same {
			plan[i] = line
		} else {
			for k := 0; k < calls; k++ {
				plan[i] = append(plan[i], r.Intn(len(shared)))
			}
		}
		for _, k := range plan[i] {
			used[k] = true
		}
	}
	nap := make([][]int, goroutines)
	for i := range nap {
		mode := r.Intn(3)
		for range plan[i] {
			n := 0
			switch {
			case mode == 1 && chance(r, 1, 2):
				n = -1
			case mode == 2 && chance(r, 1, 3):
				n = 1 + r.Intn(300)
			}
			nap[i] = append(nap[i], n)
		}
	}
	got := make([][]string, goroutines)
	logs := make([][]span, goroutines)
	start := make(chan struct{})
	var wg sync.WaitGroup
	for i := 0; i < goroutines; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			<-start
			for n, k := range plan[i] {
				switch d := nap[i][n]; {
				case d < 0:
					runtime.Gosched()
				case d > 0:
					time.Sleep(time.Duration(d) * time.Microsecond)
				}
				s := span{op: k, from: time.Now()}
				got[i] = append(got[i], outcome(shared[k]))
				s.to = time.Now()
				logs[i] = append(logs[i], s)
			}
		}(i)
	}
	close(start)
	wg.Wait()
	want := map[int]string{}
	for k := range used {
		want[k] = outcome(alone[k])
	}
	for i := range plan {
		for n, k := range plan[i] {
			if got[i][n] != want[k] {
				c.Fail("result", "%s: %s gives %s among concurrent calls and %s alone", kind, shared[k].name, clip(got[i][n], 800), clip(want[k], 800))
				return
			}
		}
	}
	// what has been observed
	var all []span
	for _, l := range logs {
		all = append(all, l...)
	}
	sort.Slice(all, func(i, j int) bool { return all[i].from.Before(all[j].from) })
	overlaps, pairs := 0, map[[2]string]bool{}
	for i := range all {
		for j := i + 1; j < len(all) && all[j].from.Before(all[i].to); j++ {
			overlaps++
			a, b := shared[all[i].op].name, shared[all[j].op].name
			if a > b {
				a, b = b, a
			}
			pairs[[2]string{a, b}] = true
		}
	}
	var order strings.Builder
	for _, s := range all {
		fmt.Fprintf(&order, "%d ", s.op)
	}
	c.Count("concurrent calls", len(all))
	c.Count("overlapping pairs of calls", overlaps)
	c.Count("overlapping pairs of calls ("+kind+")", overlaps)
	if overlaps > 0 {
		c.Distinct(kind, order.String())
	}
	var names []string
	for p := range pairs {
		names = append(names, p[0]+" | "+p[1])
	}
	sort.Strings(names)
	if len(names) > 12 {
		names = names[:12]
	}
	c.Sample(map[string]interface{}{"kind": kind, "goroutines": goroutines, "calls": len(all), "overlapping": names})
}

func digest(parts ...interface{}) string { return snapAny(parts) }

func runC20(c *Ctx) {
	switch c.Idx % 8 {
	case 0, 4:
		concurrentMath(c)
	case 1, 5:
		concurrentGroups(c)
	case 2:
		concurrentCompilers(c)
	case 3, 6:
		concurrentCircuit(c)
	case 7:
		concurrentProofs(c)
	}
}

// twice builds the same calls over two separate but equal sets of values
func twice(c *Ctx, build func(r *rand.Rand) []op) (a, b []op) {
	seed := c.R.Int63()
	return build(rand.New(rand.NewSource(seed))), build(rand.New(rand.NewSource(seed)))
}

func concurrentMath(c *Ctx) {
	q := N
	if chance(c.R, 1, 3) {
		q = bigPrime(c.R)
	}
	global := q.Cmp(N) == 0 && chance(c.R, 1, 4)
	build := func(r *rand.Rand) (ops []op) {
		// the field is new, so that its caches are filled by the concurrent calls
		f := utils.PrepareFields(cp(q))
		if global {
			f = utils.Field
		}
		fq, pf := f.ArithmeticField, f.PolynomialField
		n := 2 + r.Intn(9)
		if c.Idx%32 == 12 {
			n = 20 + r.Intn(50)
		}
		var nums []*big.Int
		var polys [][]*big.Int
		var trees []*utils.AvlTree
		for i := 0; i < 4; i++ {
			nums = append(nums, nonZeroElem(r, q))
			p := drawPoly(r, q, n, true)
			for len(p) < n {
				p = append(p, fieldElem(r, q))
			}
			polys = append(polys, p)
			trees = append(trees, treeOf(polys[i], r))
		}
		add := func(name string, g func() string) { ops = append(ops, op{name, g}) }
		for i := 0; i < 4; i++ {
			i, j := i, r.Intn(4)
			a, b := nums[i], nums[j]
			x, y := polys[i], polys[j]
			s, t := trees[i], trees[j]
			add("field", func() string {
				return digest(fq.Add(a, b), fq.Sub(a, b), fq.Mul(a, b), fq.Div(a, b), fq.Inverse(a), fq.Exp(a, bi(77)), fq.Affine(a), fq.Equal(a, b), fq.Neg(a))
			})
			add("LagrangeInterpolation", func() string { return digest(pf.LagrangeInterpolation(x)) })
			add("InterpolateSparseArray", func() string { return digest(fq.InterpolateSparseArray(s, n)) })
			add("longer interpolation", func() string {
				return digest(fq.InterpolateSparseArray(s, n+1+i), pf.LagrangeInterpolation(append(append([]*big.Int{}, x...), b)))
			})
			add("dense polynomials", func() string {
				u, v := pf.Div(pf.Add(pf.Mul(x, y), x), append(append([]*big.Int{}, y...), bi(1)))
				return digest(pf.Sub(x, y), u, v, fq.EvalPoly(x, a), fq.ScalarProduct(x, y), pf.LinearCombine([][]*big.Int{x, y}, []*big.Int{a, b}), pf.AddPolynomials([][]*big.Int{x, y}), pf.DomainPolynomial(n), pf.NewPolZeroAt(0, n, a))
			})
			add("sparse polynomials", func() string {
				d := utils.NewSparseArrayWith(uint(r2(i)), a)
				u, v := fq.DivideSparse(fq.AddToSparse(fq.MulSparse(s, t), s), fq.AddToSparse(t, d))
				return digest(fq.SubToSparse(s, t), u, v, fq.EvalSparsePoly(s, a), fq.SparseScalarProduct(s, y), fq.MulSparseScalar(s, b), fq.LinearCombine([]*utils.AvlTree{s, t}, []*big.Int{a, b}), fq.AddPolynomials([]*utils.AvlTree{s, t}))
			})
			add("reading a tree", func() string {
				var l []utils.Entry
				for e := range s.ChannelNodes(i%2 == 0) {
					l = append(l, e)
				}
				return digest(l, s.DecendingNodes(), s.Size(), s.MaxPower(), s.Has(1), s.String(), s.Clone(), s.ToArray(n+1))
			})
			add("transposition", func() string {
				return digest(utils.TransposeSparse([]*utils.AvlTree{s, t}, n), utils.Transpose([][]*big.Int{x, y}), utils.NewSparseArrayFromArray(x), utils.ArrayOfBigZeros(n))
			})
		}
		return
	}
	shared, alone := twice(c, build)
	concurrently(c, "field, polynomials, trees", shared, alone, 2+c.R.Intn(6), 4+c.R.Intn(16))
}

func r2(i int) int { return 20 + i }

func concurrentGroups(c *Ctx) {
	build := func(r *rand.Rand) (ops []op) {
		var a []*bn256.G1
		var b []*bn256.G2
		var t []*bn256.GT
		add := func(name string, g func() string) { ops = append(ops, op{name, g}) }
		for i := 0; i < 3; i++ {
			k := smallOrBig(r)
			a = append(a, lib1(r, k))
			b = append(b, lib2(r, smallOrBig(r)))
		}
		a = append(a, new(bn256.G1).ScalarBaseMult(bi(0)))
		t = append(t, bn256.Pair(a[0], b[0]), bn256.OneGT())
		enc1, enc2, encT := otherRep1(r, a[0]).Marshal(), b[1].Marshal(), t[0].Marshal()
		ks := []*big.Int{randBelow(r, N), bi(int64(r.Intn(100))), N}
		for i := 0; i < 4; i++ {
			x, y := a[i], a[r.Intn(4)]
			u, v := b[i%3], b[r.Intn(3)]
			k := ks[r.Intn(3)]
			add("encode G1", func() string { return hex.EncodeToString(x.Marshal()) })
			add("encode G2", func() string { return hex.EncodeToString(u.Marshal()) })
			add("print", func() string {
				return hex.EncodeToString(x.Marshal()) + fmt.Sprint(len(x.String()) > 0, len(u.String()) > 0, x.X())
			})
			add("add G1", func() string { return digest(new(bn256.G1).Add(x, y), new(bn256.G1).Neg(x)) })
			add("add G2", func() string { return digest(new(bn256.G2).Add(u, v)) })
			add("multiply G1", func() string { return digest(new(bn256.G1).ScalarMult(x, k)) })
			add("multiply G2", func() string { return digest(new(bn256.G2).ScalarMult(u, k)) })
			add("multiply the generators", func() string {
				return digest(new(bn256.G1).ScalarBaseMult(k), new(bn256.G2).ScalarBaseMult(bi(int64(i+3))))
			})
		}
		add("pair", func() string { return digest(bn256.Pair(a[0], b[0])) })
		add("pair", func() string { return digest(bn256.Pair(a[1], b[1])) })
		add("PairingCheck", func() string {
			return fmt.Sprint(bn256.PairingCheck([]*bn256.G1{a[0], new(bn256.G1).Neg(a[0])}, []*bn256.G2{b[0], b[0]}))
		})
		// lists of several pairs, some of whose products are trivial
		most := 2
		if chance(r, 1, 6) {
			most = 10
		}
		for k := 0; k < 3; k++ {
			var l []*bn256.G1
			var m []*bn256.G2
			for i := 1 + r.Intn(most); i > 0; i-- {
				x, y := a[r.Intn(len(a))], b[r.Intn(len(b))]
				l, m = append(l, x, new(bn256.G1).Neg(x)), append(m, y, y)
			}
			if chance(r, 1, 3) {
				l, m = l[1:], m[1:]
			}
			add("long PairingCheck", func() string { return fmt.Sprint(bn256.PairingCheck(l, m)) })
		}
		add("target group", func() string {
			return digest(new(bn256.GT).Add(t[0], t[1]), new(bn256.GT).Neg(t[0]), t[0].Marshal(), new(bn256.GT).ScalarMult(t[0], bi(5)), bn256.OneGT(), bn256.ZeroGT())
		})
		add("decode", func() string {
			e1, e2, et := new(bn256.G1), new(bn256.G2), new(bn256.GT)
			_, err1 := e1.Unmarshal(enc1)
			_, err2 := e2.Unmarshal(enc2)
			et.Unmarshal(encT)
			return digest(e1, e2, et, fmt.Sprint(err1, err2))
		})
		return
	}
	shared, alone := twice(c, build)
	concurrently(c, "groups", shared, alone, 2+c.R.Intn(5), 3+c.R.Intn(5))
}

// sources draws programs of which some are malformed
func sources(r *rand.Rand, n int) (out []string) {
	for len(out) < n {
		p := drawProgram(r, richConf(r), 40)
		s := p.source()
		if chance(r, 1, 5) {
			if _, bad := malform(r, p); bad != "" {
				s = bad
			}
		}
		out = append(out, s)
	}
	return
}

func compiledDigest(src string) string {
	comp, err := compile(src)
	if err != nil {
		return "refused"
	}
	return fingerprint(comp)
}

func concurrentCompilers(c *Ctx) {
	n, calls := 2+c.R.Intn(5), 3+c.R.Intn(6)
	large := c.Idx%32 == 10
	if large {
		n, calls = 8, 4
		c.Count("rounds of large programs", 1)
	}
	build := func(r *rand.Rand) (ops []op) {
		srcs := sources(r, 4)
		if large {
			// deep recursions and long loops
			srcs = nil
			for i := 0; i < 4; i++ {
				d := 600 + r.Intn(600)
				rec := fmt.Sprintf("func f(n,x){\nif n==0{\nreturn x\n}\nreturn f(n-1,x+%d)\n}\nfunc main(x,c){\nequal(f(%d,x),c)\n}\n", 1+r.Intn(9), d)
				loop := fmt.Sprintf("func main(x,c){\nvar s=x\nvar i=0\nfor(i<%d;i=i+1){\ns=s*(x+i)\n}\nequal(s,c)\n}\n", 50+r.Intn(100))
				srcs = append(srcs, rec, rec, rec, loop)
			}
		}
		for _, s := range srcs {
			s := s
			ops = append(ops, op{"compile", func() string { return compiledDigest(s) }})
			if large {
				continue
			}
			ops = append(ops, op{"tokenize", func() string {
				t, over, caught := libTokens(s, len(s)+5, false)
				return fmt.Sprint(t, over, caught != nil)
			}})
		}
		return
	}
	shared, alone := twice(c, build)
	concurrently(c, "compiling", shared, alone, n, calls)
}

func concurrentCircuit(c *Ctx) {
	var src string
	build := func(r *rand.Rand) (ops []op) {
		var p *program
		var comp *compiled
		var in map[string]*big.Int
		for comp == nil {
			p = drawProgram(r, richConf(r), 40)
			in = p.inputs(r)
			p.solveOuts(in, stepLimit)
			src = p.source()
			comp, _ = compile(src)
		}
		vec := vector(comp.inputs, in)
		bad := cloneVec(vec)
		if len(bad) > 0 {
			i := r.Intn(len(bad))
			bad[i] = fadd(bad[i], one)
		}
		args, badArgs := circuitcompiler.CombineInputs(comp.inputs, vec), circuitcompiler.CombineInputs(comp.inputs, bad)
		tr, ts := comp.dense.Transpose(), comp.sparse.TransposeSparse()
		show := func(w []*big.Int, err error) string { return digest(w, fmt.Sprint(err != nil)) }
		add := func(name string, g func() string) { ops = append(ops, op{name, g}) }
		add("dense witness", func() string { return show(circuitcompiler.CalculateWitness(comp.dense, args)) })
		add("sparse witness", func() string { return show(circuitcompiler.CalculateSparseWitness(comp.sparse, args)) })
		add("dense witness of other inputs", func() string { return show(circuitcompiler.CalculateWitness(comp.dense, badArgs)) })
		add("sparse witness of other inputs", func() string { return show(circuitcompiler.CalculateSparseWitness(comp.sparse, badArgs)) })
		add("dense emission", func() string { return digest(comp.prog.GatesToR1CS(comp.gates, false)) })
		add("sparse emission", func() string { return digest(comp.prog.GatesToSparseR1CS(comp.gates, false)) })
		add("randomised emission", func() string {
			return digest(comp.prog.GatesToR1CS(comp.gates, true), comp.prog.GatesToSparseR1CS(comp.gates, true))
		})
		add("execution", func() string {
			g := comp.prog.Execute()
			return digest(comp.prog.GatesToR1CS(g, false))
		})
		// executed for the first time by whoever comes first
		fresh := circuitcompiler.Parse(src, true)
		for k := 0; k < 3; k++ {
			add("first execution", func() string {
				g := fresh.Execute()
				return digest(fresh.GatesToR1CS(g, false), fresh.GatesToSparseR1CS(fresh.Execute(), false))
			})
		}
		// gates that have not been emitted before
		gates := circuitcompiler.Parse(src, true).Execute()
		for k := 0; k < 2; k++ {
			add("first dense emission", func() string { return digest(comp.prog.GatesToR1CS(gates, false)) })
			add("first sparse emission", func() string { return digest(comp.prog.GatesToSparseR1CS(gates, false)) })
		}
		add("transposition", func() string { return digest(comp.dense.Transpose(), comp.sparse.TransposeSparse()) })
		add("layout", func() string { return fmt.Sprint(comp.prog.GlobalInputCount(), comp.prog.GetMainCircuit().Inputs) })
		if comp.sys.gates*comp.sys.wit < 200 {
			add("dense interpolation", func() string { l, r, e, o := tr.ER1CSToEAP(); return digest(l, r, e, o) })
			add("sparse interpolation", func() string { l, r, e, o := ts.ER1CSToEAPSparse(); return digest(l, r, e, o) })
		}
		return
	}
	shared, alone := twice(c, build)
	c.Note("%s", src)
	concurrently(c, "one circuit", shared, alone, 2+c.R.Intn(6), 4+c.R.Intn(8))
}

func concurrentProofs(c *Ctx) {
	in := drawInstance(c, 3, 6, 1)
	if in == nil {
		return
	}
	in.note(c)
	w := in.wits[0]
	sig := cloneVec(w[:in.pubN])
	other := cloneVec(sig)
	other[len(other)-1] = fadd(other[len(other)-1], one)
	s := in.setup(chance(c.R, 1, 2))
	pr, err := in.prove(chance(c.R, 1, 2), &s.Pk, w)
	if err != nil {
		c.Fail("refused", "no proof for a satisfying witness: %v", err)
		return
	}
	// separate but equal values for the sequential run: the encodings are decoded again
	build := func(tr *circuitcompiler.ER1CSTransposed, ts *circuitcompiler.ER1CSsPARSETransposed, p *zkSNARK.Proof, w, sig, other []*big.Int) (ops []op) {
		add := func(name string, g func() string) { ops = append(ops, op{name, g}) }
		add("verify", func() string { return fmt.Sprint(zkSNARK.VerifyProof(&s.Pk, p, sig, false)) })
		add("verify", func() string { return fmt.Sprint(zkSNARK.VerifyProof(&s.Pk, p, sig, true)) })
		add("verify another statement", func() string { return fmt.Sprint(zkSNARK.VerifyProof(&s.Pk, p, other, false)) })
		add("prove", func() string {
			q, err := zkSNARK.GenerateProofs(in.pubN, &s.Pk, w, zkSNARK.CombinePolynomials2(w, tr))
			return digest(q, fmt.Sprint(err))
		})
		add("sparse prove", func() string {
			q, err := zkSNARK.GenerateProof_Sparse(in.pubN, &s.Pk, w, zkSNARK.CombineSparsePolynomials(w, ts))
			return digest(q, fmt.Sprint(err))
		})
		add("encode", func() string { return digest(p, &s.Pk) })
		add("setup", func() string {
			t, err := zkSNARK.GenerateTrustedSetup(in.pubN, tr)
			return fmt.Sprint(err, len(t.Pk.G1.PowersX), t.Pk.Domain)
		})
		add("sparse setup", func() string {
			t, err := zkSNARK.GenerateTrustedSetupSparse(in.pubN, ts)
			return fmt.Sprint(err, len(t.Pk.G1.PowersX), t.Pk.Domain)
		})
		add("setup, prove, verify", func() string {
			t, err := zkSNARK.GenerateTrustedSetup(in.pubN, tr)
			q, err2 := zkSNARK.GenerateProof_Sparse(in.pubN, &t.Pk, w, zkSNARK.CombineSparsePolynomials(w, ts))
			return fmt.Sprint(err, err2, zkSNARK.VerifyProof(&t.Pk, q, sig, false))
		})
		return
	}
	shared := build(in.tr, in.ts, pr, w, sig, other)
	alone := build(in.c.dense.Transpose(), in.c.sparse.TransposeSparse(), recode(pr), cloneVec(w), cloneVec(sig), cloneVec(other))
	concurrently(c, "proofs", shared, alone, 2+c.R.Intn(3), 2+c.R.Intn(2))
}

func init() {
	register(&Prop{ID: "C20", Quick: 240, Thorough: 12000, Race: true, Run: runC20,
		Rule:   "a case draws shared values (fields with cold caches, polynomials, trees, group elements in any representation, sources, a circuit, keys and proofs) and lets two to seven goroutines work on them, with drawn pauses, under the race detector; each result is compared with the sequential result over separate equal values; non-trivial: overlapping calls took place, distinct by the observed order of the calls",
		Need:   []string{"overlapping pairs of calls"},
		Assume: []string{"the race detector reports the races of the schedules that occur; goroutines are not steered beyond pauses and yields"}})
}
