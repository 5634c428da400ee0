package main

import (
	"errors"
	"fmt"
	"hash/fnv"
	"math/big"
	"strings"

	"github.com/mottla/go-AlgebraicProgram-SNARK/circuitcompiler"
	"github.com/mottla/go-AlgebraicProgram-SNARK/utils"
	"github.com/mottla/go-AlgebraicProgram-SNARK/zkSNARK"
)

// Bridges to the library.

// compiled is a program compiled by the library, both representations, and the constraints as plain matrices.
type compiled struct {
	src    string
	prog   *circuitcompiler.Program
	gates  []*circuitcompiler.Gate
	dense  *circuitcompiler.ER1CS
	sparse *circuitcompiler.ER1CSSparse
	sys    *sys
	ssys   *sys
	inputs []string // arguments of main
	public []string
	pubN   int
}

// compileErr is what the library refused the program with.
type compileErr struct{ caught *Caught }

func (e *compileErr) Error() string { return e.caught.String() }

// compile runs the whole front end. Panics of the library are returned as errors.
func compile(src string) (res *compiled, err error) {
	caught := try(func() {
		p := circuitcompiler.Parse(src, true)
		g := p.Execute()
		c := &compiled{src: src, prog: p, gates: g}
		c.dense = p.GatesToR1CS(g, false)
		c.sparse = p.GatesToSparseR1CS(g, false)
		if m := p.GetMainCircuit(); m != nil {
			c.inputs = append([]string{}, m.Inputs...)
		}
		c.public = append([]string{}, p.PublicInputs...)
		c.pubN = p.GlobalInputCount()
		res = c
	})
	if caught != nil {
		return nil, &compileErr{caught}
	}
	if res.sys, err = denseSys(res.dense); err != nil {
		return nil, err
	}
	res.ssys, err = sparseSys(res.sparse)
	return res, err
}

func rows(m [][]*big.Int, gates, wit int, what string) ([][]*big.Int, error) {
	if len(m) != gates {
		return nil, fmt.Errorf("%s has %d rows, %d constraints", what, len(m), gates)
	}
	out := make([][]*big.Int, gates)
	for i, r := range m {
		if len(r) != wit {
			return nil, fmt.Errorf("%s row %d has %d entries, witness length %d", what, i, len(r), wit)
		}
		out[i] = reduceVec(r, N)
	}
	return out, nil
}

func denseSys(r *circuitcompiler.ER1CS) (s *sys, err error) {
	s = &sys{gates: r.NumberOfGates, wit: r.WitnessLength}
	if s.L, err = rows(r.L, s.gates, s.wit, "L"); err != nil {
		return nil, err
	}
	if s.R, err = rows(r.R, s.gates, s.wit, "R"); err != nil {
		return nil, err
	}
	if s.E, err = rows(r.E, s.gates, s.wit, "E"); err != nil {
		return nil, err
	}
	s.O, err = rows(r.O, s.gates, s.wit, "O")
	return s, err
}

// entries lists the content of a tree without trusting its enumeration order.
func treeVec(t *utils.AvlTree, n int, what string) ([]*big.Int, error) {
	out := make([]*big.Int, n)
	for i := range out {
		out[i] = bi(0)
	}
	if t == nil {
		return nil, fmt.Errorf("%s is nil", what)
	}
	for e := range t.ChannelNodes(true) {
		if int(e.Key) >= n {
			return nil, fmt.Errorf("%s has key %d, length %d", what, e.Key, n)
		}
		out[e.Key] = mod(e.Value, N)
	}
	return out, nil
}

func sparseRows(m []*utils.AvlTree, gates, wit int, what string) ([][]*big.Int, error) {
	if len(m) != gates {
		return nil, fmt.Errorf("sparse %s has %d rows, %d constraints", what, len(m), gates)
	}
	out := make([][]*big.Int, gates)
	for i, r := range m {
		v, err := treeVec(r, wit, fmt.Sprintf("sparse %s row %d", what, i))
		if err != nil {
			return nil, err
		}
		out[i] = v
	}
	return out, nil
}

func sparseSys(r *circuitcompiler.ER1CSSparse) (s *sys, err error) {
	s = &sys{gates: r.NumberOfGates, wit: r.WitnessLength}
	if s.L, err = sparseRows(r.L, s.gates, s.wit, "L"); err != nil {
		return nil, err
	}
	if s.R, err = sparseRows(r.R, s.gates, s.wit, "R"); err != nil {
		return nil, err
	}
	if s.E, err = sparseRows(r.E, s.gates, s.wit, "E"); err != nil {
		return nil, err
	}
	s.O, err = sparseRows(r.O, s.gates, s.wit, "O")
	return s, err
}

// diff describes the first difference of two systems.
func (s *sys) diff(t *sys) string {
	if s.gates != t.gates || s.wit != t.wit {
		return fmt.Sprintf("%d constraints over %d entries, %d constraints over %d entries", s.gates, s.wit, t.gates, t.wit)
	}
	ms := [][2][][]*big.Int{{s.L, t.L}, {s.R, t.R}, {s.E, t.E}, {s.O, t.O}}
	for k, m := range ms {
		for j := 0; j < s.gates; j++ {
			for i := 0; i < s.wit; i++ {
				if m[0][j][i].Cmp(m[1][j][i]) != 0 {
					return fmt.Sprintf("matrix %c constraint %d entry %d: %v and %v", "LREO"[k], j, i, m[0][j][i], m[1][j][i])
				}
			}
		}
	}
	return ""
}

func (s *sys) String() string {
	var b strings.Builder
	for j := 0; j < s.gates; j++ {
		fmt.Fprintf(&b, "%s*%s+g^%s=%s\n", sparseString(s.L[j]), sparseString(s.R[j]), sparseString(s.E[j]), sparseString(s.O[j]))
	}
	return b.String()
}

func sparseString(v []*big.Int) string {
	s := "("
	for i, e := range v {
		if e.Sign() != 0 {
			if len(s) > 1 {
				s += "+"
			}
			if t := fsub(zero, e); t.BitLen() < 100 {
				s += fmt.Sprintf("-%v*w%d", t, i)
			} else {
				s += fmt.Sprintf("%v*w%d", e, i)
			}
		}
	}
	return s + ")"
}

// represent replaces some inputs by other integers of the same residue class: what an input stands for is a field
// element. The choice depends on the inputs only.
func represent(in []*big.Int) []*big.Int {
	out := cloneVec(in)
	h := fnv.New64a()
	for _, v := range in {
		h.Write([]byte(v.String() + ","))
	}
	k := h.Sum64()
	if k%4 != 0 {
		return out
	}
	k /= 4
	for i := range out {
		switch k >> uint(3*i%60) & 7 {
		case 0, 1:
			out[i].Sub(out[i], N)
		case 2:
			out[i].Add(out[i], N)
		case 3:
			out[i].Add(out[i], new(big.Int).Mul(N, bi(int64(k>>40))))
		case 4:
			out[i].Sub(out[i], new(big.Int).Mul(N, new(big.Int).Lsh(one, uint(k>>50))))
		}
	}
	return out
}

func cloneVec(v []*big.Int) []*big.Int {
	out := make([]*big.Int, len(v))
	for i := range v {
		out[i] = cp(v[i])
	}
	return out
}

// witness computes the dense witness. Panics of the library are reported as such.
func (c *compiled) witness(in []*big.Int) (w []*big.Int, err error, caught *Caught) {
	caught = try(func() {
		w, err = circuitcompiler.CalculateWitness(c.dense, circuitcompiler.CombineInputs(c.prog.GetMainCircuit().Inputs, represent(in)))
	})
	return
}

func (c *compiled) sparseWitness(in []*big.Int) (w []*big.Int, err error, caught *Caught) {
	caught = try(func() {
		w, err = circuitcompiler.CalculateSparseWitness(c.sparse, circuitcompiler.CombineInputs(c.prog.GetMainCircuit().Inputs, represent(in)))
	})
	return
}

// index returns the witness position of every argument of main according to the declared layout:
// one, public inputs in order of declaration, remaining arguments in order.
func (c *compiled) index() map[string]int {
	m := map[string]int{}
	pos := 1
	for _, p := range c.public[1:] {
		m[p] = pos
		pos++
	}
	for _, a := range c.inputs {
		if _, ex := m[a]; !ex {
			m[a] = pos
			pos++
		}
	}
	return m
}

// prover bundles what is needed to prove one program with the dense and the sparse pipeline.
type prover struct {
	c  *compiled
	tr *circuitcompiler.ER1CSTransposed
	ts *circuitcompiler.ER1CSsPARSETransposed
}

func newProver(c *compiled) *prover {
	return &prover{c: c, tr: c.dense.Transpose(), ts: c.sparse.TransposeSparse()}
}

func (p *prover) setup(sparse bool) *zkSNARK.Setup {
	var s *zkSNARK.Setup
	var err error
	if sparse {
		s, err = zkSNARK.GenerateTrustedSetupSparse(p.c.pubN, p.ts)
	} else {
		s, err = zkSNARK.GenerateTrustedSetup(p.c.pubN, p.tr)
	}
	if err != nil {
		panic(err)
	}
	return s
}

var errRemainder = errors.New("proof refused")

// prove returns a proof or an error; a panic of the library counts as a refusal.
func (p *prover) prove(sparse bool, pk *zkSNARK.Pk, w []*big.Int) (pr *zkSNARK.Proof, err error) {
	caught := try(func() {
		if sparse {
			pr, err = zkSNARK.GenerateProof_Sparse(p.c.pubN, pk, w, zkSNARK.CombineSparsePolynomials(w, p.ts))
		} else {
			pr, err = zkSNARK.GenerateProofs(p.c.pubN, pk, w, zkSNARK.CombinePolynomials2(w, p.tr))
		}
	})
	if caught != nil {
		return nil, fmt.Errorf("%w: %v", errRemainder, caught)
	}
	return
}

func verify(pk *zkSNARK.Pk, pr *zkSNARK.Proof, sig []*big.Int) bool {
	return zkSNARK.VerifyProof(pk, pr, sig, false)
}

func pipeName(sparse bool) string {
	if sparse {
		return "sparse"
	}
	return "dense"
}
