package main

import (
	"fmt"
	"math/big"
	"math/rand"
	"regexp"
	"strings"
	"time"
	"unicode/utf8"

	"github.com/mottla/go-AlgebraicProgram-SNARK/circuitcompiler"
)

// Monitors of the lexer (C21), bit decomposition (C22), base point multiplication (C23), refusal of malformed
// programs (C24).

// ---- C21

type tok struct {
	text string
	kind circuitcompiler.TokenType
}

var refKeywords = map[string]circuitcompiler.TokenType{
	"return": circuitcompiler.RETURN, "var": circuitcompiler.VARIABLE_DECLARE, "if": circuitcompiler.IF, "else": circuitcompiler.ELSE,
	"for": circuitcompiler.FOR, "func": circuitcompiler.FUNCTION_DEFINE, "import": circuitcompiler.IMPORT, "public": circuitcompiler.PUBLIC,
}

var refOperators = map[string]circuitcompiler.TokenType{
	"=": circuitcompiler.AssignmentOperatorToken, "-=": circuitcompiler.AssignmentOperatorToken, "+=": circuitcompiler.AssignmentOperatorToken,
	"*=": circuitcompiler.AssignmentOperatorToken, "/=": circuitcompiler.AssignmentOperatorToken,
	"-": circuitcompiler.ArithmeticOperatorToken, "+": circuitcompiler.ArithmeticOperatorToken, "*": circuitcompiler.ArithmeticOperatorToken,
	"/": circuitcompiler.ArithmeticOperatorToken, "||": circuitcompiler.BooleanOperatorToken, "&&": circuitcompiler.BooleanOperatorToken,
	">>": circuitcompiler.BitOperatorToken, "<<": circuitcompiler.BitOperatorToken,
	"==": circuitcompiler.BinaryComperatorToken, "!=": circuitcompiler.BinaryComperatorToken, ">": circuitcompiler.BinaryComperatorToken,
	">=": circuitcompiler.BinaryComperatorToken, "<": circuitcompiler.BinaryComperatorToken, "<=": circuitcompiler.BinaryComperatorToken,
}

func letter(b byte) bool { return b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z' }
func digit(b byte) bool  { return b >= '0' && b <= '9' }

// refTokens is an independent tokenizer. bad: the text contains something that is no token
func refTokens(s string) (out []tok, bad bool) {
	i := 0
	emit := func(j int, k circuitcompiler.TokenType) {
		if s[i:j] == "\n" && len(out) > 0 && out[len(out)-1].text == "\n" {
			// repeated line breaks are one
		} else {
			out = append(out, tok{s[i:j], k})
		}
		i = j
	}
	for i < len(s) {
		b := s[i]
		switch {
		case b == ' ' || b == '\t' || b == '\r':
			i++
		case digit(b):
			j := i
			for j < len(s) && digit(s[j]) {
				j++
			}
			emit(j, circuitcompiler.NumberToken)
		case strings.IndexByte("():,;\n{}[]", b) >= 0:
			emit(i+1, circuitcompiler.SyntaxToken)
		case b == '"':
			j := strings.IndexByte(s[i+1:], '"')
			if j < 0 || len(out) == 0 || out[len(out)-1].kind != circuitcompiler.IMPORT {
				// quoted texts are what import takes, no identifiers
				return out, true
			}
			out = append(out, tok{s[i+1 : i+1+j], circuitcompiler.IDENTIFIER_VARIABLE})
			i += j + 2
		case b == '#':
			j := strings.IndexByte(s[i:], '\n')
			if j < 0 {
				j = len(s)
			} else {
				j += i
			}
			emit(j, circuitcompiler.CommentToken)
		case letter(b) || b == '_':
			j := i
			for j < len(s) && (letter(s[j]) || digit(s[j]) || s[j] == '_') {
				j++
			}
			if k, ok := refKeywords[s[i:j]]; ok {
				emit(j, k)
			} else if j < len(s) && s[j] == '(' {
				emit(j, circuitcompiler.FUNCTION_CALL)
			} else {
				emit(j, circuitcompiler.IDENTIFIER_VARIABLE)
			}
		default:
			if i+1 < len(s) {
				if k, ok := refOperators[s[i:i+2]]; ok {
					emit(i+2, k)
					continue
				}
			}
			if k, ok := refOperators[s[i:i+1]]; ok {
				emit(i+1, k)
				continue
			}
			return out, true
		}
	}
	return out, false
}

// libTokens tokenizes with the library, concurrently or in one go
func libTokens(s string, limit int, sync bool) (out []tok, over bool, caught *Caught) {
	caught = try(func() {
		l := circuitcompiler.New(s, circuitcompiler.ProbablyWhitespaceState)
		if sync {
			l.StartSync()
		} else {
			l.Start()
		}
		for {
			t, done := l.NextToken()
			if done {
				return
			}
			out = append(out, tok{t.Identifier, t.Type})
			if len(out) > limit {
				over = true
				return
			}
		}
	})
	return
}

// longToken returns a name, number, comment, quoted text, row of blanks or of operators of several hundred or thousand characters
func longToken(r *rand.Rand) string {
	size := 1 << uint(6+r.Intn(8))
	switch r.Intn(3) {
	case 0:
		size += r.Intn(5) - 2
	case 1:
		size += r.Intn(size)
	}
	fill := func(alphabet string) string {
		b := make([]byte, size)
		for i := range b {
			b[i] = alphabet[r.Intn(len(alphabet))]
		}
		return string(b)
	}
	switch r.Intn(8) {
	case 0, 1:
		return " n" + fill("abcxyz_0189") + " "
	case 2:
		return "n" + fill("aZ_5") + "("
	case 3:
		return " " + fill("0123456789") + " "
	case 4:
		return "#" + fill("abc +*(){};") + "\n"
	case 5:
		return "import \"" + fill("abc /.") + "\" "
	case 6:
		return fill(" \t\n")
	default:
		return fill("+-*/()[]{},;=<>")
	}
}

func randomText(r *rand.Rand) string {
	var b strings.Builder
	pieces := []string{" ", "  ", "\t", "\r", "\n", "\n\n", "\r\n", "a", "x1", "_u", "foo", "foo(", "var", "var ", "func", "func(", "return", "if", "else", "for", "import", "public", "0", "12", "007", "12ab",
		"(", ")", "{", "}", "[", "]", ",", ";", ":", "=", "==", "!=", "<", "<=", ">", ">=", "<<", ">>", "||", "&&", "+", "-", "*", "/", "+=", "-=", "*=", "/=", "=-", "===", "# comment\n", "#\n", "#", "# x", "import \"quoted\"", "import\"\"", "import \"a b\" ", "varx", "x_", "a_b2"}
	odd := []string{"!", "|", "&", "$", "@", "~", "?", "'", "`", "\\", ".", "%", "^", "ä", "€", "\x00", "\xff", "\xe2\x82", "\"open", "\u2028", "𝔽", "import \"\xff\"", "import\"ü\"", "\"q\"", "\"5\"", "import\n\"x\"", "import \"\n\"", "#ü\n", "#\xff\n", "\xef\xbb\xbf"}
	n := r.Intn(30)
	weird := r.Intn(4)
	long := -1
	if n > 0 && r.Intn(40) == 0 {
		long = r.Intn(n)
	}
	for i := 0; i < n; i++ {
		if i == long {
			b.WriteString(longToken(r))
			continue
		}
		if r.Intn(20) < weird {
			b.WriteString(odd[r.Intn(len(odd))])
			continue
		}
		switch r.Intn(12) {
		case 0:
			b.WriteByte(byte(32 + r.Intn(95)))
		default:
			b.WriteString(pieces[r.Intn(len(pieces))])
		}
	}
	if r.Intn(40) == 0 {
		buf := make([]byte, r.Intn(40))
		r.Read(buf)
		return string(buf)
	}
	return b.String()
}

func runC21(c *Ctx) {
	// arbitrary texts against the reference tokenizer
	for k := 0; k < 40 && !c.failed(); k++ {
		var s string
		switch c.R.Intn(5) {
		case 0:
			// a program with something replaced, inserted or cut
			s = generate(c.R, smallConf(c.R)).source()
			if len(s) > 2000 {
				s = s[:2000]
			}
			if len(s) > 0 {
				i := c.R.Intn(len(s))
				switch c.R.Intn(4) {
				case 0:
					s = s[:i]
				case 1:
					s = s[i:]
				case 2:
					s = s[:i] + randomText(c.R) + s[i:]
				}
			}
		default:
			s = randomText(c.R)
		}
		checkTokens(c, s)
	}
	// blanks, comments and blank lines make no difference
	p := drawProgram(c.R, randomConf(c.R), 80)
	p.style = nil
	plain := p.source()
	d0, comp := describe(plain)
	for k := 0; k < 2; k++ {
		p.style = &style{r: c.R, blanks: chance(c.R, 3, 4), comments: true}
		src := p.source()
		if chance(c.R, 1, 3) {
			src = strings.Replace(src, "\n", "\r\n", -1)
		}
		if chance(c.R, 1, 3) {
			src += pick(c.R, " ", "\t\n \n", "# end", "\n\n\n", "# end\n")
		}
		d, comp2 := describe(src)
		if d != d0 {
			c.Note("%s\n---- plain\n%s", src, plain)
			diff := ""
			if comp != nil && comp2 != nil {
				diff = comp.sys.diff(comp2.sys)
			} else {
				_, err := compile(src)
				_, err2 := compile(plain)
				diff = fmt.Sprint(err, "; ", err2)
			}
			c.Fail("layout", "the layout of the source changes the compiled program: %s", diff)
			return
		}
		c.Count("layouts compared", 1)
	}
}

func checkTokens(c *Ctx, s string) {
	sync := chance(c.R, 1, 2)
	if sync {
		c.Count("texts tokenized in one go", 1)
	}
	want, bad := refTokens(s)
	type answer struct {
		got    []tok
		over   bool
		caught *Caught
	}
	ch := make(chan answer, 1)
	go func() {
		g, o, p := libTokens(s, utf8.RuneCountInString(s)+5, sync)
		ch <- answer{g, o, p}
	}()
	var a answer
	select {
	case a = <-ch:
	case <-time.After(60 * time.Second):
		c.Fail("hang", "tokenizing %q does not end", s)
		return
	}
	if len(a.got) > utf8.RuneCountInString(s) || a.over {
		c.Fail("count", "%d tokens and more from %d characters: %q", len(a.got), utf8.RuneCountInString(s), s)
		return
	}
	if bad != (a.caught != nil) {
		c.Fail("verdict", "tokenizing %q: reference refuses %v, library %v", s, bad, a.caught)
		return
	}
	if bad {
		c.Count("texts refused", 1)
		c.Distinct(s)
		// what was delivered before is a prefix
		if len(a.got) > len(want) {
			c.Fail("tokens", "%q: %d tokens before the error, expected %d", s, len(a.got), len(want))
			return
		}
		want = want[:len(a.got)]
	}
	if len(want) != len(a.got) {
		c.Fail("tokens", "%q: tokens %v, expected %v", s, a.got, want)
		return
	}
	for i := range want {
		if want[i] != a.got[i] {
			c.Fail("tokens", "%q: token %d is %q of kind %d, expected %q of kind %d", s, i, a.got[i].text, a.got[i].kind, want[i].text, want[i].kind)
			return
		}
	}
	if !bad {
		c.Count("texts tokenized", 1)
		c.Count("tokens compared", len(want))
		if len(want) > 3 {
			c.Distinct(s)
			c.Sample(map[string]interface{}{"text": s, "tokens": len(want)})
		}
	}
}

// ---- C22

func runC22(c *Ctx) {
	r := c.R
	g := &generator{r: r, conf: gconf{}}
	p := &program{}
	m := &gscope{}
	many := c.Idx%25 == 12
	nArgs := 1 + r.Intn(2)
	if many {
		nArgs = 2 + r.Intn(5)
	}
	for i := nArgs; i > 0; i-- {
		n := g.fresh("x")
		p.args = append(p.args, mainArg{name: n})
		m.add(&sym{name: n, kind: "f"})
	}
	x := func() *expr { return eVar(p.args[r.Intn(len(p.args))].name) }
	var values []*expr // what is split, as main level expressions
	n := 1
	if chance(r, 1, 3) {
		n = 2
	}
	if many {
		n = 3 + r.Intn(4)
	}
	plain := n >= 2 && chance(r, 1, 2)
	for i := 0; i < n; i++ {
		var v *expr
		switch r.Intn(9) {
		case 0, 1, 2:
			v = x()
		case 3:
			v = eBin("*", x(), x())
		case 4:
			v = eBin("*", eBin("+", x(), eNum(int64(r.Intn(9)))), x())
		case 5:
			v = eBin("*", eNum(int64(2+r.Intn(50))), x())
		case 6:
			v = g.num()
		case 7:
			v = eBin("/", x(), x())
		default:
			v = eCall("addGateConstraint", x(), x())
		}
		if plain {
			v = eVar(p.args[i%len(p.args)].name)
		}
		values = append(values, v)
		switch r.Intn(6) {
		case 0:
			// through a variable
			nm := g.fresh("v")
			p.body = append(p.body, sVar(nm, v), sCall(eCall("SPLIT", eVar(nm))))
		case 1:
			// in a function
			fn := g.fresh("s")
			p.globals = append(p.globals, &stmt{kind: "func", fn: &fdecl{name: fn, params: []string{"a"}, body: []*stmt{sCall(eCall("SPLIT", eVar("a")))}}})
			p.body = append(p.body, sCall(eCall(fn, v)))
		case 2:
			// in a loop that splits the same value again
			it := g.fresh("i")
			p.body = append(p.body, sVar(it, eNum(0)), sFor(&cond{"<", eVar(it), eNum(2)}, sSet(eVar(it), eBin("+", eVar(it), eNum(1))), sCall(eCall("SPLIT", v))))
		case 3:
			p.body = append(p.body, &stmt{kind: "if", branches: []branch{{&cond{"==", eNum(1), eNum(1)}, []*stmt{sCall(eCall("SPLIT", v))}}}})
		default:
			p.body = append(p.body, sCall(eCall("SPLIT", v)))
		}
	}
	p.outs = []string{g.fresh("out")}
	p.args = append(p.args, mainArg{name: p.outs[0]})
	p.body = append(p.body, sEqual(g.field(m, 2), eVar(p.outs[0])))
	if chance(r, 1, 2) {
		p.public = drawPublic(r, p.argNames())
	}
	src := p.source()
	c.Note("%s", src)
	in := p.inputs(r)
	for _, a := range p.args {
		switch r.Intn(8) {
		case 0:
			in[a.name] = new(big.Int).Lsh(one, uint(r.Intn(254)))
			in[a.name].Mod(in[a.name], N)
		case 1:
			in[a.name] = new(big.Int).Sub(N, bi(int64(1+r.Intn(3))))
		case 2:
			in[a.name] = new(big.Int).Sub(new(big.Int).Lsh(one, uint(1+r.Intn(253))), one)
		}
	}
	ok, res := p.solveOuts(in, stepLimit)
	comp := mustCompile(c, src, res.div0)
	if comp == nil {
		return
	}
	w := against(c, p, comp, in, res)
	if !ok || w == nil {
		return
	}
	c.Sample(map[string]interface{}{"program": src, "inputs": inputString(comp.inputs, in), "constraints": comp.sys.gates})
	// the values that have to be decomposed
	want := map[string]bool{}
	for _, v := range values {
		ev := &evaluator{res: &evaluation{}, max: stepLimit}
		e := newEnv(nil)
		for k, x := range in {
			e.vars[k] = &cell{x}
		}
		want[ev.field(e, v).String()] = true
	}
	found := map[string]bool{}
	bits := uint(N.BitLen())
	s := comp.sys
	// entries that some constraint forces to be zero or one
	boolean := map[int]bool{}
	for j := 0; j < s.gates; j++ {
		only := -1
		for i := 1; i < s.wit; i++ {
			if s.mentions(j, i) {
				if only >= 0 {
					only = -2
					break
				}
				only = i
			}
		}
		if only < 0 || boolean[only] {
			continue
		}
		good := true
		t := append([]*big.Int{}, w...)
		for _, v := range []*big.Int{bi(0), bi(1)} {
			t[only] = v
			good = good && s.defect(j, t).Sign() == 0
		}
		for _, v := range []*big.Int{bi(2), fsub(zero, one), randBelow(r, N)} {
			t[only] = v
			good = good && (s.defect(j, t).Sign() != 0 || v.BitLen() <= 1)
		}
		if good {
			boolean[only] = true
		}
	}
	c.Count("entries constrained to bits", len(boolean))
	used := map[int]bool{}
	for j := 0; j < s.gates; j++ {
		cnt := 0
		for i := 1; i < s.wit; i++ {
			if s.mentions(j, i) && boolean[i] {
				cnt++
			}
		}
		if cnt < int(bits) {
			continue
		}
		// a weighted sum: the defect is affine in every entry, one entry is the value
		weight := map[int]*big.Int{}
		value := -1
		for i := 0; i < s.wit; i++ {
			if !s.mentions(j, i) {
				continue
			}
			t := append([]*big.Int{}, w...)
			t[i] = fadd(w[i], one)
			d := s.defect(j, t)
			if d.Sign() == 0 {
				continue
			}
			if boolean[i] {
				weight[i] = d
				used[i] = true
			} else if value < 0 || i != 0 {
				value = i
			}
		}
		if value < 0 {
			c.Fail("sum", "the weighted sum of constraint %d is not compared with a value", j)
			return
		}
		t := append([]*big.Int{}, w...)
		t[value] = fadd(w[value], one)
		dv := s.defect(j, t)
		val := w[value]
		exps := map[int]bool{}
		for i, d := range weight {
			q := fmul(fsub(zero, d), minv(dv, N))
			k := q.BitLen() - 1
			if new(big.Int).Lsh(one, uint(k)).Cmp(q) != 0 || exps[k] {
				c.Fail("weights", "bit entry %d of the value in entry %d has weight %v", i, value, q)
				return
			}
			exps[k] = true
			if w[i].Cmp(bi(int64(val.Bit(k)))) != 0 {
				c.Note("inputs %s", inputString(comp.inputs, in))
				c.Fail("digit", "bit %d of %v is %v in the witness", k, val, w[i])
				return
			}
			c.Count("bits compared", 1)
			// any change breaks a constraint
			for _, v := range []*big.Int{fsub(one, w[i]), fieldElem(r, N)} {
				if v.Cmp(w[i]) == 0 {
					continue
				}
				b := append([]*big.Int{}, w...)
				b[i] = v
				if s.brokenBy(b, i) < 0 {
					c.Fail("free bit", "bit %d of entry %d can be changed to %v", k, value, v)
					return
				}
				c.Count("bits changed", 1)
			}
			// exchanging weight between neighbours keeps the sum, but not the bits
			for i2, d2 := range weight {
				if i2 != i && fadd(d2, d2).Cmp(d) == 0 {
					b := append([]*big.Int{}, w...)
					b[i] = fsub(w[i], one)
					b[i2] = fadd(w[i2], two)
					if s.brokenBy(b, i) < 0 && s.brokenBy(b, i2) < 0 {
						c.Fail("weight exchange", "bits %d can be carried into its neighbour", k)
						return
					}
					c.Count("carries refused", 1)
					break
				}
			}
		}
		if len(exps) != int(bits) {
			c.Fail("width", "the value in entry %d is decomposed into %d bits", value, len(exps))
			return
		}
		if value == 0 {
			c.Fail("value", "the constant one is decomposed instead of a value")
			return
		}
		found[val.String()] = true
	}
	for v := range want {
		if !found[v] {
			c.Note("inputs %s", inputString(comp.inputs, in))
			c.Fail("missing", "no decomposition of the value %s in the constraints", v)
			return
		}
		c.Count("values decomposed", 1)
	}
	c.Distinct(src, inputString(comp.inputs, in))
}

// ---- C23

func runC23(c *Ctx) {
	r := c.R
	g := &generator{r: r, conf: gconf{}}
	p := &program{}
	m := &gscope{}
	na := 1 + r.Intn(3)
	for i := 0; i < na; i++ {
		n := g.fresh("x")
		p.args = append(p.args, mainArg{name: n})
		m.add(&sym{name: n, kind: "f"})
	}
	x := func() *expr {
		if chance(r, 1, 6) {
			return g.num()
		}
		return eVar(p.args[r.Intn(na)].name)
	}
	sb := func(e *expr) *expr { return eCall("scalarBaseMultiply", e) }
	var expo func(d int) *expr
	expo = func(d int) *expr {
		switch r.Intn(8) {
		case 0:
			return eBin("+", x(), x())
		case 1:
			return eBin("-", x(), x())
		case 2:
			return eBin("*", x(), x())
		case 3:
			return eBin("*", eNum(int64(r.Intn(40))), x())
		case 6:
			if chance(r, 1, 2) {
				// one constant scales all of it
				k := eBig(new(big.Int).Add(randBelow(r, new(big.Int).Lsh(one, uint(1+r.Intn(253)))), one))
				if chance(r, 1, 2) {
					return eBin("*", k, eBin("+", x(), x()))
				}
				return eBin("/", x(), k)
			}
		case 4:
			return eBin("+", x(), g.num())
		case 5:
			if d > 0 {
				return sb(expo(d - 1))
			}
		}
		return x()
	}
	k := 1 + r.Intn(3)
	for i := 0; i < k; i++ {
		e := sb(expo(1))
		switch r.Intn(8) {
		case 0:
			e = eBin("+", e, x())
		case 1:
			e = eBin("*", e, x())
		case 2:
			e = eBin("*", e, sb(expo(0)))
		case 3:
			e = eBin("-", eBin("*", eNum(3), e), x())
		case 4:
			e = eBin("/", x(), e)
		case 5:
			fn := g.fresh("f")
			p.globals = append(p.globals, &stmt{kind: "func", fn: &fdecl{name: fn, params: []string{"a"}, body: []*stmt{sRet(sb(eVar("a")))}}})
			e = eCall(fn, expo(0))
		}
		if chance(r, 1, 3) {
			v := g.fresh("v")
			p.body = append(p.body, sVar(v, e))
			e = eVar(v)
		}
		o := g.fresh("out")
		p.outs = append(p.outs, o)
		if chance(r, 1, 2) {
			p.body = append(p.body, sEqual(e, eVar(o)))
		} else {
			p.body = append(p.body, sEqual(eVar(o), e))
		}
	}
	for _, o := range p.outs {
		pos := r.Intn(len(p.args) + 1)
		p.args = append(p.args[:pos], append([]mainArg{{name: o}}, p.args[pos:]...)...)
	}
	if chance(r, 1, 2) {
		p.public = drawPublic(r, p.argNames())
	}
	before := len(gXMemo)
	checkProgram(c, p, 2)
	c.Count("reference multiplications", len(gXMemo)-before)
}

// ---- C24

// compileTimed compiles in a goroutine, so that a blocked parser is noticed
func compileTimed(src string) (comp *compiled, err error, hang bool) {
	type ans struct {
		c *compiled
		e error
	}
	ch := make(chan ans, 1)
	go func() {
		a, b := compile(src)
		ch <- ans{a, b}
	}()
	select {
	case a := <-ch:
		return a.c, a.e, false
	case <-time.After(60 * time.Second):
		return nil, nil, true
	}
}

func insertAt(ss []*stmt, i int, add ...*stmt) []*stmt {
	out := append([]*stmt{}, ss[:i]...)
	out = append(out, add...)
	return append(out, ss[i:]...)
}

const refProgram = `
var c = 3
func main(x,y,out){
	public{out}
	var a = f(x)*y
	equal(a+c,out)
	return a
}
func f(x){
	if c==3{
		return x*x
	}
	return x
}
`

func runC24(c *Ctx) {
	r := c.R
	want, _ := describe(refProgram)
	conf := randomConf(r)
	conf.stmts = 1 + r.Intn(5)
	p := drawProgram(r, conf, 60)
	if p.style != nil && chance(r, 1, 2) {
		p.style = nil
	}
	src0 := p.source()
	res := p.eval(p.inputs(r), stepLimit)
	comp, err, hang := compileTimed(src0)
	if hang {
		c.Note("%s", src0)
		c.Fail("hang", "compiling a valid program does not end")
		return
	}
	if err != nil && !res.div0 {
		c.Note("%s", src0)
		c.Fail("refused", "a valid program is refused: %v", clip(err.Error(), 500))
		return
	}
	if err != nil {
		return
	}
	// wrong number of concrete inputs
	{
		vec := vector(comp.inputs, p.inputs(r))
		bad := append([]*big.Int{}, vec...)
		switch {
		case chance(r, 1, 2) && len(vec) > 0:
			bad = bad[:r.Intn(len(vec))]
		default:
			for i := 1 + r.Intn(3); i > 0; i-- {
				bad = append(bad, fieldElem(r, N))
			}
		}
		w, err, caught := comp.witness(bad)
		sw, serr, scaught := comp.sparseWitness(bad)
		if (err == nil && caught == nil) || (serr == nil && scaught == nil) {
			c.Note("%s", src0)
			c.Fail("inputs", "%d concrete inputs accepted by a program with %d arguments: %v %v", len(bad), len(vec), w, sw)
			return
		}
		c.Count("wrong input counts refused", 1)
	}
	files := newScattered()
	defer files.remove()
	for k := 0; k < 6; k++ {
		src, kind := malform(r, p)
		if k == 0 && chance(r, 1, 4) {
			src, kind = circularImport(r, files, src0), "circular import"
		}
		if src == "" {
			continue
		}
		comp, err, hang := compileTimed(src)
		if hang {
			c.Note("%s", src)
			c.Fail("hang "+kind, "compiling a malformed program does not end (%s)", kind)
			return
		}
		if err == nil {
			c.Note("%s", src)
			c.Note("%s", comp.sys)
			c.Fail(kind, "a malformed program is compiled (%s)", kind)
			return
		}
		if _, ok := err.(*compileErr); !ok {
			c.Note("%s", src)
			c.Fail(kind, "a malformed program is compiled to an inconsistent system (%s): %v", kind, err)
			return
		}
		c.Count("refused: "+kind, 1)
		c.Count("malformed programs refused", 1)
		c.Distinct(src)
		c.Sample(map[string]interface{}{"kind": kind, "program": src, "error": clip(err.Error(), 200)})
	}
	for k := 0; k < 12 && !c.failed(); k++ {
		p.style = nil
		checkMutant(c, p, mutate(r, p.source(), 1+r.Intn(3), 13), false)
	}
	if c.failed() {
		return
	}
	// later compilations are unaffected
	if d, _ := describe(refProgram); d != want {
		c.Fail("aftermath", "after refusals the reference program compiles to %s instead of %s", d, want)
		return
	}
	c.Count("reference programs compared", 1)
}

// malform returns a malformed variant of the program and its kind
func malform(r *rand.Rand, q *program) (string, string) {
	// shallow copy, statements are never changed in place
	p := &program{}
	*p = *q
	p.body = append([]*stmt{}, q.body...)
	p.globals = append([]*stmt{}, q.globals...)
	p.args = append([]mainArg{}, q.args...)
	end := len(p.body)
	if end > 0 && p.body[end-1].kind == "return" {
		end--
	}
	// an argument that the program never touches
	arg := "malarg"
	p.args = append(p.args, mainArg{name: arg})
	given := q.argNames()[r.Intn(len(q.argNames()))]
	put := func(ss ...*stmt) { p.body = insertAt(p.body, r.Intn(end+1), ss...) }
	// where the malformed expression stands
	place := func(e *expr) {
		switch r.Intn(9) {
		case 0:
			put(sVar("malvar", e))
		case 1:
			put(sEqual(eVar(arg), e))
		case 2:
			put(sEqual(e, eNum(4)))
		case 3:
			put(sVar("malvar", eBin(pick(r, "+", "-", "*"), eVar(arg), e)))
		case 4:
			put(&stmt{kind: "arr", name: "malarr", elems: []*expr{eNum(1), e}})
		case 5:
			// in a function that is called
			p.globals = append(p.globals, &stmt{kind: "func", fn: &fdecl{name: "malfun", params: []string{"mala"}, body: []*stmt{sRet(e)}}})
			if usesVar(e, arg) {
				// the argument of main is not visible there
				e2 := renameVar(e, arg, "mala")
				p.globals[len(p.globals)-1].fn.body[0] = sRet(e2)
			}
			put(sEqual(eCall("malfun", eVar(arg)), eNum(3)))
		case 6:
			// in a loop
			put(sVar("mali", eNum(0)), sFor(&cond{"<", eVar("mali"), eNum(2)}, sSet(eVar("mali"), eBin("+", eVar("mali"), eNum(1))), sEqual(eVar(arg), e)))
		case 7:
			put(&stmt{kind: "if", branches: []branch{{&cond{"==", eNum(2), eNum(2)}, []*stmt{sEqual(e, eVar(arg))}}}})
		case 8:
			put(sVar("malvar", eCall("addGateConstraint", e, eVar(arg))))
		}
	}
	type op struct {
		kind string
		f    func() string
	}
	str := func() string { return p.source() }
	ops := []op{
		{"undeclared variable", func() string { place(eVar("nowhere")); return str() }},
		{"undeclared function", func() string { place(eCall("nofunction", eVar(arg))); return str() }},
		{"undeclared array", func() string { place(eIdx("noarray", eNum(0))); return str() }},
		{"assignment to undeclared", func() string { put(sSet(eVar("nowhere"), eVar(arg))); return str() }},
		{"assignment to main", func() string {
			set := sSet(eVar("main"), pickExpr(r, eNum(5), eVar("malglobal")))
			p.globals = append(p.globals, sVar("malglobal", eNum(1)), &stmt{kind: "func", fn: &fdecl{name: "malset", params: []string{"a"}, body: []*stmt{set, sRet(eVar("a"))}}})
			switch r.Intn(3) {
			case 0:
				put(set)
			case 1:
				put(sVar("malvar", eCall("malset", eNum(3))))
			default:
				p.globals = append(p.globals, sVar("malearly", eCall("malset", eNum(3))))
				put(sEqual(eVar("malearly"), eNum(3)))
			}
			return str()
		}},
		{"return outside of a function", func() string {
			s := sRet(eNum(3))
			switch r.Intn(3) {
			case 0:
				s = &stmt{kind: "if", branches: []branch{{&cond{"==", eNum(2), eNum(2)}, []*stmt{s}}}}
			case 1:
				p.globals = append(p.globals, sVar("malcount", eNum(0)))
				s = sFor(&cond{"<", eVar("malcount"), eNum(2)}, sSet(eVar("malcount"), eBin("+", eVar("malcount"), eNum(1))), s)
			}
			p.globals = append(p.globals, s)
			if chance(r, 1, 2) {
				p.globals = append(p.globals, sVar("malbehind", eNum(3)))
			}
			return str()
		}},
		{"function hides a variable", func() string {
			p.globals = append(p.globals, sVar("malhidden", eNum(3)))
			f := &stmt{kind: "func", fn: &fdecl{name: "malhidden", anon: chance(r, 1, 2), body: []*stmt{sRet(pickExpr(r, eNum(2), eVar(arg)))}}}
			use := pickStmt(r, sEqual(eVar("malhidden"), eVar(arg)), sVar("malvar", eBin("*", eVar(arg), eVar("malhidden"))))
			if chance(r, 1, 2) {
				put(f, use)
			} else {
				put(&stmt{kind: "if", branches: []branch{{&cond{"==", eNum(2), eNum(2)}, []*stmt{f, use}}}})
			}
			return str()
		}},
		{"assignment to undeclared element", func() string { put(sSet(eIdx("noarray", eNum(1)), eVar(arg))); return str() }},
		{"element out of bounds", func() string {
			put(&stmt{kind: "arr", name: "malbnd", elems: []*expr{eNum(1), eVar(arg)}}, sEqual(eIdx("malbnd", eNum(int64(2+r.Intn(3)))), eNum(1)))
			return str()
		}},
		{"undeclared in condition", func() string {
			put(&stmt{kind: "if", branches: []branch{{&cond{"==", eVar("nowhere"), eNum(2)}, []*stmt{sVar("malvar", eNum(1))}}}})
			return str()
		}},
		{"undeclared loop variable", func() string {
			put(sFor(&cond{"<", eVar("nowhere"), eNum(2)}, sSet(eVar("nowhere"), eBin("+", eVar("nowhere"), eNum(1))), sVar("malvar", eNum(1))))
			return str()
		}},
		{"variable declared twice", func() string {
			a, b := sVar("maltwice", eVar(arg)), sVar("maltwice", eNum(3))
			put(a)
			put(b)
			return str()
		}},
		{"argument declared again", func() string { put(sVar(pick(r, arg, given), eNum(3))); return str() }},
		{"function declared twice", func() string {
			d := func() *stmt {
				return &stmt{kind: "func", fn: &fdecl{name: "maltwice", params: []string{"a"}, anon: chance(r, 1, 2), body: []*stmt{sRet(eVar("a"))}}}
			}
			if chance(r, 1, 2) {
				put(d(), d())
			} else {
				p.globals = append(p.globals, d(), d())
			}
			return str()
		}},
		{"function and variable of one name", func() string {
			d := &stmt{kind: "func", fn: &fdecl{name: "maltwice", params: []string{"a"}, anon: chance(r, 1, 2), body: []*stmt{sRet(eVar("a"))}}}
			ss := []*stmt{d, sVar("maltwice", eNum(3))}
			if chance(r, 1, 2) {
				ss[0], ss[1] = ss[1], ss[0]
			}
			if chance(r, 1, 2) {
				put(ss...)
			} else {
				p.globals = append(p.globals, ss...)
			}
			return str()
		}},
		{"global declared twice", func() string {
			p.globals = append(p.globals, sVar("maltwice", eNum(3)), sVar("maltwice", eNum(4)))
			return str()
		}},
		{"array declared twice", func() string {
			a := func() *stmt { return &stmt{kind: "arr", name: "maltwice", elems: []*expr{eNum(1), eVar(arg)}} }
			put(a(), a())
			return str()
		}},
		{"parameter declared twice", func() string {
			p.globals = append(p.globals, &stmt{kind: "func", fn: &fdecl{name: "maltwice", params: []string{"a", "b", "a"}, body: []*stmt{sRet(eVar("a"))}}})
			put(sVar("malvar", eCall("maltwice", eNum(1), eNum(2), eNum(3))))
			return str()
		}},
		{"argument of main declared twice", func() string {
			p.args = append(p.args, mainArg{name: p.args[r.Intn(len(p.args))].name})
			if len(p.args[len(p.args)-1].name) == 0 {
				return ""
			}
			for _, a := range q.args {
				if a.name == p.args[len(p.args)-1].name && a.dims != nil {
					return ""
				}
			}
			return str()
		}},
		{"main declared twice", func() string {
			p.globals = append(p.globals, &stmt{kind: "func", fn: &fdecl{name: "main", params: []string{"a"}, body: []*stmt{sRet(eVar("a"))}}})
			return str()
		}},
		{"too many arguments", func() string {
			p.globals = append(p.globals, &stmt{kind: "func", fn: &fdecl{name: "maltwo", params: []string{"a", "b"}, body: []*stmt{sRet(eBin("*", eVar("a"), eVar("b")))}}})
			place(eCall("maltwo", eVar(arg), eNum(2), eNum(int64(r.Intn(5)))))
			return str()
		}},
		{"too many arguments of a preloaded function", func() string {
			p.globals = append(p.globals, &stmt{kind: "func", fn: &fdecl{name: "maltwo", params: []string{"a", "b"}, body: []*stmt{sRet(eBin("*", eVar("a"), eVar("b")))}}})
			put(sVar("malk", eCall("maltwo", eVar(arg))), sEqual(eCall("malk", eNum(1), eVar(arg)), eNum(2)))
			return str()
		}},
		{"arguments for a function without any", func() string {
			p.globals = append(p.globals, &stmt{kind: "func", fn: &fdecl{name: "malnone", body: []*stmt{sRet(eNum(3))}}})
			place(eCall("malnone", eVar(arg)))
			return str()
		}},
		{"arity of equal", func() string {
			a := []*expr{eVar(arg), eVar(arg), eVar(arg), eNum(1)}[:pick2(r, 0, 1, 3, 4)]
			put(sCall(eCall("equal", a...)))
			return str()
		}},
		{"arity of SPLIT", func() string {
			a := []*expr{eVar(arg), eVar(arg), eNum(1)}[:pick2(r, 0, 2, 3)]
			put(sCall(eCall("SPLIT", a...)))
			return str()
		}},
		{"arity of addGateConstraint", func() string {
			a := []*expr{eVar(arg), eVar(arg), eNum(1)}[:pick2(r, 0, 1, 3)]
			place(eCall("addGateConstraint", a...))
			return str()
		}},
		{"arity of scalarBaseMultiply", func() string {
			a := []*expr{eVar(arg), eVar(arg), eNum(1)}[:pick2(r, 0, 2, 3)]
			place(eCall("scalarBaseMultiply", a...))
			return str()
		}},
		{"index that is not constant", func() string {
			put(&stmt{kind: "arr", name: "malarr2", elems: []*expr{eNum(1), eNum(2)}}, sEqual(eIdx("malarr2", eVar(arg)), eNum(1)))
			return str()
		}},
		{"assigned index that is not constant", func() string {
			put(&stmt{kind: "arr", name: "malarr2", elems: []*expr{eNum(1), eNum(2)}}, sSet(eIdx("malarr2", eBin("*", eVar(arg), eVar(arg))), eNum(1)))
			return str()
		}},
		{"branch that is not constant", func() string {
			l, rr := eVar(arg), g0(r)
			if chance(r, 1, 2) {
				l, rr = rr, l
			}
			put(&stmt{kind: "if", branches: []branch{{&cond{pick(r, "==", "!=", "<", ">", "<=", ">="), l, rr}, []*stmt{sVar("malvar", eNum(1))}}}})
			return str()
		}},
		{"loop that is not constant", func() string {
			put(sVar("mali", eNum(0)), sFor(&cond{"<", eVar("mali"), eVar(arg)}, sSet(eVar("mali"), eBin("+", eVar("mali"), eNum(1))), sVar("malvar", eNum(1))))
			return str()
		}},
		{"division by zero", func() string {
			d := eNum(0)
			switch r.Intn(5) {
			case 0:
				d = eBin("-", eNum(2), eNum(2))
			case 1:
				d = eBin("*", eNum(0), eNum(7))
			case 2:
				d = eBig(cp(N))
			case 3:
				d = eBin("+", eNum(1), eBig(new(big.Int).Sub(N, one)))
			}
			place(eBin("/", eVar(arg), d))
			return str()
		}},
		{"bracket missing", func() string {
			p.style = nil
			s := str()
			var at []int
			for i := range s {
				if strings.IndexByte("(){}[]", s[i]) >= 0 {
					at = append(at, i)
				}
			}
			i := at[r.Intn(len(at))]
			return s[:i] + s[i+1:]
		}},
		{"bracket of another kind", func() string {
			p.style = nil
			s := str()
			var at []int
			for i := range s {
				if strings.IndexByte("(){}[]", s[i]) >= 0 {
					at = append(at, i)
				}
			}
			i := at[r.Intn(len(at))]
			b := "(){}[]"[r.Intn(6)]
			if b == s[i] {
				return ""
			}
			return s[:i] + string(b) + s[i+1:]
		}},
		{"end missing", func() string {
			p.style = nil
			s := strings.TrimRight(str(), "\n")
			i := strings.LastIndexByte(s, '}')
			if i != len(s)-1 {
				return ""
			}
			return s[:i]
		}},
		{"declaration without value", func() string {
			put(&stmt{kind: "raw", raw: pick(r, "var malnovalue", "var malnovalue =", "var", "var 3 = 4", "var malnovalue 3")})
			return str()
		}},
		{"statement without effect on syntax", func() string {
			put(&stmt{kind: "raw", raw: pick(r, "3 = 4", arg+" + ", "* 3", "var malx = 3 +", "var malx = * 3", "var malx = (3", "var malx = 3)", "return return", "else{", "= 5", "var malx = 3 3", "var malx = "+arg+" "+arg, "malx(", "equal("+arg+",", "if{", "for(){", "func(){", "func {")})
			return str()
		}},
		{"unreachable statements", func() string {
			p.body = append(p.body[:end:end], sRet(eNum(1)), sVar("malafter", eNum(2)))
			return str()
		}},
		{"unreachable statements in a function", func() string {
			p.globals = append(p.globals, &stmt{kind: "func", fn: &fdecl{name: "malfun", params: []string{"a"}, anon: chance(r, 1, 2), body: []*stmt{sRet(eVar("a")), sVar("malafter", eNum(2))}}})
			put(sVar("malvar", eCall("malfun", eVar(arg))))
			return str()
		}},
		{"operand without value", func() string {
			// a function that finishes without a value, or that still waits for arguments
			var e *expr
			switch r.Intn(7) {
			case 0:
				p.globals = append(p.globals, &stmt{kind: "func", fn: &fdecl{name: "malnone", params: []string{"a"}, anon: chance(r, 1, 2), body: []*stmt{sVar("malb", eBin("*", eVar("a"), eVar("a")))}}})
				e = eCall("malnone", eVar(arg))
			case 1:
				p.globals = append(p.globals, &stmt{kind: "func", fn: &fdecl{name: "malnone", params: []string{"a"}, anon: chance(r, 1, 2), body: []*stmt{{kind: "if", branches: []branch{{&cond{"==", eNum(1), eNum(2)}, []*stmt{sRet(eVar("a"))}}}}}}})
				e = eCall("malnone", eVar(arg))
			case 2:
				p.globals = append(p.globals, &stmt{kind: "func", fn: &fdecl{name: "malnone", params: []string{"a"}, anon: chance(r, 1, 2), body: []*stmt{sRet(eVar("a"))}}})
				e = eVar("malnone")
			case 3:
				p.globals = append(p.globals, &stmt{kind: "func", fn: &fdecl{name: "malnone", params: []string{"a", "b"}, anon: chance(r, 1, 2), body: []*stmt{sRet(eBin("+", eVar("a"), eVar("b")))}}})
				e = eCall("malnone", eVar(arg))
			case 4:
				p.globals = append(p.globals, &stmt{kind: "func", fn: &fdecl{name: "malnone", params: []string{"a"}, body: []*stmt{sCall(eCall("equal", eVar("a"), eVar("a")))}}})
				e = eCall("malnone", eNum(int64(r.Intn(4))))
			case 5:
				// a function in a variable
				p.globals = append(p.globals, &stmt{kind: "func", fn: &fdecl{name: "malnone", params: []string{"a"}, body: []*stmt{sRet(eVar("a"))}}})
				put(sVar("malk", eVar("malnone")), sEqual(eBin("+", eVar("malk"), eVar(arg)), eNum(1)))
				return str()
			case 6:
				// a function that gives back a function
				p.globals = append(p.globals, &stmt{kind: "func", fn: &fdecl{name: "malnone", params: []string{"a"}, body: []*stmt{{kind: "func", fn: &fdecl{name: "malin", params: []string{"b"}, body: []*stmt{sRet(eVar("b"))}}}, sRet(eVar("malin"))}}})
				e = eCall("malnone", eVar(arg))
			}
			l, rr := e, eVar(arg)
			if chance(r, 1, 3) {
				rr = eNum(int64(r.Intn(3)))
			}
			if chance(r, 1, 2) {
				l, rr = rr, l
			}
			switch r.Intn(8) {
			case 0:
				put(sEqual(l, rr))
			case 1:
				put(sVar("malvar", eCall("addGateConstraint", l, rr)))
			case 2:
				put(sVar("malvar", eCall("scalarBaseMultiply", e)))
			case 3:
				p.body = append([]*stmt{}, p.body[:end]...)
				p.body = append(p.body, sRet(eBin(pick(r, "+", "-", "*", "/"), l, rr)))
			default:
				put(sEqual(eBin(pick(r, "+", "-", "*", "/"), l, rr), eVar(arg)))
			}
			return str()
		}},
		{"condition without value", func() string {
			p.globals = append(p.globals, &stmt{kind: "func", fn: &fdecl{name: "malnone", params: []string{"a"}, body: []*stmt{sRet(eNum(1))}}})
			e := pickExpr(r, eVar("malnone"), eCall("malnone"))
			put(&stmt{kind: "if", branches: []branch{{&cond{pick(r, "==", "!=", "<", ">="), e, g0(r)}, []*stmt{sVar("malvar", eNum(1))}}}})
			return str()
		}},
		{"declaration with another operator", func() string {
			raw := pick(r, "var malvar "+pick(r, "+=", "-=", "*=", "/=", "==", ":=")+" 3", "var malarr[] "+pick(r, "+=", "-=", "*=", "==")+" {1,2}", "var malf "+pick(r, "+=", "*=", "==")+" func(a){\nreturn a\n}", "var malvar+=malvar+1")
			if chance(r, 1, 3) {
				p.globals = append(p.globals, &stmt{kind: "raw", raw: raw})
			} else {
				put(&stmt{kind: "raw", raw: raw})
			}
			return str()
		}},
		{"tokens between else and its body", func() string {
			raw := "if 1==" + pick(r, "1", "2") + "{\nvar malvar=3\n}else " + pick(r, "3", arg, "iff 1==1", "("+arg+"==1)", "1==2", "else", "for", "equal("+arg+",3)", "+") + "{\nvar malvar=4\n}"
			put(&stmt{kind: "raw", raw: raw})
			return str()
		}},
		{"else if without a last else", func() string {
			// as the message of the compiler says: you used else if, so an else at the end is required
			raw := "if " + pick(r, "1==1", "1==2") + "{\nvar malvar=3\n}"
			for n := 1 + r.Intn(3); n > 0; n-- {
				raw += "else if " + pick(r, "1==1", "1==2", "3<4") + "{\nvar malvar=4\n}"
			}
			put(&stmt{kind: "raw", raw: raw})
			return str()
		}},
		{"argument list", func() string {
			a := pick(r, "malx[0]", "malx[00]", "malx["+arg+"]", "malx[1+1]", "malx[]", "malx[2][]", "malx[2]3", "malx[2", "malx[-1]", "malx maly", "", "malx+maly", "3", "malx()", "malx==maly", "malx=3", "malx[2][0]", "var malx", "malx{2}")
			if chance(r, 1, 3) {
				p.globals = append(p.globals, &stmt{kind: "raw", raw: "func malfun(mala," + a + ",malb){\nreturn mala\n}"})
				return str()
			}
			at := r.Intn(len(p.args))
			p.args = append(p.args[:at:at], append([]mainArg{{name: a}}, p.args[at:]...)...)
			return str()
		}},
		{"public section", func() string {
			p.public = append(append([]string{}, p.public...), pick(r, "nowhere", arg+"+"+arg, "3", arg+" "+arg, "nowhere[0]", arg+"[0]", arg+"=3", "{"+arg+"}", arg+"\"", arg+","+arg))
			return str()
		}},
		{"public section of another form", func() string {
			put(&stmt{kind: "raw", raw: pick(r, "public("+arg+")", "public "+arg, "public{"+arg+"", "public["+arg+"]", "public", "public "+arg+"{}")})
			return str()
		}},
		{"array literal", func() string {
			n := "mala"
			put(&stmt{kind: "raw", raw: "var " + pick(r, n+"[] = {1 2}", n+"[] = {,1}", n+"[] = 3", n+"[2] = {1,2}", n+" = {1,2}", n+"[] = (1,2)", n+"[] = {1,,2}", n+"[] = {1,2", n+"[] = 1,2}", n+"[] {1,2}", n+"[]", n+"[] = "+arg, n+"[] = {"+arg+"+}", n+"[] = {{1},{2}}", n+"[][] = {1,2}", "[] = {1,2}", n+"[] = {1;2}")})
			return str()
		}},
		{"loop header", func() string {
			put(&stmt{kind: "raw", raw: "var mali = 0\nfor" + pick(r, "(mali<3){", "(mali<3;){", "(mali=0;mali<3;mali=mali+1){", "(mali<3;mali+1){", " mali<3;mali=mali+1 {", "(mali;mali=mali+1){", "(;){", "(){", "{", "(mali<3,mali=mali+1){", "(mali<3;mali=mali+1)", "(mali<3;mali=mali+1;){", "(mali<3;mali=mali+1){{", "(mali<;mali=mali+1){", "(mali<3;mali=){", "(mali<3;mali=mali+1) 3 {", "(mali<3 mali=mali+1){", "(mali+1;mali=mali+1){", "(mali=3;mali=mali+1){") + "\nvar malvar=3\n}"})
			return str()
		}},
		{"condition", func() string {
			put(&stmt{kind: "raw", raw: "if " + pick(r, "1 {", "1==1==1 {", "{", "1==1 && 2==2 {", "1=1 {", "== 1 {", "1 == {", "1 1 == 1 {", "1 == 1", "1 < > 2 {", "1 =< 2 {", "1 <> 2 {", "1+1 {", "1 == 1 {{", "1 == 1 } {", "(1==1 {", "1==1) {", "1 == (1 {", "var malz == 1 {") + "\nvar malvar=3\n}"})
			return str()
		}},
		{"operand", func() string {
			place(eVar(pick(r, "("+arg+","+arg+")", "()", "-"+arg, "3"+arg, "3("+arg+")", "(3)("+arg+")", "("+arg+"+1)("+arg+")", arg+"*/"+arg, arg+" "+arg, arg+"<"+arg, arg+"=="+arg, arg+"&&"+arg, arg+"^"+arg, arg+"%"+arg, arg+"**"+arg, arg+"+-"+arg, arg+"="+arg, arg+"+="+arg, arg+"[0]", arg+"[]", "["+arg+"]", "{"+arg+"}", "+", arg+"+", "*"+arg, "return "+arg, "var malz", "if", "func", "func(malz){\nreturn malz\n}(3)", arg+";", arg+"."+arg, arg+"!"+arg, "!"+arg, "("+arg, arg+")", "(("+arg+")")))
			return str()
		}},
		{"statement", func() string {
			put(&stmt{kind: "raw", raw: pick(r, arg+" == "+arg, arg+" + "+arg, "3", arg, "("+arg+")", arg+","+arg, "var mala,malb = 3", "var mala = 3,4", "var 3 = 3", "var if = 3", "equal("+arg+","+arg+");", "equal("+arg+","+arg+");equal("+arg+","+arg+")", "equal("+arg+","+arg+") equal("+arg+","+arg+")", "var mala = 3 var malb = 4", "{\nequal("+arg+","+arg+")\n}", "else{\n}", "import \"malfile\"", "func (mala){\nreturn mala\n}", "var malf = func(mala){\nreturn mala\n}(3)",
				"3 = "+arg, arg+"*"+arg+" = 3", arg+" = ", "equal()", "equal "+arg+","+arg, "equal(("+arg+","+arg+"))", "equal("+arg+",)", "equal(,"+arg+")", "equal("+arg+","+arg, "func mala[malb]{\nreturn malb\n}", "func mala(malb) return malb", "func mala(malb){\nreturn malb", "var = 3", "var mala == 3", "mala := 3", arg+"++", arg+"[0] = 3", "break", "var", "func", "if", "for", "public", "import", "return 3,4\nvar malz=3", ")", "}{", "][", "=", "+", ",")})
			return str()
		}},
		{"array and variable of one name", func() string {
			ss := []*stmt{{kind: "arr", name: "maltwice", elems: []*expr{eNum(1), eNum(2)}}, sVar("maltwice", eNum(3))}
			if chance(r, 1, 2) {
				ss[1] = &stmt{kind: "func", fn: &fdecl{name: "maltwice", params: []string{"a"}, anon: chance(r, 1, 2), body: []*stmt{sRet(eVar("a"))}}}
			}
			if chance(r, 1, 2) {
				ss[0], ss[1] = ss[1], ss[0]
			}
			if chance(r, 1, 2) {
				put(ss...)
			} else {
				p.globals = append(p.globals, ss...)
			}
			return str()
		}},
		{"name of a function of the language", func() string {
			n := pick(r, "BREAK", "SPLIT", "AND", "NAND", "OR", "NOT", "addGateConstraint", "scalarBaseMultiply", "equal")
			f := &stmt{kind: "func", fn: &fdecl{name: n, params: []string{"a", "b"}, anon: chance(r, 1, 2), body: []*stmt{sRet(eVar("a"))}}}
			switch r.Intn(6) {
			case 0:
				p.globals = append(p.globals, f)
			case 1:
				put(f)
			case 2:
				put(sVar(n, eNum(3)))
			case 3:
				p.globals = append(p.globals, sVar(n, eNum(3)))
			case 4:
				p.globals = append(p.globals, &stmt{kind: "func", fn: &fdecl{name: "malfun", params: []string{"a", n}, body: []*stmt{sRet(eVar("a"))}}})
				put(sVar("malvar", eCall("malfun", eNum(1), eVar(arg))))
			case 5:
				p.args = append(p.args, mainArg{name: n})
			}
			return str()
		}},
		{"variable in its own initialiser", func() string {
			e := eVar("malvar")
			if chance(r, 1, 2) {
				e = eBin(pick(r, "+", "*", "-"), e, pickExpr(r, eNum(1), eVar(arg)))
			}
			switch r.Intn(4) {
			case 0:
				put(&stmt{kind: "arr", name: "malvar", elems: []*expr{eNum(1), eIdx("malvar", eNum(int64(r.Intn(2))))}})
			case 1:
				p.globals = append(p.globals, sVar("malvar", renameVar(e, arg, "malvar")))
				if chance(r, 1, 2) {
					put(sEqual(eVar("malvar"), eVar(arg)))
				}
			case 2:
				put(&stmt{kind: "if", branches: []branch{{&cond{"==", eNum(2), eNum(2)}, []*stmt{sVar("malvar", e), sEqual(eVar("malvar"), eVar(arg))}}}})
			default:
				put(sVar("malvar", e))
				if chance(r, 1, 2) {
					p.body = insertAt(p.body, end+1, sEqual(eVar("malvar"), eVar(arg)))
				}
			}
			return str()
		}},
		{"variable used before its declaration", func() string {
			use := sEqual(eVar("malvar"), eVar(arg))
			if chance(r, 1, 2) {
				use = sSet(eVar("malvar"), eVar(arg))
			}
			decl := sVar("malvar", eNum(3))
			switch r.Intn(4) {
			case 0:
				put(use, decl)
			case 1:
				put(&stmt{kind: "if", branches: []branch{{&cond{"==", eNum(2), eNum(2)}, []*stmt{use, decl}}}})
			case 2:
				put(&stmt{kind: "if", branches: []branch{{&cond{"==", eNum(2), eNum(2)}, []*stmt{use}}}}, decl)
			case 3:
				// declared in another block only
				put(&stmt{kind: "if", branches: []branch{{&cond{"==", eNum(2), eNum(2)}, []*stmt{decl}}}}, use)
			}
			return str()
		}},
		{"element of a hidden array", func() string {
			// an inner array hides a longer one
			arr := func(n int) *stmt {
				a := &stmt{kind: "arr", name: "malhid"}
				for ; n > 0; n-- {
					a.elems = append(a.elems, eNum(int64(r.Intn(5))))
				}
				return a
			}
			k := 1 + r.Intn(3)
			use := sEqual(eIdx("malhid", eNum(int64(k))), eVar(arg))
			if chance(r, 1, 3) {
				use = sSet(eIdx("malhid", eNum(int64(k))), eVar(arg))
			}
			inner := arr(k)
			if chance(r, 1, 4) {
				inner = sVar("malhid", eNum(3))
				use = sEqual(eIdx("malhid", eNum(0)), eVar(arg))
			}
			switch r.Intn(4) {
			case 0:
				p.globals = append(p.globals, arr(k+1+r.Intn(2)))
				put(inner, use)
			case 1:
				put(arr(k+1), &stmt{kind: "if", branches: []branch{{&cond{"==", eNum(2), eNum(2)}, []*stmt{inner, use}}}})
			case 2:
				p.globals = append(p.globals, arr(k+1))
				p.args = append(p.args, mainArg{name: "malhid", dims: []int{k}})
				put(sEqual(eIdx("malhid", eNum(int64(k))), eVar(arg)))
			case 3:
				p.globals = append(p.globals, arr(k+1), &stmt{kind: "func", fn: &fdecl{name: "malfun", params: []string{"malhid"}, body: []*stmt{sRet(eIdx("malhid", eNum(0)))}}})
				put(sEqual(eCall("malfun", eVar(arg)), eNum(3)))
			}
			return str()
		}},
		{"argument and array of one name", func() string {
			d := []int{1 + r.Intn(3)}
			a, b := mainArg{name: "maltwice", dims: d}, mainArg{name: "maltwice"}
			switch r.Intn(4) {
			case 0:
				p.args = append(p.args, a, b)
			case 1:
				p.args = append(p.args, b, a)
			case 2:
				p.args = append(p.args, a)
				put(sVar("maltwice", eNum(3)))
			case 3:
				p.args = append(p.args, pickArg(r, a, b))
				put(&stmt{kind: "arr", name: "maltwice", elems: []*expr{eNum(1), eNum(2)}})
			}
			return str()
		}},
		{"undeclared outside of functions", func() string {
			p.globals = append(p.globals, pickStmt(r, sEqual(eVar("nowhere"), eNum(4)), sSet(eVar("nowhere"), eNum(4)), sVar("malvar", eVar("nowhere")), sCall(eCall("nofunction", eNum(1))), sVar("malvar", eVar(arg)), sEqual(eVar(arg), eVar(arg))))
			return str()
		}},
		{"unknown character", func() string {
			p.style = nil
			s := str()
			i := r.Intn(len(s) + 1)
			return s[:i] + pick(r, "$", "@", "~", "?", "'", "`", "\\", "ä", "€", "\x00", "\xff", ".", "%", "^") + s[i:]
		}},
		{"main missing", func() string {
			s := str()
			t := strings.Replace(s, "main(", pick(r, "Main(", "man(", "main2("), 1)
			if t == s {
				return ""
			}
			return t
		}},
		{"empty", func() string { return pick(r, " ", "\n", "# nothing\n", "var x = 3\n", "func f(a){\nreturn a\n}\n") }},
		{"open quote", func() string { put(&stmt{kind: "raw", raw: "var malx = \"abc"}); return str() }},
		{"quoted text outside of an import", func() string {
			if chance(r, 1, 4) {
				put(&stmt{kind: "raw", raw: pick(r, "var malx = \"abc\"", "var \"malx\" = "+arg, "equal(\""+arg+"\","+arg+")", "var malx = "+arg+"*\"5\"", "\"\"", "equal(\""+arg+","+arg+"\")", "\"equal\"("+arg+","+arg+")", "var malx = \""+arg+"*"+arg+"\"")})
				return str()
			}
			// any name or number in quotes
			p.style = nil
			s := str()
			if strings.Contains(s, "#") || strings.Contains(s, "\"") {
				return ""
			}
			var at [][]int
			for _, m := range regexp.MustCompile(`[A-Za-z_0-9]+`).FindAllStringIndex(s, -1) {
				if _, key := refKeywords[s[m[0]:m[1]]]; !key {
					at = append(at, m)
				}
			}
			m := at[r.Intn(len(at))]
			return s[:m[0]] + "\"" + s[m[0]:m[1]] + "\"" + s[m[1]:]
		}},
		{"missing import", func() string { return "import nosuchfile\n" + str() }},
	}
	o := ops[r.Intn(len(ops))]
	return o.f(), o.kind
}

func pick2(r *rand.Rand, n ...int) int { return n[r.Intn(len(n))] }

func pickExpr(r *rand.Rand, e ...*expr) *expr { return e[r.Intn(len(e))] }
func pickStmt(r *rand.Rand, s ...*stmt) *stmt { return s[r.Intn(len(s))] }

func pickArg(r *rand.Rand, a ...mainArg) mainArg { return a[r.Intn(len(a))] }

func g0(r *rand.Rand) *expr { return eNum(int64(r.Intn(4))) }

func renameVar(e *expr, from, to string) *expr {
	out := &expr{op: e.op, num: e.num, name: e.name}
	if e.op == "var" && e.name == from {
		out.name = to
	}
	for _, k := range e.kids {
		out.kids = append(out.kids, renameVar(k, from, to))
	}
	return out
}

func init() {
	register(&Prop{ID: "C21", Quick: 4000, Thorough: 150000, Run: runC21,
		Rule: "a case tokenizes 40 texts (random token sequences, hostile characters, invalid bytes, cut and spliced programs) and compares tokens, kinds and the verdict with an independent tokenizer, then compiles one program in three layouts; non-trivial: a refused text or more than three tokens, distinct by text",
		Need: []string{"texts tokenized", "texts refused", "layouts compared"}})
	register(&Prop{ID: "C22", Quick: 500, Thorough: 6000, Run: runC22,
		Rule:   "a case splits one or two values (inputs, products, quotients, scaled values, constants) in a random place and reads bits, weights and the value off the constraints by their effect; every bit of the witness is compared with the digit and changed; distinct by program and inputs",
		Assume: []string{"decompositions of value + group order below 2^254 are not excluded by the constraints and not judged"},
		Need:   []string{"values decomposed", "bits compared", "bits changed", "carries refused"}})
	register(&Prop{ID: "C23", Quick: 1200, Thorough: 40000, Run: runC23,
		Rule: "a case asserts one to three expressions with base point multiplications of inputs, sums, products, constants and other multiplications against claimed outputs; correct claims come from affine curve arithmetic, wrong ones must be refused; distinct by program shape and inputs",
		Need: []string{"satisfied", "wrong claims refused", "reference multiplications"}})
	register(&Prop{ID: "C24", Quick: 10000, Thorough: 150000, Run: runC24,
		Rule: "a case draws a valid program, checks that it compiles and refuses wrong numbers of inputs, then derives six malformed variants by one of more than 50 operators on code that is reached, and twelve variants with randomly changed tokens, names, numbers and lines, which have to be refused or to be programs by an independent parser whose witness and constraints agree with the interpreter; a reference program is compiled afterwards; distinct by malformed source and by compiled variant",
		Need: []string{"malformed programs refused", "wrong input counts refused", "reference programs compared", "changed programs compiled", "changed programs refused"}})
}
