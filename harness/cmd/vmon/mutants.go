package main

import (
	"math/rand"
	"regexp"
	"strings"

	"github.com/mottla/go-AlgebraicProgram-SNARK/circuitcompiler"
)

// Mutants: programs with a few tokens, names or lines changed at random. Whatever the compiler makes of them, what it
// accepts is a program of the language and means what the program says.

// an array of an argument that exceeds any memory
var hugeArray = regexp.MustCompile(`\[\s*[0-9]{5,}`)

func joinTokens(ts []tok) string {
	var b strings.Builder
	for i, t := range ts {
		if i > 0 && t.text != "\n" && ts[i-1].text != "\n" && t.text != "(" && t.text != "[" && t.text != ")" && t.text != "," && ts[i-1].text != "(" {
			b.WriteString(" ")
		}
		b.WriteString(t.text)
	}
	return b.String()
}

var mutantTokens = strings.Fields("( ) { } [ ] , ; = == != < > <= >= + - * / += && || << var func if else for return public import main equal equal( SPLIT( AND( OR( main( 0 1 2 3 7 x a i")

// mutate changes the tokens of a program, in one of the last kinds of ways
func mutate(r *rand.Rand, src string, times int, kinds int) string {
	ts, bad := refTokens(src)
	if bad {
		return src
	}
	isName := func(t tok) bool {
		return t.kind == circuitcompiler.IDENTIFIER_VARIABLE || t.kind == circuitcompiler.FUNCTION_CALL
	}
	at := func(f func(tok) bool) int {
		for k := 0; k < 50; k++ {
			if i := r.Intn(len(ts)); f(ts[i]) {
				return i
			}
		}
		return r.Intn(len(ts))
	}
	lineOf := func(i int) (from, to int) {
		for from = i; from > 0 && ts[from-1].text != "\n"; from-- {
		}
		for to = i; to < len(ts) && ts[to].text != "\n"; to++ {
		}
		if to < len(ts) {
			to++
		}
		return
	}
	splice := func(from, to int, add ...tok) {
		out := append([]tok{}, ts[:from]...)
		out = append(out, add...)
		ts = append(out, ts[to:]...)
	}
	for ; times > 0 && len(ts) > 3; times-- {
		i := r.Intn(len(ts))
		switch 13 - kinds + r.Intn(kinds) {
		case 0:
			splice(i, i+1)
		case 1:
			splice(i, i, ts[i])
		case 2:
			j := r.Intn(len(ts))
			ts[i], ts[j] = ts[j], ts[i]
		case 3:
			if i+1 < len(ts) {
				ts[i], ts[i+1] = ts[i+1], ts[i]
			}
		case 4:
			splice(i, i, ts[r.Intn(len(ts))])
		case 5:
			splice(i, i+r.Intn(2), tok{text: mutantTokens[r.Intn(len(mutantTokens))]})
		case 6, 7:
			// one name for another
			i, j := at(isName), at(isName)
			ts[i].text = ts[j].text
		case 8:
			// a number for a name, a name for a number
			num := func(t tok) bool { return t.kind == circuitcompiler.NumberToken }
			i, j := at(isName), at(num)
			if chance(r, 1, 2) {
				i, j = j, i
			}
			ts[i] = ts[j]
		case 9:
			// one number for another
			i := at(func(t tok) bool { return t.kind == circuitcompiler.NumberToken })
			ts[i].text = pick(r, "0", "1", "2", "3", "10", "007")
		case 10:
			// a line is lost
			f, t := lineOf(i)
			splice(f, t)
		case 11:
			// a line is repeated elsewhere
			f, t := lineOf(i)
			l := append([]tok{}, ts[f:t]...)
			j, _ := lineOf(r.Intn(len(ts)))
			splice(j, j, l...)
		case 12:
			// a line moves
			f, t := lineOf(i)
			l := append([]tok{}, ts[f:t]...)
			splice(f, t)
			if len(ts) > 0 {
				j, _ := lineOf(r.Intn(len(ts)))
				splice(j, j, l...)
			}
		}
	}
	return joinTokens(ts)
}

// mayRecurse tells whether the functions of a text might call each other without end. It reads more into the text than
// there is.
func mayRecurse(src string) bool {
	ts, _ := refTokens(src)
	isName := func(i int) bool {
		return i < len(ts) && (ts[i].kind == circuitcompiler.IDENTIFIER_VARIABLE || ts[i].kind == circuitcompiler.FUNCTION_CALL)
	}
	is := func(i int, s string) bool { return i < len(ts) && ts[i].text == s }
	to := map[string]map[string]bool{}
	edge := func(a, b string) {
		if to[a] == nil {
			to[a] = map[string]bool{}
		}
		to[a][b] = true
	}
	called, params, passed, funcs := map[string]bool{}, map[string]bool{}, map[string]bool{}, map[string]bool{}
	// parens are the names between the next parentheses
	parens := func(i int, m map[string]bool) {
		for d := 0; i < len(ts); i++ {
			if is(i, "(") {
				d++
			} else if is(i, ")") {
				if d--; d <= 0 {
					return
				}
			} else if d > 0 && isName(i) {
				m[ts[i].text] = true
			}
		}
	}
	for i := range ts {
		def := is(i, "func")
		if isName(i) && is(i+1, "(") {
			called[ts[i].text] = true
			if i == 0 || !is(i-1, "func") {
				parens(i+1, passed)
			}
		}
		if def {
			j := i + 1
			if isName(j) {
				funcs[ts[j].text] = true
				j++
			} else if i > 1 && is(i-1, "=") {
				funcs[ts[i-2].text] = true
			}
			parens(j, params)
		}
		from := i
		if def && isName(i+1) {
			from = i + 1
		} else {
			j := i + 1
			for is(j, "[") {
				for j < len(ts) && !is(j, "]") {
					j++
				}
				j++
			}
			if !isName(i) || !is(j, "=") {
				continue
			}
		}
		// a function, or what is stored
		for j, d := from+1, 0; j < len(ts) && (d > 0 || !is(j, "\n")); j++ {
			if is(j, "{") {
				d++
			} else if is(j, "}") {
				if d--; d <= 0 {
					break
				}
			} else if isName(j) {
				edge(ts[from].text, ts[j].text)
			}
		}
	}
	higher := false
	for n := range called {
		if params[n] || !funcs[n] && builtins[n] == 0 {
			higher = true
		}
	}
	if higher {
		for p := range params {
			for a := range passed {
				edge(p, a)
			}
		}
	} else {
		// functions that are stored are never called
		for n := range to {
			if !funcs[n] {
				delete(to, n)
			}
		}
	}
	for f := range called {
		seen := map[string]bool{}
		var visit func(n string) bool
		visit = func(n string) bool {
			for m := range to[n] {
				if m == f {
					return true
				}
				if !seen[m] {
					seen[m] = true
					if visit(m) {
						return true
					}
				}
			}
			return false
		}
		if visit(f) {
			return true
		}
	}
	return false
}

// ends tells whether the execution of a program is known to end
func ends(r *rand.Rand, src string) bool {
	q, err := parseProgram(src)
	if err != nil {
		return false
	}
	return q.evalWith(q.inputs(r), &evaluator{max: stepLimit, lenient: true, tolerant: true}).abort == ""
}

// checkMutant judges a changed program. With onlyMeaning, refusals and accepted texts that are no programs are left to C24.
func checkMutant(c *Ctx, p *program, src string, onlyMeaning bool) {
	if hugeArray.MatchString(src) {
		return
	}
	q, perr := parseProgram(src)
	stopped := perr != nil
	if perr == nil {
		res := q.evalWith(q.inputs(c.R), &evaluator{max: stepLimit, lenient: true, tolerant: true})
		if res.abort == "too long" {
			// possibly without end
			return
		}
		stopped = res.abort != ""
	}
	if stopped && mayRecurse(src) {
		// the evaluation did not get far enough to know that there is an end: the text is not executed
		if try(func() { circuitcompiler.Parse(src, true) }) != nil {
			c.Count("changed programs refused", 1)
		} else {
			c.Count("changed programs left out for a possible recursion", 1)
		}
		return
	}
	comp, err, hang := compileTimed(src)
	if hang && stopped && strings.Contains(src, "for") {
		return
	}
	if hang {
		c.Note("%s", src)
		c.Fail("hang mutant", "compiling a changed program does not end")
		return
	}
	if err != nil {
		if _, ok := err.(*compileErr); !ok {
			c.Note("%s", src)
			c.Fail("mutant inconsistent", "a changed program is compiled to an inconsistent system: %v", err)
			return
		}
		c.Count("changed programs refused", 1)
		return
	}
	if perr != nil {
		if onlyMeaning {
			return
		}
		c.Note("%s", src)
		c.Fail("mutant syntax", "a text that is no program is compiled: %v", perr)
		return
	}
	c.Count("changed programs compiled", 1)
	if d := comp.sys.diff(comp.ssys); d != "" {
		c.Note("%s", src)
		c.Fail("representation", "dense and sparse constraints differ: %s", d)
		return
	}
	names := map[string]bool{}
	for _, n := range q.argNames() {
		names[n] = true
	}
	for _, o := range p.outs {
		if names[o] {
			q.outs = append(q.outs, o)
		}
	}
	for k := 0; k < 2; k++ {
		in := q.inputs(c.R)
		q.solveOuts(in, stepLimit)
		res := q.eval(in, stepLimit)
		if res.abort == "too long" {
			return
		}
		if res.abort != "" {
			if onlyMeaning {
				return
			}
			c.Note("%s", src)
			c.Fail("mutant "+strings.Fields(res.abort)[0], "a malformed program is compiled: %s", res.abort)
			return
		}
		if len(comp.inputs) != len(in) {
			c.Note("%s", src)
			c.Fail("mutant inputs", "arguments %v, expected %v", comp.inputs, q.argNames())
			return
		}
		if w := against(c, q, comp, in, res); w != nil {
			c.Distinct(src)
		}
		if c.failed() {
			c.Note("%s", src)
			return
		}
	}
}
