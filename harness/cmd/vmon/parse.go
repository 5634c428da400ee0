package main

import (
	"fmt"
	"math/big"
	"strings"

	"github.com/mottla/go-AlgebraicProgram-SNARK/circuitcompiler"
)

// A recursive descent parser of the language, from the tokens of the reference tokenizer to the abstract syntax. It
// is generous about line breaks and strict about everything else.

type refParser struct {
	toks []tok
	pos  int
}

type syntaxError struct{ what string }

func (p *refParser) fail(f string, a ...interface{}) {
	panic(syntaxError{fmt.Sprintf("token %d: ", p.pos) + fmt.Sprintf(f, a...)})
}

func (p *refParser) peek() tok {
	if p.pos < len(p.toks) {
		return p.toks[p.pos]
	}
	return tok{}
}

func (p *refParser) done() bool { return p.pos >= len(p.toks) }

func (p *refParser) is(s string) bool { return !p.done() && p.toks[p.pos].text == s }

func (p *refParser) next() tok { t := p.peek(); p.pos++; return t }

func (p *refParser) expect(s string) {
	if !p.is(s) {
		p.fail("%q expected, got %q", s, p.peek().text)
	}
	p.pos++
}

func (p *refParser) accept(s string) bool {
	if p.is(s) {
		p.pos++
		return true
	}
	return false
}

// breaks skips line breaks
func (p *refParser) breaks() {
	for p.accept("\n") {
	}
}

func (p *refParser) name() string {
	if p.accept("(") {
		n := p.name()
		p.expect(")")
		return n
	}
	t := p.next()
	if t.kind != circuitcompiler.IDENTIFIER_VARIABLE && t.kind != circuitcompiler.FUNCTION_CALL {
		p.fail("name expected, got %q", t.text)
	}
	return t.text
}

// parseProgram reads a program, without imports
func parseProgram(src string) (prog *program, err error) {
	all, bad := refTokens(src)
	if bad {
		return nil, fmt.Errorf("no tokens")
	}
	p := &refParser{}
	for _, t := range all {
		if t.kind == circuitcompiler.CommentToken || (t.text == "\n" && len(p.toks) > 0 && p.toks[len(p.toks)-1].text == "\n") {
			continue
		}
		p.toks = append(p.toks, t)
	}
	defer func() {
		if r := recover(); r != nil {
			s, ok := r.(syntaxError)
			if !ok {
				panic(r)
			}
			err = fmt.Errorf("%s", s.what)
		}
	}()
	prog = &program{mainPos: -1}
	for p.breaks(); !p.done(); p.breaks() {
		if p.emptyPublic() {
			continue
		}
		anon := p.pos+3 < len(p.toks) && p.is("var") && p.toks[p.pos+1].text == "main" && p.toks[p.pos+2].text == "=" && p.toks[p.pos+3].text == "func"
		if anon || p.is("func") && p.pos+1 < len(p.toks) && p.toks[p.pos+1].text == "main" {
			if prog.mainPos >= 0 {
				p.fail("main declared twice")
			}
			prog.mainPos = len(prog.globals)
			p.pos += 2
			if anon {
				p.pos += 2
			}
			p.expect("(")
			for p.breaks(); !p.is(")"); {
				a := mainArg{name: p.name()}
				for p.accept("[") {
					t := p.next()
					d, ok := new(big.Int).SetString(t.text, 10)
					if !ok || d.Sign() <= 0 || d.BitLen() > 20 {
						p.fail("size expected, got %q", t.text)
					}
					a.dims = append(a.dims, int(d.Int64()))
					p.expect("]")
				}
				prog.args = append(prog.args, a)
				p.breaks()
				if !p.accept(",") {
					break
				}
				p.breaks()
			}
			p.expect(")")
			p.expect("{")
			prog.body = p.block(prog)
			continue
		}
		prog.globals = append(prog.globals, p.stmt(prog))
	}
	if prog.mainPos < 0 {
		p.fail("no main")
	}
	return prog, nil
}

// emptyPublic skips a public section without arguments, which declares nothing
// and does no harm outside of main either
func (p *refParser) emptyPublic() bool {
	at := p.pos
	if p.accept("public") && p.accept("{") {
		p.breaks()
		if p.accept("}") {
			return true
		}
	}
	p.pos = at
	return false
}

// block reads statements up to the closing bracket
func (p *refParser) block(prog *program) (out []*stmt) {
	for p.breaks(); !p.accept("}"); p.breaks() {
		if p.done() {
			p.fail("'}' missing")
		}
		if p.is("public") && prog != nil {
			p.pos++
			p.expect("{")
			if prog.public == nil {
				prog.public = []string{}
			}
			for p.breaks(); !p.is("}"); {
				e := p.primary()
				if e.op != "var" && e.op != "idx" {
					p.fail("argument expected")
				}
				prog.public = append(prog.public, (&printer{}).bare(e))
				p.breaks()
				if !p.accept(",") {
					break
				}
				p.breaks()
			}
			p.expect("}")
			continue
		}
		if p.emptyPublic() {
			continue
		}
		out = append(out, p.stmt(nil))
	}
	for i, s := range out {
		if s.kind == "return" && i+1 < len(out) {
			p.fail("statements after return")
		}
	}
	return
}

// end of a statement on a line
func (p *refParser) end() {
	if !p.done() && !p.is("\n") && !p.is("}") {
		p.fail("end of line expected, got %q", p.peek().text)
	}
}

func (p *refParser) fdecl(name string, anon bool) *stmt {
	f := &fdecl{name: name, anon: anon}
	p.expect("(")
	for p.breaks(); !p.is(")"); {
		n := p.name()
		var dims []int
		for p.accept("[") {
			t := p.next()
			d, ok := new(big.Int).SetString(t.text, 10)
			if !ok || d.Sign() <= 0 || d.BitLen() > 20 {
				p.fail("size expected, got %q", t.text)
			}
			dims = append(dims, int(d.Int64()))
			p.expect("]")
		}
		f.params = append(f.params, mainArg{n, dims}.flat()...)
		p.breaks()
		if !p.accept(",") {
			break
		}
		p.breaks()
	}
	p.expect(")")
	p.expect("{")
	f.body = p.block(nil)
	return &stmt{kind: "func", fn: f}
}

func (p *refParser) stmt(prog *program) *stmt {
	t := p.peek()
	switch {
	case t.text == "func":
		p.pos++
		return p.fdecl(p.name(), false)
	case t.text == "var":
		p.pos++
		n := p.name()
		if p.accept("[") {
			p.expect("]")
			p.expect("=")
			p.expect("{")
			s := &stmt{kind: "arr", name: n}
			for p.breaks(); !p.is("}"); {
				s.elems = append(s.elems, p.expr())
				p.breaks()
				if !p.accept(",") {
					break
				}
				p.breaks()
			}
			p.expect("}")
			p.end()
			return s
		}
		p.expect("=")
		if p.accept("func") {
			return p.fdecl(n, true)
		}
		s := sVar(n, p.expr())
		p.end()
		return s
	case t.text == "if":
		s := &stmt{kind: "if"}
		for {
			p.expect("if")
			b := branch{cond: p.cond()}
			p.breaks()
			p.expect("{")
			b.body = p.block(nil)
			s.branches = append(s.branches, b)
			if !p.accept("else") {
				if len(s.branches) > 1 {
					p.fail("else missing")
				}
				return s
			}
			if p.is("if") {
				continue
			}
			p.breaks()
			p.expect("{")
			s.branches = append(s.branches, branch{body: p.block(nil)})
			return s
		}
	case t.text == "for":
		p.pos++
		p.expect("(")
		c := p.cond()
		p.expect(";")
		inc := p.assignment()
		p.expect(")")
		p.breaks()
		p.expect("{")
		return sFor(c, inc, p.block(nil)...)
	case t.text == "return":
		p.pos++
		s := &stmt{kind: "return"}
		if !p.done() && !p.is("\n") && !p.is("}") {
			s.e = p.expr()
		}
		p.end()
		return s
	case t.kind == circuitcompiler.FUNCTION_CALL:
		e := p.primary()
		if e.op != "call" {
			p.fail("call expected")
		}
		p.end()
		return sCall(e)
	case t.kind == circuitcompiler.IDENTIFIER_VARIABLE:
		s := p.assignment()
		p.end()
		return s
	}
	p.fail("statement expected, got %q", t.text)
	return nil
}

func (p *refParser) assignment() *stmt {
	l := p.primary()
	if l.op != "var" && l.op != "idx" {
		p.fail("assignment expected")
	}
	p.expect("=")
	return sSet(l, p.expr())
}

func (p *refParser) cond() *cond {
	e := p.expr()
	if len(e.kids) != 2 || e.op == "call" || e.op == "idx" {
		return &cond{"", e, e}
	}
	return &cond{e.op, e.kids[0], e.kids[1]}
}

// binding tells how tight an operator binds. Only the arithmetic ones have a meaning in a value.
func binding(t tok) int {
	switch t.text {
	case "||":
		return 1
	case "&&":
		return 2
	case "==", "!=", "<", ">", "<=", ">=":
		return 3
	case "+", "-":
		return 4
	case "*", "/", "<<", ">>":
		return 5
	}
	return 0
}

func (p *refParser) expr() *expr { return p.operators(1) }

func (p *refParser) operators(level int) *expr {
	if level > 5 {
		return p.primary()
	}
	e := p.operators(level + 1)
	for !p.done() && binding(p.peek()) == level {
		op := p.next().text
		e = eBin(op, e, p.operators(level+1))
	}
	return e
}

func (p *refParser) primary() *expr {
	t := p.next()
	switch {
	case t.text == "(":
		e := p.expr()
		p.expect(")")
		return e
	case t.kind == circuitcompiler.NumberToken:
		n, ok := new(big.Int).SetString(strings.TrimSpace(t.text), 10)
		if !ok {
			p.fail("number %q", t.text)
		}
		return eBig(n)
	case t.kind == circuitcompiler.FUNCTION_CALL || (t.kind == circuitcompiler.IDENTIFIER_VARIABLE && p.is("(")):
		e := eCall(t.text)
		p.expect("(")
		for p.breaks(); !p.is(")"); {
			e.kids = append(e.kids, p.expr())
			p.breaks()
			if !p.accept(",") {
				break
			}
			p.breaks()
		}
		p.expect(")")
		return e
	case t.kind == circuitcompiler.IDENTIFIER_VARIABLE:
		if !p.is("[") {
			return eVar(t.text)
		}
		e := eIdx(t.text)
		for p.accept("[") {
			e.kids = append(e.kids, p.expr())
			p.expect("]")
		}
		return e
	}
	p.pos--
	p.fail("expression expected, got %q", t.text)
	return nil
}
