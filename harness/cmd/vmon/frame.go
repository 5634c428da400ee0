// Package main is a runtime monitor for go-AlgebraicProgram-SNARK: it drives the real library with generated
// workloads and judges every execution with oracles that do not use the code under test.
package main

import (
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"runtime/debug"
	"strings"
	"sync"
)

// Prop describes the monitor of one property.
type Prop struct {
	ID       string
	Quick    int // number of cases in the quick tier
	Thorough int // number of cases in the thorough tier
	Race     bool
	Compare  bool // every case is executed by two different processes with different histories, digests must agree
	Rule     string
	Assume   []string
	Need     []string // counters that must be positive, otherwise the run observed nothing
	Run      func(c *Ctx)
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

// Ctx is handed to a case. All randomness comes from R.
type Ctx struct {
	large  bool // a large system was drawn
	Prop   string
	Idx    int
	Seed   int64
	Tier   string
	R      *rand.Rand
	mu     sync.Mutex
	counts map[string]int64
	keys   []uint64
	viols  []Violation
	sample interface{}
	digest string
	trace  []string
	second bool // executed by the second process of a comparing property
}

// Violation is one observed breach. Key identifies it for the known findings file.
type Violation struct {
	Key    string `json:"key"`
	Msg    string `json:"msg"`
	Detail string `json:"detail,omitempty"`
}

func newCtx(prop string, idx int, seed int64, tier string) *Ctx {
	h := fnv.New64a()
	fmt.Fprintf(h, "%s|%d|%d", prop, idx, seed)
	return &Ctx{Prop: prop, Idx: idx, Seed: seed, Tier: tier, R: rand.New(rand.NewSource(int64(h.Sum64() >> 1))), counts: map[string]int64{}}
}

// Count adds n observed events of a kind.
func (c *Ctx) Count(name string, n int) {
	c.mu.Lock()
	c.counts[name] += int64(n)
	c.mu.Unlock()
}

// Distinct records one non-trivial evaluation by the hash of its description.
func (c *Ctx) Distinct(parts ...interface{}) {
	h := fnv.New64a()
	fmt.Fprint(h, parts...)
	c.mu.Lock()
	c.keys = append(c.keys, h.Sum64())
	c.mu.Unlock()
}

// Sample offers a description of the case for the evidence.
func (c *Ctx) Sample(s interface{}) {
	c.mu.Lock()
	if c.sample == nil {
		c.sample = s
	}
	c.mu.Unlock()
}

// Note adds a line to the description that is printed if the case turns out to be a violation.
// traceNotes prints notes at once, for cases that kill the process
var traceNotes = os.Getenv("VMON_TRACE") != ""

func (c *Ctx) Note(format string, a ...interface{}) {
	if traceNotes {
		fmt.Fprintf(os.Stderr, format+"\n", a...)
	}
	c.mu.Lock()
	if len(c.trace) < 200 {
		c.trace = append(c.trace, fmt.Sprintf(format, a...))
	}
	c.mu.Unlock()
}

// Fail records a violation.
func (c *Ctx) Fail(key, format string, a ...interface{}) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.viols) < 5 {
		c.viols = append(c.viols, Violation{Key: key, Msg: clip(fmt.Sprintf(format, a...), 4000), Detail: clip(strings.Join(c.trace, "\n"), 60000)})
	}
}

func (c *Ctx) failed() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return len(c.viols) > 0
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "...(cut)"
	}
	return s
}

// Caught is a panic of the library.
type Caught struct {
	Val   interface{}
	Stack string
}

func (p *Caught) String() string { return fmt.Sprintf("%v", p.Val) }

// try runs f and returns the panic it raised, if any.
func try(f func()) (caught *Caught) {
	defer func() {
		if r := recover(); r != nil {
			caught = &Caught{Val: r, Stack: string(debug.Stack())}
		}
	}()
	f()
	return nil
}

// runCase executes one case. A panic that the case did not expect is a violation.
func runCase(p *Prop, c *Ctx) {
	if caught := try(func() { p.Run(c) }); caught != nil {
		c.Note("%s", caught.Stack)
		c.Fail("panic", "unexpected panic: %v", clip(caught.String(), 500))
	}
}

func pick(r *rand.Rand, n ...string) string { return n[r.Intn(len(n))] }

func chance(r *rand.Rand, num, den int) bool { return r.Intn(den) < num }
