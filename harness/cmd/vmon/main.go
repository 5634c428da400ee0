package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/mottla/go-AlgebraicProgram-SNARK/utils"
)

type result struct {
	Idx    int              `json:"i"`
	Counts map[string]int64 `json:"c,omitempty"`
	Keys   []uint64         `json:"k,omitempty"`
	Viols  []Violation      `json:"v,omitempty"`
	Sample interface{}      `json:"s,omitempty"`
	Digest string           `json:"d,omitempty"`
}

var (
	fProp    = flag.String("prop", "", "property")
	fTier    = flag.String("tier", "quick", "tier")
	fSeed    = flag.Int64("seed", 1, "seed")
	fWorker  = flag.Bool("worker", false, "run as worker")
	fStart   = flag.Int("start", 0, "first case")
	fStride  = flag.Int("stride", 1, "stride")
	fEnd     = flag.Int("end", 1, "end")
	fReverse = flag.Bool("reverse", false, "run the cases in descending order")
	fOut     = flag.String("out", "evidence", "evidence directory")
	fKnown   = flag.String("known", "", "known findings")
	fN       = flag.Int("n", 0, "number of cases (0: as registered)")
	fReplay  = flag.String("replay", "", "replay file")
	fList    = flag.Bool("list", false, "list the properties that need the race build")
	fVerbose = flag.Bool("v", false, "verbose")
	fRandoms = flag.Bool("randoms", false, "print field elements the library draws")
	fWorkers = flag.Int("workers", 8, "worker processes")
)

func main() {
	flag.Parse()
	if *fList {
		for id, p := range props {
			fmt.Println(id, p.Race, p.Quick, p.Thorough)
		}
		return
	}
	if *fRandoms {
		for i := 0; i < 20; i++ {
			v, err := utils.Field.ArithmeticField.Rand()
			if err != nil {
				panic(err)
			}
			fmt.Println(v)
		}
		return
	}
	if *fReplay != "" {
		replay(*fReplay)
		return
	}
	p, ok := props[*fProp]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown property", *fProp)
		os.Exit(2)
	}
	if *fWorker {
		worker(p)
		return
	}
	os.Exit(parent(p))
}

// worker executes its share of the cases and reports on file descriptor 3.
func worker(p *Prop) {
	debug.SetGCPercent(200)
	out := os.NewFile(3, "report")
	enc := json.NewEncoder(out)
	// the library prints; the report channel is separate
	if null, err := os.OpenFile("/dev/null", os.O_WRONLY, 0); err == nil {
		os.Stdout = null
	}
	var order []int
	if *fStride > 1 {
		// shifted by one in every round, so that kinds of cases that recur with the index are spread over the workers
		for i := 0; i < *fEnd; i++ {
			if (i + i / *fStride)%*fStride == *fStart {
				order = append(order, i)
			}
		}
	} else {
		for i := *fStart; i < *fEnd; i++ {
			order = append(order, i)
		}
	}
	if *fReverse {
		for a, b := 0, len(order)-1; a < b; a, b = a+1, b-1 {
			order[a], order[b] = order[b], order[a]
		}
	}
	for _, i := range order {
		fmt.Fprintf(out, "B %d\n", i)
		c := newCtx(p.ID, i, *fSeed, *fTier)
		c.second = *fReverse
		runCase(p, c)
		c.mu.Lock()
		r := result{Idx: i, Counts: c.counts, Keys: c.keys, Viols: c.viols, Digest: c.digest}
		if i < 64 || len(c.viols) > 0 {
			r.Sample = c.sample
		}
		enc.Encode(r)
		c.mu.Unlock()
	}
	fmt.Fprintln(out, "E")
}

func replay(path string) {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var r struct {
		Property string
		Seed     int64
		Tier     string
		Case     int
	}
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	p := props[r.Property]
	c := newCtx(r.Property, r.Case, r.Seed, r.Tier)
	runCase(p, c)
	for _, v := range c.viols {
		fmt.Printf("violation key=%s: %s\n%s\n", v.Key, v.Msg, v.Detail)
	}
	if len(c.viols) > 0 {
		os.Exit(1)
	}
	fmt.Println("the case holds")
}

type child struct {
	cmd     *exec.Cmd
	cur     int
	since   time.Time
	cpu0    float64
	stderr  string
	done    bool
	ended   bool // reached its last case
	killed  string
	reverse bool
}

type known struct {
	prop, key, text string
}

func readKnown(path string) (ks []known) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		// finding: property=<id> key=<key> <text>
		if !strings.HasPrefix(l, "finding:") {
			continue
		}
		var k known
		f := strings.Fields(strings.TrimPrefix(l, "finding:"))
		for i, w := range f {
			if strings.HasPrefix(w, "property=") {
				k.prop = strings.TrimPrefix(w, "property=")
			} else if strings.HasPrefix(w, "key=") {
				k.key = strings.TrimPrefix(w, "key=")
				k.text = strings.Join(f[i+1:], " ")
			}
		}
		if k.prop != "" && k.key != "" {
			ks = append(ks, k)
		}
	}
	return
}

const (
	hangCPU  = 100.0 // seconds of CPU time a single case may use
	hangWall = 280.0 // seconds of wall time a single case may use
	maxRSS   = 3 << 30
)

func cpuSeconds(pid int) float64 {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return 0
	}
	s := string(b)
	s = s[strings.LastIndex(s, ")")+1:]
	f := strings.Fields(s)
	if len(f) < 13 {
		return 0
	}
	u, _ := strconv.ParseFloat(f[11], 64)
	v, _ := strconv.ParseFloat(f[12], 64)
	return (u + v) / 100
}

func rss(pid int) int64 {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/statm", pid))
	if err != nil {
		return 0
	}
	f := strings.Fields(string(b))
	if len(f) < 2 {
		return 0
	}
	v, _ := strconv.ParseInt(f[1], 10, 64)
	return v * int64(os.Getpagesize())
}

type aggregate struct {
	mu      sync.Mutex
	cases   int64
	evals   int64 // judged executions: every case makes at least one
	counts  map[string]int64
	keys    map[uint64]bool
	samples []interface{}
	digests map[int]string
	known   map[string]int
	viol    *Violation
	violIdx int
}

func (a *aggregate) setViol(idx int, v Violation) {
	if a.viol == nil {
		vv := v
		a.viol = &vv
		a.violIdx = idx
	}
}

func parent(p *Prop) int {
	t0 := time.Now()
	n := p.Quick
	soft := 600.0
	if *fTier == "thorough" {
		n = p.Thorough
		soft = 3600 * 2
	}
	if *fN > 0 {
		n = *fN
	}
	ks := readKnown(*fKnown)
	agg := &aggregate{counts: map[string]int64{}, keys: map[uint64]bool{}, digests: map[int]string{}, known: map[string]int{}}
	workers := *fWorkers
	if p.Race {
		workers = 6
	}
	if p.Compare {
		workers = (workers + 1) / 2
	}
	if workers > n {
		workers = n
	}
	if workers < 1 {
		workers = 1
	}
	work, err := os.MkdirTemp("", "vmonrun")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(work)
	stopped := false
	var crashes []string
	var chmu sync.Mutex
	var children []*child

	// stopAll must be called with chmu held
	stopAll := func() {
		stopped = true
		for _, ch := range children {
			if !ch.done && ch.cmd.Process != nil {
				ch.cmd.Process.Kill()
			}
		}
	}

	// handle one report line
	handle := func(ch *child, line []byte) {
		if len(line) == 0 {
			return
		}
		switch line[0] {
		case 'B':
			i, _ := strconv.Atoi(strings.TrimSpace(string(line[1:])))
			chmu.Lock()
			ch.cur, ch.since, ch.cpu0 = i, time.Now(), cpuSeconds(ch.cmd.Process.Pid)
			chmu.Unlock()
		case 'E':
			chmu.Lock()
			ch.ended = true
			ch.cur = -1
			chmu.Unlock()
		default:
			var r result
			if json.Unmarshal(line, &r) != nil {
				return
			}
			agg.mu.Lock()
			agg.cases++
			agg.evals += int64(max(1, len(r.Keys)))
			for k, v := range r.Counts {
				agg.counts[k] += v
			}
			for _, k := range r.Keys {
				agg.keys[k] = true
			}
			if r.Sample != nil && len(agg.samples) < 5 {
				agg.samples = append(agg.samples, r.Sample)
			}
			if p.Compare && r.Digest != "" {
				if d, ex := agg.digests[r.Idx]; ex && d != r.Digest {
					agg.counts["digest pairs compared"]++
					agg.setViol(r.Idx, Violation{Key: "digest", Msg: "two processes with different histories disagree", Detail: d + "\n" + r.Digest})
				} else if ex {
					agg.counts["digest pairs compared"]++
				}
				agg.digests[r.Idx] = r.Digest
			}
		next:
			for _, v := range r.Viols {
				for _, k := range ks {
					if k.prop == p.ID && k.key == v.Key {
						agg.known[k.key+" "+k.text]++
						continue next
					}
				}
				agg.setViol(r.Idx, v)
			}
			stop := agg.viol != nil
			agg.mu.Unlock()
			if stop {
				chmu.Lock()
				stopAll()
				chmu.Unlock()
			}
		}
	}

	launch := func(start, stride, end int, reverse bool, tag string) (*child, *sync.WaitGroup) {
		ch := &child{cur: -1, since: time.Now(), stderr: filepath.Join(work, "stderr"+tag), reverse: reverse}
		args := []string{"-worker", "-prop", p.ID, "-tier", *fTier, "-seed", fmt.Sprint(*fSeed), "-start", fmt.Sprint(start), "-stride", fmt.Sprint(stride), "-end", fmt.Sprint(end)}
		if reverse {
			args = append(args, "-reverse")
		}
		self, _ := os.Executable()
		cmd := exec.Command(self, args...)
		rd, wr, _ := os.Pipe()
		cmd.ExtraFiles = []*os.File{wr}
		ef, _ := os.Create(ch.stderr)
		cmd.Stderr = ef
		cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL, Setpgid: true}
		procs := 2
		if p.Race {
			procs = 4
		}
		cmd.Env = append(os.Environ(), fmt.Sprintf("GOMAXPROCS=%d", procs), "GORACE=halt_on_error=1 exitcode=66", "GOTRACEBACK=all")
		ch.cmd = cmd
		var wg sync.WaitGroup
		wg.Add(1)
		if err := cmd.Start(); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		wr.Close()
		ef.Close()
		go func() {
			defer wg.Done()
			sc := bufio.NewReaderSize(rd, 1<<20)
			for {
				line, err := sc.ReadBytes('\n')
				handle(ch, line)
				if err != nil {
					break
				}
			}
			rd.Close()
			cmd.Wait()
			chmu.Lock()
			ch.done = true
			chmu.Unlock()
		}()
		return ch, &wg
	}

	watch := func(quit chan struct{}) {
		for {
			select {
			case <-quit:
				return
			case <-time.After(250 * time.Millisecond):
			}
			chmu.Lock()
			if time.Since(t0).Seconds() > soft && !stopped {
				agg.mu.Lock()
				agg.counts["stopped at the time limit"]++
				agg.mu.Unlock()
				stopAll()
			}
			for _, ch := range children {
				if ch.done || ch.killed != "" || ch.cmd.Process == nil || ch.cur < 0 {
					continue
				}
				pid := ch.cmd.Process.Pid
				scale := 1.0
				if p.Race {
					scale = 1.5
				}
				if cpuSeconds(pid)-ch.cpu0 > hangCPU*scale || time.Since(ch.since).Seconds() > hangWall {
					ch.killed = "does not terminate"
				} else if rss(pid) > maxRSS {
					ch.killed = "exhausts memory"
				}
				if ch.killed != "" {
					ch.cmd.Process.Kill()
				}
			}
			chmu.Unlock()
		}
	}
	quit := make(chan struct{})
	go watch(quit)

	type slot struct {
		start, stride, end int
		reverse            bool
	}
	var slots []slot
	for w := 0; w < workers; w++ {
		slots = append(slots, slot{w, workers, n, false})
		if p.Compare {
			// the second process gets a different share in a different order
			slots = append(slots, slot{w * ((n + workers - 1) / workers), 1, min(n, (w+1)*((n+workers-1)/workers)), true})
		}
	}
	var all sync.WaitGroup
	for si, s := range slots {
		all.Add(1)
		go func(si int, s slot) {
			defer all.Done()
			chmu.Lock()
			if stopped {
				chmu.Unlock()
				return
			}
			ch, wg := launch(s.start, s.stride, s.end, s.reverse, fmt.Sprint(si))
			children = append(children, ch)
			chmu.Unlock()
			wg.Wait()
			chmu.Lock()
			st, ended, cur, killed := stopped, ch.ended, ch.cur, ch.killed
			chmu.Unlock()
			if st || ended {
				return
			}
			// the process died or was killed in the middle of a case
			tail := tailOf(ch.stderr)
			msg := "the process died: " + firstLine(tail)
			if killed != "" {
				msg = "the case " + killed
			}
			if cur < 0 {
				chmu.Lock()
				crashes = append(crashes, msg)
				chmu.Unlock()
				return
			}
			race := strings.Contains(tail, "DATA RACE") || strings.Contains(tail, "concurrent map")
			if !race {
				// confirm with the case alone in a process of its own
				chmu.Lock()
				ch2, wg2 := launch(cur, 1, cur+1, false, fmt.Sprintf("%d_%d", si, cur))
				children = append(children, ch2)
				chmu.Unlock()
				wg2.Wait()
				chmu.Lock()
				ok, st := ch2.ended, stopped
				if ch2.killed != "" {
					msg = "the case " + ch2.killed
				} else if t := tailOf(ch2.stderr); t != "" {
					tail = t
				}
				chmu.Unlock()
				if st {
					return
				}
				if ok {
					// not reproducible in isolation; run it once more after its predecessors
					chmu.Lock()
					crashes = append(crashes, fmt.Sprintf("case %d: %s (not reproduced in isolation)", cur, msg))
					chmu.Unlock()
					if killed != "" || strings.TrimSpace(tail) == "" {
						return // inconclusive: a limit that did not recur, or a process ended from outside without a word
					}
				}
			}
			key := "crash"
			if race {
				key = "race"
				msg = "data race: " + raceLines(tail)
			} else if killed != "" {
				key = "hang"
			}
			agg.mu.Lock()
			v := Violation{Key: key, Msg: clip(msg, 2000), Detail: clip(tail, 40000)}
			found := false
			for _, k := range ks {
				if k.prop == p.ID && k.key == v.Key {
					agg.known[k.key+" "+k.text]++
					found = true
				}
			}
			if !found {
				agg.setViol(cur, v)
			}
			agg.mu.Unlock()
			chmu.Lock()
			stopAll()
			chmu.Unlock()
		}(si, s)
	}
	all.Wait()
	close(quit)

	// verdict
	os.MkdirAll(*fOut, 0o755)
	coverage := map[string]interface{}{
		"evaluations":         agg.evals,
		"distinct_nontrivial": len(agg.keys),
		"rule":                p.Rule,
		"samples":             agg.samples,
		"events":              agg.counts,
		"cases":               agg.cases,
		"cases_planned":       n,
		"worker_processes":    len(slots),
	}
	if agg.samples == nil {
		coverage["samples"] = []interface{}{}
	}
	if len(crashes) > 0 {
		coverage["unreproduced"] = crashes
	}
	violations := 0
	if agg.viol != nil {
		violations = 1
	}
	ev := map[string]interface{}{
		"property": p.ID, "tier": *fTier, "seed": *fSeed, "level": "exploration", "coverage": coverage,
		"assumptions": p.Assume, "wall_s": time.Since(t0).Seconds(), "violations": violations,
	}
	if p.Assume == nil {
		ev["assumptions"] = []string{}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(*fOut, p.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var names []string
	for k, v := range agg.counts {
		names = append(names, fmt.Sprintf("%s=%d", k, v))
	}
	sort.Strings(names)
	fmt.Printf("%s %s: %d of %d cases, %d distinct non-trivial, %s, %.1fs on %d cpus\n", p.ID, *fTier, agg.cases, n, len(agg.keys), strings.Join(names, ", "), time.Since(t0).Seconds(), runtime.NumCPU())
	for k, v := range agg.known {
		fmt.Printf("KNOWN-FINDING: property=%s %s (%d times)\n", p.ID, k, v)
	}
	if agg.viol != nil {
		os.MkdirAll(filepath.Join(*fOut, "replay"), 0o755)
		rp := filepath.Join(*fOut, "replay", fmt.Sprintf("%s-%d.json", p.ID, agg.violIdx))
		b, _ := json.MarshalIndent(map[string]interface{}{
			"property": p.ID, "seed": *fSeed, "tier": *fTier, "case": agg.violIdx, "key": agg.viol.Key, "message": agg.viol.Msg, "detail": strings.Split(agg.viol.Detail, "\n"),
		}, "", " ")
		os.WriteFile(rp, append(b, '\n'), 0o644)
		fmt.Printf("%s: %s\n", agg.viol.Key, clip(agg.viol.Msg, 1500))
		if *fVerbose {
			fmt.Println(agg.viol.Detail)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, rp)
		return 1
	}
	for _, need := range p.Need {
		if agg.counts[need] == 0 {
			fmt.Printf("INCONCLUSIVE: no %q was observed\n", need)
			return 3
		}
	}
	if agg.evals == 0 || len(agg.keys) == 0 {
		fmt.Println("INCONCLUSIVE: nothing was observed", crashes)
		return 3
	}
	return 0
}

func tailOf(path string) string {
	b, err := os.ReadFile(path)
	if err != nil {
		return ""
	}
	if len(b) > 60000 {
		b = b[:60000]
	}
	return string(b)
}

func firstLine(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.TrimSpace(l) != "" {
			return clip(l, 300)
		}
	}
	return ""
}

func raceLines(s string) string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "go-AlgebraicProgram-SNARK") && strings.Contains(l, "(") && len(out) < 6 {
			out = append(out, strings.TrimSpace(l))
		}
	}
	return strings.Join(out, " | ")
}

func max(a, b int) int {
	if a > b {
		return a
	}
	return b
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}
