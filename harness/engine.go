package main

import (
	"encoding/json"
	"fmt"
	"github.com/booleworks/logicng-go/handler"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"
)

// ---------------------------------------------------------------- case context

// C is the context of one explored execution.
type C struct {
	steps    int64             // operations executed on the implementation
	states   map[uint64]bool   // distinct states of the reference model visited (worker-wide)
	outcomes map[string]int64  // outcome classes seen (non-vacuity)
	trace    bool              // collect a textual trace
	log      []string          // trace
	key      string            // textual identity of the case (for known findings)
	known    map[string]string // known findings of the property: key -> text
	knownHit map[string]bool
	prop     string
	hst      handler.State // state reported by the last computation with a handler
}

// done remembers the reported state and says whether it is a success.
func (c *C) done(st handler.State) bool {
	c.hst = st
	return st.Success
}

type failure struct{ msg string }

// Failf reports that the property is violated in this execution.
func (c *C) Failf(format string, args ...any) {
	panic(failure{fmt.Sprintf(format, args...)})
}

// Known reports whether key is a listed known finding, and records that it was met.
func (c *C) Known(key string) bool {
	if _, ok := c.known[key]; ok {
		c.knownHit[key] = true
		return true
	}
	return false
}

func (c *C) Assert(ok bool, format string, args ...any) {
	if !ok {
		c.Failf(format, args...)
	}
}

// Step counts one operation on the implementation.
func (c *C) Step() { c.steps++ }

// State records the visit of a reference model state.
func (c *C) State(h uint64) {
	if len(c.states) < 4_000_000 {
		c.states[h] = true
	}
}

func (c *C) StateS(s string) {
	h := fnv.New64a()
	h.Write([]byte(s))
	c.State(h.Sum64())
}

// Outcome counts an outcome class.
func (c *C) Outcome(name string) { c.outcomes[name]++ }

// Logf adds to the trace (only when tracing).
func (c *C) Logf(format string, args ...any) {
	if c.trace {
		c.log = append(c.log, fmt.Sprintf(format, args...))
		if os.Getenv("LNG_TRACE") != "" {
			fmt.Fprintln(os.Stderr, c.log[len(c.log)-1])
		}
	}
}

// Key sets the identity of the case.
func (c *C) Key(format string, args ...any) {
	if c.trace || len(c.known) > 0 {
		c.key = fmt.Sprintf(format, args...)
		if os.Getenv("LNG_TRACE") != "" {
			fmt.Fprintln(os.Stderr, "case", c.key)
		}
	}
}

// ---------------------------------------------------------------- domains

// Domain is a finite, index-addressable set of executions.
type Domain struct {
	Name  string
	Bound string // what is enumerated
	N     int
	Run   func(c *C, i int)
}

type Tier int

const (
	Quick Tier = iota
	Thorough
)

func (t Tier) String() string { return [...]string{"quick", "thorough"}[t] }

// pick returns q in quick and t in thorough tier.
func (t Tier) pick(q, th int) int {
	if t == Thorough {
		return th
	}
	return q
}

type Prop struct {
	ID      string
	Domains func(t Tier) []Domain
	Rule    string
	Assume  []string
}

var props = map[string]*Prop{}

// register adds a property; domains of extra are appended to its own.
func register(p *Prop) {
	own, id := p.Domains, p.ID
	p.Domains = func(t Tier) []Domain {
		d := own(t)
		if x := extra[id]; x != nil {
			d = append(d, x(t)...)
		}
		return d
	}
	props[p.ID] = p
}

// ---------------------------------------------------------------- running

type slot struct {
	dom   int32
	idx   int32
	start int64 // unix nanos, 0 = idle
}

const nWorkers = 8

func numWorkers() int {
	n := runtime.NumCPU()
	if n > nWorkers {
		n = nWorkers
	}
	if n < 1 {
		n = 1
	}
	return n
}

type violation struct {
	Property string   `json:"property"`
	Tier     string   `json:"tier"`
	Domain   string   `json:"domain"`
	Index    int      `json:"index"`
	Key      string   `json:"key"`
	Message  string   `json:"message"`
	Trace    []string `json:"trace"`
	Repro    string   `json:"reproduction"`
}

func runCase(c *C, d *Domain, i int) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			if f, ok := r.(failure); ok {
				msg = f.msg
			} else {
				msg = fmt.Sprintf("panic: %v\n%s", r, trimStack(string(debug.Stack())))
			}
			if msg == "" {
				msg = "failure"
			}
		}
	}()
	c.key = ""
	d.Run(c, i)
	return ""
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	var out []string
	for _, l := range lines {
		if strings.Contains(l, "/repo/") || strings.Contains(l, "logicng-go") {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) > 16 {
			break
		}
	}
	return strings.Join(out, "\n")
}

func newC(prop string, known map[string]string) *C {
	return &C{states: map[uint64]bool{}, outcomes: map[string]int64{}, prop: prop, known: known, knownHit: map[string]bool{}}
}

// verifDir is the /verif directory (found from the environment or the working directory).
func verifDir() string {
	if d := os.Getenv("LNG_VERIF_DIR"); d != "" {
		return d
	}
	wd, _ := os.Getwd()
	return wd
}

// known findings ---------------------------------------------------------------

type knownEntry struct {
	Property string `json:"property"`
	Key      string `json:"key"`
	What     string `json:"what"`
	Status   string `json:"status"` // "open" suppresses exactly this key; "fixed" suppresses nothing
	Commit   string `json:"commit,omitempty"`
}

func loadKnown(prop string) map[string]string {
	res := map[string]string{}
	data, err := os.ReadFile(filepath.Join(verifDir(), "known_findings.json"))
	if err != nil {
		return res
	}
	var file struct {
		Findings []knownEntry `json:"findings"`
	}
	if err := json.Unmarshal(data, &file); err != nil {
		fmt.Println("cannot read known_findings.json:", err)
		os.Exit(3)
	}
	for _, e := range file.Findings {
		if e.Property == prop && e.Status == "open" {
			res[e.Key] = e.What
		}
	}
	return res
}

// exploration ---------------------------------------------------------------

type domStat struct {
	Name    string `json:"name"`
	Bound   string `json:"bound"`
	Planned int    `json:"executions_planned"`
	Done    int64  `json:"executions_done"`
	Secs    string `json:"cpu_s"`
}

var memLimit = func() uint64 {
	if v, err := strconv.Atoi(os.Getenv("LNG_MEM_GB")); err == nil {
		return uint64(v) << 30
	}
	return 14 << 30
}()

// hangSeconds: an execution running for longer is reported as one that does not end.
var hangSeconds = func() int {
	if v, err := strconv.Atoi(os.Getenv("LNG_HANG_S")); err == nil {
		return v
	}
	return 150
}()

func explore(p *Prop, tier Tier, slotFile string) int {
	startAll := time.Now()
	debug.SetMaxStack(192 << 20)
	debug.SetGCPercent(200)
	limit := 280 * time.Second
	if tier == Thorough {
		limit = 840 * time.Second
	}
	if s := os.Getenv("LNG_LIMIT_S"); s != "" {
		v, _ := strconv.Atoi(s)
		limit = time.Duration(v) * time.Second
	}
	deadline := startAll.Add(limit)
	only := os.Getenv("LNG_DOMAIN")
	doms := p.Domains(tier)
	if only != "" {
		var sel []Domain
		for _, d := range doms {
			if strings.Contains(d.Name, only) {
				sel = append(sel, d)
			}
		}
		doms = sel
	}
	nw := numWorkers()
	slots := make([]slot, nWorkers)
	if slotFile != "" {
		slots = mapSlots(slotFile)
	}
	known := loadKnown(p.ID)
	stats := make([]domStat, len(doms))
	cpu := make([]int64, len(doms))
	for i, d := range doms {
		stats[i] = domStat{Name: d.Name, Bound: d.Bound, Planned: d.N}
	}
	cs := make([]*C, nw)
	var stop atomic.Bool
	var mu sync.Mutex
	var viol *violation
	var violDom int
	maxViol := 1
	if s := os.Getenv("LNG_MAXVIOL"); s != "" {
		maxViol, _ = strconv.Atoi(s)
	}
	var allViol []violation
	var samples []string

	// watchdog: memory and hanging executions
	go func() {
		for {
			time.Sleep(500 * time.Millisecond)
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			if ms.HeapAlloc > memLimit {
				fmt.Println("watchdog: memory runaway")
				os.Exit(4)
			}
			now := time.Now().UnixNano()
			for w := range slots {
				st := atomic.LoadInt64(&slots[w].start)
				if st != 0 && now-st > int64(hangSeconds)*int64(time.Second) {
					fmt.Println("watchdog: execution does not end")
					os.Exit(5)
				}
			}
		}
	}()

	exhaustive := true
	for di := range doms {
		d := &doms[di]
		var next int64
		chunk := int64(1)
		if d.N > 5000 {
			chunk = 16
		}
		var wg sync.WaitGroup
		for w := 0; w < nw; w++ {
			if cs[w] == nil {
				cs[w] = newC(p.ID, known)
			}
			wg.Add(1)
			go func(w int) {
				defer wg.Done()
				c := cs[w]
				var done int64
				t0 := time.Now()
				defer func() {
					atomic.AddInt64(&stats[di].Done, done)
					atomic.AddInt64(&cpu[di], int64(time.Since(t0)))
					atomic.StoreInt64(&slots[w].start, 0)
				}()
				for {
					base := atomic.AddInt64(&next, chunk) - chunk
					if base >= int64(d.N) {
						return
					}
					for k := base; k < base+chunk && k < int64(d.N); k++ {
						if stop.Load() || time.Now().After(deadline) {
							return
						}
						atomic.StoreInt32(&slots[w].dom, int32(di))
						atomic.StoreInt32(&slots[w].idx, int32(k))
						atomic.StoreInt64(&slots[w].start, time.Now().UnixNano())
						msg := runCase(c, d, int(k))
						done++
						if msg != "" {
							// identify
							tc := newC(p.ID, known)
							tc.trace = true
							m2 := runCase(tc, d, int(k))
							key := d.Name + "/" + tc.key
							if tc.key == "" {
								key = fmt.Sprintf("%s/#%d", d.Name, k)
							}
							mu.Lock()
							if _, isKnown := known[key]; isKnown {
								c.knownHit[key] = true
								mu.Unlock()
								continue
							}
							if m2 != "" {
								msg = m2
							}
							nv := violation{Property: p.ID, Tier: tier.String(), Domain: d.Name, Index: int(k), Key: key, Message: msg, Trace: tc.log}
							if len(nv.Trace) > 400 {
								nv.Trace = nv.Trace[:400]
							}
							allViol = append(allViol, nv)
							if viol == nil || (di == violDom && int(k) < viol.Index) {
								viol = &nv
								violDom = di
							}
							if len(allViol) >= maxViol {
								stop.Store(true)
							}
							mu.Unlock()
						}
					}
				}
			}(w)
		}
		wg.Wait()
		if stats[di].Done < int64(d.N) {
			exhaustive = false
		}
		// a sample of the domain, re-run with tracing
		if d.N > 0 && !stop.Load() && len(samples) < 6 && time.Now().Before(deadline) {
			tc := newC(p.ID, known)
			tc.trace = true
			k := d.N / 2
			runCase(tc, d, k)
			tr := strings.Join(tc.log, " ; ")
			if len(tr) > 700 {
				tr = tr[:700] + "..."
			}
			samples = append(samples, fmt.Sprintf("%s #%d: %s %s", d.Name, k, tc.key, tr))
		}
		if stop.Load() {
			break
		}
	}

	states := map[uint64]bool{}
	outcomes := map[string]int64{}
	var steps, execs int64
	hits := map[string]bool{}
	for _, c := range cs {
		if c == nil {
			continue
		}
		for s := range c.states {
			states[s] = true
		}
		for k, v := range c.outcomes {
			outcomes[k] += v
		}
		for k := range c.knownHit {
			hits[k] = true
		}
		steps += c.steps
	}
	for i := range stats {
		execs += stats[i].Done
		stats[i].Secs = fmt.Sprintf("%.1f", float64(cpu[i])/1e9)
	}
	nviol := len(allViol)
	if os.Getenv("LNG_NOEVIDENCE") == "" {
		writeEvidence(p, tier, exhaustive && only == "", states, steps, execs, samples, stats, outcomes, nviol, time.Since(startAll))
	}
	for _, st := range stats {
		fmt.Printf("  %-34s %9d/%-9d executions  %8s cpu-s\n", st.Name, st.Done, st.Planned, st.Secs)
	}
	ok := make([]string, 0, len(outcomes))
	for k, v := range outcomes {
		ok = append(ok, fmt.Sprintf("%s=%d", k, v))
	}
	sort.Strings(ok)
	fmt.Printf("%s %s: %d executions, %d model states, %d operations, exhaustive=%v, %.1fs\n  outcomes: %s\n",
		p.ID, tier, execs, len(states), steps, exhaustive, time.Since(startAll).Seconds(), strings.Join(ok, " "))
	for k := range hits {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, strings.ReplaceAll(known[k], "\n", " "))
	}
	if nviol > 0 {
		if maxViol > 1 {
			for _, v := range allViol {
				fmt.Printf("-- %s: %s\n", v.Key, firstLine(v.Message))
			}
		}
		// how often does it come back?
		d := &doms[violDom]
		n := 0
		for r := 0; r < 5; r++ {
			tc := newC(p.ID, known)
			if runCase(tc, d, viol.Index) != "" {
				n++
			}
		}
		viol.Repro = fmt.Sprintf("%d of 5 reruns fail", n)
		report(viol)
		return 1
	}
	return 0
}

func firstLine(s string) string {
	if i := strings.Index(s, "\n"); i >= 0 {
		return s[:i]
	}
	return s
}

func report(v *violation) {
	dir := filepath.Join(verifDir(), "evidence", "replay")
	os.MkdirAll(dir, 0o755)
	name := filepath.Join("evidence", "replay", v.Property+".json")
	data, _ := json.MarshalIndent(v, "", " ")
	os.WriteFile(filepath.Join(verifDir(), name), data, 0o644)
	fmt.Printf("%s: %s\n  %s\n", v.Property, v.Key, strings.ReplaceAll(v.Message, "\n", "\n  "))
	for i, l := range v.Trace {
		if i > 40 {
			fmt.Println("   ...")
			break
		}
		fmt.Println("   |", l)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", v.Property, name)
}

func writeEvidence(p *Prop, tier Tier, exhaustive bool, states map[uint64]bool, steps, execs int64, samples []string, stats []domStat, outcomes map[string]int64, nviol int, wall time.Duration) {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if len(samples) == 0 {
		samples = []string{"none completed"}
	}
	ev := map[string]any{
		"property": p.ID, "tier": tier.String(), "seed": seed, "level": "model_checking",
		"coverage": map[string]any{
			"states": len(states), "transitions": steps, "traces_validated_against_impl": execs,
			"samples": samples, "exhaustive": exhaustive, "domains": stats, "outcomes": outcomes,
			"rule": p.Rule,
		},
		"assumptions": p.Assume,
		"wall_s":      wall.Seconds(), "violations": nviol,
	}
	if p.Assume == nil {
		ev["assumptions"] = []string{}
	}
	data, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verifDir(), "evidence"), 0o755)
	os.WriteFile(filepath.Join(verifDir(), "evidence", p.ID+".json"), data, 0o644)
}

// ---------------------------------------------------------------- supervision

func mapSlots(file string) []slot {
	fh, err := os.OpenFile(file, os.O_RDWR|os.O_CREATE, 0o644)
	if err != nil {
		panic(err)
	}
	size := int(unsafe.Sizeof(slot{})) * nWorkers
	fh.Truncate(int64(size))
	mem, err := syscall.Mmap(int(fh.Fd()), 0, size, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		panic(err)
	}
	fh.Close()
	return unsafe.Slice((*slot)(unsafe.Pointer(&mem[0])), nWorkers)
}

func supervise(p *Prop, tier Tier) int {
	tmp, err := os.CreateTemp("", "lngslots")
	if err != nil {
		panic(err)
	}
	tmp.Close()
	defer os.Remove(tmp.Name())
	self, _ := os.Executable()
	t0 := time.Now()
	cmd := exec.Command(self, "-child", p.ID, tier.String(), tmp.Name())
	var tail strings.Builder
	cmd.Stdout = os.Stdout
	cmd.Stderr = &limitedWriter{b: &tail, n: 4000}
	err = cmd.Run()
	code := 0
	if err != nil {
		code = -1
		if ee, ok := err.(*exec.ExitError); ok {
			code = ee.ExitCode()
		}
	}
	if code == 0 || code == 1 || code == 3 {
		return code
	}
	// The process died: find the execution responsible.
	fmt.Printf("explorer ended with code %d: %s\n", code, tail.String())
	slots := mapSlots(tmp.Name())
	cand := make([]slot, 0)
	for _, s := range slots {
		if s.start != 0 {
			cand = append(cand, s)
		}
	}
	sort.Slice(cand, func(i, j int) bool { return cand[i].start < cand[j].start })
	doms := p.Domains(tier)
	for _, s := range cand {
		d := doms[s.dom]
		fmt.Printf("replaying %s #%d\n", d.Name, s.idx)
		rc := exec.Command(self, "-case", p.ID, tier.String(), d.Name, strconv.Itoa(int(s.idx)))
		var out strings.Builder
		rc.Stderr = &limitedWriter{b: &out, n: 3000}
		rc.Stdout = rc.Stderr
		rc.Start()
		doneCh := make(chan error, 1)
		go func() { doneCh <- rc.Wait() }()
		msg := ""
		budget := 850*time.Second - time.Since(t0)
		if budget > 100*time.Second {
			budget = 100 * time.Second
		}
		select {
		case err := <-doneCh:
			if err != nil {
				msg = "the execution kills the process: " + out.String()
			}
		case <-time.After(budget):
			rc.Process.Kill()
			<-doneCh
			if code == 5 {
				msg = fmt.Sprintf("the execution does not end (over %d s; executions of this domain take milliseconds)", hangSeconds)
			}
		}
		if msg != "" {
			report(&violation{Property: p.ID, Tier: tier.String(), Domain: d.Name, Index: int(s.idx), Key: fmt.Sprintf("%s/#%d", d.Name, s.idx), Message: msg, Repro: "confirmed by a separate replay"})
			return 1
		}
	}
	fmt.Println("no single execution reproduces the crash")
	return 3
}

type limitedWriter struct {
	b *strings.Builder
	n int
}

func (l *limitedWriter) Write(p []byte) (int, error) {
	if l.n > 0 {
		q := p
		if len(q) > l.n {
			q = q[:l.n]
		}
		l.n -= len(q)
		l.b.Write(q)
	}
	return len(p), nil
}

func parseTier(s string) Tier {
	if s == "thorough" {
		return Thorough
	}
	return Quick
}

func main() {
	args := os.Args[1:]
	usage := func() {
		fmt.Println("usage: lngcheck PROP quick|thorough | -replay FILE | -case PROP TIER DOMAIN INDEX | -list")
		os.Exit(3)
	}
	if len(args) == 0 {
		usage()
	}
	switch args[0] {
	case "-list":
		ids := make([]string, 0)
		for id := range props {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			for _, t := range []Tier{Quick, Thorough} {
				n := 0
				for _, d := range props[id].Domains(t) {
					fmt.Printf("%s %s %s N=%d: %s\n", id, t, d.Name, d.N, d.Bound)
					n += d.N
				}
			}
		}
	case "-describe":
		type dom struct {
			Name, Bound string
			N           int
		}
		type desc struct {
			Rule            string
			Assume          []string
			Quick, Thorough []dom
		}
		out := map[string]desc{}
		for id, p := range props {
			d := desc{Rule: p.Rule, Assume: p.Assume}
			for _, x := range p.Domains(Quick) {
				d.Quick = append(d.Quick, dom{x.Name, x.Bound, x.N})
			}
			for _, x := range p.Domains(Thorough) {
				d.Thorough = append(d.Thorough, dom{x.Name, x.Bound, x.N})
			}
			out[id] = d
		}
		b, _ := json.MarshalIndent(out, "", " ")
		fmt.Println(string(b))
	case "-racechunk":
		i, _ := strconv.Atoi(args[2])
		os.Exit(raceChunk(parseTier(args[1]), i))
	case "-racecases":
		i, _ := strconv.Atoi(args[2])
		os.Exit(raceCaseChunk(parseTier(args[1]), i))
	case "-child":
		if p := os.Getenv("LNG_PROF"); p != "" {
			if w, err := os.Create(p); err == nil {
				_ = pprof.StartCPUProfile(w)
			}
		}
		p := props[args[1]]
		code := explore(p, parseTier(args[2]), args[3])
		pprof.StopCPUProfile()
		os.Exit(code)
	case "-case", "-replay":
		var prop, tier, dom string
		var idx int
		if args[0] == "-replay" {
			data, err := os.ReadFile(args[1])
			if err != nil {
				fmt.Println(err)
				os.Exit(3)
			}
			var v violation
			json.Unmarshal(data, &v)
			prop, tier, dom, idx = v.Property, v.Tier, v.Domain, v.Index
		} else {
			prop, tier, dom = args[1], args[2], args[3]
			idx, _ = strconv.Atoi(args[4])
		}
		debug.SetMaxStack(192 << 20)
		p := props[prop]
		for _, d := range p.Domains(parseTier(tier)) {
			if d.Name == dom {
				c := newC(prop, nil)
				c.trace = true
				msg := runCase(c, &d, idx)
				fmt.Println("case:", c.key)
				for _, l := range c.log {
					fmt.Println("  |", l)
				}
				if msg != "" {
					fmt.Println("FAIL:", msg)
					os.Exit(1)
				}
				fmt.Println("ok")
				os.Exit(0)
			}
		}
		fmt.Println("unknown domain")
		os.Exit(3)
	default:
		p := props[args[0]]
		if p == nil {
			usage()
		}
		tier := Quick
		if len(args) > 1 {
			tier = parseTier(args[1])
		}
		os.Exit(supervise(p, tier))
	}
}
