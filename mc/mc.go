// Package mc is a small stateless model checker: it enumerates every sequence
// of choices a deterministic body can make, runs the body once per sequence
// against the real implementation, and records what was covered.
package mc

import (
	"encoding/json"
	"fmt"
	"hash/maphash"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"
)

// Prop is one property with its deciding exploration.
type Prop struct {
	ID    string
	Level string // exploration | model_checking | fault_enumeration
	Rule  string // how cases are made, what makes one non-trivial
	Notes []string
	Run   func(r *R)
	// Parent, if set, runs the property without a go test binary context.
}

var props = map[string]*Prop{}

// Register adds a property.
func Register(p *Prop) { props[p.ID] = p }

// R is one run of one property.
type R struct {
	Prop     *Prop
	Thorough bool
	Seed     int64
	T        *testing.T
	Deadline time.Time
	Scratch  string // directory removed at the end of the run
	OnFinish func() // called before the verdict is written

	start      time.Time
	execs      int64
	steps      int64
	mu         sync.Mutex
	sections   []section
	samples    []interface{}
	extra      map[string]interface{}
	capped     []string
	viol       *Violation
	known      map[string]string // key -> message of known findings seen
	knownList  map[string]string
	states     *shardedSet
	cases      *shardedSet
	outcomes   map[string]int64
	replay     *replayFile
	replayHit  bool
	flaky      []string
	validated  int64
	nsample    int64
	assumption []string
}

type section struct {
	Name       string `json:"name"`
	Executions int64  `json:"executions"`
	Exhaustive bool   `json:"exhaustive"`
	MaxPoints  int    `json:"max_choice_points"`
	Bound      string `json:"bound,omitempty"`
}

// Violation describes a failure.
type Violation struct {
	Property string   `json:"property"`
	Section  string   `json:"section"`
	Choices  []int    `json:"choices"`
	Labels   []string `json:"labels,omitempty"`
	Key      string   `json:"key"`
	Message  string   `json:"message"`
	Trace    []string `json:"trace,omitempty"`
}

type replayFile = Violation

// failure is what Failf panics with.
type failure struct{ key, msg string }
type pruned struct{}

// X is one execution.
type X struct {
	R       *R
	prefix  []int
	choices []int
	ns      []int
	costs   []int // cost of taking a non-zero alternative at this point
	labels  []string
	tracing bool
	fixed   bool
	fixedAt int
	trace   []string
	steps   int64
	Section string
}

// Choose returns a value in [0,n); every value is explored.
func (x *X) Choose(n int) int { return x.ChooseCost(n, 0, "") }

// Fixed returns an X for parts of a body whose choices do not matter: it
// always answers 0.
func (x *X) Fixed() *X { return x.FixedAt(0) }

// FixedAt is Fixed, but always answers k, or the highest answer if that is lower.
func (x *X) FixedAt(k int) *X { return &X{R: x.R, Section: x.Section, fixed: true, fixedAt: k} }

// Bool explores both false and true.
func (x *X) Bool() bool { return x.Choose(2) == 1 }

// ChooseCost is Choose for a point at which any answer but 0 costs cost deviations.
func (x *X) ChooseCost(n, cost int, label string) int {
	if n <= 0 {
		panic("mc: Choose with no alternatives")
	}
	if x.fixed {
		if x.fixedAt < n {
			return x.fixedAt
		}
		return n - 1
	}
	i := len(x.choices)
	c := 0
	if i < len(x.prefix) {
		c = x.prefix[i]
		if c >= n {
			panic(fmt.Sprintf("mc: replay divergence in %s: choice %d of %d at point %d", x.Section, c, n, i))
		}
	}
	x.choices = append(x.choices, c)
	x.ns = append(x.ns, n)
	x.costs = append(x.costs, cost)
	return c
}

// Logf records a step of the trace (only formatted when replaying).
func (x *X) Logf(f string, args ...interface{}) {
	if x.tracing {
		x.trace = append(x.trace, fmt.Sprintf(f, args...))
	}
}

// Step counts one transition executed on the implementation.
func (x *X) Step() { x.steps++ }

// Failf reports a violation. key identifies the failing input, call site or
// history independent of incidental detail.
func (x *X) Failf(key, f string, args ...interface{}) {
	panic(failure{key, fmt.Sprintf(f, args...)})
}

// Known tells whether key is a listed known finding, and if so records it.
// Bodies may use it to carry on past a listed defect.
func (x *X) Known(key, msg string) bool {
	x.R.mu.Lock()
	defer x.R.mu.Unlock()
	if _, ok := x.R.knownList[key]; ok {
		x.R.known[key] = msg
		return true
	}
	return false
}

// Prune ends this execution without a verdict (its continuation is covered elsewhere).
func (x *X) Prune() { panic(pruned{}) }

var hseed = maphash.MakeSeed()

// Hash hashes strings/bytes for state sets.
func Hash(parts ...string) uint64 {
	var h maphash.Hash
	h.SetSeed(hseed)
	for _, p := range parts {
		h.WriteString(p)
		h.WriteByte(0)
	}
	return h.Sum64()
}

// State records a distinct state; reports whether it is new.
func (x *X) State(parts ...string) bool { return x.R.states.add(Hash(parts...), 0) }

// Seen reports whether this state was already expanded with at least the given
// number of remaining steps; otherwise it records it. Used for state-matching prune.
func (x *X) Seen(remaining int, parts ...string) bool {
	return !x.R.states.add(Hash(append(parts, x.Section)...), remaining)
}

// Case records a distinct non-trivial case.
func (x *X) Case(parts ...string) {
	x.R.cases.add(Hash(append(parts, x.Section)...), 0)
	if atomic.LoadInt64(&x.R.nsample) < 8 && atomic.AddInt64(&x.R.nsample, 1) <= 8 {
		s := x.Section + ": " + strings.Join(parts, " | ")
		if len(s) > 400 {
			s = s[:400] + "..."
		}
		x.Sample(s)
	}
}

// Outcome tallies observed outcomes.
func (x *X) Outcome(s string) {
	x.R.mu.Lock()
	x.R.outcomes[x.Section+": "+s]++
	x.R.mu.Unlock()
}

// Sample stores an example case (the first few are kept).
func (x *X) Sample(v interface{}) {
	x.R.mu.Lock()
	if len(x.R.samples) < 8 {
		x.R.samples = append(x.R.samples, v)
	}
	x.R.mu.Unlock()
}

// Validated counts a complete trace replayed on the implementation and compared.
func (x *X) Validated() { atomic.AddInt64(&x.R.validated, 1) }

type shardedSet struct {
	sh [64]struct {
		mu sync.Mutex
		m  map[uint64]int8
	}
}

func newSet() *shardedSet {
	s := new(shardedSet)
	for i := range s.sh {
		s.sh[i].m = make(map[uint64]int8)
	}
	return s
}

// add returns true if h was absent or present only with a smaller remaining depth.
func (s *shardedSet) add(h uint64, rem int) bool {
	sh := &s.sh[h&63]
	sh.mu.Lock()
	defer sh.mu.Unlock()
	old, ok := sh.m[h]
	if ok && int(old) >= rem {
		return false
	}
	sh.m[h] = int8(rem)
	return true
}

func (s *shardedSet) len() int64 {
	var n int64
	for i := range s.sh {
		s.sh[i].mu.Lock()
		n += int64(len(s.sh[i].m))
		s.sh[i].mu.Unlock()
	}
	return n
}

// Opts bounds one exploration.
type Opts struct {
	Name    string
	Bound   string // description
	Budget  int    // max total deviation cost; <0 means unlimited
	Workers int
	Share   float64 // fraction of the remaining time this section may use (0: all)
	Serial  bool
	Hang    time.Duration // an execution running longer than this (twice) is a hang; default 45 s
}

type flight struct {
	prefix []int
	start  time.Time
}

type work struct {
	prefix []int
	cost   int
}

// Explore enumerates all choice sequences of body.
func (r *R) Explore(o Opts, body func(x *X)) {
	if r.replay != nil {
		if r.replay.Section == o.Name {
			r.doReplay(o, body)
		}
		return
	}
	if r.viol != nil {
		return
	}
	deadline := r.Deadline
	if o.Share > 0 {
		rem := time.Until(r.Deadline)
		deadline = time.Now().Add(time.Duration(float64(rem) * o.Share))
	}
	workers := o.Workers
	if workers == 0 {
		workers = runtime.NumCPU()
	}
	if o.Serial {
		workers = 1
	}
	var (
		mu     sync.Mutex
		cond   = sync.NewCond(&mu)
		stack  = []work{{}}
		active int
		stop   bool
		capped bool
		maxPts int
		nexec  int64
		fails  []*Violation
		wg     sync.WaitGroup
	)
	var div string
	hang := o.Hang
	if hang == 0 {
		hang = 45 * time.Second
	}
	slots := make([]atomic.Pointer[flight], workers)
	quit := make(chan struct{})
	defer close(quit)
	go r.watch(o, body, slots, hang, quit)
	loop := func(me int) {
		defer wg.Done()
		var local []work
		for n := 0; ; n++ {
			if len(local) == 0 {
				mu.Lock()
				for len(stack) == 0 && active > 0 && !stop {
					cond.Wait()
				}
				if stop || (len(stack) == 0 && active == 0) {
					cond.Broadcast()
					mu.Unlock()
					return
				}
				w := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				active++
				mu.Unlock()
				local = append(local, w)
			}
			w := local[len(local)-1]
			local = local[:len(local)-1]
			slots[me].Store(&flight{w.prefix, time.Now()})
			x, v := r.runOne(o.Name, w.prefix, body, false)
			slots[me].Store(nil)
			mu.Lock()
			nexec++
			if len(x.choices) > maxPts {
				maxPts = len(x.choices)
			}
			if v != nil {
				if v.Key == "mc-divergence" {
					div = v.Message
					stop = true
				} else {
					fails = append(fails, v)
					if len(fails) >= 5 {
						stop = true
					}
				}
			}
			if time.Now().After(deadline) {
				capped = true
				stop = true
			}
			st := stop
			mu.Unlock()
			if st {
				mu.Lock()
				active--
				cond.Broadcast()
				mu.Unlock()
				return
			}
			if v == nil {
				// push alternatives, deepest last so that it is popped first
				cost := w.cost
				for i := len(w.prefix); i < len(x.choices); i++ {
					c := cost + x.costs[i]
					if o.Budget >= 0 && c > o.Budget {
						continue
					}
					for alt := x.ns[i] - 1; alt >= 1; alt-- {
						p := make([]int, i+1)
						copy(p, x.choices[:i])
						p[i] = alt
						local = append(local, work{p, c})
					}
				}
			}
			if len(local) > 1 && workers > 1 {
				mu.Lock()
				if len(stack) < workers {
					// share the shallowest (largest) half
					h := len(local) / 2
					stack = append(stack, local[:h]...)
					local = append([]work(nil), local[h:]...)
					cond.Broadcast()
				}
				mu.Unlock()
			}
			if len(local) == 0 {
				mu.Lock()
				active--
				cond.Broadcast()
				mu.Unlock()
			}
		}
	}
	wg.Add(workers)
	for i := 0; i < workers; i++ {
		go loop(i)
	}
	wg.Wait()
	atomic.AddInt64(&r.execs, nexec)
	r.mu.Lock()
	defer r.mu.Unlock()
	if div != "" {
		r.flaky = append(r.flaky, div)
	}
	r.sections = append(r.sections, section{o.Name, nexec, !capped && div == "" && len(fails) == 0, maxPts, o.Bound})
	if capped {
		r.capped = append(r.capped, fmt.Sprintf("%s: time cap after %d executions", o.Name, nexec))
	}
	if len(fails) == 0 {
		return
	}
	sort.SliceStable(fails, func(i, j int) bool { return len(fails[i].Choices) < len(fails[j].Choices) })
	for _, v := range fails {
		// confirm by re-running the same choices
		ok := 0
		var last *Violation
		for i := 0; i < 5; i++ {
			r.mu.Unlock()
			_, v2 := r.runOne(o.Name, v.Choices, body, true)
			r.mu.Lock()
			if v2 != nil && v2.Key == v.Key {
				ok++
				last = v2
			}
		}
		if ok == 5 {
			r.viol = last
			return
		}
		r.flaky = append(r.flaky, fmt.Sprintf("%s %v: reproduced %d/5: %s", v.Section, v.Choices, ok, v.Message))
	}
}

// watch reports executions that never end. The verdict ends the process: a
// goroutine stuck in the implementation cannot be stopped.
func (r *R) watch(o Opts, body func(x *X), slots []atomic.Pointer[flight], hang time.Duration, quit chan struct{}) {
	tick := time.NewTicker(time.Second)
	defer tick.Stop()
	for {
		select {
		case <-quit:
			return
		case <-tick.C:
		}
		for i := range slots {
			f := slots[i].Load()
			if f == nil || time.Since(f.start) < hang {
				continue
			}
			done := make(chan struct{})
			go func() {
				defer close(done)
				r.runOne(o.Name, f.prefix, body, true)
			}()
			select {
			case <-done:
				continue
			case <-time.After(hang):
			}
			if slots[i].Load() != f {
				continue
			}
			r.mu.Lock()
			if _, ok := r.knownList["hang"]; !ok && r.viol == nil {
				r.viol = &Violation{Property: r.Prop.ID, Section: o.Name, Choices: f.prefix, Key: "hang", Message: fmt.Sprintf("the implementation did not return within %v (twice)", hang)}
			}
			r.mu.Unlock()
			r.finish("", os.Getenv("MC_ROOT"), r.Scratch)
		}
	}
}

func (r *R) runOne(name string, prefix []int, body func(x *X), tracing bool) (x *X, v *Violation) {
	x = &X{R: r, prefix: prefix, tracing: tracing, Section: name}
	defer func() {
		atomic.AddInt64(&r.steps, x.steps)
		e := recover()
		if e == nil {
			return
		}
		var key, msg string
		switch e := e.(type) {
		case pruned:
			return
		case failure:
			key, msg = e.key, e.msg
		default:
			s := fmt.Sprint(e)
			if strings.HasPrefix(s, "mc: replay divergence") {
				key, msg = "mc-divergence", s
			} else {
				// a panic that escaped the implementation
				key, msg = "panic", "panic: "+s+"\n"+trimStack(string(debug.Stack()))
			}
		}
		if _, ok := r.knownList[key]; ok {
			r.mu.Lock()
			r.known[key] = msg
			r.mu.Unlock()
			return
		}
		v = &Violation{Property: r.Prop.ID, Section: name, Choices: append([]int(nil), x.choices...), Key: key, Message: msg, Trace: x.trace}
	}()
	body(x)
	return x, nil
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	var out []string
	for i, l := range lines {
		if strings.Contains(l, "philhofer/seth") || strings.HasPrefix(strings.TrimSpace(l), "/repo/") {
			out = append(out, l)
		}
		_ = i
		if len(out) > 12 {
			break
		}
	}
	return strings.Join(out, "\n")
}

func (r *R) doReplay(o Opts, body func(x *X)) {
	r.replayHit = true
	_, v := r.runOne(o.Name, r.replay.Choices, body, true)
	if v != nil {
		r.viol = v
	}
}

// Note adds an extra fact to the evidence.
func (r *R) Note(k string, v interface{}) {
	r.mu.Lock()
	r.extra[k] = v
	r.mu.Unlock()
}

// Assume records an assumption.
func (r *R) Assume(s string) { r.assumption = append(r.assumption, s) }

// Fail lets non-Explore code report a violation directly.
func (r *R) Fail(v *Violation) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if _, ok := r.knownList[v.Key]; ok {
		r.known[v.Key] = v.Message
		return
	}
	if r.viol == nil {
		r.viol = v
	}
}

// Cap records that a bound was hit.
func (r *R) Cap(s string) { r.mu.Lock(); r.capped = append(r.capped, s); r.mu.Unlock() }

// Violated reports whether a violation was found.
func (r *R) Violated() bool { return r.viol != nil }

// N picks the quick or thorough value of a bound.
func (r *R) N(quick, thorough int) int {
	if r.Thorough {
		return thorough
	}
	return quick
}

type knownFile struct {
	Findings []struct {
		Property string `json:"property"`
		Key      string `json:"key"`
		What     string `json:"what"`
	} `json:"findings"`
	Fixed []string `json:"fixed"`
}

// Main runs the property named by the environment. Called from TestMC.
func Main(t *testing.T) {
	id := os.Getenv("MC_PROP")
	root := os.Getenv("MC_ROOT")
	p := props[id]
	if p == nil {
		fmt.Printf("no such property %q\n", id)
		os.Exit(3)
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	secs := 60
	if tier == "thorough" {
		secs = 600
	}
	if s, err := strconv.Atoi(os.Getenv("MC_SECONDS")); err == nil {
		secs = s
	}
	scratch, err := os.MkdirTemp("", "mc-"+id+"-")
	if err != nil {
		fmt.Println(err)
		os.Exit(3)
	}
	r := &R{
		Prop: p, Thorough: tier == "thorough", Seed: seed, T: t,
		start: time.Now(), Deadline: time.Now().Add(time.Duration(secs) * time.Second),
		Scratch: scratch,
		extra:   map[string]interface{}{}, known: map[string]string{}, knownList: map[string]string{},
		states: newSet(), cases: newSet(), outcomes: map[string]int64{},
	}
	what := map[string]string{}
	if b, err := os.ReadFile(filepath.Join(root, "known_findings.json")); err == nil {
		var kf knownFile
		if err := json.Unmarshal(b, &kf); err != nil {
			fmt.Println("known_findings.json:", err)
			os.Exit(3)
		}
		for _, f := range kf.Findings {
			if f.Property == id {
				r.knownList[f.Key] = f.What
				what[f.Key] = f.What
			}
		}
	}
	if f := os.Getenv("MC_REPLAY"); f != "" {
		b, err := os.ReadFile(f)
		if err != nil {
			fmt.Println(err)
			os.Exit(3)
		}
		r.replay = new(replayFile)
		if err := json.Unmarshal(b, r.replay); err != nil {
			fmt.Println(err)
			os.Exit(3)
		}
		p.Run(r)
		os.RemoveAll(scratch)
		if r.viol != nil {
			fmt.Printf("reproduced: [%s] %s\n", r.viol.Key, r.viol.Message)
			for _, l := range r.viol.Trace {
				fmt.Println("  ", l)
			}
			os.Exit(1)
		}
		fmt.Println("not reproduced (section found:", r.replayHit, ")")
		os.Exit(0)
	}
	// Hard stop well inside the 900 s limit: an unfinished run is not a verdict.
	hard := time.AfterFunc(time.Duration(secs)*time.Second+120*time.Second, func() {
		r.Cap("hard deadline: run abandoned")
		r.finish(tier, root, scratch)
	})
	func() {
		defer func() {
			if e := recover(); e != nil {
				fmt.Printf("harness panic: %v\n%s\n", e, debug.Stack())
				os.RemoveAll(scratch)
				os.Exit(3)
			}
		}()
		p.Run(r)
	}()
	hard.Stop()
	r.finish(tier, root, scratch)
}

var finishOnce sync.Once

func (r *R) finish(tier, root, scratch string) {
	finishOnce.Do(func() { r.finish1(tier, root, scratch) })
	select {}
}

func (r *R) finish1(tier, root, scratch string) {
	if r.OnFinish != nil {
		r.OnFinish()
	}
	if tier == "" {
		tier = "quick"
		if r.Thorough {
			tier = "thorough"
		}
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	cov := map[string]interface{}{}
	switch r.Prop.Level {
	case "model_checking":
		cov["states"] = r.states.len()
		cov["transitions"] = atomic.LoadInt64(&r.steps)
		cov["traces_validated_against_impl"] = atomic.LoadInt64(&r.validated)
		cov["executions"] = atomic.LoadInt64(&r.execs)
	default:
		cov["evaluations"] = atomic.LoadInt64(&r.execs)
		cov["distinct_nontrivial"] = r.cases.len()
		cov["rule"] = r.Prop.Rule
		if n := atomic.LoadInt64(&r.steps); n > 0 {
			cov["implementation_steps"] = n
		}
	}
	cov["rule"] = r.Prop.Rule
	ex := len(r.capped) == 0 && len(r.flaky) == 0
	for _, s := range r.sections {
		ex = ex && s.Exhaustive
	}
	cov["exhaustive"] = ex
	cov["sections"] = r.sections
	if len(r.outcomes) > 0 {
		type oc struct {
			k string
			n int64
		}
		var l []oc
		for k, n := range r.outcomes {
			l = append(l, oc{k, n})
		}
		sort.Slice(l, func(i, j int) bool { return l[i].n > l[j].n || l[i].n == l[j].n && l[i].k < l[j].k })
		m := map[string]int64{}
		for i, o := range l {
			if i >= 40 {
				break
			}
			m[o.k] = o.n
		}
		cov["distinct_outcomes"] = len(l)
		cov["outcomes"] = m
	}
	if len(r.samples) == 0 {
		r.samples = append(r.samples, "no sample recorded")
	}
	cov["samples"] = r.samples
	if len(r.capped) > 0 {
		cov["caps_hit"] = r.capped
	}
	if len(r.flaky) > 0 {
		cov["not_reproduced"] = r.flaky
	}
	for k, v := range r.extra {
		cov[k] = v
	}
	if len(r.known) > 0 {
		cov["known_findings_seen"] = r.known
	}
	nv := 0
	if r.viol != nil {
		nv = 1
	}
	ev := map[string]interface{}{
		"property": r.Prop.ID, "tier": tier, "seed": r.Seed, "level": r.Prop.Level,
		"coverage": cov, "wall_s": time.Since(r.start).Seconds(), "violations": nv,
	}
	as := append(append([]string{}, r.Prop.Notes...), r.assumption...)
	if len(as) > 0 {
		ev["assumptions"] = as
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fmt.Println(err)
		os.Exit(3)
	}
	os.MkdirAll(filepath.Join(root, "evidence"), 0777)
	tmp := filepath.Join(root, "evidence", "."+r.Prop.ID+".tmp")
	if err := os.WriteFile(tmp, append(b, '\n'), 0666); err == nil {
		os.Rename(tmp, filepath.Join(root, "evidence", r.Prop.ID+".json"))
	}
	os.RemoveAll(scratch)
	var ks []string
	for k := range r.known {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.Prop.ID, r.knownList[k])
	}
	if r.viol != nil {
		dir := filepath.Join(root, "out")
		os.MkdirAll(dir, 0777)
		f := filepath.Join(dir, r.Prop.ID+".replay.json")
		vb, _ := json.MarshalIndent(r.viol, "", " ")
		os.WriteFile(f, append(vb, '\n'), 0666)
		fmt.Printf("violation: [%s/%s] %s\n", r.viol.Section, r.viol.Key, r.viol.Message)
		for _, l := range r.viol.Trace {
			fmt.Println("   ", l)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.Prop.ID, f)
		os.Exit(1)
	}
	fmt.Printf("ok %s: %d executions, %d steps, %d states, %d cases, exhaustive=%v, %.1fs\n", r.Prop.ID, r.execs, r.steps, r.states.len(), r.cases.len(), ex, time.Since(r.start).Seconds())
	os.Exit(0)
}
