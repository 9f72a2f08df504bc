// Package mc is the shared driver of the bounded-exhaustive checks.
//
// A check enumerates one or more finite spaces completely. Every point of a
// space (a "case") is executed on the real code and compared with an oracle.
// Cases are numbered, so that a violation can be replayed on its own:
//
//	VERIF_CASE='space:index' run.sh <ID> <tier>
package mc

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Run is one execution of one check.
type Run struct {
	ID       string
	Tier     string
	Seed     int
	Level    string
	Rule     string
	Assume   []string
	start    time.Time
	deadline time.Time
	only     string

	cases, ops, nontrivial int64
	truncated              atomic.Bool
	progress               atomic.Int64
	nviol                  atomic.Int64 // enough is enough

	mu         sync.Mutex
	outcomes   map[uint64]struct{}
	outCapped  bool
	spaces     []spaceInfo
	samples    []interface{}
	violations []violation
	known      map[string]bool
	listed     map[string]string
	extra      map[string]interface{}
}

type spaceInfo struct {
	Name     string `json:"name"`
	Size     int64  `json:"size"`
	Explored int64  `json:"explored"`
}

type violation struct {
	Case   string `json:"case"`
	Input  string `json:"input"`
	Msg    string `json:"msg"`
	Repeat string `json:"reproduced,omitempty"`
}

// K is the handle of one case.
type K struct {
	r        *Run
	space    string
	idx      int64
	Ix       []int
	h        uint64
	ops      int64
	trivial  bool
	failed   bool
	msg      string
	desc     []string
	knownMsg []string
}

// Thorough reports whether the deep tier is run.
func (r *Run) Thorough() bool { return r.Tier == "thorough" }

// Pick returns q in the quick tier and t in the thorough tier.
func (r *Run) Pick(q, t int) int {
	if r.Thorough() {
		return t
	}
	return q
}

// VerifDir is where evidence and replay files go.
func VerifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

// Main runs check f and exits.
func Main(id, level, rule string, f func(r *Run)) {
	r := New(id, level, rule)
	f(r)
	r.Finish()
}

// New starts a run.
func New(id, level, rule string) *Run {
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	r := &Run{
		ID: id, Tier: tier, Seed: seed, Level: level, Rule: rule,
		start: time.Now(), only: os.Getenv("VERIF_CASE"),
		outcomes: map[uint64]struct{}{},
		known:    map[string]bool{},
		listed:   readKnown(id),
		extra:    map[string]interface{}{},
	}
	budget := 240 * time.Second
	if tier == "thorough" {
		budget = 780 * time.Second
	}
	r.deadline = r.start.Add(budget)
	go r.watchdog()
	return r
}

// watchdog turns a case that never ends into a violation.
func (r *Run) watchdog() {
	last, since := int64(-1), time.Now()
	for {
		time.Sleep(time.Second)
		p := r.progress.Load()
		if p != last {
			last, since = p, time.Now()
			continue
		}
		if time.Since(since) > 200*time.Second {
			r.mu.Lock()
			r.violations = append(r.violations, violation{Msg: "a case did not terminate within 200 s (hang or deadlock)"})
			r.mu.Unlock()
			buf := make([]byte, 1<<16)
			n := runtime.Stack(buf, true)
			fmt.Fprintln(os.Stderr, string(buf[:n]))
			r.Finish()
		}
	}
}

// Extra records an additional measured number in the evidence.
func (r *Run) Extra(key string, v interface{}) {
	r.mu.Lock()
	r.extra[key] = v
	r.mu.Unlock()
}

// AddExtra adds to an additional measured number in the evidence.
func (r *Run) AddExtra(key string, v int64) {
	r.mu.Lock()
	o, _ := r.extra[key].(int64)
	r.extra[key] = o + v
	r.mu.Unlock()
}

// Assumption notes an assumption in the evidence.
func (r *Run) Assumption(s string) { r.Assume = append(r.Assume, s) }

// Space enumerates the product of dims completely: f is called once for every
// index vector k.Ix with 0 <= k.Ix[i] < dims[i]. Cases run in parallel.
func (r *Run) Space(name string, dims []int, f func(k *K)) {
	r.space(name, dims, runtime.GOMAXPROCS(0), f)
}

// SpaceSeq is like Space, but runs the cases one by one.
func (r *Run) SpaceSeq(name string, dims []int, f func(k *K)) {
	r.space(name, dims, 1, f)
}

func (r *Run) space(name string, dims []int, workers int, f func(k *K)) {
	total := int64(1)
	for _, d := range dims {
		total *= int64(d)
	}
	var from, to int64 = 0, total
	if r.only != "" {
		i := strings.LastIndex(r.only, ":")
		if i < 0 || r.only[:i] != name {
			return
		}
		from, _ = strconv.ParseInt(r.only[i+1:], 10, 64)
		to = from + 1
	}
	var next atomic.Int64
	next.Store(from)
	var done atomic.Int64
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := next.Add(1) - 1
				if i >= to {
					return
				}
				if time.Now().After(r.deadline) || r.nviol.Load() >= 500 {
					r.truncated.Store(true)
					return
				}
				r.one(name, i, dims, f)
				done.Add(1)
			}
		}()
	}
	wg.Wait()
	r.mu.Lock()
	r.spaces = append(r.spaces, spaceInfo{name, total, done.Load()})
	r.mu.Unlock()
}

func exec(k *K, f func(k *K)) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(stop); ok {
				return
			}
			k.failed = true
			k.msg = fmt.Sprintf("panic: %v\n%s", e, debug.Stack())
		}
	}()
	f(k)
}

func mkCase(r *Run, name string, i int64, dims []int) *K {
	k := &K{r: r, space: name, idx: i, Ix: make([]int, len(dims)), h: 1469598103934665603}
	x := i
	for d := len(dims) - 1; d >= 0; d-- {
		k.Ix[d] = int(x % int64(dims[d]))
		x /= int64(dims[d])
	}
	return k
}

func (r *Run) one(name string, i int64, dims []int, f func(k *K)) {
	k := mkCase(r, name, i, dims)
	exec(k, f)
	r.progress.Add(1)
	atomic.AddInt64(&r.cases, 1)
	atomic.AddInt64(&r.ops, k.ops)
	if !k.trivial {
		atomic.AddInt64(&r.nontrivial, 1)
	}
	if k.failed {
		r.nviol.Add(1)
		again := 0
		r.mu.Lock()
		n := len(r.violations)
		r.mu.Unlock()
		if n < 5 {
			for j := 0; j < 3; j++ {
				k2 := mkCase(r, name, i, dims)
				exec(k2, f)
				if k2.failed {
					again++
				}
			}
		}
		r.mu.Lock()
		r.violations = append(r.violations, violation{
			Case: fmt.Sprintf("%s:%d", name, i), Input: fmt.Sprint(k.Ix, " ", strings.Join(k.desc, "; ")), Msg: k.msg,
			Repeat: fmt.Sprintf("%d of 3 re-executions", again),
		})
		r.mu.Unlock()
	}
	r.mu.Lock()
	for _, m := range k.knownMsg {
		r.known[m] = true
	}
	if !k.trivial && !r.outCapped {
		r.outcomes[k.h] = struct{}{}
		if len(r.outcomes) >= 4000000 {
			r.outCapped = true
		}
	}
	if len(r.samples) < 3 && !k.trivial && !k.failed && i%7 == 3 {
		r.samples = append(r.samples, map[string]interface{}{"space": name, "index": k.Ix, "case": strings.Join(k.desc, "; ")})
	}
	r.mu.Unlock()
}

// Trivial marks this case as one that did not exercise the property.
func (k *K) Trivial() { k.trivial = true }

// Op counts n operations executed on the implementation.
func (k *K) Op(n int) { k.ops += int64(n) }

// Desc notes a description of the case's input.
func (k *K) Desc(format string, x ...interface{}) {
	if len(k.desc) < 40 {
		k.desc = append(k.desc, fmt.Sprintf(format, x...))
	}
}

// Saw mixes observed values into this case's outcome hash.
func (k *K) Saw(x ...interface{}) {
	h := fnv.New64a()
	fmt.Fprint(h, k.h, x)
	k.h = h.Sum64()
}

// SawF mixes observed floats into this case's outcome hash.
func (k *K) SawF(x ...float64) {
	for _, f := range x {
		b := math.Float64bits(f)
		for i := 0; i < 8; i++ {
			k.h ^= b & 0xff
			k.h *= 1099511628211
			b >>= 8
		}
	}
}

// Fail records that the property does not hold in this case (first message wins).
func (k *K) Fail(format string, x ...interface{}) {
	if !k.failed {
		k.failed = true
		k.msg = fmt.Sprintf(format, x...)
	}
}

// Failed tells if the case has already failed.
func (k *K) Failed() bool { return k.failed }

type stop struct{}

// Fatal is Fail, and ends the case.
func (k *K) Fatal(format string, x ...interface{}) {
	k.Fail(format, x...)
	panic(stop{})
}

// Known records a violation with the given key. If the known-findings file
// lists it, it is printed as such; otherwise it is a failure of this case.
func (k *K) Known(key, format string, x ...interface{}) {
	if what, ok := k.r.listed[key]; ok {
		k.knownMsg = append(k.knownMsg, what)
		return
	}
	k.Fail(format, x...)
}

// readKnown reads the listed findings of property id: key -> description.
func readKnown(id string) map[string]string {
	m := map[string]string{}
	b, _ := os.ReadFile(filepath.Join(VerifDir(), "known_findings.txt"))
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.SplitN(l, " ", 4)
		if len(f) == 4 && f[0] == "finding:" && f[1] == "property="+id && strings.HasPrefix(f[2], "key=") {
			m[strings.TrimPrefix(f[2], "key=")] = strings.TrimPrefix(f[2], "key=") + ": " + f[3]
		}
	}
	return m
}

// Progress tells the watchdog that a long case is still alive.
func (r *Run) Progress() { r.progress.Add(1) }

// Progress tells the watchdog that a long case is still alive.
func (k *K) Progress() { k.r.progress.Add(1) }

// Expired tells whether the run's time budget is used up.
func (r *Run) Expired() bool {
	if time.Now().After(r.deadline) {
		r.truncated.Store(true)
		return true
	}
	return false
}

// Truncate notes that something was not explored completely.
func (r *Run) Truncate(why string) {
	r.truncated.Store(true)
	r.mu.Lock()
	defer r.mu.Unlock()
	l, _ := r.extra["not_explored_completely"].([]string)
	if len(l) < 20 {
		r.extra["not_explored_completely"] = append(l, why)
	}
}

// Deadline is when the run's time budget is used up.
func (r *Run) Deadline() time.Time { return r.deadline }

// Violate reports a violation outside of a space.
func (r *Run) Violate(input, format string, x ...interface{}) {
	r.mu.Lock()
	r.violations = append(r.violations, violation{Case: "", Input: input, Msg: fmt.Sprintf(format, x...)})
	r.mu.Unlock()
}

// Finish writes the evidence, prints the verdict and exits.
func (r *Run) Finish() {
	r.mu.Lock()
	cov := map[string]interface{}{
		"evaluations":         r.cases,
		"distinct_nontrivial": len(r.outcomes),
		"nontrivial":          r.nontrivial,
		"impl_operations":     r.ops,
		"rule":                r.Rule,
		"samples":             r.samples,
		"spaces":              r.spaces,
		"exhaustive":          !r.truncated.Load() && r.only == "",
	}
	if r.outCapped {
		cov["distinct_nontrivial_note"] = "counting of distinct outcomes was capped"
	}
	for k, v := range r.extra {
		cov[k] = v
	}
	ev := map[string]interface{}{
		"property": r.ID, "tier": r.Tier, "seed": r.Seed, "level": r.Level,
		"coverage": cov, "wall_s": time.Since(r.start).Seconds(),
		"violations": len(r.violations),
	}
	if len(r.Assume) > 0 {
		ev["assumptions"] = r.Assume
	}
	dir := filepath.Join(VerifDir(), "evidence")
	os.MkdirAll(filepath.Join(dir, "replay"), 0777)
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fmt.Fprintln(os.Stderr, "evidence:", err)
		os.Exit(2)
	}
	if err := os.WriteFile(filepath.Join(dir, r.ID+".json"), b, 0666); err != nil {
		fmt.Fprintln(os.Stderr, "evidence:", err)
		os.Exit(2)
	}
	fmt.Printf("%s %s: %d cases, %d implementation operations, %d distinct non-trivial outcomes, exhaustive=%v, %.1fs\n",
		r.ID, r.Tier, r.cases, r.ops, len(r.outcomes), cov["exhaustive"], time.Since(r.start).Seconds())
	for _, s := range r.spaces {
		fmt.Printf("  space %s: %d of %d\n", s.Name, s.Explored, s.Size)
	}
	var kk []string
	for m := range r.known {
		kk = append(kk, m)
	}
	sort.Strings(kk)
	for _, m := range kk {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.ID, m)
	}
	if len(r.violations) == 0 {
		os.Exit(0)
	}
	sort.SliceStable(r.violations, func(i, j int) bool { return r.violations[i].Case < r.violations[j].Case })
	vs := r.violations
	if len(vs) > 20 {
		vs = vs[:20]
	}
	rp := filepath.Join(dir, "replay", r.ID+".json")
	rb, _ := json.MarshalIndent(map[string]interface{}{
		"property": r.ID, "total_violations": len(r.violations), "violations": vs,
		"replay": fmt.Sprintf("VERIF_CASE='%s' bash /verif/run.sh %s %s", vs[0].Case, r.ID, r.Tier),
	}, "", " ")
	os.WriteFile(rp, rb, 0666)
	for i, v := range vs {
		if i == 3 {
			break
		}
		fmt.Printf("  case %s input %s\n    %s\n", v.Case, v.Input, v.Msg)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.ID, rp)
	os.Exit(1)
}
