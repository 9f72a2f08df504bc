package vsched

import (
	"fmt"
	"sort"
	"strings"
	"testing/synctest"
	"time"
)

// Step is one scheduling decision.
type Step struct {
	Enabled []int // ids of goroutines that could run, ascending
	Chosen  int   // id of the one that did
	Last    int   // id of the one that ran before (-1: none)
	Site    int
}

// Exec is the record of one controlled execution.
type Exec struct {
	Steps    []Step
	Deadlock bool // the body did not end, although nothing can run anymore
	Stuck    int  // number of goroutines blocked on a lock at the end
	Diverged bool // the prefix could not be replayed
	TooLong  bool
	Panic    string // panic of the body itself
}

// Schedule returns the choices as a list of goroutine ids.
func (e *Exec) Schedule() []int {
	c := make([]int, len(e.Steps))
	for i, s := range e.Steps {
		c[i] = s.Chosen
	}
	return c
}

// Preemptions counts the forced switches up to step n.
func (e *Exec) Preemptions(n int) int {
	c := 0
	for _, s := range e.Steps[:n] {
		c += cost(s, s.Chosen)
	}
	return c
}

func cost(s Step, id int) int {
	if id == s.Last || !has(s.Enabled, s.Last) {
		return 0
	}
	return 1
}

func has(l []int, x int) bool {
	for _, y := range l {
		if x == y {
			return true
		}
	}
	return false
}

// MaxSteps bounds the length of one execution.
var MaxSteps = 200000

// Run executes body under control, following prefix (goroutine ids), then the
// default schedule: whoever ran last continues; else the lowest id.
// Must be called from within a synctest bubble.
//
//go:norace
func Run(body func(), prefix []int, fine bool) (x *Exec) {
	x = &Exec{}
	ids := map[uint64]int{}
	for i := 0; i < nParked; i++ {
		parked[i] = nil
	}
	nParked = 0
	nArr = 0
	done := false
	full = fine
	quiet = false
	active = true
	defer func() { active, full, quiet = false, false, false }()
	go func() {
		P(-5)
		defer setTrue(&done)
		body()
	}()
	last := -1
	idle := 0
	for {
		synctest.Wait()
		// New arrivals get an id in order of their creation.
		fresh := arrivals[:nArr]
		sort.Slice(fresh, func(i, j int) bool { return fresh[i].goid < fresh[j].goid })
		for i, g := range fresh {
			if _, ok := ids[g.goid]; !ok {
				ids[g.goid] = len(ids)
			}
			parked[nParked] = g
			nParked++
			fresh[i] = nil
		}
		nArr = 0
		var en []int
		byID := map[int]int{}
		for i, g := range parked[:nParked] {
			if g.waitOn == nil {
				en = append(en, ids[g.goid])
				byID[ids[g.goid]] = i
			}
		}
		sort.Ints(en)
		if len(en) == 0 {
			if done {
				x.Stuck = nParked
				return x
			}
			idle++
			if idle > 4 {
				x.Deadlock = true
				x.Stuck = nParked
				return x
			}
			time.Sleep(time.Duration(idle) * time.Hour) // fake clock: lets timers expire
			continue
		}
		idle = 0
		st := Step{Enabled: en, Last: last}
		n := len(x.Steps)
		if n < len(prefix) {
			if !has(en, prefix[n]) {
				x.Diverged = true
				st.Chosen = en[0]
			} else {
				st.Chosen = prefix[n]
			}
		} else if has(en, last) {
			st.Chosen = last
		} else {
			st.Chosen = en[0]
		}
		if n >= MaxSteps {
			x.TooLong = true
			return x
		}
		gi := byID[st.Chosen]
		g := parked[gi]
		st.Site = g.site
		x.Steps = append(x.Steps, st)
		last = st.Chosen
		nParked--
		parked[gi] = parked[nParked]
		parked[nParked] = nil
		raceOff()
		close(g.ch)
		raceOn()
	}
}

//go:norace
func setTrue(b *bool) { *b = true }

// Stats counts what an exploration covered.
type Stats struct {
	Executions  int64
	Transitions int64 // scheduling decisions executed
	States      int64 // distinct scheduling decisions (nodes of the schedule tree)
	MaxSteps    int
	Threads     int
	Truncated   bool
	Diverged    int64
}

// Explorer enumerates all schedules up to a preemption bound.
type Explorer struct {
	Bound    int // max. number of preemptions; <0: unbounded
	Fine     bool
	Shard, N int // this process does shard Shard of N (of the subtrees two deviations deep)
	Expired  func() bool
	Stats    Stats
	seen     map[string]bool
}

// Explore runs body under every schedule. newBody prepares a fresh instance and
// returns it with a function that judges it afterwards ("" = fine); a violation
// stops the exploration and is returned with its schedule.
func (e *Explorer) Explore(newBody func() (body func(), judge func(x *Exec) string)) (msg string, x *Exec) {
	if e.N == 0 {
		e.N = 1
	}
	type item struct {
		prefix []int
		devs   int
		ord    int
	}
	stack := []item{{}}
	leafOrd := 0
	for len(stack) > 0 {
		if e.Expired != nil && e.Expired() {
			e.Stats.Truncated = true
			return "", nil
		}
		it := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		body, judge := newBody()
		x := Run(body, it.prefix, e.Fine)
		if it.devs >= 2 || e.Shard == 0 {
			e.Stats.Executions++
			e.Stats.Transitions += int64(len(x.Steps))
			e.Stats.States += int64(len(x.Steps) - max(0, len(it.prefix)-1))
		}
		if len(x.Steps) > e.Stats.MaxSteps {
			e.Stats.MaxSteps = len(x.Steps)
		}
		for _, s := range x.Steps {
			if s.Chosen+1 > e.Stats.Threads {
				e.Stats.Threads = s.Chosen + 1
			}
		}
		if x.Diverged {
			e.Stats.Diverged++
			e.Stats.Truncated = true
			continue
		}
		m := ""
		switch {
		case x.TooLong:
			e.Stats.Truncated = true
			return "", x // cannot go on: the goroutines of this execution are still there
		case x.Deadlock:
			m = fmt.Sprintf("deadlock: nothing can run anymore (%d blocked on locks)", x.Stuck)
		case x.Stuck > 0:
			m = fmt.Sprintf("%d goroutines are blocked on locks forever", x.Stuck)
		default:
			m = judge(x)
		}
		if m != "" {
			return m, x
		}
		// Alternatives, nearest first on the stack's top.
		pre := x.Preemptions(len(it.prefix))
		for i := len(it.prefix); i < len(x.Steps); i++ {
			s := x.Steps[i]
			for _, alt := range s.Enabled {
				if alt == s.Chosen {
					continue
				}
				if e.Bound >= 0 && pre+cost(s, alt) > e.Bound {
					continue
				}
				if it.devs == 1 {
					leafOrd++
					if leafOrd%e.N != e.Shard {
						continue
					}
				}
				p := make([]int, i+1)
				for j := 0; j < i; j++ {
					p[j] = x.Steps[j].Chosen
				}
				p[i] = alt
				stack = append(stack, item{p, it.devs + 1, 0})
			}
			pre += cost(s, s.Chosen)
		}
	}
	return "", nil
}

// String formats the schedule compactly: runs of one goroutine as id x count.
func (e *Exec) String() string {
	var b strings.Builder
	for i := 0; i < len(e.Steps); {
		j := i
		for j < len(e.Steps) && e.Steps[j].Chosen == e.Steps[i].Chosen {
			j++
		}
		fmt.Fprintf(&b, "%d*%d ", e.Steps[i].Chosen, j-i)
		i = j
	}
	return strings.TrimSpace(b.String())
}
