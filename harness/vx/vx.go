// Package vx runs explorations of schedules (package vsched) in child processes
// and reports them through package mc.
package vx

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"os"
	"os/exec"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"verif/mc"
	"verif/vsched"
)

// Job is what a child process does.
type Job struct {
	Name   string // of the body
	Ix     []int  // its parameters
	Bound  int
	Fine   bool
	Shard  int
	N      int
	Free   int   // run the body without control, so many times
	Limit  int64 // unix time of the deadline
	Replay []int // just this schedule
}

// Result is what it reports.
type Result struct {
	Stats    vsched.Stats
	Msg      string
	Schedule string
	Choices  []int
	Outcomes map[string]int64
	Checked  int64 // executions judged
}

// Body prepares one execution: run is executed (under control), then judge tells
// what was wrong ("" = nothing) and what was seen.
type Body struct {
	Run   func()
	Judge func() (msg, outcome string)
}

// Instrumented tells whether the code under test was instrumented.
func Instrumented() bool { return os.Getenv("VX_INSTR") != "none" }

// Child runs the job given in the environment, if any, and exits.
func Child(mk func(j *Job) func() Body) {
	env := os.Getenv("VX_JOB")
	if env == "" {
		return
	}
	log.SetOutput(io.Discard)
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(400)
	var j Job
	if err := json.Unmarshal([]byte(env), &j); err != nil {
		panic(err)
	}
	res := Result{Outcomes: map[string]int64{}}
	report := func() {
		b, _ := json.Marshal(res)
		fmt.Fprintf(os.Stdout, "\nVXRESULT %s\n", b)
		os.Exit(0)
	}
	fresh := mk(&j)
	if j.Free > 0 {
		runtime.GOMAXPROCS(runtime.NumCPU())
		for n := 0; n < j.Free; n++ {
			b := fresh()
			done := make(chan bool)
			go func() { b.Run(); close(done) }()
			select {
			case <-done:
			case <-time.After(150 * time.Second):
				res.Msg = fmt.Sprintf("does not return (uncontrolled execution %d)", n)
				report()
			}
			m, o := b.Judge()
			res.Outcomes[o]++
			res.Checked++
			if m != "" {
				res.Msg = fmt.Sprintf("uncontrolled execution %d: %s", n, m)
				break
			}
		}
		report()
	}
	newBody := func() (func(), func(*vsched.Exec) string) {
		b := fresh()
		return b.Run, func(*vsched.Exec) string {
			m, o := b.Judge()
			res.Outcomes[o]++
			res.Checked++
			return m
		}
	}
	test := func(t *testing.T) {
		synctest.Test(t, func(t *testing.T) {
			if j.Replay != nil {
				body, judge := newBody()
				x := vsched.Run(body, j.Replay, j.Fine)
				res.Msg = judge(x)
				res.Schedule = x.String()
				report()
			}
			e := &vsched.Explorer{Bound: j.Bound, Fine: j.Fine, Shard: j.Shard, N: j.N}
			limit := time.Unix(j.Limit, 0)
			n := 0
			expired := false
			e.Expired = func() bool {
				n++
				if n%16 == 0 {
					expired = wallNow().After(limit)
				}
				return expired
			}
			msg, x := e.Explore(newBody)
			res.Stats = e.Stats
			res.Msg = msg
			if x != nil && msg != "" {
				res.Schedule = x.String()
				res.Choices = x.Schedule()
			}
			report()
		})
	}
	os.Args = os.Args[:1]
	testing.Main(func(pat, str string) (bool, error) { return true, nil },
		[]testing.InternalTest{{Name: "TestX", F: test}}, nil, nil)
	panic("unreachable")
}

// Agg sums up the results of many jobs.
type Agg struct {
	mu    sync.Mutex
	Stats vsched.Stats
	Out   map[string]bool
	Runs  int64
	Check int64
	Races string
}

// Do runs one job in a child process, as the case k.
func (a *Agg) Do(r *mc.Run, k *mc.K, j Job, deadline time.Time) *Result {
	j.Limit = deadline.Unix()
	began := time.Now()
	b, _ := json.Marshal(j)
	cmd := exec.Command(os.Args[0])
	cmd.Env = append(os.Environ(), "VX_JOB="+string(b), "GORACE=halt_on_error=1 exitcode=66 history_size=3 atexit_sleep_ms=0")
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	if err := cmd.Start(); err != nil {
		k.Fail("cannot start child: %v", err)
		return nil
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	var err error
	timeout := time.After(time.Until(deadline) + 100*time.Second)
	hung := false
wait:
	for {
		select {
		case err = <-done:
			break wait
		case <-timeout:
			hung = true
			cmd.Process.Kill()
		case <-time.After(5 * time.Second):
			k.Progress()
		}
	}
	k.Desc("%v %v bound %v fine %v", j.Name, j.Ix, j.Bound, j.Fine)
	if hung {
		k.Fail("the code under test never came to a scheduling point again (endless loop or hidden deadlock) in %s", b)
		return nil
	}
	i := bytes.LastIndex(so.Bytes(), []byte("VXRESULT "))
	if i < 0 {
		e := se.String()
		switch {
		case strings.Contains(e, "WARNING: DATA RACE"):
			k.Fail("data race between goroutines of the code under test: %s\njob %s", cut(e, 3500), b)
		case strings.Contains(e, "panic: ") || strings.Contains(e, "fatal error: "):
			k.Fail("the code under test crashed: %s\njob %s", cut(e, 3500), b)
		default:
			// Killed or the like: says nothing about the code under test.
			r.Truncate(fmt.Sprintf("child failed: %v %s", err, cut(e, 500)))
		}
		return nil
	}
	var res Result
	if err := json.Unmarshal(bytes.TrimSpace(so.Bytes()[i+len("VXRESULT "):]), &res); err != nil {
		r.Truncate("child result: " + err.Error())
		return nil
	}
	k.Op(int(res.Stats.Transitions))
	if os.Getenv("VERIF_VERBOSE") != "" {
		fmt.Fprintf(os.Stderr, "%.1fs %s: %+v\n", time.Since(began).Seconds(), b, res.Stats)
	}
	k.Saw(fmt.Sprint(res.Outcomes))
	if res.Msg != "" {
		c, _ := json.Marshal(res.Choices)
		k.Fail("%s\nschedule (goroutine*steps): %s\njob %s choices %s", res.Msg, cut(res.Schedule, 2000), b, cut(string(c), 4000))
	}
	a.mu.Lock()
	defer a.mu.Unlock()
	if a.Out == nil {
		a.Out = map[string]bool{}
	}
	for o := range res.Outcomes {
		a.Out[j.Name+o] = true
	}
	a.Runs++
	a.Check += res.Checked
	s := &a.Stats
	s.Executions += res.Stats.Executions
	s.Transitions += res.Stats.Transitions
	s.States += res.Stats.States
	s.Diverged += res.Stats.Diverged
	s.MaxSteps = max(s.MaxSteps, res.Stats.MaxSteps)
	s.Threads = max(s.Threads, res.Stats.Threads)
	if res.Stats.Truncated {
		s.Truncated = true
		r.Truncate(fmt.Sprintf("%v %v bound %v fine %v", j.Name, j.Ix, j.Bound, j.Fine))
	}
	return &res
}

// Evidence puts the totals in the evidence of r.
func (a *Agg) Evidence(r *mc.Run) {
	r.Extra("states", a.Stats.States)
	r.Extra("transitions", a.Stats.Transitions)
	r.Extra("schedules", a.Stats.Executions)
	r.Extra("traces_validated_against_impl", a.Check)
	r.Extra("traces_note", "there is no separate model: every explored schedule is an execution of the real code, each of which was judged")
	r.Extra("states_note", "states = nodes of the explored tree of scheduling decisions; transitions = scheduling decisions executed")
	r.Extra("distinct_outcomes", len(a.Out))
	r.Extra("max_steps_of_one_execution", a.Stats.MaxSteps)
	r.Extra("goroutines", a.Stats.Threads)
	r.Extra("replays_diverged", a.Stats.Diverged)
	r.Extra("race_detector", vsched.RaceBuild)
	r.Extra("instrumentation", os.Getenv("VX_INSTR"))
}

func cut(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}
