// Check G05: objects answer correctly when used by many workers at once.
package main

import (
	"fmt"
	"math"
	"sort"
	"sync"

	"verif/mc"
	"verif/vsched"
	"verif/vsync"
	"verif/vx"

	"github.com/barnex/bruteray/tracer"
)

// Ix: fixture, number of workers, ops per worker, and the first op of each worker.
func mkBody(j *vx.Job) func() vx.Body {
	writeTex()
	fx := fixtures[j.Ix[0]]
	nw, per := j.Ix[1], j.Ix[2]
	// Sequential reference: every operation on its own on a fresh fixture.
	// Uncontrolled executions come before it: the very first use is by several workers.
	var want [][]float64
	expect := func() {
		if want == nil {
			want = make([][]float64, len(fx.mk()))
			for i := range want {
				want[i] = fx.mk()[i](tracer.NewCtx(4))
			}
		}
	}
	if j.Free == 0 {
		expect()
	}
	return func() vx.Body {
		ops := fx.mk()
		nop := len(ops)
		got := make([][][]float64, nw)
		ctxs := make([]*tracer.Ctx, nw)
		for i := range got {
			got[i] = make([][]float64, per)
			if j.Free == 0 {
				ctxs[i] = tracer.NewCtx(4)
			}
		}
		which := func(w, n int) int { return (j.Ix[3+w] + n*(1+w)) % nop }
		return vx.Body{
			Run: func() {
				var wg vsync.WaitGroup
				for w := 0; w < nw; w++ {
					w := w
					wg.Go(func() {
						if ctxs[w] == nil {
							ctxs[w] = tracer.NewCtx(4)
						}
						for n := 0; n < per; n++ {
							got[w][n] = ops[which(w, n)](ctxs[w])
							vsched.P(-300)
						}
					})
				}
				wg.Wait()
			},
			Judge: func() (string, string) {
				expect()
				for w := range got {
					for n := range got[w] {
						i := which(w, n)
						if !same(got[w][n], want[i]) {
							return fmt.Sprintf("%s: operation %d by worker %d gave %v; alone it gives %v", fx.name, i, w, got[w][n], want[i]), ""
						}
					}
				}
				return "", fmt.Sprint(j.Ix)
			},
		}
	}
}

func same(a, b []float64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] == b[i] || math.IsNaN(a[i]) && math.IsNaN(b[i]) {
			continue
		}
		if !(math.Abs(a[i]-b[i]) <= 1e-9*(1+math.Abs(b[i]))) {
			return false
		}
	}
	return true
}

func main() {
	vx.Child(mkBody)
	mc.Main("G05", "model_checking",
		"for every kind of object, material, light, camera, medium and texture, fresh for every execution, workers with a context each operate on the same thing; every interleaving (at synchronisation operations and calls of user functions; in the fine mode at every statement, read-modify-write split) with up to the stated number of preemptions is executed under the race detector, and every operation must give what it gives alone. Non-trivial: always.",
		func(r *mc.Run) {
			r.Assumption("sequential consistency, justified by the absence of data races (happens-before race detector on every explored schedule)")
			var agg vx.Agg
			writeTex()
			free(r, &agg) // first: short, and enough for most data races
			var jobs []vx.Job
			add := func(fine bool, bound, fx, nw, per int, first ...int) {
				jobs = append(jobs, vx.Job{Name: fixtures[fx].name, Ix: append([]int{fx, nw, per}, first...), Bound: bound, Fine: fine})
			}
			for f := range fixtures {
				n := len(fixtures[f].mk())
				for a := 0; a < n; a++ {
					for b := a; b < n; b++ {
						if r.Thorough() || (fixtures[f].name != "scene" || a+b == 1) && (b == a || b == a+1 || a == 0 && b == n-1) {
							add(true, 1, f, 2, 1, a, b)
						}
						if r.Thorough() {
							add(false, 3, f, 2, 3, a, b)
						}
					}
				}
				add(false, 2, f, 2, 3, 0, 1)
				add(false, 1, f, 3, 2, 0, 1, 2)
				if r.Thorough() {
					add(true, 1, f, 3, 1, 0, 1, 2)
					add(false, 2, f, 3, 3, 0, 1, 2)
				}
			}
			if vx.Instrumented() {
				var mu sync.Mutex
				var deeper []vx.Job
				r.Space("schedules", []int{len(jobs)}, func(k *mc.K) {
					j := jobs[k.Ix[0]]
					res := agg.Do(r, k, j, r.Deadline())
					// two preemptions for what is short enough
					if res != nil && res.Msg == "" && j.Fine && j.Ix[1] == 2 && res.Stats.MaxSteps <= r.Pick(40, 280) {
						j.Bound = 2
						mu.Lock()
						deeper = append(deeper, j)
						mu.Unlock()
					}
				})
				sort.Slice(deeper, func(a, b int) bool { return fmt.Sprint(deeper[a].Ix) < fmt.Sprint(deeper[b].Ix) })
				r.Space("deeper", []int{len(deeper)}, func(k *mc.K) {
					agg.Do(r, k, deeper[k.Ix[0]], r.Deadline())
				})
			} else {
				r.Truncate("the code could not be instrumented: schedules not controlled")
			}
			agg.Evidence(r)
		})
}

// free: the same operations, uncontrolled, on real threads, with the race detector.
func free(r *mc.Run, agg *vx.Agg) {
	r.Space("free", []int{len(fixtures)}, func(k *mc.K) {
		n := len(fixtures[k.Ix[0]].mk())
		agg.Do(r, k, vx.Job{Name: "free " + fixtures[k.Ix[0]].name, Free: r.Pick(3, 30), Ix: []int{k.Ix[0], 4, 6, 0, 1, 2, n - 1}}, r.Deadline())
	})
}
