// Check R01: the image does not depend on the schedule or the number of CPUs.
package main

import (
	"fmt"
	"math"

	"verif/mc"
	"verif/vsched"
	"verif/vx"

	"github.com/barnex/bruteray/api"
	"github.com/barnex/bruteray/geom"
	"github.com/barnex/bruteray/imagef"
	"github.com/barnex/bruteray/imagef/colorf"
	"github.com/barnex/bruteray/texture"
	"github.com/barnex/bruteray/tracer"
)

// kinds of image functions
const (
	position  = iota // depends on the sample position only
	random1          // on a pair of random numbers of the first level
	random2          // of the first and second level, with rays from the pool
	nan              // is not a number for some samples
	realScene        // a real scene
	nKinds
)

// script is a history of passes: 0 means that the image is read in between.
var scripts = [][]int{{1}, {2}, {1, 0, 1}, {3, 0, 2, 0}}

type world struct {
	w, h   int
	kind   int
	aa     bool
	script []int
	count  []int // evaluations per pixel, written by whoever evaluates
	f      tracer.ImageFunc
	images []imagef.Image
	early  string
	total  int
}

func newWorld(w, h, kind int, aa bool, script []int) *world {
	x := &world{w: w, h: h, kind: kind, aa: aa, script: script, count: make([]int, w*h)}
	var scene tracer.ImageFunc
	if kind == realScene {
		scene = theScene()
	}
	x.f = func(ctx *tracer.Ctx, u, v float64) colorf.Color {
		ix := int(math.Floor(u * float64(w)))
		iy := int(math.Floor((0.5 + 0.5*float64(h)/float64(w) - v) * float64(w)))
		if ix < 0 || iy < 0 || ix >= w || iy >= h {
			return colorf.Color{R: -1e9}
		}
		x.count[iy*w+ix]++
		vsched.Q(-100)
		c := colorf.Color{R: u, G: v, B: 1}
		switch kind {
		case random1:
			ctx.CurrentRecursionDepth = 1
			c.B, c.R = ctx.Generate2()
			ctx.CurrentRecursionDepth = 0
		case random2:
			r := ctx.Ray()
			r.Start = geom.Vec{u, v, 1}
			ctx.CurrentRecursionDepth = 1
			c.B, c.R = ctx.Generate2()
			vsched.Q(-101)
			r2 := ctx.Ray()
			r2.Start = geom.Vec{7, 7, 7}
			ctx.CurrentRecursionDepth = 2
			a, b := ctx.Generate2()
			ctx.CurrentRecursionDepth = 0
			c.G = a + 2*b + r.Start[0]
			ctx.PutRay(r2)
			ctx.PutRay(r)
		case nan:
			ctx.CurrentRecursionDepth = 1
			c.B, _ = ctx.Generate2()
			ctx.CurrentRecursionDepth = 0
			if c.B < 0.4 {
				c.G = math.NaN()
			}
		case realScene:
			c = scene(ctx, u, v)
		}
		return c
	}
	return x
}

var cached tracer.ImageFunc

// theScene is read-only, and may be shared by all executions.
func theScene() tracer.ImageFunc {
	if cached == nil {
		tex := texture.Checkers(2, 2, api.Color{R: .9, G: .1, B: .2}, api.Color{R: .1, G: .8, B: .9})
		spec := api.Spec{
			Recursion: 2, NumPass: 1,
			Lights: []api.Light{api.PointLight(api.Color{R: 40, G: 30, B: 50}, api.V(1, 4, 1)), api.RectangleLight(api.Color{R: 9, G: 9, B: 5}, 1, 1, api.V(-1, 3, 0))},
			Objects: []api.Object{
				api.Sphere(api.Matte(tex), 1, api.V(0, 0.5, -1)),
				api.Backdrop(api.Flat(api.Color{R: .2, G: .3, B: .4})),
				api.Rectangle(api.Matte(api.Color{R: .5, G: .5, B: .5}), 20, 20, api.V(0, 0, 0)),
			},
		}
		spec.InitDefaults()
		cached = spec.ImageFunc()
	}
	return cached
}

// run samples as scripted.
func (x *world) run() {
	s := tracer.NewSampler(x.f, x.w, x.h, x.aa)
	for _, n := range x.script {
		if n == 0 {
			x.images = append(x.images, s.Image())
			continue
		}
		s.Sample(n)
		x.total += n
		for i, c := range x.count {
			if c != x.total && x.early == "" {
				x.early = fmt.Sprintf("when sampling returned, pixel %d,%d had been evaluated %d times instead of %d", i%x.w, i/x.w, c, x.total)
			}
		}
	}
	x.images = append(x.images, s.Image(), s.StdDev())
}

// reference renders the same with one CPU, uncontrolled.
func (x *world) reference() []imagef.Image {
	r := newWorld(x.w, x.h, x.kind, x.aa, x.script)
	vsched.SetNumCPU(1)
	r.run()
	return r.images
}

func compare(got, want []imagef.Image) string {
	for n := range want {
		for iy := range want[n] {
			for ix := range want[n][iy] {
				g, w := got[n][iy][ix], want[n][iy][ix]
				if !same(g.R, w.R) || !same(g.G, w.G) || !same(g.B, w.B) {
					return fmt.Sprintf("image %d pixel %d,%d is %v, with one CPU it is %v", n, ix, iy, g, w)
				}
			}
		}
	}
	return ""
}

func same(a, b float64) bool {
	return math.Abs(a-b) <= 1e-7*(1+math.Abs(a)+math.Abs(b)) || (math.IsNaN(a) && math.IsNaN(b))
}

var sizes = [][2]int{{17, 1}, {1, 17}, {33, 1}, {16, 33}, {17, 17}, {1, 1}, {49, 2}}

// child: Ix = size, kind, aa, script, ncpu
func mk(j *vx.Job) func() vx.Body {
	sz := sizes[j.Ix[0]%len(sizes)]
	if j.Free > 0 {
		sz = freeSizes[j.Ix[0]]
	}
	kind, aa, script, ncpu := j.Ix[1], j.Ix[2] == 1, scripts[j.Ix[3]], j.Ix[4]
	var want []imagef.Image
	expect := func() {
		if want == nil {
			want = newWorld(sz[0], sz[1], kind, aa, script).reference()
		}
	}
	if j.Free == 0 { // else the very first use is by several workers
		expect()
	}
	nth := 2
	return func() vx.Body {
		x := newWorld(sz[0], sz[1], kind, aa, script)
		if nth++; j.Free > 0 {
			ncpu = 1 + (nth-1)%j.Free // 3, 4, ..., 1, 2
		}
		vsched.SetNumCPU(ncpu)
		return vx.Body{
			Run: x.run,
			Judge: func() (string, string) {
				expect()
				if x.early != "" {
					return x.early, ""
				}
				return compare(x.images, want), fmt.Sprint(j.Ix)
			},
		}
	}
}

func main() {
	vx.Child(mk)
	mc.Main("R01", "model_checking",
		"schedules: for every listed image size, image function, history of passes and number of workers, every interleaving (at synchronisation operations; in the fine mode at every statement of package tracer) with up to the stated number of preemptions is executed on the real sampler under the race detector, and must return, with every pixel evaluated exactly as often as requested, the image and deviation image rendered with one worker. cpus: every number of CPUs up to the bound, uncontrolled. Non-trivial: always.",
		func(r *mc.Run) {
			r.Assumption("sequential consistency, justified by the absence of data races (happens-before race detector on every explored schedule)")
			var agg vx.Agg
			free(r, &agg) // first: short, and enough for most data races
			var jobs []vx.Job
			add := func(fine bool, bound int, size, kind, aa, script, ncpu, shards int) {
				for s := 0; s < shards; s++ {
					jobs = append(jobs, vx.Job{Name: "sample", Ix: []int{size, kind, aa, script, ncpu}, Bound: bound, Fine: fine, Shard: s, N: shards})
				}
			}
			for kind := 0; kind < nKinds; kind++ {
				for script := range scripts {
					for ncpu := 1; ncpu <= 3; ncpu++ {
						aa := (kind + script) % 2
						b := 2
						if ncpu == 3 {
							b = r.Pick(1, 2)
						}
						add(false, b, (kind+script)%3, kind, aa, script, ncpu, 1)
						if r.Thorough() || kind != realScene && ncpu < 3 {
							add(false, b, 3+(kind+script)%4, kind, aa, script, ncpu, 1)
						}
					}
				}
			}
			add(false, r.Pick(3, 6), 0, random1, 1, 0, 2, r.Pick(1, 4))
			add(false, r.Pick(2, 4), 2, random1, 1, 0, 3, r.Pick(1, 8))
			for kind := 0; kind < nKinds; kind++ {
				if kind != realScene || r.Thorough() {
					add(true, 1, kind%2, kind, 1, 0, 2, 1)
				}
				if r.Thorough() {
					add(true, 1, kind%2, kind, 0, 2, 3, 4)
				}
			}
			if r.Thorough() {
				add(true, 2, 0, random1, 1, 0, 2, 24)
			}
			if vx.Instrumented() {
				r.Space("schedules", []int{len(jobs)}, func(k *mc.K) {
					agg.Do(r, k, jobs[k.Ix[0]], r.Deadline())
				})
			} else {
				r.Truncate("the code could not be instrumented: schedules not controlled")
			}
			agg.Evidence(r)
		})
}

// free renders with every number of CPUs, uncontrolled, with the race detector.
func free(r *mc.Run, agg *vx.Agg) {
	r.Space("cpus", []int{len(freeSizes), nKinds, 4}, func(k *mc.K) {
		agg.Do(r, k, vx.Job{Name: "free", Ix: []int{k.Ix[0], k.Ix[1], (k.Ix[0] + k.Ix[1] + k.Ix[2]) % 2, k.Ix[2], -1}, Free: r.Pick(24, 64)}, r.Deadline())
	})
}

var freeSizes = [][2]int{{1, 1}, {17, 1}, {1, 17}, {16, 16}, {33, 17}, {50, 40}, {7, 100}}
