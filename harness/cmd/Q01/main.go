// Q01: the numbers that drive sampling are low-discrepancy, repeatable, and correctly distributed after mapping.
package main

import (
	"math"

	"github.com/barnex/bruteray/tracer"
	"github.com/barnex/bruteray/tracer/sequence"
	"verif/mc"
	. "verif/tx"
)

// radicalInverse mirrors the base-b digits of i around the radix point.
func radicalInverse(b, i int) float64 {
	num, den := 0, 1
	for ; i > 0; i /= b {
		num = num*b + i%b
		den *= b
	}
	return float64(num) / float64(den)
}

func mod1(x float64) float64 { return x - math.Floor(x) }
func dist1(a, b float64) float64 {
	d := mod1(a - b)
	return math.Min(d, 1-d)
}

func main() {
	mc.Main("Q01", "exploration",
		"halton: every (base, index) up to the bounds; context: every (context size, pixel, depth) with all passes up to the bound; disk and hemisphere: every point of a lattice over the unit square (with extreme points) and every listed normal, with numerically measured area distortion. Non-trivial: always.",
		func(r *mc.Run) {
			bases := []int{2, 3, 5, 7, 11, 13}
			const block = 4096
			r.Space("halton", []int{len(bases), r.Pick(16, 256)}, func(k *mc.K) {
				b := bases[k.Ix[0]]
				for i := k.Ix[1] * block; i < (k.Ix[1]+1)*block; i++ {
					h := sequence.Halton(b, i)
					k.Op(1)
					if math.Abs(h-radicalInverse(b, i+1)) > 1e-12 {
						k.Fatal("Halton(%d,%d)=%v, want %v", b, i, h, radicalInverse(b, i+1))
					}
				}
				k.Saw(k.Ix)
			})
			// far out in the sequence: around powers of two and of the base
			var far []int
			for e := 12; e <= 44; e++ {
				far = append(far, 1<<uint(e))
			}
			for _, b := range bases[1:] {
				for x := b; x < 1<<44; x *= b {
					if x > 4096 {
						far = append(far, x)
					}
				}
			}
			for x := 10000; x < 1<<44; x *= 10 {
				far = append(far, x)
			}
			r.Space("halton-far", []int{len(bases), len(far)}, func(k *mc.K) {
				b := bases[k.Ix[0]]
				for i := far[k.Ix[1]] - 40; i < far[k.Ix[1]]+40; i++ {
					h := sequence.Halton(b, i)
					k.Op(1)
					if !(h >= 0 && h < 1) || math.Abs(h-radicalInverse(b, i+1)) > 1e-12 {
						k.Fatal("Halton(%d,%d)=%v, want %v", b, i, h, radicalInverse(b, i+1))
					}
				}
				k.Saw(k.Ix)
			})
			// every pixel of contexts of all sizes, at passes near and far
			ns := []int{1, 2, 3, 16, 17, 255, 256, 257, 1000, 4096, 65535, 65536, 65537, 518400}
			farPass := []int{0, 1, 2, 3, 100, 255, 256, 257, 1023, 1024, 65535, 65536, 65537, 1 << 20, 1<<31 - 1, 1 << 31, 1 << 33}
			r.Space("pixels", []int{len(ns), 2}, func(k *mc.K) {
				n := ns[k.Ix[0]]
				bu, bv := 2, 3
				if k.Ix[1] == 1 {
					bu, bv = 5, 7
				}
				ctx := tracer.NewCtx(n)
				step := 1
				if n > 5000 && !r.Thorough() {
					step = 61
				}
				seen := map[[2]float64]int{}
				for p := 0; p < n; p++ {
					var su, sv float64
					for i, pass := range farPass {
						if n > 5000 && i > 0 && (p%step != 0 || (i+p)%5 != 0) {
							continue
						}
						ctx.Init(p, pass)
						ctx.CurrentRecursionDepth = 1 + k.Ix[1]
						u, v := ctx.Generate2()
						k.Op(1)
						if !(u >= 0 && u < 1 && v >= 0 && v < 1) {
							k.Fatal("(%v,%v) outside of the unit square", u, v)
						}
						if i == 0 {
							su, sv = mod1(u-radicalInverse(bu, 1)), mod1(v-radicalInverse(bv, 1))
							if q, ok := seen[[2]float64{su, sv}]; ok {
								k.Fatal("pixels %d and %d of %d get the same numbers", q, p, n)
							}
							seen[[2]float64{su, sv}] = p
						}
						if dist1(u, su+radicalInverse(bu, pass+1)) > 1e-9 || dist1(v, sv+radicalInverse(bv, pass+1)) > 1e-9 {
							k.Fatal("pixel %d of %d pass %d: (%v,%v) is not the point of the pixel's shifted %d,%d-Halton sequence", p, n, pass, u, v, bu, bv)
						}
					}
				}
				k.Saw(k.Ix)
			})
			sizes := []int{1, 2, 7, 64, 300}
			passes := r.Pick(1500, 20000)
			r.Space("context", []int{len(sizes), 4, 2}, func(k *mc.K) {
				n := sizes[k.Ix[0]]
				depth := k.Ix[2] + 1
				bu, bv := 2, 3
				if depth == 2 {
					bu, bv = 5, 7
				}
				pix := []int{0, n - 1, n / 2, n / 3}[k.Ix[1]]
				ctx, other := tracer.NewCtx(n), tracer.NewCtx(n)
				var su, sv float64
				for pass := 0; pass < passes; pass++ {
					ctx.Init(pix, pass)
					ctx.CurrentRecursionDepth = depth
					u, v := ctx.Generate2()
					k.Op(1)
					if !(u >= 0 && u < 1 && v >= 0 && v < 1) {
						k.Fatal("(%v,%v) outside of the unit square", u, v)
					}
					if pass == 0 {
						su, sv = mod1(u-radicalInverse(bu, 1)), mod1(v-radicalInverse(bv, 1))
					}
					if dist1(u, su+radicalInverse(bu, pass+1)) > 1e-9 || dist1(v, sv+radicalInverse(bv, pass+1)) > 1e-9 {
						k.Fatal("pixel %d pass %d depth %d: (%v,%v) is not the point of the pixel's shifted %d,%d-Halton sequence", pix, pass, depth, u, v, bu, bv)
					}
					// another context, in another order, after other use
					if pass%97 == 3 {
						other.Init((pix+1)%n, pass/2)
						other.CurrentRecursionDepth = 3 - depth
						other.Generate2()
						other.CurrentRecursionDepth = 3
						other.Generate2()
						other.GenerateLens()
						other.Init(pix, pass)
						other.CurrentRecursionDepth = depth
						if u2, v2 := other.Generate2(); u2 != u || v2 != v {
							k.Fatal("pixel %d pass %d: another worker's context gives (%v,%v), not (%v,%v)", pix, pass, u2, v2, u, v)
						}
					}
				}
				k.SawF(su, sv)
			})
			// shifts of different pixels are different, and cover the unit square
			r.Space("shifts", []int{6, 2}, func(k *mc.K) {
				n := []int{2, 16, 100, 400, 1600, 6400}[k.Ix[0]]
				ctx := tracer.NewCtx(n)
				seen := map[[2]float64]int{}
				var cell [4][4]int
				for p := 0; p < n; p++ {
					ctx.Init(p, 0)
					ctx.CurrentRecursionDepth = 1 + k.Ix[1]
					u, v := ctx.Generate2()
					k.Op(1)
					if q, ok := seen[[2]float64{u, v}]; ok {
						k.Fatal("pixels %d and %d get the same numbers", q, p)
					}
					seen[[2]float64{u, v}] = p
					cell[int(4*u)][int(4*v)]++
				}
				if n >= 400 {
					for i := range cell {
						for j := range cell[i] {
							want := float64(n) / 16
							if math.Abs(float64(cell[i][j])-want) > 6*math.Sqrt(want) {
								k.Fail("%d of %d pixel shifts in one of 16 cells", cell[i][j], n)
							}
						}
					}
				}
				k.Saw(k.Ix)
			})
			// pseudo-random numbers (deeper levels, lens): in range and roughly uniform
			r.Space("pseudo", []int{3}, func(k *mc.K) {
				ctx := tracer.NewCtx(4)
				ctx.Init(1, 1)
				var cell [4][4]int
				N := 40000
				for i := 0; i < N; i++ {
					var u, v float64
					if k.Ix[0] == 2 {
						u, v = ctx.GenerateLens()
					} else {
						ctx.CurrentRecursionDepth = 3 + 4*k.Ix[0]
						u, v = ctx.Generate2()
					}
					k.Op(1)
					if !(u >= 0 && u < 1 && v >= 0 && v < 1) {
						k.Fatal("(%v,%v) outside of the unit square", u, v)
					}
					cell[int(4*u)][int(4*v)]++
				}
				for i := range cell {
					for j := range cell[i] {
						if d := math.Abs(float64(cell[i][j]) - float64(N)/16); d > 500 { // 10 sigma
							k.Fail("%d of %d in one of 16 cells", cell[i][j], N)
						}
					}
				}
				k.Saw(k.Ix)
			})

			// mappings
			m := r.Pick(60, 400)
			var grid []float64
			for i := 0; i < m; i++ {
				grid = append(grid, (float64(i)+0.5)/float64(m))
			}
			edge := []float64{0, 1e-300, 1e-17, 1e-9, 0.25, 0.5, 0.75, 1 - 1e-9, 1 - 1e-15, math.Nextafter(1, 0)}
			const d = 1e-6
			r.Space("disk", []int{m + len(edge)}, func(k *mc.K) {
				all := append(append([]float64{}, grid...), edge...)
				u := all[k.Ix[0]]
				for j, v := range all {
					x, y := sequence.UniformDisk(u, v)
					k.Op(1)
					if !(x*x+y*y <= 1+1e-12) {
						k.Fatal("(%v,%v) maps to (%v,%v), outside of the unit disk", u, v, x, y)
					}
					if k.Ix[0] < m && j < m {
						x1, y1 := sequence.UniformDisk(u+d, v)
						x2, y2 := sequence.UniformDisk(u-d, v)
						x3, y3 := sequence.UniformDisk(u, v+d)
						x4, y4 := sequence.UniformDisk(u, v-d)
						det := ((x1-x2)*(y3-y4) - (x3-x4)*(y1-y2)) / (4 * d * d)
						if math.Abs(math.Abs(det)-math.Pi) > 1e-3 {
							k.Fatal("near (%v,%v) areas are multiplied by %v, want pi everywhere", u, v, det)
						}
					}
				}
				k.SawF(u)
			})
			onto := func(k *mc.K, f func(u, v float64) (float64, float64), what string) {
				const nr, na, n = 8, 16, 256
				var cell [nr][na]int
				for i := 0; i < n; i++ {
					for j := 0; j < n; j++ {
						x, y := f((float64(i)+0.5)/n, (float64(j)+0.5)/n)
						a, b := int(nr*(x*x+y*y)), int(na*mod1(math.Atan2(y, x)/(2*math.Pi)+1))
						if a >= 0 && a < nr && b < na {
							cell[a][b]++
						}
					}
				}
				for a := range cell {
					for b := range cell[a] {
						want := float64(n * n / nr / na)
						if math.Abs(float64(cell[a][b])-want) > 0.15*want {
							k.Fail("%s: %d of %d points in an equal-area cell, want %v", what, cell[a][b], n*n, want)
						}
					}
				}
			}
			r.Space("disk-onto", []int{1}, func(k *mc.K) {
				onto(k, sequence.UniformDisk, "UniformDisk")
				k.Op(65536)
			})
			normals := Dirs(true)
			for i := -2.; i <= 2; i++ {
				for j := -2.; j <= 2; j++ {
					normals = append(normals, Unit(Vec{i + 0.013, j - 0.007, 1.1}), Unit(Vec{1, i * 1e-9, j * 1e-9}))
				}
			}
			r.Space("hemisphere", []int{len(normals), 2}, func(k *mc.K) {
				n := normals[k.Ix[0]]
				a, b := Orthogonal(n)
				k.Desc("normal %v", n)
				if k.Ix[1] == 1 {
					onto(k, func(u, v float64) (float64, float64) {
						s := sequence.CosineSphere(u, v, n)
						return Dot(s, a), Dot(s, b)
					}, "CosineSphere projected on the surface")
					k.Op(65536)
					k.Saw(k.Ix)
					return
				}
				step := r.Pick(4, 1)
				for i, u := range append(append([]float64{}, grid...), edge...) {
					if i < m && i%step != 0 {
						continue
					}
					for j, v := range append(append([]float64{}, grid...), edge...) {
						if j < m && j%step != 0 {
							continue
						}
						s := sequence.CosineSphere(u, v, n)
						k.Op(1)
						if !(math.Abs(Len(s)-1) < 1e-7) {
							k.Fatal("CosineSphere(%v,%v) has length %v", u, v, Len(s))
						}
						if !(Dot(s, n) >= -1e-9) {
							k.Fatal("CosineSphere(%v,%v)=%v is below the surface", u, v, s)
						}
						if i < m && j < m {
							f := func(u, v float64) (float64, float64) {
								s := sequence.CosineSphere(u, v, n)
								return Dot(s, a), Dot(s, b)
							}
							x1, y1 := f(u+d, v)
							x2, y2 := f(u-d, v)
							x3, y3 := f(u, v+d)
							x4, y4 := f(u, v-d)
							det := ((x1-x2)*(y3-y4) - (x3-x4)*(y1-y2)) / (4 * d * d)
							if math.Abs(math.Abs(det)-math.Pi) > 1e-3 {
								k.Fatal("near (%v,%v) the projected area is multiplied by %v, want pi everywhere", u, v, det)
							}
						}
					}
				}
				k.Saw(k.Ix)
			})
		})
}
