// R03: anti-aliased samples stay inside their own pixel and spread evenly over it.
package main

import (
	"math"
	"sync"

	"github.com/barnex/bruteray/imagef/colorf"
	"github.com/barnex/bruteray/tracer"
	"verif/mc"
)

type size struct{ w, h int }

func center(w, h, ix, iy int) (u, v float64) {
	u = (float64(ix) + 0.5) / float64(w)
	v = 0.5 + (0.5*float64(h)-(float64(iy)+0.5))/float64(w)
	return
}

// radicalInverse mirrors the base-b digits of i around the radix point.
func radicalInverse(b, i int) float64 {
	num, den := 0, 1
	for ; i > 0; i /= b {
		num = num*b + i%b
		den *= b
	}
	return float64(num) / float64(den)
}

func mod1(x float64) float64 { return x - math.Floor(x) }

// dist1 is the distance between a and b on the unit circle.
func dist1(a, b float64) float64 {
	d := mod1(a - b)
	return math.Min(d, 1-d)
}

func main() {
	mc.Main("R03", "exploration",
		"A case is one (image size, partition of the passes over Sample calls); all passes of all its pixels are observed through an image function that returns its own coordinates. Non-trivial: at least two passes.",
		func(r *mc.Run) {
			sizes := []size{{1, 1}, {2, 1}, {1, 2}, {3, 2}, {2, 3}, {16, 1}, {17, 2}, {5, 17}, {33, 20}, {20, 33}, {64, 9}, {7, 64}}
			parts := [][]int{ones(108), {2, 1, 3}, {5, 5}, {36}, {1, 35}, {12, 1, 1, 1, 1, 1, 1}, {3, 3, 3, 3}, {1, 2, 3, 4, 5}}
			if r.Thorough() {
				parts = append(parts, ones(700), []int{100, 1, 1}, []int{7, 7, 7, 7, 7}, []int{64, 1, 64, 1})
				for w := 1; w <= 24; w++ {
					for h := 1; h <= 24; h++ {
						sizes = append(sizes, size{w, h})
					}
				}
			}
			r.Space("passes", []int{len(sizes), len(parts)}, func(k *mc.K) {
				sz := sizes[k.Ix[0]]
				part := parts[k.Ix[1]]
				w, h := sz.w, sz.h
				if len(part) > 200 && w*h > 60 {
					k.Trivial()
					return
				}
				k.Desc("size %dx%d passes %v", w, h, part)
				var mu sync.Mutex
				calls := 0
				f := func(ctx *tracer.Ctx, u, v float64) colorf.Color {
					mu.Lock()
					calls++
					mu.Unlock()
					return colorf.Color{R: u, G: v, B: 1}
				}
				s := tracer.NewSampler(f, w, h, true)
				n := 0
				prev := make([][2]float64, w*h)
				shift := make([][2]float64, w*h)
				haveShift := false
				for _, d := range part {
					s.Sample(d)
					n += d
					k.Op(1)
					if calls != n*w*h {
						k.Fatal("%d evaluations for %d passes of %d pixels", calls, n, w*h)
					}
					img := s.Image()
					dev := s.StdDev()
					for p := range prev {
						ix, iy := p%w, p/w
						c := img[iy][ix]
						cu, cv := center(w, h, ix, iy)
						if math.Abs(c.B-1) > 1e-12 {
							k.Fatal("pixel %d,%d: lost samples, mean of 1 is %v", ix, iy, c.B)
						}
						// sum of the offsets of the d last passes, in pixels
						su, sv := (c.R-cu)*float64(w)*float64(n), (c.G-cv)*float64(w)*float64(n)
						du, dv := su-prev[p][0], sv-prev[p][1]
						prev[p] = [2]float64{su, sv}
						tol := 1e-7 * float64(n)
						if math.Abs(du) > 0.5*float64(d)+tol || math.Abs(dv) > 0.5*float64(d)+tol {
							k.Fatal("pixel %d,%d passes %d..%d: mean offset (%v,%v) pixels leaves the pixel", ix, iy, n-d, n-1, du/float64(d), dv/float64(d))
						}
						if d == 1 && !haveShift {
							shift[p] = [2]float64{mod1(du + 0.5 - radicalInverse(2, n)), mod1(dv + 0.5 - radicalInverse(3, n))}
						} else if d == 1 {
							// same shift for all passes: a shifted low-discrepancy sequence
							a := mod1(du + 0.5 - radicalInverse(2, n))
							b := mod1(dv + 0.5 - radicalInverse(3, n))
							if dist1(a, shift[p][0]) > 1e-6 || dist1(b, shift[p][1]) > 1e-6 {
								k.Fatal("pixel %d,%d pass %d: offset (%v,%v) is not the next point of the pixel's shifted sequence (shift %v, this pass %v,%v)", ix, iy, n-1, du+.5, dv+.5, shift[p], a, b)
							}
						}
						if n >= 12 {
							// evenly spread: mean and deviation of a uniform distribution over the pixel
							bound := 3.5 / float64(n) * math.Log2(float64(2*n)) // discrepancy of n points
							if math.Abs(su/float64(n)) > bound || math.Abs(sv/float64(n)) > bound {
								k.Fatal("pixel %d,%d: mean offset (%v,%v) pixels after %d passes", ix, iy, su/float64(n), sv/float64(n), n)
							}
							q := dev[iy][ix]
							eu, ev := q.R*float64(w), q.G*float64(w)
							want := math.Sqrt(1. / 12)
							if math.Abs(eu-want) > 0.1 || math.Abs(ev-want) > 0.1 {
								k.Fatal("pixel %d,%d: spread (%v,%v) pixels after %d passes, want about %v", ix, iy, eu, ev, n, want)
							}
						}
						k.SawF(c.R, c.G)
					}
					if d == 1 && n == 1 {
						haveShift = true
					}
				}
				if haveShift {
					// pixels use different shifts, themselves spread over the pixel
					m := 0
					var mu2, mv2 float64
					for p := range shift {
						for q := 0; q < p && q < 400; q++ {
							if dist1(shift[p][0], shift[q][0]) < 1e-6 && dist1(shift[p][1], shift[q][1]) < 1e-6 {
								k.Fatal("pixels %d and %d use the same offsets", p, q)
							}
						}
						m++
						mu2 += shift[p][0]
						mv2 += shift[p][1]
					}
					if m >= 60 {
						if a := mu2 / float64(m); math.Abs(a-.5) > 0.2 {
							k.Fail("mean shift %v", a)
						}
						if a := mv2 / float64(m); math.Abs(a-.5) > 0.2 {
							k.Fail("mean shift %v", a)
						}
					}
				}
			})

			// Every single sample position, recorded.
			recParts := [][]int{{1}, {7}, {2, 3}, {1, 1, 1}, {40}, {300}, {1, 299, 1}, {1000, 1, 1}, {5000, 3}, {70000}}
			recSizes := []size{{1, 1}, {2, 1}, {1, 3}, {3, 2}, {17, 2}, {16, 17}, {40, 33}, {300, 2}, {2, 300}}
			r.Space("recorded", []int{len(recSizes), len(recParts), 2}, func(k *mc.K) {
				w, h := recSizes[k.Ix[0]].w, recSizes[k.Ix[0]].h
				part := recParts[k.Ix[1]]
				n := 0
				for _, d := range part {
					n += d
				}
				if n*w*h > 800000 {
					k.Trivial()
					return
				}
				k.Desc("size %dx%d passes %v", w, h, part)
				var mu sync.Mutex
				pos := make([][][2]float64, w*h)
				outside := 0
				f := func(ctx *tracer.Ctx, u, v float64) colorf.Color {
					fx := u * float64(w)
					fy := (0.5-v)*float64(w) + 0.5*float64(h)
					ix, iy := int(math.Floor(fx)), int(math.Floor(fy))
					mu.Lock()
					defer mu.Unlock()
					if ix < 0 || iy < 0 || ix >= w || iy >= h {
						outside++
						return colorf.Color{}
					}
					pos[iy*w+ix] = append(pos[iy*w+ix], [2]float64{fx - float64(ix), 1 - (fy - float64(iy))})
					return colorf.Color{R: 1}
				}
				s := tracer.NewSampler(f, w, h, true)
				for _, d := range part {
					s.Sample(d)
					if k.Ix[2] == 1 {
						s.Image()
						s.StdDev()
					}
					k.Op(1)
				}
				if outside > 0 {
					k.Fatal("%d samples outside of the image", outside)
				}
				for p, l := range pos {
					if len(l) != n {
						k.Fatal("pixel %d,%d: %d samples lie inside of it, want %d", p%w, p/w, len(l), n)
					}
					su, sv := mod1(l[0][0]-radicalInverse(2, 1)), mod1(l[0][1]-radicalInverse(3, 1))
					for i, q := range l {
						if dist1(q[0], su+radicalInverse(2, i+1)) > 1e-7 || dist1(q[1], sv+radicalInverse(3, i+1)) > 1e-7 {
							k.Fatal("pixel %d,%d pass %d: offset %v is not the next point of the pixel's shifted sequence", p%w, p/w, i, q)
						}
					}
					k.SawF(su, sv)
				}
			})

			// A larger partition must not matter: Sample(a);Sample(b) is Sample(a+b).
			r.Space("partition", []int{len(sizes), 6, 6}, func(k *mc.K) {
				sz := sizes[k.Ix[0]]
				a, b := k.Ix[1], k.Ix[2]
				if a+b == 0 {
					k.Trivial()
					return
				}
				f := func(ctx *tracer.Ctx, u, v float64) colorf.Color {
					ctx.CurrentRecursionDepth = 1
					x, y := ctx.Generate2()
					ctx.CurrentRecursionDepth = 2
					z, q := ctx.Generate2()
					ctx.CurrentRecursionDepth = 0
					return colorf.Color{R: u + 3*v, G: x + 3*y, B: z + 3*q}
				}
				s1 := tracer.NewSampler(f, sz.w, sz.h, true)
				s1.Sample(a)
				if a > 0 {
					s1.Image()
				}
				s1.Sample(b)
				s2 := tracer.NewSampler(f, sz.w, sz.h, true)
				s2.Sample(a + b)
				k.Op(3)
				i1, i2 := s1.Image(), s2.Image()
				for y := range i1 {
					for x := range i1[y] {
						p, q := i1[y][x], i2[y][x]
						if !mc.CloseV([3]float64{p.R, p.G, p.B}, [3]float64{q.R, q.G, q.B}, 1e-10) {
							k.Fatal("size %v: Sample(%d);Sample(%d) differs from Sample(%d) at %d,%d: %v vs %v", sz, a, b, a+b, x, y, p, q)
						}
						k.SawF(p.R)
					}
				}
			})
		})
}

func ones(n int) []int {
	x := make([]int, n)
	for i := range x {
		x[i] = 1
	}
	return x
}
