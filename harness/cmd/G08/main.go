// G08: height fields.
package main

import (
	"math"

	"github.com/barnex/bruteray/api"
	"github.com/barnex/bruteray/tracer"
	"verif/geomx"
	"verif/mc"
	. "verif/ref"
)

type field struct {
	name   string
	linear bool
	f      func(u, v float64) float64
	du, dv func(u, v float64) float64
}

func lin(a, b, c float64) field {
	return field{"linear", true, func(u, v float64) float64 { return a + b*u + c*v },
		func(u, v float64) float64 { return b }, func(u, v float64) float64 { return c }}
}

var fields = []field{
	lin(0.5, 0, 0), lin(0.2, 0.4, 0), lin(0.2, 0, 0.6), lin(0.1, 0.3, 0.5), lin(0.9, -0.5, -0.3), lin(0.3, 0.5, -0.2),
	{"wave", false, func(u, v float64) float64 { return 0.5 + 0.1*math.Sin(3*u)*math.Cos(2*v) },
		func(u, v float64) float64 { return 0.3 * math.Cos(3*u) * math.Cos(2*v) },
		func(u, v float64) float64 { return -0.2 * math.Sin(3*u) * math.Sin(2*v) }},
	{"bowl", false, func(u, v float64) float64 { return 0.2 + 0.3*((u-.5)*(u-.5)+(v-.3)*(v-.3)) },
		func(u, v float64) float64 { return 0.6 * (u - .5) }, func(u, v float64) float64 { return 0.6 * (v - .3) }},
	{"ripples", false, func(u, v float64) float64 { return 0.5 + 0.4*math.Sin(9*u+1)*math.Cos(7*v) },
		func(u, v float64) float64 { return 3.6 * math.Cos(9*u+1) * math.Cos(7*v) },
		func(u, v float64) float64 { return -2.8 * math.Sin(9*u+1) * math.Sin(7*v) }},
	{"fine ripples", false, func(u, v float64) float64 { return 0.5 + 0.01*math.Sin(60*u+40*v) },
		func(u, v float64) float64 { return 0.6 * math.Cos(60*u+40*v) }, func(u, v float64) float64 { return 0.4 * math.Cos(60*u+40*v) }},
	{"steep", false, func(u, v float64) float64 { return 0.5 + 0.45*math.Tanh(6*(u-v)) },
		func(u, v float64) float64 { c := math.Cosh(6 * (u - v)); return 2.7 / (c * c) },
		func(u, v float64) float64 { c := math.Cosh(6 * (u - v)); return -2.7 / (c * c) }},
}

func main() {
	mc.Main("G08", "exploration",
		"A case is one (height function, size, ray start); rays in all listed directions are compared with an analytic (linear fields) or densely bracketed (smooth fields) reference. Non-trivial: at least one hit.",
		func(r *mc.Run) {
			r.Assumption("Specified for rays that enter the field's box above the surface and cross the surface at most once within it.")
			sizes := []V{{1, 1, 1}, {2, 0.4, 3}, {10, 3, 0.8}, {0.5, 0.2, 4}, {100, 20, 60}, {0.05, 0.02, 0.08}, {1, 30, 1}}
			n := r.Pick(5, 7)
			r.Space("rays", []int{len(fields), len(sizes), n * n * n}, func(k *mc.K) {
				F := fields[k.Ix[0]]
				sz := sizes[k.Ix[1]]
				o := api.IsoSurface(geomx.Mat(3), sz[0], sz[1], sz[2], F.f).Interface
				c, half := sz.Mul(.5), sz.Mul(.5)
				s := geomx.Lattice(c, half, 2.3, n, 1)[k.Ix[2]]
				k.Desc("%s %d size %v start %v", F.name, k.Ix[0], sz, s)
				val := func(p V) float64 { return p[1] - sz[1]*F.f(p[0]/sz[0], p[2]/sz[2]) }
				hits := 0
				rays := geomx.Rays(s, c, half, r.Pick(2, 5))
				for _, ray := range rays {
					d := ray.D.Unit()
					// entry and exit of the box
					t1, t2 := math.Inf(-1), math.Inf(1)
					ok, grazing := true, false
					for i := 0; i < 3; i++ {
						if d[i] == 0 {
							if s[i] < -1e-6 || s[i] > sz[i]+1e-6 {
								ok = false
							} else if s[i] < 1e-6 || s[i] > sz[i]-1e-6 {
								grazing = true
							}
							continue
						}
						a, b := -s[i]/d[i], (sz[i]-s[i])/d[i]
						t1, t2 = math.Max(t1, math.Min(a, b)), math.Min(t2, math.Max(a, b))
					}
					if grazing || math.Abs(t2-t1) < 1e-3 || math.Abs(t2) < 1e-3 {
						continue // clips an edge of the box
					}
					if t2 < t1 || t2 < 0 {
						ok = false
					}
					h := o.Intersect(&tracer.Ray{Start: geomx.GV(s), Dir: geomx.GV(d)})
					k.Op(1)
					if !ok {
						if h.T > 0 {
							k.Fatal("ray %v misses the box but hits at %v", ray, h.T)
						}
						continue
					}
					f1, f2 := val(s.Add(d.Mul(t1))), val(s.Add(d.Mul(t2)))
					if f1 < 1e-3*sz[1] || math.Abs(f2) < 1e-3*sz[1] {
						continue // enters below (or at) the surface: not specified
					}
					// bracket the crossings
					N := 1
					if !F.linear {
						N = 400
					}
					cross, lo, hi := 0, 0.0, 0.0
					nearMiss := false
					prev := f1
					for i := 1; i <= N; i++ {
						t := t1 + (t2-t1)*float64(i)/float64(N)
						v := val(s.Add(d.Mul(t)))
						if (v > 0) != (prev > 0) {
							cross++
							lo, hi = t1+(t2-t1)*float64(i-1)/float64(N), t
						}
						if !F.linear && v > 0 && v < 2e-3*sz[1] {
							nearMiss = true
						}
						prev = v
					}
					if cross > 1 || (cross == 0 && nearMiss) {
						continue
					}
					if cross == 0 {
						if h.T > 0 {
							k.Fatal("ray %v stays above the surface but hits at %v", ray, h.T)
						}
						continue
					}
					for i := 0; i < 100; i++ {
						mid := (lo + hi) / 2
						if val(s.Add(d.Mul(mid))) > 0 {
							lo = mid
						} else {
							hi = mid
						}
					}
					T := (lo + hi) / 2
					if math.Abs(T) < 1e-4 {
						continue
					}
					if T < 0 { // the surface is behind the start
						if h.T > 0 {
							k.Fatal("ray %v: surface is behind, but hits at %v", ray, h.T)
						}
						continue
					}
					if t1 < 0 && val(s) < 0 && s[0] > 0 && s[2] > 0 && s[0] < sz[0] && s[2] < sz[2] {
						continue // starts below the surface
					}
					p := s.Add(d.Mul(T))
					u, v := p[0]/sz[0], p[2]/sz[2]
					hits++
					if !(h.T > 0) {
						k.Fatal("ray %v: missed, want %v", ray, T)
					}
					if math.Abs(h.T-T) > 1e-5*(1+T) {
						k.Fatal("ray %v: T=%v, want %v", ray, h.T, T)
					}
					if math.Abs(h.Local[0]-u) > 1e-4 || math.Abs(h.Local[1]-v) > 1e-4 {
						k.Fatal("ray %v: local %v, want %v,%v", ray, h.Local, u, v)
					}
					nn := V{-sz[1] * F.du(u, v) / sz[0], 1, -sz[1] * F.dv(u, v) / sz[2]}.Unit()
					if e := geomx.RV(h.Normal).Unit().Sub(nn).MaxAbs(); !(e < 1e-3) {
						k.Fatal("ray %v: normal %v want %v", ray, h.Normal, nn)
					}
					if h.Material != geomx.Mat(3) {
						k.Fatal("material %v", h.Material)
					}
					k.SawF(h.T)
				}
				if hits == 0 {
					k.Trivial()
				}
			})
			r.Space("points", []int{len(fields), len(sizes)}, func(k *mc.K) {
				F := fields[k.Ix[0]]
				sz := sizes[k.Ix[1]]
				o := api.IsoSurface(geomx.Mat(3), sz[0], sz[1], sz[2], F.f).Interface
				for _, p := range geomx.Lattice(sz.Mul(.5), sz.Mul(.5), 1.3, 13, 1) {
					h := sz[1] * F.f(p[0]/sz[0], p[2]/sz[2])
					in, sure := true, math.Abs(p[1]-h) > 1e-6
					for i := 0; i < 3; i++ {
						if math.Abs(p[i]) < 1e-6 || math.Abs(p[i]-sz[i]) < 1e-6 {
							sure = false
						}
						in = in && p[i] > 0 && p[i] < sz[i]
					}
					in = in && p[1] < h
					if sure && o.Inside(geomx.GV(p)) != in {
						k.Fatal("%v: inside %v want %v", p, !in, in)
					}
					k.Op(1)
					if in {
						k.SawF(p[0], p[1], p[2])
					}
				}
				b := o.Bounds()
				if !mc.CloseV(b.Min, V{}, 1e-9) || !mc.CloseV(b.Max, sz, 1e-9) {
					k.Fail("bounds %v want 0..%v", b, sz)
				}
			})
		})
}
