// M02: fog attenuates and scatters light according to the length of the ray inside it.
package main

import (
	"math"
	"sort"

	"github.com/barnex/bruteray/tracer"
	"github.com/barnex/bruteray/tracer/materials"
	"github.com/barnex/bruteray/tracer/media"
	"verif/mc"
	. "verif/tx"
)

// segment of the ray (from 0 to tMax) below the given height.
func segment(s, d Vec, height, tMax float64) (t0, t1 float64) {
	y, dy := s[1]-height, d[1]
	lo, hi := 0.0, tMax
	switch {
	case dy == 0:
		if y >= 0 {
			return 0, 0
		}
	case dy > 0: // leaves the fog
		hi = math.Min(hi, -y/dy)
	default: // enters it
		lo = math.Max(lo, -y/dy)
	}
	if !(hi > lo) {
		return 0, 0
	}
	return lo, hi
}

// transmission is that of a path of the given length through fog.
func transmission(rho, length float64) float64 {
	if rho == 0 {
		return 1 // whatever the length
	}
	return math.Exp(-rho * length)
}

func main() {
	mc.Main("M02", "exploration",
		"A case is one (fog density and height, camera position, ray direction, distance of the surface behind); attenuation, in-scattering (position, weight and shadowing of the scattered light) and restriction to camera rays are compared with the Beer-Lambert law. Non-trivial: the ray passes through fog.",
		func(r *mc.Run) {
			dens := []float64{0.01, 0.3, 2, 50, 0, 1e-9}
			heights := []float64{0, 1.5, -3, 1e9}
			camY := []float64{-5, -0.5, 0.7, 1.49, 4}
			dirs := Dirs(true)
			tmax := []float64{0.01, 1, 3, 40, math.Inf(1)}
			amb := Color{R: 0.2, G: 0.5, B: 0.7}
			behind := Color{R: 0.9, G: 0.1, B: 0.4}
			mkRay := func(k *mc.K) (Vec, Vec, float64, float64, float64) {
				s := Vec{0.3, camY[k.Ix[2]], -0.2}
				d := dirs[k.Ix[3]]
				rho, h, t := dens[k.Ix[0]], heights[k.Ix[1]], tmax[k.Ix[4]]
				k.Desc("density %v height %v camera %v direction %v surface at %v", rho, h, s, d, t)
				return s, d, rho, h, t
			}
			surface := func(t float64, c Color) tracer.Object {
				m := Const(c)
				return Obj(func(r *tracer.Ray) tracer.HitRecord {
					return tracer.HitRecord{T: t, Normal: Scale(-1, r.Dir), Material: &m}
				})
			}
			dims := []int{len(dens), len(heights), len(camY), len(dirs), len(tmax)}
			r.Space("expfog", dims, func(k *mc.K) {
				s, d, rho, h, t := mkRay(k)
				a, b := segment(s, d, h, t)
				trans := transmission(rho, b-a)
				scene := tracer.NewSceneWithMedia(2, []tracer.Medium{media.ExpFog(rho, amb, h)}, nil, surface(t, behind))
				ctx := tracer.NewCtx(1)
				ctx.Init(0, 0)
				ray := tracer.Ray{Start: s, Dir: d}
				got := scene.LightField(ctx, &ray)
				want := CAdd(CMul(trans, behind), CMul(1-trans, amb))
				k.Op(1)
				if !CClose(got, want, 1e-9) {
					k.Fatal("%v, want %v (%v of the ray in fog)", got, want, b-a)
				}
				if ray.Start != s || ray.Dir != d {
					k.Fatal("ray modified")
				}
				// only rays from the camera
				ctx.CurrentRecursionDepth = 1
				if got := scene.LightField(ctx, &ray); !CClose(got, behind, 1e-12) {
					k.Fatal("secondary ray sees fog: %v, want %v", got, behind)
				}
				if a == b {
					k.Trivial()
				}
				k.SawF(got.R, got.G, got.B)
			})
			// scattering fog
			nPass := r.Pick(24, 96)
			r.Space("fog", append(dims, 4), func(k *mc.K) {
				s, d, rho, h, t := mkRay(k)
				a, b := segment(s, d, h, t)
				L := b - a
				trans := transmission(rho, L)
				weight := -math.Expm1(-rho * L)
				if rho == 0 {
					weight = 0
				}
				variant := k.Ix[5] // number of lights that scatter; 3: shadowed
				var asked []Vec
				mk := func(i int) *Light {
					return &Light{Pos: Vec{float64(i), 1e6, 3}, Intens: Color{R: 1 + float64(i), G: 0.5, B: 2}, O: Nothing, Asked: func(x Vec) { asked = append(asked, x) }}
				}
				lights := []tracer.Light{mk(0), mk(1)}
				num := variant
				objs := []tracer.Object{surface(t, behind)}
				// the surface probe would block light too: let it be seen by the camera ray only
				objs[0] = Obj(func(r *tracer.Ray) tracer.HitRecord {
					if r.Dir != d || r.Start != s {
						return tracer.HitRecord{}
					}
					m := Const(behind)
					return tracer.HitRecord{T: t, Normal: Scale(-1, r.Dir), Material: &m}
				})
				if variant == 3 { // everything in shadow
					num = 2
					objs = append(objs, Obj(func(r *tracer.Ray) tracer.HitRecord {
						if r.Dir == d && r.Start == s {
							return tracer.HitRecord{}
						}
						m := Const(behind)
						return tracer.HitRecord{T: 10, Normal: d, Material: &m}
					}))
				}
				scene := tracer.NewSceneWithMedia(2, []tracer.Medium{media.Fog(rho, h, num)}, lights, objs...)
				var F []float64
				ctx := tracer.NewCtx(1)
				for pass := 0; pass < nPass; pass++ {
					ctx.Init(0, pass)
					asked = nil
					ray := tracer.Ray{Start: s, Dir: d}
					got := scene.LightField(ctx, &ray)
					k.Op(1)
					want := CMul(trans, behind)
					if variant < 3 {
						for i := 0; i < num; i++ {
							want = CAdd(want, CMul(weight, Color{R: 1 + float64(i), G: 0.5, B: 2}))
						}
					}
					if !CClose(got, want, 1e-9) {
						k.Fatal("pass %d: %v, want %v (%v of the ray in fog)", pass, got, want, L)
					}
					if ray.Start != s || ray.Dir != d {
						k.Fatal("ray modified")
					}
					if num > 0 && L > 0 && rho > 0 {
						if len(asked) == 0 {
							k.Fatal("no light scattered")
						}
						rel := Sub(asked[0], s)
						at := Dot(rel, d)
						if Len(Sub(rel, Scale(at, d))) > 1e-5*(1+at) || at < a-1e-4 || at > b+1e-4 {
							k.Fatal("light scattered at %v (distance %v), not on the part of the ray in fog (%v to %v)", asked[0], at, a, b)
						}
						F = append(F, -math.Expm1(-rho*(at-a))/weight)
					}
				}
				// scattering positions follow the exponential distribution
				if len(F) > 0 && L > 1e-2 && rho < 10 {
					sort.Float64s(F)
					n := float64(len(F))
					for i, f := range F {
						if math.Abs(f-(float64(i)+0.5)/n) > 5/n+1e-3 {
							k.Fatal("scattering positions are not distributed like the fog: %v of them before the point where %v is expected", (float64(i)+0.5)/n, f)
						}
					}
				}
				// only rays from the camera
				ctx.CurrentRecursionDepth = 1
				if got := scene.LightField(ctx, &tracer.Ray{Start: s, Dir: d}); !CClose(got, behind, 1e-12) {
					k.Fatal("secondary ray sees fog: %v", got)
				}
				if L == 0 {
					k.Trivial()
				}
				k.SawF(trans)
				k.Saw(k.Ix)
			})
			// all sequences of lights that are lit, dark, shadowed or behind glass, any number of which may scatter;
			// one or two fogs, and empty space behind
			kinds := 5
			nl := r.Pick(4, 5)
			total := 0
			for i, p := 0, 1; i <= nl; i, p = i+1, p*kinds {
				total += p
			}
			r.Space("scatter", []int{total, nl + 2, 4, 3}, func(k *mc.K) {
				var seq []int
				for x, p := k.Ix[0], 1; ; p *= kinds {
					if x < p {
						for ; p > 1; p /= kinds {
							seq = append(seq, x%kinds)
							x /= kinds
						}
						break
					}
					x -= p
				}
				num := k.Ix[1]
				s, d := Vec{0.3, 5, -0.2}, Unit([]Vec{{0.6, -1, 0.3}, {0.1, -0.2, -1}, {0, -1, 0}}[k.Ix[3]])
				h, rho := 2.0, 0.4
				k.Desc("lights %v of which %d scatter, fogs and background %d, direction %v", seq, num, k.Ix[2], d)
				t := math.Inf(1)
				c := Color{}
				var objs []tracer.Object
				if k.Ix[2] < 2 { // a floor
					c = behind
					t = -s[1] / d[1]
					m := Const(behind)
					objs = append(objs, Plane(Vec{}, Vec{0, 1, 0}, Vec{}, &m))
				}
				// opaque and glass sheets high above, under some of the lights
				dark := Const(behind)
				glass := materials.Transparent(Color{R: 0.5, G: 0.25, B: 1}, true)
				far := math.Inf(1)
				sheet := func(x float64, m tracer.Material) tracer.Object {
					return Obj(func(r *tracer.Ray) tracer.HitRecord {
						t := (8e5 - r.Start[1]) / r.Dir[1]
						if !(t > 0 && t < far) || math.Abs(r.Start[0]+t*r.Dir[0]-x) > 1e5 {
							return tracer.HitRecord{}
						}
						return tracer.HitRecord{T: t, Normal: Vec{0, 1, 0}, Material: m}
					})
				}
				objs = append(objs, sheet(8e5, &dark), sheet(-8e5, glass))
				var ls []tracer.Light
				var sum Color
				for i, kind := range seq {
					in := Color{R: 1 + float64(i), G: 0.5, B: 2}
					x := 0.0
					w := in
					switch kind {
					case 1:
						in, w = Color{}, Color{}
					case 2:
						x, w = 1e6, Color{}
					case 3:
						x = -1e6
						w = CMul3(w, Color{R: 0.5, G: 0.25, B: 1})
					case 4:
						in = Color{B: 1e-7}
						w = in
					}
					ls = append(ls, &Light{Pos: Vec{x, 1e6, 3}, Intens: in, O: Nothing})
					if i < num {
						sum = CAdd(sum, w)
					}
				}
				var med []tracer.Medium
				fogs := 1 + k.Ix[2]%2
				a, b := segment(s, d, h, t)
				trans := transmission(rho, b-a)
				want := c
				for i := 0; i < fogs; i++ {
					med = append(med, media.Fog(rho, h, num))
					want = CAdd(CMul(trans, want), CMul(1-trans, sum))
				}
				scene := tracer.NewSceneWithMedia(6, med, ls, objs...)
				ctx := tracer.NewCtx(3)
				for pass := 0; pass < 4; pass++ {
					ctx.Init(pass%3, pass)
					got := scene.LightField(ctx, &tracer.Ray{Start: s, Dir: d})
					k.Op(1)
					if !CClose(got, want, 1e-9) {
						k.Fatal("pass %d: %v, want %v", pass, got, want)
					}
				}
				for depth := 1; depth < 5; depth++ {
					ctx.CurrentRecursionDepth = depth
					if got := scene.LightField(ctx, &tracer.Ray{Start: s, Dir: d}); !CClose(got, c, 1e-12) {
						k.Fatal("secondary ray sees fog: %v", got)
					}
				}
				k.Saw(k.Ix)
			})
		})
}
