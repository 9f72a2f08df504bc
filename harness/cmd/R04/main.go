// R04: a ray sees exactly the nearest surface in front of it, whatever the order and grouping of the objects.
package main

import (
	"fmt"
	"math"

	"github.com/barnex/bruteray/tracer"
	"github.com/barnex/bruteray/tracer/objects"
	"verif/geomx"
	"verif/mc"
	"verif/ref"
	. "verif/tx"
)

// seen records what a material was asked.
type seen struct {
	id   int
	hits *[]rec
}
type rec struct {
	id int
	h  tracer.HitCoords
	d  Vec
}

func (m *seen) Shade(ctx *tracer.Ctx, s *tracer.Scene, r *tracer.Ray, h tracer.HitCoords) Color {
	*m.hits = append(*m.hits, rec{m.id, h, r.Dir})
	return Color{R: 1, G: float64(m.id), B: 0.5}
}

var inf = math.Inf(1)

func main() {
	mc.Main("R04", "exploration",
		"Space arrangements: all sequences of up to N probe objects, each being hit at one of 9 positions (including behind, missed, infinitely far, not-a-number), each being an object or a light, looked at directly and indirectly. Space scenes: real objects in all orders and groupings. Non-trivial: at least one object is hit.",
		func(r *mc.Run) {
			ts := []float64{-1, 0, 1e-7, 0.5, 1, 2, 1e9, inf, math.NaN()}
			maxN := r.Pick(4, 5)
			for n := 0; n <= maxN; n++ {
				dims := []int{2}
				for i := 0; i < n; i++ {
					dims = append(dims, len(ts)*2)
				}
				n := n
				r.Space(fmt.Sprintf("arrangements-%d", n), dims, func(k *mc.K) {
					indirect := k.Ix[0] == 1
					var hits []rec
					var objs []tracer.Object
					var lights []tracer.Light
					best, nbest := -1, 0
					isLight := make([]bool, n)
					T := make([]float64, n)
					for i := 0; i < n; i++ {
						t := ts[k.Ix[1+i]/2]
						T[i] = t
						isLight[i] = k.Ix[1+i]%2 == 1
						i := i
						m := &seen{i, &hits}
						o := Obj(func(r *tracer.Ray) tracer.HitRecord {
							return tracer.HitRecord{T: t, Normal: Vec{float64(i + 1), 2, -0.5}, Local: Vec{float64(i), 7, 0.25}, Material: m}
						})
						if isLight[i] {
							lights = append(lights, &Light{O: o})
						} else {
							objs = append(objs, o)
						}
						if t > 0 && (best < 0 || t < T[best]) {
							best, nbest = i, 0
						}
						if t > 0 && t == T[best] {
							nbest++
						}
					}
					k.Desc("T=%v lights=%v indirect=%v", T, isLight, indirect)
					s := tracer.NewScene(3, lights, objs...)
					ctx := tracer.NewCtx(1)
					ray := tracer.Ray{Start: Vec{1, 2, 3}, Dir: Unit(Vec{1, -1, 0.5})}
					ray0 := ray
					var c Color
					if indirect {
						c = s.LightFieldIndirect(ctx, &ray)
					} else {
						c = s.LightField(ctx, &ray)
					}
					k.Op(1)
					if ray != ray0 {
						k.Fatal("ray modified")
					}
					if len(hits) > 1 {
						k.Fatal("%d materials shaded for one ray", len(hits))
					}
					if best < 0 {
						if c != (Color{}) || len(hits) != 0 {
							k.Fatal("nothing in front of the ray, but it sees %v", c)
						}
						k.Trivial()
						return
					}
					if len(hits) == 0 {
						if c != (Color{}) {
							k.Fatal("color %v without shading", c)
						}
						// black: only for a light that is seen indirectly
						ok := false
						for i := range T {
							ok = ok || (T[i] == T[best] && isLight[i] && indirect)
						}
						if !ok {
							k.Fatal("sees nothing, want object %d at %v", best, T[best])
						}
						k.Saw("black", best)
						return
					}
					h := hits[0]
					if T[h.id] != T[best] || (isLight[h.id] && indirect) {
						k.Fatal("sees object %d at %v (light: %v, indirect: %v), want %d at %v", h.id, T[h.id], isLight[h.id], indirect, best, T[best])
					}
					if want := (Color{R: 1, G: float64(h.id), B: 0.5}); c != want {
						k.Fatal("color %v, want %v", c, want)
					}
					if h.h.T != T[best] || h.h.Local != (Vec{float64(h.id), 7, 0.25}) || !mc.CloseV(h.h.Normal, Unit(Vec{float64(h.id + 1), 2, -0.5}), 1e-12) {
						k.Fatal("material is told T=%v local=%v normal=%v for object %d at %v", h.h.T, h.h.Local, h.h.Normal, h.id, T[best])
					}
					k.Saw(h.id, k.Ix)
				})
			}

			// real objects in all orders and groupings
			pool := []geomx.Pair{
				geomx.Sphere(1, 2, ref.V{0.1, 0.2, 0.3}),
				geomx.Box(2, 1, 3, 1, ref.V{1.2, 0.1, -0.2}),
				geomx.Rect(3, 9, 8, ref.V{0, -1.3, 0}),
				geomx.Tri(4, ref.V{-2, -1, 1}, ref.V{2, -0.5, 1.4}, ref.V{0.1, 2.5, 0.2}),
				geomx.Capped(5, 0.9, 2.2, ref.V{-1.1, 0.4, -0.6}),
				geomx.Backdrop(6),
				geomx.Diff(geomx.Sphere(7, 1.8, ref.V{0.4, 0.9, -1}), geomx.Box(7, 1, 1, 1, ref.V{0.9, 1.2, -1.2})),
			}
			np := r.Pick(5, 6)
			var perms [][]int
			var rec2 func(p []int, used int)
			rec2 = func(p []int, used int) {
				if len(p) == np {
					perms = append(perms, append([]int{}, p...))
					return
				}
				for i := 0; i < np; i++ {
					if used>>uint(i)&1 == 0 {
						rec2(append(p, i), used|1<<uint(i))
					}
				}
			}
			rec2(nil, 0)
			nGroup := 1 << uint(np-1) // where to cut the sequence into groups
			sets := [][]int{{0, 1, 2, 3, 4, 6}, {5, 0, 1, 2, 3, 4}, {6, 5, 1, 3, 2, 0}}
			r.Space("scenes", []int{len(sets), len(perms), nGroup}, func(k *mc.K) {
				var all ref.Group
				var objs []tracer.Object
				var cur []objects.Interface
				flush := func() {
					switch len(cur) {
					case 0:
					case 1:
						objs = append(objs, cur[0])
					case 2:
						objs = append(objs, objects.Tree(cur...))
					default:
						objs = append(objs, objects.Tree(objects.Tree(cur[:2]...), cur[2])) // nested
						for _, o := range cur[3:] {
							objs = append(objs, o)
						}
					}
					cur = nil
				}
				for i, j := range perms[k.Ix[1]] {
					p := pool[sets[k.Ix[0]][j]]
					all = append(all, p.R)
					cur = append(cur, p.O)
					if k.Ix[2]>>uint(i)&1 == 0 {
						flush()
					}
				}
				flush()
				s := tracer.NewScene(2, nil, objs...)
				ctx := tracer.NewCtx(1)
				k.Desc("objects %v in order %v, grouping %b", sets[k.Ix[0]], perms[k.Ix[1]], k.Ix[2])
				hit := 0
				for _, st := range []ref.V{{3.1, 2.7, 3.3}, {0.15, 0.25, 0.4}, {-2.8, 0.3, 0.2}} {
					for _, ray := range geomx.Rays(st, ref.V{0, 0.1, 0}, ref.V{2, 2, 2}, 0) {
						want, ok, certain := ref.First(all, ray.S, ray.D)
						if !certain {
							continue
						}
						c := s.LightField(ctx, &tracer.Ray{Start: geomx.GV(ray.S), Dir: geomx.GV(ray.D)})
						k.Op(1)
						w := 0.0
						if ok {
							w = float64(want.Mat)
							hit++
						}
						if c.R != w {
							k.Fail("ray from %v in direction %v sees object %v, want %v", ray.S, ray.D, c.R, w)
						}
					}
				}
				k.Saw(k.Ix, hit)
			})

			// any number of objects, the nearest one at every position in the list
			many := r.Pick(72, 300)
			r.Space("many", []int{many, 4, 2}, func(k *mc.K) {
				n := k.Ix[0] + 1
				indirect := k.Ix[2] == 1
				k.Desc("%d objects, kind %d, indirect %v", n, k.Ix[1], indirect)
				var hits []rec
				var objs []tracer.Object
				var lights []tracer.Light
				best := -1
				for i := 0; i < n; i++ {
					i := i
					m := &seen{i, &hits}
					o := Obj(func(r *tracer.Ray) tracer.HitRecord {
						t := 2 + float64(i*i%n)
						if i == best {
							t = 1
						}
						if i != best && (i+best)%3 == 0 {
							t = 0
						}
						return tracer.HitRecord{T: t, Normal: Vec{float64(i + 1), 2, -0.5}, Local: Vec{float64(i), 7, 0.25}, Material: m}
					})
					light := false
					switch k.Ix[1] {
					case 1:
						light = i%2 == 0
					case 2:
						light = i >= n/2
					case 3:
						light = true
					}
					if light {
						lights = append(lights, &Light{O: o})
					} else {
						objs = append(objs, o)
					}
				}
				s := tracer.NewScene(3, lights, objs...)
				ctx := tracer.NewCtx(1)
				for best = 0; best < n; best++ {
					hits = nil
					ray := tracer.Ray{Start: Vec{1, 2, 3}, Dir: Unit(Vec{1, -1, 0.5})}
					var c Color
					if indirect {
						c = s.LightFieldIndirect(ctx, &ray)
					} else {
						c = s.LightField(ctx, &ray)
					}
					k.Op(1)
					light := k.Ix[1] == 3 || k.Ix[1] == 1 && best%2 == 0 || k.Ix[1] == 2 && best >= n/2
					if light && indirect {
						if c != (Color{}) || len(hits) != 0 {
							k.Fatal("light %d is not black indirectly: %v", best, c)
						}
						continue
					}
					if len(hits) != 1 || hits[0].id != best || hits[0].h.T != 1 || c != (Color{R: 1, G: float64(best), B: 0.5}) {
						k.Fatal("nearest is object %d, but %v is seen (%v)", best, hits, c)
					}
				}
				k.Saw(k.Ix)
			})

			// several scenes made of the same lists of objects and lights
			r.Space("shared lists", []int{4, 4, 3, 3, 2}, func(k *mc.K) {
				nObj, spare := k.Ix[0], k.Ix[1]
				var hits []rec
				at := func(id int, t float64) tracer.Object {
					m := &seen{id, &hits}
					return Obj(func(r *tracer.Ray) tracer.HitRecord {
						return tracer.HitRecord{T: t, Normal: Vec{1, 2, -0.5}, Local: Vec{1, 7, 0.25}, Material: m}
					})
				}
				list := make([]tracer.Object, nObj, nObj+spare)
				for i := range list {
					list[i] = at(i, float64(50+i))
				}
				nearest := []int{0, 0, 0}
				var scenes []*tracer.Scene
				for j := 0; j < 3; j++ {
					objs := list
					id, t := 0, 50.0
					if nObj == 0 {
						id = -1
					}
					if j <= k.Ix[3] {
						id, t = 100+j, float64(30-j)
						if j > 0 {
							objs = append([]tracer.Object{}, list...)
						}
						objs = append(objs, at(id, t))
					}
					var lights []tracer.Light
					for i := 0; i < k.Ix[2]; i++ {
						lights = append(lights, &Light{O: at(200+10*j+i, float64(20-i-j))})
						id = 200 + 10*j + i
					}
					if k.Ix[4] == 1 {
						lights = append(lights, make([]tracer.Light, 3)...)[:len(lights)]
					}
					scenes = append(scenes, tracer.NewScene(2, lights, objs...))
					nearest[j] = id
				}
				ctx := tracer.NewCtx(1)
				for j, s := range scenes {
					hits = nil
					ray := tracer.Ray{Start: Vec{1, 2, 3}, Dir: Unit(Vec{1, -1, 0.5})}
					s.LightField(ctx, &ray)
					k.Op(1)
					if id := nearest[j]; id < 0 && len(hits) != 0 || id >= 0 && (len(hits) != 1 || hits[0].id != id) {
						k.Fatal("scene %d of 3 made from one list of %d objects: nearest is %d, but %v is seen", j, nObj, id, hits)
					}
				}
				k.Saw(k.Ix)
			})

			// all sequences of rays, direct, indirect and shadow ones, on one scene
			type look struct{ from, to ref.V }
			looks := []look{
				{ref.V{3.1, 2.7, 3.3}, ref.V{0.1, 0.2, 0.3}}, {ref.V{0.1, 0.2, 0.35}, ref.V{9, 0.3, 0.1}},
				{ref.V{0.1, 0.2, 0.35}, ref.V{1.2, 0.1, -0.2}}, {ref.V{5, 0.1, -0.2}, ref.V{1.2, 0.12, -0.21}},
				{ref.V{0.3, 5, 0.2}, ref.V{3.3, -1.3, 2.8}}, {ref.V{3.3, -5, 2.7}, ref.V{3.31, -1.3, 2.8}},
				{ref.V{0.2, 0.9, 5}, ref.V{0.1, 1.6, 0.5}}, {ref.V{-4, 0.4, -0.6}, ref.V{-1.1, 0.41, -0.62}},
				{ref.V{-1.1, 0.45, -0.6}, ref.V{0.2, 0.1, 0.2}}, {ref.V{0, 6, 0}, ref.V{0.1, 9, 0.1}},
			}
			hist := r.Pick(3, 4)
			dims := []int{3}
			for i := 0; i < hist; i++ {
				dims = append(dims, 3*len(looks))
			}
			r.Space(fmt.Sprintf("history-%d", hist), dims, func(k *mc.K) {
				sets := [][]int{{0, 1, 2, 3, 4}, {4, 3, 5, 1, 0, 2}, {6, 2, 1, 3}}
				var all ref.Group
				var objs []tracer.Object
				for i, j := range sets[k.Ix[0]] {
					all = append(all, pool[j].R)
					if k.Ix[0] == 1 && i > 0 && i%2 == 0 {
						objs[len(objs)-1] = objects.Tree(objs[len(objs)-1].(objects.Interface), pool[j].O)
					} else {
						objs = append(objs, pool[j].O)
					}
				}
				lampM := &seen{99, new([]rec)}
				lampP := geomx.Sphere(99, 0.5, ref.V{0.1, 0.2, 1.9})
				lamp := &Light{O: Obj(func(r *tracer.Ray) tracer.HitRecord {
					h := lampP.O.Intersect(r)
					h.Material = lampM
					return h
				})}
				s := tracer.NewScene(2, []tracer.Light{lamp}, objs...)
				withLamp := append(append(ref.Group{}, all...), lampP.R)
				ctx := tracer.NewCtx(1)
				for _, op := range k.Ix[1:] {
					l := looks[op/3]
					d := ref.V{l.to[0] - l.from[0], l.to[1] - l.from[1], l.to[2] - l.from[2]}
					ln := Len(geomx.GV(d))
					ray := &tracer.Ray{Start: geomx.GV(l.from), Dir: Unit(geomx.GV(d))}
					k.Desc("ray from %v towards %v, kind %d (direct, indirect, shadow)", l.from, l.to, op%3)
					k.Op(1)
					if op%3 == 2 {
						want, ok, certain := ref.First(all, l.from, ref.V(ray.Dir))
						if !certain || ok && math.Abs(want.T-ln) < 1e-3 {
							continue
						}
						w := Color{R: 1, G: 1, B: 1}
						if ok && want.T < ln {
							w = Color{}
						}
						if c := s.Occlude(ray, ln, Color{R: 1, G: 1, B: 1}); c != w {
							k.Fatal("light passing: %v, want %v", c, w)
						}
						continue
					}
					want, ok, certain := ref.First(withLamp, l.from, ref.V(ray.Dir))
					if !certain {
						continue
					}
					w := 0.0
					if ok {
						w = float64(want.Mat)
					}
					lamp := w == 99
					if lamp {
						w = 1
						if op%3 == 1 {
							w = 0
						}
					}
					var c Color
					if op%3 == 1 {
						c = s.LightFieldIndirect(ctx, ray)
					} else {
						c = s.LightField(ctx, ray)
					}
					if c.R != w || (c.G == 99) != (lamp && op%3 == 0) {
						k.Fatal("sees %v, want %v", c, w)
					}
				}
				k.Saw(k.Ix)
			})
		})
}
