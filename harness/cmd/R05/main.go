// R05: recursion is limited to exactly the requested depth, and evaluations do not influence each other.
package main

import (
	"fmt"
	"math"

	"github.com/barnex/bruteray/texture"
	"github.com/barnex/bruteray/tracer"
	"github.com/barnex/bruteray/tracer/lights"
	"github.com/barnex/bruteray/tracer/materials"
	"github.com/barnex/bruteray/tracer/media"
	"github.com/barnex/bruteray/tracer/objects"
	"verif/mc"
	. "verif/tx"
)

var white = Color{R: 1, G: 1, B: 1}

// leased takes many rays from the context and checks that they are all different and clean.
func leased(k *mc.K, ctx *tracer.Ctx, what string) {
	seen := map[*tracer.Ray]bool{}
	for i := 0; i < 64; i++ {
		r := ctx.Ray()
		if seen[r] {
			k.Fatal("%s: the context hands out the same ray to two users", what)
		}
		if *r != (tracer.Ray{}) {
			k.Fatal("%s: the context hands out a used ray %v", what, *r)
		}
		seen[r] = true
	}
	for r := range seen {
		*r = tracer.Ray{Start: Vec{1, 2, 3}, Dir: Vec{4, 5, 6}} // dirty
		ctx.PutRay(r)
	}
}

// setup is a scene and a camera ray.
type setup struct {
	name  string
	scene func(depth int) *tracer.Scene
	ray   tracer.Ray
}

func setups() []setup {
	floor := func(m tracer.Material) tracer.Object { return objects.Rectangle(m, 100, 100, Vec{0, -1, 0}) }
	ceil := func(m tracer.Material) tracer.Object { return objects.Rectangle(m, 100, 100, Vec{0, 1, 0}) }
	sky := objects.Backdrop(materials.Flat(Color{R: 0.3, G: 0.4, B: 0.5}))
	ball := func(m tracer.Material) tracer.Object { return objects.Sphere(m, 0.8, Vec{0.3, 0, -3}) }
	ray := tracer.Ray{Start: Vec{0, 0.1, 0}, Dir: Unit(Vec{0.1, -0.25, -1})}
	toBall := tracer.Ray{Start: Vec{0, 0.1, 0}, Dir: Unit(Vec{0.08, -0.03, -1})}
	pl := lights.PointLight(Color{R: 30, G: 20, B: 40}, Vec{0.5, 0.9, -1})
	rl := lights.RectangleLight(Color{R: 3, G: 2, B: 4}, 0.5, 0.6, Vec{0.5, 0.9, -1})
	grey := Color{R: 0.6, G: 0.5, B: 0.4}
	mk := func(med []tracer.Medium, ls []tracer.Light, os ...tracer.Object) func(int) *tracer.Scene {
		return func(d int) *tracer.Scene { return tracer.NewSceneWithMedia(d, med, ls, os...) }
	}
	L := func(l ...tracer.Light) []tracer.Light { return l }
	return []setup{
		{"matte floor, point light", mk(nil, L(pl), floor(materials.Matte(grey)), sky), ray},
		{"matte floor, area light", mk(nil, L(rl), floor(materials.Matte(grey)), sky), ray},
		{"two mirrors", mk(nil, L(rl), floor(materials.Reflective(grey)), ceil(materials.Reflective(white)), sky), ray},
		{"shiny floor", mk(nil, L(rl, pl), floor(materials.Shiny(grey, 0.3)), sky), ray},
		{"varnished", mk(nil, L(pl), floor(materials.ReflectFresnel(1.5, materials.Matte(grey))), sky), ray},
		{"glass ball", mk(nil, L(pl), floor(materials.Matte(grey)), ball(materials.Refractive(1.5)), sky), toBall},
		{"glass ball and mirrors", mk(nil, nil, floor(materials.Reflective(grey)), ball(materials.Refractive(1.4)), ceil(materials.Reflective(grey)), sky), toBall},
		{"transparent ball", mk(nil, L(rl), floor(materials.Matte(grey)), ball(materials.Transparent(grey, true)), sky), toBall},
		{"fog", mk([]tracer.Medium{media.Fog(0.2, 0.5, 2)}, L(pl, rl), floor(materials.Matte(grey)), sky), ray},
		{"exp fog", mk([]tracer.Medium{media.ExpFog(0.2, grey, 0.5)}, L(pl), floor(materials.Shiny(grey, 0.2)), sky), ray},
		{"light in view", mk(nil, L(rl), floor(materials.Matte(grey)), sky), tracer.Ray{Start: Vec{0.5, 0, -1}, Dir: Unit(Vec{0.01, 1, 0.02})}},
		{"nothing", mk(nil, L(pl)), ray},
	}
}

func main() {
	mc.Main("R05", "exploration",
		"branching: all (depth limit, rays per level, direct/indirect) of a material that recurses; series: emitting mirrors with a closed-form sum; history: all sequences of evaluations of up to N (scene, pixel, pass) on one context, each compared to a fresh context. Non-trivial: at least one surface is shaded.",
		func(r *mc.Run) {
			r.Space("branching", []int{r.Pick(7, 9), 3, 2, 2}, func(k *mc.K) {
				D, b, ind, useMedia := k.Ix[0], k.Ix[1]+1, k.Ix[2] == 1, k.Ix[3] == 1
				calls, filters := 0, 0
				maxDepth := 0
				live := map[*tracer.Ray]bool{}
				ctx := tracer.NewCtx(1)
				ctx.Init(0, 0)
				var m Func
				m = func(c *tracer.Ctx, s *tracer.Scene, ray *tracer.Ray, h tracer.HitCoords) Color {
					calls++
					depth := c.CurrentRecursionDepth
					if depth > maxDepth {
						maxDepth = depth
					}
					if c.IsInitial() != (depth == 1) {
						k.Fail("IsInitial()=%v at depth %d", c.IsInitial(), depth)
					}
					in := *ray
					sum := Color{R: 1, G: float64(depth)}
					for i := 0; i < b; i++ {
						r2 := c.Ray()
						if live[r2] {
							k.Fatal("ray handed out while in use")
						}
						if *r2 != (tracer.Ray{}) {
							k.Fatal("ray handed out with old contents: %v", *r2)
						}
						live[r2] = true
						*r2 = tracer.Ray{Start: Vec{float64(i), float64(depth), 7}, Dir: Unit(Vec{float64(i), 1, float64(depth)})}
						r20 := *r2
						var got Color
						if ind {
							got = s.LightFieldIndirect(c, r2)
						} else {
							got = s.LightField(c, r2)
						}
						if depth >= D && got != (Color{}) {
							k.Fail("depth limit %d: light %v seen at depth %d", D, got, depth+1)
						}
						if *r2 != r20 {
							k.Fail("ray changed during evaluation at depth %d", depth)
						}
						if c.CurrentRecursionDepth != depth {
							k.Fatal("recursion depth is %d after an evaluation started at %d", c.CurrentRecursionDepth, depth)
						}
						sum = CAdd(sum, got)
						delete(live, r2)
						c.PutRay(r2)
					}
					if *ray != in {
						k.Fail("ray of depth %d changed while in use", depth)
					}
					return sum
				}
				var med []tracer.Medium
				if useMedia {
					med = append(med, medium(func() { filters++ }), medium(func() { filters++ }))
				}
				s := tracer.NewSceneWithMedia(D, med, nil, Obj(func(r *tracer.Ray) tracer.HitRecord {
					return tracer.HitRecord{T: 1, Normal: r.Dir, Material: m}
				}))
				for rep := 0; rep < 2; rep++ {
					calls, maxDepth, filters = 0, 0, 0
					ray := ctx.Ray()
					ray.Dir = Vec{1, 0, 0}
					live[ray] = true
					got := s.LightField(ctx, ray)
					delete(live, ray)
					ctx.PutRay(ray)
					want, wantG := 0, 0
					for i, p := 0, 1; i < D; i, p = i+1, p*b {
						want += p
						wantG += p * (i + 1)
					}
					k.Op(calls)
					if calls != want || maxDepth != D || got.R != float64(want) || got.G != float64(wantG) {
						k.Fatal("depth limit %d, %d rays per surface: %d surfaces shaded (want %d), deepest %d, result %v (want %d,%d)", D, b, calls, want, maxDepth, got, want, wantG)
					}
					if useMedia && filters != 2*calls {
						k.Fatal("media applied %d times for %d rays", filters, calls)
					}
					if ctx.CurrentRecursionDepth != 0 {
						k.Fatal("recursion depth %d after evaluation", ctx.CurrentRecursionDepth)
					}
				}
				leased(k, ctx, "after evaluation")
				if D == 0 {
					k.Trivial()
				}
				k.Saw(k.Ix, calls)
			})

			// an emitting mirror seeing another, and so on: a geometric series of exactly depth terms
			r.Space("series", []int{r.Pick(24, 60), 5, 3}, func(k *mc.K) {
				D := k.Ix[0]
				c := []float64{0, 0.5, 0.9, 1, 1.1}[k.Ix[1]]
				m := materials.Blend(1, materials.Flat(Color{R: 0.25, G: 0.5, B: 1}), 1, materials.Reflective(Color{R: c, G: c / 2, B: 1}))
				var objs []tracer.Object
				switch k.Ix[2] {
				case 0:
					objs = []tracer.Object{objects.Sphere(m, 2, Vec{0.1, 0.2, 0.3})}
				case 1:
					objs = []tracer.Object{objects.Box(m, 2, 3, 2.5, Vec{0.1, 0.2, 0.3})}
				case 2:
					objs = []tracer.Object{objects.Rectangle(m, 1e6, 1e6, Vec{0, -1, 0}), objects.Rectangle(m, 1e6, 1e6, Vec{0, 1, 0})}
				}
				s := tracer.NewScene(D, nil, objs...)
				ctx := tracer.NewCtx(1)
				for _, d := range []Vec{{0.3, 0.5, 0.2}, {-0.1, -0.7, 0.33}, {0.01, 1, 0.02}} {
					got := s.LightField(ctx, &tracer.Ray{Start: Vec{0.15, 0.1, 0.2}, Dir: Unit(d)})
					var want Color
					f := white
					for i := 0; i < D; i++ {
						want = CAdd(want, CMul3(f, Color{R: 0.25, G: 0.5, B: 1}))
						f = CMul3(f, Color{R: c, G: c / 2, B: 1})
					}
					k.Op(1)
					if !CClose(got, want, 1e-9) {
						k.Fail("depth limit %d, reflectivity %v: %v, want %v", D, c, got, want)
					}
				}
				leased(k, ctx, "after the series")
				if D == 0 {
					k.Trivial()
				}
				k.Saw(k.Ix)
			})

			// nothing within the limit is cut off, however deep or dim: the surface at level i shines by as much as
			// the mirrors, sheets or blends up to it have dimmed the light, so that every level adds exactly one
			depths := []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 20, 24, 31, 32, 33, 50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 500, 1000}
			dims5 := []float64{1, 0.5, 0.1, 1e-3, 1e-6}
			r.Space("dim", []int{len(depths), len(dims5), 4, 2}, func(k *mc.K) {
				D, c := depths[k.Ix[0]], dims5[k.Ix[1]]
				if math.Pow(c, float64(D)) < 1e-250 {
					k.Trivial()
					return
				}
				k.Desc("depth limit %d, dimming %v, kind %d", D, c, k.Ix[2])
				var m tracer.Material
				col := Color{R: c, G: c, B: c}
				switch k.Ix[2] {
				case 0:
					m = materials.Reflective(col)
				case 1:
					m = materials.Transparent(col, true)
				case 2:
					m = materials.Blend(c, materials.Reflective(white), 1, materials.Flat(Color{}))
				case 3:
					m = materials.BlendMap(Color{R: 1 - c, G: 1 - c, B: 1 - c}, materials.Flat(Color{}), materials.Reflective(white))
				}
				glow := Func(func(ctx *tracer.Ctx, s *tracer.Scene, ray *tracer.Ray, h tracer.HitCoords) Color {
					e := math.Pow(c, float64(1-ctx.CurrentRecursionDepth))
					return Color{R: e, G: e, B: 0}
				})
				mat := materials.Blend(1, glow, 1, m)
				n := Vec{0, 1, 0}
				s := tracer.NewScene(D, nil, Obj(func(r *tracer.Ray) tracer.HitRecord {
					return tracer.HitRecord{T: 1, Normal: n, Material: mat}
				}))
				ctx := tracer.NewCtx(1)
				ctx.Init(0, 0)
				ray := &tracer.Ray{Dir: Unit(Vec{0.2, -1, 0.1})}
				if k.Ix[3] == 1 {
					ray.Dir = Unit(Vec{0.3, 1, 0.2})
				}
				got := s.LightField(ctx, ray)
				k.Op(1)
				if w := float64(D); !mc.Close(got.R, w, 1e-6) || !mc.Close(got.G, w, 1e-6) {
					k.Fatal("sum over all levels %v, want %d", got, D)
				}
				leased(k, ctx, "after the series")
				k.Saw(k.Ix)
			})

			// histories of evaluations on one context
			st := setups()
			type op struct{ s, pixel, pass, depth, ray int }
			var ops []op
			for s := range st {
				ops = append(ops, op{s, 0, 0, 2, 0}, op{s, 2, 5, 2, 1}, op{s, 1, 1, 1, 0})
			}
			eval := func(ctx *tracer.Ctx, sc *tracer.Scene, o op) Color {
				ctx.Init(o.pixel, o.pass)
				ray := ctx.Ray()
				*ray = st[o.s].ray
				if o.ray == 1 {
					ray.Dir = Unit(Add(ray.Dir, Vec{0.02, -0.03, 0.01}))
				}
				c := sc.LightField(ctx, ray)
				ctx.PutRay(ray)
				return c
			}
			fresh := make([]Color, len(ops))
			for i, o := range ops {
				fresh[i] = eval(tracer.NewCtx(3), st[o.s].scene(o.depth), o)
			}
			n := r.Pick(3, 4)
			dims := make([]int, n)
			for i := range dims {
				dims[i] = len(ops)
			}
			r.Space(fmt.Sprintf("history-%d", n), dims, func(k *mc.K) {
				ctx := tracer.NewCtx(3)
				scenes := map[[2]int]*tracer.Scene{} // shared by the evaluations
				for _, i := range k.Ix {
					o := ops[i]
					sc := scenes[[2]int{o.s, o.depth}]
					if sc == nil {
						sc = st[o.s].scene(o.depth)
						scenes[[2]int{o.s, o.depth}] = sc
					}
					got := eval(ctx, sc, o)
					k.Op(1)
					k.Desc("%s pixel %d pass %d depth %d", st[o.s].name, o.pixel, o.pass, o.depth)
					if math.IsNaN(got.R + got.G + got.B) {
						k.Fatal("not a number: %v", got)
					}
					if !CClose(got, fresh[i], 1e-12) {
						k.Fatal("%v; on a fresh context %v", got, fresh[i])
					}
					if ctx.CurrentRecursionDepth != 0 {
						k.Fatal("recursion depth %d after evaluation", ctx.CurrentRecursionDepth)
					}
					k.SawF(got.R, got.G, got.B)
				}
				leased(k, ctx, "after the history")
			})
			// every material, hit at every angle from both sides
			ms := allMaterials()
			r.Space("materials", []int{len(ms), r.Pick(24, 90), 2, 4, 3, 2}, func(k *mc.K) {
				m := ms[k.Ix[0]]
				th := (float64(k.Ix[1]) + 0.5) / float64(r.Pick(24, 90)) * math.Pi // 0..180 degrees from the normal
				depth := k.Ix[3] + 1
				n := Vec{0, 1, 0}
				if k.Ix[2] == 1 {
					n = Unit(Vec{0.3, -0.5, 0.7})
				}
				t, _ := Orthogonal(n)
				dir := Add(Scale(-math.Cos(th), n), Scale(math.Sin(th), t))
				k.Desc("%s, %.1f degrees, depth limit %d", m.name, th*180/math.Pi, depth)
				var objs []tracer.Object
				sky := objects.Backdrop(materials.Flat(Color{R: 0.3, G: 0.4, B: 0.5}))
				switch k.Ix[4] {
				case 0: // a plane
					objs = []tracer.Object{Plane(Vec{}, n, Vec{}, m.m), sky}
				case 1: // two parallel planes
					objs = []tracer.Object{Plane(Vec{}, n, Vec{}, m.m), Plane(Scale(-1, dir), n, Vec{}, m.m), sky}
				case 2: // everything in a ball of glass
					objs = []tracer.Object{Plane(Vec{}, n, Vec{}, m.m), objects.Sphere(materials.Refractive2(1, 1.6), 20, Vec{0, 0, 0}), sky}
				}
				ls := []tracer.Light{&Light{Pos: Scale(3, n), Intens: white, O: Obj(func(*tracer.Ray) tracer.HitRecord { return tracer.HitRecord{} })}}
				var med []tracer.Medium
				if k.Ix[5] == 1 {
					med = append(med, media.Fog(0.01, 100, 1))
				}
				s := tracer.NewSceneWithMedia(depth, med, ls, objs...)
				ctx := tracer.NewCtx(1)
				for rep := 0; rep < 2; rep++ {
					ctx.Init(0, rep)
					ray := ctx.Ray()
					*ray = tracer.Ray{Start: Scale(-0.5, dir), Dir: dir}
					ray0 := *ray
					c := s.LightField(ctx, ray)
					k.Op(1)
					if *ray != ray0 {
						k.Fatal("the ray was modified")
					}
					if math.IsNaN(c.R + c.G + c.B) {
						k.Fatal("brightness %v", c)
					}
					if ctx.CurrentRecursionDepth != 0 {
						k.Fatal("recursion depth %d after evaluation", ctx.CurrentRecursionDepth)
					}
					ctx.PutRay(ray)
					leased(k, ctx, "after evaluation")
				}
				k.Saw(k.Ix)
			})
			// rays and contexts are not mixed up: every surface evaluated with a context and ray of its own gives the same
			in := innerMaterials()
			r.Space("apart", []int{len(in), len(in), 6, 3, r.Pick(3, 5)}, func(k *mc.K) {
				n := []Vec{{0, 1, 0}, Unit(Vec{0.3, -0.5, 0.7}), {0, 1, 0}}[k.Ix[3]]
				t, _ := Orthogonal(n)
				th := []float64{0.3, 0.9, 1.4, 1.8, 2.4, 3}[k.Ix[2]]
				dir := Add(Scale(-math.Cos(th), n), Scale(math.Sin(th), t))
				var res [2]Color
				for i := range res {
					w := func(m tracer.Material) tracer.Material {
						if i == 0 {
							return m
						}
						return apart{m}
					}
					n2 := n
					if k.Ix[3] == 2 {
						n2 = Unit(Vec{0.1, 1, 0.2})
					}
					s := tracer.NewSceneWithMedia(k.Ix[4]+2, []tracer.Medium{haze{}}, nil,
						Plane(Vec{}, n, Vec{}, w(in[k.Ix[0]].m)),
						Plane(Scale(2, n), n2, Vec{}, w(in[k.Ix[1]].m)),
						Plane(Scale(-3, n), n2, Vec{}, w(in[k.Ix[1]].m)),
						objects.Backdrop(w(materials.Func(directional))))
					ctx := tracer.NewCtx(1)
					ctx.Init(0, 0)
					res[i] = s.LightField(ctx, &tracer.Ray{Start: Scale(-0.5, dir), Dir: dir})
					k.Op(1)
				}
				k.Desc("%s, opposite to %s, at %v, depth limit %d", in[k.Ix[0]].name, in[k.Ix[1]].name, dir, k.Ix[4]+2)
				if !CClose(res[0], res[1], 1e-12) {
					k.Fatal("%v; if every surface is evaluated with a context and a ray of its own %v", res[0], res[1])
				}
				k.SawF(res[0].R, res[0].G, res[0].B)
			})
			// deep recursion of all set-ups: the context stays balanced
			r.Space("balance", []int{len(st), 7, 8}, func(k *mc.K) {
				ctx := tracer.NewCtx(3)
				ray := st[k.Ix[0]].ray
				ray0 := ray
				k.Desc("%s depth %d", st[k.Ix[0]].name, k.Ix[1])
				s := st[k.Ix[0]].scene(k.Ix[1])
				for i := 0; i <= k.Ix[2]; i++ {
					ctx.Init(i%3, i)
					c := s.LightField(ctx, &ray)
					k.Op(1)
					if ray != ray0 {
						k.Fatal("the camera ray was modified")
					}
					if math.IsNaN(c.R+c.G+c.B) || c.R < 0 || c.G < 0 || c.B < 0 {
						k.Fatal("brightness %v", c)
					}
					if k.Ix[1] == 0 && c != (Color{}) {
						k.Fatal("depth limit 0, but brightness %v", c)
					}
					if ctx.CurrentRecursionDepth != 0 {
						k.Fatal("recursion depth %d after evaluation", ctx.CurrentRecursionDepth)
					}
				}
				leased(k, ctx, "after evaluation")
				k.Saw(k.Ix)
			})
		})
}

type medium func()

func (m medium) Filter(ctx *tracer.Ctx, s *tracer.Scene, r *tracer.Ray, tMax float64, original Color) Color {
	m()
	return original
}

type named struct {
	name string
	m    tracer.Material
}

// allMaterials returns one of each kind of material, and combinations.
func allMaterials() []named {
	grey := Color{R: 0.6, G: 0.5, B: 0.4}
	half := Color{R: 0.5, G: 0.5, B: 0.5}
	return []named{
		{"flat", materials.Flat(grey)},
		{"matte", materials.Matte(grey)},
		{"reflective", materials.Reflective(grey)},
		{"refractive 1.5", materials.Refractive(1.5)},
		{"refractive 2.5:1", materials.Refractive2(2.5, 1)},
		{"refractive 1:1", materials.Refractive(1)},
		{"fresnel", materials.ReflectFresnel(1.4, materials.Matte(grey))},
		{"fresnel on fresnel", materials.ReflectFresnel(1.4, materials.ReflectFresnel(2, materials.Flat(grey)))},
		{"shiny", materials.Shiny(grey, 0.3)},
		{"blend of mirror and glass", materials.Blend(0.5, materials.Reflective(grey), 0.5, materials.Refractive(1.5))},
		{"blend map", materials.BlendMap(half, materials.Refractive(1.5), materials.Matte(grey))},
		{"transparent", materials.Transparent(grey, false)},
		{"transparent, recursive", materials.Transparent(grey, true)},
		{"two-sided", materials.TwoSided(materials.Matte(grey), materials.Reflective(grey))},
	}
}

// apart evaluates a material with a context and ray of its own.
type apart struct{ m tracer.Material }

func (a apart) Shade(ctx *tracer.Ctx, s *tracer.Scene, r *tracer.Ray, h tracer.HitCoords) Color {
	c := tracer.NewCtx(1)
	c.Init(0, 0)
	c.CurrentRecursionDepth = ctx.CurrentRecursionDepth
	r2 := *r
	return a.m.Shade(c, s, &r2, h)
}

// haze depends on the ray.
type haze struct{}

func (haze) Filter(ctx *tracer.Ctx, s *tracer.Scene, r *tracer.Ray, tMax float64, c Color) Color {
	return c.Mul(0.7 + 0.1*math.Sin(3*r.Start[0]+2*r.Start[1]+r.Dir[2]) + 0.2*math.Exp(-math.Min(tMax, 10)))
}

// directional depends on the ray.
func directional(ctx *tracer.Ctx, s *tracer.Scene, r *tracer.Ray, h tracer.HitCoords) Color {
	return Color{R: 1.5 + r.Dir[0], G: 1.5 + r.Dir[1], B: 1.5 + r.Dir[2]}
}

// innerMaterials are those without randomness, and combinations.
func innerMaterials() []named {
	dirl := materials.Func(directional)
	flat := materials.Flat(Color{R: 0.2, G: 0.5, B: 0.1})
	mirror := materials.Reflective(Color{R: 0.9, G: 0.8, B: 0.7})
	glass := materials.Refractive2(1, 1.5)
	l := []named{
		{"Flat", flat}, {"a function of the direction", dirl}, {"Reflective", mirror}, {"Refractive", glass},
		{"Transparent", materials.Transparent(Color{R: 0.5, G: 0.9, B: 0.7}, true)},
		{"ReflectFresnel(directional)", materials.ReflectFresnel(1.5, dirl)},
		{"ReflectFresnel(Reflective)", materials.ReflectFresnel(1.5, mirror)},
		{"Blend(Reflective,directional)", materials.Blend(0.5, mirror, 0.5, dirl)},
		{"Blend(directional,Reflective)", materials.Blend(0.5, dirl, 0.5, mirror)},
		{"Blend(Refractive,Reflective)", materials.Blend(0.3, glass, 0.6, mirror)},
		{"TwoSided(Reflective,Refractive)", materials.TwoSided(mirror, glass)},
		{"BlendMap(Reflective,directional)", materials.BlendMap(texture.Func(func(Vec) Color { return Color{R: 0.25, G: 0.25, B: 0.25} }), mirror, dirl)},
	}
	return l
}
