// M01: materials scatter light according to the laws of optics, and conserve energy.
package main

import (
	"fmt"
	"math"

	"github.com/barnex/bruteray/texture"
	"github.com/barnex/bruteray/tracer"
	"github.com/barnex/bruteray/tracer/materials"
	"github.com/barnex/bruteray/tracer/objects"
	"verif/mc"
	. "verif/tx"
)

// Q is what a material is asked: a ray in direction D seeing a surface with unit normal N.
type Q struct {
	D, N, P, Local Vec
	depth          int // remaining recursion
	sky            func(d Vec, lights bool) Color
	uv             Vec // the direction of the diffuse ray, when known
	light          *Light
}

// M is a material and its reference.
type M struct {
	name    string
	m       tracer.Material
	ref     func(q *Q) Color
	diffuse int // number of Matte's
}

func (q *Q) env(d Vec, lights bool) Color {
	if q.depth <= 1 {
		return Color{}
	}
	return q.sky(d, lights)
}

func mirror(d, n Vec) Vec { return Sub(d, Scale(2*Dot(d, n), n)) }

// fresnel returns reflectance and cos of the refraction angle; tir if totally reflected.
func fresnel(n1, n2, cosI float64) (R, cosT float64, tir bool) {
	ti := math.Acos(math.Min(1, cosI))
	st := n1 / n2 * math.Sin(ti)
	if st > 1 {
		return 1, 0, true
	}
	tt := math.Asin(st)
	if ti < 1e-6 {
		r := (n1 - n2) / (n1 + n2)
		return r * r, math.Cos(tt), false
	}
	if n1 == n2 {
		return 0, cosI, false
	}
	rs := math.Sin(ti-tt) / math.Sin(ti+tt)
	rp := math.Tan(ti-tt) / math.Tan(ti+tt)
	return (rs*rs + rp*rp) / 2, math.Cos(tt), false
}

func flat(c Color) M {
	return M{"Flat", materials.Flat(c), func(q *Q) Color { return c }, 0}
}
func tex(p Vec) Color { return Color{R: 0.3 + 0.1*p[0], G: 0.5 - 0.2*p[1], B: 0.2 + 0.3*p[2]} }

var texT = texture.Func(tex)

func flatT() M {
	return M{"Flat(tex)", materials.Flat(texT), func(q *Q) Color { return tex(q.Local) }, 0}
}
func refl(c Color) M {
	return M{"Reflective", materials.Reflective(c), func(q *Q) Color { return CMul3(c, q.env(mirror(q.D, q.N), true)) }, 0}
}
func transp() M {
	return M{"Transparent", materials.Transparent(texT, true), func(q *Q) Color { return CMul3(tex(q.Local), q.env(q.D, false)) }, 0}
}
func refr(n1, n2 float64) M {
	m := materials.Refractive2(n1, n2)
	if n1 == 1 {
		m = materials.Refractive(n2)
	}
	return M{fmt.Sprintf("Refractive(%v,%v)", n1, n2), m, func(q *Q) Color {
		a, b, n := n1, n2, q.N
		if Dot(q.D, n) > 0 {
			a, b, n = n2, n1, Scale(-1, n)
		}
		R, cosT, tir := fresnel(a, b, -Dot(q.D, n))
		rc := q.env(mirror(q.D, n), true)
		if tir {
			return rc
		}
		tang := Sub(q.D, Scale(Dot(q.D, n), n))
		sinT := math.Sqrt(math.Max(0, 1-cosT*cosT))
		t := Scale(-cosT, n)
		if Len(tang) > 1e-9 {
			t = Add(t, Scale(sinT, Unit(tang)))
		}
		return CAdd(CMul(R, rc), CMul(1-R, q.env(t, true)))
	}, 0}
}
func varnish(n float64, a M) M {
	return M{fmt.Sprintf("ReflectFresnel(%v,%s)", n, a.name), materials.ReflectFresnel(n, a.m), func(q *Q) Color {
		R, _, _ := fresnel(1, n, math.Abs(Dot(q.D, q.N)))
		return CAdd(CMul(R, q.env(mirror(q.D, q.N), true)), CMul(1-R, a.ref(q)))
	}, a.diffuse}
}
func blend(x float64, a M, y float64, b M) M {
	return M{"Blend(" + a.name + "," + b.name + ")", materials.Blend(x, a.m, y, b.m), func(q *Q) Color {
		return CAdd(CMul(x, a.ref(q)), CMul(y, b.ref(q)))
	}, a.diffuse + b.diffuse}
}
func blendMap(key float64, a, b M) M {
	t := texture.Func(func(p Vec) Color { return Color{R: key + 0.0*p[0], G: 0.77, B: 0.11} })
	return M{fmt.Sprintf("BlendMap(%v,%s,%s)", key, a.name, b.name), materials.BlendMap(t, a.m, b.m), func(q *Q) Color {
		return CAdd(CMul(key, a.ref(q)), CMul(1-key, b.ref(q)))
	}, a.diffuse + b.diffuse}
}
func twoSided(a, b M) M {
	return M{"TwoSided(" + a.name + "," + b.name + ")", materials.TwoSided(a.m, b.m), func(q *Q) Color {
		if Dot(q.D, q.N) > 0 {
			return a.ref(q)
		}
		return b.ref(q)
	}, a.diffuse + b.diffuse}
}
func matteRef(q *Q) Color {
	n := q.N
	if Dot(q.D, n) > 0 {
		n = Scale(-1, n)
	}
	var acc Color
	if q.light != nil {
		l := Sub(q.light.Pos, q.P)
		if c := Dot(Unit(l), n); c > 0 {
			acc = CMul(c, q.light.Intens)
		}
	}
	return CMul3(tex(q.Local), CAdd(acc, q.env(q.uv, false)))
}
func matte() M { return M{"Matte", materials.Matte(texT), matteRef, 1} }
func shiny(r float64) M {
	return M{"Shiny", materials.Shiny(texT, r), func(q *Q) Color {
		return CAdd(CMul(1-r, matteRef(q)), CMul(r, q.env(mirror(q.D, q.N), true)))
	}, 1}
}

func main() {
	mc.Main("M01", "exploration",
		"A case is one (material expression, surface normal, recursion depth, lighting); the surface is seen under every listed direction from both sides, in an environment whose brightness depends on direction, so that every secondary ray's direction, origin and weight is visible in the result. Non-trivial: always.",
		func(r *mc.Run) {
			leaves := []M{flat(Color{R: 0.1, G: 0.5, B: 0.9}), flatT(), refl(Color{R: 0.9, G: 0.8, B: 0.3}), transp(), refr(1, 1.5), refr(1.5, 1), refr(1, 1), refr(1.33, 1.7), matte(), shiny(0.2)}
			mats := append([]M{}, leaves...)
			comp := func(a, b M) []M {
				return []M{blend(0.7, a, 0.3, b), blend(1, a, 1, b), twoSided(a, b), blendMap(0.25, a, b), blendMap(0, a, b), blendMap(1, a, b)}
			}
			ok := func(m M) bool { return m.diffuse <= 1 } // at most one diffuse ray, so that it can be told apart
			for _, a := range leaves {
				mats = append(mats, varnish(1.33, a), varnish(1.5, a), varnish(20, a))
				for _, b := range leaves {
					for _, m := range comp(a, b) {
						if ok(m) {
							mats = append(mats, m)
						}
					}
				}
			}
			if r.Thorough() {
				for _, a := range leaves {
					for _, b := range leaves {
						for i := 0; i < len(leaves); i += (len(leaves) + 1) / 2 {
							c := leaves[i]
							for _, m := range comp(a, b) {
								for _, m2 := range append(comp(m, c), comp(c, varnish(1.4, m))...) {
									if ok(m2) {
										mats = append(mats, m2)
									}
								}
							}
						}
					}
				}
			}
			normals := []Vec{{0, 1, 0}, {0, 0, -2}, {0.5, 0, 0}, {1, 1, 1}, {-0.3, 0.5, 0.9}, {0.7, -0.001, -0.2}, {-5, 3, 0}}
			angles := []float64{0, 0.3, 20, 41, 41.9, 45, 48.6, 60, 80, 89}
			if r.Thorough() {
				angles = append(angles, 0.001, 5, 10, 30, 41.8, 42, 50, 56.3, 70, 85, 89.9)
			}
			r.Space("materials", []int{len(mats), len(normals), 3, 3}, func(k *mc.K) {
				m := mats[k.Ix[0]]
				n0 := normals[k.Ix[1]]
				depth := 1 + k.Ix[2]
				n := Unit(n0)
				ta, tb := Orthogonal(n)
				p := Vec{0.3, -0.2, 0.5}
				local := Vec{0.4, 0.9, -0.3}
				k.Desc("%s normal %v depth %d light %d", m.name, n0, depth, k.Ix[3])
				// environment: a smooth function of direction; a light shines in a cone
				cone := Unit(Add(n, Add(Scale(0.4, ta), Scale(0.2, tb))))
				if k.Ix[3] == 2 {
					cone = Scale(-1, cone)
				}
				back := func(d Vec) Color {
					return Color{R: 0.5 + 0.4*d[0] + 0.1*d[1]*d[2], G: 0.5 + 0.3*d[1] - 0.1*d[0]*d[2], B: 0.5 + 0.2*d[2] + 0.3*d[0]*d[1]}
				}
				lcol := Color{R: 3, G: 2, B: 5}
				var starts, dirs []Vec
				skyObj := Sky(1000, func(s, d Vec) Color {
					starts = append(starts, s)
					dirs = append(dirs, d)
					return back(d)
				})
				var lights []tracer.Light
				var light *Light
				if k.Ix[3] > 0 {
					lm := Const(lcol)
					light = &Light{Pos: Add(p, Scale(100, cone)), Intens: Color{R: 0.6, G: 0.7, B: 0.2}, O: Obj(func(r *tracer.Ray) tracer.HitRecord {
						if Dot(r.Dir, cone) > 0.8*Len(r.Dir) {
							return tracer.HitRecord{T: 500, Normal: cone, Material: &lm}
						}
						return tracer.HitRecord{}
					})}
					lights = append(lights, light)
				}
				sky := func(d Vec, l bool) Color {
					if light != nil && Dot(d, cone) > 0.8 {
						if l {
							return lcol
						}
						return Color{}
					}
					return back(d)
				}
				scene := tracer.NewScene(depth, lights, Plane(p, n0, local, m.m), skyObj)
				for ia, ang := range angles {
					for side := 0; side < 2; side++ {
						for az := 0; az < 3; az++ {
							th, ph := ang*math.Pi/180, 0.4+2.1*float64(az)
							in := Add(Scale(-math.Cos(th), n), Scale(math.Sin(th), Add(Scale(math.Cos(ph), ta), Scale(math.Sin(ph), tb))))
							if side == 1 {
								in = Add(Scale(math.Cos(th), n), Scale(math.Sin(th), Add(Scale(math.Cos(ph), ta), Scale(math.Sin(ph), tb))))
							}
							in = Unit(in)
							ctx := tracer.NewCtx(4)
							ctx.Init(1, 3*ia+az)
							starts, dirs = nil, nil
							ray := tracer.Ray{Start: Sub(p, Scale(2.5, in)), Dir: in}
							ray0 := ray
							got := scene.LightField(ctx, &ray)
							k.Op(1)
							if ray != ray0 {
								k.Fail("%s: the ray was modified: %v, was %v", m.name, ray, ray0)
							}
							if ctx.CurrentRecursionDepth != 0 {
								k.Fail("%s: recursion depth %d after evaluation", m.name, ctx.CurrentRecursionDepth)
							}
							q := &Q{D: in, N: n, P: p, Local: local, depth: depth, sky: sky, light: light}
							facing := n
							if Dot(in, n) > 0 {
								facing = Scale(-1, n)
							}
							// which of the secondary rays is the diffuse one: any may be, one has to fit
							cands := append([]Vec{}, dirs...)
							cands = append(cands, cone, facing) // a ray that saw the light did not reach the sky
							fits := false
							var want Color
							for _, c := range cands {
								if m.diffuse > 0 && Dot(c, facing) < -1e-9 {
									continue
								}
								q.uv = c
								want = m.ref(q)
								if CClose(got, want, 1e-6) {
									fits = true
									break
								}
							}
							if !fits {
								k.Fail("%s normal %v: seen in direction %v (incidence %v deg, side %d): %v, want %v", m.name, n0, in, ang, side, got, want)
							}
							for i, s := range starts {
								off := Sub(s, p)
								if Len(off) > 1e-4 {
									k.Fail("%s: secondary ray starts at %v, not at the surface %v", m.name, s, p)
								}
								if ang < 89.5 && Dot(off, n)*Dot(dirs[i], n) <= 0 {
									k.Fail("%s: secondary ray in direction %v starts at the wrong side of the surface", m.name, dirs[i])
								}
								if math.Abs(Len(dirs[i])-1) > 1e-6 {
									k.Fail("%s: secondary ray direction %v not normalized", m.name, dirs[i])
								}
							}
							k.SawF(got.R, got.G, got.B)
						}
					}
				}
			})

			// Direct light of all sequences of up to N lights: each is counted exactly once.
			nl := r.Pick(3, 4)
			lightKinds := 7
			total := 0
			for i, p := 0, 1; i <= nl; i, p = i+1, p*lightKinds {
				total += p
			}
			r.Space("lights", []int{total, 3, 2, 4}, func(k *mc.K) {
				var seq []int
				for x, p := k.Ix[0], 1; ; p *= lightKinds {
					if x < p {
						for ; p > 1; p /= lightKinds {
							seq = append(seq, x%lightKinds)
							x /= lightKinds
						}
						break
					}
					x -= p
				}
				n := Unit([]Vec{{0, 1, 0}, {1, 2, 3}, {-1, 0, 0.2}}[k.Ix[1]])
				ta, tb := Orthogonal(n)
				p := Vec{0.3, -0.2, 0.5}
				refl := Color{R: 0.7, G: 0.6, B: 0.5}
				face := n
				if k.Ix[2] == 1 {
					face = Scale(-1, n)
				}
				m := []tracer.Material{materials.Matte(refl), materials.Shiny(refl, 0.25), materials.ReflectFresnel(1, materials.Matte(refl)), materials.BlendMap(Color{R: 0.5, G: 0.5, B: 0.5}, materials.Matte(refl), materials.Flat(Color{}))}[k.Ix[3]]
				weight := []float64{1, 0.75, 1, 0.5}[k.Ix[3]]
				var want Color
				var ls []tracer.Light
				at := func(a, b, c float64) Vec { return Add(Scale(a, face), Add(Scale(b, ta), Scale(c, tb))) }
				none := Obj(func(*tracer.Ray) tracer.HitRecord { return tracer.HitRecord{} })
				for _, kind := range seq {
					var d Vec
					var c Color
					seen := true
					switch kind {
					case 0: // in front
						d, c = at(5, 1, 0), Color{R: 0.6, G: 0.7, B: 0.2}
					case 1: // elsewhere in front
						d, c = at(1, -3, 2), Color{R: 2, G: 0.5, B: 1}
					case 2: // grazing
						d, c = at(0.02, 2, 7), Color{R: 9, G: 8, B: 7}
					case 3: // behind
						d, c, seen = at(-3, 1, 1), Color{R: 4, G: 5, B: 6}, false
					case 4: // switched off
						d, c = at(2, 2, -2), Color{}
					case 5: // in the shadow of a ball
						d, c, seen = at(4, 0, -8), Color{R: 3, G: 3, B: 3}, false
					case 6: // one colour only
						d, c = at(2, 0, 3), Color{G: 1}
					}
					ls = append(ls, &Light{Pos: Add(p, d), Intens: c, O: none})
					if seen {
						want = CAdd(want, CMul(Dot(Unit(d), face), c))
					}
				}
				ball := objects.Sphere(materials.Flat(Color{}), 0.5, Add(p, at(2, 0, -4)))
				in := Unit(at(-2, 0.3, 0.4))
				s := tracer.NewScene(1, ls, Plane(p, n, Vec{}, m), ball)
				ctx := tracer.NewCtx(1)
				ctx.Init(0, 0)
				got := s.LightField(ctx, &tracer.Ray{Start: Sub(p, Scale(3, in)), Dir: in})
				k.Op(1)
				k.Desc("lights %v", seq)
				if w := CMul(weight, CMul3(want, refl)); !CClose(got, w, 1e-5) {
					k.Fatal("lights %v, material %d: %v, want %v", seq, k.Ix[3], got, w)
				}
				k.Saw(k.Ix)
			})

			// any number of lights, of any strength and distance
			r.Space("manylights", []int{r.Pick(40, 200), 3, 4}, func(k *mc.K) {
				n := Unit(Vec{1, 2, 3})
				ta, tb := Orthogonal(n)
				p := Vec{0.3, -0.2, 0.5}
				dist := []float64{1e-2, 1, 1e5}[k.Ix[1]]
				str := []float64{1, 1e-8, 1e6, 0.01}[k.Ix[2]]
				var want Color
				var ls []tracer.Light
				for i := 0; i <= k.Ix[0]; i++ {
					a := float64(i) * 2.4
					d := Scale(dist, Add(Scale(0.3+float64(i%7), n), Add(Scale(3*math.Cos(a), ta), Scale(3*math.Sin(a), tb))))
					c := Color{R: str * float64(1+i%3), G: str * float64(i%2), B: str / float64(1+i)}
					ls = append(ls, &Light{Pos: Add(p, d), Intens: c, O: Nothing})
					want = CAdd(want, CMul(Dot(Unit(d), n), c))
				}
				refl := Color{R: 0.7, G: 0.6, B: 0.5}
				s := tracer.NewScene(1, ls, Plane(p, n, Vec{}, materials.Matte(refl)))
				in := Unit(Add(Scale(-2, n), Scale(0.7, ta)))
				ctx := tracer.NewCtx(1)
				ctx.Init(0, 0)
				got := s.LightField(ctx, &tracer.Ray{Start: Sub(p, Scale(3, in)), Dir: in})
				k.Op(1)
				if w := CMul3(want, refl); !CClose(CMul(1/str, got), CMul(1/str, w), 1e-3) {
					k.Fatal("%d lights at distance %v of strength %v: %v, want %v", k.Ix[0]+1, dist, str, got, w)
				}
				k.Saw(k.Ix)
			})

			// Light of lights and of the environment adds up, whatever their strengths.
			lit := []func() tracer.Material{
				func() tracer.Material { return materials.Matte(Color{R: 0.7, G: 0.6, B: 0.5}) },
				func() tracer.Material { return materials.Shiny(Color{R: 0.7, G: 0.6, B: 0.5}, 0.25) },
				func() tracer.Material {
					return materials.ReflectFresnel(1.5, materials.Matte(Color{R: 0.7, G: 0.6, B: 0.5}))
				},
				func() tracer.Material {
					return materials.BlendMap(Color{R: 0.3, G: 0.5, B: 0.5}, materials.Matte(Color{R: 0.7, G: 0.6, B: 0.5}), materials.Reflective(Color{R: 0.9, G: 0.8, B: 1}))
				},
				func() tracer.Material {
					return materials.Blend(0.2, materials.Matte(Color{R: 0.7, G: 0.6, B: 0.5}), 0.7, materials.Refractive(1.5))
				},
				func() tracer.Material {
					return materials.TwoSided(materials.Matte(Color{R: 0.7, G: 0.6, B: 0.5}), materials.Matte(Color{R: 0.1, G: 0.2, B: 0.3}))
				},
				func() tracer.Material { return materials.Transparent(Color{R: 0.7, G: 0.6, B: 0.5}, true) },
				func() tracer.Material { return materials.Reflective(Color{R: 0.7, G: 0.6, B: 0.5}) },
			}
			powers := []float64{1, 1e-10, 1e-4, 1e3, 1e6, 1e9}
			r.Space("superposition", []int{len(lit), len(powers), len(powers), 2, 3}, func(k *mc.K) {
				n := Unit([]Vec{{0, 1, 0}, {1, 2, 3}, {-1, 0.1, 0.2}}[k.Ix[4]])
				ta, tb := Orthogonal(n)
				p := Vec{0.3, -0.2, 0.5}
				at := func(a, b, c float64) Vec { return Add(p, Add(Scale(a, n), Add(Scale(b, ta), Scale(c, tb)))) }
				m := lit[k.Ix[0]]()
				side := float64(1 - 2*k.Ix[3])
				see := func(la, lb float64, sky float64, pass int) Color {
					ls := []tracer.Light{
						&Light{Pos: at(side*2, 1, 0.3), Intens: Color{R: la, G: 0.5 * la, B: 0.2 * la}, O: Nothing},
						&Light{Pos: at(side*3, -1, 1), Intens: Color{R: lb, G: lb, B: 2 * lb}, O: Nothing},
					}
					s := tracer.NewScene(2, ls, Plane(p, n, Vec{}, m), Sky(1e4, func(_, d Vec) Color {
						return Color{R: sky * (2 + d[0]), G: sky * (1.5 + d[1]), B: sky * (1.1 + d[2])}
					}))
					in := Unit(Sub(p, at(side*2, 0.7, -0.4)))
					ctx := tracer.NewCtx(1)
					ctx.Init(0, pass)
					k.Op(1)
					return s.LightField(ctx, &tracer.Ray{Start: Sub(p, Scale(3, in)), Dir: in})
				}
				a, b := powers[k.Ix[1]], powers[k.Ix[2]]
				for pass := 0; pass < r.Pick(4, 32); pass++ {
					one, other, env := see(1, 0, 0, pass), see(0, 1, 0, pass), see(0, 0, 1, pass)
					for i, c := range [][4]float64{{a, 0, b, 0}, {a, b, 0, 0}, {0, a, b, 0}, {a, b, a, 0}, {b, b, a, 0}} {
						got := see(c[0], c[1], c[2], pass)
						want := CAdd(CMul(c[0], one), CAdd(CMul(c[1], other), CMul(c[2], env)))
						if tol := 1e-12 * (c[0] + c[1] + c[2]); !CClose(got, want, tol) {
							k.Fatal("material %d, lights of %v and %v, environment of %v (case %d), pass %d: %v, want the sum %v", k.Ix[0], c[0], c[1], c[2], i, pass, got, want)
						}
					}
				}
				k.Saw(k.Ix)
			})

			// In a uniformly bright environment, a loss-less surface is as bright as the environment.
			r.Space("furnace", []int{8, 90, 3}, func(k *mc.K) {
				white := Color{R: 1, G: 1, B: 1}
				m := []tracer.Material{materials.Matte(white), materials.Reflective(white), materials.Refractive(1.5), materials.Refractive2(1.9, 1.2),
					materials.ReflectFresnel(1.5, materials.Matte(white)), materials.Shiny(white, 0.3), materials.Transparent(white, true), materials.ReflectFresnel(2, materials.Refractive(1.2))}[k.Ix[0]]
				n := []Vec{{0, 1, 0}, {1, 2, 3}, {-1, 0, 0.2}}[k.Ix[2]]
				u := Unit(n)
				ta, _ := Orthogonal(u)
				for side := -1.; side <= 1; side += 2 {
					th := float64(k.Ix[1]) * math.Pi / 180
					in := Unit(Add(Scale(side*math.Cos(th), u), Scale(math.Sin(th), ta)))
					for depth := 2; depth < 5; depth++ {
						s := tracer.NewScene(depth, nil, Plane(Vec{}, n, Vec{}, m), Sky(1e4, func(s, d Vec) Color { return white }))
						ctx := tracer.NewCtx(1)
						for pass := 0; pass < r.Pick(8, 64); pass++ {
							ctx.Init(0, pass)
							c := s.LightField(ctx, &tracer.Ray{Start: Scale(-3, in), Dir: in})
							k.Op(1)
							if !CClose(c, white, 1e-7) {
								k.Fail("material %d, incidence %v deg, side %v: brightness %v in a uniform environment of 1", k.Ix[0], k.Ix[1], side, c)
							}
						}
					}
				}
				k.Saw(k.Ix)
			})

			// The diffuse ray is distributed with the cosine of the angle with the normal.
			nd := r.Pick(9, 32)
			r.Space("diffuse", []int{nd, 2, 16}, func(k *mc.K) {
				n := append(Dirs(true), normals...)[k.Ix[0]]
				u := Unit(n)
				ta, tb := Orthogonal(u)
				face := u
				if k.Ix[1] == 1 {
					face = Scale(-1, u)
				}
				in := Unit(Add(Scale(-1, face), Scale(0.3, ta)))
				var dir Vec
				s := tracer.NewScene(2, nil, Plane(Vec{}, n, Vec{}, materials.Matte(Color{R: 1, G: 1, B: 1})), Sky(1e4, func(s, d Vec) Color { dir = d; return Color{R: 1} }))
				N := 900
				ctx := tracer.NewCtx(16)
				var m1, m2, ma, mb, maa, mbb, mab float64
				var cells [6][8]int
				for pass := 0; pass < N; pass++ {
					ctx.Init(k.Ix[2], pass)
					s.LightField(ctx, &tracer.Ray{Start: Scale(-3, in), Dir: in})
					k.Op(1)
					c, a, b := Dot(dir, face), Dot(dir, ta), Dot(dir, tb)
					if !(c >= -1e-9) {
						k.Fatal("diffuse ray %v goes into the surface (normal %v)", dir, face)
					}
					m1 += c
					m2 += c * c
					ma += a
					mb += b
					maa += a * a
					mbb += b * b
					mab += a * b
					i := int(6 * (a*a + b*b))
					j := int(8 * (math.Atan2(b, a)/(2*math.Pi) + 0.5))
					if i > 5 {
						i = 5
					}
					if j > 7 {
						j = 7
					}
					cells[i][j]++
				}
				f := 1 / float64(N)
				chk := func(what string, got, want float64) {
					if math.Abs(got*f-want) > 0.012 {
						k.Fail("normal %v: %s of the diffuse directions over %d passes: %v, want %v", face, what, N, got*f, want)
					}
				}
				chk("mean cosine", m1, 2./3)
				chk("mean squared cosine", m2, 0.5)
				chk("mean x", ma, 0)
				chk("mean y", mb, 0)
				chk("mean x2", maa, 0.25)
				chk("mean y2", mbb, 0.25)
				chk("mean xy", mab, 0)
				for i := range cells {
					for j := range cells[i] {
						if want := float64(N) / 48; math.Abs(float64(cells[i][j])-want) > 0.5*want {
							k.Fail("normal %v: %d of %d diffuse directions in cell %d,%d of equal probability 1/48", face, cells[i][j], N, i, j)
						}
					}
				}
				k.SawF(m1, m2)
			})
		})
}
