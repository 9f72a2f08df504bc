// L01: lights illuminate exactly as much as their visible surface implies.
package main

import (
	"fmt"
	"math"

	"github.com/barnex/bruteray/geom"
	"github.com/barnex/bruteray/tracer"
	"github.com/barnex/bruteray/tracer/lights"
	"github.com/barnex/bruteray/tracer/materials"
	"verif/mc"
	"verif/ref"
	. "verif/tx"
)

// area is a reference planar light: center, two half-axes, emitting to the side of n.
type area struct {
	name   string
	mk     func() tracer.Light
	b      Color
	c      Vec // center
	ex, ey Vec // half-axes
	n      Vec // direction of emission
	disk   bool
}

func (a *area) surface() float64 {
	s := 4 * Len(a.ex) * Len(a.ey)
	if a.disk {
		s *= math.Pi / 4
	}
	return s
}

func (a *area) transformed(name string, t *geom.AffineTransform, m ref.Sim) area {
	q := *a
	mk := a.mk
	q.name = name + "(" + a.name + ")"
	q.mk = func() tracer.Light { return lights.Transformed(mk(), t) }
	P := func(v Vec) Vec { x := m.Point(ref.V(v)); return Vec(x) }
	D := func(v Vec) Vec { x := m.Dir(ref.V(v)); return Vec(x) }
	q.c, q.ex, q.ey, q.n = P(a.c), D(a.ex), D(a.ey), Unit(D(a.n))
	return q
}

func main() {
	mc.Main("L01", "exploration",
		"A case is one (light, target point); all passes of several pixels are sampled. Every sample must lie on the visible surface of the light and carry the light that this bit of surface sends to the target; together they must cover the surface evenly. Point lights: inverse square law. Non-trivial: the target is lit.",
		func(r *mc.Run) {
			b := Color{R: 3, G: 1.5, B: 0.25}
			base := []area{
				{"rectangle", func() tracer.Light { return lights.RectangleLight(b, 2, 0.5, Vec{0.3, 1, -0.2}) }, b, Vec{0.3, 1, -0.2}, Vec{1, 0, 0}, Vec{0, 0, 0.25}, Vec{0, -1, 0}, false},
				{"square", func() tracer.Light { return lights.RectangleLight(b, 0.01, 0.01, Vec{0, 0, 0}) }, b, Vec{0, 0, 0}, Vec{0.005, 0, 0}, Vec{0, 0, 0.005}, Vec{0, -1, 0}, false},
				{"disk", func() tracer.Light { return lights.DiskLight(b, 1.6, Vec{-1, 2, 3}) }, b, Vec{-1, 2, 3}, Vec{0.8, 0, 0}, Vec{0, 0, 0.8}, Vec{0, -1, 0}, true},
				{"big disk", func() tracer.Light { return lights.DiskLight(b, 10, Vec{0, 0, 0}) }, b, Vec{0, 0, 0}, Vec{5, 0, 0}, Vec{0, 0, 5}, Vec{0, -1, 0}, true},
			}
			type tr struct {
				name string
				g    *geom.AffineTransform
				m    ref.Sim
			}
			var trs []tr
			for _, d := range []ref.V{{1, 2, 3}, {0, -5, 0.5}} {
				trs = append(trs, tr{"translate", geom.Translate(geom.Vec(d)), ref.Translate(d)})
			}
			for _, s := range []float64{2, 0.1} {
				trs = append(trs, tr{fmt.Sprint("scale", s), geom.Scale(Vec{1, 0, 0.5}, s), ref.ScaleAt(ref.V{1, 0, 0.5}, s)})
			}
			for _, ax := range []ref.V{{1, 0, 0}, {0, 0, 1}, {1, 2, 3}} {
				for _, a := range []float64{0.6, math.Pi / 2, math.Pi, -2} {
					trs = append(trs, tr{"rotate", geom.Rotate(Vec{0.5, 0, 1}, geom.Vec(ax), a), ref.RotateAt(ref.V{0.5, 0, 1}, ax, a)})
				}
			}
			all := append([]area{}, base...)
			for i := range base {
				for _, t := range trs {
					q := base[i].transformed(t.name, t.g, t.m)
					all = append(all, q)
					for j, t2 := range trs {
						if r.Thorough() || (j+i)%5 == 0 {
							all = append(all, q.transformed(t2.name, t2.g, t2.m))
						}
					}
				}
			}
			// targets relative to the light: (along ex, along ey, in front)
			targets := [][3]float64{{0, 0, 1}, {0, 0, 5}, {0, 0, 0.2}, {2, 0, 1}, {0, -2, 1}, {3, 2, 0.5}, {0.9, 0.9, 0.05}, {20, -3, 1}, {0, 0, -1}, {1, 0.5, -0.3}, {-4, 1, -2}, {0.5, 0.5, 100}, {0.2, -0.1, -1e-2}, {0, 0.3, -1e-3}}
			N := r.Pick(256, 1024)
			r.Space("area", []int{len(all), len(targets)}, func(k *mc.K) {
				a := all[k.Ix[0]]
				tt := targets[k.Ix[1]]
				l := a.mk()
				size := math.Max(Len(a.ex), Len(a.ey))
				x := Add(a.c, Add(Scale(tt[0], a.ex), Add(Scale(tt[1], a.ey), Scale(height(tt[2], size), a.n))))
				k.Desc("%s, target %v", a.name, x)
				if tt[2] < 0 {
					k.Trivial()
				}
				ctx := tracer.NewCtx(4)
				o := l.Object()
				lit := 0
				var cell [4][4]int
				for i := 0; i < N; i++ {
					ctx.Init(i%4, i/4)
					ctx.CurrentRecursionDepth = 1
					p, in := l.Sample(ctx, x)
					k.Op(1)
					rel := Sub(p, a.c)
					u, v, w := Dot(rel, a.ex)/Dot(a.ex, a.ex), Dot(rel, a.ey)/Dot(a.ey, a.ey), Dot(rel, a.n)
					if math.Abs(w) > 1e-4*(1+Len(a.c)) || math.Abs(u) > 1+1e-6 || math.Abs(v) > 1+1e-6 || (a.disk && u*u+v*v > 1+1e-6) {
						k.Fatal("sample %v is not on the light (u=%v v=%v, %v in front)", p, u, v, w)
					}
					if a.disk { // equal-area cells
						c, d := int(4*(u*u+v*v)), int(4*(math.Atan2(v, u)/(2*math.Pi)+0.5))
						cell[min(c, 3)][min(d, 3)]++
					} else {
						cell[min(int(2*(u+1)), 3)][min(int(2*(v+1)), 3)]++
					}
					if math.IsNaN(in.R + in.G + in.B) {
						k.Fatal("intensity %v", in)
					}
					delta := Sub(x, p)
					d := Len(delta)
					cos := Dot(delta, a.n) / d
					if tt[2] < 0 {
						if in != (Color{}) {
							k.Fatal("light %v received behind the light", in)
						}
					} else {
						want := CMul(a.surface()*cos/(math.Pi*d*d), a.b)
						// the sample is displaced from the surface by a tiny amount
						if !relClose(in.R, want.R, 1e-3) || !relClose(in.G, want.G, 1e-3) || !relClose(in.B, want.B, 1e-3) {
							k.Fatal("sample at %v: intensity %v, want %v", p, in, want)
						}
						lit++
					}
					// what the target sees in that direction is the light, at that distance
					if near := tt[2] < 0 && tt[2] > -0.1; i%16 == 0 && !near && (!a.disk || u*u+v*v < 0.999) && math.Abs(u) < 0.999 && math.Abs(v) < 0.999 && math.Abs(u-v) > 1e-3 && math.Abs(u+v) > 1e-3 {
						ray := tracer.Ray{Start: x, Dir: Scale(-1/d, delta)}
						h := o.Intersect(&ray)
						if math.Abs(h.T-d) > 1e-3*size*(1+1/math.Abs(cos)) {
							k.Fatal("sample at %v, distance %v, but the light is seen at distance %v", p, d, h.T)
						}
						s := tracer.NewScene(1, []tracer.Light{l})
						c2 := tracer.NewCtx(1)
						see := s.LightField(c2, &ray)
						want := a.b
						if tt[2] < 0 {
							want = Color{}
						}
						if !CClose(see, want, 1e-9) {
							k.Fatal("the target sees brightness %v, want %v", see, want)
						}
						k.Op(1)
					}
				}
				for i := range cell {
					for j := range cell[i] {
						if want := float64(N) / 16; math.Abs(float64(cell[i][j])-want) > 0.5*want {
							k.Fail("%d of %d samples in one of 16 parts of equal area", cell[i][j], N)
						}
					}
				}
				k.SawF(x[0], x[1], x[2])
				k.Saw(k.Ix[0])
			})
			// at every recursion level, with targets that alternate on one and the same light
			r.Space("alternating", []int{len(all), len(targets), 5}, func(k *mc.K) {
				a := all[k.Ix[0]]
				l := a.mk()
				depth := []int{1, 2, 3, 4, 9}[k.Ix[2]]
				size := math.Max(Len(a.ex), Len(a.ey))
				ctx := tracer.NewCtx(4)
				for i := 0; i < 48; i++ {
					tt := targets[k.Ix[1]]
					if i%2 == 1 {
						tt = targets[(k.Ix[1]+1+i/2)%len(targets)]
					}
					x := Add(a.c, Add(Scale(tt[0], a.ex), Add(Scale(tt[1], a.ey), Scale(height(tt[2], size), a.n))))
					k.Desc("%s, target %v, level %d", a.name, x, depth)
					ctx.Init(i%4, i/4)
					ctx.CurrentRecursionDepth = depth
					p, in := l.Sample(ctx, x)
					k.Op(1)
					rel := Sub(p, a.c)
					u, v, w := Dot(rel, a.ex)/Dot(a.ex, a.ex), Dot(rel, a.ey)/Dot(a.ey, a.ey), Dot(rel, a.n)
					if math.Abs(w) > 1e-4*(1+Len(a.c)) || math.Abs(u) > 1+1e-6 || math.Abs(v) > 1+1e-6 || (a.disk && u*u+v*v > 1+1e-6) {
						k.Fatal("sample %v is not on the light (u=%v v=%v, %v in front)", p, u, v, w)
					}
					delta := Sub(x, p)
					d := Len(delta)
					want := CMul(a.surface()*Dot(delta, a.n)/(math.Pi*d*d*d), a.b)
					if tt[2] < 0 {
						want = Color{}
					}
					if !relClose(in.R, want.R, 1e-3) || !relClose(in.G, want.G, 1e-3) || !relClose(in.B, want.B, 1e-3) {
						k.Fatal("sample at %v: intensity %v, want %v", p, in, want)
					}
				}
				k.Saw(k.Ix)
			})
			// outside of its outline a light is not seen
			r.Space("outline", []int{len(all)}, func(k *mc.K) {
				a := all[k.Ix[0]]
				o := a.mk().Object()
				size := math.Max(Len(a.ex), Len(a.ey))
				for _, side := range []float64{1, -1} {
					x := Add(a.c, Add(Scale(0.3, a.ex), Scale(side*1.7*size, a.n)))
					for i := -8; i <= 8; i++ {
						for j := -8; j <= 8; j++ {
							u, v := float64(i)*0.23+0.01, float64(j)*0.23-0.02
							p := Add(a.c, Add(Scale(u, a.ex), Scale(v, a.ey)))
							in := math.Abs(u) < 1 && math.Abs(v) < 1
							if a.disk {
								in = u*u+v*v < 1
							}
							h := o.Intersect(&tracer.Ray{Start: x, Dir: Unit(Sub(p, x))})
							k.Op(1)
							if (h.T > 0) != in {
								k.Fail("%s: point at (%v,%v) of the half-axes: seen=%v, want %v", a.name, u, v, h.T > 0, in)
							}
						}
					}
				}
				k.Saw(k.Ix)
			})
			// point lights
			pos := []Vec{{0, 0, 0}, {1, 2, 3}, {-0.5, 10, 0.1}, {100, 0, -3}}
			r.Space("point", []int{len(pos), 32, 5}, func(k *mc.K) {
				p := pos[k.Ix[0]]
				d := Dirs(true)[k.Ix[1]]
				dist := []float64{0.01, 0.5, 1, 2, 300}[k.Ix[2]]
				x := Add(p, Scale(dist, d))
				l := lights.PointLight(b, p)
				ctx := tracer.NewCtx(1)
				ctx.Init(0, 0)
				ctx.CurrentRecursionDepth = 1
				q, in := l.Sample(ctx, x)
				k.Op(1)
				if q != p {
					k.Fail("point light at %v sampled at %v", p, q)
				}
				if want := CMul(1/(4*math.Pi*dist*dist), b); !relClose(in.R, want.R, 1e-6) || !relClose(in.G, want.G, 1e-6) || !relClose(in.B, want.B, 1e-6) {
					k.Fail("point light at distance %v: %v, want %v", dist, in, want)
				}
				if h := l.Object().Intersect(&tracer.Ray{Start: x, Dir: Scale(-1, d)}); h.T > 0 {
					k.Fail("point light is visible")
				}
				k.Saw(k.Ix)
			})
			// moved point lights
			pmoves := []struct {
				name string
				g    *geom.AffineTransform
				m    ref.Sim
			}{
				{"translated", geom.Translate(Vec{1, -2, 3}), ref.Translate(ref.V{1, -2, 3})},
				{"rotated", geom.Rotate(Vec{0.5, 0, 1}, Vec{0.6, 0, 0.8}, 0.7), ref.RotateAt(ref.V{0.5, 0, 1}, ref.V{0.6, 0, 0.8}, 0.7)},
				{"yawed", geom.Yaw(2), ref.RotateAt(ref.V{}, ref.V{0, 1, 0}, 2)},
			}
			r.Space("moved point", []int{len(pos), 32, 5, len(pmoves), len(pmoves) + 1}, func(k *mc.K) {
				m := pmoves[k.Ix[3]]
				orig := lights.PointLight(b, pos[k.Ix[0]])
				l := lights.Transformed(orig, m.g)
				p := m.m.Point(ref.V(pos[k.Ix[0]]))
				if k.Ix[4] > 0 { // once more
					m := pmoves[k.Ix[4]-1]
					l = lights.Transformed(l, m.g)
					p = m.m.Point(p)
				}
				d := Dirs(true)[k.Ix[1]]
				dist := []float64{0.01, 0.5, 1, 2, 300}[k.Ix[2]]
				x := Add(Vec(p), Scale(dist, d))
				ctx := tracer.NewCtx(1)
				ctx.Init(0, 0)
				ctx.CurrentRecursionDepth = 1
				q, in := l.Sample(ctx, x)
				k.Op(1)
				if Len(Sub(q, Vec(p))) > 1e-9*(1+Len(Vec(p))) {
					k.Fail("point light at %v %s: sampled at %v", p, m.name, q)
				}
				if want := CMul(1/(4*math.Pi*dist*dist), b); !relClose(in.R, want.R, 1e-6) || !relClose(in.G, want.G, 1e-6) || !relClose(in.B, want.B, 1e-6) {
					k.Fail("point light %s, at distance %v: %v, want %v", m.name, dist, in, want)
				}
				if h := l.Object().Intersect(&tracer.Ray{Start: x, Dir: Scale(-1, d)}); h.T > 0 {
					k.Fail("point light is visible")
				}
				if q, _ := orig.Sample(ctx, x); q != pos[k.Ix[0]] {
					k.Fail("the original point light has moved from %v to %v", pos[k.Ix[0]], q)
				}
				k.Saw(k.Ix)
			})
			// the sun: direction, and brightness of a perpendicular matte surface
			diam := []float64{0.53 * math.Pi / 180, 0.05, 0.1}
			yaw := []float64{0, 45, 90, -90, 180, 200, -30}
			pitch := []float64{0.5, 10, 30, 60, 89.9, 90}
			r.Space("sun", []int{len(diam), len(yaw), len(pitch), 3}, func(k *mc.K) {
				const deg = math.Pi / 180
				y, p := yaw[k.Ix[1]]*deg, pitch[k.Ix[2]]*deg
				to := Vec{-math.Sin(y) * math.Cos(p), math.Sin(p), -math.Cos(y) * math.Cos(p)}
				k.Desc("diameter %v yaw %v pitch %v", diam[k.Ix[0]], yaw[k.Ix[1]], pitch[k.Ix[2]])
				l := lights.SunLight(b, diam[k.Ix[0]], y, p)
				at := []Vec{{0, 0, 0}, {5, 2, -3}, {-30, 0, 10}}[k.Ix[3]]
				ctx := tracer.NewCtx(4)
				scene := tracer.NewScene(1, []tracer.Light{l}, Plane(at, to, Vec{}, materials.Matte(Color{R: 1, G: 1, B: 1})))
				in := Unit(Add(Scale(-1, to), Vec{0.1, 0.05, -0.02}))
				var mean Vec
				var sum Color
				const N = 256
				for i := 0; i < N; i++ {
					ctx.Init(i%4, i/4)
					ctx.CurrentRecursionDepth = 1
					q, _ := l.Sample(ctx, at)
					d := Unit(Sub(q, at))
					ang := math.Acos(math.Min(1, Dot(d, to)))
					if ang > 0.505*diam[k.Ix[0]] {
						k.Fatal("sunlight from %v, %v rad away from the sun's direction %v", d, ang, to)
					}
					mean = Add(mean, d)
					ctx.CurrentRecursionDepth = 0
					sum = CAdd(sum, CMul(1./N, scene.LightField(ctx, &tracer.Ray{Start: Sub(at, in), Dir: in})))
					k.Op(2)
				}
				if ang := math.Acos(math.Min(1, Dot(Unit(mean), to))); ang > 0.05*diam[k.Ix[0]] {
					k.Fail("mean direction of sunlight %v, want %v", Unit(mean), to)
				}
				tol := 0.01 // small-angle approximation
				if !relClose(sum.R, b.R, tol) || !relClose(sum.G, b.G, tol) || !relClose(sum.B, b.B, tol) {
					k.Fail("matte surface facing the sun has brightness %v, want %v", sum, b)
				}
				// visible disk
				ta, tb := Orthogonal(to)
				for i := 0; i < 12; i++ {
					for _, f := range []float64{0, 0.4, 0.48, 0.52, 0.8} {
						a := float64(i)*0.52 + 0.1
						off := math.Tan(f * diam[k.Ix[0]])
						d := Unit(Add(to, Scale(off, Add(Scale(math.Cos(a), ta), Scale(math.Sin(a), tb)))))
						h := l.Object().Intersect(&tracer.Ray{Start: Vec{}, Dir: d})
						k.Op(1)
						if (h.T > 0) != (f < 0.5) {
							k.Fail("sun seen=%v at %v diameters from its center", h.T > 0, f)
						}
					}
				}
				k.Saw(k.Ix)
			})
		})
}

func relClose(a, b, tol float64) bool { return math.Abs(a-b) <= tol*math.Max(math.Abs(a), math.Abs(b)) }

// height is the distance in front of the light.
// The samples lie a tiny distance in front of it, the targets behind it are well further away than that.
func height(t, size float64) float64 {
	if t < 0 {
		return math.Min(t*size, -1e-4)
	}
	return t * size
}
