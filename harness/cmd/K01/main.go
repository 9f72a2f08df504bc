// K01: cameras cast the rays of the documented projection, whatever their position and orientation.
package main

import (
	"fmt"
	"math"

	"github.com/barnex/bruteray/tracer"
	"github.com/barnex/bruteray/tracer/cameras"
	"verif/mc"
	. "verif/tx"
)

func rotateVec(axis Vec, a float64, v Vec) Vec {
	k := Unit(axis)
	return Add(Scale(math.Cos(a), v), Add(Scale(math.Sin(a), Cross(k, v)), Scale(Dot(k, v)*(1-math.Cos(a)), k)))
}

// ypr rotates by yaw around Y, after pitch around X, after roll around Z.
func ypr(y, p, r float64, v Vec) Vec {
	return rotateVec(Vec{0, 1, 0}, y, rotateVec(Vec{1, 0, 0}, p, rotateVec(Vec{0, 0, 1}, r, v)))
}

// cam is a camera and its reference: the ray of (u,v) in the camera's own frame.
type cam struct {
	name string
	c    func() *cameras.WithTransform
	dir  func(u, v float64) Vec
	off  func(u, v float64) Vec // a point on the ray
	rot  func(v Vec) Vec
	at   bool    // starts exactly at off
	lens float64 // lens radius
	foc  float64 // distance of the focal plane
}

type op struct {
	name string
	f    func(c *cameras.WithTransform) *cameras.WithTransform
	rot  func(v Vec) Vec
	mv   Vec
}

func main() {
	mc.Main("K01", "exploration",
		"A case is one camera (projection and parameters) moved and turned by one sequence of operations; all (u,v) of a lattice are compared with the documented projection. For finite apertures, all lens positions of a number of passes are checked for focus and spread. Non-trivial: always.",
		func(r *mc.Run) {
			var cams []cam
			id := func(v Vec) Vec { return v }
			zero := func(u, v float64) Vec { return Vec{} }
			proj := func(fov float64) func(u, v float64) Vec {
				return func(u, v float64) Vec { return Unit(Vec{u - 0.5, v - 0.5, -0.5 / math.Tan(fov/2)}) }
			}
			for _, deg := range []float64{0.2, 1, 30, 60, 90, 120, 170, 178} {
				fov := deg * math.Pi / 180
				cams = append(cams, cam{fmt.Sprintf("Projective(%v deg)", deg), func() *cameras.WithTransform { return cameras.Projective(fov) }, proj(fov), zero, id, true, 0, 0})
				for _, fd := range []float64{0, 0.02, 0.5, 7, 300} {
					fd := fd
					cams = append(cams, cam{fmt.Sprintf("ProjectiveAperture(%v deg,0,%v)", deg, fd), func() *cameras.WithTransform { return cameras.ProjectiveAperture(fov, 0, fd) }, proj(fov), zero, id, true, 0, 0})
					if fd > 0 {
						for _, ap := range []float64{1e-4, 0.01, 0.3, 2.5} {
							ap := ap
							cams = append(cams, cam{fmt.Sprintf("ProjectiveAperture(%v deg,%v,%v)", deg, ap, fd), func() *cameras.WithTransform { return cameras.ProjectiveAperture(fov, ap, fd) }, proj(fov), zero, id, true, ap, fd})
						}
					}
				}
			}
			cams = append(cams, cam{"EnvironmentMap", cameras.EnvironmentMap, func(u, v float64) Vec {
				// u: around the horizon, the middle looks along -Z, more u is more to the right (+X); v: from -Y to +Y
				az, el := (u-0.5)*2*math.Pi, (v-0.5)*math.Pi
				return Vec{math.Sin(az) * math.Cos(el), math.Sin(el), -math.Cos(az) * math.Cos(el)}
			}, zero, id, true, 0, 0})
			for d := 0; d < 3; d++ {
				for _, size := range []float64{1, 5, 0.25} {
					d, size := d, size
					rot := []func(Vec) Vec{
						func(v Vec) Vec { return rotateVec(Vec{0, 1, 0}, math.Pi/2, v) },
						func(v Vec) Vec { return rotateVec(Vec{1, 0, 0}, -math.Pi/2, v) },
						id}[d]
					cams = append(cams, cam{fmt.Sprintf("Isometric(%d,%v)", d, size), func() *cameras.WithTransform { return cameras.Isometric(d, size) },
						func(u, v float64) Vec { return Vec{0, 0, -1} }, func(u, v float64) Vec { return Vec{(u - 0.5) * size, (v - 0.5) * size, 0} }, rot, false, 0, 0})
				}
			}
			ops := []op{{"nothing", func(c *cameras.WithTransform) *cameras.WithTransform { return c }, id, Vec{}}}
			for _, d := range []Vec{{1, 2, 3}, {-0.5, 0, 1e4}} {
				d := d
				ops = append(ops, op{fmt.Sprint("translate", d), func(c *cameras.WithTransform) *cameras.WithTransform { return c.Translate(d) }, id, d})
			}
			for _, a := range [][3]float64{{0.5, 0, 0}, {0, 0.4, 0}, {0, 0, -0.7}, {math.Pi / 2, 0, 0}, {math.Pi, -math.Pi / 2, 0}, {1.1, -0.6, 0.3}} {
				a := a
				ops = append(ops, op{fmt.Sprint("yawpitchroll", a), func(c *cameras.WithTransform) *cameras.WithTransform { return c.YawPitchRoll(a[0], a[1], a[2]) },
					func(v Vec) Vec { return ypr(a[0], a[1], a[2], v) }, Vec{}})
			}
			m := r.Pick(6, 17)
			check := func(k *mc.K, c cam, w *cameras.WithTransform, rot func(Vec) Vec, pos Vec, what string, passes int) {
				ctx := tracer.NewCtx(7)
				var far float64
				lo, hi := 0, m
				if c.name != "EnvironmentMap" { // portrait images
					lo, hi = -m/2, m+m/2
				}
				for i := 0; i <= m; i++ {
					for j := lo; j <= hi; j++ {
						u, v := float64(i)/float64(m), float64(j)/float64(m)
						ctx.Init((i+j+m)%7, i*j%5+i)
						d := rot(c.rot(c.dir(u, v)))
						o := Add(pos, rot(c.rot(c.off(u, v))))
						for p := 0; p < passes; p++ {
							ray := w.RayFrom(ctx, u, v)
							s, dir := ray.Start, ray.Dir
							ctx.PutRay(ray)
							k.Op(1)
							if math.Abs(Len(dir)-1) > 1e-9 {
								k.Fatal("%s: (%v,%v): direction %v not normalized", what, u, v, dir)
							}
							if c.lens == 0 {
								if !mc.CloseV(dir, d, 1e-9) {
									k.Fatal("%s: (%v,%v): looks in direction %v, want %v", what, u, v, dir, d)
								}
								rel := Sub(s, o)
								if c.at && Len(rel) > 1e-9*(1+Len(o)) {
									k.Fatal("%s: (%v,%v): starts at %v, want %v", what, u, v, s, o)
								}
								if !c.at {
									along := Dot(rel, d)
									if Len(Sub(rel, Scale(along, d))) > 1e-8 || along > -100 {
										k.Fatal("%s: (%v,%v): starts at %v, want on the line through %v along %v and well behind the image plane", what, u, v, s, o, d)
									}
								}
								k.SawF(dir[0], s[0])
								continue
							}
							// finite aperture: starts on the lens, goes through the focused point
							fwd := rot(c.rot(Vec{0, 0, -1}))
							rel := Sub(s, pos)
							if math.Abs(Dot(rel, fwd)) > 1e-9 || Len(rel) > c.lens*(1+1e-9) {
								k.Fatal("%s: (%v,%v): starts at %v, not on the lens of radius %v", what, u, v, s, c.lens)
							}
							far = math.Max(far, Len(rel))
							f := Add(pos, Scale(c.foc/Dot(d, fwd), d)) // the point on the focal plane
							to := Sub(f, s)
							if Len(Cross(Unit(to), dir)) > 1e-8 || Dot(to, dir) < 0 {
								k.Fatal("%s: (%v,%v): ray from %v in direction %v misses the focused point %v", what, u, v, s, dir, f)
							}
						}
					}
				}
				if c.lens > 0 && passes*m*m > 500 && far < 0.9*c.lens {
					k.Fatal("%s: of %d rays, none starts near the edge of the lens", what, passes*m*m)
				}
				k.Saw(what)
			}
			n := 3
			dims := []int{len(cams)}
			for i := 0; i < n; i++ {
				dims = append(dims, len(ops))
			}
			r.Space("moves", dims, func(k *mc.K) {
				c := cams[k.Ix[0]]
				w := c.c()
				w0 := w
				what := c.name
				pos := Vec{}
				rot := id
				type stage struct {
					w    *cameras.WithTransform
					rot  func(Vec) Vec
					pos  Vec
					what string
				}
				var stages []stage
				for _, i := range k.Ix[1:] {
					// another camera made from the same one
					if k.Ix[1] > 0 {
						o, q := ops[(i+3)%len(ops)], rot
						stages = append(stages, stage{o.f(w), func(v Vec) Vec { return o.rot(q(v)) }, Add(pos, o.mv), what + "." + o.name + ": made earlier"})
					}
					w = ops[i].f(w)
					pos = Add(pos, ops[i].mv)
					prev, o := rot, ops[i].rot
					rot = func(v Vec) Vec { return o(prev(v)) }
					what += "." + ops[i].name
				}
				k.Desc("%s", what)
				check(k, c, w, rot, pos, what, 1)
				check(k, c, w0, id, Vec{}, what+": original", 1) // not affected
				for _, s := range stages {
					check(k, c, s.w, s.rot, s.pos, s.what, 1)
				}
			})
			// the lens is sampled uniformly
			r.Space("lens", []int{len(cams)}, func(k *mc.K) {
				c := cams[k.Ix[0]]
				if c.lens == 0 {
					k.Trivial()
					return
				}
				w := c.c()
				ctx := tracer.NewCtx(1)
				ctx.Init(0, 0)
				N := 20000
				var cell [4][6]int
				for i := 0; i < N; i++ {
					ray := w.RayFrom(ctx, 0.3, 0.6)
					x, y := ray.Start[0]/c.lens, ray.Start[1]/c.lens
					ctx.PutRay(ray)
					a, b := int(4*(x*x+y*y)), int(6*(math.Atan2(y, x)/(2*math.Pi)+0.5))
					if a > 3 {
						a = 3
					}
					if b > 5 {
						b = 5
					}
					cell[a][b]++
				}
				k.Op(N)
				for a := range cell {
					for b := range cell[a] {
						if d := math.Abs(float64(cell[a][b]) - float64(N)/24); d > 300 { // more than 10 sigma
							k.Fail("%s: %d of %d lens positions in an equal-area cell", c.name, cell[a][b], N)
						}
					}
				}
				k.Saw(k.Ix)
			})
			// nonsensical fields of view are refused
			bad := []float64{0, -1, math.Pi, 4}
			r.Space("invalid", []int{len(bad)}, func(k *mc.K) {
				defer func() {
					if recover() == nil {
						k.Fail("field of view %v accepted", bad[k.Ix[0]])
					}
				}()
				cameras.Projective(bad[k.Ix[0]])
				k.Saw(k.Ix)
			})
		})
}
