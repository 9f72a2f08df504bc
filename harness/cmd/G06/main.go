// G06: affine transforms compose, invert, and act on points and directions as documented.
package main

import (
	"fmt"
	"math"

	"github.com/barnex/bruteray/geom"
	"verif/mc"
	. "verif/tx"
)

// aff is a reference transform: y = sum_j x_j*Col[j] + B.
type aff struct {
	C [3]Vec
	B Vec
}

func (t aff) dir(x Vec) Vec {
	return Add(Scale(x[0], t.C[0]), Add(Scale(x[1], t.C[1]), Scale(x[2], t.C[2])))
}
func (t aff) point(x Vec) Vec { return Add(t.dir(x), t.B) }

// rotateVec is Rodrigues' formula: counterclockwise around axis.
func rotateVec(axis Vec, a float64, v Vec) Vec {
	k := Unit(axis)
	return Add(Scale(math.Cos(a), v), Add(Scale(math.Sin(a), Cross(k, v)), Scale(Dot(k, v)*(1-math.Cos(a)), k)))
}

func fromFunc(f func(Vec) Vec) aff {
	b := f(Vec{})
	return aff{[3]Vec{Sub(f(Vec{1, 0, 0}), b), Sub(f(Vec{0, 1, 0}), b), Sub(f(Vec{0, 0, 1}), b)}, b}
}

type gen struct {
	name string
	mk   func() *geom.AffineTransform
	f    func(Vec) Vec
	det  float64
}

func gens() []gen {
	var g []gen
	add := func(name string, det float64, mk func() *geom.AffineTransform, f func(Vec) Vec) {
		g = append(g, gen{name, mk, f, det})
	}
	add("unit", 1, geom.UnitTransform, func(x Vec) Vec { return x })
	for _, d := range []Vec{{1, 0, 0}, {-0.5, 2, 3.25}} {
		d := d
		add(fmt.Sprint("translate", d), 1, func() *geom.AffineTransform { return geom.Translate(d) }, func(x Vec) Vec { return Add(x, d) })
	}
	for _, o := range []Vec{{}, {1, -2, 0.5}} {
		for _, s := range []float64{2, 0.3, -1} {
			o, s := o, s
			add(fmt.Sprint("scale", o, s), s*s*s, func() *geom.AffineTransform { return geom.Scale(o, s) }, func(x Vec) Vec { return Add(o, Scale(s, Sub(x, o))) })
		}
	}
	for _, o := range []Vec{{}, {0.5, 1, -1.5}} {
		for _, ax := range []Vec{{1, 0, 0}, {0, 2, 0}, {0, 0, 1}, {1, 2, -0.5}} {
			for _, a := range []float64{math.Pi / 2, -math.Pi / 2, math.Pi, 0.7, -2.5} {
				o, ax, a := o, ax, a
				add(fmt.Sprint("rotate", o, ax, a), 1, func() *geom.AffineTransform { return geom.Rotate(o, ax, a) }, func(x Vec) Vec { return Add(o, rotateVec(ax, a, Sub(x, o))) })
			}
		}
	}
	for _, a := range []float64{0.4, math.Pi / 2, -1.2} {
		a := a
		add(fmt.Sprint("yaw", a), 1, func() *geom.AffineTransform { return geom.Yaw(a) }, func(x Vec) Vec { return rotateVec(Vec{0, 1, 0}, a, x) })
		add(fmt.Sprint("pitch", a), 1, func() *geom.AffineTransform { return geom.Pitch(a) }, func(x Vec) Vec { return rotateVec(Vec{1, 0, 0}, a, x) })
		add(fmt.Sprint("roll", a), 1, func() *geom.AffineTransform { return geom.Roll(a) }, func(x Vec) Vec { return rotateVec(Vec{0, 0, 1}, a, x) })
		for _, b := range []float64{0.3, -math.Pi / 2} {
			for _, c := range []float64{0, 1.1} {
				b, c := b, c
				add(fmt.Sprint("yawpitchroll", a, b, c), 1, func() *geom.AffineTransform { return geom.YawPitchRoll(a, b, c) }, func(x Vec) Vec {
					return rotateVec(Vec{0, 1, 0}, a, rotateVec(Vec{1, 0, 0}, b, rotateVec(Vec{0, 0, 1}, c, x)))
				})
			}
		}
	}
	for _, b := range [][4]Vec{{{0, 0, 0}, {2, 0, 0}, {0, 3, 0}, {0, 0, 0.5}}, {{1, 2, 3}, {2, 2, 3.5}, {0.5, 3, 3}, {1, 1.7, 5}}, {{-1, 0, 2}, {-1, 1, 2}, {-2, 0, 2}, {-1, 0, 3}}} {
		b := b
		f := func(x Vec) Vec {
			y := b[0]
			for i := 0; i < 3; i++ {
				y = Add(y, Scale(x[i], Sub(b[i+1], b[0])))
			}
			return y
		}
		t := fromFunc(f)
		add(fmt.Sprint("mapbase", b), Dot(t.C[0], Cross(t.C[1], t.C[2])), func() *geom.AffineTransform { return geom.MapBaseTo(b[0], b[1], b[2], b[3]) }, f)
	}
	return g
}

func main() {
	mc.Main("G06", "exploration",
		"A case is one composition of up to N transforms from a list of all kinds, built in each of the documented ways (ComposeLR, Before, After), applied forwards and backwards to a set of points and directions and compared with applying the parts one by one. Non-trivial: always.",
		func(r *mc.Run) {
			gs := gens()
			if !r.Thorough() { // fewer rotations
				var q []gen
				for i, g := range gs {
					if len(g.name) < 6 || g.name[:6] != "rotate" || i%3 == 0 {
						q = append(q, g)
					}
				}
				gs = q
			}
			pts := []Vec{{0, 0, 0}, {1, 0, 0}, {0, 1, 0}, {0, 0, 1}, {-2.5, 0.75, 3.25}, {100, -20, 3}}
			for n := 1; n <= 3; n++ {
				n := n
				dims := make([]int, n)
				for i := range dims {
					dims[i] = len(gs)
				}
				r.Space(fmt.Sprintf("compose-%d", n), dims, func(k *mc.K) {
					var ts []*geom.AffineTransform
					var want = aff{[3]Vec{{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}, Vec{}}
					f := func(x Vec) Vec { return x }
					for _, i := range k.Ix {
						ts = append(ts, gs[i].mk())
						prev, g := f, gs[i].f
						f = func(x Vec) Vec { return g(prev(x)) }
						k.Desc("%s", gs[i].name)
					}
					want = fromFunc(f)
					orig := make([]geom.AffineTransform, n)
					for i := range ts {
						orig[i] = *ts[i]
					}
					forms := []*geom.AffineTransform{geom.ComposeLR(ts...)}
					b := ts[0]
					a := ts[0]
					for i := 1; i < n; i++ {
						b = b.Before(ts[i])
						a = ts[i].After(a)
					}
					forms = append(forms, b, a)
					if n == 3 {
						forms = append(forms, ts[0].Before(ts[1].Before(ts[2])), ts[2].After(ts[1].After(ts[0])))
					}
					for fi, t := range forms {
						inv := t.Inverse()
						for _, p := range pts {
							k.Op(4)
							y, d := t.TransformPoint(p), t.TransformDir(p)
							if !mc.CloseV(y, want.point(p), 1e-9) {
								k.Fatal("form %d: point %v -> %v, want %v", fi, p, y, want.point(p))
							}
							if !mc.CloseV(d, want.dir(p), 1e-9) {
								k.Fatal("form %d: direction %v -> %v, want %v", fi, p, d, want.dir(p))
							}
							if q := inv.TransformPoint(y); !mc.CloseV(q, p, 1e-8) {
								k.Fatal("form %d: inverse of point %v is %v, want %v", fi, y, q, p)
							}
							if q := inv.TransformDir(d); !mc.CloseV(q, p, 1e-8) {
								k.Fatal("form %d: inverse of direction %v is %v, want %v", fi, d, q, p)
							}
							k.SawF(y[0], y[1], y[2])
						}
						unit := t.Before(inv)
						if !mc.CloseV(unit.TransformPoint(Vec{3, 4, 5}), Vec{3, 4, 5}, 1e-8) {
							k.Fatal("transform followed by its inverse moves points")
						}
					}
					for i := range ts {
						if *ts[i] != orig[i] {
							k.Fatal("composing or inverting modified transform %d", i)
						}
					}
				})
			}
			// one transform, with parameters of any size
			axes := []Vec{{1, 0, 0}, {0, 1, 0}, {0, 0, -1}, {0.6, 0, 0.8}, {-0.48, 0.6, 0.64}, {1e-4, 1, -1e-4}}
			lens := []float64{1e-3, 0.02, 0.5, 0.999, 1, 1.001, 3, 1e3}
			angles := []float64{0, 1e-6, -0.01, 0.3, math.Pi / 4, -math.Pi / 3, math.Pi / 2, 2.5, -math.Pi, 4, 3 * math.Pi / 2, -5.5, 2 * math.Pi, 7, -100}
			scales := []float64{1e-3, 0.1, 0.999, 1, 1.001, 8, 1e3, -0.01, -1, -50}
			origins := []Vec{{0, 0, 0}, {1e-3, 0, 0}, {0.5, 1, -1.5}, {-300, 20, 1000}}
			r.Space("single", []int{len(axes), len(lens), len(angles), len(origins), 2}, func(k *mc.K) {
				o := origins[k.Ix[3]]
				var t *geom.AffineTransform
				var f func(Vec) Vec
				if k.Ix[4] == 0 {
					ax, a := Scale(lens[k.Ix[1]], axes[k.Ix[0]]), angles[k.Ix[2]]
					t = geom.Rotate(o, ax, a)
					f = func(x Vec) Vec { return Add(o, rotateVec(ax, a, Sub(x, o))) }
					k.Desc("rotation about %v at %v by %v", ax, o, a)
				} else if k.Ix[2] < len(scales) {
					s, d := scales[k.Ix[2]], Scale(lens[k.Ix[1]], axes[k.Ix[0]])
					t = geom.Scale(o, s).Before(geom.Translate(d))
					f = func(x Vec) Vec { return Add(d, Add(o, Scale(s, Sub(x, o)))) }
					k.Desc("scaling at %v by %v, translation by %v", o, s, d)
				} else {
					k.Trivial()
					return
				}
				inv := t.Inverse()
				for _, p := range pts {
					k.Op(2)
					tol := 1e-9 * (1 + Len(o))
					y := t.TransformPoint(p)
					if !mc.CloseV(y, f(p), tol) {
						k.Fatal("point %v -> %v, want %v", p, y, f(p))
					}
					if d, w := t.TransformDir(p), Sub(f(p), f(Vec{})); !mc.CloseV(d, w, tol) {
						k.Fatal("direction %v -> %v, want %v", p, d, w)
					}
					if q := inv.TransformPoint(y); !mc.CloseV(q, p, 1e3*tol) {
						k.Fatal("inverse of point %v is %v, want %v", y, q, p)
					}
					k.SawF(y[0], y[1], y[2])
				}
			})
			// long chains of two alternating rigid transforms
			var rigid []gen
			for _, g := range gs {
				if math.Abs(g.det) == 1 && g.name != "unit" {
					rigid = append(rigid, g)
				}
			}
			r.Space("chains", []int{len(rigid), len(rigid), r.Pick(3, 6)}, func(k *mc.K) {
				n := []int{8, 33, 100, 4, 64, 257}[k.Ix[2]]
				var ts []*geom.AffineTransform
				var unf []func(Vec) Vec
				t := geom.UnitTransform()
				for i := 0; i < n; i++ {
					g := rigid[k.Ix[i%2]]
					ts = append(ts, g.mk())
					unf = append(unf, g.f)
					t = t.Before(ts[i])
				}
				f := func(x Vec) Vec {
					for _, g := range unf {
						x = g(x)
					}
					return x
				}
				k.Desc("%d times %s, %s", n, rigid[k.Ix[0]].name, rigid[k.Ix[1]].name)
				c := geom.ComposeLR(ts...)
				inv := c.Inverse()
				for _, p := range pts {
					k.Op(3)
					w := f(p)
					if y := c.TransformPoint(p); !mc.CloseV(y, w, 1e-7) {
						k.Fatal("point %v -> %v, want %v", p, y, w)
					}
					if y := t.TransformPoint(p); !mc.CloseV(y, w, 1e-7) {
						k.Fatal("one after another: point %v -> %v, want %v", p, y, w)
					}
					if q := inv.TransformPoint(w); !mc.CloseV(q, p, 1e-5) {
						k.Fatal("inverse of point %v is %v, want %v", w, q, p)
					}
					k.SawF(w[0], w[1], w[2])
				}
			})
			// a fixed point stays fixed
			os := []Vec{{0, 0, 0}, {1, 2, 3}, {-5, 0.5, 100}}
			r.Space("with-origin", []int{len(gs), len(os), len(os)}, func(k *mc.K) {
				g := gs[k.Ix[0]]
				o := os[k.Ix[1]]
				t := g.mk()
				w := t.WithOrigin(o)
				lin := fromFunc(g.f)
				x := os[k.Ix[2]]
				k.Op(1)
				want := Add(Add(o, lin.dir(Sub(x, o))), lin.B)
				if got := w.TransformPoint(x); !mc.CloseV(got, want, 1e-9) {
					k.Fail("%s with origin %v: %v -> %v, want %v", g.name, o, x, got, want)
				}
				k.Saw(k.Ix)
			})
			// vector algebra
			vs := append(Dirs(true), Vec{3, 4, 12}, Vec{-1e-8, 2e5, 7}, Vec{0.1, 0.2, 0.3})
			r.Space("vectors", []int{len(vs), len(vs)}, func(k *mc.K) {
				a, b := vs[k.Ix[0]], vs[k.Ix[1]]
				a0, b0 := a, b
				k.Op(10)
				chk := func(what string, got, want Vec) {
					if !mc.CloseV(got, want, 1e-12) {
						k.Fail("%s of %v,%v: %v, want %v", what, a, b, got, want)
					}
				}
				chk("Add", a.Add(b), Add(a, b))
				chk("Sub", a.Sub(b), Sub(a, b))
				chk("Mul", a.Mul(2.5), Scale(2.5, a))
				chk("MAdd", a.MAdd(-1.5, b), Add(a, Scale(-1.5, b)))
				chk("Cross", a.Cross(b), Cross(a, b))
				chk("Normalized", a.Normalized(), Unit(a))
				c := a
				c.Normalize()
				chk("Normalize", c, Unit(a))
				if !mc.Close(a.Dot(b), Dot(a, b), 1e-12) || !mc.Close(a.Len(), Len(a), 1e-12) || !mc.Close(a.Len2(), Dot(a, a), 1e-12) {
					k.Fail("Dot, Len, Len2 of %v,%v", a, b)
				}
				if a != a0 || b != b0 {
					k.Fail("operands modified")
				}
				k.Saw(k.Ix)
			})
		})
}
