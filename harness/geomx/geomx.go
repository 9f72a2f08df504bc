// Package geomx pairs real objects with their reference shapes, and compares them ray by ray.
package geomx

import (
	"math"

	"github.com/barnex/bruteray/api"
	"github.com/barnex/bruteray/geom"
	"github.com/barnex/bruteray/imagef/colorf"
	"github.com/barnex/bruteray/tracer"
	"github.com/barnex/bruteray/tracer/objects"
	"verif/mc"
	"verif/ref"
)

type V = ref.V

// Mat is a material recognizable by its number.
type Mat int

func (m Mat) Shade(ctx *tracer.Ctx, s *tracer.Scene, r *tracer.Ray, h tracer.HitCoords) colorf.Color {
	return colorf.Color{R: float64(m)}
}

// Pair is a real object and its reference shape.
type Pair struct {
	Name  string
	O     objects.Interface
	R     ref.Shape
	C     V    // where it is
	Half  V    // how big it is
	Solid bool // has an inside
}

func GV(v V) geom.Vec { return geom.Vec{v[0], v[1], v[2]} }
func RV(v geom.Vec) V { return V{v[0], v[1], v[2]} }

// ---- constructors

func Sphere(m int, d float64, c V) Pair {
	return Pair{"sphere", api.Sphere(Mat(m), d, GV(c)).Interface, ref.Sphere{C: c, R: d / 2, Mat: m}, c, V{d / 2, d / 2, d / 2}, true}
}

func Cyl(m, ax int, d, h float64, c V) Pair {
	half := V{d / 2, d / 2, d / 2}
	half[ax] = h / 2
	return Pair{"cylinder" + string("XYZ"[ax]), cylDir(m, ax, d, h, c), ref.Cyl{C: c, Ax: ax, R: d / 2, H: h, Mat: m}, c, half, true}
}

func cylDir(m, ax int, d, h float64, c V) objects.Interface {
	switch ax {
	case 0:
		return api.CylinderX(Mat(m), d, h, GV(c)).Interface
	case 2:
		return api.CylinderZ(Mat(m), d, h, GV(c)).Interface
	}
	return objects.CylinderDir(Mat(m), ax, d, h, GV(c))
}

func ao(p Pair) api.Object { return api.Object{Interface: p.O} }

func CylY(m int, d, h float64, c V) Pair {
	return Pair{"cylinder", api.Cylinder(Mat(m), d, h, GV(c)).Interface, ref.Cyl{C: c, Ax: 1, R: d / 2, H: h, Mat: m}, c, V{d / 2, h / 2, d / 2}, true}
}

func Capped(m int, d, h float64, c V) Pair {
	half := V{d / 2, h / 2, d / 2}
	return Pair{"capped-cylinder", api.CylinderWithCaps(Mat(m), d, h, GV(c)).Interface,
		ref.And{A: ref.Cyl{C: c, Ax: 1, R: d / 2, H: 3*h + 1, Mat: m}, B: ref.Box{Min: c.Sub(half), Max: c.Add(half), Mat: m}}, c, half, true}
}

func Box(m int, dx, dy, dz float64, c V) Pair {
	half := V{dx / 2, dy / 2, dz / 2}
	return Pair{"box", api.Box(Mat(m), dx, dy, dz, GV(c)).Interface, ref.Box{Min: c.Sub(half), Max: c.Add(half), Mat: m}, c, half, true}
}

func BoxBounds(m int, min, max V) Pair {
	return Pair{"box-with-bounds", api.BoxWithBounds(Mat(m), GV(min), GV(max)).Interface, ref.Box{Min: min, Max: max, Mat: m}, min.Add(max).Mul(.5), max.Sub(min).Mul(.5), true}
}

func quadRef(m int, a, b, c, d V, smooth bool) ref.Shape {
	n1 := b.Sub(a).Cross(d.Sub(a)).Unit()
	n2 := d.Sub(c).Cross(b.Sub(c)).Unit()
	ns := n1.Add(n2).Unit()
	return ref.Group{
		ref.Tri{P: [3]V{a, b, d}, N: [3]V{n1, ns, ns}, UV: [3][2]float64{{0, 0}, {1, 0}, {0, 1}}, Mat: m},
		ref.Tri{P: [3]V{c, d, b}, N: [3]V{n2, ns, ns}, UV: [3][2]float64{{1, 1}, {0, 1}, {1, 0}}, Mat: m},
	}
}

func hull(p ...V) (c, half V) {
	lo, hi := p[0], p[0]
	for _, x := range p {
		for i := range x {
			lo[i] = math.Min(lo[i], x[i])
			hi[i] = math.Max(hi[i], x[i])
		}
	}
	return lo.Add(hi).Mul(.5), hi.Sub(lo).Mul(.5)
}

func Quad(m int, a, b, c, d V) Pair {
	ce, ha := hull(a, b, c, d)
	return Pair{"quadrilateral", objects.Quadrilateral(Mat(m), GV(a), GV(b), GV(c), GV(d)), quadRef(m, a, b, c, d, true), ce, ha, false}
}

func RectV(m int, o, a, b V) Pair {
	c := a.Add(b).Sub(o)
	ce, ha := hull(o, a, b, c)
	return Pair{"rectangle-with-vertices", api.RectangleWithVertices(Mat(m), GV(o), GV(a), GV(b)).Interface, quadRef(m, o, a, c, b, false), ce, ha, false}
}

func Rect(m int, w, d float64, c V) Pair {
	o, a, b := c.Add(V{-w / 2, 0, -d / 2}), c.Add(V{-w / 2, 0, d / 2}), c.Add(V{w / 2, 0, -d / 2})
	return Pair{"rectangle", api.Rectangle(Mat(m), w, d, GV(c)).Interface, quadRef(m, o, a, a.Add(b).Sub(o), b, false), c, V{w / 2, 0, d / 2}, false}
}

// round limits a surface to a vertical cylinder.
type round struct {
	c V
	r float64
}

func (o round) Hits(s, d V) []ref.Hit { return nil }
func (o round) Inside(p V) int {
	q := p.Sub(o.c)
	x := o.r - math.Hypot(q[0], q[2])
	m := 1e-5 * (1 + o.r)
	switch {
	case x > m:
		return 1
	case x < -m:
		return -1
	}
	return 0
}

func Disk(m int, d float64, c V) Pair {
	return Pair{"disk", objects.Disk(Mat(m), d, GV(c)), ref.Restrict{A: Rect(m, d, d, c).R, B: round{c, d / 2}}, c, V{d / 2, 0, d / 2}, false}
}

func Tri(m int, a, b, c V) Pair {
	ce, ha := hull(a, b, c)
	return Pair{"triangle", objects.Triangle(Mat(m), GV(a), GV(b), GV(c)),
		ref.Tri{P: [3]V{a, b, c}, UV: [3][2]float64{{0, 0}, {1, 0}, {0, 1}}, Mat: m}, ce, ha, false}
}

func Backdrop(m int) Pair {
	return Pair{"backdrop", api.Backdrop(Mat(m)).Interface, ref.Backdrop{Mat: m}, V{}, V{1, 1, 1}, false}
}

// ---- rays

// Ray is a start point and direction.
type Ray struct{ S, D V }

var (
	axisDirs = dirs26()
	generic  = []V{{0.3712, 0.8541, -0.3631}, {-0.7321, 0.1253, 0.6691}, {0.1117, -0.4493, 0.8867}, {-0.5673, -0.5371, -0.6241},
		{0.9553, 0.0131, -0.2953}, {0.0071, 0.9971, 0.0757}, {-0.0213, 0.0831, 0.9961}, {0.6323, -0.7127, 0.3019}}
)

func dirs26() []V {
	var d []V
	for x := -1; x <= 1; x++ {
		for y := -1; y <= 1; y++ {
			for z := -1; z <= 1; z++ {
				if x != 0 || y != 0 || z != 0 {
					d = append(d, V{float64(x), float64(y), float64(z)}.Unit())
				}
			}
		}
	}
	return d
}

// Lattice returns n^3 points filling the box c±f*half, offset off from symmetric positions.
func Lattice(c, half V, f float64, n int, off float64) []V {
	var ps []V
	pos := func(i int) float64 {
		if n == 1 {
			return 0
		}
		return 2*float64(i)/float64(n-1) - 1
	}
	for x := 0; x < n; x++ {
		for y := 0; y < n; y++ {
			for z := 0; z < n; z++ {
				p := V{pos(x), pos(y), pos(z)}
				q := V{}
				for i := range q {
					h := half[i]
					if h == 0 {
						h = 0.3 * half.MaxAbs()
					}
					q[i] = c[i] + f*h*p[i] + off*h*(0.0173*float64(i+1)+0.0031*float64(x+2*y+3*z))
				}
				ps = append(ps, q)
			}
		}
	}
	return ps
}

// Starts (more at higher levels) are the ray start points for an object at c with half-size half.
func Starts(c, half V, lvl int) []V {
	n := 3 + lvl
	ps := []V{c}                                    // exactly the center
	ps = append(ps, Lattice(c, half, 0.6, n, 1)...) // inside
	ps = append(ps, Lattice(c, half, 1.7, n, 1)...) // around
	ps = append(ps, Lattice(c, half, 3, 3, 0)...)   // exactly symmetric positions outside
	ps = append(ps, Lattice(c, half, 40, 2, 1)...)  // far away
	if lvl > 0 {
		ps = append(ps, Lattice(c, half, 1.25, 4, 1)...)
		ps = append(ps, Lattice(c, half, 400, 2, 1)...)
	}
	return ps
}

// Long enables very long direction vectors. Boolean combinations march in steps
// of the ray parameter, so that these are meaningful for simple objects only.
var Long = false

// Rays from start s for an object at c: fixed directions and directions towards target points.
func Rays(s, c, half V, lvl int) []Ray {
	var rs []Ray
	for _, d := range axisDirs {
		rs = append(rs, Ray{s, d})
	}
	long := func(l float64) float64 {
		if Long {
			return l
		}
		return 1
	}
	for i, d := range generic {
		rs = append(rs, Ray{s, d.Mul([]float64{1, 0.37, 2.5, 1, 1e-3, long(1e3), 1, 1e-6}[i%8])}) // the direction need not have unit length
		rs = append(rs, Ray{s, d.Mul([]float64{-1, -1, -long(1e6), -1, -1, -1e-5, -long(30), -1}[i%8])})
	}
	n := 4 + lvl
	for _, t := range Lattice(c, half, 0.93, n, 1) {
		if d := t.Sub(s); d.Len() > 1e-3*half.MaxAbs() {
			rs = append(rs, Ray{s, d.Unit()})
		}
	}
	return rs
}

// ---- comparison

// Stat counts rays by outcome.
type Stat struct{ Rays, Hits, Misses, Unsure int }

func (st *Stat) Report(r *mc.Run) {
	r.AddExtra("rays", int64(st.Rays))
	r.AddExtra("rays_hit", int64(st.Hits))
	r.AddExtra("rays_missed", int64(st.Misses))
	r.AddExtra("rays_not_specified", int64(st.Unsure))
}

// Options of the comparison.
type Options struct {
	NoLocal, NoNormal, NoMat bool
	Tol                      float64
}

// CheckRay intersects one ray with the object and compares to the reference.
func CheckRay(k *mc.K, p *Pair, ray Ray, st *Stat, opt Options) {
	r := tracer.Ray{Start: GV(ray.S), Dir: GV(ray.D)}
	h := p.O.Intersect(&r)
	k.Op(1)
	st.Rays++
	want, hit, certain := ref.First(p.R, ray.S, ray.D)
	if !certain {
		st.Unsure++
		return
	}
	got := h.T > 0
	if got != hit {
		k.Fail("%s: ray start %v dir %v: hit=%v (T=%v), want hit=%v (T=%v normal %v)", p.Name, ray.S, ray.D, got, h.T, hit, want.T, want.N)
		return
	}
	if !hit {
		st.Misses++
		return
	}
	st.Hits++
	tol := opt.Tol
	if tol == 0 {
		tol = 1e-6
	}
	sc := 1 + ray.S.MaxAbs() + p.C.MaxAbs()
	if !(math.Abs(h.T-want.T)*ray.D.Len() <= tol*sc+1e-9*want.T) {
		k.Fail("%s: ray start %v dir %v: T=%v, want %v", p.Name, ray.S, ray.D, h.T, want.T)
		return
	}
	if !opt.NoNormal {
		n := RV(h.Normal)
		if l := n.Len(); !(l > 0) || math.IsInf(l, 0) {
			k.Fail("%s: ray start %v dir %v: bad normal %v", p.Name, ray.S, ray.D, n)
			return
		}
		if e := n.Unit().Sub(want.N).MaxAbs(); !(e <= 100*tol*sc) {
			k.Fail("%s: ray start %v dir %v: normal %v, want %v", p.Name, ray.S, ray.D, n.Unit(), want.N)
			return
		}
	}
	if !opt.NoLocal {
		if e := RV(h.Local).Sub(want.Local).MaxAbs(); !(e <= 10*tol*sc) {
			k.Fail("%s: ray start %v dir %v: local coordinates %v, want %v", p.Name, ray.S, ray.D, h.Local, want.Local)
			return
		}
	}
	if !opt.NoMat {
		if m, ok := h.Material.(Mat); !ok || int(m) != want.Mat {
			k.Fail("%s: ray start %v dir %v: material %v, want %v", p.Name, ray.S, ray.D, h.Material, want.Mat)
			return
		}
	}
	k.SawF(h.T)
}

// CheckInside compares Inside on one point; counts undecided points.
func CheckInside(k *mc.K, p *Pair, x V, st *Stat) {
	want := p.R.Inside(x)
	k.Op(1)
	got := p.O.Inside(GV(x))
	if want == 0 {
		st.Unsure++
		return
	}
	if got != (want > 0) {
		k.Fail("%s: point %v: inside=%v, want %v", p.Name, x, got, want > 0)
	}
}

// CheckAll compares rays and points for one start position index.
func CheckAll(k *mc.K, p *Pair, s V, lvl int, st *Stat, opt Options) {
	for _, ray := range Rays(s, p.C, p.Half, lvl) {
		CheckRay(k, p, ray, st, opt)
		if k.Failed() {
			return
		}
	}
}

// ---- combinations

func span(a, b Pair) (c, half V) {
	return hull(a.C.Sub(a.Half), a.C.Add(a.Half), b.C.Sub(b.Half), b.C.Add(b.Half))
}

func And(a, b Pair) Pair {
	c, h := span(a, b)
	return Pair{"And(" + a.Name + "," + b.Name + ")", ao(a).And(ao(b)).Interface, ref.And{A: a.R, B: b.R}, c, h, true}
}

func Or(a, b Pair) Pair {
	c, h := span(a, b)
	return Pair{"Or(" + a.Name + "," + b.Name + ")", ao(a).Or(ao(b)).Interface, ref.Or{A: a.R, B: b.R}, c, h, true}
}

func Diff(a, b Pair) Pair {
	c, h := span(a, b)
	return Pair{"Difference(" + a.Name + "," + b.Name + ")", api.Difference(ao(a), ao(b)).Interface, ref.And{A: a.R, B: ref.Not{A: b.R}}, c, h, true}
}

func Restrict(a, b Pair) Pair {
	c, h := span(a, b)
	return Pair{"Restrict(" + a.Name + "," + b.Name + ")", ao(a).Restrict(ao(b)).Interface, ref.Restrict{A: a.R, B: b.R}, c, h, true}
}

func Remove(a, b Pair) Pair {
	c, h := span(a, b)
	return Pair{"Remove(" + a.Name + "," + b.Name + ")", ao(a).Remove(ao(b)).Interface, ref.Restrict{A: a.R, B: ref.Not{A: b.R}}, c, h, true}
}

func AndNot(a, b Pair) Pair {
	c, h := span(a, b)
	return Pair{"AndNot(" + a.Name + "," + b.Name + ")", ao(a).AndNot(ao(b)).Interface, ref.And{A: a.R, B: ref.Not{A: b.R}}, c, h, true}
}

func Not(a Pair) Pair {
	return Pair{"Not(" + a.Name + ")", objects.Not(a.O), ref.Not{A: a.R}, a.C, a.Half, true}
}

func Hollow(a Pair) Pair {
	return Pair{"Hollow(" + a.Name + ")", objects.Hollow(a.O), ref.Hollow{A: a.R}, a.C, a.Half, false}
}

func Bounded(a Pair) Pair {
	a.Name = "Bounded(" + a.Name + ")"
	a.O = api.Bounded(ao(a)).Interface
	return a
}

func WithMat(m int, a Pair) Pair {
	a.Name = "WithMaterial(" + a.Name + ")"
	a.O = ao(a).WithMaterial(Mat(m)).Interface
	a.R = ref.WithMat{A: a.R, Mat: m}
	return a
}

// Remap replaces the local coordinates by f of the position.
func Remap(a Pair, f func(V) V) Pair {
	a.Name = "Remap(" + a.Name + ")"
	a.O = ao(a).Remap(func(p geom.Vec) geom.Vec { return GV(f(RV(p))) }).Interface
	a.R = ref.Remap{A: a.R, F: f}
	return a
}

func Tree(ps ...Pair) Pair {
	var os []api.Object
	var g ref.Group
	c, h := V{}, V{1, 1, 1}
	name := "Tree("
	for i, p := range ps {
		os = append(os, ao(p))
		g = append(g, p.R)
		if i == 0 {
			c, h = p.C, p.Half
		} else {
			c, h = hull(c.Sub(h), c.Add(h), p.C.Sub(p.Half), p.C.Add(p.Half))
		}
		if i < 3 {
			name += p.Name + ","
		}
	}
	return Pair{name + ")", api.Tree(os...).Interface, g, c, h, true}
}

// T is a transform in both worlds.
type T struct {
	Name string
	G    *geom.AffineTransform
	R    ref.Sim
}

func Translate(d V) T { return T{"translate", geom.Translate(GV(d)), ref.Translate(d)} }
func ScaleAt(c V, s float64) T {
	return T{"scale", geom.Scale(GV(c), s), ref.ScaleAt(c, s)}
}
func RotateAt(c, axis V, a float64) T {
	return T{"rotate", geom.Rotate(GV(c), GV(axis), a), ref.RotateAt(c, axis, a)}
}

func Transformed(p Pair, t T) Pair {
	q := p
	q.Name = t.Name + "(" + p.Name + ")"
	q.O = ao(p).Transform(t.G).Interface
	q.R = ref.Trans{A: p.R, M: t.R}
	var ps []V
	for i := 0; i < 8; i++ {
		x := p.C
		for j := 0; j < 3; j++ {
			if i>>uint(j)&1 == 0 {
				x[j] -= p.Half[j]
			} else {
				x[j] += p.Half[j]
			}
		}
		ps = append(ps, t.R.Point(x))
	}
	q.C, q.Half = hull(ps...)
	return q
}
