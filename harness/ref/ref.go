// Package ref is an independent reference model of ray-object intersection.
//
// A reference shape lists ALL its surface crossings along the full line of a
// ray, analytically, together with an insideness test. Visibility, CSG,
// transforms and grouping are then defined by set operations on those lists,
// without any marching, bounding boxes or trees.
package ref

import (
	"math"
	"sort"
)

type V [3]float64

func (a V) Add(b V) V       { return V{a[0] + b[0], a[1] + b[1], a[2] + b[2]} }
func (a V) Sub(b V) V       { return V{a[0] - b[0], a[1] - b[1], a[2] - b[2]} }
func (a V) Mul(s float64) V { return V{s * a[0], s * a[1], s * a[2]} }
func (a V) Dot(b V) float64 { return a[0]*b[0] + a[1]*b[1] + a[2]*b[2] }
func (a V) Len() float64    { return math.Sqrt(a.Dot(a)) }
func (a V) Unit() V         { return a.Mul(1 / a.Len()) }
func (a V) Cross(b V) V {
	return V{a[1]*b[2] - a[2]*b[1], a[2]*b[0] - a[0]*b[2], a[0]*b[1] - a[1]*b[0]}
}
func (a V) MaxAbs() float64 {
	return math.Max(math.Abs(a[0]), math.Max(math.Abs(a[1]), math.Abs(a[2])))
}

// Hit is one surface crossing.
type Hit struct {
	T        float64
	N        V // outward unit normal
	Local    V
	Mat      int
	Poison   bool // the whole ray is not specified (runs inside the surface)
	Marginal bool // too close to an edge, tangent, or other decision boundary to be sure it exists
}

// Shape is a reference object.
type Shape interface {
	// Hits returns all crossings of the line s+t*d, any t, in any order.
	Hits(s, d V) []Hit
	// Inside returns +1 (in), -1 (out) or 0 (too close to call).
	Inside(p V) int
}

// Eps is the relative margin within which decisions are not specified.
const Eps = 1e-6

func sign(x, margin float64) int {
	if x > margin {
		return 1
	}
	if x < -margin {
		return -1
	}
	return 0
}

// ---- sphere

type Sphere struct {
	C   V
	R   float64
	Mat int
}

func (o Sphere) Hits(s, d V) []Hit {
	dl := d.Len()
	u := d.Mul(1 / dl)
	oc := s.Sub(o.C)
	b := oc.Dot(u)
	perp := oc.Sub(u.Mul(b))
	h2 := o.R*o.R - perp.Dot(perp)
	m := Eps * (o.R*o.R + perp.Dot(perp))
	if h2 < -m {
		return nil
	}
	marg := math.Abs(h2) < 1e-4*o.R*o.R || math.Abs(h2) < m*100
	h := math.Sqrt(math.Max(h2, 0))
	var hs []Hit
	for _, x := range []float64{-b - h, -b + h} {
		p := oc.Add(u.Mul(x))
		hs = append(hs, Hit{T: x / dl, N: p.Unit(), Local: p, Mat: o.Mat, Marginal: marg})
	}
	return hs
}

func (o Sphere) Inside(p V) int {
	r := p.Sub(o.C).Len()
	return sign(o.R-r, Eps*(1+o.R+p.MaxAbs()))
}

// ---- open cylinder around coordinate axis Ax

type Cyl struct {
	C    V
	Ax   int
	R, H float64
	Mat  int
}

func (o Cyl) Hits(s, d V) []Hit {
	oc := s.Sub(o.C)
	dp, op := d, oc
	dp[o.Ax], op[o.Ax] = 0, 0
	l := dp.Len()
	if l < 1e-12*d.Len() {
		return nil // parallel to the axis: never crosses
	}
	sc := Sphere{R: o.R}.Hits(op, dp)
	var hs []Hit
	for _, h := range sc {
		p := oc.Add(d.Mul(h.T))
		y := math.Abs(p[o.Ax]) - o.H/2
		in := sign(-y, 1e-5*(1+o.H+p.MaxAbs()))
		if in < 0 {
			continue
		}
		n := p
		n[o.Ax] = 0
		hs = append(hs, Hit{T: h.T, N: n.Unit(), Local: p, Mat: o.Mat, Marginal: h.Marginal || in == 0 || l < 1e-3*d.Len()})
	}
	return hs
}

func (o Cyl) Inside(p V) int {
	q := p.Sub(o.C)
	y := q[o.Ax]
	q[o.Ax] = 0
	m := 1e-5 * (1 + o.R + o.H + p.MaxAbs())
	a := sign(o.R-q.Len(), m)
	b := sign(o.H/2-math.Abs(y), m)
	return and3(a, b)
}

// ---- axis-aligned box

type Box struct {
	Min, Max V
	Mat      int
}

func (o Box) Hits(s, d V) []Hit {
	size := o.Max.Sub(o.Min).MaxAbs() + s.MaxAbs() + o.Max.MaxAbs()
	m := Eps * (1 + size)
	var hs []Hit
	for ax := 0; ax < 3; ax++ {
		if math.Abs(d[ax]) < 1e-12*d.Len() {
			continue
		}
		for side := 0; side < 2; side++ {
			w := o.Min[ax]
			n := V{}
			n[ax] = -1
			if side == 1 {
				w = o.Max[ax]
				n[ax] = 1
			}
			t := (w - s[ax]) / d[ax]
			p := s.Add(d.Mul(t))
			p[ax] = w
			in := 1
			for b := 0; b < 3; b++ {
				if b != ax {
					in = and3(in, sign(p[b]-o.Min[b], m))
					in = and3(in, sign(o.Max[b]-p[b], m))
				}
			}
			if in < 0 {
				continue
			}
			if math.Abs(w-s[ax]) <= 1e-9*(1+size) {
				hs = append(hs, Hit{Poison: true}) // starts exactly on the face: not specified
				continue
			}
			hs = append(hs, Hit{T: t, N: n, Local: p.Sub(o.Min), Mat: o.Mat, Marginal: in == 0})
		}
	}
	return hs
}

func (o Box) Inside(p V) int {
	in := 1
	for b := 0; b < 3; b++ {
		m := Eps * (1 + math.Abs(p[b]) + math.Abs(o.Min[b]) + math.Abs(o.Max[b]))
		in = and3(in, sign(p[b]-o.Min[b], m))
		in = and3(in, sign(o.Max[b]-p[b], m))
	}
	return in
}

// ---- triangle (hollow)

type Tri struct {
	P   [3]V
	N   [3]V // per-vertex normals; zero: face normal
	UV  [3][2]float64
	Mat int
}

func (o Tri) Hits(s, d V) []Hit {
	a, b := o.P[1].Sub(o.P[0]), o.P[2].Sub(o.P[0])
	n := a.Cross(b)
	area := n.Len()
	if area == 0 {
		return nil
	}
	nd := n.Dot(d)
	if math.Abs(nd) < 1e-7*area*d.Len() {
		if dist := math.Abs(n.Dot(o.P[0].Sub(s))) / area; dist < 1e-4*(1+s.MaxAbs()) {
			return []Hit{{Poison: true}} // (nearly) in the plane: not specified
		}
		return nil // parallel
	}
	t := n.Dot(o.P[0].Sub(s)) / nd
	p := s.Add(d.Mul(t)).Sub(o.P[0])
	// barycentric: p = l2*a + l3*b
	l2 := p.Cross(b).Dot(n) / (area * area)
	l3 := a.Cross(p).Dot(n) / (area * area)
	l1 := 1 - l2 - l3
	in := 1
	for _, l := range []float64{l1, l2, l3} {
		in = and3(in, sign(l, 1e-7))
	}
	if in < 0 {
		return nil
	}
	h := Hit{T: t, Mat: o.Mat, Marginal: in == 0}
	L := [3]float64{l1, l2, l3}
	if o.N == ([3]V{}) {
		h.N = n.Unit()
	} else {
		var sn V
		for i := range L {
			sn = sn.Add(o.N[i].Mul(L[i]))
		}
		h.N = sn.Unit()
	}
	for i := range L {
		h.Local[0] += L[i] * o.UV[i][0]
		h.Local[1] += L[i] * o.UV[i][1]
	}
	return []Hit{h}
}

func (o Tri) Inside(p V) int { return -1 }

// ---- combinations

func and3(a, b int) int {
	if a < 0 || b < 0 {
		return -1
	}
	if a == 0 || b == 0 {
		return 0
	}
	return 1
}

func or3(a, b int) int { return -and3(-a, -b) }

func filter(hs []Hit, s, d V, keep func(p V) int) []Hit {
	var out []Hit
	for _, h := range hs {
		if h.Poison {
			out = append(out, h)
			continue
		}
		k := keep(s.Add(d.Mul(h.T)))
		if k < 0 {
			continue
		}
		if k == 0 {
			h.Marginal = true
		}
		out = append(out, h)
	}
	return out
}

type And struct{ A, B Shape }

func (o And) Hits(s, d V) []Hit {
	return append(filter(o.A.Hits(s, d), s, d, o.B.Inside), filter(o.B.Hits(s, d), s, d, o.A.Inside)...)
}
func (o And) Inside(p V) int { return and3(o.A.Inside(p), o.B.Inside(p)) }

type Or struct{ A, B Shape }

func (o Or) Hits(s, d V) []Hit {
	na := func(p V) int { return -o.A.Inside(p) }
	nb := func(p V) int { return -o.B.Inside(p) }
	return append(filter(o.A.Hits(s, d), s, d, nb), filter(o.B.Hits(s, d), s, d, na)...)
}
func (o Or) Inside(p V) int { return or3(o.A.Inside(p), o.B.Inside(p)) }

type Not struct{ A Shape }

func (o Not) Hits(s, d V) []Hit {
	hs := o.A.Hits(s, d)
	for i := range hs {
		hs[i].N = hs[i].N.Mul(-1)
	}
	return hs
}
func (o Not) Inside(p V) int { return -o.A.Inside(p) }

// Restrict is the part of A's surface that is inside B.
type Restrict struct{ A, B Shape }

func (o Restrict) Hits(s, d V) []Hit { return filter(o.A.Hits(s, d), s, d, o.B.Inside) }
func (o Restrict) Inside(p V) int    { return and3(o.A.Inside(p), o.B.Inside(p)) }

type Hollow struct{ A Shape }

func (o Hollow) Hits(s, d V) []Hit { return o.A.Hits(s, d) }
func (o Hollow) Inside(p V) int    { return -1 }

// Group is a list of objects, all fully visible.
type Group []Shape

func (o Group) Hits(s, d V) []Hit {
	var hs []Hit
	for _, x := range o {
		hs = append(hs, x.Hits(s, d)...)
	}
	return hs
}
func (o Group) Inside(p V) int {
	in := -1
	for _, x := range o {
		in = or3(in, x.Inside(p))
	}
	return in
}

// WithMat overrides the material.
type WithMat struct {
	A   Shape
	Mat int
}

func (o WithMat) Hits(s, d V) []Hit {
	hs := o.A.Hits(s, d)
	for i := range hs {
		hs[i].Mat = o.Mat
	}
	return hs
}
func (o WithMat) Inside(p V) int { return o.A.Inside(p) }

// Backdrop is hit by every ray, at (nearly) infinity.
type Backdrop struct{ Mat int }

func (o Backdrop) Hits(s, d V) []Hit {
	return []Hit{{T: 1e99, N: d.Unit(), Local: d, Mat: o.Mat}}
}
func (o Backdrop) Inside(p V) int { return -1 }

// ---- similarity transforms x -> S*R*x + B, R orthonormal (rows)

type Sim struct {
	S float64
	R [3]V // rows of the rotation matrix
	B V
}

func (m Sim) rot(x V) V      { return V{m.R[0].Dot(x), m.R[1].Dot(x), m.R[2].Dot(x)} }
func (m Sim) invRot(x V) V   { return m.R[0].Mul(x[0]).Add(m.R[1].Mul(x[1])).Add(m.R[2].Mul(x[2])) }
func (m Sim) Point(x V) V    { return m.rot(x).Mul(m.S).Add(m.B) }
func (m Sim) Dir(x V) V      { return m.rot(x).Mul(m.S) }
func (m Sim) InvPoint(x V) V { return m.invRot(x.Sub(m.B)).Mul(1 / m.S) }
func (m Sim) InvDir(x V) V   { return m.invRot(x).Mul(1 / m.S) }

// Then returns "first m, then n".
func (m Sim) Then(n Sim) Sim {
	var r [3]V
	for j := 0; j < 3; j++ {
		e := V{}
		e[j] = 1
		c := n.rot(m.rot(e))
		for i := 0; i < 3; i++ {
			r[i][j] = c[i]
		}
	}
	return Sim{S: m.S * n.S, R: r, B: n.Point(m.B)}
}

var Ident = Sim{S: 1, R: [3]V{{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}}

func Translate(b V) Sim { m := Ident; m.B = b; return m }

// ScaleAt scales by s, keeping c in place.
func ScaleAt(c V, s float64) Sim { m := Ident; m.S = s; m.B = c.Mul(1 - s); return m }

// RotateAt rotates by angle (right-handed) around the axis through c.
func RotateAt(c, axis V, angle float64) Sim {
	u := axis.Unit()
	m := Ident
	for j := 0; j < 3; j++ {
		e := V{}
		e[j] = 1
		// Rodrigues
		r := e.Mul(math.Cos(angle)).Add(u.Cross(e).Mul(math.Sin(angle))).Add(u.Mul(u.Dot(e) * (1 - math.Cos(angle))))
		for i := 0; i < 3; i++ {
			m.R[i][j] = r[i]
		}
	}
	m.B = c.Sub(m.rot(c))
	return m
}

// Mirror mirrors coordinate ax.
func Mirror(ax int) Sim {
	m := Ident
	m.R[ax][ax] = -1
	return m
}

type Trans struct {
	A Shape
	M Sim
}

func (o Trans) Hits(s, d V) []Hit {
	hs := o.A.Hits(o.M.InvPoint(s), o.M.InvDir(d))
	for i := range hs {
		hs[i].N = o.M.rot(hs[i].N)
		if o.M.S < 0 {
			hs[i].N = hs[i].N.Mul(-1)
		}
	}
	return hs
}
func (o Trans) Inside(p V) int { return o.A.Inside(o.M.InvPoint(p)) }

// Remap replaces the local coordinates by a function of the position.
type Remap struct {
	A Shape
	F func(p V) V
}

func (o Remap) Hits(s, d V) []Hit {
	hs := o.A.Hits(s, d)
	for i := range hs {
		hs[i].Local = o.F(s.Add(d.Mul(hs[i].T)))
	}
	return hs
}
func (o Remap) Inside(p V) int { return o.A.Inside(p) }

// ---- visibility

// First returns the nearest crossing strictly in front of the ray's start.
// certain is false when any crossing that could matter is too close to a
// decision boundary (edge, tangent, coincident surfaces, start on a surface).
func First(o Shape, s, d V) (h Hit, hit, certain bool) {
	hs := o.Hits(s, d)
	sort.SliceStable(hs, func(i, j int) bool { return hs[i].T < hs[j].T })
	for _, x := range hs {
		if x.Poison {
			return Hit{}, false, false
		}
	}
	dl := d.Len()
	m := 1e-5 * (1 + s.MaxAbs()) / dl
	for i, x := range hs {
		if x.T < -m {
			continue
		}
		if x.T <= m { // start point on the surface
			return Hit{}, false, false
		}
		if x.Marginal {
			return Hit{}, false, false
		}
		if i+1 < len(hs) && hs[i+1].T-x.T < m+1e-7*x.T {
			return x, true, false // two surfaces coincide: which one is in front is not specified
		}
		if i > 0 && x.T-hs[i-1].T < m {
			return x, true, false
		}
		return x, true, true
	}
	return Hit{}, false, true
}
