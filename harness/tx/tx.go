// Package tx has probes for the tracer: objects, lights and materials that record what they are asked.
package tx

import (
	"math"

	"github.com/barnex/bruteray/geom"
	"github.com/barnex/bruteray/imagef/colorf"
	"github.com/barnex/bruteray/tracer"
	"verif/mc"
)

type (
	Vec   = geom.Vec
	Color = colorf.Color
)

// Func is a material defined by a function.
type Func func(ctx *tracer.Ctx, s *tracer.Scene, r *tracer.Ray, h tracer.HitCoords) Color

func (f Func) Shade(ctx *tracer.Ctx, s *tracer.Scene, r *tracer.Ray, h tracer.HitCoords) Color {
	return f(ctx, s, r, h)
}

// Const is a recognizable material that ignores lighting.
type Const Color

func (c *Const) Shade(ctx *tracer.Ctx, s *tracer.Scene, r *tracer.Ray, h tracer.HitCoords) Color {
	return Color(*c)
}

// Obj is an object defined by a function.
type Obj func(r *tracer.Ray) tracer.HitRecord

func (o Obj) Intersect(r *tracer.Ray) tracer.HitRecord { return o(r) }

// Plane through p with normal n (any length).
func Plane(p, n, local Vec, m tracer.Material) tracer.Object {
	return Obj(func(r *tracer.Ray) tracer.HitRecord {
		nd := Dot(n, r.Dir)
		t := Dot(n, Sub(p, r.Start)) / nd
		if !(t > 0) || math.IsInf(t, 0) {
			return tracer.HitRecord{}
		}
		return tracer.HitRecord{T: t, Normal: n, Local: local, Material: m}
	})
}

// Sky is hit by every ray, at distance t, and shines with color f(dir).
func Sky(t float64, f func(start, dir Vec) Color) tracer.Object {
	m := Func(func(ctx *tracer.Ctx, s *tracer.Scene, r *tracer.Ray, h tracer.HitCoords) Color {
		return f(r.Start, r.Dir)
	})
	return Obj(func(r *tracer.Ray) tracer.HitRecord {
		return tracer.HitRecord{T: t, Normal: Scale(-1, r.Dir), Material: m}
	})
}

// Light is a light with a fixed position and intensity, shown as the given object.
type Light struct {
	Pos    Vec
	Intens Color
	O      tracer.Object
	Asked  func(target Vec)
}

func (l *Light) Object() tracer.Object { return l.O }
func (l *Light) Sample(ctx *tracer.Ctx, target Vec) (Vec, Color) {
	if l.Asked != nil {
		l.Asked(target)
	}
	return l.Pos, l.Intens
}

// Nothing is never hit.
var Nothing = Obj(func(r *tracer.Ray) tracer.HitRecord { return tracer.HitRecord{} })

func Dot(a, b Vec) float64       { return a[0]*b[0] + a[1]*b[1] + a[2]*b[2] }
func Sub(a, b Vec) Vec           { return Vec{a[0] - b[0], a[1] - b[1], a[2] - b[2]} }
func Add(a, b Vec) Vec           { return Vec{a[0] + b[0], a[1] + b[1], a[2] + b[2]} }
func Scale(s float64, a Vec) Vec { return Vec{s * a[0], s * a[1], s * a[2]} }
func Len(a Vec) float64          { return math.Sqrt(Dot(a, a)) }
func Unit(a Vec) Vec             { return Scale(1/Len(a), a) }
func Cross(a, b Vec) Vec {
	return Vec{a[1]*b[2] - a[2]*b[1], a[2]*b[0] - a[0]*b[2], a[0]*b[1] - a[1]*b[0]}
}

func CAdd(a, b Color) Color         { return Color{R: a.R + b.R, G: a.G + b.G, B: a.B + b.B} }
func CMul(s float64, a Color) Color { return Color{R: s * a.R, G: s * a.G, B: s * a.B} }
func CMul3(a, b Color) Color        { return Color{R: b.R * a.R, G: b.G * a.G, B: b.B * a.B} }

// CClose compares two colors.
func CClose(a, b Color, tol float64) bool {
	return mc.Close(a.R, b.R, tol) && mc.Close(a.G, b.G, tol) && mc.Close(a.B, b.B, tol)
}

// Dirs26 are the directions to the 26 neighbours in a cubic lattice, plus generic ones.
func Dirs(generic bool) []Vec {
	var d []Vec
	for x := -1.; x <= 1; x++ {
		for y := -1.; y <= 1; y++ {
			for z := -1.; z <= 1; z++ {
				if x != 0 || y != 0 || z != 0 {
					d = append(d, Unit(Vec{x, y, z}))
				}
			}
		}
	}
	if generic {
		for _, v := range []Vec{{0.3712, 0.8541, -0.3631}, {-0.7321, 0.1253, 0.6691}, {0.1117, -0.4493, 0.8867}, {-0.5673, -0.5371, -0.6241}, {0.9553, 0.0131, -0.2953}, {0.0071, 0.9971, 0.0757},
			// nearly along an axis
			{1, 4e-4, 3e-5}, {-2e-5, -3e-4, 1}, {3e-4, -1, 2e-5}, {-1, 5e-7, 6e-7}, {4e-7, 2e-5, -1}} {
			d = append(d, Unit(v))
		}
	}
	return d
}

// Orthogonal returns unit vectors that make a right-handed basis with unit vector n.
func Orthogonal(n Vec) (a, b Vec) {
	h := Vec{1, 0, 0}
	if math.Abs(n[0]) > 0.6 {
		h = Vec{0, 1, 0}
	}
	a = Unit(Cross(h, n))
	return a, Cross(n, a)
}
