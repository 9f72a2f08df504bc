package main

import (
	"image"
	"image/color"
	"image/png"
	"math"
	"os"
	"path/filepath"
	"sync"

	"github.com/barnex/bruteray/geom"
	"github.com/barnex/bruteray/imagef"
	"github.com/barnex/bruteray/imagef/colorf"
	"github.com/barnex/bruteray/texture"
	"github.com/barnex/bruteray/tracer"
	"github.com/barnex/bruteray/tracer/cameras"
	"github.com/barnex/bruteray/tracer/lights"
	"github.com/barnex/bruteray/tracer/materials"
	"github.com/barnex/bruteray/tracer/media"
	"github.com/barnex/bruteray/tracer/objects"
	"verif/vsched"
)

type (
	Vec   = geom.Vec
	Color = colorf.Color
	Obj   = objects.Interface
)

// op is one operation on a shared thing; every worker has its own context.
type op func(ctx *tracer.Ctx) []float64

// fixture makes a fresh shared thing and the operations on it.
type fixture struct {
	name string
	mk   func() []op
}

func v(x, y, z float64) Vec { return Vec{x, y, z} }

func col(c Color) []float64 { return []float64{c.R, c.G, c.B} }

func hit(h tracer.HitRecord) []float64 {
	if !(h.T > 0) {
		return []float64{0}
	}
	n := h.Normal.Normalized()
	f := []float64{h.T, n[0], n[1], n[2], h.Local[0], h.Local[1], h.Local[2]}
	if m, ok := h.Material.(*mark); ok {
		f = append(f, float64(*m))
	}
	return f
}

// mark is a recognizable material.
type mark float64

func (m *mark) Shade(ctx *tracer.Ctx, s *tracer.Scene, r *tracer.Ray, h tracer.HitCoords) Color {
	vsched.Q(-200)
	return Color{R: float64(*m), G: h.T, B: h.Local[0] + h.Local[1]}
}

func mk(x float64) tracer.Material { m := mark(x); return &m }

// a user-supplied function with a scheduling point inside.
func wave(u, v float64) float64 { vsched.P(-201); return 0.5 + 0.2*u - 0.1*v }

// cast makes an operation that intersects.
func cast(o tracer.Object, start, dir Vec) op {
	return func(ctx *tracer.Ctx) []float64 {
		r := ctx.Ray()
		r.Start, r.Dir = start, dir.Normalized()
		h := o.Intersect(r)
		f := hit(h)
		// the ray must come back as it was
		f = append(f, r.Start[0], r.Start[1], r.Start[2], r.Dir[0], r.Dir[1], r.Dir[2])
		ctx.PutRay(r)
		return f
	}
}

func within(o Obj, p Vec) op {
	return func(*tracer.Ctx) []float64 {
		if o.Inside(p) {
			return []float64{1}
		}
		return []float64{0}
	}
}

func bounds(o Obj) op {
	return func(*tracer.Ctx) []float64 {
		b := o.Bounds()
		return []float64{b.Min[0], b.Min[1], b.Min[2], b.Max[0], b.Max[1], b.Max[2]}
	}
}

// objFixture: two rays that hit from different sides, a third, and insideness.
func objFixture(name string, f func() Obj) fixture {
	return fixture{name, func() []op {
		o := f()
		return []op{
			cast(o, v(0.21, 3, 0.13), v(-0.05, -1, 0.02)),
			cast(o, v(-3, 0.31, 0.17), v(1, -0.04, 0.03)),
			cast(o, v(0.05, 0.12, 0.07), v(0.3, 0.5, 0.8)),
			within(o, v(0.1, 0.2, 0.05)),
			within(o, v(5, 5, 5)),
			bounds(o),
		}
	}}
}

func ball(m, d, x, y, z float64) Obj                 { return objects.Sphere(mk(m), d, v(x, y, z)) }
func cube(m, w, x, y, z float64) Obj                 { return objects.Box(mk(m), w, w, w, v(x, y, z)) }
func turn(axis Vec, a float64) *geom.AffineTransform { return geom.Rotate(v(0, 0, 0), axis, a) }

func surf(u, w float64) Vec {
	vsched.Q(-202)
	return v(2*u-1, 0.3*math.Sin(3*u)*math.Cos(2*w), 2*w-1)
}

func meshData() ([]Vec, [][3]int) {
	var vs []Vec
	const n = 3
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			x, z := 2*float64(i)/(n-1)-1, 2*float64(j)/(n-1)-1
			vs = append(vs, v(x, 0.3*x*z, z))
		}
	}
	var f [][3]int
	for i := 0; i < n-1; i++ {
		for j := 0; j < n-1; j++ {
			a, b, c, d := i*n+j, (i+1)*n+j, (i+1)*n+j+1, i*n+j+1
			f = append(f, [3]int{a, b, c}, [3]int{a, c, d})
		}
	}
	return vs, f
}

// an image as texture, through a file (the only way to get interpolation)
var texFile string

var texOnce sync.Once

func writeTex() { texOnce.Do(writeTexFile) }

func writeTexFile() {
	texFile = filepath.Join(os.Getenv("VERIF_WORK"), "tex.png")
	if _, err := os.Stat(texFile); err == nil {
		return
	}
	img := image.NewRGBA(image.Rect(0, 0, 4, 3))
	for i := 0; i < 4; i++ {
		for j := 0; j < 3; j++ {
			img.Set(i, j, color.RGBA{uint8(60 * i), uint8(80 * j), uint8(20 * i * j), 255})
		}
	}
	tmp, err := os.CreateTemp(filepath.Dir(texFile), "tex")
	if err != nil {
		panic(err)
	}
	png.Encode(tmp, img)
	tmp.Close()
	os.Rename(tmp.Name(), texFile)
}

func smallImage() imagef.Image {
	m := imagef.MakeImage(3, 2)
	for y := range m {
		for x := range m[y] {
			m[y][x] = Color{R: float64(x), G: float64(y), B: 1}
		}
	}
	return m
}

// view makes an operation that shades what a ray sees.
func view(s *tracer.Scene, start, dir Vec, pix, pass int) op {
	return func(ctx *tracer.Ctx) []float64 {
		ctx.Init(pix, pass)
		r := ctx.Ray()
		r.Start, r.Dir = start, dir.Normalized()
		c := s.LightField(ctx, r)
		f := append(col(c), r.Start[0], r.Start[1], r.Start[2], r.Dir[0], r.Dir[1], r.Dir[2])
		ctx.PutRay(r)
		return f
	}
}

func sky() tracer.Object {
	return objects.Backdrop(materials.Flat(texture.Func(func(d Vec) Color {
		vsched.Q(-203)
		return Color{R: 1 + d[0], G: 1 + d[1]*0.5, B: 1 + d[2]*0.25}
	})))
}

// matFixture: a surface of the material, seen from several directions, in a scene
// with lights, a shadow caster and a sky.
func matFixture(name string, f func() tracer.Material) fixture {
	return fixture{"material " + name, func() []op {
		s := tracer.NewScene(2, stdLights(), objects.Rectangle(f(), 4, 4, v(0, 0, 0)), objects.Sphere(materials.Transparent(Color{R: .5, G: .6, B: .7}, false), 0.4, v(0.3, 1, 0.1)), sky())
		return []op{
			view(s, v(0.2, 2, 0.3), v(-0.2, -1, 0.1), 1, 0),
			view(s, v(-2, 1, 0.1), v(1, -0.4, 0.1), 2, 3),
			view(s, v(0.4, -1, 0.3), v(-0.2, 1, 0.1), 0, 1),
		}
	}}
}

func stdLights() []tracer.Light {
	return []tracer.Light{lights.PointLight(Color{R: 30, G: 40, B: 50}, v(1, 3, 0.5)), lights.RectangleLight(Color{R: 5, G: 6, B: 7}, 1, 2, v(-1, 3, 0))}
}

func lightFixture(name string, f func() tracer.Light) fixture {
	return fixture{"light " + name, func() []op {
		l := f()
		sample := func(target Vec, pix, pass int) op {
			return func(ctx *tracer.Ctx) []float64 {
				ctx.Init(pix, pass)
				ctx.CurrentRecursionDepth = 1
				p, c := l.Sample(ctx, target)
				ctx.CurrentRecursionDepth = 0
				return append(col(c), p[0], p[1], p[2])
			}
		}
		s := tracer.NewScene(2, []tracer.Light{l}, objects.Rectangle(materials.Matte(Color{R: .5, G: .6, B: .7}), 8, 8, v(0, 0, 0)), sky())
		return []op{
			sample(v(0, 0, 0), 0, 0), sample(v(1, -1, 0.5), 2, 5),
			view(s, v(0.2, 1.5, 0.3), v(-0.2, -1, 0.1), 1, 0),
			view(s, v(0, 0.1, 0), v(0.01, 1, 0.02), 1, 2),
		}
	}}
}

func camFixture(name string, f func() *cameras.WithTransform, lens bool) fixture {
	return fixture{"camera " + name, func() []op {
		c := f()
		ray := func(a, b float64) op {
			return func(ctx *tracer.Ctx) []float64 {
				ctx.Init(1, 1)
				r := c.RayFrom(ctx, a, b)
				x := []float64{r.Start[0], r.Start[1], r.Start[2], r.Dir[0], r.Dir[1], r.Dir[2]}
				if lens { // lens positions are not reproducible: only the focal point is
					d := r.Dir.Normalized()
					t := (-3 - r.Start[2]) / d[2]
					x = []float64{r.Start[0] + t*d[0], r.Start[1] + t*d[1]}
				}
				ctx.PutRay(r)
				return x
			}
		}
		move := func(ctx *tracer.Ctx) []float64 {
			n := c.Translate(v(1, 2, 3)).YawPitchRoll(0.1, 0.2, 0.3)
			ctx.Init(1, 1)
			r := n.RayFrom(ctx, 0.5, 0.5)
			d := r.Dir
			ctx.PutRay(r)
			if lens {
				return nil
			}
			return []float64{d[0], d[1], d[2]}
		}
		return []op{ray(0.3, 0.6), ray(0.7, 0.2), move}
	}}
}

func mediumFixture(name string, f func() tracer.Medium) fixture {
	return fixture{"medium " + name, func() []op {
		m := f()
		s := tracer.NewSceneWithMedia(2, []tracer.Medium{m}, stdLights(), objects.Rectangle(materials.Matte(Color{R: .5, G: .6, B: .7}), 8, 8, v(0, 0, 0)), sky())
		return []op{
			view(s, v(0.2, 2, 0.3), v(-0.2, -1, 0.1), 1, 0),
			view(s, v(-2, 1, 0.1), v(1, -0.4, 0.1), 2, 3),
			view(s, v(-2, 1, 0.1), v(1, 0.4, 0.1), 0, 3),
		}
	}}
}

func texFixture(name string, f func() texture.Texture) fixture {
	return fixture{"texture " + name, func() []op {
		t := f()
		at := func(p Vec) op {
			return func(*tracer.Ctx) []float64 { return col(t.At(p)) }
		}
		return []op{at(v(0.2, 0.7, 0)), at(v(0.9, 0.1, 0.3)), at(v(0.51, 0.49, 0.1))}
	}}
}

var fixtures = []fixture{
	objFixture("sphere", func() Obj { return ball(1, 1.5, 0, 0.1, 0) }),
	objFixture("box", func() Obj { return cube(1, 1.5, 0, 0.1, 0) }),
	objFixture("cylinder", func() Obj { return objects.Cylinder(mk(1), 1.5, 1.2, v(0, 0.1, 0)) }),
	objFixture("cylinder x", func() Obj { return objects.CylinderDir(mk(1), 0, 1.5, 1.2, v(0, 0.1, 0)) }),
	objFixture("cylinder caps", func() Obj { return objects.CylinderWithCaps(mk(1), 1.5, 1.2, v(0, 0.1, 0)) }),
	objFixture("rectangle", func() Obj { return objects.Rectangle(mk(1), 2, 2, v(0, 0.1, 0)) }),
	objFixture("rectangle with vertices", func() Obj { return objects.RectangleWithVertices(mk(1), v(-1, 0, -1), v(1, 0.3, -1), v(-1, 0.1, 1)) }),
	objFixture("disk", func() Obj { return objects.Disk(mk(1), 2, v(0, 0.1, 0)) }),
	objFixture("triangle", func() Obj { return objects.Triangle(mk(1), v(-1, 0, -1), v(1, 0.3, -1), v(0, 0.1, 1)) }),
	objFixture("quadrilateral", func() Obj {
		return objects.Quadrilateral(mk(1), v(-1, 0, -1), v(1, 0.3, -1), v(1, 0.1, 1), v(-1, 0, 1))
	}),
	objFixture("backdrop", func() Obj { return objects.Backdrop(mk(1)) }),
	objFixture("bounded", func() Obj { return objects.Bounded(ball(1, 1.5, 0, 0.1, 0)) }),
	objFixture("tree of 3", func() Obj {
		return objects.Tree(ball(1, 1, 0, 0, 0), ball(2, 1, 0.5, 0.4, 0), cube(3, 0.7, -0.6, 0.2, 0.1))
	}),
	objFixture("tree of 10", func() Obj {
		var l []Obj
		for i := 0; i < 10; i++ {
			l = append(l, ball(float64(i), 0.5, float64(i%5-2)*0.4, float64(i/5-2)*0.4, 0.1*float64(i%3)))
		}
		return objects.Tree(l...)
	}),
	objFixture("tree of trees", func() Obj {
		return objects.Tree(objects.Tree(ball(1, 1, 0, 0, 0), ball(2, 1, 0.5, 0.4, 0)), objects.Transformed(cube(3, 0.7, 0, 0, 0), turn(v(0, 0, 1), 0.3)))
	}),
	objFixture("mesh", func() Obj { a, b := meshData(); return objects.Mesh(mk(1), a, b) }),
	objFixture("mesh with uv", func() Obj {
		a, b := meshData()
		uv := make([]geom.Vec2, len(a))
		for i := range uv {
			uv[i] = geom.Vec2{float64(i), float64(i * i)}
		}
		return objects.MeshWithUV(mk(1), a, b, uv)
	}),
	objFixture("parametric", func() Obj { return objects.Parametric(mk(1), 3, 3, surf) }),
	objFixture("isosurface", func() Obj { return objects.IsoSurface(mk(1), 2, 0.7, 2, wave) }),
	objFixture("and", func() Obj { return objects.And(ball(1, 1.5, 0, 0.1, 0), cube(2, 1.2, 0.3, 0, 0)) }),
	objFixture("or", func() Obj { return objects.Or(ball(1, 1.5, 0, 0.1, 0), cube(2, 1.2, 0.3, 0, 0)) }),
	objFixture("difference", func() Obj { return objects.Difference(ball(1, 1.5, 0, 0.1, 0), cube(2, 1.2, 0.6, 0.7, 0)) }),
	objFixture("not", func() Obj { return objects.And(cube(2, 1.2, 0, 0, 0), objects.Not(ball(1, 1.5, 0.6, 0.1, 0))) }),
	objFixture("restrict", func() Obj { return objects.Restrict(ball(1, 1.5, 0, 0.1, 0), cube(2, 1.4, 0.3, 0, 0)) }),
	objFixture("hollow", func() Obj { return objects.Hollow(ball(1, 1.5, 0, 0.1, 0)) }),
	objFixture("nested csg", func() Obj {
		return objects.Or(objects.Difference(cube(1, 1.5, 0, 0, 0), ball(2, 1.2, 0.7, 0.7, 0)), objects.And(ball(3, 1, -0.5, 0.5, 0), objects.Not(cube(4, 0.5, -0.5, 0.5, 0))))
	}),
	objFixture("transformed", func() Obj { return objects.Transformed(cube(1, 1.5, 0, 0.1, 0), turn(v(1, 1, 0), 0.4)) }),
	objFixture("transformed csg", func() Obj {
		return objects.Transformed(objects.And(objects.Transformed(cube(1, 1.5, 0, 0.1, 0), turn(v(1, 1, 0), 0.4)), ball(2, 1.8, 0, 0, 0)), turn(v(0, 1, 0), 0.2))
	}),
	objFixture("translated", func() Obj { return objects.Translated(ball(1, 1.5, 0, 0.1, 0), v(0.1, 0.1, 0)) }),
	objFixture("remap", func() Obj {
		return objects.Remap(ball(1, 1.5, 0, 0.1, 0), func(p Vec) Vec { vsched.P(-204); return v(p[1], p[2], 2*p[0]) })
	}),
	objFixture("with material", func() Obj {
		return objects.WithMaterial(mk(7), objects.Tree(ball(1, 1.5, 0, 0.1, 0), cube(2, 1, 0, 0.7, 0)))
	}),
	{"two instances of one object", func() []op {
		o := objects.Tree(cube(1, 1.2, 0, 0.1, 0), ball(2, 1, 0, 0.7, 0))
		a, b := objects.Transformed(o, turn(v(0, 0, 1), 0.4)), objects.Transformed(o, geom.Translate(v(0.1, 0, 0.2)))
		return []op{
			cast(a, v(0.21, 3, 0.13), v(-0.05, -1, 0.02)), cast(b, v(0.21, 3, 0.13), v(-0.05, -1, 0.02)),
			cast(o, v(-3, 0.31, 0.17), v(1, -0.04, 0.03)), within(a, v(0.1, 0.2, 0.05)), within(b, v(0.1, 0.2, 0.05)),
		}
	}},
	matFixture("matte", func() tracer.Material { return materials.Matte(Color{R: .5, G: .6, B: .7}) }),
	matFixture("matte textured", func() tracer.Material {
		return materials.Matte(texture.Checkers(0.1, 0.2, Color{R: .5, G: .6, B: .7}, texture.MustLoad(texFile)))
	}),
	matFixture("flat", func() tracer.Material { return materials.Flat(Color{R: .5, G: .6, B: .7}) }),
	matFixture("reflective", func() tracer.Material { return materials.Reflective(Color{R: .5, G: .6, B: .7}) }),
	matFixture("refractive", func() tracer.Material { return materials.Refractive(1.5) }),
	matFixture("refractive2", func() tracer.Material { return materials.Refractive2(1.1, 1.5) }),
	matFixture("fresnel", func() tracer.Material {
		return materials.ReflectFresnel(1.5, materials.Matte(Color{R: .5, G: .6, B: .7}))
	}),
	matFixture("shiny", func() tracer.Material { return materials.Shiny(Color{R: .5, G: .6, B: .7}, 0.3) }),
	matFixture("transparent", func() tracer.Material { return materials.Transparent(Color{R: .5, G: .6, B: .7}, false) }),
	matFixture("transparent counted", func() tracer.Material { return materials.Transparent(Color{R: .5, G: .6, B: .7}, true) }),
	matFixture("two sided", func() tracer.Material {
		return materials.TwoSided(materials.Matte(Color{R: .5, G: .6, B: .7}), materials.Reflective(Color{R: 1, G: .9, B: .8}))
	}),
	matFixture("blend", func() tracer.Material {
		return materials.Blend(0.3, materials.Matte(Color{R: .5, G: .6, B: .7}), 0.7, materials.Reflective(Color{R: 1, G: .9, B: .8}))
	}),
	matFixture("blend map", func() tracer.Material {
		return materials.BlendMap(texture.Grid(0.1, 0.3, 0.3, Color{R: 1, G: 1, B: 1}, Color{}), materials.Matte(Color{R: .5, G: .6, B: .7}), materials.Flat(Color{R: 1, G: .9, B: .8}))
	}),
	lightFixture("point", func() tracer.Light { return lights.PointLight(Color{R: 30, G: 40, B: 50}, v(1, 3, 0.5)) }),
	lightFixture("rectangle", func() tracer.Light { return lights.RectangleLight(Color{R: 5, G: 6, B: 7}, 1, 2, v(0, 3, 0)) }),
	lightFixture("disk", func() tracer.Light { return lights.DiskLight(Color{R: 5, G: 6, B: 7}, 1, v(0, 3, 0)) }),
	lightFixture("sun", func() tracer.Light { return lights.SunLight(Color{R: .5, G: .6, B: .7}, 0.1, 0.3, 1.2) }),
	lightFixture("transformed", func() tracer.Light {
		return lights.Transformed(lights.RectangleLight(Color{R: 5, G: 6, B: 7}, 1, 2, v(0, 3, 0)), turn(v(1, 0, 0), 0.2))
	}),
	camFixture("projective", func() *cameras.WithTransform {
		return cameras.Projective(1.2).Translate(v(1, 2, 3)).YawPitchRoll(0.1, 0.2, 0.3)
	}, false),
	camFixture("aperture", func() *cameras.WithTransform { return cameras.ProjectiveAperture(1.2, 0.1, 3) }, true),
	camFixture("environment map", func() *cameras.WithTransform { return cameras.EnvironmentMap().YawPitchRoll(0.1, 0.2, 0.3) }, false),
	camFixture("isometric", func() *cameras.WithTransform { return cameras.Isometric(1, 2) }, false),
	mediumFixture("expfog", func() tracer.Medium { return media.ExpFog(0.3, Color{R: .5, G: .6, B: .7}, 1) }),
	mediumFixture("fog", func() tracer.Medium { return media.Fog(0.3, 1, 2) }),
	texFixture("checkers", func() texture.Texture { return texture.Checkers(0.1, 0.2, Color{R: .5}, Color{G: .5}) }),
	texFixture("grid", func() texture.Texture { return texture.Grid(0.1, 0.3, 0.3, Color{R: .5}, Color{G: .5}) }),
	texFixture("nearest", func() texture.Texture { return texture.Nearest(smallImage()) }),
	texFixture("file", func() texture.Texture { return texture.MustLoad(texFile) }),
	texFixture("height map", func() texture.Texture { return texture.HeightMap(texFile) }),
	texFixture("pan and scale", func() texture.Texture { return texture.Pan(texture.ScaleUV(texture.MustLoad(texFile), 2, 3), 0.1, 0.2) }),
	texFixture("fisheye", func() texture.Texture { return texture.MapFisheye(texture.MustLoad(texFile)) }),
	{"scene", func() []op {
		objs := []tracer.Object{
			objects.Tree(objects.Transformed(objects.Box(materials.Shiny(Color{R: .5, G: .6, B: .7}, 0.2), 1, 1, 1, v(0, 0.5, 0)), turn(v(0, 1, 0), 0.3)), objects.Sphere(materials.Refractive(1.5), 1, v(1.2, 0.5, 0))),
			objects.Rectangle(materials.Matte(texture.Checkers(1, 1, Color{R: .5}, Color{G: .5})), 10, 10, v(0, 0, 0)),
			sky(),
		}
		s := tracer.NewSceneWithMedia(2, []tracer.Medium{media.ExpFog(0.1, Color{R: .5, G: .6, B: .7}, 1)}, stdLights(), objs...)
		f := s.ImageFunc(cameras.Projective(1.2).Translate(v(0, 1, 3)))
		at := func(a, b float64, pix, pass int) op {
			return func(ctx *tracer.Ctx) []float64 { ctx.Init(pix, pass); return col(f(ctx, a, b)) }
		}
		occ := func(ctx *tracer.Ctx) []float64 {
			r := ctx.Ray()
			r.Start, r.Dir = v(0, 0.01, 1), v(0, 1, -1).Normalized()
			c := s.Occlude(r, 3, Color{R: 1, G: 1, B: 1})
			f := append(col(c), r.Start[0], r.Start[1], r.Start[2])
			ctx.PutRay(r)
			return f
		}
		return []op{at(0.5, 0.5, 0, 0), at(0.6, 0.45, 1, 2), at(0.3, 0.7, 2, 1), occ}
	}},
}
