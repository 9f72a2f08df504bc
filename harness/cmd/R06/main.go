// R06: shadow rays are blocked by exactly what lies between the surface and the light.
package main

import (
	"fmt"
	"math"

	"github.com/barnex/bruteray/geom"
	"github.com/barnex/bruteray/texture"
	"github.com/barnex/bruteray/tracer"
	"github.com/barnex/bruteray/tracer/materials"
	"github.com/barnex/bruteray/tracer/objects"
	"verif/mc"
	. "verif/tx"
)

var (
	colA  = Color{R: 0.5, G: 0.8, B: 0.3}
	colB  = Color{R: 0.9, G: 0.25, B: 0.7}
	black = Color{}
	white = Color{R: 1, G: 1, B: 1}
)

// layer kinds: what they do to light passing one surface
var filters = []Color{black, colA, colB}

func mat(kind int) tracer.Material {
	switch kind {
	case 0:
		return materials.Matte(white)
	case 1:
		return materials.Transparent(colA, true)
	default:
		return materials.Transparent(texture.Func(func(p Vec) Color { return colB }), false)
	}
}

func main() {
	mc.Main("R06", "exploration",
		"A case is one arrangement of up to N layers (position before/between/behind, opaque or one of two filters, flat sheet or solid) in one order and grouping, with one light distance; the shadow ray is traced through Scene.Occlude and through a matte surface. Non-trivial: something lies in between.",
		func(r *mc.Run) {
			pos := []float64{-1, 1, 2, 3, 8} // light at 5
			shapes := 2                      // sheet or sphere
			maxN := r.Pick(3, 4)
			kinds := len(pos) * 3 * shapes
			for n := 0; n <= maxN; n++ {
				n := n
				dims := []int{3, 2} // grouping, direction of the ray
				for i := 0; i < n; i++ {
					dims = append(dims, kinds)
				}
				r.Space(fmt.Sprintf("layers-%d", n), dims, func(k *mc.K) {
					want := white
					var objs []objects.Interface
					between := 0
					for i := 0; i < n; i++ {
						x := k.Ix[2+i]
						z := pos[x%len(pos)]
						kind := x / len(pos) % 3
						sphere := x/len(pos)/3 == 1
						z += 0.2 * float64(i) / float64(maxN) // keep layers apart
						times := 1
						if sphere {
							objs = append(objs, objects.Sphere(mat(kind), 0.02, Vec{0, z, 0}))
							times = 2
						} else {
							objs = append(objs, objects.Rectangle(mat(kind), 2, 2, Vec{0.1, z, 0.13}))
						}
						if z > 0 && z < 5 {
							between++
							for j := 0; j < times; j++ {
								want = CMul3(want, filters[kind])
							}
						}
						k.Desc("layer %d at %.2f filter %v sphere %v", i, z, filters[kind], sphere)
					}
					var list []tracer.Object
					switch {
					case k.Ix[0] == 1 && n > 0: // all in one tree
						list = []tracer.Object{objects.Tree(objs...)}
					case k.Ix[0] == 2 && n > 1: // some grouped
						list = []tracer.Object{objs[n-1], objects.Tree(objs[:n-1]...)}
					default:
						for _, o := range objs {
							list = append(list, o)
						}
					}
					// lights do not cast shadows
					lm := Const(white)
					lightObj := objects.Rectangle(&lm, 1, 1, Vec{0, 2.5, 0})
					start, light := Vec{0, 0, 0}, Vec{0, 5, 0}
					if k.Ix[1] == 1 {
						start, light = Vec{0.001, 5, 0.001}, Vec{0.002, 0, 0.001}
					}
					dir := Unit(Sub(light, start))
					l := &Light{Pos: light, Intens: white, O: lightObj}
					s := tracer.NewScene(2, []tracer.Light{l}, list...)
					ray := tracer.Ray{Start: start, Dir: dir}
					ray0 := ray
					for rep := 0; rep < 2; rep++ {
						got := s.Occlude(&ray, Len(Sub(light, start)), Color{R: 1, G: 2, B: 0.5})
						k.Op(1)
						w := CMul3(want, Color{R: 1, G: 2, B: 0.5})
						if !CClose(got, w, 1e-9) {
							k.Fatal("light arriving through the layers: %v, want %v", got, w)
						}
						if ray != ray0 {
							k.Fatal("Occlude modified the ray: %v, was %v", ray, ray0)
						}
					}
					// the same through a matte surface: surface at the ray's start, facing the light
					refl := Color{R: 0.8, G: 0.7, B: 0.6}
					dot := objects.Disk(materials.Matte(refl), 0.004, Vec{0, -0.0005, 0})
					if k.Ix[1] == 1 {
						dot = objects.Disk(materials.Matte(refl), 0.004, Vec{0.001, 5.0005, 0.001})
					}
					s = tracer.NewScene(1, []tracer.Light{l}, append([]tracer.Object{dot}, list...)...)
					in := Unit(Vec{0.3, -1, 0.2})
					p := Vec{0, -0.0005, 0}
					if k.Ix[1] == 1 {
						in = Unit(Vec{0.3, 1, 0.2})
						p = Vec{0.001, 5.0005, 0.001}
					}
					ctx := tracer.NewCtx(1)
					ctx.Init(0, 0)
					got := s.LightField(ctx, &tracer.Ray{Start: Sub(p, Scale(0.0003, in)), Dir: in})
					if w := CMul3(want, refl); !CClose(got, w, 1e-5) { // light is nearly perpendicular
						k.Fatal("matte surface lit through the layers: %v, want %v", got, w)
					}
					k.Op(1)
					if between == 0 {
						k.Trivial()
					}
					k.Saw(want, k.Ix)
				})
			}
			// all sequences of shadow rays on one scene with objects of mixed materials
			mixed := func(variant int) []tracer.Object {
				ball := objects.Sphere(mat(0), 1, Vec{0, 1, 0})            // opaque at x=0
				sheetA := objects.Rectangle(mat(1), 1, 1, Vec{2, 1, 0})    // colA at x=2
				sheetB := objects.Rectangle(mat(2), 1, 1, Vec{4, 1, 0})    // colB at x=4
				over := objects.Rectangle(mat(1), 5.5, 1, Vec{2.25, 2, 0}) // colA over all of them
				high := objects.Sphere(mat(0), 0.9, Vec{4, 6, 0})          // opaque, high above x=4
				switch variant {
				case 0:
					return []tracer.Object{objects.Tree(ball, sheetA, sheetB), over, high}
				case 1:
					return []tracer.Object{over, objects.Tree(high, sheetB, sheetA, ball)}
				case 2:
					return []tracer.Object{objects.Or(ball, objects.Tree(sheetA, high)), sheetB, over}
				case 3:
					t := objects.Tree(over, ball, sheetA)
					return []tracer.Object{objects.Translated(objects.Translated(t, Vec{1, 2, 3}), Vec{-1, -2, -3}), objects.Bounded(objects.Tree(sheetB, high))}
				default:
					return []tracer.Object{sheetB, high, objects.Tree(objects.Tree(sheetA, objects.Tree(over)), ball)}
				}
			}
			type shadow struct {
				start, end Vec
				want       Color
			}
			var shadows []shadow
			for i, x := range []float64{0, 2, 4} {
				f := filters[i] // black, colA, colB
				shadows = append(shadows,
					shadow{Vec{x, 0, 0.01}, Vec{x, 5, 0.01}, CMul3(f, colA)},  // through the part and the cover
					shadow{Vec{x + 0.1, 0, 0.01}, Vec{x + 0.1, 1.7, 0.01}, f}, // through the part only
					shadow{Vec{x, 1.7, 0.01}, Vec{x, 3, 0.01}, colA},          // through the cover only
					shadow{Vec{x, 0.1, 0.01}, Vec{x, 0.3, 0.01}, white})       // ends before
			}
			shadows = append(shadows,
				shadow{Vec{4, 0, 0.1}, Vec{4, 9, 0.1}, black},
				shadow{Vec{4, 4, 0.1}, Vec{4, 9, 0.1}, black},
				shadow{Vec{4, 9, 0.1}, Vec{4, 7, 0.1}, white},
				shadow{Vec{2, 4, 0.1}, Vec{2, 9, 0.1}, white})
			hist := r.Pick(3, 4)
			dims := []int{5}
			for i := 0; i < hist; i++ {
				dims = append(dims, len(shadows))
			}
			r.Space(fmt.Sprintf("history-%d", hist), dims, func(k *mc.K) {
				s := tracer.NewScene(2, nil, mixed(k.Ix[0])...)
				for _, i := range k.Ix[1:] {
					sh := shadows[i]
					d := Sub(sh.end, sh.start)
					k.Desc("scene %d shadow ray from %v to %v", k.Ix[0], sh.start, sh.end)
					got := s.Occlude(&tracer.Ray{Start: sh.start, Dir: Unit(d)}, Len(d), white)
					k.Op(1)
					if !CClose(got, sh.want, 1e-9) {
						k.Fatal("transmitted %v, want %v", got, sh.want)
					}
				}
				k.Saw(k.Ix)
			})
			// many transparent surfaces of a single object, and the exact extent of the shadow ray
			r.Space("stack", []int{r.Pick(20, 60) + 4, 2, 3}, func(k *mc.K) {
				n := k.Ix[0] + 1
				if i := k.Ix[0] - r.Pick(20, 60); i >= 0 {
					n = []int{99, 100, 101, 800}[i]
				}
				f := 0.9
				if n > 500 {
					f = 0.99
				}
				m := materials.Transparent(Color{R: f, G: f, B: f}, true)
				var o []objects.Interface
				for i := 0; i < n; i++ {
					o = append(o, objects.Rectangle(m, 2, 2, Vec{0.1, 1 + 0.1*float64(i), 0.2}))
				}
				end := 1 + 0.1*float64(n) + 0.05
				cnt := n
				switch k.Ix[2] {
				case 1:
					end = 1 + 0.1*float64(n-1) - 0.05
					cnt = n - 1
				case 2:
					end = 0.95
					cnt = 0
				}
				var list []tracer.Object
				if k.Ix[1] == 0 {
					list = []tracer.Object{objects.Tree(o...)}
				} else {
					for _, x := range o {
						list = append(list, x)
					}
				}
				s := tracer.NewScene(1, nil, list...)
				got := s.Occlude(&tracer.Ray{Start: Vec{}, Dir: Vec{0, 1, 0}}, end, white)
				if w := math.Pow(f, float64(cnt)); math.Abs(got.R-w) > 1e-9*w {
					k.Fail("%d transparent layers, light at %v: %v, want %v", n, end, got.R, w)
				}
				k.Op(1)
				k.Saw(k.Ix)
			})
			// coloured windows: each surface lets through the colour it has there, however the object was made and moved
			pattern := texture.Func(func(p Vec) Color {
				f := func(x float64) float64 { return 0.5 + 0.4*math.Sin(x) }
				return Color{R: f(5*p[0] + 1), G: f(4*p[1] + 3*p[0]), B: f(3*p[2] - 2*p[1])}
			})
			windows := []func(m tracer.Material) objects.Interface{
				func(m tracer.Material) objects.Interface { return objects.Sphere(m, 1.2, Vec{0.1, 0.2, -0.1}) },
				func(m tracer.Material) objects.Interface { return objects.Rectangle(m, 1.5, 1.1, Vec{0.1, 0.2, -0.1}) },
				func(m tracer.Material) objects.Interface {
					return objects.RectangleWithVertices(m, Vec{-1, -0.5, 0}, Vec{1, -0.7, 0.3}, Vec{-0.8, 1, 0.2})
				},
				func(m tracer.Material) objects.Interface {
					return objects.Triangle(m, Vec{-1, -0.5, 0}, Vec{1, -0.7, 0.3}, Vec{-0.8, 1, 0.2})
				},
				func(m tracer.Material) objects.Interface { return objects.Cylinder(m, 1, 1.2, Vec{0.1, 0, 0}) },
				func(m tracer.Material) objects.Interface { return objects.Box(m, 1, 1.2, 0.8, Vec{0.1, 0, 0}) },
				func(m tracer.Material) objects.Interface { return objects.Disk(m, 1.4, Vec{0.1, 0, 0.2}) },
				func(m tracer.Material) objects.Interface {
					return objects.Parametric(m, 6, 7, func(u, v float64) Vec { return Vec{2*u - 1, 0.3 * math.Sin(4*u+3*v), 2*v - 1} })
				},
				func(m tracer.Material) objects.Interface {
					return objects.And(objects.Sphere(m, 1.6, Vec{}), objects.Box(m, 1.2, 1.2, 1.2, Vec{0.2, 0, 0}))
				},
				func(m tracer.Material) objects.Interface {
					return objects.Tree(objects.Sphere(m, 0.8, Vec{0.3, 0, 0}), objects.Rectangle(m, 2, 2, Vec{0, -0.6, 0}))
				},
			}
			moves := []func(o objects.Interface) objects.Interface{
				func(o objects.Interface) objects.Interface { return o },
				func(o objects.Interface) objects.Interface { return objects.Translated(o, Vec{0.4, 0.3, -0.2}) },
				func(o objects.Interface) objects.Interface {
					return objects.Transformed(o, geom.Rotate(Vec{0.2, 0, 0}, Vec{0.6, 0, 0.8}, 0.7))
				},
				func(o objects.Interface) objects.Interface {
					return objects.Tree(objects.Transformed(o, geom.Scale(Vec{0, 0.1, 0}, 0.6)))
				},
				func(o objects.Interface) objects.Interface {
					return objects.Transformed(objects.Bounded(objects.Translated(o, Vec{0.4, 0.3, -0.2})), geom.Yaw(1.1))
				},
			}
			nw := r.Pick(6, 12)
			r.Space("windows", []int{len(windows), len(moves), nw, nw, 2}, func(k *mc.K) {
				glass := tracer.NewScene(1, nil, moves[k.Ix[1]](windows[k.Ix[0]](materials.Transparent(pattern, k.Ix[4] == 1))))
				flat := moves[k.Ix[1]](windows[k.Ix[0]](materials.Flat(pattern)))
				shown := tracer.NewScene(1, nil, flat)
				at := func(i int) float64 { return (float64(i)+0.5)/float64(nw)*1.6 - 0.8 }
				start, end := Vec{at(k.Ix[2]), 3, at(k.Ix[3])}, Vec{at(k.Ix[3]), -3.1, 0.9 * at(k.Ix[2])}
				ray := tracer.Ray{Start: start, Dir: Unit(Sub(end, start))}
				dist := Len(Sub(end, start))
				// march along the ray, looking at each surface in turn
				want := white
				pos, n := 0.0, 0
				ctx := tracer.NewCtx(1)
				sane := true
				for ; n < 20; n++ {
					ctx.Init(0, 0)
					r := tracer.Ray{Start: ray.At(pos), Dir: ray.Dir}
					h := flat.Intersect(&r)
					if !(h.T > 0) {
						break
					}
					c := shown.LightField(ctx, &r)
					if h.T < 1e-4 {
						sane = false // two surfaces (nearly) at the same place
					}
					// the part of the way up to this surface, and just beyond it
					if got := glass.Occlude(&ray, pos+h.T-1e-5, white); sane && !CClose(got, want, 1e-9) {
						k.Fatal("window %d moved %d, ray %v up to surface %d: %v, want %v", k.Ix[0], k.Ix[1], ray, n, got, want)
					}
					want = CMul3(want, c)
					pos += h.T + 1e-5
					k.Op(1)
				}
				if !sane {
					k.Trivial()
					return
				}
				got := glass.Occlude(&ray, dist, white)
				if !CClose(got, want, 1e-9) {
					k.Fatal("window %d moved %d, ray %v: %v, want %v after %d surfaces", k.Ix[0], k.Ix[1], ray, got, want, n)
				}
				if n == 0 {
					k.Trivial()
				}
				k.Saw(got, k.Ix)
			})
			// something just in front of, or just behind, the surface or the light
			gaps := []float64{1e-5, 1e-4, 1e-3, 1e-2, 0.1}
			dists := []float64{0.05, 0.3, 1, 7, 100, 1e4}
			r.Space("close", []int{len(gaps), len(dists), 5, 3, 4}, func(k *mc.K) {
				gap, dist, kind := gaps[k.Ix[0]], dists[k.Ix[1]], k.Ix[3]
				if gap > dist/3 {
					k.Trivial()
					return
				}
				up := Unit([]Vec{{0, 1, 0}, {0.1, 1, 0.05}, {1, 2, -1}, {-1, 0.4, 0.3}}[k.Ix[4]])
				light := Scale(dist, up)
				at := []float64{gap, dist - gap, dist + gap, -gap, 1e9}[k.Ix[2]]
				want := white
				if k.Ix[2] < 2 {
					want = filters[kind]
				}
				ta, tb := Orthogonal(up)
				c := Scale(at, up) // a square, perpendicular to the light's direction
				sz := 0.3
				corner := func(a, b float64) Vec { return Add(c, Add(Scale(a*sz, ta), Scale(b*sz, tb))) }
				pane := objects.RectangleWithVertices(mat(kind), corner(-1.1, -0.9), corner(1.2, -0.9), corner(-1.1, 1))
				k.Desc("light at %v, filter %v at %v", light, filters[kind], at)
				got := tracer.NewScene(1, nil, pane).Occlude(&tracer.Ray{Dir: up}, dist, white)
				k.Op(1)
				if !CClose(got, want, 1e-9) {
					k.Fatal("light arriving: %v, want %v", got, want)
				}
				// on a matte surface perpendicular to the light's direction, seen from very close
				refl := Color{R: 0.8, G: 0.7, B: 0.6}
				c = Vec{}
				floor := objects.RectangleWithVertices(materials.Matte(refl), corner(-1, -1.1), corner(1.2, -1.1), corner(-1, 0.9))
				s := tracer.NewScene(1, []tracer.Light{&Light{Pos: light, Intens: white, O: Nothing}}, floor, pane)
				in := Unit(Add(Scale(-1, up), Scale(0.4, ta)))
				ctx := tracer.NewCtx(1)
				ctx.Init(0, 0)
				got = s.LightField(ctx, &tracer.Ray{Start: Scale(-0.4*gap, in), Dir: in})
				k.Op(1)
				if w := CMul3(want, refl); !CClose(got, w, 1e-5) {
					k.Fatal("matte surface: %v, want %v", got, w)
				}
				k.Saw(k.Ix)
			})
			// any number of objects, an opaque one at every position in the list, at all scales and strengths of the light
			scales := []float64{0.01, 1, 1e4}
			strengths := []Color{{R: 1, G: 1, B: 1}, {R: 1e-7, G: 2e-7, B: 0}, {R: 0, G: 1e8, B: 3}}
			r.Space("many", []int{r.Pick(40, 140), len(scales), len(strengths), 3}, func(k *mc.K) {
				n, sc, light := k.Ix[0]+1, scales[k.Ix[1]], strengths[k.Ix[2]]
				glass := materials.Transparent(Color{R: 0.9, G: 1, B: 0.95}, true)
				build := func(opaque int) *tracer.Scene {
					var o []objects.Interface
					for i := 0; i < n; i++ {
						m := glass
						if i == opaque {
							m = materials.Matte(Color{R: 0.5, G: 0.5, B: 0.5})
						}
						pos := i / 2 // not in order
						if i%2 == 1 {
							pos = n - 1 - i/2
						}
						y := 1 + float64(pos)/float64(n)
						if k.Ix[3] == 2 && i%2 == 1 {
							o = append(o, objects.Sphere(m, 0.1*sc/float64(n), Vec{0, y * sc, 0}))
						} else {
							o = append(o, objects.Rectangle(m, 2*sc, 2*sc, Vec{0.1 * sc, y * sc, 0.2 * sc}))
						}
					}
					if k.Ix[3] == 1 {
						return tracer.NewScene(1, nil, objects.Tree(o...))
					}
					var list []tracer.Object
					for _, x := range o {
						list = append(list, x)
					}
					return tracer.NewScene(1, nil, list...)
				}
				cnt := float64(n)
				if k.Ix[3] == 2 {
					cnt += float64(n / 2) // two surfaces each
				}
				clear := CMul3(light, Color{R: math.Pow(0.9, cnt), G: 1, B: math.Pow(0.95, cnt)})
				for opaque := -1; opaque < n; opaque++ {
					s := build(opaque)
					// past all of them, from behind all of them, and in between
					for _, c := range []struct {
						from, to float64
						want     Color
					}{{0, 3, clear}, {3, 0, clear}, {3, 4, light}, {0, 0.9, light}, {0.9, 0, light}} {
						d := c.to - c.from
						dir := Vec{0, 1, 0}
						if d < 0 {
							d, dir = -d, Vec{0, -1, 0}
						}
						want := c.want
						if opaque >= 0 && want == clear && c.to*c.from == 0 && d == 3 {
							want = Color{}
						}
						got := s.Occlude(&tracer.Ray{Start: Vec{0, c.from * sc, 0}, Dir: dir}, d*sc, light)
						k.Op(1)
						if !mc.CloseV([3]float64{got.R, got.G, got.B}, [3]float64{want.R, want.G, want.B}, 1e-9*(1e-7+math.Max(math.Max(light.R, light.G), light.B))) {
							k.Fatal("%d objects (kind %d), number %d opaque, scale %v, from %v to %v: %v of %v, want %v", n, k.Ix[3], opaque, sc, c.from, c.to, got, light, want)
						}
					}
				}
				k.Saw(k.Ix)
			})
		})
}
