// A01: a Spec renders exactly the scene it specifies, with documented defaults for what it leaves out.
package main

import (
	"bytes"
	"fmt"
	"image"
	_ "image/jpeg"
	_ "image/png"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
	"sync/atomic"

	"github.com/barnex/bruteray/api"
	"github.com/barnex/bruteray/geom"
	"github.com/barnex/bruteray/imagef/colorf"
	"github.com/barnex/bruteray/imagef/post"
	"github.com/barnex/bruteray/tracer"
	"github.com/barnex/bruteray/tracer/cameras"
	"verif/mc"
	. "verif/tx"
)

// cam is a camera with recognizable rays.
type cam struct{ start, fwd Vec }

func (c *cam) RayFrom(ctx *tracer.Ctx, u, v float64) *tracer.Ray {
	r := ctx.Ray()
	r.Start = c.start
	r.Dir = Unit(Add(c.fwd, Vec{u - 0.5, v - 0.5, 0}))
	return r
}

func rotY(a float64, v Vec) Vec {
	s, c := math.Sincos(a)
	return Vec{c*v[0] + s*v[2], v[1], -s*v[0] + c*v[2]}
}
func rotX(a float64, v Vec) Vec {
	s, c := math.Sincos(a)
	return Vec{v[0], c*v[1] - s*v[2], s*v[1] + c*v[2]}
}

var uvs = [][2]float64{{0.5, 0.5}, {0, 0}, {1, 1}, {0.25, 0.75}, {0.9, 0.31}}

// medium multiplies by a factor and adds a constant, so that the order shows.
type medium struct{ f, a float64 }

func (m medium) Filter(ctx *tracer.Ctx, s *tracer.Scene, r *tracer.Ray, tMax float64, orig Color) Color {
	return Color{R: m.f*orig.R + m.a, G: m.f*orig.G + m.a, B: m.f*orig.B + m.a}
}

// mirror goes straight on behind the surface, darker.
var through = Func(func(ctx *tracer.Ctx, s *tracer.Scene, r *tracer.Ray, h tracer.HitCoords) Color {
	r2 := &tracer.Ray{Start: r.At(h.T + 1e-6), Dir: r.Dir}
	return CAdd(CMul(0.5, s.LightField(ctx, r2)), Color{R: 0.125})
})

var bloom = post.BloomParams{Radius: 0.2, Amplitude: 0.5, Threshold: 0.25}

func child() {
	var kind string
	var w, h, passes int
	fmt.Sscan(os.Getenv("A01_CHILD"), &kind, &w, &h, &passes)
	if kind == "animate" {
		n := passes
		api.Animate(n, func(i int) api.Spec {
			g := float64(i+1) / float64(n+1)
			return api.Spec{Width: w, Height: h, NumPass: 1 + i%2, Objects: []api.Object{api.Backdrop(api.Flat(api.C(g, g, g)))}}
		})
		os.Exit(0)
	}
	s := api.Spec{Width: w, Height: h, NumPass: passes, Objects: []api.Object{api.Backdrop(countMat)}}
	if kind == "bloom" {
		s.PostProcess.Gaussian = bloom
	}
	api.Render(s)
	fmt.Println("SAMPLES", n.Load())
	os.Exit(0)
}

var n atomic.Int64

// countMat: the left half of the view is red, the upper half green, everything a bit blue; alternating blue averages out.
var countMat = Func(func(ctx *tracer.Ctx, s *tracer.Scene, r *tracer.Ray, h tracer.HitCoords) Color {
	n.Add(1)
	c := Color{B: 0.25}
	if r.Dir[0] < 0 {
		c.R = 1
	}
	if r.Dir[1] > 0 {
		c.G = 0.5
	}
	return c
})

func main() {
	if os.Getenv("A01_CHILD") != "" {
		child()
	}
	mc.Main("A01", "exploration",
		"defaults: every combination of set/unset fields of a Spec from listed values; views: every combination of the fields of a View applied to Specs; scenes: every subset of objects, lights and media (in order) and every recursion limit; render: the program itself in a child process for every listed size, number of passes, format. Non-trivial: always.",
		func(r *mc.Run) {
			sizes := []int{0, 1, 2, 7, 16, 100, 540, 960, 1000}
			if r.Thorough() {
				sizes = append(sizes, 3, 9, 17, 301, 1080, 1920, 4096)
			}
			recs := []int{0, 1, 2, 7}
			npass := []int{0, 1, 5, 300}
			base := &cam{Vec{1, 2, 3}, Vec{0, 0, -2}}
			mkSpec := func() api.Spec {
				return api.Spec{
					Objects: []api.Object{api.Sphere(api.Flat(api.Red), 1, Vec{0, 1, -3}), api.Backdrop(api.Flat(api.Blue))},
					Lights:  []api.Light{&Light{O: Nothing}},
					Media:   []api.Medium{medium{2, 1}},
				}
			}
			ray := func(c tracer.Camera, u, v float64) (Vec, Vec) {
				r := c.RayFrom(tracer.NewCtx(1), u, v)
				return r.Start, r.Dir
			}
			sameRay := func(k *mc.K, what string, c tracer.Camera, want func(u, v float64) (Vec, Vec)) {
				for _, uv := range uvs {
					s, d := ray(c, uv[0], uv[1])
					ws, wd := want(uv[0], uv[1])
					if !mc.CloseV(s, ws, 1e-9) || !mc.CloseV(d, wd, 1e-9) {
						k.Fatal("%s: ray of %v: %v %v, want %v %v", what, uv, s, d, ws, wd)
					}
				}
			}
			wantSize := func(w, h int) func(W, H int) bool {
				near := func(a int, x float64) bool { return math.Abs(float64(a)-x) < 1 }
				switch {
				case w == 0 && h == 0:
					return func(W, H int) bool { return W == 960 && H == 540 }
				case w == 0:
					return func(W, H int) bool { return H == h && near(W, float64(h)*16/9) }
				case h == 0:
					return func(W, H int) bool { return W == w && near(H, float64(w)*9/16) }
				}
				return func(W, H int) bool { return W == w && H == h }
			}
			isoRay := func(dir int, size float64) func(u, v float64) (Vec, Vec) {
				c := cameras.Isometric(dir, size) // the camera itself is checked by K01
				return func(u, v float64) (Vec, Vec) { return ray(c, u, v) }
			}
			defCam := func(u, v float64) (Vec, Vec) { return Vec{0, 1, 0}, Unit(Vec{u - 0.5, v - 0.5, -0.5}) }
			camOf := func(c *cam) func(u, v float64) (Vec, Vec) {
				return func(u, v float64) (Vec, Vec) { return ray(c, u, v) }
			}
			// what is seen, through the Spec's own image function
			look := func(s *api.Spec, u, v float64) Color {
				return s.ImageFunc()(tracer.NewCtx(1), u, v)
			}
			r.Space("defaults", []int{len(sizes), len(sizes), len(recs), len(npass), 2, 3, 4}, func(k *mc.K) {
				s := mkSpec()
				s.Width, s.Height = sizes[k.Ix[0]], sizes[k.Ix[1]]
				s.Recursion, s.NumPass = recs[k.Ix[2]], npass[k.Ix[3]]
				want := defCam
				if k.Ix[4] == 1 {
					s.Camera = base
					want = camOf(base)
				}
				s.DebugNormals = k.Ix[5]
				if k.Ix[6] > 0 {
					s.DebugIsometricDir = k.Ix[6] - 1
					s.DebugIsometricFOV = 4 + float64(k.Ix[6])
					want = isoRay(k.Ix[6]-1, s.DebugIsometricFOV)
				}
				orig := s
				objs := append([]api.Object{}, s.Objects...)
				k.Desc("%+v", s)
				s.InitDefaults()
				k.Op(1)
				if !wantSize(orig.Width, orig.Height)(s.Width, s.Height) {
					k.Fatal("size %dx%d from %dx%d", s.Width, s.Height, orig.Width, orig.Height)
				}
				if wantN := max(orig.NumPass, 1); s.NumPass != wantN {
					k.Fatal("%d passes from %d", s.NumPass, orig.NumPass)
				}
				if wantR := max(orig.Recursion, 1); s.Recursion != wantR && k.Ix[5] != 2 {
					k.Fatal("recursion %d from %d", s.Recursion, orig.Recursion)
				}
				sameRay(k, "camera", s.Camera, want)
				if !reflect.DeepEqual(s.PostProcess, orig.PostProcess) || len(s.Lights) != 1 || s.Lights[0] != orig.Lights[0] {
					k.Fatal("other settings changed")
				}
				for i := range objs {
					if orig.Objects[i] != objs[i] {
						k.Fatal("the caller's objects changed")
					}
				}
				if k.Ix[5] == 0 {
					if len(s.Objects) != 2 || s.Objects[0] != objs[0] || s.Objects[1] != objs[1] || len(s.Media) != 1 {
						k.Fatal("objects or media changed")
					}
				} else if len(s.Objects) != 2 || len(s.Media) != 0 {
					k.Fatal("debugging: %d objects, %d media", len(s.Objects), len(s.Media))
				}
				// again: nothing changes
				if k.Ix[5] == 0 {
					t := s
					t.InitDefaults()
					if t.Width != s.Width || t.Height != s.Height || t.NumPass != s.NumPass || t.Recursion != s.Recursion {
						k.Fatal("defaults applied again: %+v", t)
					}
				}
				k.Saw(k.Ix)
			})
			// debugging normals: an object shows the component of its normal towards the camera, whatever its material; the backdrop is black
			mats := []api.Material{api.Flat(api.C(0.3, 0.2, 0.9)), api.Matte(api.White), api.Reflective(api.Red), api.Transparent(api.Green, true), nil}
			r.Space("normals", []int{len(mats), 2, 2, r.Pick(12, 60)}, func(k *mc.K) {
				sph := api.Sphere(mats[k.Ix[0]], 2, Vec{0, 0, -3})
				back := api.Backdrop(api.Flat(api.White))
				s := api.Spec{Objects: []api.Object{sph, back}, Media: []api.Medium{medium{3, 1}}, Camera: &cam{Vec{0, 0, 0}, Vec{0, 0, -2}}, DebugNormals: 1, Width: 8, Height: 8}
				if k.Ix[1] == 1 {
					s.Objects[0], s.Objects[1] = back, sph
				}
				if k.Ix[2] == 1 {
					s.Objects[1-k.Ix[1]], s.Objects[k.Ix[1]] = s.Objects[1-k.Ix[1]], api.Tree(sph)
				}
				s.InitDefaults()
				nn := r.Pick(12, 60)
				for j := 0; j < nn; j++ {
					u, v := (float64(k.Ix[3])+0.5)/float64(nn), (float64(j)+0.5)/float64(nn)
					_, d := ray(s.Camera, u, v)
					got := look(&s, u, v)
					k.Op(1)
					want := Color{}
					// sphere of radius 1 at distance 3
					b := 3 * -d[2]
					disc := b*b - 8
					if math.Abs(disc) < 1e-6 {
						continue
					}
					if disc > 0 {
						t := b - math.Sqrt(disc)
						nrm := Sub(Scale(t, d), Vec{0, 0, -3})
						c := -Dot(nrm, d)
						want = Color{R: c, G: c, B: c}
					}
					if !CClose(got, want, 1e-6) {
						k.Fatal("at (%v,%v): %v, want %v", u, v, got, want)
					}
					k.SawF(got.R)
				}
			})
			// views
			yaws := []float64{0, 0.3, -2, math.Pi / 2}
			pitches := []float64{0, 0.4, -1.1}
			poss := []Vec{{0, 0, 0}, {1, -2, 0.5}, {100, 3, -7}}
			r.Space("views", []int{5, 5, len(yaws), len(pitches), len(poss), 3, 4, 3}, func(k *mc.K) {
				s := mkSpec()
				s.Recursion, s.NumPass = 3, 7
				var bc tracer.Camera = base
				base0, pos0, rot0 := base, Vec{}, func(v Vec) Vec { return v }
				switch k.Ix[7] {
				case 1:
					bc = cameras.Transform(base, unitMatrix(), Vec{5, 6, 7})
					pos0 = Vec{5, 6, 7}
				case 2:
					bc = cameras.Transform(base, unitMatrix(), Vec{}).YawPitchRoll(0.7, 0, 0).Translate(Vec{-1, 0, 2})
					pos0 = Vec{-1, 0, 2}
					rot0 = func(v Vec) Vec { return rotY(0.7, v) }
				}
				s.Camera = bc
				s.DebugIsometricFOV, s.DebugIsometricDir, s.DebugNormals = 99, 1, 2 // overridden by the view
				s.Width, s.Height = 33, 44
				w, h := sizes[k.Ix[0]], sizes[k.Ix[1]]
				v := api.View{Width: w, Height: h, CamYaw: yaws[k.Ix[2]], CamPitch: pitches[k.Ix[3]], CamPos: poss[k.Ix[4]], DebugNormals: k.Ix[5], AntiAlias: k.Ix[2]%2 == 0}
				rot := func(x Vec) Vec { return rotY(v.CamYaw, rotX(v.CamPitch, rot0(x))) }
				want := func(u, vv float64) (Vec, Vec) {
					s, d := ray(base0, u, vv)
					return Add(Add(rot(s), pos0), v.CamPos), rot(d)
				}
				v.DebugIsometricDir, v.DebugIsometricFOV = 2, 5 // without effect, unless switched on
				if k.Ix[6] > 0 {
					v.DebugIsometric, v.DebugIsometricDir, v.DebugIsometricFOV = true, k.Ix[6]-1, float64(k.Ix[6])
					want = isoRay(v.DebugIsometricDir, v.DebugIsometricFOV)
				}
				objs := append([]api.Object{}, s.Objects...)
				light := s.Lights[0]
				before := s
				v0 := v
				got := v.ApplyTo(s)
				k.Op(1)
				k.Desc("%+v", v)
				if v != v0 || s.Camera != before.Camera || s.Width != 33 || s.Height != 44 || len(s.Objects) != 2 || s.Objects[0] != objs[0] || s.Objects[1] != objs[1] || len(s.Media) != 1 || s.Media[0] != (medium{2, 1}) || len(s.Lights) != 1 || s.Lights[0] != light {
					k.Fatal("the original Spec or View changed")
				}
				if !wantSize(w, h)(got.Width, got.Height) {
					k.Fatal("size %dx%d, want %dx%d", got.Width, got.Height, w, h)
				}
				if got.NumPass != 7 || (v.DebugNormals != 2 && got.Recursion != 3) {
					k.Fatal("passes %v recursion %v", got.NumPass, got.Recursion)
				}
				sameRay(k, "camera of the view", got.Camera, want)
				if k.Ix[6] == 0 {
					sameRay(k, "original camera", s.Camera, func(u, vv float64) (Vec, Vec) {
						s, d := ray(base0, u, vv)
						return Add(rot0(s), pos0), rot0(d)
					})
				}
				if v.DebugNormals == 0 {
					if len(got.Objects) != 2 || got.Objects[0] != objs[0] || got.Objects[1] != objs[1] || len(got.Media) != 1 || got.Media[0] != (medium{2, 1}) || len(got.Lights) != 1 || got.Lights[0] != light {
						k.Fatal("objects, lights or media changed")
					}
				} else if got.Media != nil && len(got.Media) != 0 {
					k.Fatal("media while debugging")
				}
				k.Saw(k.Ix)
			})
			// scenes: all subsets
			r.Space("scenes", []int{32, 8, 4, 5}, func(k *mc.K) {
				// objects 0..3: flat planes at increasing distance; object 4: a veil in front of all
				var s api.Spec
				s.Camera = &cam{Vec{}, Vec{0, 0, -2}}
				s.Recursion = k.Ix[3]
				cols := []Color{{R: 1, G: 2, B: 3}, {R: 4, G: 5, B: 6}, {R: 7, G: 8, B: 9}, {R: 0.1, G: 0.2, B: 0.3}}
				for i := 3; i >= 0; i-- {
					if k.Ix[0]>>uint(i)&1 == 1 {
						z := -2 - float64(i)
						s.Objects = append(s.Objects, api.RectangleWithVertices(api.Flat(cols[i]), Vec{-9, -9, z}, Vec{9, -9, z}, Vec{-9, 9, z}))
					}
				}
				if k.Ix[0]>>4&1 == 1 {
					s.Objects = append(s.Objects, api.RectangleWithVertices(through, Vec{-9, -9, -1}, Vec{9, -9, -1}, Vec{-9, 9, -1}))
				}
				lcols := []Color{{R: 10}, {G: 20}, {B: 30}}
				for i := 0; i < 3; i++ {
					if k.Ix[1]>>uint(i)&1 == 1 {
						c := Const(lcols[i])
						s.Lights = append(s.Lights, &Light{O: Plane(Vec{0, 0, -1.5 - float64(i)}, Vec{0, 0, 1}, Vec{}, &c)})
					}
				}
				media := []medium{{2, 1}, {0.5, 3}}
				var ms []medium
				for i := range media {
					if k.Ix[2]>>uint(i)&1 == 1 {
						s.Media = append(s.Media, media[i])
						ms = append(ms, media[i])
					}
				}
				s.Width, s.Height = 4, 4
				s.InitDefaults()
				rec := max(k.Ix[3], 1)
				filter := func(c Color) Color {
					for _, m := range ms {
						c = Color{R: m.f*c.R + m.a, G: m.f*c.G + m.a, B: m.f*c.B + m.a}
					}
					return c
				}
				// nearest: lights at 1.5, 2.5, 3.5; objects at 2, 3, 4, 5
				best, z := Color{}, 1e9
				for i := 0; i < 4; i++ {
					if k.Ix[0]>>uint(i)&1 == 1 && 2+float64(i) < z {
						best, z = cols[i], 2+float64(i)
					}
				}
				for i := 0; i < 3; i++ {
					if k.Ix[1]>>uint(i)&1 == 1 && 1.5+float64(i) < z {
						best, z = lcols[i], 1.5+float64(i)
					}
				}
				want := filter(best)
				if k.Ix[0]>>4&1 == 1 {
					if rec == 1 {
						want = Color{}
					}
					want = filter(CAdd(CMul(0.5, want), Color{R: 0.125}))
				}
				for _, uv := range uvs {
					k.Op(1)
					if got := look(&s, uv[0], uv[1]); !CClose(got, want, 1e-9) {
						k.Fatal("at %v: %v, want %v", uv, got, want)
					}
				}
				k.Saw(k.Ix)
			})
			// The program: files with the right image.
			outs := []string{"out.jpeg", "a.b.png", "x.jpg"}
			dims := [][2]int{{2, 2}, {8, 6}, {6, 10}, {33, 17}}
			passes := []int{1, 2, 3, 4, 7}
			if r.Thorough() {
				passes = append(passes, 5, 6, 8, 9, 10, 16, 40)
			}
			r.Space("render", []int{len(outs), len(dims), len(passes), 2}, func(k *mc.K) {
				dir, err := os.MkdirTemp(os.Getenv("VERIF_WORK"), "r")
				if err != nil {
					panic(err)
				}
				defer os.RemoveAll(dir)
				out, w, h, np := outs[k.Ix[0]], dims[k.Ix[1]][0], dims[k.Ix[1]][1], passes[k.Ix[2]]
				kind := "plain"
				if k.Ix[3] == 1 {
					kind = "bloom"
				}
				log := run(k, dir, out, fmt.Sprintf("%s %d %d %d", kind, w, h, np))
				i := strings.Index(log, "SAMPLES ")
				if i < 0 {
					k.Fatal("no SAMPLES in output: %s", log)
				}
				samples, _ := strconv.Atoi(strings.Fields(log[i:])[1])
				if samples < np*w*h || samples%(w*h) != 0 {
					k.Fatal("%d samples for %d passes of %d pixels", samples, np, w*h)
				}
				ppm := readPPM(k, filepath.Join(dir, strings.TrimSuffix(out, filepath.Ext(out))+".ppm"), w, h)
				b, err := os.ReadFile(filepath.Join(dir, out))
				if err != nil {
					k.Fatal("%v", err)
				}
				img, _, err := image.Decode(bytes.NewReader(b))
				if err != nil || img.Bounds() != image.Rect(0, 0, w, h) {
					k.Fatal("%s: %v %v", out, err, img)
				}
				lo := func(c float64) float64 { return enc(c) }
				for y := 0; y < h; y++ {
					for x := 0; x < w; x++ {
						k.Op(1)
						p := ppm[3*(y*w+x):]
						if filepath.Ext(out) == ".png" {
							R, G, B, _ := img.At(x, y).RGBA()
							for c, v := range []uint32{R, G, B} {
								if d := int(v>>8) - p[c]>>8; d < -1 || d > 1 {
									k.Fatal("pixel (%d,%d): png %v, ppm %v", x, y, []uint32{R, G, B}, p[:3])
								}
							}
						}
						if (w%2 == 1 && x == w/2) || (h%2 == 1 && y == h/2) {
							continue // straddles the middle
						}
						want := Color{B: 0.25}
						if x < w/2 {
							want.R = 1
						}
						if y < h/2 {
							want.G = 0.5
						}
						for c, v := range []float64{want.R, want.G, want.B} {
							got := float64(p[c]) / 65535
							if kind == "plain" && math.Abs(got-lo(v)) > 1e-4 {
								k.Fatal("pixel (%d,%d) of %dx%d: channel %d is %v, want %v", x, y, w, h, c, got, lo(v))
							}
							if kind == "bloom" && got < lo(v)-1e-4 {
								k.Fatal("bloom: pixel (%d,%d) of %dx%d: channel %d is %v, want at least %v", x, y, w, h, c, got, lo(v))
							}
						}
					}
				}
				if kind != "plain" && w%2 == 0 && h%2 == 0 {
					// every pixel is exactly known: the picture is what post-processing (checked by I02) makes of it, with radii in fractions of the width
					exact := make([][]Color, h)
					for y := range exact {
						exact[y] = make([]Color, w)
						for x := range exact[y] {
							exact[y][x] = Color{B: 0.25}
							if x < w/2 {
								exact[y][x].R = 1
							}
							if y < h/2 {
								exact[y][x].G = 0.5
							}
						}
					}
					want := (&post.Params{Gaussian: bloom}).ApplyTo(exact, 1/float64(w))
					for y := 0; y < h; y++ {
						for x := 0; x < w; x++ {
							c := want[y][x]
							for i, v := range []float64{c.R, c.G, c.B} {
								if got := float64(ppm[3*(y*w+x)+i]) / 65535; math.Abs(got-math.Min(lo(v), 1)) > 1e-4 {
									k.Fatal("bloom: pixel (%d,%d) of %dx%d: channel %d is %v, want %v", x, y, w, h, i, got, lo(v))
								}
							}
						}
					}
				}
				if kind == "bloom" && w > 2 {
					// red has leaked to the right
					if p := ppm[3*(w/2+1):]; p[0] == 0 {
						k.Fatal("no bloom: %v", p[:3])
					}
				}
				k.Saw(k.Ix)
			})
			r.Space("animate", []int{r.Pick(3, 6)}, func(k *mc.K) {
				dir, err := os.MkdirTemp(os.Getenv("VERIF_WORK"), "a")
				if err != nil {
					panic(err)
				}
				defer os.RemoveAll(dir)
				n := k.Ix[0] + 1
				run(k, dir, "out.jpeg", fmt.Sprintf("animate 8 8 %d", n))
				frames, _ := filepath.Glob(filepath.Join(dir, "out-frames", "0*.jpg"))
				if len(frames) != n {
					k.Fatal("%d frames, want %d", len(frames), n)
				}
				for i := 0; i < n; i++ {
					b, err := os.ReadFile(filepath.Join(dir, "out-frames", fmt.Sprintf("%05d.jpg", i)))
					if err != nil {
						k.Fatal("%v", err)
					}
					img, _, err := image.Decode(bytes.NewReader(b))
					if err != nil {
						k.Fatal("%v", err)
					}
					g := enc(float64(i+1) / float64(n+1))
					R, _, _, _ := img.At(3, 5).RGBA()
					if math.Abs(float64(R)/65535-g) > 0.02 {
						k.Fatal("frame %d: %v, want %v", i, float64(R)/65535, g)
					}
					k.Op(1)
				}
				k.Saw(n)
			})
		})
}

// enc is the encoding curve, which is checked by I01.
func enc(c float64) float64 { return colorf.LinearToSRGB(c) }

func unitMatrix() geom.Matrix { return geom.Matrix{{1, 0, 0}, {0, 1, 0}, {0, 0, 1}} }

func run(k *mc.K, dir, out, arg string) string {
	exe, _ := os.Executable()
	cmd := exec.Command(exe, "-o", out)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "A01_CHILD="+arg)
	b, err := cmd.CombinedOutput()
	if err != nil {
		k.Fatal("%s: %v: %s", arg, err, b)
	}
	return string(b)
}

func readPPM(k *mc.K, fname string, w, h int) []int {
	b, err := os.ReadFile(fname)
	if err != nil {
		k.Fatal("%v", err)
	}
	f := strings.Fields(string(b))
	if len(f) != 4+3*w*h || f[1] != strconv.Itoa(w) || f[2] != strconv.Itoa(h) {
		k.Fatal("%s: %d fields for %dx%d", fname, len(f), w, h)
	}
	var o []int
	for _, x := range f[4:] {
		v, err := strconv.Atoi(x)
		if err != nil {
			k.Fatal("%v", err)
		}
		o = append(o, v)
	}
	return o
}
