// G07: triangle meshes, parametric surfaces.
package main

import (
	"math"
	"sync"

	"github.com/barnex/bruteray/api"
	"github.com/barnex/bruteray/geom"
	"github.com/barnex/bruteray/tracer"
	"github.com/barnex/bruteray/tracer/objects"
	"verif/geomx"
	"verif/mc"
	. "verif/ref"
)

// mesh is the reference mesh: triangles with vertex normals averaged over the faces sharing the vertex.
func mesh(m int, vs []V, fs [][3]int, uv [][2]float64) Group {
	ns := make([]V, len(vs))
	for _, f := range fs {
		n := vs[f[1]].Sub(vs[f[0]]).Cross(vs[f[2]].Sub(vs[f[0]]))
		if n.Len() == 0 {
			continue
		}
		for _, i := range f {
			ns[i] = ns[i].Add(n.Unit())
		}
	}
	var g Group
	for _, f := range fs {
		t := Tri{Mat: m}
		for i, j := range f {
			t.P[i] = vs[j]
			if ns[j].Len() > 0 {
				t.N[i] = ns[j].Unit()
			}
			if uv != nil {
				t.UV[i] = uv[j]
			}
		}
		g = append(g, t)
	}
	return g
}

type surf struct {
	name string
	f    func(u, v float64) V
}

var surfs = []surf{
	{"plane", func(u, v float64) V { return V{2*u - 1, 0.3, 2*v - 1} }},
	{"tilted", func(u, v float64) V { return V{2*u - 1, 0.3*u - 0.5*v, 1.5*v - 1 + 0.2*u} }},
	{"saddle", func(u, v float64) V { return V{2*u - 1, (2*u - 1) * (2*v - 1), 2*v - 1} }},
	{"patch", func(u, v float64) V {
		t, p := 0.5+1.8*u, 3.9*v
		return V{math.Sin(t) * math.Cos(p), math.Cos(t), math.Sin(t) * math.Sin(p)}
	}},
	{"torus", func(u, v float64) V {
		a, b := 2*math.Pi*u, 2*math.Pi*v
		return V{(2 + 0.7*math.Cos(b)) * math.Cos(a), 0.7 * math.Sin(b), (2 + 0.7*math.Cos(b)) * math.Sin(a)}
	}},
	{"cone", func(u, v float64) V { return V{u * math.Cos(5*v), 1.5 * u, u * math.Sin(5*v)} }}, // degenerate faces at u=0
	{"wave", func(u, v float64) V { return V{3*v - 1, 0.2 * math.Sin(5*u+2*v), -2*u + 1} }},
}

func hull(vs []V) (c, half V) {
	lo, hi := vs[0], vs[0]
	for _, x := range vs {
		for i := range x {
			lo[i] = math.Min(lo[i], x[i])
			hi[i] = math.Max(hi[i], x[i])
		}
	}
	return lo.Add(hi).Mul(.5), hi.Sub(lo).Mul(.5)
}

func parametric(m int, nu, nv int, s surf) geomx.Pair {
	var vs []V
	var uv [][2]float64
	var fs [][3]int
	at := func(i, j int) int { return i*nv + j }
	for i := 0; i < nu; i++ {
		for j := 0; j < nv; j++ {
			u, v := float64(i)/float64(nu-1), float64(j)/float64(nv-1)
			vs = append(vs, s.f(u, v))
			uv = append(uv, [2]float64{u, v})
			if i < nu-1 && j < nv-1 {
				fs = append(fs, [3]int{at(i, j), at(i+1, j), at(i+1, j+1)}, [3]int{at(i, j), at(i+1, j+1), at(i, j+1)})
			}
		}
	}
	c, h := hull(vs)
	o := api.Parametric(geomx.Mat(m), nu, nv, func(u, v float64) geom.Vec { return geomx.GV(s.f(u, v)) }).Interface
	return geomx.Pair{Name: s.name, O: o, R: mesh(m, vs, fs, uv), C: c, Half: h}
}

// closedMesh is a closed convex surface around the origin.
func closedMesh(kind, n int) (vs []V, fs [][3]int) {
	switch kind {
	case 0: // double pyramid
		vs = []V{{0.1, 1, 0}, {0, -1.1, 0.1}}
		for i := 0; i < n; i++ {
			a := 2 * math.Pi * float64(i) / float64(n)
			vs = append(vs, V{math.Cos(a), 0.03, math.Sin(a)})
			j := (i + 1) % n
			fs = append(fs, [3]int{0, i + 2, j + 2}, [3]int{1, j + 2, i + 2})
		}
	case 1: // prism
		vs = []V{{0.01, 0.8, 0}, {0, -0.9, 0}}
		for i := 0; i < n; i++ {
			a := 2 * math.Pi * float64(i) / float64(n)
			vs = append(vs, V{math.Cos(a), 0.8, math.Sin(a)}, V{math.Cos(a), -0.9, math.Sin(a)})
			j := (i + 1) % n
			p, q := 2+2*i, 2+2*j
			fs = append(fs, [3]int{0, p, q}, [3]int{1, q + 1, p + 1}, [3]int{p, q, q + 1}, [3]int{p, p + 1, q + 1})
		}
	default: // ball
		if kind == 3 { // twisted
			n += 4
		}
		m := n/2 + 2
		at := func(i, j int) int { return 2 + i*n + j%n }
		vs = []V{{0, 1, 0}, {0, -1, 0}}
		for i := 0; i < m; i++ {
			t := math.Pi * float64(i+1) / float64(m+1)
			for j := 0; j < n; j++ {
				a := 2 * math.Pi * (float64(j) + 0.3*float64(kind-2)*float64(i)) / float64(n)
				vs = append(vs, V{math.Sin(t) * math.Cos(a), math.Cos(t), math.Sin(t) * math.Sin(a)})
				if i < m-1 {
					fs = append(fs, [3]int{at(i, j), at(i, j+1), at(i+1, j+1)}, [3]int{at(i, j), at(i+1, j+1), at(i+1, j)})
				}
			}
		}
		for j := 0; j < n; j++ {
			fs = append(fs, [3]int{0, at(0, j), at(0, j+1)}, [3]int{1, at(m-1, j+1), at(m-1, j)})
		}
	}
	return vs, fs
}

func main() {
	mc.Main("G07", "exploration",
		"A case is one (surface, resolution, ray start) or one (mesh topology, vertex subset): all rays are compared with a face-by-face reference for distance, smoothly interpolated normal and interpolated (u,v). Watertightness cases shoot rays exactly through shared edges and vertices. Non-trivial: at least one hit.",
		func(r *mc.Run) {
			r.Assumption("For rays within 1e-7 (barycentric) of a face's edge only watertightness is required, on exactly representable vertex grids.")
			var mu sync.Mutex
			var tot geomx.Stat
			add := func(k *mc.K, st geomx.Stat) {
				if st.Hits == 0 {
					k.Trivial()
				}
				mu.Lock()
				tot.Rays += st.Rays
				tot.Hits += st.Hits
				tot.Misses += st.Misses
				tot.Unsure += st.Unsure
				mu.Unlock()
			}
			res := [][2]int{{2, 2}, {2, 3}, {3, 2}, {3, 3}, {2, 7}, {7, 2}, {4, 6}, {6, 5}, {9, 9}, {5, 20}}
			if r.Thorough() {
				for i := 2; i < 13; i++ {
					for j := 2; j < 13; j++ {
						res = append(res, [2]int{i, j})
					}
				}
			}
			r.Space("parametric", []int{len(surfs), len(res)}, func(k *mc.K) {
				s := surfs[k.Ix[0]]
				nu, nv := res[k.Ix[1]][0], res[k.Ix[1]][1]
				p := parametric(3, nu, nv, s)
				k.Desc("%s %dx%d", s.name, nu, nv)
				var st geomx.Stat
				ss := geomx.Lattice(p.C, p.Half, 1.4, 3, 1)
				ss = append(ss, geomx.Lattice(p.C, p.Half, 0.4, 2, 1)...)
				ss = append(ss, geomx.Lattice(p.C, p.Half, 20, 2, 1)...)
				for _, x := range ss {
					geomx.CheckAll(k, &p, x, r.Pick(1, 2), &st, geomx.Options{Tol: 3e-6, NoNormal: s.name == "cone"})
					if k.Failed() {
						return
					}
				}
				for _, x := range geomx.Lattice(p.C, p.Half, 1, 4, 1) {
					geomx.CheckInside(k, &p, x, &st)
				}
				add(k, st)
			})
			// The user function is sampled exactly on the (numU x numV) grid, inclusive.
			r.Space("grid", []int{9, 9}, func(k *mc.K) {
				nu, nv := k.Ix[0]+2, k.Ix[1]+2
				seen := map[[2]float64]bool{}
				objects.Parametric(geomx.Mat(1), nu, nv, func(u, v float64) geom.Vec {
					seen[[2]float64{u, v}] = true
					return geom.Vec{u, 0, v}
				})
				for i := 0; i < nu; i++ {
					for j := 0; j < nv; j++ {
						ok := false
						for x := range seen {
							if math.Abs(x[0]-float64(i)/float64(nu-1)) < 1e-12 && math.Abs(x[1]-float64(j)/float64(nv-1)) < 1e-12 {
								ok = true
							}
						}
						if !ok {
							k.Fail("%dx%d: surface not sampled at grid point %d,%d", nu, nv, i, j)
						}
					}
				}
				k.SawF(float64(len(seen)), float64(nu))
				k.Op(1)
			})
			// All meshes whose faces are a subset of a tetrahedron's / octahedron's / fan's faces.
			tv := []V{{0.1, 0.2, 0}, {1.2, 0, 0.3}, {0.3, 1.3, -0.1}, {0.2, 0.3, 1.1}, {-0.9, 0.2, 0.4}, {0.2, -0.8, 0.5}}
			tf := [][3]int{{0, 1, 2}, {0, 2, 3}, {0, 3, 1}, {1, 3, 2}, {0, 4, 2}, {4, 3, 2}, {0, 3, 4}, {5, 1, 0}}
			if !r.Thorough() {
				tf = tf[:7]
			}
			tuv := [][2]float64{{0, 0}, {1, 0}, {0.3, 1}, {0.9, 0.8}, {-1, 2}, {3, -1}}
			r.Space("face-subsets", []int{1 << uint(len(tf)), 2, 2}, func(k *mc.K) {
				var fs [][3]int
				for i, f := range tf {
					if k.Ix[0]>>uint(i)&1 == 1 {
						if k.Ix[1] == 1 {
							f[1], f[2] = f[2], f[1] // other winding
						}
						fs = append(fs, f)
					}
				}
				if len(fs) == 0 {
					k.Trivial()
					return
				}
				var vs []geom.Vec
				var uv []geom.Vec2
				for i := range tv {
					vs = append(vs, geomx.GV(tv[i]))
					uv = append(uv, geom.Vec2{tuv[i][0], tuv[i][1]})
				}
				var o objects.Interface
				ruv := tuv
				if k.Ix[2] == 0 {
					o, ruv = objects.Mesh(geomx.Mat(4), vs, fs), nil
				} else {
					o = objects.MeshWithUV(geomx.Mat(4), vs, fs, uv)
				}
				k.Desc("faces %v", fs)
				p := geomx.Pair{Name: "mesh", O: o, R: mesh(4, tv, fs, ruv), C: V{0.2, 0.3, 0.3}, Half: V{1, 1, 0.8}}
				var st geomx.Stat
				for _, x := range append(geomx.Lattice(p.C, p.Half, 1.6, 2, 1), V{0.3, 0.35, 0.3}, V{0.2, 3, 0.1}) {
					geomx.CheckAll(k, &p, x, r.Pick(0, 2), &st, geomx.Options{Tol: 3e-6})
				}
				// inputs must not be modified
				for i := range tv {
					if vs[i] != geomx.GV(tv[i]) || uv[i] != (geom.Vec2{tuv[i][0], tuv[i][1]}) {
						k.Fail("caller's vertices modified")
					}
				}
				add(k, st)
			})
			// Vertices at the same place stay different vertices: faces with corners of their own are not smoothed.
			r.Space("split", []int{1 << 7, 3, 2}, func(k *mc.K) {
				var vs []V
				var uv [][2]float64
				vs = append(vs, tv...)
				uv = append(uv, tuv...)
				var fs [][3]int
				for i, f := range tf[:7] {
					if k.Ix[0]>>uint(i)&1 == 1 {
						for j := range f {
							vs = append(vs, tv[f[j]])
							uv = append(uv, tuv[f[j]])
							f[j] = len(vs) - 1
						}
					}
					fs = append(fs, f)
				}
				var gv []geom.Vec
				var guv []geom.Vec2
				for i := range vs {
					gv = append(gv, geomx.GV(vs[i]))
					if k.Ix[1] == 2 {
						uv[i] = [2]float64{}
					}
					guv = append(guv, geom.Vec2{uv[i][0], uv[i][1]})
				}
				if k.Ix[2] == 1 { // other numbering
					n := len(gv)
					for i := 0; i < n/2; i++ {
						gv[i], gv[n-1-i] = gv[n-1-i], gv[i]
						guv[i], guv[n-1-i] = guv[n-1-i], guv[i]
						vs[i], vs[n-1-i] = vs[n-1-i], vs[i]
						uv[i], uv[n-1-i] = uv[n-1-i], uv[i]
					}
					for i := range fs {
						for j := range fs[i] {
							fs[i][j] = n - 1 - fs[i][j]
						}
					}
				}
				var o objects.Interface
				if k.Ix[1] == 0 {
					o, uv = objects.Mesh(geomx.Mat(4), gv, fs), nil
				} else {
					o = objects.MeshWithUV(geomx.Mat(4), gv, fs, guv)
				}
				k.Desc("faces %v, vertices %v", fs, vs)
				p := geomx.Pair{Name: "mesh", O: o, R: mesh(4, vs, fs, uv), C: V{0.2, 0.3, 0.3}, Half: V{1, 1, 0.8}}
				var st geomx.Stat
				for _, x := range append(geomx.Lattice(p.C, p.Half, 1.6, 2, 1), V{0.3, 0.35, 0.3}, V{0.2, 3, 0.1}) {
					geomx.CheckAll(k, &p, x, 0, &st, geomx.Options{Tol: 3e-6})
				}
				add(k, st)
			})
			// Faces without area (repeated or collinear corners) are invisible and leave the others alone.
			r.Space("degenerate", []int{len(tf) + 1, len(tf) + 1, 4, 2}, func(k *mc.K) {
				var gv []geom.Vec
				var guv []geom.Vec2
				for i := range tv {
					gv = append(gv, geomx.GV(tv[i]))
					guv = append(guv, geom.Vec2{tuv[i][0], tuv[i][1]})
				}
				n := len(gv)
				for i := 0; i < 3; i++ { // collinear, exactly
					gv = append(gv, geom.Vec{0.25 * float64(i), 0.5, 0.5})
					guv = append(guv, geom.Vec2{})
				}
				zero := [][3]int{{0, 0, 1}, {n, n + 1, n + 2}, {2, 2, 2}, {tf[0][0], tf[0][1], tf[0][0]}}[k.Ix[2]]
				var fs [][3]int
				for i := 0; i <= len(tf); i++ {
					if i == k.Ix[0] {
						fs = append(fs, zero)
					}
					if i == k.Ix[1] {
						fs = append(fs, zero)
					}
					if i < len(tf) {
						fs = append(fs, tf[i])
					}
				}
				var o objects.Interface
				var uv [][2]float64
				if k.Ix[3] == 0 {
					o = objects.Mesh(geomx.Mat(4), gv, fs)
				} else {
					o, uv = objects.MeshWithUV(geomx.Mat(4), gv, fs, guv), tuv
				}
				k.Desc("faces %v, vertices %v", fs, gv)
				p := geomx.Pair{Name: "mesh", O: o, R: mesh(4, tv, tf, uv), C: V{0.2, 0.3, 0.3}, Half: V{1, 1, 0.8}}
				var st geomx.Stat
				for _, x := range []V{{0.3, 0.35, 0.3}, {0.2, 3, 0.1}, {-2, 0.1, 1.3}, {0.1, -0.6, -2}} {
					geomx.CheckAll(k, &p, x, 0, &st, geomx.Options{Tol: 3e-6})
				}
				add(k, st)
			})
			// Watertight: rays exactly through interior vertices, edges and diagonals of representable grids.
			r.Space("watertight", []int{8, 3, 5}, func(k *mc.K) {
				n := []int{2, 3, 5, 9, 17, 2, 5, 33}[k.Ix[0]]
				m := []int{2, 3, 5, 9, 17, 9, 17, 9}[k.Ix[0]]
				size := []float64{4, 1, 64}[k.Ix[1]]
				ax := k.Ix[2] // which way the sheet lies / ray direction
				f := func(u, v float64) V {
					a, b := size*(u-0.5), size*(v-0.5)
					switch ax {
					case 0:
						return V{0, a, b}
					case 1, 3, 4:
						return V{a, 0, b}
					default:
						return V{a, b, 0}
					}
				}
				o := objects.Parametric(geomx.Mat(1), n, m, func(u, v float64) geom.Vec { return geomx.GV(f(u, v)) })
				k.Desc("%dx%d grid size %v axis %d", n, m, size, ax)
				d := []V{{-1, 0, 0}, {0, -1, 0}, {0, 0, -1}, {0, 1, 0}, {0.5, -1, 0.25}}[ax]
				N := 32
				for i := 1; i < N; i++ {
					for j := 1; j < N; j++ {
						t := f(float64(i)/float64(N), float64(j)/float64(N))
						s := t.Sub(d.Mul(2))
						h := o.Intersect(&tracer.Ray{Start: geomx.GV(s), Dir: geomx.GV(d)})
						k.Op(1)
						if !(h.T > 0) || math.Abs(h.T-2) > 1e-9 {
							k.Fatal("ray start %v dir %v slips through the mesh at %v (T=%v)", s, d, t, h.T)
						}
						if math.Abs(h.Local[0]-float64(i)/float64(N)) > 1e-9 || math.Abs(h.Local[1]-float64(j)/float64(N)) > 1e-9 {
							k.Fatal("at %v: (u,v) = %v", t, h.Local)
						}
					}
				}
				k.SawF(float64(n), float64(m), size, float64(ax))
			})
			// Closed surface: from the inside of a closed torus/ball every ray hits.
			r.Space("closed", []int{r.Pick(6, 20), 4}, func(k *mc.K) {
				n := 5 + k.Ix[0]
				o := objects.Parametric(geomx.Mat(1), n, n+k.Ix[1], func(u, v float64) geom.Vec { return geomx.GV(surfs[4].f(u, v)) })
				for i := 0; i < 2000; i++ {
					z := 1 - (2*float64(i)+1)/2000
					a := 2.399963229728653 * float64(i)
					q := math.Sqrt(1 - z*z)
					d := V{q * math.Cos(a), z, q * math.Sin(a)}
					h := o.Intersect(&tracer.Ray{Start: geom.Vec{1.9, 0.05, 0.1}, Dir: geomx.GV(d)})
					k.Op(1)
					if !(h.T > 0) {
						k.Fatal("torus %d: ray %v escapes from the inside", n, d)
					}
					k.SawF(h.T)
				}
			})
			// Large meshes: every single face is found, with its own normal and (u,v).
			big := [][2]int{{60, 61}, {190, 190}, {2, 40000}, {40000, 2}, {340, 200}, {1000, 70}}
			r.Space("large", []int{r.Pick(5, 6), 3}, func(k *mc.K) {
				nu, nv := big[k.Ix[0]][0], big[k.Ix[0]][1]
				f := func(u, v float64) V { return V{20*u - 10, math.Sin(9*u+4*v) + 0.5*v, 16*v - 8} }
				if k.Ix[1] == 1 { // standing upright, reverse numbering
					g := f
					f = func(u, v float64) V { x := g(1-u, v); return V{x[1], x[2], x[0]} }
				}
				p := parametric(3, nu, nv, surf{"large", f})
				if k.Ix[1] == 2 {
					p.O = objects.Tree(p.O, geomx.Sphere(9, 0.2, V{30, 1, 0}).O)
				}
				k.Desc("parametric %dx%d, %d", nu, nv, k.Ix[1])
				g := p.R.(Group)
				var st geomx.Stat
				for i, sh := range g {
					t := sh.(Tri)
					x := t.P[0].Mul(0.5).Add(t.P[1].Mul(0.2)).Add(t.P[2].Mul(0.3))
					p.R = Group{sh}
					d := V{0.013, -1, 0.011}
					if k.Ix[1] == 1 {
						d = V{-1, 0.011, 0.013}
					}
					if nu == 2 || nv == 2 { // narrow strips: look straight
						if d = (V{0, -1, 0}); k.Ix[1] == 1 {
							d = V{-1, 0, 0}
						}
					}
					d = d.Mul([]float64{1, 0.001, 300}[i%3] / d.Len())
					geomx.CheckRay(k, &p, geomx.Ray{S: x.Sub(d.Unit().Mul(6)), D: d}, &st, geomx.Options{Tol: 3e-6})
					if k.Failed() {
						return
					}
				}
				if st.Hits < len(g)/3*2 {
					k.Fatal("check is broken: %d of %d rays judged", st.Hits, len(g))
				}
				add(k, st)
			})
			// Rays aimed at and closely beside the edges between two faces of closed convex surfaces, from within.
			r.Space("shared-edges", []int{4, r.Pick(8, 24), 5, 2}, func(k *mc.K) {
				vs, fs := closedMesh(k.Ix[0], 3+k.Ix[1])
				scale := []float64{1, 0.01, 100, 1, 30}[k.Ix[2]]
				center := []V{{}, {0.3, 0.1, -0.2}, {70, 30, -50}, {500, -300, 200}, {0, 0, 0}}[k.Ix[2]]
				s := center.Add([]V{{0.011, -0.017, 0.023}, {0.21, 0.13, -0.17}}[k.Ix[3]].Mul(scale))
				var gv []geom.Vec
				for i := range vs {
					vs[i] = vs[i].Mul(scale).Add(center)
					gv = append(gv, geomx.GV(vs[i]))
				}
				o := objects.Mesh(geomx.Mat(1), gv, fs)
				k.Desc("closed mesh %d of %d faces, scale %v center %v start %v", k.Ix[0], len(fs), scale, center, s)
				slips := 0
				far := 1 + center.Dot(center)/(scale*scale)
				for _, f := range fs {
					for e := 0; e < 3; e++ {
						a, b := vs[f[e]], vs[f[(e+1)%3]]
						across := b.Sub(a).Cross(a.Sub(s)).Unit().Mul(b.Sub(a).Len())
						for w := 0; w <= 8; w++ {
							for _, off := range []float64{0, 1e-11 * far, -1e-11 * far, 1e-10 * far, -1e-10 * far, 1e-4, -1e-4} {
								p := a.Mul(1 - float64(w)/8).Add(b.Mul(float64(w) / 8)).Add(across.Mul(off))
								d := p.Sub(s)
								l := d.Len()
								h := o.Intersect(&tracer.Ray{Start: geomx.GV(s), Dir: geomx.GV(d.Mul(1 / l))})
								k.Op(1)
								if !(h.T > 0) {
									// at a corner, a ray beside one edge may be exactly on another one
									if off == 0 || w == 0 || w == 8 {
										slips++
										k.Known("rounding-gap", "ray from %v towards %v, exactly on an edge, slips through", s, p)
										continue
									}
									k.Fatal("ray from %v towards %v, %v beside an edge, slips through", s, p, off)
								}
								if math.Abs(h.T-l) > 1e-3*l {
									k.Fatal("ray from %v towards %v hits at %v, want %v", s, p, h.T, l)
								}
							}
						}
					}
				}
				k.SawF(float64(len(fs)), float64(slips))
			})
			tot.Report(r)
		})
}
