// G01: primitives report the nearest crossing in front of the ray.
package main

import (
	"math"
	"sync"

	"github.com/barnex/bruteray/tracer"
	"verif/geomx"
	"verif/mc"
	. "verif/ref"
)

func main() {
	mc.Main("G01", "exploration",
		"A case is one (primitive, size, position, ray start); it casts all listed directions (26 lattice directions, 16 generic ones of several lengths, and towards a lattice of target points) and compares hit/miss, distance, normal, local coordinates and material with an analytic reference. Non-trivial: at least one hit.",
		func(r *mc.Run) {
			r.Assumption("Rays that graze a surface, pass within 1e-5 of an edge, or start on a surface are not specified and skipped (counted as rays_not_specified).")
			geomx.Long = true
			lvl := r.Pick(1, 3)
			sizes := []V{{1, 1, 1}, {2, 0.7, 3}, {0.02, 5, 0.5}, {40, 10, 20}}
			centers := []V{{0, 0, 0}, {1, 2, -3}, {-0.51, 0.23, 0.117}, {30, -7, 12}, {0, 0, 5}, {0.1, 1000, 0.3}}
			if r.Thorough() {
				sizes = append(sizes, V{100, 30, 50}, V{0.3, 0.2, 0.1}, V{1, 1e-2, 1})
				centers = append(centers, V{-4, -4, -4}, V{0, 1000, 0}, V{0.1, 0.2, 0.3}, V{5, 0, 0})
			}
			var mk []func(s, c V) geomx.Pair
			mk = append(mk,
				func(s, c V) geomx.Pair { return geomx.Sphere(1, s[0], c) },
				func(s, c V) geomx.Pair { return geomx.CylY(2, s[0], s[1], c) },
				func(s, c V) geomx.Pair { return geomx.Cyl(3, 0, s[0], s[1], c) },
				func(s, c V) geomx.Pair { return geomx.Cyl(4, 1, s[0], s[1], c) },
				func(s, c V) geomx.Pair { return geomx.Cyl(5, 2, s[0], s[1], c) },
				func(s, c V) geomx.Pair { return geomx.Capped(6, s[0], s[1], c) },
				func(s, c V) geomx.Pair { return geomx.Box(7, s[0], s[1], s[2], c) },
				func(s, c V) geomx.Pair { return geomx.BoxBounds(8, c.Sub(s.Mul(.3)), c.Add(s.Mul(.9))) },
				func(s, c V) geomx.Pair { return geomx.Rect(9, s[0], s[1], c) },
				func(s, c V) geomx.Pair { return geomx.Disk(10, s[0], c) },
				func(s, c V) geomx.Pair {
					return geomx.Tri(11, c, c.Add(V{s[0], 0.1 * s[1], 0}), c.Add(V{0.2 * s[0], s[1], s[2]}))
				},
				func(s, c V) geomx.Pair {
					return geomx.Tri(12, c.Add(V{0, s[1], 0}), c.Add(V{s[0], s[1], 0}), c.Add(V{0, s[1], s[2]}))
				},
				func(s, c V) geomx.Pair {
					return geomx.RectV(13, c, c.Add(V{s[0], 0, 0}), c.Add(V{0, s[1], 0}))
				},
				func(s, c V) geomx.Pair {
					return geomx.RectV(14, c, c.Add(V{s[0], 0.3 * s[1], 0}), c.Add(V{0.1 * s[0], s[1], s[2]}))
				},
				func(s, c V) geomx.Pair {
					return geomx.Quad(15, c, c.Add(V{s[0], 0, 0}), c.Add(V{1.3 * s[0], 0.9 * s[1], 0.2 * s[2]}), c.Add(V{-0.1 * s[0], s[1], 0}))
				},
				func(s, c V) geomx.Pair { return geomx.Backdrop(16) },
			)
			nStarts := len(geomx.Starts(V{}, V{1, 1, 1}, lvl))
			r.Extra("primitives", len(mk))
			var mu sync.Mutex
			var tot geomx.Stat
			r.Space("rays", []int{len(mk), len(sizes), len(centers), nStarts}, func(k *mc.K) {
				p := mk[k.Ix[0]](sizes[k.Ix[1]], centers[k.Ix[2]])
				s := geomx.Starts(p.C, p.Half, lvl)[k.Ix[3]]
				k.Desc("%s size %v center %v start %v", p.Name, sizes[k.Ix[1]], centers[k.Ix[2]], s)
				var st geomx.Stat
				opt := geomx.Options{}
				if p.Name == "backdrop" {
					opt.Tol = 1e-6
				}
				geomx.CheckAll(k, &p, s, lvl, &st, opt)
				if st.Hits == 0 {
					k.Trivial()
				}
				mu.Lock()
				tot.Rays += st.Rays
				tot.Hits += st.Hits
				tot.Misses += st.Misses
				tot.Unsure += st.Unsure
				mu.Unlock()
			})
			// Flat quadrilaterals have no gap along a diagonal.
			r.Space("diagonals", []int{4, len(sizes), len(centers), nStarts}, func(k *mc.K) {
				sz, c := sizes[k.Ix[1]], centers[k.Ix[2]]
				var q [4]V
				var p geomx.Pair
				switch k.Ix[0] {
				case 0:
					q = [4]V{c.Add(V{-sz[0] / 2, 0, -sz[1] / 2}), c.Add(V{-sz[0] / 2, 0, sz[1] / 2}), c.Add(V{sz[0] / 2, 0, sz[1] / 2}), c.Add(V{sz[0] / 2, 0, -sz[1] / 2})}
					p = geomx.Rect(1, sz[0], sz[1], c)
				case 1:
					q = [4]V{c, c.Add(V{sz[0], 0.3 * sz[1], 0}), c.Add(V{1.1 * sz[0], 1.3 * sz[1], sz[2]}), c.Add(V{0.1 * sz[0], sz[1], sz[2]})}
					p = geomx.RectV(1, q[0], q[1], q[3])
				case 2:
					q = [4]V{c, c.Add(V{sz[0], 0, 0}), c.Add(V{1.3 * sz[0], 0.9 * sz[1], 0}), c.Add(V{-0.1 * sz[0], sz[1], 0})}
					p = geomx.Quad(1, q[0], q[1], q[2], q[3])
				case 3:
					q = [4]V{c.Add(V{-sz[0] / 2, 0, -sz[1] / 2}), c.Add(V{-sz[0] / 2, 0, sz[1] / 2}), c.Add(V{sz[0] / 2, 0, sz[1] / 2}), c.Add(V{sz[0] / 2, 0, -sz[1] / 2})}
					p = geomx.Disk(1, math.Min(sz[0], sz[1]), c)
					m := math.Min(sz[0], sz[1]) / 2.9 // corners of a square within
					for i, x := range [4][2]float64{{-1, -1}, {-1, 1}, {1, 1}, {1, -1}} {
						q[i] = c.Add(V{x[0] * m, 0, x[1] * m})
					}
				}
				s := geomx.Starts(p.C, p.Half, lvl)[k.Ix[3]]
				k.Desc("%s size %v center %v start %v", p.Name, sz, c, s)
				n := q[1].Sub(q[0]).Cross(q[2].Sub(q[0])).Unit()
				size := q[1].Sub(q[0]).Cross(q[2].Sub(q[0])).Len() / q[2].Sub(q[0]).Len() // its lesser width
				if math.Abs(n.Dot(s.Sub(q[0]))) < 0.01*size {
					k.Trivial() // in its plane
					return
				}
				hits := 0
				for dg := 0; dg < 2; dg++ {
					a, b := q[dg], q[dg+2]
					across := n.Cross(b.Sub(a)).Unit().Mul(size)
					far := 1 + s.Sub(q[0]).Len()/size + (s.MaxAbs()+q[0].MaxAbs())/size
					for w := 1; w < 16; w++ {
						for _, off := range []float64{0, 1e-13 * far, -1e-13 * far, 1e-10 * far, -1e-10 * far, 1e-8 * far, -1e-8 * far, 1e-3, -1e-3} {
							x := a.Mul(1 - float64(w)/16).Add(b.Mul(float64(w) / 16)).Add(across.Mul(off))
							d := x.Sub(s)
							if math.Abs(n.Dot(d)) < 0.01*d.Len() {
								continue
							}
							h := p.O.Intersect(&tracer.Ray{Start: geomx.GV(s), Dir: geomx.GV(d)})
							k.Op(1)
							if !(h.T > 0) {
								oa, ob := q[1-dg], q[3-dg] // the other diagonal
								if math.Abs(off) < 1e-12*far || x.Sub(oa).Cross(ob.Sub(oa)).Len() < 1e-12*far*size*ob.Sub(oa).Len() {
									k.Known("rounding-gap", "ray from %v towards %v slips through", s, x)
									continue
								}
								k.Fatal("ray from %v towards %v (%v beside a diagonal) slips through", s, x, off)
							}
							if math.Abs(h.T-1) > 1e-6 {
								k.Fatal("ray from %v towards %v hits at %v times the distance", s, x, h.T)
							}
							hits++
						}
					}
				}
				if hits > 0 {
					k.SawF(float64(k.Ix[0]), sz[0], sz[1], c[0], s[0])
				}
			})
			n := r.Pick(9, 21)
			r.Space("points", []int{len(mk), len(sizes), len(centers), 3}, func(k *mc.K) {
				p := mk[k.Ix[0]](sizes[k.Ix[1]], centers[k.Ix[2]])
				f := []float64{0.97, 1.2, 4}[k.Ix[3]]
				var st geomx.Stat
				for _, x := range geomx.Lattice(p.C, p.Half, f, n, 1) {
					geomx.CheckInside(k, &p, x, &st)
					if p.Solid && p.O.Inside(geomx.GV(x)) {
						k.SawF(x[0], x[1], x[2])
					}
				}
				k.Desc("%s size %v center %v lattice x%v", p.Name, sizes[k.Ix[1]], centers[k.Ix[2]], f)
			})
			tot.Report(r)
		})
}
