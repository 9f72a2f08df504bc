// G02: bounding volumes enclose, and grouping/acceleration never changes what is seen.
package main

import (
	"fmt"
	"math"
	"sync"

	"github.com/barnex/bruteray/tracer"
	"github.com/barnex/bruteray/tracer/objects"
	"verif/geomx"
	"verif/mc"
	. "verif/ref"
)

func frac(x float64) float64 { return x - math.Floor(x) }

// quasi returns the i'th of a deterministic, well-spread set of points in [-1,1]^3.
func quasi(i int) V {
	f := float64(i + 1)
	return V{2*frac(f*0.8191725134) - 1, 2*frac(f*0.6710436067) - 1, 2*frac(f*0.5497004779) - 1}
}

// child makes the i'th child of a group with given layout.
func child(layout, i int) geomx.Pair {
	q := quasi(i)
	m := 100 + i
	prim := func(kind int, s float64, c V) geomx.Pair {
		switch kind % 6 {
		case 0:
			return geomx.Sphere(m, s, c)
		case 1:
			return geomx.Box(m, s, 0.8*s, 1.3*s, c)
		case 2:
			return geomx.Tri(m, c, c.Add(V{s, 0.2 * s, 0.1 * s}), c.Add(V{0.1 * s, 0.3 * s, s}))
		case 3:
			return geomx.Capped(m, s, 0.7*s, c)
		case 4:
			return geomx.Rect(m, s, 1.4*s, c)
		default:
			return geomx.Diff(geomx.Sphere(m, s, c), geomx.Box(m, s, s, s, c.Add(V{0.4 * s, 0.3 * s, 0.5 * s})))
		}
	}
	switch layout {
	case 0: // scattered mixture
		return prim(i, 0.5+0.4*frac(float64(i)*0.37), q.Mul(2))
	case 1: // scattered spheres, overlapping
		return geomx.Sphere(m, 1.1, q.Mul(1.5))
	case 2, 3, 4: // in a row
		c := V{}
		c[layout-2] = 1.3 * float64(i)
		return prim(i, 0.6, c)
	case 5: // concentric
		return geomx.Sphere(m, 0.5+0.13*float64(i), V{0.2, 0.1, -0.1})
	case 6: // grid of boxes, not touching
		return geomx.Box(m, 0.7, 0.7, 0.7, V{float64(i % 4), float64(i / 4 % 4), float64(i / 16)})
	case 7: // one huge, many small
		if i == 0 {
			return geomx.Rect(m, 50, 60, V{0, -2.5, 0})
		}
		return prim(i, 0.3, q.Mul(2))
	case 8: // far from the origin
		return prim(i, 0.7, V{1000, -300, 500}.Add(q.Mul(2)))
	case 9: // soup of triangles
		a := q.Mul(2)
		return geomx.Tri(m, a, a.Add(quasi(3*i+1000).Mul(0.8)), a.Add(quasi(3*i+2001).Mul(0.9)))
	case 10: // rotated instances of one object
		return geomx.Transformed(geomx.Box(m, 1.2, 0.4, 0.3, V{1.5, 0.1, 0}), geomx.RotateAt(V{0.1, 0.2, 0}, quasi(i+77), 0.3+0.7*float64(i)))
	case 11: // flat layers (boxes with zero thickness)
		return geomx.Rect(m, 2, 3, V{0.01 * float64(i), 0.25 * float64(i), 0.013 * float64(i)})
	case 12: // descending positions, mixed sizes
		return prim(i+1, 0.2+0.1*float64(i%5), V{-0.7 * float64(i), 0.3 * float64(i%3), 0.2 * float64(i%7)})
	default: // subtrees
		a := q.Mul(3)
		return geomx.Tree(geomx.Sphere(m, 0.7, a), geomx.Box(m, 0.5, 0.5, 0.6, a.Add(V{0.6, 0, 0.1})), geomx.Tri(m, a, a.Add(V{0, 1, 0}), a.Add(V{0, 0, 1.1})))
	}
}

const nLayouts = 14

func main() {
	mc.Main("G02", "exploration",
		"A case is one (layout of children, number of children, order, wrapper, ray start). Tree and Bounded are compared with a reference that intersects every child; enclosure cases check that every visible and every interior point lies within the reported bounds. Non-trivial: at least one hit.",
		func(r *mc.Run) {
			r.Assumption("Rays within 1e-5 of an edge or with two coincident surfaces in front are skipped.")
			counts := []int{1, 2, 3, 6, 7, 8, 9, 13, 14, 15, 16, 17, 28, 29, 33, 57, 128, 129, 250}
			if r.Thorough() {
				counts = nil
				for i := 1; i <= 66; i++ {
					counts = append(counts, i)
				}
				counts = append(counts, 100, 127, 128, 129, 250)
			}
			var mu sync.Mutex
			var tot geomx.Stat
			add := func(st geomx.Stat) {
				mu.Lock()
				tot.Rays += st.Rays
				tot.Hits += st.Hits
				tot.Misses += st.Misses
				tot.Unsure += st.Unsure
				mu.Unlock()
			}
			build := func(layout, n, order int) (geomx.Pair, []geomx.Pair) {
				var ch []geomx.Pair
				for i := 0; i < n; i++ {
					j := i
					switch order {
					case 1:
						j = n - 1 - i
					case 2: // a fixed permutation
						step := 1
						for _, s := range []int{7, 5, 11, 13, 3} {
							if n%s != 0 {
								step = s
								break
							}
						}
						j = (i*step + 1) % n
					}
					ch = append(ch, child(layout, j))
				}
				return geomx.Tree(ch...), ch
			}
			// what is seen
			r.Space("trees", []int{nLayouts, len(counts), 3}, func(k *mc.K) {
				n := counts[k.Ix[1]]
				p, ch := build(k.Ix[0], n, k.Ix[2])
				k.Desc("layout %d, %d children, order %d", k.Ix[0], n, k.Ix[2])
				var st geomx.Stat
				if k.Ix[0] == 7 {
					p.C, p.Half = V{}, V{2, 2.6, 2}
				}
				ss := []V{p.C}
				for i := 0; i < len(ch); i += 1 + len(ch)/r.Pick(6, 14) {
					ss = append(ss, ch[i].C.Add(V{0.011, 0.017, -0.013})) // from inside a child
				}
				ss = append(ss, geomx.Lattice(p.C, p.Half, 1.15, 2, 1)...)
				ss = append(ss, geomx.Lattice(p.C, p.Half, 5, 2, 0)...)
				for _, s := range ss {
					rays := geomx.Rays(s, p.C, p.Half, 0)
					for _, c := range ch { // aim at every child
						if d := c.C.Add(V{0.003, 0.002, 0.005}).Sub(s); d.Len() > 1e-3 {
							rays = append(rays, geomx.Ray{S: s, D: d.Unit()})
						}
					}
					for _, ray := range rays {
						geomx.CheckRay(k, &p, ray, &st, geomx.Options{NoLocal: false})
						if k.Failed() {
							return
						}
					}
				}
				for i := 0; i < 60; i++ {
					geomx.CheckInside(k, &p, V{p.C[0] + p.Half[0]*quasi(i)[0], p.C[1] + p.Half[1]*quasi(i)[1], p.C[2] + p.Half[2]*quasi(i)[2]}, &st)
				}
				for _, c := range ch {
					geomx.CheckInside(k, &p, c.C.Add(V{0.003, -0.002, 0.001}), &st)
				}
				if st.Hits == 0 {
					k.Trivial()
				}
				add(st)
			})
			// trees built over (parts of) one slice of objects, which its owner goes on using: every tree keeps showing what it was given
			wins := [][2]int{{0, 20}, {0, 10}, {10, 20}, {5, 15}, {0, 8}, {12, 20}}
			r.Space("shared", []int{nLayouts, len(wins), len(wins), 5}, func(k *mc.K) {
				var ch []geomx.Pair
				var sl []objects.Interface
				for i := 0; i < 20; i++ {
					j := i * 7 % 20
					ch = append(ch, child(k.Ix[0], j))
					sl = append(sl, ch[i].O)
				}
				before := append([]objects.Interface(nil), sl...)
				mk := func(w [2]int) geomx.Pair {
					p := geomx.Tree(ch[w[0]:w[1]]...)
					p.O = objects.Tree(sl[w[0]:w[1]]...)
					return p
				}
				t := []geomx.Pair{mk(wins[k.Ix[1]]), mk(wins[k.Ix[2]])}
				for i := range sl {
					if sl[i] != before[i] {
						k.Fail("layout %d: building trees over elements %v and %v of a slice changed element %d of it", k.Ix[0], wins[k.Ix[1]], wins[k.Ix[2]], i)
						return
					}
				}
				other := geomx.Sphere(999, 0.3, V{500, 500, 500}).O
				switch k.Ix[3] { // what the owner does with its slice
				case 1:
					for i := range sl {
						sl[i] = other
					}
				case 2:
					for i := 0; i < len(sl)/2; i++ {
						sl[i], sl[len(sl)-1-i] = sl[len(sl)-1-i], sl[i]
					}
				case 3:
					sl = append(sl[:3], other, other, other)
				case 4: // uses it for yet another tree
					objects.Tree(append(sl[:6], other, sl[19], sl[18])...)
				}
				k.Desc("layout %d, trees over %v and %v, then %d", k.Ix[0], wins[k.Ix[1]], wins[k.Ix[2]], k.Ix[3])
				var st geomx.Stat
				for n, p := range t {
					w := wins[k.Ix[1+n]]
					if k.Ix[0] == 7 {
						p.C, p.Half = V{}, V{2, 2.6, 2}
					}
					s := p.C.Add(V{p.Half[0] * 3, p.Half[1]*2.5 + 1, p.Half[2]*2 + 1})
					for i := w[0]; i < w[1]; i++ {
						x := ch[i].C.Add(V{0.003, -0.002, 0.001})
						geomx.CheckInside(k, &p, x, &st)
						geomx.CheckRay(k, &p, geomx.Ray{S: s, D: x.Sub(s).Unit()}, &st, geomx.Options{})
						if k.Failed() {
							return
						}
					}
				}
				if st.Hits == 0 {
					k.Trivial()
				}
				add(st)
			})
			// empty tree: sees nothing, contains nothing
			r.Space("empty", []int{26}, func(k *mc.K) {
				e := objects.Tree()
				d := geomx.Rays(V{}, V{}, V{1, 1, 1}, 0)[k.Ix[0]].D
				for _, s := range []V{{0, 0, 0}, {1, 2, 3}, d.Mul(-3)} {
					h := e.Intersect(&tracer.Ray{Start: geomx.GV(s), Dir: geomx.GV(d)})
					if h.T > 0 {
						k.Fail("empty tree is hit: %v", h)
					}
					if e.Inside(geomx.GV(s)) {
						k.Fail("inside the empty tree")
					}
				}
				k.SawF(d[0], d[1], d[2])
			})
			// unbounded children
			r.Space("unbounded", []int{4, 12, 27}, func(k *mc.K) {
				n := k.Ix[1]
				var ch []geomx.Pair
				for i := 0; i < n; i++ {
					ch = append(ch, child(0, i))
				}
				switch k.Ix[0] {
				case 0:
					ch = append(ch, geomx.Backdrop(9))
				case 1:
					ch = append([]geomx.Pair{geomx.Backdrop(9)}, ch...)
				case 2:
					ch = append(ch, geomx.Not(geomx.Sphere(8, 1, V{0.1, 0.2, 0.3})))
				case 3:
					ch = append(ch, geomx.Transformed(geomx.Not(geomx.Sphere(8, 1, V{0.1, 0.2, 0.3})), geomx.RotateAt(V{}, V{1, 1, 0}, 1)))
				}
				p := geomx.Tree(ch...)
				p.C, p.Half = V{}, V{2, 2, 2}
				var st geomx.Stat
				s := geomx.Lattice(V{}, V{1, 1, 1}, 2.2, 3, 1)[k.Ix[2]]
				geomx.CheckAll(k, &p, s, 0, &st, geomx.Options{NoNormal: k.Ix[0] < 2 && false})
				add(st)
				k.Desc("unbounded child %d, %d others", k.Ix[0], n)
			})

			// enclosure, and Bounded
			var objs []geomx.Pair
			for l := 0; l < nLayouts; l++ {
				for _, n := range []int{1, 3, 8, 17} {
					p, _ := build(l, n, 0)
					objs = append(objs, p)
				}
				for i := 0; i < 6; i++ {
					objs = append(objs, child(l, i))
				}
			}
			a, b := geomx.Sphere(1, 2, V{0.1, 0.05, -0.1}), geomx.Box(2, 1.5, 1.1, 2.3, V{0.35, 0.2, 0.15})
			c, d := geomx.Cyl(3, 0, 1.2, 3.1, V{-0.1, 0.15, 0.3}), geomx.Cyl(4, 2, 1, 2, V{0.2, 0.3, 0.1})
			rot := geomx.RotateAt(V{0.3, 0.1, 0}, V{1, 2, 3}, 0.9)
			for _, x := range [][2]geomx.Pair{{a, b}, {b, c}, {c, d}, {a, d}, {b, a}} {
				objs = append(objs, geomx.And(x[0], x[1]), geomx.Or(x[0], x[1]), geomx.Diff(x[0], x[1]), geomx.Restrict(x[0], x[1]),
					geomx.Hollow(x[0]), geomx.WithMat(5, x[1]),
					geomx.Transformed(geomx.Diff(x[0], x[1]), rot), geomx.Transformed(geomx.Or(x[0], x[1]), geomx.ScaleAt(V{1, 1, 1}, 0.4)),
					geomx.And(geomx.Transformed(x[0], rot), x[1]), geomx.Transformed(geomx.Transformed(x[0], rot), geomx.Translate(V{3, 4, 5})),
					geomx.Not(x[0]), geomx.Diff(geomx.Tree(x[0], x[1]), geomx.Sphere(9, 0.8, V{0.5, 0.5, 0.5})))
			}
			objs = append(objs, geomx.Disk(6, 1.3, V{1, 2, 3}), geomx.Transformed(geomx.Disk(6, 1.3, V{1, 2, 3}), rot),
				geomx.BoxBounds(1, V{-1, -2, -3}, V{-0.5, 4, 1}), geomx.Backdrop(3), geomx.Transformed(geomx.Backdrop(3), rot))
			r.Space("enclosure", []int{len(objs), 4}, func(k *mc.K) {
				p := objs[k.Ix[0]]
				k.Desc("%s", p.Name)
				bb := p.O.Bounds()
				var st geomx.Stat
				within := func(x V, what string) {
					for i := 0; i < 3; i++ {
						m := 2e-6 * (1 + math.Abs(x[i]))
						if !(x[i] >= bb.Min[i]-m && x[i] <= bb.Max[i]+m) {
							k.Fail("%s: %s point %v outside of bounds %v", p.Name, what, x, bb)
						}
					}
				}
				if k.Ix[1] == 3 { // points
					for _, x := range geomx.Lattice(p.C, p.Half, 1.05, 11, 1) {
						if p.O.Inside(geomx.GV(x)) {
							within(x, "inside")
							k.SawF(x[0], x[1], x[2])
						}
						geomx.CheckInside(k, &p, x, &st)
					}
					return
				}
				q := p
				if k.Ix[1] == 1 {
					q = geomx.Bounded(p)
				}
				if k.Ix[1] == 2 {
					q = geomx.Tree(geomx.Bounded(p), geomx.Sphere(12345, 0.5, p.C.Add(V{0, 60 + 3*far(p.Half[1]), 0})))
					q.C, q.Half = p.C, p.Half
				}
				ss := append([]V{p.C}, geomx.Lattice(p.C, p.Half, 0.7, 2, 1)...)
				ss = append(ss, geomx.Lattice(p.C, p.Half, 1.6, 2, 1)...)
				ss = append(ss, geomx.Lattice(p.C, p.Half, 3, 2, 0)...)
				// exactly on the faces of the bounding box: the object must not disappear
				if !math.IsInf(bb.Max[0]-bb.Min[0], 0) {
					lo, hi := geomx.RV(bb.Min), geomx.RV(bb.Max)
					for i := 0; i < 3; i++ {
						x := lo.Add(hi).Mul(0.5).Add(hi.Sub(lo).Mul(0.0123))
						x[i] = lo[i]
						y := x
						y[i] = hi[i]
						ss = append(ss, x, y)
					}
				}
				for _, s := range ss {
					for _, ray := range geomx.Rays(s, p.C, p.Half, r.Pick(1, 3)) {
						geomx.CheckRay(k, &q, ray, &st, geomx.Options{})
						if h := q.O.Intersect(&tracer.Ray{Start: geomx.GV(s), Dir: geomx.GV(ray.D)}); h.T > 0 && h.T < 1e6 && !(k.Ix[1] == 2 && h.Material == geomx.Mat(12345)) {
							within(s.Add(ray.D.Mul(h.T)), "hit")
						}
						if k.Failed() {
							return
						}
					}
				}
				add(st)
				if st.Hits == 0 {
					k.Trivial()
				}
			})
			// bounds of primitives are tight
			r.Space("tight", []int{nLayouts, 7}, func(k *mc.K) {
				p := child(k.Ix[0], k.Ix[1])
				if k.Ix[0] == 10 || p.Name[0] == 'D' {
					k.Trivial()
					return
				}
				bb := p.O.Bounds()
				for i := 0; i < 3; i++ {
					m := 1e-5 * (1 + math.Abs(p.C[i]) + p.Half[i])
					if math.Abs(bb.Min[i]-(p.C[i]-p.Half[i])) > m || math.Abs(bb.Max[i]-(p.C[i]+p.Half[i])) > m {
						k.Fail("%s: bounds %v, want %v", p.Name, bb, fmt.Sprint(p.C.Sub(p.Half), p.C.Add(p.Half)))
					}
				}
				k.SawF(bb.Min[0])
			})
			tot.Report(r)
		})
}

// far is h, or 1 if that is infinite.
func far(h float64) float64 {
	if math.IsInf(h, 0) || math.IsNaN(h) || h > 1e4 {
		return 1
	}
	return h
}
