// G03: constructive solid geometry is boolean algebra on point sets.
package main

import (
	"sync"

	"verif/geomx"
	"verif/mc"
	. "verif/ref"
)

func leaves() []geomx.Pair {
	return []geomx.Pair{
		geomx.Sphere(1, 2, V{0.1, 0.05, -0.1}),
		geomx.Box(2, 1.5, 1.1, 2.3, V{0.35, 0.2, 0.15}),
		geomx.Cyl(3, 0, 1.2, 3.1, V{-0.1, 0.15, 0.3}),
		geomx.Sphere(4, 1.3, V{0.6, -0.35, 0.4}),
		geomx.Capped(5, 1.4, 1.7, V{-0.3, 0.31, 0.12}),
		geomx.Box(6, 0.4, 3, 0.5, V{-0.2, 0.07, -0.25}),
		geomx.Rect(7, 1.9, 2.1, V{0.1, 0.22, 0.03}),
		geomx.Transformed(geomx.Box(8, 1.3, 1.3, 1.3, V{}), geomx.RotateAt(V{0.2, 0, 0}, V{1, 2, 3}, 0.7)),
		geomx.Sphere(9, 1, V{5, 0, 0}), // disjoint from all others
	}
}

type op struct {
	name string
	f    func(a, b geomx.Pair) geomx.Pair
}

var ops = []op{
	{"And", geomx.And},
	{"Or", geomx.Or},
	{"Difference", geomx.Diff},
	{"AndNot", geomx.AndNot},
	{"Restrict", geomx.Restrict},
	{"Remove", geomx.Remove},
	{"AndNotNot", func(a, b geomx.Pair) geomx.Pair { return geomx.Not(geomx.And(geomx.Not(a), geomx.Not(b))) }},
	{"HollowDiff", func(a, b geomx.Pair) geomx.Pair { return geomx.Diff(geomx.Hollow(a), b) }},
	{"HollowOr", func(a, b geomx.Pair) geomx.Pair { return geomx.Or(geomx.Hollow(a), b) }},
	{"TreeOr", func(a, b geomx.Pair) geomx.Pair { return geomx.Tree(a, b) }},
}

func main() {
	mc.Main("G03", "exploration",
		"A case is one (boolean expression over the primitives, ray start or point lattice). All expressions up to the stated depth are enumerated; hit/miss, distance, normal, material, local coordinates and insideness are compared with set operations on analytic crossing lists. Non-trivial: at least one hit.",
		func(r *mc.Run) {
			r.Assumption("Coincident surfaces, and features thinner than 1e-5, are not specified.")
			L := leaves()
			nl := len(L)
			lvl := r.Pick(0, 1)
			starts := func(p *geomx.Pair) []V {
				ps := []V{p.C, {0.1, 0.1, 0.1}, {-0.3, 0.4, 0.2}, {0.7, 0.3, 0.6}}
				ps = append(ps, geomx.Lattice(V{}, V{1, 1, 1}, 1.9, 2+lvl, 1)...)
				ps = append(ps, V{0.03, 3, 0.02}, V{-3, 0.11, 0.07}, V{0.2, 0.1, 4}, V{50, 20, -30})
				return ps
			}
			var mu sync.Mutex
			var tot geomx.Stat
			add := func(st geomx.Stat) {
				mu.Lock()
				tot.Rays += st.Rays
				tot.Hits += st.Hits
				tot.Misses += st.Misses
				tot.Unsure += st.Unsure
				mu.Unlock()
			}
			check := func(k *mc.K, p geomx.Pair, lvl int, pts int) {
				k.Desc("%s", p.Name)
				p.C, p.Half = V{0.1, 0.1, 0.1}, V{1.1, 1, 1.1}
				var st geomx.Stat
				for _, s := range starts(&p) {
					geomx.CheckAll(k, &p, s, lvl, &st, geomx.Options{Tol: 3e-6})
					if k.Failed() {
						return
					}
				}
				for _, x := range geomx.Lattice(p.C, p.Half, 1.3, pts, 1) {
					geomx.CheckInside(k, &p, x, &st)
				}
				geomx.CheckInside(k, &p, V{5.1, 0.2, 0.1}, &st)
				if st.Hits == 0 {
					k.Trivial()
				}
				add(st)
			}
			r.Space("unary", []int{nl, 4}, func(k *mc.K) {
				p := L[k.Ix[0]]
				switch k.Ix[1] {
				case 1:
					p = geomx.Not(p)
				case 2:
					p = geomx.Hollow(p)
				case 3:
					p = geomx.Not(geomx.Not(p))
				}
				check(k, p, 2, 11)
			})
			r.Space("depth1", []int{len(ops), nl, nl}, func(k *mc.K) {
				if k.Ix[1] == k.Ix[2] {
					k.Trivial()
					return
				}
				check(k, ops[k.Ix[0]].f(L[k.Ix[1]], L[k.Ix[2]]), lvl+1, 11)
			})
			n2 := nl
			if !r.Thorough() {
				n2 = 6
			}
			o2 := r.Pick(5, len(ops))
			r.Space("depth2-left", []int{len(ops), o2, n2, n2, n2}, func(k *mc.K) {
				a, b, c := k.Ix[2], k.Ix[3], k.Ix[4]
				if a == b || b == c || a == c {
					k.Trivial()
					return
				}
				check(k, ops[k.Ix[0]].f(ops[k.Ix[1]].f(L[a], L[b]), L[c]), 0, 5)
			})
			r.Space("depth2-right", []int{len(ops), o2, n2, n2, n2}, func(k *mc.K) {
				a, b, c := k.Ix[2], k.Ix[3], k.Ix[4]
				if a == b || b == c || a == c {
					k.Trivial()
					return
				}
				check(k, ops[k.Ix[0]].f(L[a], ops[k.Ix[1]].f(L[b], L[c])), 0, 5)
			})
			// complements and hollow objects, nested in every way
			un := []func(p geomx.Pair) geomx.Pair{
				func(p geomx.Pair) geomx.Pair { return p },
				geomx.Not,
				geomx.Hollow,
				func(p geomx.Pair) geomx.Pair { return geomx.Not(geomx.Not(p)) },
				func(p geomx.Pair) geomx.Pair { return geomx.Not(geomx.Hollow(p)) },
				func(p geomx.Pair) geomx.Pair { return geomx.Hollow(geomx.Not(p)) },
				func(p geomx.Pair) geomx.Pair { return geomx.Hollow(geomx.Hollow(p)) },
				func(p geomx.Pair) geomx.Pair { return geomx.Not(geomx.Not(geomx.Not(p))) },
				func(p geomx.Pair) geomx.Pair { return geomx.Not(geomx.Hollow(geomx.Not(p))) },
				func(p geomx.Pair) geomx.Pair { return geomx.Not(geomx.Not(geomx.Hollow(p))) },
				func(p geomx.Pair) geomx.Pair { return geomx.Hollow(geomx.Not(geomx.Not(p))) },
			}
			r.Space("complements", []int{6, len(un), len(un), r.Pick(4, 12)}, func(k *mc.K) {
				q := [][2]int{{0, 1}, {1, 2}, {4, 3}, {7, 0}, {2, 5}, {3, 4}, {5, 7}, {6, 0}, {0, 6}, {8, 1}, {1, 0}, {2, 4}}[k.Ix[3]]
				check(k, ops[k.Ix[0]].f(un[k.Ix[1]](L[q[0]]), un[k.Ix[2]](L[q[1]])), 0, 7)
			})
			// two composites combined
			r.Space("depth2-both", []int{len(ops), o2, o2, r.Pick(3, 12)}, func(k *mc.K) {
				q := [][4]int{{0, 1, 2, 3}, {1, 3, 4, 5}, {4, 7, 0, 5}, {3, 2, 1, 0}, {7, 0, 1, 6}, {6, 1, 0, 2}, {5, 4, 3, 8}, {8, 0, 1, 2}, {0, 3, 5, 7}, {2, 5, 7, 4}, {1, 7, 0, 3}, {0, 6, 4, 2}}[k.Ix[3]]
				check(k, ops[k.Ix[0]].f(ops[k.Ix[1]].f(L[q[0]], L[q[1]]), ops[k.Ix[2]].f(L[q[2]], L[q[3]])), 0, 5)
			})
			// Many crossings: a comb of n slots cut out of a bar, seen along the bar.
			r.Space("comb", []int{r.Pick(12, 30), 3}, func(k *mc.K) {
				n := k.Ix[0] + 1
				bar := geomx.Box(1, float64(n)+1, 1, 1, V{})
				p := bar
				for i := 0; i < n; i++ {
					c := geomx.Box(2+i, 0.5, 2, 2, V{float64(i) - float64(n-1)/2, 0.1, 0})
					switch k.Ix[1] {
					case 0:
						p = geomx.Diff(p, c)
					case 1:
						if i == 0 {
							p = c
						} else {
							p = geomx.Or(p, c)
						}
					case 2:
						if i == 0 {
							p = c
						} else {
							p = geomx.Or(c, p)
						}
					}
				}
				if k.Ix[1] > 0 {
					p = geomx.And(bar, p)
				}
				k.Desc("comb %d", n)
				var st geomx.Stat
				p.C, p.Half = V{}, V{float64(n) / 2, 0.5, 0.5}
				for _, s := range []V{{-float64(n) - 3, 0.03, 0.02}, {float64(n) + 3, 0.2, 0.1}, {0.3, 0.1, 0.1}, {0.77, 0.1, 0.1}, {-float64(n) / 2 * 0.9, 0.2, 0.3}, {0.3, 5, 0.2}} {
					for _, d := range []V{{1, 0, 0}, {-1, 0, 0}, {0.99, 0.01, 0.003}, {-0.97, -0.02, 0.01}} {
						geomx.CheckRay(k, &p, geomx.Ray{S: s, D: d.Unit()}, &st, geomx.Options{Tol: 1e-5})
					}
					geomx.CheckAll(k, &p, s, 0, &st, geomx.Options{Tol: 1e-5})
				}
				for _, x := range geomx.Lattice(p.C, p.Half, 1.1, 15, 1) {
					geomx.CheckInside(k, &p, x, &st)
				}
				add(st)
			})
			// Rays that cross many surfaces of one operand before the one that counts.
			r.Space("far", []int{r.Pick(20, 45), 2, 8}, func(k *mc.K) {
				n := k.Ix[0] + 1
				var row geomx.Pair
				var balls []geomx.Pair
				for i := 0; i < n; i++ {
					b := geomx.Sphere(1, 0.8, V{float64(i), 0.013 * float64(i%3), 0})
					balls = append(balls, b)
					if i == 0 {
						row = b
					} else if k.Ix[1] == 0 {
						row = geomx.Or(row, b)
					}
				}
				if k.Ix[1] == 1 {
					row = geomx.Tree(balls...)
				}
				last := geomx.Box(2, 0.5, 3, 3, V{float64(n - 1), 0.01, 0.02})
				half := geomx.Box(3, 9, 3, 3, V{float64(n-1) + 4.5 - 0.13, 0.01, 0.02})
				most := geomx.Box(4, float64(n)+8, 3, 3, V{float64(n-1) - float64(n)/2 - 4.2, 0.01, 0.02})
				var p geomx.Pair
				switch k.Ix[2] {
				case 0:
					p = geomx.And(row, last)
				case 1:
					p = geomx.And(half, row)
				case 2:
					p = geomx.Restrict(row, half)
				case 3:
					p = geomx.Remove(row, most)
				case 4:
					p = geomx.Diff(row, most)
				case 5:
					p = geomx.Or(row, most)
				case 6:
					p = geomx.Or(most, row)
				case 7:
					p = geomx.AndNot(half, row)
				}
				k.Desc("row of %d", n)
				var st geomx.Stat
				p.C, p.Half = V{float64(n-1) / 2, 0, 0}, V{float64(n) / 2, 0.4, 0.4}
				for _, s := range []V{{-3, 0.03, 0.02}, {float64(n) + 2, 0.05, 0.1}, {-20, 0.11, 0.05}, {0.1, 0.1, 0.1}, {float64(n/2) + 0.03, 0.02, 0.07}} {
					for _, d := range []V{{1, 0, 0}, {-1, 0, 0}, {1, 0.001, 0.0003}, {-1, -0.0002, 0.0001}} {
						geomx.CheckRay(k, &p, geomx.Ray{S: s, D: d.Unit()}, &st, geomx.Options{Tol: 1e-5})
					}
				}
				for _, x := range geomx.Lattice(p.C, p.Half, 1.1, 11, 1) {
					geomx.CheckInside(k, &p, x, &st)
				}
				add(st)
			})
			tot.Report(r)
		})
}
