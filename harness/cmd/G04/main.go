// G04: transformed objects are exactly the moved/rotated/scaled originals.
package main

import (
	"fmt"
	"math"
	"sync"

	"github.com/barnex/bruteray/api"
	"github.com/barnex/bruteray/tracer/objects"
	"verif/geomx"
	"verif/mc"
	. "verif/ref"
)

func base(thorough bool) []geomx.Pair {
	ps := []geomx.Pair{
		geomx.Sphere(1, 1.4, V{0.3, -0.2, 0.1}),
		geomx.Box(2, 1, 2, 0.6, V{0.2, 0.1, 0.4}),
		geomx.Capped(3, 1, 1.6, V{-0.1, 0.2, 0.3}),
		geomx.Tri(4, V{0, 0, 0}, V{1.2, 0.1, 0.3}, V{0.2, 1.3, -0.4}),
		geomx.Diff(geomx.Box(5, 1.5, 1.1, 2.3, V{0.3, 0.2, 0.1}), geomx.Sphere(6, 1.3, V{0.5, 0.4, 0.3})),
		geomx.Tree(geomx.Sphere(7, 0.8, V{-1, 0, 0.2}), geomx.Box(8, 0.7, 0.5, 0.6, V{0.6, 0.1, -0.3}), geomx.Rect(9, 1, 2, V{0, -0.7, 0})),
		geomx.Cyl(10, 2, 0.9, 1.7, V{0.1, 0.1, -0.2}),
		geomx.Disk(11, 1.7, V{0.1, 0.2, 0.3}),
		geomx.Not(geomx.Sphere(12, 1.1, V{0.2, 0.1, 0})),
	}
	if thorough {
		ps = append(ps, geomx.Quad(13, V{0, 0, 0}, V{1, 0.1, 0}, V{1.3, 1.1, 0.4}, V{0.1, 1, 0}),
			geomx.And(geomx.Cyl(14, 0, 1.2, 3, V{}), geomx.Cyl(15, 2, 1.1, 3, V{0.1, 0.1, 0})),
			geomx.Backdrop(16))
	}
	return ps
}

var alphabet = []geomx.T{
	{Name: "none", G: geomx.Translate(V{}).G, R: Ident},
	geomx.Translate(V{1.5, -2, 0.7}),
	geomx.RotateAt(V{}, V{0, 1, 0}, math.Pi/2),
	geomx.RotateAt(V{0.5, 1, -0.3}, V{1, 2, -0.5}, 0.9),
	geomx.ScaleAt(V{}, 2.5),
	geomx.ScaleAt(V{1, -0.5, 0.2}, 0.3),
	geomx.RotateAt(V{0, 0, 0.2}, V{1, 0, 0}, -2.2),
	geomx.Translate(V{40, 0, -20}),
	geomx.RotateAt(V{}, V{0, 0, 1}, math.Pi),
}

// wrap puts a transparent wrapper around the object, so that chains of
// transforms are not recognizable as such.
func wrap(p geomx.Pair, w int) geomx.Pair {
	switch w {
	case 1:
		return geomx.Bounded(p)
	case 2:
		return geomx.WithMat(77, p)
	case 3:
		return geomx.Tree(p)
	}
	return p
}

func main() {
	mc.Main("G04", "exploration",
		"A case is one (object, chain of up to three transforms, wrapper between them); rays and points are compared with a reference that maps rays analytically through its own similarity-transform arithmetic. Placement cases compare the API's move/rotate/scale/center operations with their defining equations. Non-trivial: at least one hit.",
		func(r *mc.Run) {
			r.Assumption("Transforms are compositions of translations, rotations and uniform positive scalings, as the API documents.")
			B := base(r.Thorough())
			var mu sync.Mutex
			var tot geomx.Stat
			add := func(st geomx.Stat) {
				mu.Lock()
				tot.Rays += st.Rays
				tot.Hits += st.Hits
				tot.Misses += st.Misses
				tot.Unsure += st.Unsure
				mu.Unlock()
			}
			check := func(k *mc.K, p geomx.Pair, lvl, pts int) {
				var st geomx.Stat
				sc := 1.0
				if h := p.Half.MaxAbs(); h > 3 {
					sc = h
				}
				ss := append([]V{p.C}, geomx.Lattice(p.C, p.Half, 2.1, 2+lvl, 1)...)
				ss = append(ss, geomx.Lattice(p.C, p.Half, 0.5, 2, 1)...)
				for _, s := range ss {
					geomx.CheckAll(k, &p, s, lvl, &st, geomx.Options{Tol: 3e-6 * sc})
					if k.Failed() {
						break
					}
				}
				for _, x := range geomx.Lattice(p.C, p.Half, 1.2, pts, 1) {
					geomx.CheckInside(k, &p, x, &st)
				}
				if st.Hits == 0 {
					k.Trivial()
				}
				add(st)
			}
			nA := len(alphabet)
			r.Space("chains", []int{len(B), nA, nA, r.Pick(4, nA), 4}, func(k *mc.K) {
				p := B[k.Ix[0]]
				if p.Name == "backdrop" && k.Ix[4] == 2 {
					k.Trivial()
					return
				}
				p = geomx.Transformed(p, alphabet[k.Ix[1]])
				p = wrap(p, k.Ix[4])
				p = geomx.Transformed(p, alphabet[k.Ix[2]])
				if k.Ix[3] > 0 {
					p = geomx.Transformed(p, alphabet[k.Ix[3]])
				}
				k.Desc("%s (chain %v)", p.Name, k.Ix[1:])
				if p.Name[len(p.Name)-2] == 'p' && p.Half.MaxAbs() > 1e6 {
					k.Trivial()
					return
				}
				check(k, p, r.Pick(0, 1), 5)
			})
			// Instances of one object do not influence each other or the original.
			r.Space("instances", []int{len(B), nA, nA, 3}, func(k *mc.K) {
				p := B[k.Ix[0]]
				a := geomx.Transformed(p, alphabet[k.Ix[1]])
				b := geomx.Transformed(p, alphabet[k.Ix[2]])
				c := geomx.Transformed(a, alphabet[k.Ix[2]])
				_ = geomx.Transformed(a, alphabet[(k.Ix[2]+1)%nA])
				check(k, []geomx.Pair{p, a, b, c}[k.Ix[3]], 0, 4)
				check(k, a, 0, 4)
				check(k, c, 0, 3)
				k.Desc("instances of %s %v", p.Name, k.Ix)
			})

			// Remapped local coordinates follow the object.
			remaps := []func(V) V{
				func(p V) V { return p },
				func(p V) V { return V{p[2], 2*p[0] + 1, p[1] - p[0]} },
				func(p V) V { return V{math.Sin(p[0]), 0, p[1] * p[2]} },
			}
			r.Space("remap", []int{len(B), nA, nA, len(remaps)}, func(k *mc.K) {
				p := B[k.Ix[0]]
				if p.Name == "backdrop" {
					k.Trivial()
					return
				}
				p = geomx.Transformed(p, alphabet[k.Ix[1]])
				p = geomx.Remap(p, remaps[k.Ix[3]])
				p = geomx.Transformed(p, alphabet[k.Ix[2]])
				k.Desc("%s %v", p.Name, k.Ix)
				check(k, p, 0, 4)
			})

			// Placement through the user API.
			type obj struct {
				name string
				o    api.Object
				r    Shape
				c, h V // center, half size
			}
			var O []obj
			for _, p := range []geomx.Pair{
				geomx.Sphere(1, 1.4, V{0.3, -0.2, 0.1}), geomx.Box(2, 1, 2, 0.6, V{0.2, 0.1, 0.4}),
				geomx.CylY(3, 1, 1.6, V{-0.1, 0.2, 0.3}), geomx.Rect(4, 1, 3, V{1, 2, 3}),
				geomx.Tri(5, V{0, 0, 0}, V{1.2, 0.1, 0.3}, V{0.2, 1.3, -0.4}),
				geomx.Capped(6, 1.2, 0.7, V{3, 1, 2}),
			} {
				O = append(O, obj{p.Name, api.Object{Interface: p.O}, p.R, p.C, p.Half})
			}
			poss := []V{{0, 0, 0}, {1, 2, 3}, {-7, 0.5, 0.25}, {0.1, -30, 12}}
			const tol = 3e-5
			near := func(a, b V) bool { return a.Sub(b).MaxAbs() <= tol*(1+b.MaxAbs()) }
			r.Space("placement", []int{len(O), len(O), len(poss), 12}, func(k *mc.K) {
				o := O[k.Ix[0]]
				pos := poss[k.Ix[2]]
				k.Desc("%s op %d at %v", o.name, k.Ix[3], pos)
				cen := func(x api.Object) V { return geomx.RV(x.Center()) }
				size := func(x api.Object) V { return geomx.RV(x.Bounds().Size()) }
				want := Ident
				var got api.Object
				ax := []V{{1, 2, -0.5}, {0, 1, 0}, {1, 0, 0}, {0, 0, 1}, {-1, 1, 0.2}, {0.3, 0, 1}}[k.Ix[1]]
				ang := []float64{0.3, math.Pi / 2, -1, 2, 4, -math.Pi / 4}[k.Ix[1]]
				sc := []float64{2, 0.5, 10, 0.01, 1, 3}[k.Ix[1]]
				switch k.Ix[3] {
				case 0: // corner points of the bounds
					b := o.o.Bounds()
					if !near(geomx.RV(b.Min), o.c.Sub(o.h)) || !near(geomx.RV(b.Max), o.c.Add(o.h)) {
						k.Fail("bounds %v, want %v..%v", b, o.c.Sub(o.h), o.c.Add(o.h))
					}
					got = o.o
				case 1:
					for i, x := range []V{cen(o.o), geomx.RV(o.o.CenterTop()), geomx.RV(o.o.CenterBottom()), geomx.RV(o.o.CenterFront()), geomx.RV(o.o.CenterBack())} {
						w := o.c.Add([]V{{}, {0, o.h[1], 0}, {0, -o.h[1], 0}, {0, 0, o.h[2]}, {0, 0, -o.h[2]}}[i])
						if !near(x, w) {
							k.Fail("anchor %d: %v want %v", i, x, w)
						}
					}
					b := o.o.Bounds()
					if !near(V{b.Dx(), b.Dy(), b.Dz()}, o.h.Mul(2)) {
						k.Fail("extent %v %v %v want %v", b.Dx(), b.Dy(), b.Dz(), o.h.Mul(2))
					}
					got = o.o
				case 2:
					got = o.o.Translate(geomx.GV(pos))
					want = Translate(pos)
				case 3:
					got = o.o.WithCenter(geomx.GV(pos))
					want = Translate(pos.Sub(cen(o.o))) // the anchor itself is checked by case 1
					if !near(cen(got), pos) {
						k.Fail("WithCenter(%v) has center %v", pos, cen(got))
					}
				case 4:
					got = o.o.WithCenterBottom(geomx.GV(pos))
					want = Translate(pos.Sub(geomx.RV(o.o.CenterBottom())))
					if !near(geomx.RV(got.CenterBottom()), pos) {
						k.Fail("WithCenterBottom(%v) has bottom center %v", pos, got.CenterBottom())
					}
				case 5:
					got = o.o.Rotate(geomx.GV(ax), ang)
					want = RotateAt(cen(o.o), ax, ang)
				case 6:
					got = o.o.RotateAt(geomx.GV(pos), geomx.GV(ax), ang)
					want = RotateAt(pos, ax, ang)
				case 7:
					got = o.o.Scale(sc)
					want = ScaleAt(cen(o.o), sc)
					if !near(cen(got), o.c) || !near(size(got), o.h.Mul(2*sc)) {
						k.Fail("Scale(%v): center %v size %v", sc, cen(got), size(got))
					}
				case 8:
					got = o.o.ScaleAt(geomx.GV(pos), sc)
					want = ScaleAt(pos, sc)
				case 9:
					got = o.o.ScaleToSize(sc)
					want = ScaleAt(cen(o.o), sc/size(o.o)[0])
					if !(math.Abs(size(got)[0]-sc) <= 1e-4*(sc+0.1)) {
						k.Fail("ScaleToSize(%v): size %v", sc, size(got))
					}
				case 10:
					got = o.o.Translate(geomx.GV(pos)).RotateAt(geomx.GV(pos), geomx.GV(ax), ang).Scale(1.5)
					// center of the (rotated) bounds
					m := Translate(pos).Then(RotateAt(pos, ax, ang))
					mid := o.o.Translate(geomx.GV(pos)).RotateAt(geomx.GV(pos), geomx.GV(ax), ang)
					want = m.Then(ScaleAt(cen(mid), 1.5))
				case 11:
					got = o.o.RotateAt(geomx.GV(pos), geomx.GV(ax), ang).WithCenterBottom(geomx.GV(pos))
					m := RotateAt(pos, ax, ang)
					mid := o.o.RotateAt(geomx.GV(pos), geomx.GV(ax), ang)
					want = m.Then(Translate(pos.Sub(geomx.RV(mid.CenterBottom()))))
					if !near(geomx.RV(got.CenterBottom()), pos) {
						k.Fail("WithCenterBottom(%v) has bottom center %v", pos, got.CenterBottom())
					}
				}
				t := geomx.T{Name: "api", G: geomx.Translate(V{}).G, R: want}
				p := geomx.Pair{Name: o.name, O: objects.Hollow(got.Interface), R: Hollow{A: o.r}, C: o.c, Half: o.h}
				q := geomx.Transformed(p, t) // reference side only
				q.O = got.Interface
				q.R = Trans{A: o.r, M: want}
				q.Name = fmt.Sprintf("%s placement %d", o.name, k.Ix[3])
				check(k, q, 0, 4)
			})
			tot.Report(r)
		})
}
