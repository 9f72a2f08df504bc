// F01: mesh files are loaded completely and exactly, or refused.
package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync/atomic"

	"github.com/barnex/bruteray/geom"
	"github.com/barnex/bruteray/tracer"
	"github.com/barnex/bruteray/tracer/objects"
	"github.com/barnex/bruteray/tracer/objects/obj"
	"github.com/barnex/bruteray/tracer/objects/ply"
	"verif/mc"
	. "verif/tx"
)

const (
	valid = iota
	invalid
	unspecified
)

type mesh struct {
	v []Vec
	f [][3]int
}

// refPly is an independent reader of ASCII PLY files with 3 coordinates first
// in each vertex, and faces of 3 or 4 vertices.
func refPly(s string) (m mesh, verdict int) {
	lines := strings.Split(s, "\n")
	if lines[len(lines)-1] == "" {
		lines = lines[:len(lines)-1]
	}
	n := 0
	next := func() (string, bool) {
		if n >= len(lines) {
			return "", false
		}
		n++
		return strings.TrimSpace(lines[n-1]), true
	}
	if l, ok := next(); !ok || l != "ply" {
		return m, invalid
	}
	if l, ok := next(); !ok || l != "format ascii 1.0" {
		return m, invalid
	}
	nv, nf := 0, 0
	for {
		l, ok := next()
		if !ok {
			return m, invalid
		}
		if l == "end_header" {
			break
		}
		w := strings.Fields(l)
		if len(w) == 0 {
			return m, unspecified
		}
		switch w[0] {
		case "comment", "obj_info", "property":
		case "element":
			if strings.Join(w, " ") != l || len(w) != 3 {
				return m, unspecified
			}
			c, err := strconv.Atoi(w[2])
			switch {
			case w[1] == "vertex":
				nv = c
			case w[1] == "face":
				nf = c
			default:
				return m, unspecified
			}
			if err != nil || c < 0 {
				return m, invalid
			}
			if c > 100000 {
				return m, invalid // more than the file has lines
			}
		default:
			return m, unspecified
		}
	}
	for i := 0; i < nv; i++ {
		l, ok := next()
		w := strings.Fields(l)
		if !ok || len(w) < 3 {
			return m, invalid
		}
		var v Vec
		for c := range v {
			x, err := strconv.ParseFloat(w[c], 64)
			if err != nil {
				return m, invalid
			}
			v[c] = x
		}
		m.v = append(m.v, v)
	}
	for i := 0; i < nf; i++ {
		l, ok := next()
		w := strings.Fields(l)
		if !ok || len(w) < 4 {
			return m, invalid
		}
		k, err := strconv.Atoi(w[0])
		if err != nil || k != 3 && k != 4 || len(w) < k+1 {
			return m, invalid
		}
		var ix []int
		for c := 0; c < k; c++ {
			x, err := strconv.Atoi(w[1+c])
			if err != nil || x < 0 || x >= nv {
				return m, invalid
			}
			ix = append(ix, x)
		}
		m.f = append(m.f, [3]int{ix[0], ix[1], ix[2]})
		if k == 4 {
			m.f = append(m.f, [3]int{ix[2], ix[3], ix[0]})
		}
	}
	return m, valid
}

// sameTri compares triangles up to rotation, which changes nothing observable but texture origin.
func sameTri(a, b [3]int) bool {
	return a == b || a == [3]int{b[1], b[2], b[0]} || a == [3]int{b[2], b[0], b[1]}
}

func sameVec(a, b Vec) bool {
	for i := range a {
		if a[i] != b[i] && !(a[i] != a[i] && b[i] != b[i]) {
			return false
		}
	}
	return true
}

type slow struct {
	b   []byte
	n   int
	err error
}

func (s *slow) Read(p []byte) (int, error) {
	if len(s.b) == 0 {
		return 0, s.err
	}
	n := copy(p[:min(s.n, len(p))], s.b)
	s.b = s.b[n:]
	return n, nil
}

func checkPly(k *mc.K, text string, parse func(s string) ([]Vec, [][3]int, error)) int {
	want, verdict := refPly(text)
	v, f, err := parse(text)
	k.Op(1)
	switch verdict {
	case valid:
		if err != nil {
			k.Fatal("valid file refused: %v\n%q", err, text)
		}
		if len(v) != len(want.v) || len(f) != len(want.f) {
			k.Fatal("%d vertices, %d faces, want %d, %d\n%q", len(v), len(f), len(want.v), len(want.f), text)
		}
		for i := range v {
			if !sameVec(v[i], want.v[i]) {
				k.Fatal("vertex %d: %v, want %v\n%q", i, v[i], want.v[i], text)
			}
		}
		for i := range f {
			if !sameTri(f[i], want.f[i]) {
				k.Fatal("face %d: %v, want %v\n%q", i, f[i], want.f[i], text)
			}
		}
	case invalid:
		if err == nil {
			k.Fatal("damaged file accepted as %v %v\n%q", v, f, text)
		}
	}
	k.Saw(verdict, want.v, want.f)
	return verdict
}

func parseStr(s string) ([]Vec, [][3]int, error) { return ply.Parse(strings.NewReader(s)) }

// OBJ

type omesh struct {
	v []Vec
	f map[string][][]int32
}

// refObj is an independent reader of OBJ files (vertices, faces of 3 or 4 vertices, materials).
func refObj(s string) (m omesh, verdict int) {
	m.f = map[string][][]int32{}
	mat := ""
	for _, l := range strings.Split(s, "\n") {
		w := strings.Fields(l)
		if len(w) == 0 || strings.HasPrefix(w[0], "#") {
			continue
		}
		a := w[1:]
		switch w[0] {
		case "v":
			if len(a) != 3 && len(a) != 4 {
				return m, invalid
			}
			var v Vec
			for i := range a {
				x, err := strconv.ParseFloat(a[i], 64)
				if err != nil {
					if i == 3 {
						return m, unspecified
					}
					return m, invalid
				}
				if math.Abs(x) > 1e38 || math.IsNaN(x) {
					return m, unspecified
				}
				if i == 3 && x != 1 {
					return m, unspecified
				}
				if i < 3 {
					v[i] = x
				}
			}
			m.v = append(m.v, v)
		case "f":
			if len(a) < 3 {
				return m, invalid
			}
			if len(a) > 4 {
				return m, unspecified // polygons: refused, or loaded; not checked
			}
			var f []int32
			for _, x := range a {
				p := strings.Split(x, "/")
				i, err := strconv.ParseInt(p[0], 10, 32)
				if err != nil || i == 0 {
					return m, invalid
				}
				if i < 0 {
					return m, unspecified // relative index
				}
				f = append(f, int32(i-1))
			}
			m.f[mat] = append(m.f[mat], f)
		case "usemtl":
			if len(a) != 1 {
				return m, unspecified
			}
			mat = a[0]
		case "o", "vn", "vt", "s", "l", "g", "mtllib":
		default:
			return m, unspecified
		}
	}
	for _, fs := range m.f {
		for _, f := range fs {
			for _, i := range f {
				if int(i) >= len(m.v) {
					return m, invalid
				}
			}
		}
	}
	return m, valid
}

var fileN atomic.Int64

func tmp(text, ext string) string {
	f := filepath.Join(os.Getenv("VERIF_WORK"), fmt.Sprintf("m%d%s", fileN.Add(1), ext))
	if err := os.WriteFile(f, []byte(text), 0666); err != nil {
		panic(err)
	}
	return f
}

func checkObj(k *mc.K, text string) int {
	want, verdict := refObj(text)
	fname := tmp(text, ".obj")
	o, err := obj.ParseFile(fname)
	os.Remove(fname)
	k.Op(1)
	switch verdict {
	case valid:
		if err != nil {
			k.Fatal("valid file refused: %v\n%q", err, text)
		}
		if len(o.Vertices) != len(want.v) {
			k.Fatal("%d vertices, want %d\n%q", len(o.Vertices), len(want.v), text)
		}
		for i := range want.v {
			for c := range want.v[i] {
				// single precision, as the package's own example documents
				if a, b := o.Vertices[i][c], want.v[i][c]; math.Abs(a-b) > 1e-7*math.Abs(b)+1e-40 {
					k.Fatal("vertex %d: %v, want %v\n%q", i, o.Vertices[i], want.v[i], text)
				}
			}
		}
		n := 0
		for m, f := range o.Faces {
			if len(f) > 0 {
				n++
			}
			if len(f) != len(want.f[m]) {
				k.Fatal("material %q: faces %v, want %v\n%q", m, f, want.f[m], text)
			}
			for i := range f {
				if fmt.Sprint(f[i]) != fmt.Sprint(want.f[m][i]) {
					k.Fatal("material %q: face %d is %v, want %v\n%q", m, i, f[i], want.f[m][i], text)
				}
			}
		}
		if n != len(want.f) {
			k.Fatal("faces %v, want %v\n%q", o.Faces, want.f, text)
		}
	case invalid:
		if err == nil {
			k.Fatal("damaged file accepted as %v\n%q", o, text)
		}
	}
	k.Saw(verdict, want.v, len(want.f))
	return verdict
}

// hit is the closest triangle along a ray; ok=false if the ray passes so close to an edge that rounding decides.
func hit(tri [][3]Vec, s, d Vec) (t float64, ok bool) {
	ok = true
	for _, p := range tri {
		e1, e2 := Sub(p[1], p[0]), Sub(p[2], p[0])
		q := Cross(d, e2)
		det := Dot(e1, q)
		if n := Cross(e1, e2); math.Abs(det) < 1e-9*Len(n) { // parallel to the ray
			if math.Abs(Dot(n, Sub(s, p[0]))) > 1e-6*Len(n) {
				continue
			}
			return 0, false
		}
		tv := Sub(s, p[0])
		u := Dot(tv, q) / det
		q2 := Cross(tv, e1)
		v := Dot(d, q2) / det
		tt := Dot(e2, q2) / det
		w := 1 - u - v
		if u < -1e-6 || v < -1e-6 || w < -1e-6 {
			continue
		}
		if u < 1e-6 || v < 1e-6 || w < 1e-6 || math.Abs(tt) < 1e-6 {
			return 0, false
		}
		if tt > 0 && (t == 0 || tt < t) {
			t = tt
		}
	}
	return t, ok
}

func main() {
	if f := os.Getenv("F01_LOAD"); f != "" { // child: load a bad file, which must not succeed
		if strings.HasSuffix(f, ".ply") {
			objects.PlyFile(nil, f)
		} else {
			objects.ObjFile(map[string]tracer.Material{"": nil, "m": nil}, f)
		}
		fmt.Println("LOADED")
		os.Exit(0)
	}
	mc.Main("F01", "exploration",
		"ply/obj: every file of a grammar (number formats, separators, line ends, comments, extra fields, face kinds, order); truncate/delete/replace: every truncation point, every deleted byte and every byte replaced by each of a set, of base files, judged by an independent reader that knows three verdicts; readers: every chunk size and every position of a read error; loaded: every mesh of a family with every transform sequence, loaded as an object, hit by a lattice of rays and compared with direct intersection of all triangles. Non-trivial: the file is definitely valid or definitely invalid.",
		func(r *mc.Run) {
			nums := []string{"0", "-1.5", "1e3", "+2", "0.1", ".5", "3.", "-0", "1E-2", "123456.789", "0.30000001192092896"}
			seps := []string{" ", "  ", "\t", " \t "}
			eols := []string{"\n", "\r\n", " \n"}
			heads := []string{"", "comment hi there\n", "obj_info x\n", "comment element face 7\n"}
			extras := []string{"", " 0.5", " 1 2 3 4"}
			faces := []string{"", "3 0 1 2", "4 0 1 2 3", "3 0 1 2|3 2 1 0", "4 3 2 1 0|3 1 2 3", "3 0 1 2|4 0 1 2 3|3 3 2 1"}
			mkPly := func(head, num, sep, eol, extra, faces string, finalEOL bool, headPos int) string {
				var b []string
				b = append(b, "ply", "format ascii 1.0")
				h := []string{"element vertex 4", "property float x", "property float y", "property float z"}
				var fl []string
				if faces != "" {
					fl = strings.Split(faces, "|")
				}
				h = append(h, "element face "+strconv.Itoa(len(fl)), "property list uchar int vertex_indices")
				for i, l := range h {
					if i == headPos && head != "" {
						b = append(b, strings.TrimSuffix(head, "\n"))
					}
					b = append(b, l)
				}
				b = append(b, "end_header")
				for i := 0; i < 4; i++ {
					c := []string{"1", "2", "3"}
					c[i%3] = num
					if i == 3 {
						c = []string{num, num, "-" + strings.TrimLeft(num, "+-")}
					}
					b = append(b, strings.Join(c, sep)+extra)
				}
				for _, f := range fl {
					b = append(b, strings.ReplaceAll(f, " ", sep)+extra)
				}
				s := strings.Join(b, eol)
				if finalEOL {
					s += eol
				}
				return s
			}
			r.Space("ply", []int{len(heads), len(nums), len(seps), len(eols), len(extras), len(faces), 2, r.Pick(2, 6)}, func(k *mc.K) {
				s := mkPly(heads[k.Ix[0]], nums[k.Ix[1]], seps[k.Ix[2]], eols[k.Ix[3]], extras[k.Ix[4]], faces[k.Ix[5]], k.Ix[6] == 1, k.Ix[7])
				if checkPly(k, s, parseStr) != valid {
					panic("harness: grammar makes an invalid file")
				}
			})
			var plyBase []string
			for i, f := range faces {
				plyBase = append(plyBase, mkPly(heads[i%len(heads)], nums[i], " ", eols[i%2], extras[i%3], f, i%2 == 0, i%6))
			}
			repl := []byte("x-9 0\n.#/")
			mutate := func(bases []string, name, what string, f func(k *mc.K, s string) int) {
				maxL := 0
				for _, b := range bases {
					maxL = max(maxL, len(b))
				}
				nr := len(repl) + 2
				r.Space(name, []int{len(bases), maxL, nr}, func(k *mc.K) {
					s, i := bases[k.Ix[0]], k.Ix[1]
					if i >= len(s) {
						k.Trivial()
						return
					}
					switch k.Ix[2] {
					case 0:
						s = s[:i]
					case 1:
						s = s[:i] + s[i+1:]
					default:
						s = s[:i] + string(repl[k.Ix[2]-2]) + s[i+1:]
					}
					k.Desc("%q", s)
					if f(k, s) == unspecified {
						k.Trivial()
					}
				})
			}
			mutate(plyBase, "plydamage", ".ply", func(k *mc.K, s string) int { return checkPly(k, s, parseStr) })
			// lines deleted, repeated or swapped
			r.Space("plylines", []int{len(plyBase), 24, 24, 3}, func(k *mc.K) {
				l := strings.SplitAfter(plyBase[k.Ix[0]], "\n")
				i, j := k.Ix[1], k.Ix[2]
				if i >= len(l) || j >= len(l) {
					k.Trivial()
					return
				}
				var o []string
				switch k.Ix[3] {
				case 0: // delete from i up to j
					if i > j {
						k.Trivial()
						return
					}
					o = append(append(o, l[:i]...), l[j+1:]...)
				case 1: // swap
					o = append(o, l...)
					o[i], o[j] = o[j], o[i]
				case 2: // copy line i before j
					o = append(append(append(o, l[:j]...), l[i]), l[j:]...)
				}
				if checkPly(k, strings.Join(o, ""), parseStr) == unspecified {
					k.Trivial()
				}
			})
			r.Space("readers", []int{len(plyBase), 300, 3}, func(k *mc.K) {
				s := plyBase[k.Ix[0]]
				i := k.Ix[1]
				switch k.Ix[2] {
				case 0: // chunks
					checkPly(k, s, func(s string) ([]Vec, [][3]int, error) { return ply.Parse(&slow{[]byte(s), i + 1, io.EOF}) })
				case 1: // read error after i bytes of the file
					if i >= len(strings.TrimRight(s, "\r\n")) {
						k.Trivial()
						return
					}
					v, f, err := ply.Parse(&slow{[]byte(s[:i]), 7, errors.New("disk on fire")})
					k.Op(1)
					if err == nil {
						k.Fatal("read error after %d bytes ignored: %v %v", i, v, f)
					}
					k.Saw(k.Ix)
				case 2: // from a file
					if i > 0 {
						k.Trivial()
						return
					}
					checkPly(k, s, func(s string) ([]Vec, [][3]int, error) {
						f := tmp(s, ".ply")
						defer os.Remove(f)
						return ply.ParseFile(f)
					})
				}
			})
			// OBJ
			ofaces := []string{"1%[1]s 2%[1]s 3%[1]s", "4%[1]s 3%[1]s 2%[1]s 1%[1]s"}
			forms := []string{"", "/5", "/5/6", "//7"}
			between := []string{"", "# comment\n", "#comment\n", "\n", "usemtl m\n", "usemtl other\n", "g grp\n", "o name\n", "s off\n", "vn 0 0 1\n", "vt 0 1\n", "l 1 2\n", "mtllib x.mtl\n", "   \n", "usemtl m\nusemtl other\n"}
			mkObj := func(b1, b2, num, sep, eol, form, w string, final bool, order int) string {
				vs := "v 1 2 3\nv " + num + " 2 3\nv 1 " + num + " 3\nv 1 2 " + num + w + "\n"
				f1 := "f " + fmt.Sprintf(ofaces[0], form) + "\n"
				f2 := "f " + fmt.Sprintf(ofaces[1], form) + "\n"
				var s string
				switch order {
				case 0:
					s = b1 + vs + f1 + b2 + f2
				case 1:
					s = vs + b1 + f2 + f1 + b2 + f1
				case 2:
					s = vs + f1 + b1 + "v " + num + " 0 0\n" + f2 + b2 + "f 5 1 2\n" + f1
				}
				if sep != " " {
					s = strings.ReplaceAll(s, " ", sep)
				}
				if !final {
					s = strings.TrimSuffix(s, "\n")
				}
				return strings.ReplaceAll(s, "\n", eol)
			}
			nnums := []string{"0", "0.1", "-1.5", "+2.", "1e3"}
			if r.Thorough() {
				nnums = nums
			}
			r.Space("obj", []int{len(between), len(between), len(nnums), r.Pick(2, 4), 3, len(forms), 2, 2, 3}, func(k *mc.K) {
				w := ""
				if k.Ix[6] == 1 {
					w = " 1.0"
				}
				s := mkObj(between[k.Ix[0]], between[k.Ix[1]], nnums[k.Ix[2]], seps[k.Ix[3]], eols[k.Ix[4]], forms[k.Ix[5]], w, k.Ix[7] == 1, k.Ix[8])
				if v := checkObj(k, s); v != valid {
					panic(fmt.Sprintf("harness: grammar makes verdict %d file %q", v, s))
				}
			})
			var objBase []string
			for i := 0; i < 6; i++ {
				objBase = append(objBase, mkObj(between[i], between[(5*i+4)%len(between)], nums[i], " ", eols[i%2], forms[i%4], "", i%2 == 0, i%3))
			}
			mutate(objBase, "objdamage", ".obj", checkObj)
			// a very long line and many lines
			r.Space("long", []int{6}, func(k *mc.K) {
				var b strings.Builder
				n := []int{10, 1000, 20000}[k.Ix[0]%3]
				if k.Ix[0] < 3 {
					fmt.Fprintf(&b, "ply\nformat ascii 1.0\ncomment %s\nelement vertex %d\nproperty float x\nelement face %d\nend_header\n", strings.Repeat("x", n), n, n)
					for i := 0; i < n; i++ {
						fmt.Fprintln(&b, i, i*2, float64(i)/3)
					}
					for i := 0; i < n; i++ {
						fmt.Fprintln(&b, 3, i, (i*7)%n, (i*11)%n)
					}
					checkPly(k, b.String(), parseStr)
				} else {
					fmt.Fprintf(&b, "# %s\n", strings.Repeat("x", n))
					for i := 0; i < n; i++ {
						fmt.Fprintln(&b, "v", i, i*2, float64(i)/3)
					}
					for i := 0; i < n; i++ {
						if i%10 == 0 {
							fmt.Fprintf(&b, "usemtl m%d\n", i%7)
						}
						fmt.Fprintln(&b, "f", 1+i, 1+(i*7)%n, 1+(i*11)%n)
					}
					checkObj(k, b.String())
				}
			})
			// lines longer than any buffer: loaded completely, or refused
			r.Space("longlines", []int{8, 12, 4, 2}, func(k *mc.K) {
				n := []int{4000, 4096, 65000, 65534, 65535, 65536, 70000, 300000}[k.Ix[0]]
				long := []string{"# " + strings.Repeat("x", n), "#" + strings.Repeat(" y", n/2), strings.Repeat(" ", n), "g " + strings.Repeat("z", n)}[k.Ix[2]]
				l := []string{"v 1 2 3", "v 2 3 4", "v 0 1 7", "usemtl a", "f 1 2 3", "f 3 2 1", "usemtl b", "f 2 1 3", "v 5 5 5", "f 1 2 4", "f 4 3 2 1"}
				at := k.Ix[1]
				l = append(l[:at:at], append([]string{long}, l[at:]...)...)
				text := strings.Join(l, "\n")
				if k.Ix[3] == 1 {
					text += "\n"
				}
				fname := tmp(text, ".obj")
				o, err := obj.ParseFile(fname)
				os.Remove(fname)
				k.Op(1)
				k.Desc("line of %d bytes as line %d, kind %d", n, at, k.Ix[2])
				if err == nil && (len(o.Vertices) != 4 || len(o.Faces["a"]) != 2 || len(o.Faces["b"]) != 3) {
					k.Fatal("%d of 4 vertices, %d of 2 and %d of 3 faces, but no error", len(o.Vertices), len(o.Faces["a"]), len(o.Faces["b"]))
				}
				if err != nil && n < 60000 {
					k.Fatal("valid file refused: %v", err)
				}
				k.Saw(k.Ix, err == nil)
			})
			// missing files, and damaged files loaded as an object, end the program
			bad := map[string]string{"folder.ply": "/", "folder.obj": "/", "missing.ply": "-", "missing.obj": "-", "empty.ply": "", "short.ply": plyBase[2][:len(plyBase[2])-12], "bad.ply": "ply\nformat binary_little_endian 1.0\nend_header\n", "bad.obj": "v 1 2\n", "index.obj": "v 1 2 3\nf 0 0 0\n", "range.ply": strings.Replace(plyBase[1], "3 0 1 2", "3 0 1 4", 1), "minus.ply": strings.Replace(plyBase[1], "3 0 1 2", "3 0 -1 2", 1), "range.obj": "v 1 2 3\nv 3 4 5\nv 3 3 6\nf 1 2 4\n", "mat.obj": "v 1 2 3\nv 3 4 5\nv 3 3 6\nusemtl undefined\nf 1 2 3\n"}
			var badNames []string
			for n := range bad {
				badNames = append(badNames, n)
			}
			r.Space("refused", []int{len(badNames)}, func(k *mc.K) {
				n := badNames[k.Ix[0]]
				f := filepath.Join(os.Getenv("VERIF_WORK"), n)
				if bad[n] == "/" {
					os.Mkdir(f, 0777)
				} else if bad[n] != "-" {
					os.WriteFile(f, []byte(bad[n]), 0666)
				}
				cmd := exec.Command(os.Args[0])
				cmd.Env = append(os.Environ(), "F01_LOAD="+f)
				out, err := cmd.CombinedOutput()
				k.Op(1)
				if err == nil || bytes.Contains(out, []byte("LOADED")) {
					k.Fatal("loading %s must not succeed: %s", n, out)
				}
				if strings.HasSuffix(n, ".ply") {
					if _, _, err := ply.ParseFile(f); err == nil {
						k.Fatal("%s: no error", n)
					}
				} else if n != "mat.obj" {
					if _, err := obj.ParseFile(f); err == nil {
						k.Fatal("%s: no error", n)
					}
				}
				k.Saw(n)
			})
			// Files as objects: all triangles there, transformed, with the right material.
			tr := []*geom.AffineTransform{geom.Translate(Vec{1, 2, -3}), geom.Scale(Vec{0, 0, 0}, 2), geom.Yaw(math.Pi / 2), geom.Scale(Vec{1, 0, 0}, 0.5)}
			trf := []func(Vec) Vec{
				func(v Vec) Vec { return Add(v, Vec{1, 2, -3}) },
				func(v Vec) Vec { return Scale(2, v) },
				nil, // yaw: see below
				func(v Vec) Vec { return Add(Vec{1, 0, 0}, Scale(0.5, Sub(v, Vec{1, 0, 0}))) },
			}
			trf[2] = func(v Vec) Vec { return Vec{v[2], v[1], -v[0]} } // counterclockwise around +Y
			var seqs [][]int
			seqs = append(seqs, nil)
			for a := range tr {
				seqs = append(seqs, []int{a})
				for b := range tr {
					seqs = append(seqs, []int{a, b})
					if r.Thorough() {
						for c := range tr {
							seqs = append(seqs, []int{a, b, c})
						}
					}
				}
			}
			nMesh := r.Pick(4, 12)
			r.Space("loaded", []int{nMesh, len(seqs), 2, 3}, func(k *mc.K) {
				// a bumpy, partly closed surface of triangles and quads
				n := 3 + k.Ix[0]
				var pts []Vec
				for i := 0; i < n; i++ {
					for j := 0; j < n; j++ {
						pts = append(pts, Vec{float64(i) - 1, float64((i*i+3*j*j+i*j)%5) / 8, float64(j) - 1})
					}
				}
				type face struct {
					ix  []int
					mat int
				}
				var fs []face
				for i := 0; i+1 < n; i++ {
					for j := 0; j+1 < n; j++ {
						a, b, c, d := i*n+j, i*n+j+1, (i+1)*n+j+1, (i+1)*n+j
						if (i+j)%2 == 0 {
							fs = append(fs, face{[]int{a, b, c, d}, j % 2})
						} else if i%3 != 2 {
							fs = append(fs, face{[]int{a, b, c}, j % 2})
						}
					}
				}
				var b strings.Builder
				mats := []*Const{{R: 1}, {R: 2}}
				var o tracer.Object
				var tf []*geom.AffineTransform
				pos := make([]Vec, len(pts))
				copy(pos, pts)
				for _, s := range seqs[k.Ix[1]] {
					tf = append(tf, tr[s])
					for i := range pos {
						pos[i] = trf[s](pos[i])
					}
				}
				if k.Ix[2] == 0 {
					fmt.Fprintf(&b, "ply\nformat ascii 1.0\nelement vertex %d\nproperty float x\nproperty float y\nproperty float z\nelement face %d\nproperty list uchar int vertex_indices\nend_header\n", len(pts), len(fs))
					for _, p := range pts {
						fmt.Fprintln(&b, p[0], p[1], p[2])
					}
					for _, f := range fs {
						fmt.Fprintln(&b, len(f.ix), strings.Trim(fmt.Sprint(f.ix), "[]"))
					}
					f := tmp(b.String(), ".ply")
					o = objects.PlyFile(mats[0], f, tf...)
					os.Remove(f)
				} else {
					for _, p := range pts {
						fmt.Fprintln(&b, "v", p[0], p[1], p[2])
					}
					last := -1
					for _, f := range fs {
						if f.mat != last {
							fmt.Fprintf(&b, "usemtl mat%d\n", f.mat)
							last = f.mat
						}
						fmt.Fprint(&b, "f")
						for _, i := range f.ix {
							fmt.Fprint(&b, " ", i+1)
						}
						fmt.Fprintln(&b)
					}
					f := tmp(b.String(), ".obj")
					o = objects.ObjFile(map[string]tracer.Material{"mat0": mats[0], "mat1": mats[1]}, f, tf...)
					os.Remove(f)
				}
				var tris [2][][3]Vec
				var lo, hi = Vec{1e9, 1e9, 1e9}, Vec{-1e9, -1e9, -1e9}
				for _, p := range pos {
					for c := range p {
						lo[c], hi[c] = math.Min(lo[c], p[c]), math.Max(hi[c], p[c])
					}
				}
				for _, f := range fs {
					m := f.mat
					if k.Ix[2] == 0 {
						m = 0
					}
					tris[m] = append(tris[m], [3]Vec{pos[f.ix[0]], pos[f.ix[1]], pos[f.ix[2]]})
					if len(f.ix) == 4 {
						tris[m] = append(tris[m], [3]Vec{pos[f.ix[2]], pos[f.ix[3]], pos[f.ix[0]]})
					}
				}
				dir := Unit([]Vec{{0.01, -1, 0.023}, {0.71, -0.33, 0.2}, {-0.3, 0.8, -0.9}}[k.Ix[3]])
				hits, miss := 0, 0
				const N = 17
				for i := 0; i < N; i++ {
					for j := 0; j < N; j++ {
						// aim at points spread over the bounding box
						f, g := (float64(i)+0.513)/N*1.2-0.1, (float64(j)+0.387)/N*1.2-0.1
						p := Vec{lo[0] + f*(hi[0]-lo[0]), (lo[1] + hi[1]) / 2, lo[2] + g*(hi[2]-lo[2])}
						s := Sub(p, Scale(30, dir))
						wt, wm, ok := 0.0, 0, true
						for m := range tris {
							t, ok1 := hit(tris[m], s, dir)
							ok = ok && ok1
							if t > 0 && (wt == 0 || t < wt) {
								wt, wm = t, m
							}
						}
						if !ok {
							continue
						}
						k.Op(1)
						h := o.Intersect(&tracer.Ray{Start: s, Dir: dir})
						if wt == 0 {
							miss++
							if h.T > 0 {
								k.Fatal("%v ray %v %v: hit at %v, want none", k.Ix, s, dir, h.T)
							}
							continue
						}
						hits++
						if !mc.Close(h.T, wt, 1e-6) {
							k.Fatal("%v ray %v %v: hit at %v, want %v", k.Ix, s, dir, h.T, wt)
						}
						if h.Material != tracer.Material(mats[wm]) {
							k.Fatal("%v ray %v %v: wrong material", k.Ix, s, dir)
						}
						k.SawF(h.T)
					}
				}
				if hits < 20 || miss < 10 {
					panic(fmt.Sprintf("harness: %d hits, %d misses", hits, miss))
				}
			})
		})
}
