// T01: a texture gives every point the colour of its documented pattern or image.
package main

import (
	"bytes"
	"fmt"
	"image"
	"image/color"
	"image/jpeg"
	"image/png"
	"math"
	"os"
	"os/exec"
	"path/filepath"

	"github.com/barnex/bruteray/api"
	"github.com/barnex/bruteray/imagef"
	"github.com/barnex/bruteray/imagef/colorf"
	"github.com/barnex/bruteray/texture"
	"verif/mc"
	. "verif/tx"
)

// spy is a texture whose colour tells which texture it is, and where it was evaluated.
type spy float64

func (s spy) At(p Vec) Color { return Color{R: float64(s), G: p[0], B: p[1]} }

// srgbInv is the standard sRGB decoding curve.
func srgbInv(s float64) float64 {
	if s <= 0.04045 {
		return s / 12.92
	}
	return math.Pow((s+0.055)/1.055, 2.4)
}

// pix is the 16-bit value of pixel (x, y from the top), channel c, of a w x h test image.
func pix(pattern, w, x, y, c int) uint16 {
	switch pattern {
	case 0: // every pixel and channel different
		n := uint32((y*w+x)*3+c)*2654435761 + 12345
		return uint16(n >> 16)
	case 1: // black and white
		return uint16(0xffff * ((x + y + c) % 2))
	default: // horizontal and vertical ramp
		return uint16((x*7001 + y*13007 + c*23003) & 0xffff)
	}
}

var kinds = []string{"RGBA", "NRGBA", "Gray", "RGBA64", "NRGBA64", "Gray16", "Paletted"}

// mk makes an opaque image of the given kind, and the 16-bit values that it encodes.
func mk(kind string, pattern, w, h int) (image.Image, func(x, y, c int) uint16) {
	rect := image.Rect(0, 0, w, h)
	p8 := func(x, y, c int) uint8 { return uint8(pix(pattern, w, x, y, c) >> 8) }
	v8 := func(x, y, c int) uint16 { return uint16(p8(x, y, c)) * 0x101 }
	v16 := func(x, y, c int) uint16 { return pix(pattern, w, x, y, c) }
	var img interface {
		image.Image
		Set(x, y int, c color.Color)
	}
	val := v8
	switch kind {
	case "RGBA":
		img = image.NewRGBA(rect)
	case "NRGBA":
		img = image.NewNRGBA(rect)
	case "Gray":
		img, val = image.NewGray(rect), func(x, y, c int) uint16 { return v8(x, y, 0) }
	case "RGBA64":
		img, val = image.NewRGBA64(rect), v16
	case "NRGBA64":
		img, val = image.NewNRGBA64(rect), v16
	case "Gray16":
		img, val = image.NewGray16(rect), func(x, y, c int) uint16 { return v16(x, y, 0) }
	case "Paletted":
		var pal color.Palette
		for y := 0; y < h; y++ {
			for x := 0; x < w; x++ {
				if len(pal) < 256 {
					pal = append(pal, color.RGBA{p8(x, y, 0), p8(x, y, 1), p8(x, y, 2), 255})
				}
			}
		}
		img = image.NewPaletted(rect, pal)
	}
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			img.Set(x, y, color.RGBA64{val(x, y, 0), val(x, y, 1), val(x, y, 2), 0xffff})
		}
	}
	return img, val
}

func save(k *mc.K, name string, f func(b *bytes.Buffer) error) string {
	var b bytes.Buffer
	if err := f(&b); err != nil {
		panic(err)
	}
	fname := filepath.Join(os.Getenv("VERIF_WORK"), name)
	if err := os.WriteFile(fname, b.Bytes(), 0666); err != nil {
		panic(err)
	}
	return fname
}

// coordinates along one axis, in units of the period
func axis(thorough bool, n int) []float64 {
	var u []float64
	for _, off := range []float64{0, 1, -1, 3, -7} {
		for i := -n; i <= n; i++ {
			u = append(u, off+float64(i)/float64(n)*1.25)
		}
	}
	u = append(u, 0.123456, -0.123456, 0.999999, -0.999999, 1e-9, -1e-9, 17.3137, -42.707, 1024.375, -4097.625, 1<<20+0.125, -1<<20-0.625)
	if thorough {
		for i := 0; i < 40; i++ {
			u = append(u, math.Mod(float64(i)*0.6180339887, 1)*20-10)
		}
	}
	return u
}

// boundary tells if x is so close to a multiple of 1 that rounding decides.
func boundary(x float64) bool { return math.Abs(x-math.Round(x)) < 1e-9 }

func main() {
	if f := os.Getenv("T01_LOAD"); f != "" { // child: load a texture, which must not succeed
		if os.Getenv("T01_HEIGHT") != "" {
			api.LoadHeightMap(f)
		} else {
			api.LoadTexture(f)
		}
		fmt.Println("LOADED")
		os.Exit(0)
	}
	mc.Main("T01", "exploration",
		"checkers/grid/transform: every (pitch u, pitch v, ...) and every point of a lattice of texture coordinates, negative ones included; nearest/bilinear: every image size up to the bound, pattern and colour space, at all lattice coordinates over several periods; load: every (pixel format, size, pattern, colour space) written as a file and read back; badfile: every truncation of a file, and missing files; fisheye: every direction of a lattice. Non-trivial: always.",
		func(r *mc.Run) {
			th := r.Thorough()
			pitches := []float64{1, 0.5, 2, 3, 0.1, 7.3, 0.01, 12}
			us := axis(th, r.Pick(20, 64))
			r.Space("checkers", []int{len(pitches), len(pitches)}, func(k *mc.K) {
				pu, pv := pitches[k.Ix[0]], pitches[k.Ix[1]]
				k.Desc("Checkers(%v,%v)", pu, pv)
				t := texture.Checkers(pu, pv, spy(1), spy(2))
				for _, su := range us {
					for _, sv := range us {
						u, v := su/pu, sv/pv // in units of the period
						if boundary(2*u*pu) || boundary(2*v*pv) {
							// on a boundary, either of the adjacent fields; but exactly on the origin etc. the colour must still be one of both
							c := t.At(Vec{u, v, 0})
							if c != spy(1).At(Vec{u, v}) && c != spy(2).At(Vec{u, v}) {
								k.Fatal("at %v,%v: %v", u, v, c)
							}
							continue
						}
						field := int64(math.Floor(2*u*pu)) + int64(math.Floor(2*v*pv))
						want := spy(1)
						if field&1 != 0 {
							want = spy(2)
						}
						k.Op(1)
						for _, z := range []float64{0, 5} {
							if c := t.At(Vec{u, v, z}); c != want.At(Vec{u, v}) {
								k.Fatal("at (%v,%v,%v): %v, want %v", u, v, z, c, want.At(Vec{u, v}))
							}
						}
					}
				}
				k.Saw(k.Ix)
			})
			widths := []float64{0, 0.01, 0.1, 0.3, 0.49}
			r.Space("grid", []int{len(widths), len(pitches), len(pitches)}, func(k *mc.K) {
				pu, pv := pitches[k.Ix[1]], pitches[k.Ix[2]]
				w := widths[k.Ix[0]] / math.Max(pu, pv)
				k.Desc("Grid(%v,%v,%v)", w, pu, pv)
				t := texture.Grid(w, pu, pv, spy(1), spy(2))
				// distance to the closest line
				d := func(u, p float64) float64 { return math.Abs(u - math.Round(u*p)/p) }
				for _, su := range us {
					for _, sv := range us {
						u, v := su/pu, sv/pv
						du, dv := d(u, pu)-w, d(v, pv)-w
						eps := 1e-9 / math.Min(pu, pv)
						if math.Abs(du) < eps || math.Abs(dv) < eps {
							continue
						}
						want := spy(1)
						if du < 0 || dv < 0 {
							want = spy(2)
						}
						k.Op(1)
						if c := t.At(Vec{u, v, 0}); c != want.At(Vec{u, v}) {
							k.Fatal("at (%v,%v): %v, want %v", u, v, c, want.At(Vec{u, v}))
						}
					}
				}
				k.Saw(k.Ix)
			})
			scales := []float64{1, 2, 0.25, 3.7, 10, -1, 0.01}
			// transforms compose: pan then scale, scale then pan, twice the same
			r.Space("panscale", []int{len(scales), len(scales), len(scales), len(scales), 5}, func(k *mc.K) {
				su, sv, du, dv := scales[k.Ix[0]], scales[k.Ix[1]], scales[k.Ix[2]]-1, scales[k.Ix[3]]-2
				inner := spy(3)
				var t texture.Texture
				var f func(u, v float64) (float64, float64)
				pan := func(u, v float64) (float64, float64) { return u - du, v - dv }
				scl := func(u, v float64) (float64, float64) { return u / su, v / sv }
				switch k.Ix[4] {
				case 0:
					t, f = texture.Pan(inner, du, dv), pan
				case 1:
					t, f = texture.ScaleUV(inner, su, sv), scl
				case 2: // panned, then scaled: the point is first mapped back by the scale
					t = texture.ScaleUV(texture.Pan(inner, du, dv), su, sv)
					f = func(u, v float64) (float64, float64) { return pan(scl(u, v)) }
				case 3:
					t = texture.Pan(texture.ScaleUV(inner, su, sv), du, dv)
					f = func(u, v float64) (float64, float64) { return scl(pan(u, v)) }
				case 4:
					t = api.Texture{Texture: inner}.Scale(su, sv).Scale(su, sv)
					f = func(u, v float64) (float64, float64) { return scl(scl(u, v)) }
				}
				for _, u := range []float64{0, 1, -1, 0.3, -2.7, 19} {
					for _, v := range []float64{0, 1, -1, 0.7, -5.3, 23} {
						k.Op(1)
						wu, wv := f(u, v)
						c := t.At(Vec{u, v, 9})
						if c.R != 3 || !mc.Close(c.G, wu, 1e-9) || !mc.Close(c.B, wv, 1e-9) {
							k.Fatal("case %d: at (%v,%v) evaluated at (%v,%v), want (%v,%v)", k.Ix[4], u, v, c.G, c.B, wu, wv)
						}
					}
				}
				k.Saw(k.Ix)
			})
			maxS := r.Pick(6, 10)
			mkf := func(pattern, w, h int) imagef.Image {
				img := imagef.MakeImage(w, h)
				for y := range img {
					for x := range img[y] {
						img[y][x] = Color{R: float64(pix(pattern, w, x, y, 0)), G: float64(pix(pattern, w, x, y, 1)) + 0.25, B: float64(pix(pattern, w, x, y, 2)) - 7}
					}
				}
				return img
			}
			r.Space("nearest", []int{maxS, maxS, 2}, func(k *mc.K) {
				w, h := k.Ix[0]+1, k.Ix[1]+1
				img := mkf(k.Ix[2], w, h)
				t := texture.Nearest(img)
				n := r.Pick(30, 60)
				for i := 0; i <= n; i++ {
					for j := 0; j <= n; j++ {
						u, v := float64(i)/float64(n), float64(j)/float64(n)
						X, Y := u*float64(w-1), v*float64(h-1)
						if boundary(X+0.5) || boundary(Y+0.5) {
							continue
						}
						k.Op(1)
						if c, want := t.At(Vec{u, v}), img[int(math.Round(Y))][int(math.Round(X))]; c != want {
							k.Fatal("%dx%d at (%v,%v): %v, want %v", w, h, u, v, c, want)
						}
					}
				}
				k.Saw(k.Ix)
			})
			// Image files: written by the standard library, loaded by bruteray.
			sizes := [][2]int{{1, 1}, {2, 1}, {1, 2}, {2, 2}, {3, 2}, {2, 3}, {4, 4}, {5, 3}, {1, 7}, {9, 1}, {7, 8}, {130, 3}, {3, 257}}
			if th {
				for w := 1; w <= 12; w++ {
					for h := 1; h <= 12; h++ {
						sizes = append(sizes, [2]int{w, h})
					}
				}
			}
			nk := len(kinds)
			r.Space("load", []int{nk + 4, len(sizes), 3, 3}, func(k *mc.K) {
				w, h := sizes[k.Ix[1]][0], sizes[k.Ix[1]][1]
				pat := k.Ix[2]
				tol := 1e-9
				var fname string
				var val func(x, y, c int) uint16
				if k.Ix[0] < nk && kinds[k.Ix[0]] == "Paletted" && w*h > 256 {
					k.Trivial() // more colours than a palette has
					return
				}
				if k.Ix[0] < nk {
					var img image.Image
					img, val = mk(kinds[k.Ix[0]], pat, w, h)
					fname = save(k, fmt.Sprintf("load%v.png", k.Ix), func(b *bytes.Buffer) error { return png.Encode(b, img) })
				} else if k.Ix[0] >= nk+2 { // translucent: as seen in front of black
					rect := image.Rect(0, 0, w, h)
					alpha := func(x, y int) uint32 { return []uint32{0xffff, 0x8080, 0x3333, 0, 0xcccc}[(x+2*y+pat)%5] }
					i8, i16 := image.NewNRGBA(rect), image.NewNRGBA64(rect)
					for y := 0; y < h; y++ {
						for x := 0; x < w; x++ {
							a, p := alpha(x, y), func(c int) uint16 { return pix(pat, w, x, y, c) }
							i8.SetNRGBA(x, y, color.NRGBA{uint8(p(0) >> 8), uint8(p(1) >> 8), uint8(p(2) >> 8), uint8(a >> 8)})
							i16.SetNRGBA64(x, y, color.NRGBA64{p(0), p(1), p(2), uint16(a)})
						}
					}
					var img image.Image = i8
					val = func(x, y, c int) uint16 {
						return uint16(uint32(pix(pat, w, x, y, c)>>8) * 0x101 * alpha(x, y) / 0xffff)
					}
					if k.Ix[0] == nk+3 {
						img = i16
						val = func(x, y, c int) uint16 { return uint16(uint32(pix(pat, w, x, y, c)) * alpha(x, y) / 0xffff) }
					}
					tol = 3e-4 // a few units of 1/65536, as linear sRGB is steeper near black
					fname = save(k, fmt.Sprintf("load%v.png", k.Ix), func(b *bytes.Buffer) error { return png.Encode(b, img) })
				} else if k.Ix[0] == nk+1 { // jpeg in colour
					img := image.NewRGBA(image.Rect(0, 0, w, h))
					p := [3]uint8{uint8(40 + 70*pat), uint8(220 - 90*pat), uint8(90 + 10*(pat*pat))}
					for i := 0; i < len(img.Pix); i += 4 {
						img.Pix[i], img.Pix[i+1], img.Pix[i+2], img.Pix[i+3] = p[0], p[1], p[2], 255
					}
					val = func(x, y, c int) uint16 { return uint16(p[c]) * 0x101 }
					fname = save(k, fmt.Sprintf("load%v.jpg", k.Ix), func(b *bytes.Buffer) error { return jpeg.Encode(b, img, &jpeg.Options{Quality: 100}) })
					tol = 0.03
				} else { // jpeg: lossy, so a single colour
					img := image.NewGray(image.Rect(0, 0, w, h))
					g := uint8(pix(pat, w, 1, 1, 0) >> 8)
					for i := range img.Pix {
						img.Pix[i] = g
					}
					val = func(x, y, c int) uint16 { return uint16(g) * 0x101 }
					fname = save(k, fmt.Sprintf("load%v.jpg", k.Ix), func(b *bytes.Buffer) error { return jpeg.Encode(b, img, &jpeg.Options{Quality: 100}) })
					tol = 0.02
				}
				defer os.Remove(fname)
				k.Desc("%s", filepath.Base(fname))
				dec := srgbInv
				var cs func(float64) float64
				switch k.Ix[3] {
				case 0:
					cs = colorf.SRGBToLinear
				case 1:
					cs, dec = imagef.Linear, func(x float64) float64 { return x }
				}
				img, err := imagef.Load(fname, cs) // nil: sRGB
				if err != nil {
					k.Fatal("load: %v", err)
				}
				if W, H := img.Size(); W != w || H != h {
					k.Fatal("size %vx%v, want %vx%v", W, H, w, h)
				}
				for y := 0; y < h; y++ {
					for x := 0; x < w; x++ {
						k.Op(1)
						// row 0 is the bottom
						got := img[h-1-y][x]
						want := Color{R: dec(float64(val(x, y, 0)) / 65535), G: dec(float64(val(x, y, 1)) / 65535), B: dec(float64(val(x, y, 2)) / 65535)}
						if !CClose(got, want, tol) {
							k.Fatal("pixel (%d,%d): %v, want %v", x, y, got, want)
						}
						k.SawF(got.R, got.G, got.B)
					}
				}
			})
			r.Space("bilinear", []int{len(sizes), 3, 4}, func(k *mc.K) {
				w, h := sizes[k.Ix[0]][0], sizes[k.Ix[0]][1]
				pat := k.Ix[1]
				src, val := mk("NRGBA64", pat, w, h)
				fname := save(k, fmt.Sprintf("bil%v.png", k.Ix), func(b *bytes.Buffer) error { return png.Encode(b, src) })
				defer os.Remove(fname)
				k.Desc("%dx%d", w, h)
				var t texture.Texture
				dec := srgbInv
				height := func(u, v float64) float64 { return t.At(Vec{u, v, 0}).R }
				switch k.Ix[2] {
				case 0:
					t = texture.MustLoad(fname)
				case 1:
					t, dec = texture.HeightMap(fname), func(x float64) float64 { return x }
				case 2:
					t = api.LoadTexture(fname)
				case 3:
					hm := api.LoadHeightMap(fname)
					t, dec = hm, func(x float64) float64 { return x }
					height = hm.HeightMap()
				}
				px := func(i, j, c int) float64 { return dec(float64(val(i, h-1-j, c)) / 65535) }
				cell := func(u float64, n int) (i int, f float64) {
					x := (u - math.Floor(u)) * float64(n-1)
					i = int(math.Floor(x))
					if i > n-2 {
						i = n - 2
					}
					if i < 0 {
						i = 0
					}
					return i, x - float64(i)
				}
				at := func(u, v float64) Color {
					i, x := cell(u, w)
					j, y := cell(v, h)
					i1, j1 := i+1, j+1
					if i1 >= w {
						i1 = i
					}
					if j1 >= h {
						j1 = j
					}
					var o [3]float64
					for c := range o {
						o[c] = (1-y)*((1-x)*px(i, j, c)+x*px(i1, j, c)) + y*((1-x)*px(i, j1, c)+x*px(i1, j1, c))
					}
					return Color{R: o[0], G: o[1], B: o[2]}
				}
				var us []float64
				for _, off := range []float64{0, 1, -1, -3, 8} {
					n := r.Pick(12, 24)
					for i := 0; i < n; i++ {
						us = append(us, off+(float64(i)+0.37)/float64(n))
					}
				}
				us = append(us, 100.375, -255.625, 1<<20+0.125, -1<<20-0.625)
				// the pixels themselves
				exact := func(n int) []float64 {
					if n == 1 {
						return nil
					}
					var e []float64
					for i := 0; i < n-1; i++ {
						e = append(e, float64(i)/float64(n-1))
					}
					return append(e, 1-1e-13, 0, 1, 2, -1, -4)
				}
				for _, u := range append(us, exact(w)...) {
					for _, v := range append(us, exact(h)...) {
						k.Op(1)
						U, V := u, v
						// whole numbers: the seam, where the first pixel begins
						if math.Abs(u-math.Round(u)) < 1e-15 {
							U = 0
						}
						if math.Abs(v-math.Round(v)) < 1e-15 {
							V = 0
						}
						got, want := t.At(Vec{u, v, 0.5}), at(U, V)
						if !CClose(got, want, 1e-9) {
							k.Fatal("%dx%d at (%v,%v): %v, want %v", w, h, u, v, got, want)
						}
						if g := height(u, v); !mc.Close(g, want.R, 1e-9) {
							k.Fatal("height %v want %v", g, want.R)
						}
						k.SawF(got.R)
					}
				}
				for _, e := range []float64{-1e-20, -1e-17, -1e-16} { // just before the seam: the first or the last pixel
					got := t.At(Vec{e, e, 0})
					ok := false
					for _, u := range []float64{0, 1 - 1e-13} {
						for _, v := range []float64{0, 1 - 1e-13} {
							ok = ok || CClose(got, at(u, v), 1e-9)
						}
					}
					if !ok {
						k.Fatal("%dx%d at (%v,%v): %v is none of the corner pixels", w, h, e, e, got)
					}
				}
				for _, p := range []Vec{{math.NaN(), 0.5, 0}, {0.5, math.NaN(), 0}} {
					if c := t.At(p); c != (Color{}) {
						k.Fatal("at NaN: %v", c)
					}
				}
			})
			// damaged files
			imgOK, _ := mk("RGBA", 0, 3, 2)
			var whole bytes.Buffer
			png.Encode(&whole, imgOK)
			// PNG: signature 8, IHDR 25, then IDAT, then IEND (12 bytes); the pixels are complete without IEND
			r.Space("truncated", []int{whole.Len() - 16}, func(k *mc.K) {
				fname := save(k, fmt.Sprintf("trunc%v.png", k.Ix), func(b *bytes.Buffer) error { b.Write(whole.Bytes()[:k.Ix[0]]); return nil })
				defer os.Remove(fname)
				k.Op(1)
				img, err := imagef.Load(fname, nil)
				if err == nil {
					k.Fatal("truncated to %d of %d bytes: no error, %v", k.Ix[0], whole.Len(), img)
				}
				k.Saw(k.Ix)
			})
			// any byte changed: refused (or, if the change does not matter, the same image)
			r.Space("changed", []int{whole.Len(), 3}, func(k *mc.K) {
				fname := save(k, fmt.Sprintf("chg%v.png", k.Ix), func(b *bytes.Buffer) error {
					x := append([]byte{}, whole.Bytes()...)
					x[k.Ix[0]] ^= []byte{1, 0x80, 0xff}[k.Ix[1]]
					b.Write(x)
					return nil
				})
				defer os.Remove(fname)
				k.Op(1)
				img, err := imagef.Load(fname, imagef.Linear)
				if err == nil {
					if w, h := img.Size(); w != 3 || h != 2 {
						k.Fatal("damaged file gives a %dx%d image", w, h)
					}
					for y := 0; y < 2; y++ {
						for x := 0; x < 3; x++ {
							r0, g0, b0, _ := imgOK.At(x, 1-y).RGBA()
							if !CClose(img[y][x], Color{R: float64(r0) / 65535, G: float64(g0) / 65535, B: float64(b0) / 65535}, 1e-9) {
								k.Fatal("damaged file: no error, and pixel (%d,%d) is %v", x, y, img[y][x])
							}
						}
					}
				}
				k.Saw(k.Ix)
			})
			// a file is read anew every time, and what was loaded before stays as it was
			r.Space("reload", []int{4, 4, 4, 3}, func(k *mc.K) {
				name := fmt.Sprintf("reload%v.png", k.Ix)
				var textures []texture.Texture
				var want []Color
				for _, i := range k.Ix[:3] {
					w, h := []int{2, 2, 3, 5}[i], []int{2, 2, 2, 1}[i]
					src, val := mk("NRGBA64", i, w, h)
					fname := save(k, name, func(b *bytes.Buffer) error { return png.Encode(b, src) })
					defer os.Remove(fname)
					var t texture.Texture
					dec := srgbInv
					switch k.Ix[3] {
					case 0:
						t = texture.MustLoad(fname)
					case 1:
						t, dec = texture.HeightMap(fname), func(x float64) float64 { return x }
					case 2:
						img, err := imagef.Load(fname, nil)
						if err != nil {
							k.Fatal("%v", err)
						}
						// scribbling over one's own image
						img2, err := imagef.Load(fname, nil)
						if err != nil {
							k.Fatal("%v", err)
						}
						for y := range img2 {
							for x := range img2[y] {
								img2[y][x] = Color{R: -5}
							}
						}
						t = texture.Nearest(img)
					}
					k.Op(1)
					textures = append(textures, t)
					want = append(want, Color{R: dec(float64(val(0, h-1, 0)) / 65535), G: dec(float64(val(0, h-1, 1)) / 65535), B: dec(float64(val(0, h-1, 2)) / 65535)})
				}
				for i, t := range textures {
					if got := t.At(Vec{0, 0, 0}); !CClose(got, want[i], 1e-9) {
						k.Fatal("files %v of the same name, kind %d: corner of number %d is %v, want %v", k.Ix[:3], k.Ix[3], i, got, want[i])
					}
				}
				k.Saw(k.Ix)
			})
			r.Space("mustload", []int{3, 2}, func(k *mc.K) {
				fname := filepath.Join(os.Getenv("VERIF_WORK"), "does-not-exist.png")
				switch k.Ix[0] {
				case 1:
					fname = save(k, fmt.Sprintf("bad%v.png", k.Ix), func(b *bytes.Buffer) error { b.Write(whole.Bytes()[:60]); return nil })
				case 2:
					fname = save(k, fmt.Sprintf("bad%v.png", k.Ix), func(b *bytes.Buffer) error { b.WriteString("hello"); return nil })
				}
				cmd := exec.Command(os.Args[0])
				cmd.Env = append(os.Environ(), "T01_LOAD="+fname)
				if k.Ix[1] == 1 {
					cmd.Env = append(cmd.Env, "T01_HEIGHT=1")
				}
				out, err := cmd.CombinedOutput()
				k.Op(1)
				if err == nil || bytes.Contains(out, []byte("LOADED")) {
					k.Fatal("loading a bad file must not succeed: %s", out)
				}
				k.Saw(k.Ix)
			})
			// textures made of functions get the point unchanged
			co := axis(false, 4)
			r.Space("functions", []int{len(co)}, func(k *mc.K) {
				f2 := texture.Func2D(func(u, v float64) Color { return Color{R: u, G: v, B: 7} })
				f3 := texture.Func(func(p Vec) Color { return Color{R: p[0], G: p[1], B: p[2]} })
				s3 := texture.ScalarFunc3D(func(p Vec) float64 { return p[0] - 2*p[1] + 3*p[2] })
				for i, v := range co {
					u, w := co[k.Ix[0]], co[(7*i+3)%len(co)]
					k.Op(5)
					if a, b := f2.At(Vec{u, v, w}), f2.AtUV(u, v); a != (Color{R: u, G: v, B: 7}) || a != b {
						k.Fatal("Func2D at %v,%v: %v, %v", u, v, a, b)
					}
					if a := f3.At(Vec{u, v, w}); a != (Color{R: u, G: v, B: w}) {
						k.Fatal("Func at %v,%v,%v: %v", u, v, w, a)
					}
					if a := s3.At(Vec{u, v, w}); a != u-2*v+3*w {
						k.Fatal("ScalarFunc3D at %v,%v,%v: %v", u, v, w, a)
					}
					if a := texture.ConstScalar3D(u).At(Vec{v, w, u}); a != u {
						k.Fatal("ConstScalar3D(%v): %v", u, a)
					}
				}
				k.Saw(co[k.Ix[0]])
			})
			// fisheye
			nt, np := r.Pick(60, 300), r.Pick(72, 360)
			lens := []float64{1, 1e-3, 250}
			r.Space("fisheye", []int{nt + 1, len(lens)}, func(k *mc.K) {
				th := float64(k.Ix[0]) / float64(nt) * math.Pi / 2
				t := texture.MapFisheye(spy(4))
				for ip := 0; ip < np; ip++ {
					ph := float64(ip) / float64(np) * 2 * math.Pi
					d := Vec{math.Sin(th) * math.Cos(ph), math.Cos(th), math.Sin(th) * math.Sin(ph)}
					k.Op(1)
					c := t.At(Scale(lens[k.Ix[1]], d))
					rad := th / (math.Pi / 2) / 2
					wu, wv := 0.5+rad*math.Cos(ph), 0.5+rad*math.Sin(ph)
					// asin loses half of the digits close to the horizon
					if c.R != 4 || !mc.Close(c.G, wu, 3e-7) || !mc.Close(c.B, wv, 3e-7) {
						k.Fatal("direction %v: (%v,%v), want (%v,%v)", d, c.G, c.B, wu, wv)
					}
					k.SawF(c.G, c.B)
				}
			})
		})
}
