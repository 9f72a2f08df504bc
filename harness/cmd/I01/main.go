// I01: colours are encoded to the standard sRGB curve, and images are written completely and exactly.
package main

import (
	"bytes"
	"fmt"
	"image"
	"image/png"
	"math"
	"strconv"
	"strings"

	"github.com/barnex/bruteray/imagef"
	"github.com/barnex/bruteray/imagef/colorf"
	"github.com/barnex/bruteray/imagef/ppm"
	"verif/mc"
	. "verif/tx"
)

// enc is the sRGB encoding curve with the given offset (standard: 0.055), clipped.
func enc(c, offset float64) float64 {
	if c <= 0 {
		return 0
	}
	if c > 1 {
		c = 1
	}
	if c <= 0.0031308 {
		return 12.92 * c
	}
	return math.Min(1, 1.055*math.Pow(c, 1/2.4)-offset)
}

func dec(s float64) float64 {
	if s <= 0.04045 {
		return s / 12.92
	}
	return math.Pow((s+0.055)/1.055, 2.4)
}

// Which curve the code as a whole follows; never a mixture of both.
const (
	std = iota
	lifted
	neither
)

var offs = []float64{0.055, 0.05}

const key = "srgb-offset-0.05"

// classify compares got with both curves at all 16-bit values and their midpoints.
func classify(f func(c float64) float64, tol float64) (int, string) {
	ok := []bool{true, true}
	msg := ""
	for i := 0; i <= 2*65535; i++ {
		c := float64(i) / (2 * 65535)
		g := f(c)
		for j, o := range offs {
			if !(math.Abs(g-enc(c, o)) <= tol) {
				if ok[j] {
					msg += fmt.Sprintf("at %v: %v, curve with offset %v: %v. ", c, g, o, enc(c, o))
				}
				ok[j] = false
			}
		}
	}
	for j := range ok {
		if ok[j] {
			return j, ""
		}
	}
	return neither, msg
}

func main() {
	mc.Main("I01", "exploration",
		"curve: every 16-bit value (and midpoint) of both conversion functions and of every encoder, against the sRGB standard; out-of-range values; images: every image up to the size bound with pixels from a palette, encoded by both PPM encoders and by PNG through image.Image, and decoded by independent decoders. Non-trivial: always.",
		func(r *mc.Run) {
			curve := neither
			r.SpaceSeq("curve", []int{1}, func(k *mc.K) {
				c, msg := classify(colorf.LinearToSRGB, 1e-9)
				k.Op(131071)
				if c == neither {
					k.Fatal("LinearToSRGB is not the sRGB curve: %s", msg)
				}
				curve = c
				if c == lifted {
					k.Known(key, "LinearToSRGB is the sRGB curve lifted by 0.005")
				}
				k.Saw(c)
			})
			if curve == neither {
				return
			}
			want := func(c float64) float64 { return enc(c, offs[curve]) }
			// a 16-bit code for value c: the exact value, up or down
			okCode := func(v int, c float64) bool {
				w := want(c) * 65535
				return float64(v) >= math.Floor(w-1e-6) && float64(v) <= math.Ceil(w+1e-6) && v >= 0 && v <= 65535
			}
			const block = 256
			r.Space("values", []int{65536 / block}, func(k *mc.K) {
				prev := -1.0
				for i := k.Ix[0] * block; i <= (k.Ix[0]+1)*block && i <= 65535; i++ {
					s := float64(i) / 65535
					k.Op(4)
					lin := colorf.SRGBToLinear(s)
					if !(math.Abs(lin-dec(s)) < 1e-12) {
						k.Fatal("SRGBToLinear(%v)=%v, want %v", s, lin, dec(s))
					}
					if lin <= prev {
						k.Fatal("SRGBToLinear not increasing at %v", s)
					}
					prev = lin
					// round trip
					if curve == std {
						if math.Abs(colorf.LinearToSRGB(lin)-s) > 1e-6 {
							k.Fatal("round trip of %v: %v", s, colorf.LinearToSRGB(lin))
						}
					}
					if a, b := colorf.LinearToSRGB(s), colorf.LinearToSRGB(s+1e-7); !(a <= b) {
						k.Fatal("LinearToSRGB not monotone at %v: %v, %v", s, a, b)
					}
					// RGBA: each channel in its place
					R, G, B, A := Color{R: s, G: 0, B: 1}.RGBA()
					if !okCode(int(R), s) || G != 0 || B != 65535 || A != 65535 {
						k.Fatal("RGBA of red %v: %v %v %v %v", s, R, G, B, A)
					}
					R, G, B, A = Color{R: 1, G: s, B: 0}.RGBA()
					if !okCode(int(G), s) || R != 65535 || B != 0 || A != 65535 {
						k.Fatal("RGBA of green %v: %v %v %v %v", s, R, G, B, A)
					}
					R, G, B, A = Color{R: 0, G: 1, B: s}.RGBA()
					if !okCode(int(B), s) || R != 0 || G != 65535 || A != 65535 {
						k.Fatal("RGBA of blue %v: %v %v %v %v", s, R, G, B, A)
					}
				}
				k.Saw(k.Ix)
			})
			// values that do not fit are clipped, never wrapped around
			out := []float64{-1e-300, -1e-9, -0.5, -1, -1e6, -1e300, math.Inf(-1), 1 + 1e-9, 1.0000001, 1.5, 2, 3.7, 255, 256, 65535, 65536, 65537, 1e10, 1e20, 1e300, math.Inf(1)}
			r.Space("clip", []int{len(out)}, func(k *mc.K) {
				x := out[k.Ix[0]]
				w, code := 0.0, uint32(0)
				if x > 1 {
					w, code = 1, 65535
				}
				k.Op(2)
				if g := colorf.LinearToSRGB(x); g != w {
					k.Fatal("LinearToSRGB(%v)=%v, want %v", x, g, w)
				}
				if R, G, B, A := (Color{R: x, G: x, B: x}).RGBA(); R != code || G != code || B != code || A != 65535 {
					k.Fatal("RGBA(%v)=%v %v %v %v", x, R, G, B, A)
				}
				k.Saw(x)
			})
			// arithmetic of colours
			pal := []float64{0, 1, 0.25, -1, 3.5, 1e-3, 700}
			n := len(pal)
			r.Space("arith", []int{n, n, n, n, n, n}, func(k *mc.K) {
				a := Color{R: pal[k.Ix[0]], G: pal[k.Ix[1]], B: pal[k.Ix[2]]}
				b := Color{R: pal[k.Ix[3]], G: pal[k.Ix[4]], B: pal[k.Ix[5]]}
				k.Op(7)
				bad := func(what string, got, want Color) {
					if !CClose(got, want, 1e-12) {
						k.Fatal("%v %s %v: %v, want %v", a, what, b, got, want)
					}
				}
				bad("+", a.Add(b), Color{R: a.R + b.R, G: a.G + b.G, B: a.B + b.B})
				bad("*", a.Mul3(b), Color{R: a.R * b.R, G: a.G * b.G, B: a.B * b.B})
				bad("* first of", a.Mul(b.R), Color{R: a.R * b.R, G: a.G * b.R, B: a.B * b.R})
				bad("+ first times", a.MAdd(b.R, b), Color{R: a.R + b.R*b.R, G: a.G + b.R*b.G, B: a.B + b.R*b.B})
				if b.R < 10 {
					bad("EV first of", a.EV(b.R), CMul(math.Exp2(b.R), a))
				}
				if m := a.Max(); m != math.Max(a.R, math.Max(a.G, a.B)) {
					k.Fatal("max %v: %v", a, m)
				}
				if g := a.Gray(); !mc.Close(g, (a.R+a.G+a.B)/3, 1e-12) {
					k.Fatal("gray %v: %v", a, g)
				}
				k.Saw(k.Ix)
			})
			// encoders
			vals := []float64{0, 1, 0.5, 0.001, -2, 9, 0.003922, 0.2}
			check := func(k *mc.K, img imagef.Image, w, h int) {
				before := fmt.Sprint(img)
				var b3, b6, again bytes.Buffer
				if err := ppm.EncodeAscii16(&b3, img); err != nil {
					k.Fatal("EncodeAscii16: %v", err)
				}
				if err := ppm.Encode48BE(&b6, img); err != nil {
					k.Fatal("Encode48BE: %v", err)
				}
				ppm.Encode48BE(&again, img)
				k.Op(3)
				if !bytes.Equal(b6.Bytes(), again.Bytes()) || fmt.Sprint(img) != before {
					k.Fatal("encoding is not repeatable or modifies the image")
				}
				codes3, err := parseP3(b3.String(), w, h)
				if err != nil {
					k.Fatal("P3: %v in %q", err, b3.String())
				}
				codes6, err := parseP6(b6.Bytes(), w, h)
				if err != nil {
					k.Fatal("P6: %v in %q", err, b6.Bytes())
				}
				var bp bytes.Buffer
				var codesPNG []int
				rgba := image.NewRGBA64(image.Rect(0, 0, w, h))
				for y := 0; y < h; y++ {
					for x := 0; x < w; x++ {
						rgba.Set(x, y, img.At(x, y))
					}
				}
				if img.Bounds() != rgba.Bounds() {
					k.Fatal("bounds %v", img.Bounds())
				}
				png.Encode(&bp, rgba)
				dp, err := png.Decode(&bp)
				if err != nil {
					k.Fatal("PNG: %v", err)
				}
				i := 0
				for y := 0; y < h; y++ {
					for x := 0; x < w; x++ {
						c := img[y][x]
						R, G, B, _ := dp.At(x, y).RGBA()
						codesPNG = append(codesPNG, int(R), int(G), int(B))
						for ch, v := range []float64{c.R, c.G, c.B} {
							for name, codes := range map[string][]int{"P3": codes3, "P6": codes6, "PNG": codesPNG} {
								if !okCode(codes[i+ch], v) {
									k.Fatal("%s: pixel (%d,%d) channel %d value %v: code %d, want %v", name, x, y, ch, v, codes[i+ch], want(v)*65535)
								}
							}
						}
						i += 3
					}
				}
			}
			maxPix := r.Pick(2, 3)
			nv := 5
			for w := 1; w <= maxPix; w++ {
				for h := 1; w*h <= maxPix; h++ {
					w, h := w, h
					var dims []int
					for i := 0; i < 3*w*h; i++ {
						dims = append(dims, nv)
					}
					r.Space(fmt.Sprintf("images%dx%d", w, h), dims, func(k *mc.K) {
						img := imagef.MakeImage(w, h)
						for y := 0; y < h; y++ {
							for x := 0; x < w; x++ {
								i := 3 * (y*w + x)
								img[y][x] = Color{R: vals[k.Ix[i]], G: vals[k.Ix[i+1]], B: vals[k.Ix[i+2]]}
							}
						}
						check(k, img, w, h)
						k.Saw(k.Ix)
					})
				}
			}
			maxS := r.Pick(24, 64)
			r.Space("sizes", []int{maxS, maxS}, func(k *mc.K) {
				w, h := k.Ix[0]+1, k.Ix[1]+1
				img := imagef.MakeImage(w, h)
				if W, H := img.Size(); W != w || H != h || img.NumPixels() != w*h {
					k.Fatal("size %vx%v", W, H)
				}
				for y := 0; y < h; y++ {
					for x := 0; x < w; x++ {
						img[y][x] = Color{R: float64(x) / float64(w), G: float64(y) / float64(h), B: float64((x*31+y*17)%101) / 100}
					}
				}
				check(k, img, w, h)
				// a copy is independent
				c := img.Copy()
				if fmt.Sprint(c) != fmt.Sprint(img) {
					k.Fatal("copy differs")
				}
				c[h-1][w-1].R = 77
				img[0][0].G = 78
				if img[h-1][w-1].R == 77 || c[0][0].G == 78 {
					k.Fatal("copy shares memory")
				}
				k.Saw(k.Ix)
			})
			// large images, and images whose rows are not one block of memory
			large := [][2]int{{1000, 2}, {2, 1000}, {257, 40}, {40, 257}, {683, 11}, {1366, 3}, {4097, 1}, {1, 4097}}
			r.Space("large", []int{len(large) + r.Pick(0, 1), 3}, func(k *mc.K) {
				w, h := 960, 540
				if k.Ix[0] < len(large) {
					w, h = large[k.Ix[0]][0], large[k.Ix[0]][1]
				}
				var img imagef.Image
				switch k.Ix[1] {
				case 0:
					img = imagef.MakeImage(w, h)
				case 1: // part of a larger image
					big := imagef.MakeImage(w+5, h+4)
					for y := range big {
						for x := range big[y] {
							big[y][x] = Color{R: 0.123, G: 0.456, B: 0.789}
						}
					}
					for y := 0; y < h; y++ {
						img = append(img, big[y+3][2:w+2])
					}
				case 2: // rows on their own
					rows := make([][]Color, h)
					for y := range rows {
						rows[y] = make([]Color, w, w+y%3)
					}
					img = rows
				}
				for y := 0; y < h; y++ {
					for x := 0; x < w; x++ {
						img[y][x] = Color{R: float64(x) / float64(w), G: float64(y) / float64(h), B: float64((x*31+y*17)%101) / 100}
					}
				}
				check(k, img, w, h)
				k.Saw(k.Ix)
			})
			// all 16-bit levels through the encoders
			r.Space("levels", []int{512}, func(k *mc.K) {
				img := imagef.MakeImage(128, 1)
				for x := range img[0] {
					v := float64(k.Ix[0]*128+x) / 65535
					img[0][x] = Color{R: v, G: dec(v), B: 1 - v}
				}
				check(k, img, 128, 1)
				k.Saw(k.Ix)
			})
		})
}

// parseP3 is an independent reader of plain PPM.
func parseP3(s string, w, h int) ([]int, error) {
	f := strings.Fields(s)
	if len(f) < 4 || f[0] != "P3" || f[1] != strconv.Itoa(w) || f[2] != strconv.Itoa(h) || f[3] != "65535" {
		return nil, fmt.Errorf("bad header")
	}
	f = f[4:]
	if len(f) != 3*w*h {
		return nil, fmt.Errorf("%d samples, want %d", len(f), 3*w*h)
	}
	var c []int
	for _, x := range f {
		v, err := strconv.Atoi(x)
		if err != nil {
			return nil, err
		}
		c = append(c, v)
	}
	return c, nil
}

// parseP6 is an independent reader of binary PPM: magic, width, height, maximum,
// separated by white space, one white space character, big-endian samples.
func parseP6(b []byte, w, h int) ([]int, error) {
	var tok []string
	i := 0
	for len(tok) < 4 {
		for i < len(b) && (b[i] == ' ' || b[i] == '\n' || b[i] == '\t' || b[i] == '\r') {
			i++
		}
		j := i
		for i < len(b) && !(b[i] == ' ' || b[i] == '\n' || b[i] == '\t' || b[i] == '\r') {
			i++
		}
		if i == j {
			return nil, fmt.Errorf("short header")
		}
		tok = append(tok, string(b[j:i]))
	}
	i++
	if strings.Join(tok, " ") != fmt.Sprintf("P6 %d %d 65535", w, h) {
		return nil, fmt.Errorf("bad header")
	}
	b = b[i:]
	if len(b) != 6*w*h {
		return nil, fmt.Errorf("%d bytes of samples, want %d", len(b), 6*w*h)
	}
	var c []int
	for i := 0; i < len(b); i += 2 {
		c = append(c, int(b[i])<<8|int(b[i+1]))
	}
	return c, nil
}
