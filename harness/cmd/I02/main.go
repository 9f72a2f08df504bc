// I02: bloom adds exactly the light above the threshold, spread over the neighbourhood, and changes nothing else.
package main

import (
	"fmt"
	"math"

	"github.com/barnex/bruteray/imagef"
	"github.com/barnex/bruteray/imagef/post"
	"verif/mc"
	. "verif/tx"
)

// A kernel gives the weight at an offset in pixels, per channel.
type kernel struct {
	n int // largest offset
	f func(dx, dy int) [3]float64
}

func gauss(w float64, n int) kernel {
	return kernel{n, func(dx, dy int) [3]float64 {
		v := math.Exp(-float64(dx*dx+dy*dy) / (w * w))
		return [3]float64{v, v, v}
	}}
}

func airy(w float64, n int) kernel {
	return kernel{n, func(dx, dy int) [3]float64 {
		var o [3]float64
		r := math.Hypot(float64(dx), float64(dy)) / w
		for i, wavelen := range []float64{700, 500, 450} {
			x := 500 / wavelen * r
			o[i] = 1
			if x != 0 {
				o[i] = 4 * math.J1(x) * math.J1(x) / (x * x)
			}
		}
		return o
	}}
}

// star: rays along the axes and diagonals, falling off quadratically; the centre is left open.
func star(n int) kernel {
	return kernel{n, func(dx, dy int) [3]float64 {
		ax, ay := dx, dy
		if ax < 0 {
			ax = -ax
		}
		if ay < 0 {
			ay = -ay
		}
		var i int
		s := 1.0
		switch {
		case ax == 0:
			i = ay
		case ay == 0:
			i = ax
		case ax == ay:
			i, s = ax, math.Sqrt2
		}
		if i < 2 || i >= n-1 {
			return [3]float64{}
		}
		v := float64(n-i) / float64(n)
		v *= v / s
		return [3]float64{v, v, v}
	}}
}

// bloom is the reference: out = img + amplitude * sum over sources of excess * normalised kernel.
func bloom(dst, src imagef.Image, k kernel, amp, thr float64) imagef.Image {
	w, h := src.Size()
	out := clone(dst)
	sum := 0.0
	for dy := -k.n; dy <= k.n; dy++ {
		for dx := -k.n; dx <= k.n; dx++ {
			v := k.f(dx, dy)
			sum += (v[0] + v[1] + v[2]) / 3
		}
	}
	if sum == 0 {
		return out
	}
	ex := func(x float64) float64 { return math.Max(0, x-thr) }
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			for sy := 0; sy < h; sy++ {
				for sx := 0; sx < w; sx++ {
					dx, dy := x-sx, y-sy
					if dx > k.n || -dx > k.n || dy > k.n || -dy > k.n {
						continue
					}
					v := k.f(dx, dy)
					c := src[sy][sx]
					out[y][x].R += amp / sum * v[0] * ex(c.R)
					out[y][x].G += amp / sum * v[1] * ex(c.G)
					out[y][x].B += amp / sum * v[2] * ex(c.B)
				}
			}
		}
	}
	return out
}

// bloomSparse is bloom, for images with few pixels above the threshold.
func bloomSparse(src imagef.Image, k kernel, amp, thr float64) imagef.Image {
	out := clone(src)
	w, h := src.Size()
	vals := map[[2]int][3]float64{}
	sum := 0.0
	for dy := -k.n; dy <= k.n; dy++ {
		for dx := -k.n; dx <= k.n; dx++ {
			v := k.f(dx, dy)
			sum += (v[0] + v[1] + v[2]) / 3
			if dx > -w && dx < w && dy > -h && dy < h {
				vals[[2]int{dx, dy}] = v
			}
		}
	}
	if sum == 0 {
		return out
	}
	ex := func(x float64) float64 { return math.Max(0, x-thr) }
	for sy := range src {
		for sx := range src[sy] {
			c := src[sy][sx]
			if ex(c.R)+ex(c.G)+ex(c.B) == 0 {
				continue
			}
			for y := range out {
				for x := range out[y] {
					v := vals[[2]int{x - sx, y - sy}]
					out[y][x].R += amp / sum * v[0] * ex(c.R)
					out[y][x].G += amp / sum * v[1] * ex(c.G)
					out[y][x].B += amp / sum * v[2] * ex(c.B)
				}
			}
		}
	}
	return out
}

func clone(img imagef.Image) imagef.Image {
	w, h := img.Size()
	c := imagef.MakeImage(w, h)
	for y := range c {
		copy(c[y], img[y])
	}
	return c
}

func compare(k *mc.K, what string, got, want imagef.Image) {
	w, h := want.Size()
	if W, H := got.Size(); W != w || H != h {
		k.Fatal("%s: size %vx%v", what, W, H)
	}
	for y := range want {
		for x := range want[y] {
			if !CClose(got[y][x], want[y][x], 1e-9) {
				k.Fatal("%s: pixel (%d,%d): %v, want %v", what, x, y, got[y][x], want[y][x])
			}
			k.SawF(got[y][x].R)
		}
	}
}

func main() {
	mc.Main("I02", "exploration",
		"A case is one image (every single bright pixel and a full pattern for each listed size, every pair of pixels for the smaller ones), one kind and radius of bloom, amplitude and threshold; every pixel of the result is compared with a direct summation. kernels: every kernel size and width. combined: every subset of the three kinds of bloom. Non-trivial: the image has light above the threshold.",
		func(r *mc.Run) {
			sizes := [][2]int{{1, 1}, {2, 1}, {1, 3}, {3, 3}, {4, 2}, {7, 5}, {5, 8}}
			if r.Thorough() {
				sizes = append(sizes, [2]int{2, 2}, [2]int{12, 1}, [2]int{1, 12}, [2]int{9, 9}, [2]int{11, 6})
			}
			bright := []Color{{R: 3, G: 0.5, B: 1}, {R: 1, G: 1, B: 1}, {R: 0.25, G: 7, B: -2}}
			// radius in pixels
			radii := []float64{0.3, 0.8, 1, 1.7, 2.4, 4, 5.3, 6.01, 9}
			amps := []float64{1, 0.1, 5, 0}
			thrs := []float64{0, 1, 0.5, 2, 10}
			kinds := []string{"gaussian", "airy", "star"}
			for _, sz := range sizes {
				w, h := sz[0], sz[1]
				n := w * h
				// first pixel: any, the same as the second, or a full pattern
				first := n + 2
				if n > r.Pick(9, 35) {
					first = 2
				}
				r.Space(fmt.Sprintf("bloom%dx%d", w, h), []int{first, n, len(kinds), len(radii), len(amps), len(thrs)}, func(k *mc.K) {
					img := imagef.MakeImage(w, h)
					if k.Ix[0] == 1 { // full pattern
						for i := 0; i < n; i++ {
							img[i/w][i%w] = bright[(i*i+k.Ix[1]+i/3)%3]
						}
					} else {
						p := k.Ix[0] - 2
						if p < 0 {
							p = k.Ix[1]
						}
						img[p/w][p%w] = bright[0]
						img[k.Ix[1]/w][k.Ix[1]%w] = bright[(k.Ix[0]+k.Ix[1])%3] // possibly the same pixel
					}
					rad, amp, thr := radii[k.Ix[3]], amps[k.Ix[4]], thrs[k.Ix[5]]
					pixel := 1 / float64(w)
					// make sure that the truncation of the kernel does not depend on rounding
					k.Desc("%v %s radius %v amplitude %v threshold %v", img, kinds[k.Ix[2]], rad, amp, thr)
					before := clone(img)
					var got imagef.Image
					var kern kernel
					switch k.Ix[2] {
					case 0:
						got = post.ApplyGaussianBloom(img, pixel, rad*pixel, amp, thr)
						kern = gauss(rad, int(5*rad+1e-9)+1)
					case 1:
						got = post.ApplyAiryBloom(img, pixel, rad*pixel, amp, thr)
						kern = airy(rad, int(8*rad+1e-9)+1)
					case 2:
						rad += 1e-6
						got = post.ApplyStarBloom(img, pixel, rad*pixel, amp, thr)
						kern = star(int(rad))
					}
					k.Op(1)
					if thr == 10 {
						k.Trivial()
					}
					if kinds[k.Ix[2]] != "star" && kern.n != int(map[int]float64{0: 5, 1: 8}[k.Ix[2]]*((rad*pixel)/pixel))+1 {
						k.Trivial() // rounding decides about the size of the kernel
						return
					}
					compare(k, "result", got, bloom(before, before, kern, amp, thr))
					compare(k, "input after the call", img, before)
					got[0][0].R += 5
					if img[0][0] != before[0][0] {
						k.Fatal("the result shares memory with the input")
					}
				})
			}
			// larger images and radii, few pixels of any brightness
			large := [][2]int{{64, 3}, {3, 64}, {40, 30}, {257, 1}, {17, 70}}
			lr := []float64{2.4, 9.3, 20.7, 70.2}
			strong := []float64{1e-6, 1.0001, 40, 1e7}
			r.Space("large", []int{len(large), 9, len(lr), len(strong), 3}, func(k *mc.K) {
				w, h := large[k.Ix[0]][0], large[k.Ix[0]][1]
				img := imagef.MakeImage(w, h)
				px := []int{0, (w - 1) / 2, w - 1}[k.Ix[1]%3]
				py := []int{0, (h - 1) / 2, h - 1}[k.Ix[1]/3]
				b := strong[k.Ix[3]]
				img[py][px] = Color{R: b, G: b / 2, B: 0}
				img[(py+h/3)%h][(px+2*w/3)%w].B = b * 3
				thr := 1.0
				if b < 1 {
					thr = b / 4
				}
				pixel, rad := 1/float64(w), lr[k.Ix[2]]
				if k.Ix[4] < 2 && (rad > 21 || rad > 10 && k.Ix[3] != 2) {
					k.Trivial() // takes long
					return
				}
				k.Desc("%dx%d pixel %d,%d of %v, %s radius %v", w, h, px, py, b, kinds[k.Ix[4]], rad)
				before := clone(img)
				var got imagef.Image
				var kern kernel
				switch k.Ix[4] {
				case 0:
					got = post.ApplyGaussianBloom(img, pixel, rad*pixel, 0.5, thr)
					kern = gauss(rad, int(5*rad+1e-9)+1)
				case 1:
					got = post.ApplyAiryBloom(img, pixel, rad*pixel, 0.5, thr)
					kern = airy(rad, int(8*rad+1e-9)+1)
				case 2:
					got = post.ApplyStarBloom(img, pixel, rad*pixel, 0.5, thr)
					kern = star(int(rad))
				}
				k.Op(1)
				want := bloomSparse(before, kern, 0.5, thr)
				for y := range want {
					for x := range want[y] {
						if !CClose(CMul(1/b, got[y][x]), CMul(1/b, want[y][x]), 1e-9) {
							k.Fatal("pixel (%d,%d): %v, want %v", x, y, got[y][x], want[y][x])
						}
					}
				}
				compare(k, "input after the call", img, before)
			})
			// wide kernels, to far beyond the picture
			wide := [][2]int{{40, 3}, {2, 33}}
			wr := []float64{27.3, 44.4, 61.2, 110.6}[:r.Pick(3, 4)]
			r.Space("wide", []int{len(wide), 3, len(wr), 2}, func(k *mc.K) {
				w, h := wide[k.Ix[0]][0], wide[k.Ix[0]][1]
				img := imagef.MakeImage(w, h)
				px, py := []int{0, w / 2, w - 1}[k.Ix[1]], []int{h - 1, 0, h / 2}[k.Ix[1]]
				img[py][px] = Color{R: 40, G: 20, B: 3}
				pixel, rad := 1/float64(w), wr[k.Ix[2]]
				k.Desc("%dx%d pixel %d,%d, %s radius %v", w, h, px, py, kinds[k.Ix[3]], rad)
				before := clone(img)
				var got imagef.Image
				var kern kernel
				if k.Ix[3] == 0 {
					got, kern = post.ApplyGaussianBloom(img, pixel, rad*pixel, 0.5, 1), gauss(rad, int(5*rad+1e-9)+1)
				} else {
					got, kern = post.ApplyAiryBloom(img, pixel, rad*pixel, 0.5, 1), airy(rad, int(8*rad+1e-9)+1)
				}
				k.Op(1)
				compare(k, "result", got, bloomSparse(before, kern, 0.5, 1))
				compare(k, "input after the call", img, before)
			})
			// The convolution itself, with an asymmetric kernel and separate destination
			maxK := r.Pick(5, 7)
			r.Space("convolution", []int{4, 4, (maxK + 1) / 2, (maxK + 1) / 2, 3, 2}, func(k *mc.K) {
				w, h, kw, kh := k.Ix[0]+1, k.Ix[1]+1, 2*k.Ix[2]+1, 2*k.Ix[3]+1
				src, dst, kern := imagef.MakeImage(w, h), imagef.MakeImage(w, h), imagef.MakeImage(kw, kh)
				for i := 0; i < w*h; i++ {
					src[i/w][i%w] = bright[(i+i/2)%3]
					dst[i/w][i%w] = Color{R: float64(i), G: -1, B: 0.5}
				}
				for i := 0; i < kw*kh; i++ {
					kern[i/kw][i%kw] = Color{R: float64(i * i % 7), G: float64(i), B: 2 + float64(i%3)}
				}
				thr := []float64{0, 0.4, 1}[k.Ix[4]]
				amp := []float64{1, 2.5}[k.Ix[5]]
				s0, k0 := clone(src), clone(kern)
				n := kw
				if kh > n {
					n = kh
				}
				want := bloom(dst, src, kernel{n, func(dx, dy int) [3]float64 {
					x, y := dx+kw/2, dy+kh/2
					if x < 0 || y < 0 || x >= kw || y >= kh {
						return [3]float64{}
					}
					c := k0[y][x]
					return [3]float64{c.R, c.G, c.B}
				}}, amp, thr)
				k.Op(1)
				got := post.AddConvolution(dst, src, kern, amp, thr)
				compare(k, "result", got, want)
				compare(k, "destination", dst, want)
				compare(k, "source after the call", src, s0)
				compare(k, "kernel after the call", kern, k0)
			})
			widths := []float64{0.2, 0.5, 1, 1.5, 3, 10}
			r.Space("kernels", []int{r.Pick(16, 40), len(widths), 2}, func(k *mc.K) {
				n, w := k.Ix[0], widths[k.Ix[1]]
				got, ref := post.Gaussian(n, w), gauss(w, n)
				if k.Ix[2] == 1 {
					got, ref = post.Airy(n, w), airy(w, n)
				}
				k.Op(1)
				want := imagef.MakeImage(2*n+1, 2*n+1)
				for y := range want {
					for x := range want[y] {
						v := ref.f(x-n, y-n)
						want[y][x] = Color{R: v[0], G: v[1], B: v[2]}
					}
				}
				compare(k, "kernel", got, want)
			})
			// All combinations: each kind of bloom is applied to the result of the previous one; radius 0 switches it off.
			pr := []float64{0, 1.2, 4.5}
			r.Space("combined", []int{len(pr), len(pr), len(pr), 4, 3}, func(k *mc.K) {
				sz := [][2]int{{6, 5}, {3, 7}, {9, 2}, {1, 1}}[k.Ix[3]]
				w, h := sz[0], sz[1]
				pixel := []float64{1 / float64(w), 1, 0.01}[k.Ix[4]]
				img := imagef.MakeImage(w, h)
				for i := 0; i < w*h; i++ {
					img[i/w][i%w] = bright[(i*i+i/3)%3]
				}
				before := clone(img)
				p := post.Params{
					Gaussian: post.BloomParams{Radius: pr[k.Ix[0]] * pixel, Amplitude: 0.5, Threshold: 0.75},
					Airy:     post.BloomParams{Radius: pr[k.Ix[1]] * pixel, Amplitude: 0.25, Threshold: 0.5},
					Star:     post.BloomParams{Radius: pr[k.Ix[2]] * pixel, Amplitude: 2, Threshold: 1.5},
				}
				p0 := p
				k.Op(1)
				got := p.ApplyTo(img, pixel)
				want := before
				if k.Ix[0] > 0 {
					want = bloom(want, want, gauss(pr[k.Ix[0]], int(5*p.Gaussian.Radius/pixel)+1), 0.5, 0.75)
				}
				if k.Ix[1] > 0 {
					want = bloom(want, want, airy(pr[k.Ix[1]], int(8*p.Airy.Radius/pixel)+1), 0.25, 0.5)
				}
				if k.Ix[2] > 0 {
					want = bloom(want, want, star(int(pr[k.Ix[2]])), 2, 1.5)
				}
				compare(k, "result", got, want)
				compare(k, "input after the call", img, before)
				if p != p0 {
					k.Fatal("parameters changed")
				}
			})
		})
}
