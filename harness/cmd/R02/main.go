// R02: every pixel receives exactly the requested samples, at its own position.
package main

import (
	"math"
	"sync"

	"github.com/barnex/bruteray/imagef/colorf"
	"github.com/barnex/bruteray/tracer"
	"verif/mc"
)

type size struct{ w, h int }

var nan = math.NaN()

// center is the reference position of the center of pixel (ix,iy).
func center(w, h, ix, iy int) (u, v float64) {
	u = (float64(ix) + 0.5) / float64(w)
	v = 0.5 + (0.5*float64(h)-(float64(iy)+0.5))/float64(w)
	return
}

// sample scripts the k'th sample value of a pixel.
func sample(script, p, k int) colorf.Color {
	x := float64(p%97)*0.013 + 0.1
	switch script {
	case 0: // constant in time
		return colorf.Color{R: x, G: 2 * x, B: 1 - x}
	case 1: // varies, different per channel
		return colorf.Color{R: x + float64(k%3), G: x * float64(1+k%5), B: float64(k*k%7) - 1}
	case 2: // some NaNs
		if (p+k)%3 == 1 {
			switch k % 3 {
			case 0:
				return colorf.Color{R: nan, G: 1, B: 1}
			case 1:
				return colorf.Color{R: 1, G: nan, B: 1}
			default:
				return colorf.Color{R: 1, G: 1, B: nan}
			}
		}
		return colorf.Color{R: x, G: float64(k), B: 0.5}
	default: // large dynamic range
		return colorf.Color{R: math.Pow(10, float64(k%6)), G: 1e-3 * float64(k), B: 1e4 - float64(p%11)}
	}
}

type model struct {
	w, h, script int
	n            int            // samples so far per pixel
	mu           sync.Mutex     // the image function is called concurrently
	calls        []int          // calls per pixel
	val          []colorf.Color // returned so far
	bad          string
}

func newModel(w, h, script int) *model {
	return &model{w: w, h: h, script: script, calls: make([]int, w*h)}
}

func (m *model) f(ctx *tracer.Ctx, u, v float64) colorf.Color {
	fx := u*float64(m.w) - 0.5
	fy := (0.5-v)*float64(m.w) + 0.5*float64(m.h) - 0.5
	ix, iy := int(math.Round(fx)), int(math.Round(fy))
	m.mu.Lock()
	defer m.mu.Unlock()
	if ix < 0 || iy < 0 || ix >= m.w || iy >= m.h {
		m.bad = "sample outside of the image"
		return colorf.Color{}
	}
	cu, cv := center(m.w, m.h, ix, iy)
	if math.Abs(u-cu) > 1e-9 || math.Abs(v-cv) > 1e-9 {
		m.bad = "sample not at a pixel center"
	}
	p := iy*m.w + ix
	c := sample(m.script, p, m.calls[p])
	m.calls[p]++
	return c
}

// expect returns mean and sample standard deviation of the first n samples of pixel p.
func (m *model) expect(p int) (mean, dev [3]float64, scale float64) {
	var cs [][3]float64
	for k := 0; k < m.n; k++ {
		c := sample(m.script, p, k)
		if c.R != c.R || c.G != c.G || c.B != c.B {
			c = colorf.Color{}
		}
		cs = append(cs, [3]float64{c.R, c.G, c.B})
	}
	n := float64(m.n)
	for ch := 0; ch < 3; ch++ {
		s := 0.0
		for _, c := range cs {
			s += c[ch]
			scale = math.Max(scale, math.Abs(c[ch]))
		}
		mean[ch] = s / n
		q := 0.0
		for _, c := range cs {
			q += (c[ch] - mean[ch]) * (c[ch] - mean[ch])
		}
		if m.n > 1 {
			dev[ch] = math.Sqrt(q / (n - 1))
		}
	}
	return
}

func (m *model) check(k *mc.K, s *tracer.Sampler, what int) {
	if m.bad != "" {
		k.Fatal("%s", m.bad)
	}
	for p, c := range m.calls {
		if c != m.n {
			k.Fatal("pixel %d,%d: image function evaluated %d times, want %d", p%m.w, p/m.w, c, m.n)
		}
	}
	if m.n == 0 || what == 0 {
		return
	}
	img := s.Image()
	if what == 2 {
		img = s.StdDev()
	}
	k.Op(1)
	if w, h := img.Size(); w != m.w || h != m.h {
		k.Fatal("image size %dx%d, want %dx%d", w, h, m.w, m.h)
	}
	for iy := 0; iy < m.h; iy++ {
		for ix := 0; ix < m.w; ix++ {
			mean, dev, scale := m.expect(iy*m.w + ix)
			got := img[iy][ix]
			want, tol := mean, 1e-9*scale
			if what == 2 {
				want, tol = dev, 2e-6*scale
			}
			for ch, g := range [3]float64{got.R, got.G, got.B} {
				if !(math.Abs(g-want[ch]) <= tol) {
					k.Fatal("pixel %d,%d channel %d after %d samples: got %v want %v (what=%d)", ix, iy, ch, m.n, g, want[ch], what)
				}
			}
			k.SawF(got.R)
			img[iy][ix] = colorf.Color{R: -1e9} // returned images are the caller's: scribbling must not matter
		}
	}
}

func main() {
	mc.Main("R02", "exploration",
		"A case is one (image size, sample script, history of sampler operations); non-trivial when at least one sample is taken. All histories up to the stated depth are run on the real sampler and compared after every operation with a per-pixel list of samples.",
		func(r *mc.Run) {
			r.Assumption("Image functions are called with the sampler's own worker goroutines; interleavings are the subject of R01.")
			small := []size{{1, 1}, {2, 1}, {1, 2}, {3, 2}, {2, 5}, {16, 1}, {17, 2}, {15, 17}, {33, 3}}
			ops := 6 // Sample(0) Sample(1) Sample(2) Sample(5) Image StdDev
			hist := func(name string, sizes []size, depth int, scripts int) {
				dims := []int{len(sizes), scripts}
				for i := 0; i < depth; i++ {
					dims = append(dims, ops)
				}
				r.Space(name, dims, func(k *mc.K) {
					sz := sizes[k.Ix[0]]
					m := newModel(sz.w, sz.h, k.Ix[1])
					s := tracer.NewSampler(m.f, sz.w, sz.h, false)
					k.Desc("size %v script %d ops %v (0..3: Sample(0,1,2,5), 4: Image, 5: StdDev)", sz, k.Ix[1], k.Ix[2:])
					for _, op := range k.Ix[2:] {
						switch op {
						case 0, 1, 2, 3:
							n := []int{0, 1, 2, 5}[op]
							s.Sample(n)
							m.n += n
							m.check(k, s, 0)
						case 4:
							m.check(k, s, 1)
						case 5:
							m.check(k, s, 2)
						}
						k.Op(1)
					}
					m.check(k, s, 1)
					m.check(k, s, 2)
					if m.n == 0 {
						k.Trivial()
					}
				})
			}
			hist("histories", small, r.Pick(3, 5), 4)

			// Every image size: one shot of 2 passes, then one more.
			n := r.Pick(40, 72)
			r.Space("sizes", []int{n, n}, func(k *mc.K) {
				w, h := k.Ix[0]+1, k.Ix[1]+1
				m := newModel(w, h, 1)
				s := tracer.NewSampler(m.f, w, h, false)
				s.Sample(2)
				m.n = 2
				m.check(k, s, 1)
				s.SampleWithCancel(1, make(chan struct{}))
				m.n = 3
				m.check(k, s, 1)
				m.check(k, s, 2)
				k.Desc("size %dx%d", w, h)
				k.Op(2)
			})
			big := []size{{100, 80}, {257, 31}, {31, 257}, {640, 2}, {2, 640}, {960, 540}, {1031, 2}, {3, 1057}, {2049, 1}, {1, 2051}, {5003, 1}, {1, 4099}, {1281, 723}}
			r.Space("big", []int{len(big)}, func(k *mc.K) {
				sz := big[k.Ix[0]]
				m := newModel(sz.w, sz.h, 1)
				s := tracer.NewSampler(m.f, sz.w, sz.h, false)
				s.Sample(1)
				s.Sample(1)
				m.n = 2
				m.check(k, s, 1)
				k.Op(2)
			})
			// One-call variant.
			r.Space("uniform", []int{len(small), 4, 7}, func(k *mc.K) {
				sz := small[k.Ix[0]]
				m := newModel(sz.w, sz.h, k.Ix[1])
				m.n = k.Ix[2] + 1
				img := tracer.Uniform(m.f, m.n, sz.w, sz.h, false)
				m.check(k, nil, 0)
				for p := range m.calls {
					mean, _, scale := m.expect(p)
					got := img[p/sz.w][p%sz.w]
					for ch, g := range [3]float64{got.R, got.G, got.B} {
						if !(math.Abs(g-mean[ch]) <= 1e-9*scale) {
							k.Fail("pixel %d: got %v want %v", p, got, mean)
						}
					}
					k.SawF(got.R)
				}
				k.Op(1)
			})
			// Many passes, at once and in parts.
			longs := []int{10, 100, 127, 128, 129, 255, 256, 257, 300, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 10000, 32767, 32768, 65535, 65536, 65537, 70000}
			longSizes := []size{{1, 1}, {2, 1}, {3, 2}, {17, 1}}
			r.Space("long", []int{len(longs), len(longSizes), 4, 3}, func(k *mc.K) {
				sz := longSizes[k.Ix[1]]
				n := longs[k.Ix[0]]
				k.Desc("size %v script %d %d passes, division %d", sz, k.Ix[2], n, k.Ix[3])
				m := newModel(sz.w, sz.h, k.Ix[2])
				s := tracer.NewSampler(m.f, sz.w, sz.h, false)
				var parts []int
				switch k.Ix[3] {
				case 0:
					parts = []int{n}
				case 1:
					parts = []int{1, n - 2, 1}
				case 2:
					for sum, d := 0, 1; sum < n; d++ {
						p := d
						if p > n-sum {
							p = n - sum
						}
						parts = append(parts, p)
						sum += p
					}
				}
				for _, p := range parts {
					s.Sample(p)
					m.n += p
				}
				k.Op(len(parts))
				m.check(k, s, 1)
				m.check(k, s, 2)
			})
			// Two samplers at the same time: all sequences of operations on both.
			twoSizes := [][2]size{{{3, 2}, {3, 2}}, {{17, 2}, {2, 17}}, {{1, 1}, {5, 4}}, {{33, 3}, {33, 20}}}
			depth := r.Pick(4, 6)
			dims := []int{len(twoSizes), 4}
			for i := 0; i < depth; i++ {
				dims = append(dims, 4)
			}
			r.Space("two", dims, func(k *mc.K) {
				sz := twoSizes[k.Ix[0]]
				var m [2]*model
				var s [2]*tracer.Sampler
				for i := range s {
					m[i] = newModel(sz[i].w, sz[i].h, (k.Ix[1]+i)%4)
					s[i] = tracer.NewSampler(m[i].f, sz[i].w, sz[i].h, false)
				}
				k.Desc("sizes %v script %d ops %v (sampler 0 or 1; 2: one more pass)", sz, k.Ix[1], k.Ix[2:])
				for _, op := range k.Ix[2:] {
					i, n := op%2, 1+op/2
					s[i].Sample(n)
					m[i].n += n
					k.Op(1)
					for j := range s {
						m[j].check(k, s[j], 1)
					}
				}
				for j := range s {
					m[j].check(k, s[j], 2)
				}
			})
			// The mapping from pixel index (in half-pixel steps) to camera coordinates.
			m := r.Pick(24, 40)
			r.Space("index-to-camera", []int{m, m}, func(k *mc.K) {
				w, h := k.Ix[0]+1, k.Ix[1]+1
				if p := tracer.PixelSize(w, h); !mc.Close(p, 1/float64(w), 1e-12) {
					k.Fail("pixel size of %dx%d: %v", w, h, p)
				}
				for x := -1; x <= 2*w-1; x++ {
					for y := -1; y <= 2*h-1; y++ {
						fx, fy := float64(x)/2, float64(y)/2
						u, v := tracer.IndexToCam(w, h, fx, fy)
						wu := (fx + 0.5) / float64(w)
						wv := 0.5 + (float64(h)/2-(fy+0.5))/float64(w)
						if !mc.Close(u, wu, 1e-12) || !mc.Close(v, wv, 1e-12) {
							k.Fatal("%dx%d pixel %v,%v: got %v,%v want %v,%v", w, h, fx, fy, u, v, wu, wv)
						}
						k.Op(1)
					}
				}
				k.SawF(float64(w), float64(h))
			})
		})
}
