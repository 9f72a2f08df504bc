// F02: an image that could not be written completely is never reported as written.
package main

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"image"
	_ "image/jpeg"
	_ "image/png"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"syscall"

	"github.com/barnex/bruteray/api"
	"github.com/barnex/bruteray/imagef"
	"github.com/barnex/bruteray/imagef/ppm"
	"verif/mc"
	. "verif/tx"
)

var errDisk = errors.New("disk on fire")

// faulty accepts left bytes in total (or left calls), then fails.
type faulty struct {
	left    int
	calls   bool
	once    bool // only one write fails
	done    bool
	partial bool // the failing write writes a part
	buf     bytes.Buffer
}

func (f *faulty) Write(p []byte) (int, error) {
	if f.done && f.once {
		return f.buf.Write(p)
	}
	if f.calls {
		if f.left > 0 {
			f.left--
			return f.buf.Write(p)
		}
		f.done = true
		return 0, errDisk
	}
	if len(p) <= f.left {
		f.left -= len(p)
		return f.buf.Write(p)
	}
	f.done = true
	n := f.left
	if !f.partial {
		n = 0
	}
	f.buf.Write(p[:n])
	f.left = 0
	return n, errDisk
}

func testImg(w, h int) imagef.Image {
	img := imagef.MakeImage(w, h)
	for y := range img {
		for x := range img[y] {
			img[y][x] = Color{R: float64(x+1) / float64(w), G: float64(y) / float64(h), B: 0.5}
		}
	}
	return img
}

func spec(w, h, passes int) api.Spec {
	return api.Spec{Width: w, Height: h, NumPass: passes, Objects: []api.Object{api.Backdrop(api.Flat(api.C(0.8, 0.1, 0.3)))}}
}

// child renders, with the file size limited to F02_LIMIT bytes.
func child() {
	var w, h, passes, limit int
	fmt.Sscan(os.Getenv("F02_CHILD"), &w, &h, &passes, &limit)
	if limit >= 0 {
		l := syscall.Rlimit{Cur: uint64(limit), Max: uint64(limit)}
		if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &l); err != nil {
			fmt.Println("HARNESS", err)
			os.Exit(0)
		}
	}
	if os.Getenv("F02_ANIMATE") != "" {
		api.Animate(3, func(i int) api.Spec { return spec(w, h, passes) })
	} else {
		api.Render(spec(w, h, passes))
	}
	fmt.Println("SUCCESS")
	os.Exit(0)
}

var (
	mu  sync.Mutex
	num int
)

func dir() string {
	mu.Lock()
	num++
	d := filepath.Join(os.Getenv("VERIF_WORK"), fmt.Sprintf("d%d", num))
	mu.Unlock()
	if err := os.Mkdir(d, 0777); err != nil {
		panic(err)
	}
	return d
}

// run renders in a child process with working directory d; ok: the child claims success.
func run(d, out string, animate bool, w, h, passes, limit int) (ok bool, log string) {
	exe, _ := os.Executable()
	cmd := exec.Command(exe, "-o", out)
	cmd.Dir = d
	cmd.Env = append(os.Environ(), fmt.Sprintf("F02_CHILD=%d %d %d %d", w, h, passes, limit))
	if animate {
		cmd.Env = append(cmd.Env, "F02_ANIMATE=1")
	}
	b, err := cmd.CombinedOutput()
	if strings.Contains(string(b), "HARNESS") {
		panic(string(b))
	}
	return err == nil, string(b)
}

// complete tells if fname holds a complete w x h image.
func complete(fname string, w, h int) error {
	b, err := os.ReadFile(fname)
	if err != nil {
		return err
	}
	if strings.HasSuffix(fname, ".ppm") {
		f := strings.Fields(string(b))
		if len(f) != 4+3*w*h || !strings.HasPrefix(string(b), fmt.Sprintf("P3\n%d %d\n65535\n", w, h)) {
			return fmt.Errorf("%s: incomplete: %q", fname, b)
		}
		return nil
	}
	img, _, err := image.Decode(bytes.NewReader(b))
	if err != nil {
		return fmt.Errorf("%s: %v", fname, err)
	}
	if img.Bounds() != image.Rect(0, 0, w, h) {
		return fmt.Errorf("%s: size %v", fname, img.Bounds())
	}
	// followed by nothing left over of an earlier file
	if bytes.Contains(b, []byte("LEFTOVER")) {
		return fmt.Errorf("%s: contains an earlier file", fname)
	}
	return nil
}

func main() {
	if os.Getenv("F02_CHILD") != "" {
		child()
	}
	mc.Main("F02", "fault_enumeration",
		"encoders: every image size up to the bound, both PPM encoders, a write error at every byte position and at every write call, permanent or transient, with and without a partial write, directly and through a buffered writer; render/animate: the real program in a child process with the file size limited to every number of bytes up to past the complete output, with full devices, missing directories, directories in the way, and unknown formats; success may only be reported when all files are complete. Non-trivial: always.",
		func(r *mc.Run) {
			sizes := [][2]int{{1, 1}, {2, 1}, {1, 3}, {3, 2}}
			if r.Thorough() {
				sizes = append(sizes, [2]int{5, 4}, [2]int{1, 20}, [2]int{16, 9})
			}
			encs := []func(w io.Writer, img imagef.Image) error{ppm.EncodeAscii16, ppm.Encode48BE}
			for si, sz := range sizes {
				img := testImg(sz[0], sz[1])
				for ei, enc := range encs {
					ei, enc := ei, enc
					var full faulty
					full.left = 1 << 30
					if err := enc(&full, img); err != nil {
						r.Violate("", "encoding fails without fault: %v", err)
						return
					}
					total := full.buf.Len()
					full = faulty{left: 1 << 30, calls: true}
					enc(&full, img)
					calls := 1<<30 - full.left
					name := fmt.Sprintf("enc%d-%d", si, ei)
					r.Space(name+"-bytes", []int{total + 2, 2, 2, 2}, func(k *mc.K) {
						f := &faulty{left: k.Ix[0], partial: k.Ix[1] == 1, once: k.Ix[2] == 1}
						var w io.Writer = f
						var bw *bufio.Writer
						if k.Ix[3] == 1 {
							bw = bufio.NewWriterSize(f, 16)
							w = bw
						}
						err := enc(w, img)
						if bw != nil && err == nil {
							err = bw.Flush()
						}
						k.Op(1)
						if k.Ix[0] < total && err == nil {
							k.Fatal("write error after %d of %d bytes not reported", k.Ix[0], total)
						}
						if k.Ix[0] >= total && (err != nil || f.buf.Len() != total) {
							k.Fatal("%d bytes accepted: err=%v, %d bytes", k.Ix[0], err, f.buf.Len())
						}
						k.Saw(name, k.Ix)
					})
					r.Space(name+"-calls", []int{calls, 2}, func(k *mc.K) {
						f := &faulty{left: k.Ix[0], calls: true, once: k.Ix[1] == 1}
						k.Op(1)
						if err := enc(f, img); err == nil {
							k.Fatal("error of write call %d of %d not reported", k.Ix[0], calls)
						}
						k.Saw(name, k.Ix)
					})
				}
			}
			// The whole program.
			outs := []string{"out.jpeg", "x.jpg", "p.png"}
			noExt := func(s string) string { return strings.TrimSuffix(s, filepath.Ext(s)) }
			probe := func(out string, animate bool, w, h int) int {
				d := dir()
				defer os.RemoveAll(d)
				if ok, log := run(d, out, animate, w, h, 2, -1); !ok {
					r.Violate(out, "rendering fails without fault: %s", log)
					return 0
				}
				biggest := 0
				filepath.Walk(d, func(p string, i os.FileInfo, err error) error {
					if err == nil && !i.IsDir() && int(i.Size()) > biggest {
						biggest = int(i.Size())
					}
					return nil
				})
				return biggest
			}
			type job struct{ w, h, step int }
			jobs := []job{{3, 2, 1}, {40, 12, r.Pick(64, 7)}} // the second is larger than the write buffer
			for _, out := range outs {
				out := out
				for ji := 0; ji < 2*len(jobs); ji++ {
					animate := ji%2 == 1
					w, h, step := jobs[ji/2].w, jobs[ji/2].h, jobs[ji/2].step
					if animate && out != "out.jpeg" {
						continue
					}
					biggest := probe(out, animate, w, h)
					files := []string{out, noExt(out) + ".ppm"}
					if animate {
						dd := noExt(out) + "-frames/"
						files = []string{dd + "last.jpg", dd + "00000.jpg", dd + "00001.jpg", dd + "00002.jpg"}
					}
					// existing (longer) output must be replaced completely
					r.Space(fmt.Sprintf("limit-%s-%v-%dx%d", out, animate, w, h), []int{biggest/step + 10, 2}, func(k *mc.K) {
						d := dir()
						defer os.RemoveAll(d)
						if k.Ix[1] == 1 {
							for _, f := range files {
								os.MkdirAll(filepath.Dir(filepath.Join(d, f)), 0777)
								os.WriteFile(filepath.Join(d, f), []byte(strings.Repeat("LEFTOVER", 1000)), 0666)
							}
						}
						limit := k.Ix[0] * step
						if k.Ix[0] < 9 {
							limit = k.Ix[0]
						} else if k.Ix[0] >= biggest/step+5 {
							limit = biggest - 2 + (k.Ix[0] - biggest/step - 5)
						}
						ok, log := run(d, out, animate, w, h, 2, limit)
						k.Op(1)
						if ok {
							for _, f := range files {
								if err := complete(filepath.Join(d, f), w, h); err != nil {
									k.Fatal("files limited to %d bytes: success reported, but %v", limit, err)
								}
							}
						}
						if !ok && limit >= biggest {
							k.Fatal("files limited to %d bytes, which suffices: %s", limit, log)
						}
						k.Saw(out, animate, ok)
					})
				}
			}
			// a full device, or a directory, in place of each file
			r.Space("places", []int{len(outs), 4, 3}, func(k *mc.K) {
				d := dir()
				defer os.RemoveAll(d)
				out := outs[k.Ix[0]]
				files := []string{out, noExt(out) + ".ppm"}
				animate := false
				if k.Ix[1] >= 2 {
					if k.Ix[0] > 0 {
						k.Trivial()
						return
					}
					animate = true
					files = []string{"", "", "out-frames/last.jpg", "out-frames/00001.jpg"}
					os.Mkdir(filepath.Join(d, "out-frames"), 0777)
				}
				f := filepath.Join(d, files[k.Ix[1]])
				switch k.Ix[2] {
				case 0:
					os.Symlink("/dev/full", f)
				case 1:
					os.Mkdir(f, 0777)
				case 2:
					os.Symlink(filepath.Join(d, "no/such/dir/file"), f)
				}
				ok, log := run(d, out, animate, 3, 2, 1, -1)
				k.Op(1)
				if ok {
					k.Fatal("%s cannot be written, but success is reported: %s", files[k.Ix[1]], log)
				}
				k.Saw(k.Ix)
			})
			bad := []string{"nodir/out.jpeg", "out.bmp", "out", "out.ppm", "out.jpe", "out.PNG2"}
			r.Space("names", []int{len(bad)}, func(k *mc.K) {
				d := dir()
				defer os.RemoveAll(d)
				ok, log := run(d, bad[k.Ix[0]], false, 2, 2, 1, -1)
				k.Op(1)
				if ok {
					if complete(filepath.Join(d, bad[k.Ix[0]]), 2, 2) != nil {
						k.Fatal("output %q cannot be written, but success is reported: %s", bad[k.Ix[0]], log)
					}
				}
				k.Saw(k.Ix, ok)
			})
		})
}
