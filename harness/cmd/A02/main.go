// Check A02: the render server survives concurrent requests.
package main

import (
	"bytes"
	"flag"
	"fmt"
	"io"
	"log"
	"net"
	"net/http"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync/atomic"
	"time"

	"verif/mc"
	"verif/vsched"
	"verif/vsync"
	"verif/vx"

	"github.com/barnex/bruteray/api"
)

var letters = []request{{bake, 0}, {bake, 1}, {cancel, 0}, {preview, 1}, {badBake, 0}}

// program: the requests of a prologue, of each client, and an epilogue.
type program struct {
	pro     []request
	clients [][]request
}

var epilogue = []request{{bake, 0}, {bake, 0}}

func decode(ix []int) program {
	// prologue length class, then per client: letters separated by -1
	var p program
	for i := 0; i < ix[0]; i++ {
		p.pro = append(p.pro, request{bake, 0})
	}
	var c []request
	for _, x := range ix[2:] {
		if x < 0 {
			p.clients = append(p.clients, c)
			c = nil
			continue
		}
		c = append(c, letters[x])
	}
	p.clients = append(p.clients, c)
	return p
}

func mkBody(j *vx.Job) func() vx.Body {
	p := decode(j.Ix)
	vsched.SetNumCPU(1 + j.Ix[1]%10)
	x := newWorld(1+j.Ix[1]/10*16, 1)
	return func() vx.Body {
		x.reset()
		recs := make([][]*record, len(p.clients))
		var seq []*record
		for _, q := range p.pro {
			seq = append(seq, x.do(q))
		}
		return vx.Body{
			Run: func() {
				var wg vsync.WaitGroup
				for c := range p.clients {
					c := c
					wg.Go(func() {
						for _, q := range p.clients[c] {
							recs[c] = append(recs[c], x.do(q))
						}
					})
				}
				wg.Wait()
				vsched.Quiet()
				for _, q := range epilogue {
					seq = append(seq, x.do(q))
				}
			},
			Judge: func() (string, string) {
				all := append([]*record(nil), seq...)
				for _, r := range recs {
					all = append(all, r...)
				}
				sort.Slice(all, func(a, b int) bool { return all[a].from < all[b].from })
				out := ""
				for _, r := range all {
					out += fmt.Sprint(r.kind, r.code, " ")
				}
				return linearize(all, x.want), out
			},
		}
	}
}

func main() {
	if addr := os.Getenv("VERIF_RENDER"); addr != "" {
		os.Args = os.Args[:1]
		flag.Set("http", addr)
		api.Render(spec())
		return
	}
	vx.Child(mkBody)
	mc.Main("A02", "model_checking",
		"histories: every sequence of requests (bakes of several views, cancel, preview, malformed ones) up to the stated length on the real request handler, each response compared with a model of the server; views: every pair of views that differ in one field. schedules: two or three clients with one or two requests each, after each of several prologues; every interleaving at synchronisation operations, shader calls and (fine mode) statements of the server with up to the stated number of preemptions is executed on the real handlers under the race detector; the responses must be explained by some order of the atomic events (start and end of a bake, cancel) that respects real time, and two more bakes must then succeed. loopback: histories over a real connection. Non-trivial: always.",
		func(r *mc.Run) {
			r.Assumption("sequential consistency, justified by the absence of data races (happens-before race detector on every explored schedule)")
			log.SetOutput(io.Discard)
			var agg vx.Agg
			if hooked {
				histories(r)
			}
			loopback(r)
			if !vx.Instrumented() || !hooked {
				r.Truncate("the code could not be instrumented: schedules not controlled")
				return
			}
			var jobs []vx.Job
			add := func(fine bool, bound, pro, mach int, clients ...int) {
				// A preview shares no lock with the rest: its steps commute with
				// nearly everything, and the free switches are many already.
				if !r.Thorough() && !fine && bound > 0 {
					for _, c := range clients {
						if c == 3 {
							bound--
							break
						}
					}
				}
				jobs = append(jobs, vx.Job{Name: "server", Ix: append([]int{pro, mach}, clients...), Bound: bound, Fine: fine})
			}
			L := len(letters)
			q := !r.Thorough()
			for a := 0; a < L; a++ {
				for b := a; b < L; b++ {
					for pro := 0; pro <= 2; pro++ {
						add(false, r.Pick(2, 4), pro, 0, a, -1, b)
						add(false, r.Pick(2, 3)-b2i(q && pro != 1), pro, 1, a, -1, b)
						if !q || pro < 2 {
							add(true, 1, pro, 0, a, -1, b)
						}
					}
					add(false, 1, 1, 11, a, -1, b)
					for c := b; c < L; c++ {
						add(false, 1, 0, 0, a, -1, b, -1, c)
						if !q {
							add(false, 1, 1, 0, a, -1, b, -1, c)
							if a < 3 && b < 3 {
								add(true, 1, 0, 0, a, -1, b, -1, c)
							}
						}
					}
				}
			}
			// two requests each
			M := r.Pick(3, L)
			for a := 0; a < M*M; a++ {
				for b := a; b < M*M; b++ {
					add(false, r.Pick(1, 2), 0, 0, a/M, a%M, -1, b/M, b%M)
				}
			}
			// the small ones first
			size := func(j vx.Job) int {
				n := 2*j.Bound + 2*b2i(j.Ix[1] > 0)
				for _, c := range j.Ix[2:] {
					n += b2i(c == 3) + b2i(c == -1)
				}
				return n
			}
			sort.SliceStable(jobs, func(a, b int) bool { return size(jobs[a]) < size(jobs[b]) })
			r.Space("schedules", []int{len(jobs)}, func(k *mc.K) {
				agg.Do(r, k, jobs[k.Ix[0]], r.Deadline())
			})
			agg.Evidence(r)
		})
}

// histories: all sequential histories.
func histories(r *mc.Run) {
	seqLetters := []request{{bake, 0}, {bake, 1}, {bake, 3}, {cancel, 0}, {preview, 0}, {preview, 1}, {badBake, 0}, {badPreview, 0}, {badView, 0}}
	judge := func(k *mc.K, x *world, l []request) {
		var rec []*record
		out := []int{}
		for i, q := range l {
			rr := x.do(q)
			rr.from, rr.to = 2*i, 2*i+1
			rec = append(rec, rr)
			out = append(out, q.kind, rr.code)
		}
		k.Op(len(l))
		k.Desc("%v", l)
		k.Saw(out)
		if m := linearize(rec, x.want); m != "" {
			k.Fail("%s", m)
		}
	}
	n := r.Pick(4, 5)
	var dims []int
	for i := 0; i < n; i++ {
		dims = append(dims, len(seqLetters))
	}
	worlds := map[string]*world{}
	r.SpaceSeq("histories", dims, func(k *mc.K) {
		x := worlds["h"]
		if x == nil {
			x = newWorld(2, 2)
			worlds["h"] = x
		}
		x.reset()
		var l []request
		for _, i := range k.Ix {
			l = append(l, seqLetters[i])
		}
		judge(k, x, l)
	})
	r.SpaceSeq("refine", []int{4, 3, 3}, func(k *mc.K) {
		x := newWorld(1+k.Ix[0], 1+k.Ix[1])
		l := []request{}
		for i := 0; i < []int{6, 20, 8}[k.Ix[2]]; i++ {
			l = append(l, request{bake, 0})
			if k.Ix[2] == 2 {
				l = append(l, request{preview, i % oneField}, request{badBake, i % len(malformed)})
			}
		}
		judge(k, x, l)
	})
	r.SpaceSeq("invalid", []int{2*len(malformed) + 8, 3, 3}, func(k *mc.K) {
		x := newWorld(2, 1)
		q := request{badView, k.Ix[0] - 2*len(malformed)}
		if i := k.Ix[0]; i < len(malformed) {
			q = request{badBake, i}
		} else if i < 2*len(malformed) {
			q = request{badPreview, i - len(malformed)}
		}
		var l []request
		for i := 0; i < k.Ix[1]; i++ {
			l = append(l, request{bake, 0})
		}
		l = append(l, q)
		for i := 0; i < k.Ix[2]; i++ {
			l = append(l, []request{{bake, 0}, {cancel, 0}}[i])
		}
		judge(k, x, append(l, request{bake, 0}, q, request{preview, 0}, request{bake, 1}, request{bake, 1}))
	})
	nv := len(views(2, 2))
	r.SpaceSeq("combinations", []int{nv, nv}, func(k *mc.K) {
		x := worlds["c"]
		if x == nil {
			x = newWorld(2, 1)
			worlds["c"] = x
		}
		x.reset()
		a, b := request{bake, k.Ix[0]}, request{bake, k.Ix[1]}
		judge(k, x, []request{a, b, a, a})
	})
	r.SpaceSeq("views", []int{oneField, oneField, 4, 2}, func(k *mc.K) {
		name := fmt.Sprint("v", k.Ix[3])
		x := worlds[name]
		if x == nil {
			x = newWorld(3, 2)
			worlds[name] = x
			if k.Ix[3] == 1 {
				for i, v := range x.views {
					x.body[i] = lean(v)
				}
			}
		}
		x.reset()
		a, b := request{bake, k.Ix[0]}, request{bake, k.Ix[1]}
		switch k.Ix[2] {
		case 0:
			judge(k, x, []request{a, a, b, b, a})
		case 1:
			judge(k, x, []request{a, {preview, k.Ix[1]}, a, b})
		case 2:
			judge(k, x, []request{{preview, k.Ix[0]}, b, {cancel, 0}, b, a})
		case 3:
			judge(k, x, []request{a, b, a, a, b})
		}
	})
}

// nextPort: below the range from which ports are given out at random.
var nextPort atomic.Int32

// start serves the scene, by api.Serve or else by api.Render in a process of
// its own, which has the address from a flag. It returns the address, or "" if
// that is already in use, and a function to end the process.
func start(render bool) (string, func()) {
	addr := fmt.Sprintf("127.0.0.1:%d", 20000+(int(nextPort.Add(1))+os.Getpid()*37)%10000)
	if ln, err := net.Listen("tcp", addr); err != nil {
		return "", func() {} // served by someone else
	} else {
		ln.Close()
	}
	gone := make(chan bool, 1)
	stop := func() {}
	if render {
		cmd := exec.Command(os.Args[0])
		cmd.Env = append(os.Environ(), "VERIF_RENDER="+addr)
		if err := cmd.Start(); err != nil {
			return "", stop
		}
		stop = func() { cmd.Process.Kill() }
		go func() {
			cmd.Wait()
			gone <- true
		}()
	} else {
		go func() {
			api.Serve(addr, spec())
			gone <- true
		}()
	}
	for i := 0; i < 3000 && len(gone) == 0; i++ {
		c, err := net.Dial("tcp", addr)
		if err == nil {
			c.Close()
			time.Sleep(time.Millisecond)
			if len(gone) == 0 {
				return addr, stop
			}
			return "", stop
		}
		time.Sleep(20 * time.Millisecond)
	}
	stop()
	return "", stop
}

// loopback: histories over a real connection. Skipped where there is no network.
func loopback(r *mc.Run) {
	letters := []request{{bake, 0}, {bake, 1}, {cancel, 0}, {preview, 1}, {badBake, 0}}
	vs := views(3, 2)
	want := expect(vs)
	n := r.Pick(2, 3)
	dims := []int{}
	for i := 0; i < n; i++ {
		dims = append(dims, len(letters))
	}
	dims = append(dims, 2) // served by api.Serve, or by api.Render with -http
	client := &http.Client{Timeout: 100 * time.Second}
	r.Space("loopback", dims, func(k *mc.K) {
		if ln, err := net.Listen("tcp", "127.0.0.1:0"); err != nil {
			k.Trivial()
			return
		} else {
			ln.Close()
		}
		addr, stop, err := "", func() {}, error(nil)
		for try := 0; addr == "" && try < 100; try++ {
			addr, stop = start(k.Ix[n] == 1)
		}
		defer stop()
		if addr == "" {
			k.Fatal("nothing is served")
		}
		var rec []*record
		l := []request{}
		for _, i := range k.Ix[:n] {
			l = append(l, letters[i])
		}
		l = append(l, request{bake, 0}, request{bake, 0})
		w := &world{views: vs}
		for _, v := range vs {
			w.body = append(w.body, toJSON(v))
		}
		for i, q := range l {
			rr := &record{request: q, from: 2 * i, to: 2*i + 1}
			path, body := "/bake", ""
			switch q.kind {
			case bake:
				body = w.body[q.view]
			case preview:
				path, body = "/preview", w.body[q.view]
			case cancel:
				path = "/cancel"
			case badBake:
				body = "{"
			}
			var resp *http.Response
			if q.kind == cancel {
				resp, err = client.Get("http://" + addr + path)
			} else {
				resp, err = client.Post("http://"+addr+path, "application/json", strings.NewReader(body))
			}
			if err != nil {
				rr.code = 598
			} else {
				var b bytes.Buffer
				b.ReadFrom(resp.Body)
				resp.Body.Close()
				rr.decode(resp.StatusCode, b.Bytes())
			}
			rec = append(rec, rr)
		}
		k.Op(len(l))
		k.Desc("%v", l)
		k.Saw(k.Ix)
		if m := linearize(rec, want); m != "" {
			k.Fail("over a connection: %s", m)
		}
	})
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}
