// A03: the viewer always ends up showing the view the user asked for.
//
// The real viewer program (its main function) runs under a virtual clock with
// a stand-in window and a stand-in server; a script decides about every user
// event, window event and server answer. All scripts up to a depth are run,
// each one monitored: every request, every picture published, and what must be
// the case whenever the program is waiting.
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"os"
	"os/exec"
	"strings"
	"sync"
	"time"

	"verif/mc"
)

// act is one action of a script (see child_test.go.txt).
type act struct {
	Name string `json:"-"`
	Op   string
	Code int     `json:",omitempty"`
	Mod  int     `json:",omitempty"`
	Dir  int     `json:",omitempty"`
	Btn  int     `json:",omitempty"`
	X, Y float32 `json:",omitempty"`
	W, H int     `json:",omitempty"`
	Path string  `json:",omitempty"`
}

// key codes of golang.org/x/mobile/event/key (USB HID usage)
const (
	kD, kE, kF, kN, kP, kS, kX, kY, kZ = 7, 8, 9, 17, 19, 22, 27, 28, 29
	kSpace, kRight, kLeft, kDown, kUp  = 44, 79, 80, 81, 82
	press, release, step               = 1, 2, 3
	shift                              = 1
	bLeft, bMiddle, bRight             = 1, 2, 3
	wUp, wDown, wLeft, wRight          = -1, -2, -3, -4
)

func key(name string, code, mod int) act {
	return act{Name: name, Op: "key", Code: code, Mod: mod, Dir: press}
}
func wheel(name string, b, mod int) act {
	return act{Name: name, Op: "mouse", Btn: b, Mod: mod, Dir: step, X: 10, Y: 10}
}

type view struct {
	Width, Height     int
	AntiAlias         bool
	CamPos            [3]float64
	CamYaw, CamPitch  float64
	DebugNormals      int
	DebugIsometric    bool
	DebugIsometricFOV float64
	DebugIsometricDir int
}

// same tells whether two views look at the same thing (sizes aside).
func (a view) same(b view) bool {
	eq := func(x, y float64) bool { return math.Abs(x-y) <= 1e-9*(1+math.Abs(x)) }
	if a.DebugIsometric != b.DebugIsometric || a.DebugNormals != b.DebugNormals ||
		!eq(a.CamYaw, b.CamYaw) || !eq(a.CamPitch, b.CamPitch) {
		return false
	}
	if a.DebugIsometric && (a.DebugIsometricDir != b.DebugIsometricDir || !eq(a.DebugIsometricFOV, b.DebugIsometricFOV)) {
		return false
	}
	return eq(a.CamPos[0], b.CamPos[0]) && eq(a.CamPos[1], b.CamPos[1]) && eq(a.CamPos[2], b.CamPos[2])
}

// user is what the user has asked for.
type user struct {
	v      view // Width, Height: of the window
	paused bool
	button int
	drag   bool
	x, y   float32
	fov    bool // the isometric field of view has been set
}

func (u user) same(o user) bool {
	return u.v.same(o.v) && u.v.Width == o.v.Width && u.v.Height == o.v.Height
}

func (u *user) move(d [3]float64) {
	// yaw (about y) after pitch (about x), counterclockwise
	cp, sp, cy, sy := math.Cos(u.v.CamPitch), math.Sin(u.v.CamPitch), math.Cos(u.v.CamYaw), math.Sin(u.v.CamYaw)
	x, y, z := d[0], cp*d[1]-sp*d[2], sp*d[1]+cp*d[2]
	x, z = cy*x+sy*z, -sy*x+cy*z
	u.v.CamPos[0] += 0.05 * x
	u.v.CamPos[1] += 0.05 * y
	u.v.CamPos[2] += 0.05 * z
}

// apply is the documented effect of a user event.
func (u user) apply(a act) user {
	v := &u.v
	sh := a.Mod&shift != 0
	switch a.Op {
	case "size":
		v.Width, v.Height = a.W, a.H
	case "key":
		if a.Dir != press {
			break
		}
		switch a.Code {
		case kLeft, kS:
			u.move([3]float64{-1, 0, 0})
		case kRight, kF:
			u.move([3]float64{1, 0, 0})
		case kUp, kE:
			if sh {
				u.move([3]float64{0, 1, 0})
			} else {
				u.move([3]float64{0, 0, -1})
			}
		case kDown, kD:
			if sh {
				u.move([3]float64{0, -1, 0})
			} else {
				u.move([3]float64{0, 0, 1})
			}
		case kSpace:
			u.move([3]float64{0, 1, 0})
		case kX, kY, kZ:
			d := a.Code - kX
			v.DebugIsometric = !(v.DebugIsometric && v.DebugIsometricDir == d)
			v.DebugIsometricDir = d
			if v.DebugIsometricFOV == 0 {
				v.DebugIsometricFOV = 8
			}
		case kN:
			v.DebugNormals = (v.DebugNormals + 1) % 3
		case kP:
			u.paused = !u.paused
		}
	case "mouse":
		switch a.Dir {
		case press:
			u.button = a.Btn
			u.drag = a.Btn == bLeft
		case release:
			u.button = 0
			if a.Btn == bLeft {
				u.drag = false
			}
		}
		if u.button == bLeft {
			v.CamYaw += float64(a.X-u.x) * 0.005
			v.CamPitch = math.Max(-math.Pi/2, math.Min(math.Pi/2, v.CamPitch+float64(a.Y-u.y)*0.005))
		}
		u.x, u.y = a.X, a.Y
		if v.DebugIsometric {
			switch a.Btn {
			case wUp:
				v.DebugIsometricFOV /= math.Sqrt2
			case wDown:
				v.DebugIsometricFOV *= math.Sqrt2
			}
			break
		}
		switch {
		case a.Btn == wUp && sh:
			u.move([3]float64{0, 1, 0})
		case a.Btn == wUp:
			u.move([3]float64{0, 0, -1})
		case a.Btn == wDown && sh:
			u.move([3]float64{0, -1, 0})
		case a.Btn == wDown:
			u.move([3]float64{0, 0, 1})
		case a.Btn == wLeft:
			u.move([3]float64{-1, 0, 0})
		case a.Btn == wRight:
			u.move([3]float64{1, 0, 0})
		}
	}
	return u
}

type obs struct {
	Kind string
	ID   int
	Path string
	View json.RawMessage
	Img  int
	Dst  [4]int
}

type request struct {
	id        int
	u         user // what was asked for then
	cancelled bool
	div       int
}

type answer struct {
	u       user
	preview bool
}

// monitor follows one execution.
type monitor struct {
	u       user  // handled so far
	pending []act // delivered, not yet handled
	preview *request
	bake    *request
	answers map[int]answer
	shown   int  // -1: nothing yet
	exposed bool // the window has to be drawn again
	failed  bool
	nbake   int // bakes since the last preview
	lastDiv int
	trail   []user // handled in this step
	cancels int    // cancel requests in this step
}

func newMonitor() *monitor {
	m := &monitor{answers: map[int]answer{}, shown: -1, lastDiv: 8}
	m.u.v.Width, m.u.v.Height = 32, 32
	return m
}

// upto tries to explain an observation by having handled some of the pending events.
func (m *monitor) upto(most bool, ok func(u user) bool) bool {
	us := []user{m.u}
	for _, a := range m.pending {
		us = append(us, us[len(us)-1].apply(a))
	}
	for i := range us {
		k := i
		if most {
			k = len(us) - 1 - i
		}
		if ok(us[k]) {
			m.trail = append(m.trail, us[:k+1]...)
			m.u = us[k]
			m.pending = m.pending[k:]
			return true
		}
	}
	return false
}

func (m *monitor) see(o obs) string {
	switch o.Kind {
	case "disabled":
		return ""
	case "refused":
		return fmt.Sprintf("the server refuses the viewer's request %d: %s", o.ID, o.Path)
	case "pub":
		if o.Img < 0 {
			return "the window shows something that is neither an answer of the server nor the placeholder"
		}
		if o.Img == 0 {
			if !m.failed {
				return "the placeholder is shown although no preview failed"
			}
			m.shown = 0
			break
		}
		a, ok := m.answers[o.Img]
		if !ok {
			return fmt.Sprintf("harness: unknown image %d", o.Img)
		}
		if !m.upto(false, a.u.same) {
			return fmt.Sprintf("the window shows the picture of an outdated view: %+v, asked for: %+v", a.u.v, m.u.v)
		}
		m.shown, m.failed = o.Img, false
		if !m.upto(false, func(u user) bool { return a.u.same(u) && o.Dst == [4]int{0, 0, u.v.Width, u.v.Height} }) {
			return fmt.Sprintf("the picture is drawn at %v of a window of %dx%d", o.Dst, m.u.v.Width, m.u.v.Height)
		}
	case "req":
		switch o.Path {
		case "cancel":
			m.cancels++
			if m.bake != nil {
				m.bake.cancelled = true
			}
			return ""
		case "preview", "bake":
		default:
			return fmt.Sprintf("request for unknown path %q", o.Path)
		}
		var v view
		if err := json.Unmarshal(o.View, &v); err != nil {
			return fmt.Sprintf("%s request with bad body: %v", o.Path, err)
		}
		if o.Path == "preview" {
			if m.preview != nil {
				return "second preview requested while one is outstanding"
			}
			if !m.upto(true, func(u user) bool {
				return v.same(u.v) && v.Width == u.v.Width/8 && v.Height == u.v.Height/8 && !v.AntiAlias
			}) {
				return fmt.Sprintf("preview requested of %+v, asked for: %+v then %v", v, m.u.v, names(m.pending))
			}
			m.preview = &request{id: o.ID, u: m.u}
			m.failed = false
			m.nbake, m.lastDiv = 0, 8
			break
		}
		if m.bake != nil {
			return "second bake requested while one is outstanding"
		}
		div := 0
		legal := func(u user) bool {
			if u.paused || u.drag || !v.same(u.v) {
				return false
			}
			for d := 8; d >= 1; d /= 2 {
				if v.Width == u.v.Width/d && v.Height == u.v.Height/d && v.AntiAlias == (d == 1) {
					div = d
					return true
				}
			}
			return false
		}
		if m.preview != nil {
			// Requests of bakes are made in the background: this one may have
			// been started before the preview, and is outdated already.
			for _, u := range m.trail {
				if legal(u) && m.cancels > 0 {
					m.bake = &request{id: o.ID, u: u, div: div, cancelled: true}
					return ""
				}
			}
			return "bake requested during a preview"
		}
		if !m.upto(true, legal) {
			return fmt.Sprintf("bake requested of %+v, asked for: %+v (paused %v, dragging %v) then %v", v, m.u.v, m.u.paused, m.u.drag, names(m.pending))
		}
		m.nbake++
		switch {
		case div > m.lastDiv:
			return fmt.Sprintf("resolution of bakes goes down from 1/%d to 1/%d", m.lastDiv, div)
		case div < m.lastDiv/2:
			return fmt.Sprintf("resolution of bakes jumps from 1/%d to 1/%d", m.lastDiv, div)
		case m.nbake >= 4 && div != 1:
			return fmt.Sprintf("bake number %d of a view is not at full resolution", m.nbake)
		}
		m.lastDiv = div
		m.bake = &request{id: o.ID, u: m.u, div: div}
	}
	return ""
}

// step checks one action and what was observed until the program waits again.
func (m *monitor) step(a *act, os []obs) string {
	var must int
	m.trail, m.cancels = append(m.trail[:0], m.u), 0
	if a != nil {
		switch a.Op {
		case "ok", "fail", "cut", "refuse", "real":
			switch {
			case a.Path == "preview" && m.preview != nil:
				if a.Op == "ok" || a.Op == "real" {
					m.answers[m.preview.id] = answer{m.preview.u, true}
					must = m.preview.id
				} else {
					m.failed = true
				}
				m.preview = nil
			case a.Path == "bake" && m.bake != nil:
				if a.Op == "ok" || a.Op == "real" {
					m.answers[m.bake.id] = answer{m.bake.u, false}
					if !m.bake.cancelled && m.preview == nil && !m.u.drag && m.bake.u.same(m.u) {
						must = m.bake.id
					}
				}
				m.bake = nil
			default:
				return "" // nothing to be answered
			}
		case "cancelmode":
		default:
			m.pending = append(m.pending, *a)
			if a.Op == "paint" || a.Op == "size" {
				m.exposed = true
			}
		}
	}
	for _, o := range os {
		if o.Kind == "pub" {
			m.exposed = false
		}
		if s := m.see(o); s != "" {
			return s
		}
		if o.Kind == "pub" && o.Img == must {
			must = 0
		}
	}
	if must != 0 {
		return "the server's answer is not shown"
	}
	if m.preview != nil {
		if m.bake != nil && !m.bake.cancelled && !m.bake.u.same(m.preview.u) {
			return "the bake of an outdated view is not cancelled"
		}
		return "" // waiting for the server
	}
	// The program is waiting for events: everything must have been handled.
	for _, p := range m.pending {
		m.u = m.u.apply(p)
	}
	m.pending = nil
	if m.bake != nil && !m.bake.cancelled && !m.bake.u.same(m.u) {
		return "the bake of an outdated view is not cancelled"
	}
	if m.exposed {
		return "the window has not been drawn again"
	}
	if m.shown < 0 {
		return "the window shows nothing"
	}
	if m.shown == 0 {
		if !m.failed {
			return "the window shows the placeholder"
		}
	} else if !m.answers[m.shown].u.same(m.u) {
		return fmt.Sprintf("the window still shows %+v, asked for: %+v", m.answers[m.shown].u.v, m.u.v)
	}
	if m.bake == nil && !m.u.paused && !m.u.drag {
		return "the view is not being refined: no bake is running"
	}
	return ""
}

func names(as []act) string {
	var s []string
	for _, a := range as {
		s = append(s, a.Name)
	}
	return strings.Join(s, " ")
}

// ---- processes running the viewer

type child struct {
	cmd  *exec.Cmd
	in   *os.File
	out  *bufio.Reader
	raw  *os.File
	errb *tail
	n    int
}

type tail struct {
	mu sync.Mutex
	b  []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	t.b = append(t.b, p...)
	if len(t.b) > 1<<16 {
		t.b = append([]byte(nil), t.b[len(t.b)-1<<14:]...)
	}
	t.mu.Unlock()
	return len(p), nil
}

func start() *child {
	r1, w1, err := os.Pipe()
	if err != nil {
		panic(err)
	}
	r2, w2, err := os.Pipe()
	if err != nil {
		panic(err)
	}
	c := &child{cmd: exec.Command(os.Args[1], "-test.run", "TestVerif", "-test.timeout", "0"), in: w1, out: bufio.NewReader(r2), raw: r2, errb: &tail{}}
	c.cmd.ExtraFiles = []*os.File{r1, w2}
	c.cmd.Env = append(os.Environ(), "GOMAXPROCS=1")
	c.cmd.Stderr = c.errb
	c.cmd.Stdout = io.Discard
	if err := c.cmd.Start(); err != nil {
		fmt.Fprintln(os.Stderr, "cannot run the viewer:", err)
		os.Exit(2)
	}
	r1.Close()
	w2.Close()
	return c
}

func (c *child) stop() {
	c.in.Close()
	c.cmd.Process.Kill()
	c.cmd.Wait()
	c.raw.Close()
}

var (
	poolMu sync.Mutex
	pool   []*child
)

type result struct {
	Out  [][]obs
	Dead bool
	err  string
}

func run(script []act) result {
	poolMu.Lock()
	var c *child
	if n := len(pool); n > 0 {
		c, pool = pool[n-1], pool[:n-1]
	}
	poolMu.Unlock()
	if c == nil {
		c = start()
	}
	b, _ := json.Marshal(script)
	var res result
	t := time.AfterFunc(60*time.Second, func() {
		c.errb.Write([]byte("\nTIMEOUT\n"))
		c.cmd.Process.Kill()
	})
	c.in.Write(append(b, '\n'))
	l, err := c.out.ReadBytes('\n')
	t.Stop()
	if err == nil {
		err = json.Unmarshal(l, &res)
	}
	if err != nil {
		c.cmd.Wait()
		if bytes.Contains(c.errb.b, []byte("TIMEOUT")) {
			res.err = "the viewer does not come to rest"
		} else {
			e := string(c.errb.b)
			if i := strings.Index(e, "panic: "); i >= 0 {
				e = e[i:]
			}
			if len(e) > 1500 {
				e = e[:1500]
			}
			res.err = "the viewer crashed: " + e
		}
		c.stop()
		return res
	}
	if c.n++; c.n > 3000 {
		c.stop()
		return res
	}
	poolMu.Lock()
	pool = append(pool, c)
	poolMu.Unlock()
	return res
}

var (
	statesMu sync.Mutex
	states   = map[string]bool{}
	trans    int64
	traces   int64
)

// note counts the states in which the program waits.
func (m *monitor) note() {
	b := "no bake"
	if m.bake != nil {
		b = fmt.Sprint(m.bake.u.same(m.u), m.bake.cancelled, m.bake.div)
	}
	p := "idle"
	if m.preview != nil {
		p = fmt.Sprint("preview", m.preview.u.same(m.u))
	}
	a := m.answers[m.shown]
	key := fmt.Sprintf("%.6f %v %v %v|%v|%v|%v %v %v %v|%v", m.u.v.CamPos, m.u.v, m.u.paused, m.u.button, names(m.pending), b, p, m.shown, a.preview, a.u.same(m.u), m.failed)
	statesMu.Lock()
	states[key] = true
	trans++
	statesMu.Unlock()
}

// play runs a script and returns the monitor at its end.
func play(k *mc.K, script []act) *monitor {
	res := run(script)
	k.Op(len(script) + 1)
	m := newMonitor()
	if res.err != "" {
		k.Fatal("script %s: %s", names(script), res.err)
	}
	for i, os := range res.Out {
		var a *act
		if i > 0 {
			a = &script[i-1]
		}
		if s := m.step(a, os); s != "" {
			k.Fatal("script %s, at step %d: %s", names(script[:i]), i, s)
		}
		m.note()
		for _, o := range os {
			k.Saw(o.Kind, o.Path, string(o.View), o.Img)
		}
	}
	statesMu.Lock()
	traces++
	statesMu.Unlock()
	if !res.Dead {
		k.Fatal("script %s: closing the window does not end the program", names(script))
	}
	return m
}

// tree runs all scripts over the given actions up to the depth. Answers are
// only given where there is something to be answered.
func tree(r *mc.Run, name string, init []act, events, answers []act, depth int) {
	level := [][]act{init}
	for d := 0; d <= depth && len(level) > 0; d++ {
		next := make([][][]act, len(level))
		r.Space(fmt.Sprintf("%s/%d", name, d), []int{len(level)}, func(k *mc.K) {
			s := level[k.Ix[0]]
			k.Desc("%s", names(s))
			m := play(k, s)
			if d == depth {
				return
			}
			var n [][]act
			add := func(a act) { n = append(n, append(s[:len(s):len(s)], a)) }
			for _, a := range events {
				add(a)
			}
			for _, a := range answers {
				if a.Path == "preview" && m.preview != nil || a.Path == "bake" && m.bake != nil {
					add(a)
				}
			}
			next[k.Ix[0]] = n
		})
		level = nil
		for _, n := range next {
			level = append(level, n...)
		}
	}
}

var (
	right    = key("right", kRight, 0)
	up       = key("up", kUp, 0)
	pause    = key("P", kP, 0)
	normals  = key("N", kN, 0)
	isoX     = key("X", kX, 0)
	isoY     = key("Y", kY, 0)
	isoZ     = key("Z", kZ, 0)
	pressL   = act{Name: "press", Op: "mouse", Btn: bLeft, Dir: press, X: 10, Y: 10}
	pressR   = act{Name: "press-right", Op: "mouse", Btn: bRight, Dir: press, X: 10, Y: 10}
	releaseL = act{Name: "release", Op: "mouse", Btn: bLeft, Dir: release, X: 10, Y: 10}
	releaseR = act{Name: "release-right", Op: "mouse", Btn: bRight, Dir: release, X: 10, Y: 10}
	motion1  = act{Name: "to(40,110)", Op: "mouse", X: 40, Y: 110}
	motion2  = act{Name: "to(10,10)", Op: "mouse", X: 10, Y: 10}
	motion3  = act{Name: "to(-400,800)", Op: "mouse", X: -400, Y: 800}
	motion4  = act{Name: "to(0,-900)", Op: "mouse", X: 0, Y: -900}
	sizeA    = act{Name: "size(64x48)", Op: "size", W: 64, H: 48}
	sizeB    = act{Name: "size(20x17)", Op: "size", W: 20, H: 17}
	paintE   = act{Name: "paint", Op: "paint"}
	visible  = act{Name: "visible", Op: "visible"}
	pOK      = act{Name: "preview-ok", Op: "ok", Path: "preview"}
	pFail    = act{Name: "preview-fails", Op: "fail", Path: "preview"}
	pCut     = act{Name: "preview-cut-off", Op: "cut", Path: "preview"}
	pRefuse  = act{Name: "preview-refused", Op: "refuse", Path: "preview"}
	bOK      = act{Name: "bake-ok", Op: "ok", Path: "bake"}
	bFail    = act{Name: "bake-fails", Op: "fail", Path: "bake"}
	bCut     = act{Name: "bake-cut-off", Op: "cut", Path: "bake"}
	bRefuse  = act{Name: "bake-refused", Op: "refuse", Path: "bake"}
	pReal    = act{Name: "preview-served", Op: "real", Path: "preview"}
	bReal    = act{Name: "bake-served", Op: "real", Path: "bake"}
	cancelNo = act{Name: "[cancel refused]", Op: "cancelmode", Path: "refuse"}
	cancelEr = act{Name: "[cancel fails]", Op: "cancelmode", Path: "fail"}
)

func main() {
	os.Unsetenv("VERIF_CASE") // scripts are found level by level: a replay repeats the search
	mc.Main("A03", "model_checking", "the real viewer program runs all scripts of user events, window events and server answers up to the stated depth, under a virtual clock; requests, published pictures and the state in which it waits are monitored", func(r *mc.Run) {
		all := []act{
			key("left", kLeft, 0), right, up, key("down", kDown, 0), key("shift-up", kUp, shift), key("shift-down", kDown, shift), key("space", kSpace, 0),
			key("S", kS, 0), key("F", kF, 0), key("E", kE, 0), key("D", kD, 0), key("shift-E", kE, shift), key("shift-D", kD, shift),
			isoX, isoY, isoZ, normals, pause,
			{Name: "right-released", Op: "key", Code: kRight, Dir: release}, {Name: "N-released", Op: "key", Code: kN, Dir: release}, {Name: "P-released", Op: "key", Code: kP, Dir: release},
			wheel("wheel-up", wUp, 0), wheel("wheel-down", wDown, 0), wheel("wheel-left", wLeft, 0), wheel("wheel-right", wRight, 0), wheel("shift-wheel-up", wUp, shift), wheel("shift-wheel-down", wDown, shift),
			pressL, releaseL, pressR, releaseR, motion1, motion2, motion3, motion4, sizeA, sizeB, paintE, visible,
		}
		// every sequence of events, each one being answered
		dims := make([]int, 3)
		for i := range dims {
			dims[i] = len(all)
		}
		r.Space("events", dims, func(k *mc.K) {
			s := []act{motion2, pOK}
			for _, i := range k.Ix {
				s = append(s, all[i], pOK)
			}
			k.Desc("%s", names(s))
			play(k, s)
		})
		// the same, while pictures are being refined
		r.Space("refining", dims, func(k *mc.K) {
			s := []act{motion2, pOK, bOK}
			for _, i := range k.Ix {
				s = append(s, all[i], pOK, bOK)
			}
			k.Desc("%s", names(s))
			play(k, s)
		})
		// windows of all kinds of sizes, one after the other
		var ss []act
		for _, wh := range [][2]int{{64, 48}, {64, 40}, {50, 48}, {48, 64}, {65, 48}, {64, 47}, {200, 9}, {9, 120}, {8, 8}} {
			ss = append(ss, act{Name: fmt.Sprintf("size(%dx%d)", wh[0], wh[1]), Op: "size", W: wh[0], H: wh[1]})
		}
		r.Space("resizing", []int{len(ss), len(ss), len(ss), 3}, func(k *mc.K) {
			s := []act{pOK}
			for _, i := range k.Ix[:3] {
				s = append(s, ss[i], pOK)
				for j := 0; j < 3*k.Ix[3]; j++ {
					s = append(s, bOK)
				}
			}
			k.Desc("%s", names(s))
			play(k, s)
		})
		// the view stays right after many steps
		r.Space("many", []int{len(all), len(all), r.Pick(12, 40)}, func(k *mc.K) {
			s := []act{motion2, pOK}
			for i := 0; i <= k.Ix[2]; i++ {
				s = append(s, all[k.Ix[0]], all[k.Ix[1]])
			}
			s = append(s, pOK, pOK)
			k.Desc("%s", names(s))
			play(k, s)
		})
		// all orders of events and answers
		tree(r, "orders", nil, []act{right, pressL, motion1, releaseL, pause, sizeA}, []act{pOK, pFail, bOK, bFail}, r.Pick(5, 7))
		tree(r, "running", []act{pOK, bOK}, []act{normals, pressL, releaseL, pause, paintE}, []act{pOK, pRefuse, bOK, bRefuse}, r.Pick(5, 7))
		tree(r, "cut", []act{pOK}, []act{up, isoX, sizeB, pause}, []act{pOK, pCut, bOK, bCut}, r.Pick(5, 7))
		tree(r, "cancel-refused", []act{cancelNo, pOK}, []act{right, pressL, releaseL, sizeB}, []act{pOK, pFail, bOK, bFail}, r.Pick(5, 7))
		tree(r, "cancel-fails", []act{cancelEr, pOK, bOK}, []act{isoY, motion1, pressL, releaseL}, []act{pOK, pFail, bOK, bFail}, r.Pick(5, 7))
		tree(r, "buttons", []act{pOK, bOK}, []act{pressL, pressR, releaseL, releaseR, motion1}, []act{pOK, bOK}, r.Pick(5, 6))
		// long refinement, then changes
		tree(r, "refined", []act{sizeA, pOK, pOK, bOK, bOK, bOK, bOK, bOK}, []act{right, pause, pressL, releaseL, paintE}, []act{pOK, bOK, bFail}, r.Pick(5, 6))
		// together with the real server
		r.Space("served", []int{len(all), len(all), r.Pick(3, 6)}, func(k *mc.K) {
			s := []act{motion2, sizeA, pReal, pReal, all[k.Ix[0]], pReal, all[k.Ix[1]], pReal}
			for i := 0; i <= k.Ix[2]; i++ {
				s = append(s, bReal)
			}
			k.Desc("%s", names(s))
			play(k, s)
		})
		if r.Thorough() {
			r.Space("deep", []int{len(all), len(all), len(all), len(all)}, func(k *mc.K) {
				s := []act{motion2, pOK}
				for _, i := range k.Ix {
					s = append(s, all[i], pOK)
				}
				k.Desc("%s", names(s))
				play(k, s)
			})
		}
		r.Extra("states", len(states))
		r.Extra("transitions", trans)
		r.Extra("traces_validated_against_impl", traces)
		poolMu.Lock()
		for _, c := range pool {
			c.stop()
		}
		poolMu.Unlock()
	})
}
