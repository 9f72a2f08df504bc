package main

import (
	"bytes"
	"encoding/gob"
	"encoding/json"
	"fmt"
	"math"
	"net/http"
	"reflect"
	"strings"
	"sync"

	"github.com/barnex/bruteray/api"
	"github.com/barnex/bruteray/imagef"
	"github.com/barnex/bruteray/imagef/colorf"
	"github.com/barnex/bruteray/tracer"
	"github.com/barnex/bruteray/tracer/cameras"
	"github.com/barnex/bruteray/tracer/objects"
	"verif/vsched"
)

// wall is an object that is hit by every ray, and shaded with the numbers that
// drive the sampling, and the ray: every sample of every pixel is unique.
type wall struct{ m tracer.Material }

func (w *wall) Intersect(r *tracer.Ray) tracer.HitRecord {
	return tracer.HitRecord{T: 1, Normal: api.V(0.6, 0, 0.8), Material: w.m}
}
func (w *wall) Bounds() objects.BoundingBox {
	i := math.Inf(1)
	return objects.BoundingBox{Min: api.V(-i, -i, -i), Max: api.V(i, i, i)}
}
func (w *wall) Inside(api.Vec) bool { return false }

type paint struct{}

func (paint) Shade(ctx *tracer.Ctx, s *tracer.Scene, r *tracer.Ray, h tracer.HitCoords) colorf.Color {
	vsched.P(-400)
	u, v := ctx.Generate2()
	d := r.Dir.Normalized()
	return colorf.Color{R: u + 10*r.Start[0], G: v + d[0] + 3*d[1], B: d[2] + r.Start[1] + 2*r.Start[2]}
}

func spec() api.Spec {
	return api.Spec{Recursion: 1, Camera: cameras.Projective(1), Objects: []api.Object{{Interface: &wall{paint{}}}}}
}

// view numbers
func base(w, h int) api.View {
	return api.View{Width: w, Height: h, AntiAlias: true, CamPos: api.V(1, 2, 3), CamYaw: 0.3, CamPitch: 0.2, DebugIsometricFOV: 2}
}

// views of a given size: the base view, and views that differ from it in one field.
func views(w, h int) []api.View {
	l := make([]api.View, 12)
	for i := range l {
		l[i] = base(w, h)
	}
	l[1].CamPos[0] = 7
	l[2].Width = w + 1
	l[3].Height = h + 1
	l[4].AntiAlias = false
	l[5].CamPos[2] = 5
	l[6].CamYaw = 0.9
	l[7].CamPitch = -0.4
	l[8].DebugNormals = 1
	l[9].DebugIsometric = true
	l[10].DebugIsometric = true
	l[10].DebugIsometricDir = 1
	l[11].DebugIsometric = true
	l[11].DebugIsometricFOV = 3
	// all combinations of some settings
	for c := 0; c < 2*2*3*4*2; c++ {
		v := base(w, h)
		x := c
		if x%2 == 1 {
			v.CamPos[1] += 1e-9
			v.CamPos[0] = 7
		}
		x /= 2
		v.AntiAlias = x%2 == 0
		x /= 2
		v.DebugNormals = x % 3
		x /= 3
		if x%4 > 0 {
			v.DebugIsometric = true
			v.DebugIsometricFOV = []float64{0, 0.5, 2, 2}[x%4]
			v.DebugIsometricDir = []int{0, 0, 1, 2}[x%4]
		}
		x /= 4
		if x > 0 {
			v.CamYaw += 1e-7
			v.CamPitch = -0.1
		}
		if !listed(l, v) {
			l = append(l, v)
		}
	}
	return l
}

func listed(l []api.View, v api.View) bool {
	for _, x := range l {
		if reflect.DeepEqual(x, v) {
			return true
		}
	}
	return false
}

const oneField = 12 // the number of views that differ from the base view in one field

// what a request is.
const (
	bake = iota
	preview
	cancel
	badBake
	badPreview
	badView // asks for an image that cannot be
)

var malformed = []string{`{"Width": "x"`, `[1,2`, ``, `{`, `{"Width":2,"Height":1,"AntiAlias":true`, `view`, `{"Width":1.5,"Height":1}`, `{"Width":2,"Height":1,"CamPos":[1,2,3`, `"abc"`, `{"Width":2,"Height":1,"AntiAlias":1}`}

type request struct {
	kind int
	view int
}

func (q request) String() string {
	switch q.kind {
	case bake:
		return fmt.Sprintf("bake(%d)", q.view)
	case preview:
		return fmt.Sprintf("preview(%d)", q.view)
	case cancel:
		return "cancel"
	case badBake:
		return fmt.Sprintf("bake(malformed %d)", q.view)
	case badView:
		return fmt.Sprintf("impossible view %d", q.view)
	}
	return fmt.Sprintf("preview(malformed %d)", q.view)
}

type record struct {
	request
	from, to int // invocation and response
	code     int
	img      imagef.Image
	panicked string
}

// response is a plain http.ResponseWriter.
type response struct {
	h    http.Header
	code int
	b    bytes.Buffer
}

func (r *response) Header() http.Header { return r.h }
func (r *response) WriteHeader(c int) {
	if r.code == 0 {
		r.code = c
	}
}
func (r *response) Write(b []byte) (int, error) { r.WriteHeader(200); return r.b.Write(b) }

type closer struct{ *strings.Reader }

func (closer) Close() error { return nil }

type world struct {
	h     http.Handler
	views []api.View
	body  []string
	want  func(view, n int) imagef.Image
}

// lean writes a view without the fields that are zero.
func lean(v api.View) string {
	var m map[string]interface{}
	if err := json.Unmarshal([]byte(toJSON(v)), &m); err != nil {
		panic(err)
	}
	for k, x := range m {
		if x == nil || reflect.ValueOf(x).IsZero() {
			delete(m, k)
		}
	}
	b, _ := json.Marshal(m)
	return string(b)
}

func newWorld(w, h int) *world {
	x := &world{views: views(w, h)}
	for _, v := range x.views {
		b, _ := json.Marshal(v)
		x.body = append(x.body, string(b))
	}
	x.want = expect(x.views)
	x.reset()
	return x
}

// reset makes a fresh server.
func (x *world) reset() {
	x.h = nil
	capture(func(h http.Handler) { x.h = h })
	err := api.Serve("127.0.0.1:0", spec())
	uncapture()
	if x.h == nil {
		panic(fmt.Sprint("no handler: ", err))
	}
}

// expect computes the image of a view after n passes, with a fresh sampler.
func expect(views []api.View) func(view, n int) imagef.Image {
	memo := map[[2]int]imagef.Image{}
	var mu sync.Mutex
	return func(view, n int) imagef.Image {
		mu.Lock()
		defer mu.Unlock()
		k := [2]int{view, n}
		if memo[k] == nil {
			v := views[view]
			s := v.ApplyTo(spec())
			memo[k] = tracer.Uniform(s.ImageFunc(), n, v.Width, v.Height, v.AntiAlias)
		}
		return memo[k]
	}
}

// do performs one request.
func (x *world) do(q request) (r *record) {
	r = &record{request: q}
	path, body := "/bake", ""
	switch q.kind {
	case bake:
		body = x.body[q.view]
	case preview:
		path, body = "/preview", x.body[q.view]
	case cancel:
		path = "/cancel"
	case badBake:
		body = malformed[q.view]
	case badPreview:
		path, body = "/preview", malformed[(q.view+1)%len(malformed)]
	case badView:
		if q.view%2 == 1 {
			path = "/preview"
		}
		v := base(2, 1)
		switch q.view / 2 {
		case 0:
			v.DebugIsometric, v.DebugIsometricDir = true, 5
		case 1:
			v.Width = -3
		case 2:
			v.Height = -1
		case 3:
			v.DebugIsometric, v.DebugIsometricDir = true, -1
		}
		body = toJSON(v)
	}
	method := "POST"
	if q.kind == cancel {
		method = "GET"
	}
	hr, err := http.NewRequest(method, "http://x"+path, closer{strings.NewReader(body)})
	if err != nil {
		panic(err)
	}
	w := &response{h: http.Header{}}
	r.from = vsched.Stamp()
	func() {
		defer func() {
			if e := recover(); e != nil {
				r.panicked = fmt.Sprint(e)
			}
		}()
		x.h.ServeHTTP(w, hr)
	}()
	r.to = vsched.Stamp()
	r.decode(w.code, w.b.Bytes())
	return r
}

func (r *record) decode(code int, b []byte) {
	r.code = code
	if code == 0 {
		r.code = 200
	}
	if r.code == 200 && (r.kind == bake || r.kind == preview) {
		var img imagef.Image
		if err := gob.NewDecoder(bytes.NewReader(b)).Decode(&img); err != nil {
			r.code = 599
			return
		}
		r.img = img
	}
}

func equal(a, b imagef.Image) bool {
	if len(a) != len(b) {
		return false
	}
	for y := range a {
		if len(a[y]) != len(b[y]) {
			return false
		}
		for x := range a[y] {
			p, q := a[y][x], b[y][x]
			if !close9(p.R, q.R) || !close9(p.G, q.G) || !close9(p.B, q.B) {
				return false
			}
		}
	}
	return true
}

func close9(a, b float64) bool { return math.Abs(a-b) <= 1e-7*(1+math.Abs(b)) }

// model is the abstract server.
type model struct {
	baking    int // index of the bake in progress, or -1
	has       bool
	view      int
	total     int   // passes in the image
	next      int   // passes of the next bake
	accepted  []int // per record: passes its image has (0: not accepted)
	cancelled []bool
}

// linearize tells whether there is an order of the atomic events that explains
// all responses.
func linearize(l []*record, want func(view, n int) imagef.Image) string {
	n := len(l)
	for i, r := range l {
		if r.panicked != "" && r.kind != badView { // (net/http turns a panic into a failed request)
			return fmt.Sprintf("request %v panicked: %v", r.request, r.panicked)
		}
		switch r.kind {
		case preview:
			if r.code != 200 || !equal(r.img, want(r.view, 1)) {
				return fmt.Sprintf("request %d, %v: response %d %v, not one pass of the view", i, r.request, r.code, r.img)
			}
		case badBake, badPreview, badView:
			if r.code < 400 && r.panicked == "" {
				return fmt.Sprintf("request %d, %v: response %d, not an error", i, r.request, r.code)
			}
		case cancel:
			if r.code != 200 {
				return fmt.Sprintf("request %d, %v: response %d", i, r.request, r.code)
			}
		}
	}
	// progress: 0 nothing, 1 started, 2 done
	prog := make([]int, n)
	for i, r := range l {
		if r.kind != bake && r.kind != cancel {
			prog[i] = 2
		}
	}
	m := model{baking: -1, accepted: make([]int, n), cancelled: make([]bool, n)}
	ready := func(i int) bool { // all that responded before i was invoked are done
		for j, r := range l {
			if r.to < l[i].from && prog[j] != 2 {
				return false
			}
		}
		return true
	}
	var search func() bool
	search = func() bool {
		all := true
		for i, r := range l {
			if prog[i] == 2 {
				continue
			}
			all = false
			if !ready(i) {
				continue
			}
			saved := m
			acc, can := m.accepted[i], append([]bool(nil), m.cancelled...)
			p := prog[i]
			ok := true
			switch {
			case r.kind == cancel:
				if m.baking >= 0 {
					m.cancelled[m.baking] = true
					m.baking = -1
					m.has = false
				}
				prog[i] = 2
			case prog[i] == 0 && m.baking >= 0:
				ok = r.code >= 400 // refused
				prog[i] = 2
			case prog[i] == 0:
				if !m.has || m.view != r.view {
					m.has, m.view, m.total, m.next = true, r.view, 0, 1
				}
				m.accepted[i] = m.total + m.next
				m.baking = i
				prog[i] = 1
			default: // end
				if m.cancelled[i] {
					ok = r.code >= 400 || r.code == 200 && equal(r.img, want(r.view, m.accepted[i]))
				} else {
					ok = r.code == 200 && equal(r.img, want(r.view, m.accepted[i]))
					m.total += m.next
					m.next++
					m.baking = -1
				}
				prog[i] = 2
			}
			if ok && search() {
				return true
			}
			accs := m.accepted
			m = saved
			m.accepted = accs
			m.accepted[i] = acc
			copy(m.cancelled, can)
			prog[i] = p
		}
		return all
	}
	if search() {
		return ""
	}
	return "no order of the requests explains the responses: " + history(l, want)
}

func history(l []*record, want func(view, n int) imagef.Image) string {
	var b strings.Builder
	for _, r := range l {
		fmt.Fprintf(&b, "%v [%d..%d] -> %d", r.request, r.from, r.to, r.code)
		if r.img != nil {
			b.WriteString(" image of")
			found := false
			for n := 1; n <= 21; n++ {
				if equal(r.img, want(r.view, n)) {
					fmt.Fprintf(&b, " %d passes", n)
					found = true
					break
				}
			}
			if !found {
				b.WriteString(" no number of passes")
			}
		}
		b.WriteString("; ")
	}
	return b.String()
}

func toJSON(v api.View) string {
	b, _ := json.Marshal(v)
	return string(b)
}
