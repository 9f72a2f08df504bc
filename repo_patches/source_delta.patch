From 4087892ee41dc5060688b050ad744d8542041030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:58 +0000
Subject: [PATCH 01/27] fix: PixelSize is the width of a pixel in camera
 coordinates, also for landscape images

---
 tracer/sampler.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/tracer/sampler.go b/tracer/sampler.go
index da0c020..88c4404 100644
--- a/tracer/sampler.go
+++ b/tracer/sampler.go
@@ -156,11 +156,10 @@ func (s *Sampler) imageSize() (w, h int) {
 	return s.sum.Size()
 }
 
-// ??
+// PixelSize returns the size of a pixel in the (u,v) coordinates of IndexToCam:
+// u spans the interval [0,1] over the image width, and pixels are square.
 func PixelSize(w, h int) float64 {
-	wf, hf := float64(w), float64(h)
-	minf := math.Min(wf, hf)
-	return 1 / minf
+	return 1 / float64(w)
 }
 
 func makeInt2D(w, h int) [][]int {
-- 
2.43.0


From 02e8c51f89db49cc834368eb84b738e7030d7ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:58 +0000
Subject: [PATCH 02/27] fix: initialize the anti-alias sequence, so that
 samples spread over the pixel

---
 tracer/ctx.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tracer/ctx.go b/tracer/ctx.go
index f932c68..c8f5a56 100644
--- a/tracer/ctx.go
+++ b/tracer/ctx.go
@@ -69,6 +69,7 @@ func (c *Ctx) Init(pixel, pass int) {
 	c.sequence2.Init(pixel, pass)
 	c.sequence3.Init(pixel, pass)
 	c.sequenceL.Init(pixel, pass)
+	c.AA.Init(pixel, pass)
 }
 
 func (c *Ctx) Generate2() (u, v float64) {
-- 
2.43.0


From f471d0a06efd615e4d4922a24c4e6087584f4082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:58 +0000
Subject: [PATCH 03/27] fix: StdDev of (nearly) constant samples must not be
 NaN due to round-off

---
 tracer/sampler.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tracer/sampler.go b/tracer/sampler.go
index 88c4404..e8807b1 100644
--- a/tracer/sampler.go
+++ b/tracer/sampler.go
@@ -201,9 +201,9 @@ func (s *Sampler) imagef(ix, iy int) Color {
 
 func (s *Sampler) stddevf(ix, iy int) Color {
 	v := s.variancef(ix, iy)
-	v.R = math.Sqrt(v.R)
-	v.G = math.Sqrt(v.G)
-	v.B = math.Sqrt(v.B)
+	v.R = math.Sqrt(util.Re(v.R)) // round-off may make the variance slightly negative
+	v.G = math.Sqrt(util.Re(v.G))
+	v.B = math.Sqrt(util.Re(v.B))
 	return v
 }
 
-- 
2.43.0


From de67211dd51473df2bfcbf7563c4a7e4bfbde322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:11 +0000
Subject: [PATCH 04/27] fix: a tree leaf without hit must not return a phantom
 hit at 9e99

---
 tracer/objects/tree.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tracer/objects/tree.go b/tracer/objects/tree.go
index f4aef4f..1876b34 100644
--- a/tracer/objects/tree.go
+++ b/tracer/objects/tree.go
@@ -94,6 +94,9 @@ func (n *node) Intersect(r *Ray) HitRecord {
 				front = frag
 			}
 		}
+		if front.T == 9e99 {
+			front.T = 0 // no hit
+		}
 		return front
 	}
 
-- 
2.43.0


From f01e67ee7367c2ff33036479d234c1772a25aff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:11 +0000
Subject: [PATCH 05/27] fix: an empty tree has no hits, rather than a panic

---
 tracer/objects/tree.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tracer/objects/tree.go b/tracer/objects/tree.go
index 1876b34..6c26bf4 100644
--- a/tracer/objects/tree.go
+++ b/tracer/objects/tree.go
@@ -168,6 +168,9 @@ func intersectAABB(s *BoundingBox, r *Ray) float64 {
 // that countains all points in hull.
 // TODO: do not use intermediate memory
 func makeBoundingBox(children []Interface) BoundingBox {
+	if len(children) == 0 {
+		return BoundingBox{}
+	}
 	var hull []Vec
 	for _, c := range children {
 		cbb := c.Bounds()
-- 
2.43.0


From 0a2a82c3f0d00ff7a548dfe3ccf63dab66ddd19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:11 +0000
Subject: [PATCH 06/27] fix: round the float32 boxes of a tree outwards, so
 that they still enclose the objects

---
 tracer/objects/tree.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/tracer/objects/tree.go b/tracer/objects/tree.go
index 6c26bf4..0f191c2 100644
--- a/tracer/objects/tree.go
+++ b/tracer/objects/tree.go
@@ -1,6 +1,7 @@
 package objects
 
 import (
+	"math"
 	"sort"
 
 	"github.com/barnex/bruteray/geom"
@@ -188,10 +189,20 @@ type boundingBoxf struct {
 }
 
 func boundingBoxToF(b BoundingBox) boundingBoxf {
-	return boundingBoxf{
+	f := boundingBoxf{
 		Min: vecf(&b.Min),
 		Max: vecf(&b.Max),
 	}
+	// Round outwards, so that the float32 box still encloses b.
+	for i := range f.Min {
+		if float64(f.Min[i]) > b.Min[i] {
+			f.Min[i] = math.Nextafter32(f.Min[i], float32(-inf))
+		}
+		if float64(f.Max[i]) < b.Max[i] {
+			f.Max[i] = math.Nextafter32(f.Max[i], float32(inf))
+		}
+	}
+	return f
 }
 
 func (b *boundingBoxf) to64() BoundingBox {
-- 
2.43.0


From 2858e858adcd325c58e0cc5ea1647f64c39853bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:11 +0000
Subject: [PATCH 07/27] fix: transforming an object with infinite bounds must
 not panic

---
 tracer/objects/transformed.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tracer/objects/transformed.go b/tracer/objects/transformed.go
index 0392af8..4ad175f 100644
--- a/tracer/objects/transformed.go
+++ b/tracer/objects/transformed.go
@@ -3,6 +3,7 @@ package objects
 import (
 	"github.com/barnex/bruteray/geom"
 	. "github.com/barnex/bruteray/tracer/types"
+	"github.com/barnex/bruteray/util"
 )
 
 // Transformed returns a transformed instance of the original object.
@@ -63,6 +64,9 @@ func (o *transformed) Inside(p Vec) bool {
 }
 
 func transformBounds(orig BoundingBox, t *geom.AffineTransform) BoundingBox {
+	if util.IsBadVec(orig.Min) || util.IsBadVec(orig.Max) {
+		return infBox // unbounded, and multiplying infinity by the matrix would yield NaN
+	}
 	h := orig.hull()
 	for i := range h {
 		h[i] = t.TransformPoint(h[i])
-- 
2.43.0


From 02059f88f0799c7b60dd8a998bf8139cc0bdeec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:11 +0000
Subject: [PATCH 08/27] fix: box normal must not panic due to round-off on
 large coordinates

---
 tracer/objects/box.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/tracer/objects/box.go b/tracer/objects/box.go
index cb908c3..66df0e3 100644
--- a/tracer/objects/box.go
+++ b/tracer/objects/box.go
@@ -1,7 +1,6 @@
 package objects
 
 import (
-	"fmt"
 	"math"
 
 	. "github.com/barnex/bruteray/tracer/types"
@@ -62,7 +61,19 @@ func (b *box) normal(p Vec) Vec {
 			return unit[i]
 		}
 	}
-	panic(fmt.Sprint("box.normal", p, s.Min, s.Max))
+
+	// Round-off error on p exceeds approx's tolerance (large or far-away box):
+	// use the nearest face.
+	n, min := Vec{}, inf
+	for i := range p {
+		if d := math.Abs(p[i] - s.Min[i]); d < min {
+			n, min = unit[i].Mul(-1), d
+		}
+		if d := math.Abs(p[i] - s.Max[i]); d < min {
+			n, min = unit[i], d
+		}
+	}
+	return n
 }
 
 func approx(a, b float64) bool {
-- 
2.43.0


From 3cb6c346e2d31e872e29f68b789af6ddde6826f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:11 +0000
Subject: [PATCH 09/27] fix: shadow rays continue behind an object's
 transparent surface

---
 tracer/scene.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/tracer/scene.go b/tracer/scene.go
index 674eb8a..15ae9b0 100644
--- a/tracer/scene.go
+++ b/tracer/scene.go
@@ -118,15 +118,23 @@ func (s *Scene) ObjectsAndLights() []Object {
 }
 
 func (s *Scene) Occlude(r *Ray, len float64, orig Color) Color {
+	start := r.Start
 	for _, o := range s.objects { // range over objects only, lights are considered transparent
+		tOff := 0.0
 		f := o.Intersect(r)
-		if f.T > 0 && f.T < len {
-			if trans, ok := f.Material.(TransparentMaterial); ok {
-				orig = trans.Filter(r, f, orig)
-			} else {
+		for ttl := 100; ttl != 0 && f.T > 0 && tOff+f.T < len; ttl-- {
+			trans, ok := f.Material.(TransparentMaterial)
+			if !ok {
+				r.Start = start
 				return Color{}
 			}
+			orig = trans.Filter(r, f, orig)
+			// march on: more of this object may lie behind its transparent surface
+			tOff += f.T + Tiny
+			r.Start = r.At(f.T + Tiny)
+			f = o.Intersect(r)
 		}
+		r.Start = start
 	}
 	return orig
 }
-- 
2.43.0


From e9526a83e3735b65abab77cafcc88bf0f2c74cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:11 +0000
Subject: [PATCH 10/27] fix: accept PLY files without newline at end of file

---
 tracer/objects/ply/parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tracer/objects/ply/parser.go b/tracer/objects/ply/parser.go
index f3a9d0f..b2995dd 100644
--- a/tracer/objects/ply/parser.go
+++ b/tracer/objects/ply/parser.go
@@ -97,6 +97,9 @@ type parser struct {
 
 func (p *parser) readLine() string {
 	line, err := p.b.ReadString('\n')
+	if err == io.EOF && line != "" {
+		err = nil // last line is not newline-terminated
+	}
 	p.check(err)
 	p.lastLine = line
 	return strings.TrimSpace(line)
-- 
2.43.0


From 39c4a8545e85249f5356823b158da07f14ee69f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:11 +0000
Subject: [PATCH 11/27] fix: accept OBJ comments without space after the #

---
 tracer/objects/obj/parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tracer/objects/obj/parser.go b/tracer/objects/obj/parser.go
index a86093d..f60b224 100644
--- a/tracer/objects/obj/parser.go
+++ b/tracer/objects/obj/parser.go
@@ -54,6 +54,10 @@ func (p *parser) parseLine(l string) {
 		return
 	}
 
+	if strings.HasPrefix(fields[0], "#") {
+		return
+	}
+
 	command, args := fields[0], fields[1:]
 	switch command {
 	default:
-- 
2.43.0


From f41a4358296a5872daa742613eba415176661f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:11 +0000
Subject: [PATCH 12/27] fix: focus a finite-aperture camera at focusDist

---
 tracer/cameras/projective.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tracer/cameras/projective.go b/tracer/cameras/projective.go
index 453ec86..100d450 100644
--- a/tracer/cameras/projective.go
+++ b/tracer/cameras/projective.go
@@ -78,7 +78,7 @@ func (c *projective) RayFrom(ctx *Ctx, u, v float64) *Ray {
 		c.focalLen,
 	}
 	if c.focusDist != 0 {
-		end = end.Mul(c.focusDist)
+		end = end.Mul(c.focusDist / c.focalLen) // the point on the focal plane, at distance focusDist
 	}
 	r.Dir = end.Sub(r.Start).Normalized()
 	return r
-- 
2.43.0


From 5cce7e66d4224d0d9337d28aa4379a06d22f0328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:11 +0000
Subject: [PATCH 13/27] fix: apply fog to exactly horizontal rays

---
 tracer/media/expfog.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tracer/media/expfog.go b/tracer/media/expfog.go
index 6b84033..dcf326d 100644
--- a/tracer/media/expfog.go
+++ b/tracer/media/expfog.go
@@ -49,6 +49,12 @@ func intersectIntervals(start1, end1, start2, end2 float64) (start, end float64)
 func intersectHalfSpace(height float64, r *Ray) (ten, tex float64) {
 	rs := r.Start[1] - height
 	rd := r.Dir[1]
+	if rd == 0 { // horizontal ray: entirely below or above
+		if rs < 0 {
+			return math.Inf(-1), math.Inf(1)
+		}
+		return 0, 0
+	}
 	ten = -rs / rd
 	tex = -r.Dir[1] / 0 // inf with same same as
 	if ten > tex {
-- 
2.43.0


From a3e7f0d54231f7526c164f012f3d1141044a04e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:11 +0000
Subject: [PATCH 14/27] fix: fisheye mapping of horizontal directions must not
 be NaN due to round-off

---
 texture/uvmapper.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/texture/uvmapper.go b/texture/uvmapper.go
index f3ad224..78ecabe 100644
--- a/texture/uvmapper.go
+++ b/texture/uvmapper.go
@@ -25,7 +25,7 @@ func MapFisheye(t Texture) Texture {
 	return &mapped{t, func(dir Vec) (u, v float64) {
 		dir = dir.Normalized()
 		r := math.Sqrt(dir[Z]*dir[Z] + dir[X]*dir[X])
-		r = math.Asin(r) / (math.Pi / 2)
+		r = math.Asin(math.Min(r, 1)) / (math.Pi / 2)
 		//dir = dir.Mul(r)
 		th := math.Atan2(dir[Z], dir[X])
 		x := r * math.Cos(th)
-- 
2.43.0


From e2478339329f68c462a0531d863fe9d3a0762ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:11 +0000
Subject: [PATCH 15/27] fix: an empty bloom kernel adds nothing, rather than
 NaN

---
 imagef/post/convolution.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/imagef/post/convolution.go b/imagef/post/convolution.go
index 2d617cb..b5193c8 100644
--- a/imagef/post/convolution.go
+++ b/imagef/post/convolution.go
@@ -23,6 +23,9 @@ func AddConvolution(dst, src, kern imagef.Image, amplitude, offset float64) imag
 			sum += (c.R + c.G + c.B) / 3
 		}
 	}
+	if sum == 0 {
+		return dst // empty kernel, e.g. star bloom smaller than a few pixels
+	}
 	k := kern.Copy()
 	factor := amplitude / sum
 	for iy := range k {
-- 
2.43.0


From ff5238612c933076a727500b522fe763704b3be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:11 +0000
Subject: [PATCH 16/27] fix: Encode48BE reports write errors

---
 imagef/ppm/ppm.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/imagef/ppm/ppm.go b/imagef/ppm/ppm.go
index 34b3304..79e7671 100644
--- a/imagef/ppm/ppm.go
+++ b/imagef/ppm/ppm.go
@@ -41,11 +41,17 @@ func Encode48BE(w io.Writer, img imagef.Image) error {
 		for j := range img[i] {
 			c := img[i][j]
 			encodeUint16BE(buf, uint16(trunc(c.R)))
-			w.Write(buf)
+			if _, err := w.Write(buf); err != nil {
+				return err
+			}
 			encodeUint16BE(buf, uint16(trunc(c.G)))
-			w.Write(buf)
+			if _, err := w.Write(buf); err != nil {
+				return err
+			}
 			encodeUint16BE(buf, uint16(trunc(c.B)))
-			w.Write(buf)
+			if _, err := w.Write(buf); err != nil {
+				return err
+			}
 		}
 	}
 	return nil
-- 
2.43.0


From 53b835d0cab36419ba2e1731390e6c0f7dec089a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:11 +0000
Subject: [PATCH 17/27] fix: report errors writing the last part of the PPM
 file

---
 api/render.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/api/render.go b/api/render.go
index f24ccb9..63d5321 100644
--- a/api/render.go
+++ b/api/render.go
@@ -131,6 +131,8 @@ func savePPM(fname string, img imagef.Image) error {
 	}
 	defer f.Close()
 	w := bufio.NewWriter(f)
-	defer w.Flush()
-	return ppm.EncodeAscii16(w, img)
+	if err := ppm.EncodeAscii16(w, img); err != nil {
+		return err
+	}
+	return w.Flush()
 }
-- 
2.43.0


From 4360c1158f684e7b2bbc5b264237265cf47a13ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:11 +0000
Subject: [PATCH 18/27] fix: bakes that are canceled or fail to start do not
 disturb later bakes

---
 api/server.go | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/api/server.go b/api/server.go
index 8a48748..6dc5b0a 100644
--- a/api/server.go
+++ b/api/server.go
@@ -95,19 +95,21 @@ func (s *server) renderPreview(v View) imagef.Image {
 }
 
 func (s *server) renderView(v View) (imagef.Image, error) {
-	cancel, err := s.prepareBakery(v)
+	smplr, num, cancel, err := s.prepareBakery(v)
 	if err != nil {
 		return nil, err
 	}
-	defer func() { // wrong
+	defer func() {
 		s.mu.Lock()
 		defer s.mu.Unlock()
-		s.cancel = nil
-		s.smplrNum++
+		if s.cancel == cancel { // else we were canceled, and must not touch a later bake's state
+			s.cancel = nil
+			s.smplrNum++
+		}
 	}()
 
-	s.smplr.SampleWithCancel(s.smplrNum, cancel)
-	img := s.smplr.Image()
+	smplr.SampleWithCancel(num, cancel)
+	img := smplr.Image()
 
 	if img == nil {
 		return nil, errors.New("baking cancelled")
@@ -115,14 +117,13 @@ func (s *server) renderView(v View) (imagef.Image, error) {
 	return img, nil
 }
 
-func (s *server) prepareBakery(v View) (chan struct{}, error) {
+func (s *server) prepareBakery(v View) (*tracer.Sampler, int, chan struct{}, error) {
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
 	if s.cancel != nil {
-		return nil, errors.New("already baking")
+		return nil, 0, nil, errors.New("already baking")
 	}
-	s.cancel = make(chan struct{})
 
 	if s.smplr == nil || s.smplrView != v {
 		spec := v.ApplyTo(s.spec)
@@ -131,7 +132,8 @@ func (s *server) prepareBakery(v View) (chan struct{}, error) {
 		s.smplrNum = 1
 	}
 
-	return s.cancel, nil
+	s.cancel = make(chan struct{}) // only now that nothing can fail anymore
+	return s.smplr, s.smplrNum, s.cancel, nil
 }
 
 func (s *server) handleCancel(w http.ResponseWriter, r *http.Request) error {
@@ -142,6 +144,7 @@ func (s *server) handleCancel(w http.ResponseWriter, r *http.Request) error {
 	}
 	close(s.cancel)
 	s.cancel = nil
+	s.smplr = nil // still in use by the canceled bake, a next bake needs its own
 	return nil
 }
 
-- 
2.43.0


From 0b92b636b341fa4433f7010fef647fd08db8a358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:19 +0000
Subject: [PATCH 19/27] fix: IsoSurface normals for surfaces with size other
 than 1

The height's partial derivatives with respect to (u,v) were taken for the slopes along (x,z).
---
 tracer/objects/isosurface.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tracer/objects/isosurface.go b/tracer/objects/isosurface.go
index cddcc05..f883e13 100644
--- a/tracer/objects/isosurface.go
+++ b/tracer/objects/isosurface.go
@@ -103,7 +103,7 @@ func (f *isoSurface) partialAtUV(uv Vec2) Vec2 {
 // TODO: precompute and store
 func (f *isoSurface) normalAtUV(uv Vec2) Vec {
 	diff := f.partialAtUV(uv)
-	return Vec{-diff[0], 1, -diff[1]}
+	return Vec{-diff[0] / f.bounds.Max[X], 1, -diff[1] / f.bounds.Max[Z]}
 }
 
 func (o *isoSurface) localUV(p Vec) Vec2 {
-- 
2.43.0


From 3673f8dcdcec3508c926ee2bf9083f5204d7b065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:54 +0000
Subject: [PATCH 20/27] fix: a ray starting exactly on the face of a bounding
 box must not miss the enclosed object

---
 tracer/objects/boundingbox.go | 2 +-
 tracer/objects/tree.go        | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/tracer/objects/boundingbox.go b/tracer/objects/boundingbox.go
index 521a14b..3b115db 100644
--- a/tracer/objects/boundingbox.go
+++ b/tracer/objects/boundingbox.go
@@ -138,7 +138,7 @@ func (s *BoundingBox) intersect(r *Ray) float64 {
 }
 
 func (s *BoundingBox) intersects(r *Ray) bool {
-	return s.intersect(r) > 0
+	return intersectAABB(s, r) > 0
 }
 
 func max3(x, y, z float64) float64 {
diff --git a/tracer/objects/tree.go b/tracer/objects/tree.go
index 0f191c2..cdeb640 100644
--- a/tracer/objects/tree.go
+++ b/tracer/objects/tree.go
@@ -159,7 +159,7 @@ func intersectAABB(s *BoundingBox, r *Ray) float64 {
 	if ten > tex {
 		return 0
 	}
-	if ten < 0 {
+	if ten <= 0 {
 		return tex
 	}
 	return ten
@@ -263,7 +263,7 @@ func intersectAABBf(s *boundingBoxf, r *Ray) float64 {
 	if ten > tex {
 		return 0
 	}
-	if ten < 0 {
+	if ten <= 0 {
 		return tex
 	}
 	return ten
-- 
2.43.0


From 8a421fd61c9340fd0dd05ce93c268a986b380d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:19 +0000
Subject: [PATCH 21/27] fix: axis-aligned rays must not slip through a mesh
 between two tree nodes

A ray running exactly along the face of a node's box (0*inf = NaN) missed the node.
---
 tracer/objects/tree.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/tracer/objects/tree.go b/tracer/objects/tree.go
index cdeb640..9998d86 100644
--- a/tracer/objects/tree.go
+++ b/tracer/objects/tree.go
@@ -51,8 +51,13 @@ func buildTree(ch []Interface) node {
 	N := len(ch)
 	left := ch[:N/2]
 	right := ch[N/2:]
+	children := &[2]node{buildTree(left), buildTree(right)}
+	for i := range children {
+		// so that rays along the border between two nodes do not slip through
+		children[i].boundingBox.grow()
+	}
 	return node{
-		children:    &[2]node{buildTree(left), buildTree(right)},
+		children:    children,
 		boundingBox: boundingBoxToF(bb),
 	}
 }
@@ -205,6 +210,15 @@ func boundingBoxToF(b BoundingBox) boundingBoxf {
 	return f
 }
 
+// grow moves all faces outwards by the smallest possible amount,
+// so that rays exactly along a face of the original box intersect the grown box.
+func (b *boundingBoxf) grow() {
+	for i := range b.Min {
+		b.Min[i] = math.Nextafter32(b.Min[i], float32(-inf))
+		b.Max[i] = math.Nextafter32(b.Max[i], float32(inf))
+	}
+}
+
 func (b *boundingBoxf) to64() BoundingBox {
 	return BoundingBox{
 		Min: toVecf(b.Min),
-- 
2.43.0


From d9b551c836fbfa96f90af9e565327072e63a1665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:48 +0000
Subject: [PATCH 22/27] fix: bruteray-watch crashed when the compiled program
 could not be started

---
 cmd/bruteray-watch/main.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/bruteray-watch/main.go b/cmd/bruteray-watch/main.go
index 9c15d27..64029f0 100644
--- a/cmd/bruteray-watch/main.go
+++ b/cmd/bruteray-watch/main.go
@@ -62,6 +62,7 @@ func rerun(fname string, args []string) {
 
 	if err := cmd.Start(); err != nil {
 		fmt.Fprintln(os.Stderr, err)
+		return
 	}
 	out, err := exec.Command("renice", "20", fmt.Sprint(cmd.Process.Pid)).CombinedOutput()
 	if err != nil {
-- 
2.43.0


From 37a525a6c1d19e24ae2c1ad321bb1261a333b43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:31 +0000
Subject: [PATCH 23/27] fix: Tree must not reorder or keep the slice of its
 caller

---
 tracer/objects/tree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tracer/objects/tree.go b/tracer/objects/tree.go
index 9998d86..ce00003 100644
--- a/tracer/objects/tree.go
+++ b/tracer/objects/tree.go
@@ -15,7 +15,7 @@ const maxFacePerLeaf = 7
 // which as an efficient Intersect method.
 func Tree(objects ...Interface) Interface {
 	return &tree{
-		root: buildTree(objects),
+		root: buildTree(append([]Interface(nil), objects...)), // sorts, and keeps parts of, its argument
 	}
 }
 
-- 
2.43.0


From 986f43541c884242e53333fdffe2148834c5d925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:31 +0000
Subject: [PATCH 24/27] fix: fog of density 0 made everything that extends to
 infinity black (0*Inf)

---
 tracer/media/expfog.go | 3 +++
 tracer/media/fog.go    | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/tracer/media/expfog.go b/tracer/media/expfog.go
index dcf326d..edb3bd6 100644
--- a/tracer/media/expfog.go
+++ b/tracer/media/expfog.go
@@ -29,6 +29,9 @@ func (m *expFog) Filter(ctx *Ctx, s *Scene, r *Ray, tMax float64, orig Color) Co
 	if !ctx.IsInitial() {
 		return orig
 	}
+	if m.density == 0 {
+		return orig // no fog at all, not even infinitely far
+	}
 	ten, tex := intersectHalfSpace(m.height, r)
 	start, end := intersectIntervals(0, tMax, ten, tex)
 	len := end - start
diff --git a/tracer/media/fog.go b/tracer/media/fog.go
index 825d2c5..396532f 100644
--- a/tracer/media/fog.go
+++ b/tracer/media/fog.go
@@ -25,6 +25,9 @@ func (m *fog) Filter(ctx *Ctx, s *Scene, r *Ray, tMax float64, orig Color) Color
 	if !ctx.IsInitial() {
 		return orig
 	}
+	if m.density == 0 {
+		return orig // no fog at all, not even infinitely far
+	}
 	ten, tex := intersectHalfSpace(m.height, r)
 	start, end := intersectIntervals(0, tMax, ten, tex)
 
-- 
2.43.0


From 7fda938f3a7ea711961c3c7796b50e1f7173bb70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:01 +0000
Subject: [PATCH 25/27] fix: lights.Transformed panicked on a point light

---
 tracer/lights/pointlight.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/tracer/lights/pointlight.go b/tracer/lights/pointlight.go
index ad28b1d..6a024f6 100644
--- a/tracer/lights/pointlight.go
+++ b/tracer/lights/pointlight.go
@@ -1,6 +1,7 @@
 package lights
 
 import (
+	"github.com/barnex/bruteray/tracer/objects"
 	. "github.com/barnex/bruteray/tracer/types"
 )
 
@@ -24,3 +25,11 @@ func (l *point) Object() Object {
 func (*point) Intersect(*Ray) HitRecord {
 	return HitRecord{}
 }
+
+func (l *point) Bounds() objects.BoundingBox {
+	return objects.BoundingBox{Min: l.pos, Max: l.pos}
+}
+
+func (*point) Inside(Vec) bool {
+	return false
+}
-- 
2.43.0


From 7118b7eab30afd4c55927b39b36321bfa8be832f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:37 +0000
Subject: [PATCH 26/27] fix: PLY and OBJ files with faces that refer to missing
 vertices were accepted

---
 tracer/objects/obj/parser.go | 10 ++++++++++
 tracer/objects/ply/parser.go |  7 +++++++
 2 files changed, 17 insertions(+)

diff --git a/tracer/objects/obj/parser.go b/tracer/objects/obj/parser.go
index f60b224..b58468a 100644
--- a/tracer/objects/obj/parser.go
+++ b/tracer/objects/obj/parser.go
@@ -46,6 +46,16 @@ func (p *parser) parseFile(fname string) {
 		p.parseLine(scanner.Text())
 	}
 	p.check(scanner.Err())
+
+	for _, faces := range p.obj.Faces {
+		for _, f := range faces {
+			for _, idx := range f {
+				if int(idx) >= len(p.obj.Vertices) {
+					p.errorf("invalid face index: %v", idx+1)
+				}
+			}
+		}
+	}
 }
 
 func (p *parser) parseLine(l string) {
diff --git a/tracer/objects/ply/parser.go b/tracer/objects/ply/parser.go
index b2995dd..caa86f1 100644
--- a/tracer/objects/ply/parser.go
+++ b/tracer/objects/ply/parser.go
@@ -87,6 +87,13 @@ func (p *parser) parse() ([]geom.Vec, [][3]int) {
 		}
 
 	}
+	for _, f := range faces {
+		for _, idx := range f {
+			if idx < 0 || idx >= numVertex {
+				p.panicf("vertex index out of range: %v", idx)
+			}
+		}
+	}
 	return vertex, faces
 }
 
-- 
2.43.0


From e5fa90d4fd76273e733d8e995e6eef2cf5a222d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:52 +0000
Subject: [PATCH 27/27] fix: shadow rays ignored what lies behind the first 100
 transparent surfaces of an object

---
 tracer/scene.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tracer/scene.go b/tracer/scene.go
index 15ae9b0..35b6496 100644
--- a/tracer/scene.go
+++ b/tracer/scene.go
@@ -122,7 +122,7 @@ func (s *Scene) Occlude(r *Ray, len float64, orig Color) Color {
 	for _, o := range s.objects { // range over objects only, lights are considered transparent
 		tOff := 0.0
 		f := o.Intersect(r)
-		for ttl := 100; ttl != 0 && f.T > 0 && tOff+f.T < len; ttl-- {
+		for ttl := 10000; ttl != 0 && f.T > 0 && tOff+f.T < len; ttl-- {
 			trans, ok := f.Material.(TransparentMaterial)
 			if !ok {
 				r.Start = start
-- 
2.43.0

