From 619d6bac90fc95ce730d3eb2bde57d4b4a0a2b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:13 +0000
Subject: [PATCH 01/48] fix: blend the green and blue channels with themselves,
 not with red

---
 composite.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/composite.go b/composite.go
index 0033617..4b099f1 100644
--- a/composite.go
+++ b/composite.go
@@ -171,8 +171,8 @@ func (c Composite) Composite(b, t color.Color) color.Color {
 
 	return color.NRGBA64{
 		R: blend(bottom.A, bottom.R, ma, f(bottom.R, top.R)),
-		G: blend(bottom.A, bottom.G, ma, f(bottom.R, top.G)),
-		B: blend(bottom.A, bottom.B, ma, f(bottom.R, top.B)),
+		G: blend(bottom.A, bottom.G, ma, f(bottom.G, top.G)),
+		B: blend(bottom.A, bottom.B, ma, f(bottom.B, top.B)),
 		A: bottom.A,
 	}
 }
-- 
2.43.0


From 823d28377ced9f1136837359e2672b28f5187bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:13 +0000
Subject: [PATCH 02/48] fix: burn no longer underflows, and its extremes are
 the right way round

---
 composite.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/composite.go b/composite.go
index 4b099f1..4092109 100644
--- a/composite.go
+++ b/composite.go
@@ -271,13 +271,13 @@ func compositeDodge(x, y uint16) uint16 {
 func compositeBurn(x, y uint16) uint16 {
 	if y == 0 {
 		if x == 0xffff {
-			return 0
+			return 0xffff
 		}
 
-		return 0xffff
+		return 0
 	}
 
-	return clamp(0xffff - 0xffff*(0xffff-uint32(x))/uint32(y))
+	return 0xffff - clamp(0xffff*(0xffff-uint32(x))/uint32(y))
 }
 
 func compositeHardLight(x, y uint16) uint16 {
-- 
2.43.0


From e2949e66e8e09a760e807f8fb66f5a9ed9517cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:13 +0000
Subject: [PATCH 03/48] fix: hard light no longer underflows at the midpoint

---
 composite.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/composite.go b/composite.go
index 4092109..0b61dc6 100644
--- a/composite.go
+++ b/composite.go
@@ -281,7 +281,7 @@ func compositeBurn(x, y uint16) uint16 {
 }
 
 func compositeHardLight(x, y uint16) uint16 {
-	if y < 0x7fff {
+	if y <= 0x7fff {
 		return uint16(uint32(x) * (uint32(y) << 1) / 0xffff)
 	}
 
-- 
2.43.0


From a7bda045828b246bf99d46fb36cd54265bec2288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:13 +0000
Subject: [PATCH 04/48] fix: grain merge subtracts the midpoint

---
 composite.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/composite.go b/composite.go
index 0b61dc6..aa75e48 100644
--- a/composite.go
+++ b/composite.go
@@ -304,7 +304,13 @@ func compositeGrainExtract(ax, ay uint16) uint16 {
 }
 
 func compositeGrainMerge(x, y uint16) uint16 {
-	return clamp(uint32(x) + uint32(y) + 0x7fff)
+	s := uint32(x) + uint32(y)
+
+	if s < 0x7fff {
+		return 0
+	}
+
+	return clamp(s - 0x7fff)
 }
 
 func compositeHue(bottom, top color.NRGBA64) color.Color {
-- 
2.43.0


From fb4031b3590f2956619fcb3d0176777548e2141c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:13 +0000
Subject: [PATCH 05/48] fix: dissolve goes by the alpha of the top layer

---
 composite.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/composite.go b/composite.go
index aa75e48..65e9fd5 100644
--- a/composite.go
+++ b/composite.go
@@ -191,7 +191,7 @@ func compositeNormal(bottom, top color.NRGBA64) color.NRGBA64 {
 }
 
 func compositeDissolve(bottom, top color.NRGBA64) color.NRGBA64 {
-	if uint16(rand.Int31n(0xffff)) < bottom.A {
+	if uint16(rand.Int31n(0xffff)) < top.A {
 		top.A = 0xffff
 
 		return top
-- 
2.43.0


From 8aedb53ff9405f7572c8a1cd598eb82c6b00b34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:13 +0000
Subject: [PATCH 06/48] fix: the HSV and HSL modes take account of the alpha of
 both layers

---
 composite.go | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/composite.go b/composite.go
index 65e9fd5..1d4a039 100644
--- a/composite.go
+++ b/composite.go
@@ -140,15 +140,15 @@ func (c Composite) Composite(b, t color.Color) color.Color {
 	case CompositeDissolve:
 		return compositeDissolve(bottom, top)
 	case CompositeHue:
-		return compositeHue(bottom, top)
+		return blendColour(bottom, top, compositeHue(bottom, top))
 	case CompositeSaturation:
-		return compositeSaturation(bottom, top)
+		return blendColour(bottom, top, compositeSaturation(bottom, top))
 	case CompositeColor:
-		return compositeColor(bottom, top)
+		return blendColour(bottom, top, compositeColor(bottom, top))
 	case CompositeValue:
-		return compositeValue(bottom, top)
+		return blendColour(bottom, top, compositeValue(bottom, top))
 	case CompositeLuminosity:
-		return compositeColor(top, bottom)
+		return blendColour(bottom, top, compositeColor(top, bottom))
 	case CompositePlus:
 		return compositePlus(bottom, top)
 	case CompositeDestinationIn:
@@ -177,6 +177,24 @@ func (c Composite) Composite(b, t color.Color) color.Color {
 	}
 }
 
+// blendColour mixes an already composed colour into the bottom layer, as far as
+// both layers are opaque.
+func blendColour(bottom, top color.NRGBA64, c color.Color) color.Color {
+	if bottom.A == 0 {
+		return color.NRGBA{}
+	}
+
+	n := internal.ColourToNRGBA(c)
+	ma := internal.Min(bottom.A, top.A)
+
+	return color.NRGBA64{
+		R: blend(bottom.A, bottom.R, ma, n.R),
+		G: blend(bottom.A, bottom.G, ma, n.G),
+		B: blend(bottom.A, bottom.B, ma, n.B),
+		A: bottom.A,
+	}
+}
+
 func compositeNormal(bottom, top color.NRGBA64) color.NRGBA64 {
 	if bottom.A == 0 && top.A == 0 {
 		return color.NRGBA64{}
-- 
2.43.0


From 74058cc5e2e52fe2c92f8f57747e2c75f78532f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:19 +0000
Subject: [PATCH 07/48] fix: PalettedAlpha.Opaque is no longer inverted

---
 indexedalpha.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/indexedalpha.go b/indexedalpha.go
index dd51a6f..c6f3d5a 100644
--- a/indexedalpha.go
+++ b/indexedalpha.go
@@ -68,11 +68,11 @@ func (p *PalettedAlpha) IndexAlphaAt(x, y int) lcolor.IndexedAlpha {
 func (p *PalettedAlpha) Opaque() bool {
 	for _, c := range p.Pix {
 		if c.A != 255 {
-			return true
+			return false
 		}
 	}
 
-	return false
+	return true
 }
 
 // PixOffset returns the index of the Pix array corresponding to the given
-- 
2.43.0


From 1bf7754bb81bfcb61a257058f30ac0724d47b372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:19 +0000
Subject: [PATCH 08/48] fix: the sub-image of a layer keeps its pixels where
 they were

---
 layer.go | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/layer.go b/layer.go
index f156769..19effcd 100644
--- a/layer.go
+++ b/layer.go
@@ -34,7 +34,27 @@ func (l Layer) SubImage(r image.Rectangle) image.Image {
 // SubImageLayer returns an image representing the portion of the image p
 // visible through r. The returned value shares pixels with the original image.
 func (l Layer) SubImageLayer(r image.Rectangle) Layer {
-	l.LayerBounds = r.Intersect(l.LayerBounds)
+	b := r.Intersect(l.LayerBounds)
+
+	if d := b.Min.Sub(l.LayerBounds.Min); d != (image.Point{}) {
+		l.Image = translated{Image: l.Image, offset: d}
+	}
+
+	l.LayerBounds = b
 
 	return l
 }
+
+// translated is an image that is moved towards the origin.
+type translated struct {
+	image.Image
+	offset image.Point
+}
+
+func (t translated) Bounds() image.Rectangle {
+	return t.Image.Bounds().Sub(t.offset)
+}
+
+func (t translated) At(x, y int) color.Color {
+	return t.Image.At(x+t.offset.X, y+t.offset.Y)
+}
-- 
2.43.0


From 5ff75b06d1a99a3f47b2ab1ee43c0f5f4f4941ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:19 +0000
Subject: [PATCH 09/48] fix: the GrayAlpha model no longer premultiplies the
 gray value

---
 lcolor/gray.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/lcolor/gray.go b/lcolor/gray.go
index 71a16dc..f7aecbc 100644
--- a/lcolor/gray.go
+++ b/lcolor/gray.go
@@ -1,6 +1,10 @@
 package lcolor
 
-import "image/color"
+import (
+	"image/color"
+
+	"vimagination.zapto.org/limage/internal"
+)
 
 // GrayAlpha represents a Gray color with an Alpha channel.
 type GrayAlpha struct {
@@ -30,10 +34,12 @@ func (c GrayAlpha) ToNRGBA() color.NRGBA64 {
 }
 
 func grayAlphaColourModel(c color.Color) color.Color {
-	_, _, _, a := c.RGBA()
+	n := internal.ColourToNRGBA(c)
+	a := uint8(n.A >> 8)
+	n.A = 0xffff
 
 	return GrayAlpha{
-		Y: color.GrayModel.Convert(c).(color.Gray).Y,
-		A: uint8(a >> 8),
+		Y: color.GrayModel.Convert(n).(color.Gray).Y,
+		A: a,
 	}
 }
-- 
2.43.0


From bd21b162f919e8119c4ccbf557a75ec47cae776c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:19 +0000
Subject: [PATCH 10/48] fix: every composite mode has a name of its own

---
 composite.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/composite.go b/composite.go
index 1d4a039..cca2c05 100644
--- a/composite.go
+++ b/composite.go
@@ -86,6 +86,20 @@ var compositeNames = [...]string{
 	"Destination Out",
 	"Source Atop",
 	"Destination Atop",
+	"Color Erase",
+	"Chroma",
+	"Lightness",
+	"Vivid Light",
+	"Pin Light",
+	"Linear Light",
+	"Hard Mix",
+	"Exclusion",
+	"Linear Burn",
+	"Luminance",
+	"Erase",
+	"Merge",
+	"Split",
+	"Pass Through",
 }
 
 // String returns the name of the composition.
-- 
2.43.0


From c9b64256cf53e57e1ffc2935e7082a421e4fbf57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:19 +0000
Subject: [PATCH 11/48] fix: HSLA colours convert back to the RGB colour they
 came from

---
 lcolor/hsl.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lcolor/hsl.go b/lcolor/hsl.go
index b623cef..978d35e 100644
--- a/lcolor/hsl.go
+++ b/lcolor/hsl.go
@@ -57,13 +57,13 @@ func (h HSLA) ToNRGBA() color.NRGBA64 {
 	}
 
 	c := uint32(h.L) << 1
-	if c < 0x7fff {
+	if c > 0xffff {
 		c = 0x1fffe - c
 	}
 
 	c = c * uint32(h.S) / 0xffff
 
-	return hcmaToColour(uint32(h.H), c, h.L-uint16(c>>2), h.A)
+	return hcmaToColour(uint32(h.H), c, h.L-uint16(c>>1), h.A)
 }
 
 // HSVA represents the Hue, Saturation, Value and Alpha of a pixel.
-- 
2.43.0


From e4d8349e69b224b968ca87ef89233c25231de384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:19 +0000
Subject: [PATCH 12/48] fix: AlphaPalette ignores the alpha in its search for
 the nearest colour

---
 lcolor/indexed.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/lcolor/indexed.go b/lcolor/indexed.go
index 27afb72..1f767a0 100644
--- a/lcolor/indexed.go
+++ b/lcolor/indexed.go
@@ -1,6 +1,10 @@
 package lcolor
 
-import "image/color"
+import (
+	"image/color"
+
+	"vimagination.zapto.org/limage/internal"
+)
 
 // AlphaPalette is an extension to the normal color.Palette type.
 type AlphaPalette color.Palette
@@ -8,7 +12,7 @@ type AlphaPalette color.Palette
 // Convert converts the given color to the nearest color in the palette, but
 // preserves the alpha channel.
 func (ap AlphaPalette) Convert(c color.Color) color.Color {
-	r, g, b, _ := color.Palette(ap).Convert(c).RGBA()
+	r, g, b, _ := color.Palette(ap).Convert(opaque(c)).RGBA()
 	_, _, _, a := c.RGBA()
 
 	return color.NRGBA64{
@@ -21,7 +25,14 @@ func (ap AlphaPalette) Convert(c color.Color) color.Color {
 
 // Index returns the palette index of the nearest color.
 func (ap AlphaPalette) Index(c color.Color) int {
-	return color.Palette(ap).Index(c)
+	return color.Palette(ap).Index(opaque(c))
+}
+
+func opaque(c color.Color) color.Color {
+	n := internal.ColourToNRGBA(c)
+	n.A = 0xffff
+
+	return n
 }
 
 // IndexedAlpha is the combination of a palette index and an Alpha channel.
-- 
2.43.0


From 0441914889bae2b42cb0adbbefcf54282c5ac830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:19 +0000
Subject: [PATCH 13/48] fix: readerAt honours the contract of io.ReaderAt

---
 internal/bufioToReader.go | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/internal/bufioToReader.go b/internal/bufioToReader.go
index 0a64028..693e6c0 100644
--- a/internal/bufioToReader.go
+++ b/internal/bufioToReader.go
@@ -25,22 +25,25 @@ type readerAt struct {
 
 func (r *readerAt) ReadAt(p []byte, offset int64) (int, error) {
 	r.readMutex.Lock()
-
-	var (
-		n   int
-		err error
-	)
+	defer r.readMutex.Unlock()
 
 	if offset != r.pos {
-		r.pos, err = r.ReadSeeker.Seek(offset, io.SeekStart)
+		pos, err := r.ReadSeeker.Seek(offset, io.SeekStart)
 		if err != nil {
+			r.pos = -1
+
 			return 0, err
 		}
+
+		r.pos = pos
 	}
 
-	n, err = r.ReadSeeker.Read(p)
+	n, err := io.ReadFull(r.ReadSeeker, p)
 	r.pos += int64(n)
-	r.readMutex.Unlock()
+
+	if err == io.ErrUnexpectedEOF {
+		err = io.EOF
+	}
 
 	return n, err
 }
@@ -51,10 +54,9 @@ func bufioToReader(b *bufio.Reader) io.ReaderAt {
 	if ra, ok := br.rd.(io.ReaderAt); ok {
 		return ra
 	} else if rs, ok := br.rd.(io.ReadSeeker); ok {
-		rs.Seek(0, 0)
-
 		return &readerAt{
 			ReadSeeker: rs,
+			pos:        -1,
 		}
 	}
 
@@ -68,7 +70,7 @@ func GetReaderAt(r io.Reader) io.ReaderAt {
 	} else if ra, ok := r.(io.ReaderAt); ok {
 		return ra
 	} else if rs, ok := r.(io.ReadSeeker); ok {
-		return &readerAt{ReadSeeker: rs}
+		return &readerAt{ReadSeeker: rs, pos: -1}
 	}
 
 	return nil
-- 
2.43.0


From 8ab54c0427a5f3aae4e729dda31eb8902e8bf039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:54 +0000
Subject: [PATCH 14/48] fix: ora: write the opacity of a layer to its own
 attribute, and read back what was written

---
 ora/encode.go | 2 +-
 ora/stack.go  | 8 +++++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/ora/encode.go b/ora/encode.go
index f1bd534..f6f0c5a 100644
--- a/ora/encode.go
+++ b/ora/encode.go
@@ -195,7 +195,7 @@ func writeStack(e *xml.Encoder, lim limage.Layer, layerNum int) (int, error) {
 
 	if lim.Transparency != 0 {
 		attrs = append(attrs, xml.Attr{
-			Name:  xml.Name{Local: "visibility"},
+			Name:  xml.Name{Local: "opacity"},
 			Value: strconv.FormatFloat(float64(255-lim.Transparency)/255, 'f', -1, 64),
 		})
 	}
diff --git a/ora/stack.go b/ora/stack.go
index ef75333..d59634d 100644
--- a/ora/stack.go
+++ b/ora/stack.go
@@ -125,7 +125,13 @@ func processLayerAttrs(l *limage.Layer, s xml.StartElement) (string, error) {
 				return "", err
 			}
 
-			l.Transparency = uint8(255 * (1 - o))
+			if !(o >= 0) {
+				o = 0
+			} else if o > 1 {
+				o = 1
+			}
+
+			l.Transparency = 255 - uint8(255*o+0.5)
 		case "visibility":
 			l.Invisible = a.Value == "hidden"
 		case "composite-op":
-- 
2.43.0


From 5d3177dfbde10362a325e18991aeb31d63cdc97b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:54 +0000
Subject: [PATCH 15/48] fix: ora: write negative layer offsets

---
 ora/encode.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ora/encode.go b/ora/encode.go
index f6f0c5a..033ba52 100644
--- a/ora/encode.go
+++ b/ora/encode.go
@@ -172,14 +172,14 @@ func writeStack(e *xml.Encoder, lim limage.Layer, layerNum int) (int, error) {
 		})
 	}
 
-	if b.X > 0 {
+	if b.X != 0 {
 		attrs = append(attrs, xml.Attr{
 			Name:  xml.Name{Local: "x"},
 			Value: strconv.Itoa(b.X),
 		})
 	}
 
-	if b.Y > 0 {
+	if b.Y != 0 {
 		attrs = append(attrs, xml.Attr{
 			Name:  xml.Name{Local: "y"},
 			Value: strconv.Itoa(b.Y),
-- 
2.43.0


From 875e6cadd6c2b57dcb828256d3a2cc74e82a2aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:54 +0000
Subject: [PATCH 16/48] fix: ora: report a failure to finish the archive

---
 ora/encode.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ora/encode.go b/ora/encode.go
index 033ba52..5c7cd2e 100644
--- a/ora/encode.go
+++ b/ora/encode.go
@@ -14,14 +14,20 @@ import (
 const mimetypeStr = "image/openraster"
 
 // Encode encodes the given image as an ORA file to the given Writer.
-func Encode(w io.Writer, m image.Image) error {
+func Encode(w io.Writer, m image.Image) (err error) {
 	lim := toLayer(m)
 	b := m.Bounds()
 	lim.LayerBounds.Max.X = b.Dx()
 	lim.LayerBounds.Max.Y = b.Dy()
 
 	zw := zip.NewWriter(w)
-	defer zw.Close()
+
+
+	defer func() {
+		if cerr := zw.Close(); err == nil {
+			err = cerr
+		}
+	}()
 
 	fw, err := zw.CreateHeader(&zip.FileHeader{
 		Name:   "mimetype",
-- 
2.43.0


From 70613e6f9081f26c35190aa4d8db91aa68c9f2ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:54 +0000
Subject: [PATCH 17/48] fix: ora: sample the thumbnail from where the pixels
 are

---
 ora/thumbnail.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/ora/thumbnail.go b/ora/thumbnail.go
index cf12819..6f8946d 100644
--- a/ora/thumbnail.go
+++ b/ora/thumbnail.go
@@ -17,9 +17,17 @@ func (t thumbnail) Bounds() image.Rectangle {
 	b.Max.X = int(float64(b.Max.X) / t.scale)
 	b.Max.Y = int(float64(b.Max.Y) / t.scale)
 
+	if b.Max.X == b.Min.X {
+		b.Max.X++
+	}
+
+	if b.Max.Y == b.Min.Y {
+		b.Max.Y++
+	}
+
 	return b
 }
 
 func (t thumbnail) At(x, y int) color.Color {
-	return t.Image.At(int(float64(x)/t.scale), int(float64(x)/t.scale))
+	return t.Image.At(int(float64(x)*t.scale), int(float64(y)*t.scale))
 }
-- 
2.43.0


From 3aea7998f838195f45b33a308995d32d04aea502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:54 +0000
Subject: [PATCH 18/48] fix: ora: close the parts of the archive when reading
 them fails

---
 ora/decode.go | 4 ++--
 ora/stack.go  | 5 +++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/ora/decode.go b/ora/decode.go
index 0d2c16f..023c9e6 100644
--- a/ora/decode.go
+++ b/ora/decode.go
@@ -117,14 +117,14 @@ func DecodeConfig(zr *zip.Reader) (image.Config, error) {
 		return image.Config{}, err
 	}
 
+	defer s.Close()
+
 	d.x = xml.NewDecoder(s)
 
 	if err := d.getDimensions(); err != nil {
 		return image.Config{}, err
 	}
 
-	s.Close()
-
 	return image.Config{
 		ColorModel: color.NRGBAModel,
 		Width:      d.limits.X,
diff --git a/ora/stack.go b/ora/stack.go
index d59634d..314edb5 100644
--- a/ora/stack.go
+++ b/ora/stack.go
@@ -74,12 +74,13 @@ func (d decoder) readLayer(s xml.StartElement, offset image.Point) (limage.Layer
 				}
 
 				l.Image, _, err = image.Decode(fr)
+
+				fr.Close()
+
 				if err != nil {
 					return l, err
 				}
 
-				fr.Close()
-
 				break
 			}
 		}
-- 
2.43.0


From 4048aab2f2ac819c4ba7d434c6b18ed16b15e4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:54 +0000
Subject: [PATCH 19/48] fix: ora: keep the offsets of nested and clipped layers
 as they were written

---
 ora/stack.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/ora/stack.go b/ora/stack.go
index 314edb5..1fcfa01 100644
--- a/ora/stack.go
+++ b/ora/stack.go
@@ -94,7 +94,16 @@ func (d decoder) readLayer(s xml.StartElement, offset image.Point) (limage.Layer
 		}
 	}
 
-	l.LayerBounds = l.Image.Bounds().Add(l.LayerBounds.Min).Intersect(image.Rectangle{Max: d.limits.Add(offset)}).Sub(offset)
+	limits := d.limits.Sub(offset)
+	l.LayerBounds.Max = l.LayerBounds.Min.Add(l.Image.Bounds().Max)
+
+	if l.LayerBounds.Max.X > limits.X {
+		l.LayerBounds.Max.X = limits.X
+	}
+
+	if l.LayerBounds.Max.Y > limits.Y {
+		l.LayerBounds.Max.Y = limits.Y
+	}
 
 	return l, nil
 }
-- 
2.43.0


From 6c80e4342dbab1a99cc1ef34cc32d9b831728b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:54 +0000
Subject: [PATCH 20/48] fix: ora: put a single image in a stack, as the format
 asks for

---
 ora/encode.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/ora/encode.go b/ora/encode.go
index 5c7cd2e..496e057 100644
--- a/ora/encode.go
+++ b/ora/encode.go
@@ -17,6 +17,16 @@ const mimetypeStr = "image/openraster"
 func Encode(w io.Writer, m image.Image) (err error) {
 	lim := toLayer(m)
 	b := m.Bounds()
+
+	switch lim.Image.(type) {
+	case limage.Image, *limage.Image:
+	default:
+		lim.Image = limage.Image{{
+			LayerBounds: image.Rect(0, 0, b.Dx(), b.Dy()),
+			Image:       lim.Image,
+		}}
+	}
+
 	lim.LayerBounds.Max.X = b.Dx()
 	lim.LayerBounds.Max.Y = b.Dy()
 
-- 
2.43.0


From 3635bcec6540131e0d4d184aa399c35a58ed9c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:54 +0000
Subject: [PATCH 21/48] fix: ora: reject negative dimensions and bottomless
 nesting

---
 ora/decode.go | 5 ++++-
 ora/encode.go | 1 -
 ora/stack.go  | 4 ++++
 3 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/ora/decode.go b/ora/decode.go
index 023c9e6..94a25ef 100644
--- a/ora/decode.go
+++ b/ora/decode.go
@@ -16,8 +16,11 @@ type decoder struct {
 	zr     *zip.Reader
 	x      *xml.Decoder
 	limits image.Point
+	depth  int
 }
 
+const maxDepth = 1000
+
 func (d *decoder) getStack() (stack *zip.File, err error) {
 	err = ErrMissingStack
 
@@ -89,7 +92,7 @@ func (d *decoder) getDimensions() error {
 					}
 				}
 
-				if !w || !h {
+				if !w || !h || d.limits.X < 0 || d.limits.Y < 0 {
 					return ErrInvalidStack
 				}
 
diff --git a/ora/encode.go b/ora/encode.go
index 496e057..22a3dae 100644
--- a/ora/encode.go
+++ b/ora/encode.go
@@ -32,7 +32,6 @@ func Encode(w io.Writer, m image.Image) (err error) {
 
 	zw := zip.NewWriter(w)
 
-
 	defer func() {
 		if cerr := zw.Close(); err == nil {
 			err = cerr
diff --git a/ora/stack.go b/ora/stack.go
index 1fcfa01..11d273a 100644
--- a/ora/stack.go
+++ b/ora/stack.go
@@ -10,6 +10,10 @@ import (
 )
 
 func (d decoder) readStack(offset image.Point) (limage.Image, error) {
+	if d.depth++; d.depth > maxDepth {
+		return nil, ErrInvalidStack
+	}
+
 	i := make(limage.Image, 0, 32)
 
 Loop:
-- 
2.43.0


From a7760d6e922727595bc0fa0580eaee5b8d170f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:25 +0000
Subject: [PATCH 22/48] fix: ora: a layer beyond the canvas has empty bounds,
 not inverted ones

---
 ora/stack.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/ora/stack.go b/ora/stack.go
index 11d273a..ab4e2e2 100644
--- a/ora/stack.go
+++ b/ora/stack.go
@@ -98,18 +98,25 @@ func (d decoder) readLayer(s xml.StartElement, offset image.Point) (limage.Layer
 		}
 	}
 
+	// The part of the layer that is beyond the far edges of the canvas is cut off.
 	limits := d.limits.Sub(offset)
-	l.LayerBounds.Max = l.LayerBounds.Min.Add(l.Image.Bounds().Max)
+	l.LayerBounds.Max = l.Image.Bounds().Max.Add(l.LayerBounds.Min)
+	l.LayerBounds.Max.X = cut(l.LayerBounds.Min.X, l.LayerBounds.Max.X, limits.X)
+	l.LayerBounds.Max.Y = cut(l.LayerBounds.Min.Y, l.LayerBounds.Max.Y, limits.Y)
 
-	if l.LayerBounds.Max.X > limits.X {
-		l.LayerBounds.Max.X = limits.X
+	return l, nil
+}
+
+func cut(min, max, limit int) int {
+	if max > limit {
+		max = limit
 	}
 
-	if l.LayerBounds.Max.Y > limits.Y {
-		l.LayerBounds.Max.Y = limits.Y
+	if max < min {
+		max = min
 	}
 
-	return l, nil
+	return max
 }
 
 func processLayerAttrs(l *limage.Layer, s xml.StartElement) (string, error) {
-- 
2.43.0


From 37151d67a285dbbd2a15bf9ef80eb0d4a8b048b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:27 +0000
Subject: [PATCH 23/48] fix: hue mode does not take a faint colour for gray

---
 composite.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/composite.go b/composite.go
index cca2c05..4bc42f1 100644
--- a/composite.go
+++ b/composite.go
@@ -346,9 +346,7 @@ func compositeGrainMerge(x, y uint16) uint16 {
 }
 
 func compositeHue(bottom, top color.NRGBA64) color.Color {
-	br, bg, bb, _ := top.RGBA()
-
-	if br == bg && br == bb {
+	if top.R == top.G && top.R == top.B {
 		return bottom
 	}
 
-- 
2.43.0


From 5ee087a5b034fbb0b7d9258da1c556f6a64a0270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:54 +0000
Subject: [PATCH 24/48] fix: xcf: a colour map that is skipped is not read as
 well

---
 xcf/decoder.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xcf/decoder.go b/xcf/decoder.go
index 7b60fbc..6e51707 100644
--- a/xcf/decoder.go
+++ b/xcf/decoder.go
@@ -242,6 +242,8 @@ PropertyLoop:
 		case propColorMap:
 			if baseType != baseIndexed {
 				dr.Skip(plength) // skip
+
+				continue
 			}
 
 			palette = make(lcolor.AlphaPalette, dr.ReadUint32())
-- 
2.43.0


From 8d646eb0a941c6bf5dc8dbf68f441813277d9789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:54 +0000
Subject: [PATCH 25/48] fix: xcf: a guide is a coordinate and a single byte

---
 xcf/decoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xcf/decoder.go b/xcf/decoder.go
index 6e51707..b42c387 100644
--- a/xcf/decoder.go
+++ b/xcf/decoder.go
@@ -268,7 +268,7 @@ PropertyLoop:
 
 			for n := uint32(0); n < ng; n++ {
 				dr.SkipUint32()
-				dr.SkipBoolProperty()
+				dr.SkipByte()
 			}
 		case propPaths:
 			dr.SkipPaths()
-- 
2.43.0


From 3a71a96e057c0310fde7a0ef75d1de26b2ffa069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:54 +0000
Subject: [PATCH 26/48] fix: xcf: skip as many bytes of sample points as there
 are

---
 xcf/decoder.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/xcf/decoder.go b/xcf/decoder.go
index b42c387..fbfd01a 100644
--- a/xcf/decoder.go
+++ b/xcf/decoder.go
@@ -280,10 +280,7 @@ PropertyLoop:
 				return nil, 0, ErrInvalidSampleLength
 			}
 
-			for i := uint32(0); i < plength>>1; i++ {
-				dr.SkipUint32()
-				dr.SkipUint32()
-			}
+			dr.Skip(plength)
 		case propUnit:
 			if dr.ReadUint32() > 4 {
 				return nil, 0, ErrInvalidUnit
-- 
2.43.0


From 6e8df26caa1c82fd2160d8c39d8f3312dc55fe25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:54 +0000
Subject: [PATCH 27/48] fix: xcf: the type of a point of a stroke has four
 bytes

---
 xcf/skip.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/xcf/skip.go b/xcf/skip.go
index 078fca3..6f3bad7 100644
--- a/xcf/skip.go
+++ b/xcf/skip.go
@@ -105,13 +105,13 @@ func (r *reader) SkipVectors() {
 			switch nf {
 			case 2, 3, 4, 5, 6:
 				/*
-					2: Bool + Float32 + Float32 = 5
-					3: +Float32 = 9
-					4: +Float32 = 13
-					5: +Float32 = 17
-					6: +Float32 = 21
+					2: Bool + Float32 + Float32 = 12
+					3: +Float32 = 16
+					4: +Float32 = 20
+					5: +Float32 = 24
+					6: +Float32 = 28
 				*/
-				r.Skip(np * (nf*4 + 1))
+				r.Skip(np * (nf*4 + 4))
 			default:
 				r.SetError(ErrInvalidFloatsNumber)
 
-- 
2.43.0


From 78922ca66322c86a10f59fef07a5dc205c82fdb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:42 +0000
Subject: [PATCH 28/48] fix: xcf: the precision is there from version 4 on, for
 DecodeConfig too

---
 xcf/decoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xcf/decoder.go b/xcf/decoder.go
index fbfd01a..14254b4 100644
--- a/xcf/decoder.go
+++ b/xcf/decoder.go
@@ -86,7 +86,7 @@ func DecodeConfig(r io.ReaderAt) (image.Config, error) {
 	c.Height = int(dr.ReadUint32())
 	baseType := dr.ReadUint32()
 
-	if mode == 2 {
+	if mode > 0 {
 		dr.ReadUint32()
 	}
 
-- 
2.43.0


From 1e6fcc51cac168c19f213294d62a88eae3517fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:19 +0000
Subject: [PATCH 29/48] fix: xcf: read files of more than 16 MiB

---
 xcf/reader.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xcf/reader.go b/xcf/reader.go
index 7926f6f..3d1a281 100644
--- a/xcf/reader.go
+++ b/xcf/reader.go
@@ -3,6 +3,7 @@ package xcf
 import (
 	"errors"
 	"io"
+	"math"
 	"unicode/utf8"
 
 	"vimagination.zapto.org/byteio"
@@ -15,7 +16,7 @@ type reader struct {
 
 func newReader(r io.ReaderAt) reader {
 	nr := reader{
-		rs: io.NewSectionReader(r, 0, maxString),
+		rs: io.NewSectionReader(r, 0, math.MaxInt64),
 	}
 
 	nr.StickyBigEndianReader = &byteio.StickyBigEndianReader{Reader: nr.rs}
-- 
2.43.0


From aacea8c7dd8c06d7f3a8c54771c0641acbbdeaae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:22 +0000
Subject: [PATCH 30/48] fix: xcf: give the single layer of a plain image the
 size of the image

---
 xcf/encoder.go | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/xcf/encoder.go b/xcf/encoder.go
index 2a3e9b2..c06c8a7 100644
--- a/xcf/encoder.go
+++ b/xcf/encoder.go
@@ -105,12 +105,33 @@ func Encode(w io.WriterAt, im image.Image) error {
 		pw := e.ReservePointerList(1)
 
 		e.WriteUint32(0) // no channels
-		e.WriteLayer(limage.Layer{Image: im}, 0, 0, []uint32{}, pw)
+		if b.Min != (image.Point{}) {
+			im = fromOrigin{im}
+		}
+
+		e.WriteLayer(limage.Layer{LayerBounds: im.Bounds(), Image: im}, 0, 0, []uint32{}, pw)
 	}
 
 	return e.Err
 }
 
+// fromOrigin moves an image to the origin.
+type fromOrigin struct {
+	image.Image
+}
+
+func (f fromOrigin) Bounds() image.Rectangle {
+	b := f.Image.Bounds()
+
+	return b.Sub(b.Min)
+}
+
+func (f fromOrigin) At(x, y int) color.Color {
+	b := f.Image.Bounds()
+
+	return f.Image.At(x+b.Min.X, y+b.Min.Y)
+}
+
 func layerCount(g limage.Image) uint32 {
 	count := uint32(len(g))
 
-- 
2.43.0


From 5bf737d39037681a9cd04860ce2fe1344e4c278f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:22 +0000
Subject: [PATCH 31/48] fix: xcf: write as much of a layer's picture as the
 layer has

---
 xcf/channel.go      | 6 ++----
 xcf/image_encode.go | 4 +---
 xcf/layer_encode.go | 9 +++++----
 3 files changed, 8 insertions(+), 11 deletions(-)

diff --git a/xcf/channel.go b/xcf/channel.go
index 56e79c6..38c84e0 100644
--- a/xcf/channel.go
+++ b/xcf/channel.go
@@ -50,9 +50,7 @@ func (d *decoder) skipProperties() {
 	}
 }
 
-func (e *encoder) WriteChannel(c *image.Gray) {
-	b := c.Bounds()
-
+func (e *encoder) WriteChannel(c *image.Gray, b image.Rectangle) {
 	e.WriteUint32(uint32(b.Dx()))
 	e.WriteUint32(uint32(b.Dy()))
 	e.WriteString("")
@@ -61,5 +59,5 @@ func (e *encoder) WriteChannel(c *image.Gray) {
 	e.WriteUint32(0)
 
 	e.WriteUint32(uint32(e.pos) + 4) // hptr
-	e.WriteImage(c, (*encoder).grayToBuf, 1)
+	e.WriteImage(c, b, (*encoder).grayToBuf, 1)
 }
diff --git a/xcf/image_encode.go b/xcf/image_encode.go
index 0d58042..2357c60 100644
--- a/xcf/image_encode.go
+++ b/xcf/image_encode.go
@@ -7,9 +7,7 @@ import (
 	"vimagination.zapto.org/limage/lcolor"
 )
 
-func (e *encoder) WriteImage(im image.Image, colourFunc colourBufFunc, colourChannels uint8) {
-	bounds := im.Bounds()
-
+func (e *encoder) WriteImage(im image.Image, bounds image.Rectangle, colourFunc colourBufFunc, colourChannels uint8) {
 	dx := int64(bounds.Dx())
 	dy := int64(bounds.Dy())
 
diff --git a/xcf/layer_encode.go b/xcf/layer_encode.go
index 22c49e2..8b16e63 100644
--- a/xcf/layer_encode.go
+++ b/xcf/layer_encode.go
@@ -47,7 +47,7 @@ func (e *encoder) WriteLayer(im limage.Layer, offsetX, offsetY int32, groups []u
 
 	writeProperties(e, im, offsetX, offsetY, groups, group, text)
 	e.WriteUint32(0)
-	writeLayer(e, img, mask)
+	writeLayer(e, img, mask, im.Bounds().Size())
 
 	if group != nil {
 		e.WriteLayers(group, offsetX, offsetY, groups, pw)
@@ -186,16 +186,17 @@ func modeID(mode limage.Composite) uint32 {
 	}
 }
 
-func writeLayer(e *encoder, img image.Image, mask *image.Gray) {
+func writeLayer(e *encoder, img image.Image, mask *image.Gray, size image.Point) {
+	bounds := image.Rectangle{Max: size}
 	ptrs := e.ReservePointers(2)
 
 	ptrs.WritePointer(uint32(e.pos))
 
-	e.WriteImage(img, e.colourFunc, e.colourChannels)
+	e.WriteImage(img, bounds, e.colourFunc, e.colourChannels)
 
 	if mask != nil {
 		ptrs.WritePointer(uint32(e.pos))
-		e.WriteChannel(mask)
+		e.WriteChannel(mask, bounds)
 	} else {
 		ptrs.WritePointer(0)
 	}
-- 
2.43.0


From 2731db22e7bae03f74e7c78628ae3131f8e5e80c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:23 +0000
Subject: [PATCH 32/48] fix: xcf: a mask is as large as its layer, wherever
 that is

---
 xcf/layer_decode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xcf/layer_decode.go b/xcf/layer_decode.go
index e8d4bcd..a76b1f8 100644
--- a/xcf/layer_decode.go
+++ b/xcf/layer_decode.go
@@ -252,7 +252,7 @@ func (l *layer) readMask(d *decoder) {
 		return
 	}
 
-	if !l.LayerBounds.Eq(m.Mask.Bounds()) {
+	if l.LayerBounds.Size() != m.Mask.Bounds().Size() {
 		d.SetError(ErrInconsistantData)
 
 		return
-- 
2.43.0


From 711758005c9e22833f18f9ea1f2afde64d7905d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:23 +0000
Subject: [PATCH 33/48] fix: xcf: the pixels of a mask are never left
 compressed

---
 xcf/channel.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/xcf/channel.go b/xcf/channel.go
index 38c84e0..c2539d4 100644
--- a/xcf/channel.go
+++ b/xcf/channel.go
@@ -19,7 +19,12 @@ func (d *decoder) ReadChannel() *image.Gray {
 
 	d.Goto(hptr)
 
-	if im := d.ReadImage(width, height, 2); im != nil {
+	decompress := d.decompress
+	d.decompress = true // a mask is an *image.Gray
+	im := d.ReadImage(width, height, 2)
+	d.decompress = decompress
+
+	if im != nil {
 		return im.(*image.Gray) // gray
 	}
 
-- 
2.43.0


From 61eafe6cf5e77a4deebd07818fe312613b62026e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:24 +0000
Subject: [PATCH 34/48] fix: xcf: keep the offset of a layer that begins before
 the canvas

---
 xcf/decoder.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/xcf/decoder.go b/xcf/decoder.go
index 14254b4..c3e90d1 100644
--- a/xcf/decoder.go
+++ b/xcf/decoder.go
@@ -400,13 +400,27 @@ func makeGroups(layers []layer, bounds image.Rectangle) (map[string]*groupOffset
 			}
 		}
 
-		l.LayerBounds = l.LayerBounds.Intersect(bounds).Sub(image.Pt(g.OffsetX, g.OffsetY))
+		l.LayerBounds.Max.X = cut(l.LayerBounds.Min.X, l.LayerBounds.Max.X, bounds.Max.X)
+		l.LayerBounds.Max.Y = cut(l.LayerBounds.Min.Y, l.LayerBounds.Max.Y, bounds.Max.Y)
+		l.LayerBounds = l.LayerBounds.Sub(image.Pt(g.OffsetX, g.OffsetY))
 		g.Group = append(g.Group, l.Layer)
 	}
 
 	return groups, nil
 }
 
+func cut(min, max, limit int) int {
+	if max > limit {
+		max = limit
+	}
+
+	if max < min {
+		max = min
+	}
+
+	return max
+}
+
 func makeImage(groups map[string]*groupOffset) limage.Image {
 	var im limage.Image
 
-- 
2.43.0


From 1a853ea661e8069de8c748ad394dc21b10895dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:25 +0000
Subject: [PATCH 35/48] fix: xcf: keep the modes of the layers of gray images

---
 xcf/layer_decode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xcf/layer_decode.go b/xcf/layer_decode.go
index a76b1f8..92ebe0c 100644
--- a/xcf/layer_decode.go
+++ b/xcf/layer_decode.go
@@ -124,7 +124,7 @@ PropertyLoop:
 		case propLockAlpha:
 			d.SkipBoolProperty()
 		case propMode:
-			if d.baseType != 0 {
+			if d.baseType == baseIndexed {
 				switch d.ReadUint32() {
 				case 2: // Behind
 					l.Mode = limage.CompositeBehind
-- 
2.43.0


From 97f9c1944d6d9294f1dd13c4fa123fdb87a754f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:25 +0000
Subject: [PATCH 36/48] fix: xcf: write luminance and luminosity as luminance,
 not as colour erase

---
 xcf/layer_encode.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xcf/layer_encode.go b/xcf/layer_encode.go
index 8b16e63..3469b37 100644
--- a/xcf/layer_encode.go
+++ b/xcf/layer_encode.go
@@ -153,8 +153,6 @@ func modeID(mode limage.Composite) uint32 {
 		return 20
 	case limage.CompositeGrainMerge:
 		return 21
-	case limage.CompositeLuminosity:
-		return 22
 	case limage.CompositeColorErase:
 		return 22
 	case limage.CompositeChroma:
@@ -173,6 +171,8 @@ func modeID(mode limage.Composite) uint32 {
 		return 52
 	case limage.CompositeLinearBurn:
 		return 53
+	case limage.CompositeLuminance, limage.CompositeLuminosity:
+		return 56
 	case limage.CompositeErase:
 		return 58
 	case limage.CompositeMerge:
-- 
2.43.0


From 62fb4134be9d8f6c585b050eb40c54286def3709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:26 +0000
Subject: [PATCH 37/48] fix: xcf: write the text and the layers that are under
 a mask

---
 xcf/encoder.go      | 11 ++++++++++-
 xcf/layer_encode.go |  2 +-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/xcf/encoder.go b/xcf/encoder.go
index c06c8a7..809e429 100644
--- a/xcf/encoder.go
+++ b/xcf/encoder.go
@@ -136,7 +136,16 @@ func layerCount(g limage.Image) uint32 {
 	count := uint32(len(g))
 
 	for _, l := range g {
-		switch g := l.Image.(type) {
+		img := l.Image
+
+		switch m := img.(type) {
+		case limage.MaskedImage:
+			img = m.Image
+		case *limage.MaskedImage:
+			img = m.Image
+		}
+
+		switch g := img.(type) {
 		case limage.Image:
 			count += layerCount(g)
 		case *limage.Image:
diff --git a/xcf/layer_encode.go b/xcf/layer_encode.go
index 3469b37..6555bea 100644
--- a/xcf/layer_encode.go
+++ b/xcf/layer_encode.go
@@ -34,7 +34,7 @@ func (e *encoder) WriteLayer(im limage.Layer, offsetX, offsetY int32, groups []u
 		img = im.Image
 	}
 
-	switch i := im.Image.(type) {
+	switch i := img.(type) {
 	case limage.Text:
 		text = i.TextData
 	case *limage.Text:
-- 
2.43.0


From f54e26709aebc68ce51e1128187a2d632d6298b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:27 +0000
Subject: [PATCH 38/48] fix: xcf: keep the mask of a group

---
 xcf/decoder.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/xcf/decoder.go b/xcf/decoder.go
index c3e90d1..92594f5 100644
--- a/xcf/decoder.go
+++ b/xcf/decoder.go
@@ -434,7 +434,14 @@ func makeImage(groups map[string]*groupOffset) limage.Image {
 		if g.Parent == nil {
 			im = ng
 		} else {
-			(*g.Parent)[g.Offset].Image = ng
+			l := &(*g.Parent)[g.Offset]
+
+			if m, ok := l.Image.(limage.MaskedImage); ok {
+				m.Image = ng
+				l.Image = m
+			} else {
+				l.Image = ng
+			}
 		}
 	}
 
-- 
2.43.0


From e95bc2288a0c7e25562f26c39592a870b3a8c341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:28 +0000
Subject: [PATCH 39/48] fix: xcf: look up palette colours in eight bits

---
 xcf/image_encode.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xcf/image_encode.go b/xcf/image_encode.go
index 2357c60..461f329 100644
--- a/xcf/image_encode.go
+++ b/xcf/image_encode.go
@@ -84,8 +84,8 @@ func (e *encoder) grayToBuf(c color.Color) {
 }
 
 func (e *encoder) paletteAlphaToBuf(c color.Color) {
-	r, g, b, a := c.RGBA()
-	i := e.colourPalette.Index(lcolor.RGB{R: uint8(r), G: uint8(g), B: uint8(b)})
+	nrgba := color.NRGBAModel.Convert(c).(color.NRGBA)
+	i := e.colourPalette.Index(lcolor.RGB{R: nrgba.R, G: nrgba.G, B: nrgba.B})
 	e.colourBuf[0] = uint8(i)
-	e.colourBuf[1] = uint8(a)
+	e.colourBuf[1] = nrgba.A
 }
-- 
2.43.0


From 5761565854b76df2f13793d4101a81c5e217a2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:05 +0000
Subject: [PATCH 40/48] fix: xcf: refuse a layer of no known kind instead of a
 nil dereference

---
 xcf/image_decode.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xcf/image_decode.go b/xcf/image_decode.go
index 9bb1b4c..3537802 100644
--- a/xcf/image_decode.go
+++ b/xcf/image_decode.go
@@ -76,6 +76,10 @@ func (d *decoder) validBPP(mode, bpp uint32) bool {
 
 			return false
 		}
+	default:
+		d.SetError(ErrInvalidLayerType)
+
+		return false
 	}
 
 	return true
-- 
2.43.0


From f362ac91d53346a84485b303d8c2b92df01bc22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:06 +0000
Subject: [PATCH 41/48] fix: xcf: a colour map has at most 256 colours

---
 xcf/decoder.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/xcf/decoder.go b/xcf/decoder.go
index 92594f5..325f264 100644
--- a/xcf/decoder.go
+++ b/xcf/decoder.go
@@ -246,7 +246,12 @@ PropertyLoop:
 				continue
 			}
 
-			palette = make(lcolor.AlphaPalette, dr.ReadUint32())
+			colours := dr.ReadUint32()
+			if colours > 256 {
+				return nil, 0, ErrInvalidPalette
+			}
+
+			palette = make(lcolor.AlphaPalette, colours)
 
 			for n := range palette {
 				palette[n] = lcolor.RGB{
@@ -462,6 +467,7 @@ var (
 	ErrUnsupportedVersion  = errors.New("unsupported file version")
 	ErrInvalidHeader       = errors.New("invalid header")
 	ErrInvalidProperties   = errors.New("invalid property list")
+	ErrInvalidPalette      = errors.New("too many colours in colour map")
 	ErrInvalidOpacity      = errors.New("opacity not in valid range")
 	ErrInvalidGuideLength  = errors.New("invalid guide length")
 	ErrInvalidUnit         = errors.New("invalid unit")
-- 
2.43.0


From 9ad38bd45628ba980c2222a60ad561eda94de2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:06 +0000
Subject: [PATCH 42/48] fix: xcf: do not believe the size of an image before
 its tiles are found

---
 xcf/image_decode.go | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/xcf/image_decode.go b/xcf/image_decode.go
index 3537802..97154e7 100644
--- a/xcf/image_decode.go
+++ b/xcf/image_decode.go
@@ -4,7 +4,6 @@ import (
 	"image"
 	"image/color"
 	"io"
-	"math"
 
 	"vimagination.zapto.org/limage"
 	"vimagination.zapto.org/limage/lcolor"
@@ -41,6 +40,10 @@ func (d *decoder) ReadImage(width, height, mode uint32) image.Image {
 		return nil
 	}
 
+	if d.Err != nil {
+		return nil
+	}
+
 	r := image.Rect(0, 0, int(width), int(height))
 
 	if d.decompress || d.compression == 0 {
@@ -94,16 +97,10 @@ func (d *decoder) readLayerPointer() uint64 {
 }
 
 func (d *decoder) readTiles(width, height uint32) []uint64 {
-	tiles := make([]uint64, int(math.Ceil(float64(width)/64)*math.Ceil(float64(height)/64)))
+	var tiles []uint64
 
-	if d.mode < 2 {
-		for i := range tiles {
-			tiles[i] = uint64(d.ReadUint32())
-		}
-	} else {
-		for i := range tiles {
-			tiles[i] = d.ReadUint64()
-		}
+	for n := (uint64(width) + 63) / 64 * ((uint64(height) + 63) / 64); n > 0 && d.Err == nil; n-- {
+		tiles = append(tiles, d.readLayerPointer())
 	}
 
 	return tiles
-- 
2.43.0


From 8cb2d3d31a3ef6c36ec5c52103954968c7737876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:07 +0000
Subject: [PATCH 43/48] fix: xcf: do not believe the length of a parasite
 before it is read

---
 xcf/parasites.go | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/xcf/parasites.go b/xcf/parasites.go
index d36bdc6..5c34595 100644
--- a/xcf/parasites.go
+++ b/xcf/parasites.go
@@ -1,6 +1,7 @@
 package xcf
 
 import (
+	"bytes"
 	"errors"
 	"io"
 	"strconv"
@@ -36,27 +37,25 @@ func (p parasites) Get(name string) *parasite {
 func (d *reader) ReadParasites(l uint32) parasites {
 	ps := make(parasites, 0, 32)
 
-	for l > 0 {
+	for l > 0 && d.Err == nil {
 		var p parasite
 
 		p.name = d.ReadString()
 		p.flags = d.ReadUint32()
 		pplength := d.ReadUint32()
-		read := 4 + uint32(len(p.name)) + 1 // length (uint32) + string([]byte) + \0 (byte)
+		read := 4 + uint64(len(p.name)) + 1 // length (uint32) + string([]byte) + \0 (byte)
 		read += 4                           // flags
 		read += 4                           // pplength
-		read += pplength                    // len(data)
+		read += uint64(pplength)            // len(data)
 
-		if read > l {
+		if read > uint64(l) {
 			d.SetError(ErrInvalidParasites)
 
 			return nil
 		}
 
-		l -= read
-		p.data = make([]byte, pplength)
-
-		d.Read(p.data)
+		l -= uint32(read)
+		p.data = d.readData(pplength)
 
 		ps = append(ps, p)
 	}
@@ -71,13 +70,23 @@ func (d *reader) ReadParasite() parasite {
 	p.flags = d.ReadUint32()
 	pplength := d.ReadUint32()
 
-	p.data = make([]byte, pplength)
-
-	d.Read(p.data)
+	p.data = d.readData(pplength)
 
 	return p
 }
 
+// readData reads so many bytes, taking up memory only for those that are
+// there.
+func (d *reader) readData(n uint32) []byte {
+	var buf bytes.Buffer
+
+	if _, err := io.CopyN(&buf, d, int64(n)); err != nil {
+		d.SetError(err)
+	}
+
+	return buf.Bytes()
+}
+
 func (ps *parasite) Parse() ([]tag, error) {
 	p := parser.New(parser.NewByteTokeniser(ps.data))
 
-- 
2.43.0


From 17116e297fc9fe2d4d5a2435612ffe43236b389c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:08 +0000
Subject: [PATCH 44/48] fix: xcf: do not believe the length of an item path
 before it is read

---
 xcf/layer_decode.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xcf/layer_decode.go b/xcf/layer_decode.go
index 92ebe0c..61e2eb6 100644
--- a/xcf/layer_decode.go
+++ b/xcf/layer_decode.go
@@ -236,10 +236,10 @@ func (l *layer) readItemPath(d *decoder, plength uint32) {
 		d.SetError(ErrInvalidItemPathLength)
 	}
 
-	l.itemPath = make([]rune, plength>>2)
+	l.itemPath = nil
 
-	for i := uint32(0); i < plength>>2; i++ {
-		l.itemPath[i] = rune(d.ReadUint32())
+	for i := uint32(0); i < plength>>2 && d.Err == nil; i++ {
+		l.itemPath = append(l.itemPath, rune(d.ReadUint32()))
 	}
 }
 
-- 
2.43.0


From 511b6b06e31b8fa4e68cfb595462b9683d8557a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:08 +0000
Subject: [PATCH 45/48] fix: xcf: stop counting paths, points and guides when
 the file has ended

---
 xcf/decoder.go | 5 +----
 xcf/skip.go    | 8 ++++----
 2 files changed, 5 insertions(+), 8 deletions(-)

diff --git a/xcf/decoder.go b/xcf/decoder.go
index 325f264..b980a5a 100644
--- a/xcf/decoder.go
+++ b/xcf/decoder.go
@@ -271,10 +271,7 @@ PropertyLoop:
 				return nil, 0, ErrInvalidGuideLength
 			}
 
-			for n := uint32(0); n < ng; n++ {
-				dr.SkipUint32()
-				dr.SkipByte()
-			}
+			dr.Skip(plength)
 		case propPaths:
 			dr.SkipPaths()
 		case propResolution:
diff --git a/xcf/skip.go b/xcf/skip.go
index 6f3bad7..96688a9 100644
--- a/xcf/skip.go
+++ b/xcf/skip.go
@@ -41,7 +41,7 @@ func (r *reader) SkipPaths() {
 
 	n := r.ReadUint32()
 
-	for i := uint32(0); i < n; i++ {
+	for i := uint32(0); i < n && r.Err == nil; i++ {
 		r.SkipString()       // name
 		r.SkipBoolProperty() // linked
 		r.SkipByte()         // state
@@ -77,7 +77,7 @@ func (r *reader) SkipVectors() {
 
 	n := r.ReadUint32()
 
-	for i := uint32(0); i < n; i++ {
+	for i := uint32(0); i < n && r.Err == nil; i++ {
 		r.SkipString()       // name
 		r.SkipUint32()       // tattoo
 		r.SkipBoolProperty() // visible
@@ -86,11 +86,11 @@ func (r *reader) SkipVectors() {
 		m := r.ReadUint32()
 		k := r.ReadUint32()
 
-		for j := uint32(0); j < m; j++ {
+		for j := uint32(0); j < m && r.Err == nil; j++ {
 			r.SkipParasite()
 		}
 
-		for j := uint32(0); j < k; j++ {
+		for j := uint32(0); j < k && r.Err == nil; j++ {
 			if r.ReadUint32() != 1 { // stroke type
 				r.SetError(ErrUnknownStrokeType)
 
-- 
2.43.0


From 9f7fe1eebf005005bcfbee2b06572e8d87d6ecac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:09 +0000
Subject: [PATCH 46/48] fix: xcf: a seek that fails is an error

---
 xcf/reader.go | 4 +++-
 xcf/skip.go   | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/xcf/reader.go b/xcf/reader.go
index 3d1a281..0e062ca 100644
--- a/xcf/reader.go
+++ b/xcf/reader.go
@@ -54,7 +54,9 @@ func (r *reader) ReadString() string {
 }
 
 func (r *reader) Goto(n uint64) {
-	r.rs.Seek(int64(n), io.SeekStart)
+	if _, err := r.rs.Seek(int64(n), io.SeekStart); err != nil {
+		r.SetError(err)
+	}
 }
 
 func (r *reader) SetError(err error) {
diff --git a/xcf/skip.go b/xcf/skip.go
index 96688a9..13f9282 100644
--- a/xcf/skip.go
+++ b/xcf/skip.go
@@ -3,7 +3,9 @@ package xcf
 import "io"
 
 func (r *reader) Skip(n uint32) {
-	r.rs.Seek(int64(n), io.SeekCurrent)
+	if _, err := r.rs.Seek(int64(n), io.SeekCurrent); err != nil {
+		r.SetError(err)
+	}
 }
 
 func (r *reader) SkipBoolProperty() {
-- 
2.43.0


From 8c6d06e81e9a9b998a353b6eb86488b4e8e78854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:10 +0000
Subject: [PATCH 47/48] fix: xcf: a group is not replaced by another of the
 same path

---
 xcf/decoder.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xcf/decoder.go b/xcf/decoder.go
index b980a5a..c45f7fb 100644
--- a/xcf/decoder.go
+++ b/xcf/decoder.go
@@ -393,6 +393,10 @@ func makeGroups(layers []layer, bounds image.Rectangle) (map[string]*groupOffset
 		}
 
 		if l.group {
+			if groups[string(l.itemPath)] != nil {
+				return nil, ErrInvalidGroup
+			}
+
 			groups[string(l.itemPath)] = &groupOffset{
 				Group:   make(limage.Image, 0, 32),
 				OffsetX: l.LayerBounds.Min.X,
-- 
2.43.0


From 33386143e3c558fc5d7f896c6c11237c06cdcebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:11 +0000
Subject: [PATCH 48/48] fix: xcf: refuse to write pointers beyond 4 GiB

---
 xcf/channel.go      |  2 +-
 xcf/image_encode.go |  4 ++--
 xcf/layer_encode.go |  6 +++---
 xcf/writer.go       | 10 ++++++++++
 4 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/xcf/channel.go b/xcf/channel.go
index c2539d4..b2ff278 100644
--- a/xcf/channel.go
+++ b/xcf/channel.go
@@ -63,6 +63,6 @@ func (e *encoder) WriteChannel(c *image.Gray, b image.Rectangle) {
 	e.WriteUint32(0) // No properties
 	e.WriteUint32(0)
 
-	e.WriteUint32(uint32(e.pos) + 4) // hptr
+	e.WriteUint32(e.here() + 4) // hptr
 	e.WriteImage(c, b, (*encoder).grayToBuf, 1)
 }
diff --git a/xcf/image_encode.go b/xcf/image_encode.go
index 461f329..40cca93 100644
--- a/xcf/image_encode.go
+++ b/xcf/image_encode.go
@@ -17,7 +17,7 @@ func (e *encoder) WriteImage(im image.Image, bounds image.Rectangle, colourFunc
 	e.WriteUint32(uint32(dy))
 	e.WriteUint32(uint32(colourChannels))
 
-	e.WriteUint32(uint32(e.pos) + 8) // currPos + this pointer (4) + zero pointer (4)
+	e.WriteUint32(e.here() + 8) // currPos + this pointer (4) + zero pointer (4)
 	e.WriteUint32(0)
 
 	// Level
@@ -56,7 +56,7 @@ func (e *encoder) WriteImage(im image.Image, bounds image.Rectangle, colourFunc
 				}
 			}
 
-			w.WritePointer(uint32(e.pos))
+			w.WritePointer(e.here())
 
 			for n := uint8(0); n < colourChannels; n++ {
 				e.WriteRLE(e.channelBuf[n][:l])
diff --git a/xcf/layer_encode.go b/xcf/layer_encode.go
index 6555bea..9d5ccdb 100644
--- a/xcf/layer_encode.go
+++ b/xcf/layer_encode.go
@@ -15,7 +15,7 @@ func (e *encoder) WriteLayers(layers limage.Image, offsetX, offsetY int32, group
 }
 
 func (e *encoder) WriteLayer(im limage.Layer, offsetX, offsetY int32, groups []uint32, pw *pointerWriter) {
-	pw.WritePointer(uint32(e.pos))
+	pw.WritePointer(e.here())
 
 	var (
 		mask  *image.Gray
@@ -190,12 +190,12 @@ func writeLayer(e *encoder, img image.Image, mask *image.Gray, size image.Point)
 	bounds := image.Rectangle{Max: size}
 	ptrs := e.ReservePointers(2)
 
-	ptrs.WritePointer(uint32(e.pos))
+	ptrs.WritePointer(e.here())
 
 	e.WriteImage(img, bounds, e.colourFunc, e.colourChannels)
 
 	if mask != nil {
-		ptrs.WritePointer(uint32(e.pos))
+		ptrs.WritePointer(e.here())
 		e.WriteChannel(mask, bounds)
 	} else {
 		ptrs.WritePointer(0)
diff --git a/xcf/writer.go b/xcf/writer.go
index f30e8e4..d4676b1 100644
--- a/xcf/writer.go
+++ b/xcf/writer.go
@@ -3,6 +3,7 @@ package xcf
 import (
 	"errors"
 	"io"
+	"math"
 
 	"vimagination.zapto.org/byteio"
 )
@@ -34,6 +35,15 @@ func (w writer) WriteAt(p []byte, off int64) (int, error) {
 	return n, w.Err
 }
 
+// here is where the next byte is written, as a pointer to it.
+func (w writer) here() uint32 {
+	if w.pos > math.MaxUint32 && w.Err == nil {
+		w.Err = ErrTooBig
+	}
+
+	return uint32(w.pos)
+}
+
 func (w writer) Write(p []byte) {
 	w.StickyBigEndianWriter.Write(p)
 }
-- 
2.43.0

