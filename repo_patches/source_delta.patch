From e3ce2c2c361d6f337be260d48e3a22cc0e56562e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:00 +0000
Subject: [PATCH 01/60] fix: compose transforms as matrix products

Mult did not compute the matrix product for the translation part, Scale and
Translate multiplied from the other side than Rotate and Skew, and nested
transform attributes were applied in the wrong order. rotate(a,cx,cy), nested
groups and rounded rectangles with rx != ry ended up in the wrong place.
---
 matrix.go                | 36 ++++++++++++++++++------------------
 parse.go                 |  5 +++--
 renderer/draw2d/draw.go  |  2 +-
 renderer/gg/draw.go      |  2 +-
 renderer/options.go      |  2 +-
 renderer/rasterx/draw.go |  2 +-
 6 files changed, 25 insertions(+), 24 deletions(-)

diff --git a/matrix.go b/matrix.go
index 755d110..db90022 100644
--- a/matrix.go
+++ b/matrix.go
@@ -73,8 +73,8 @@ func (a Matrix2D) Mult(b Matrix2D) Matrix2D {
 		B: a.B*b.A + a.D*b.B,
 		C: a.A*b.C + a.C*b.D,
 		D: a.B*b.C + a.D*b.D,
-		E: a.A*b.E + a.C*b.F + a.E*b.A,
-		F: a.B*b.E + a.D*b.F + a.F*b.D,
+		E: a.A*b.E + a.C*b.F + a.E,
+		F: a.B*b.E + a.D*b.F + a.F,
 	}
 }
 
@@ -106,14 +106,14 @@ func (a Matrix2D) TransformVector(x1, y1 float64) (x2, y2 float64) {
 
 // Scale matrix in x and y dimensions
 func (a Matrix2D) Scale(x, y float64) Matrix2D {
-	return Matrix2D{
-		A: a.A * x,
-		B: a.B * y,
-		C: a.C * x,
-		D: a.D * y,
-		E: a.E * x,
-		F: a.F * y,
-	}
+	return a.Mult(Matrix2D{
+		A: x,
+		B: 0,
+		C: 0,
+		D: y,
+		E: 0,
+		F: 0,
+	})
 }
 
 // SkewY skews the matrix in the Y dimension
@@ -142,14 +142,14 @@ func (a Matrix2D) SkewX(theta float64) Matrix2D {
 
 // Translate translates the matrix to the x , y point
 func (a Matrix2D) Translate(x, y float64) Matrix2D {
-	return Matrix2D{
-		A: a.A,
-		B: a.B,
-		C: a.C,
-		D: a.D,
-		E: a.E + x,
-		F: a.F + y,
-	}
+	return a.Mult(Matrix2D{
+		A: 1,
+		B: 0,
+		C: 0,
+		D: 1,
+		E: x,
+		F: y,
+	})
 }
 
 // Rotate rotate the matrix by theta
diff --git a/parse.go b/parse.go
index a45309f..a77b3ba 100644
--- a/parse.go
+++ b/parse.go
@@ -109,8 +109,9 @@ func (c *svgCursor) parseTransform(v string) (Matrix2D, error) {
 	ts := strings.Split(v, ")")
 	m1 := c.styleStack[len(c.styleStack)-1].Transform
 	// From the docs at https://devdoc.net/web/developer.mozilla.org/en-US/docs/Web/SVG/Attribute/transform.html:
-	// The items in the transform list are separated by whitespace and/or commas, and are applied from right to left.
-	for i := len(ts) - 1; i >= 0; i-- {
+	// The items in the transform list are separated by whitespace and/or commas, and are applied from right to left,
+	// that is, their matrices are multiplied from left to right onto the transform of the parent.
+	for i := range ts {
 		t := strings.TrimSpace(ts[i])
 		if len(t) == 0 {
 			continue
diff --git a/renderer/draw2d/draw.go b/renderer/draw2d/draw.go
index 4c51a27..f44d74f 100644
--- a/renderer/draw2d/draw.go
+++ b/renderer/draw2d/draw.go
@@ -73,7 +73,7 @@ func toGradient(g svg.Gradient, opacity float64) color.Color {
 
 // drawTransformed draws the compiled SvgPath into the driver while applying transform t.
 func drawTransformed(gc draw2d.GraphicContext, svgp svg.SvgPath, opt *renderer.RenderOptions) {
-	m := svgp.Style.Transform.Mult(opt.Target)
+	m := opt.Target.Mult(svgp.Style.Transform)
 
 	if svgp.Style.FillerColor != nil {
 		var fr draw2d.FillRule
diff --git a/renderer/gg/draw.go b/renderer/gg/draw.go
index c586d20..0b58a09 100644
--- a/renderer/gg/draw.go
+++ b/renderer/gg/draw.go
@@ -14,7 +14,7 @@ import (
 func Draw(gc *gg.Context, s *svg.Svg, opts ...renderer.RenderOption) error {
 	opt := renderer.Options(s, opts...)
 	for _, svgp := range s.SvgPaths {
-		if err := drawTransformed(gc, s, svgp, svgp.Style.Transform.Mult(opt.Target), opt.Opacity); err != nil {
+		if err := drawTransformed(gc, s, svgp, opt.Target.Mult(svgp.Style.Transform), opt.Opacity); err != nil {
 			return err
 		}
 	}
diff --git a/renderer/options.go b/renderer/options.go
index cc9b06f..e47f199 100644
--- a/renderer/options.go
+++ b/renderer/options.go
@@ -30,7 +30,7 @@ type targetOption struct {
 func (o targetOption) apply(s *svg.Svg, r *RenderOptions) {
 	scaleW := o.W / s.ViewBox.W
 	scaleH := o.H / s.ViewBox.H
-	r.Target = svg.Identity.Translate(o.X-s.ViewBox.X, o.Y-s.ViewBox.Y).Scale(scaleW, scaleH)
+	r.Target = svg.Identity.Scale(scaleW, scaleH).Translate(o.X-s.ViewBox.X, o.Y-s.ViewBox.Y)
 }
 
 // Target specifies the rectangle to draw within.
diff --git a/renderer/rasterx/draw.go b/renderer/rasterx/draw.go
index b49b9cb..97293ca 100644
--- a/renderer/rasterx/draw.go
+++ b/renderer/rasterx/draw.go
@@ -129,7 +129,7 @@ func toRasterxGradient(grad svg.Gradient) rasterx.Gradient {
 
 // drawTransformed draws the compiled SvgPath into the driver while applying transform t.
 func drawTransformed(gc *rasterx.Dasher, svgp svg.SvgPath, opt *renderer.RenderOptions) {
-	m := svgp.Style.Transform.Mult(opt.Target)
+	m := opt.Target.Mult(svgp.Style.Transform)
 
 	if svgp.Style.FillerColor != nil {
 		filler := &gc.Filler
-- 
2.43.0


From 03042f99137d0d91be1c816bfcd479922f6dd601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:00 +0000
Subject: [PATCH 02/60] fix: map the view box onto the target rectangle

The target position was scaled together with the view box, and without a
target every point was mapped to the origin.
---
 renderer/options.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/renderer/options.go b/renderer/options.go
index e47f199..8097ce4 100644
--- a/renderer/options.go
+++ b/renderer/options.go
@@ -30,7 +30,7 @@ type targetOption struct {
 func (o targetOption) apply(s *svg.Svg, r *RenderOptions) {
 	scaleW := o.W / s.ViewBox.W
 	scaleH := o.H / s.ViewBox.H
-	r.Target = svg.Identity.Scale(scaleW, scaleH).Translate(o.X-s.ViewBox.X, o.Y-s.ViewBox.Y)
+	r.Target = svg.Identity.Translate(o.X, o.Y).Scale(scaleW, scaleH).Translate(-s.ViewBox.X, -s.ViewBox.Y)
 }
 
 // Target specifies the rectangle to draw within.
@@ -42,6 +42,7 @@ func Target(x, y, w, h float64) RenderOption {
 func Options(s *svg.Svg, opts ...RenderOption) *RenderOptions {
 	r := &RenderOptions{
 		Opacity: 1,
+		Target:  svg.Identity,
 	}
 	for _, o := range opts {
 		o.apply(s, r)
-- 
2.43.0


From 89c7376cba65dc3830e570b89c27e720a614f1e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:00 +0000
Subject: [PATCH 03/60] fix: translate() with one argument does not move
 vertically

---
 parse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse.go b/parse.go
index a77b3ba..7ddc442 100644
--- a/parse.go
+++ b/parse.go
@@ -60,7 +60,7 @@ func (c *svgCursor) readTransformAttr(m1 Matrix2D, k string) (Matrix2D, error) {
 		}
 	case "translate":
 		if ln == 1 {
-			m1 = m1.Translate(c.points[0], c.points[0])
+			m1 = m1.Translate(c.points[0], 0)
 		} else if ln == 2 {
 			m1 = m1.Translate(c.points[0], c.points[1])
 		} else {
-- 
2.43.0


From c0f9da470737168e1eb3accab629ee6d498e2f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:00 +0000
Subject: [PATCH 04/60] fix: accept comma separated transform lists

---
 parse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse.go b/parse.go
index 7ddc442..a1a3c7b 100644
--- a/parse.go
+++ b/parse.go
@@ -112,7 +112,7 @@ func (c *svgCursor) parseTransform(v string) (Matrix2D, error) {
 	// The items in the transform list are separated by whitespace and/or commas, and are applied from right to left,
 	// that is, their matrices are multiplied from left to right onto the transform of the parent.
 	for i := range ts {
-		t := strings.TrimSpace(ts[i])
+		t := strings.Trim(ts[i], ", \t\r\n")
 		if len(t) == 0 {
 			continue
 		}
-- 
2.43.0


From 2dd5970a2608bd45ca807996eae768f9c5938816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:21 +0000
Subject: [PATCH 05/60] fix: gradientTransform is not relative to the place of
 the gradient element

The transform of the elements around a gradient definition leaked into the
gradient matrix, but only for gradients that have a gradientTransform.
---
 parse.go    | 5 ++---
 patterns.go | 2 +-
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/parse.go b/parse.go
index a1a3c7b..865cb8a 100644
--- a/parse.go
+++ b/parse.go
@@ -105,9 +105,8 @@ func (c *svgCursor) readTransformAttr(m1 Matrix2D, k string) (Matrix2D, error) {
 	return m1, nil
 }
 
-func (c *svgCursor) parseTransform(v string) (Matrix2D, error) {
+func (c *svgCursor) parseTransform(m1 Matrix2D, v string) (Matrix2D, error) {
 	ts := strings.Split(v, ")")
-	m1 := c.styleStack[len(c.styleStack)-1].Transform
 	// From the docs at https://devdoc.net/web/developer.mozilla.org/en-US/docs/Web/SVG/Attribute/transform.html:
 	// The items in the transform list are separated by whitespace and/or commas, and are applied from right to left,
 	// that is, their matrices are multiplied from left to right onto the transform of the parent.
@@ -285,7 +284,7 @@ func (c *svgCursor) readStyleAttr(curStyle *PathStyle, k, v string) error {
 			curStyle.LineOpacity *= op
 		}
 	case "transform":
-		m, err := c.parseTransform(v)
+		m, err := c.parseTransform(c.styleStack[len(c.styleStack)-1].Transform, v)
 		if err != nil {
 			return err
 		}
diff --git a/patterns.go b/patterns.go
index fe7f40f..70afbd4 100644
--- a/patterns.go
+++ b/patterns.go
@@ -274,7 +274,7 @@ func (c *svgCursor) readGradURL(v string, defaultColor Pattern) (grad Gradient,
 func (c *svgCursor) readGradAttr(attr xml.Attr) (err error) {
 	switch attr.Name.Local {
 	case "gradientTransform":
-		c.grad.Matrix, err = c.parseTransform(attr.Value)
+		c.grad.Matrix, err = c.parseTransform(Identity, attr.Value)
 	case "gradientUnits":
 		switch strings.TrimSpace(attr.Value) {
 		case "userSpaceOnUse":
-- 
2.43.0


From 0d523de40848d9eacdc9ae9ee34122a72e953a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:22 +0000
Subject: [PATCH 06/60] fix: draw every arc of an arc command with several
 argument groups

All groups were drawn with the arguments of the first one.
---
 parse_path.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse_path.go b/parse_path.go
index d87d75f..f681e2e 100644
--- a/parse_path.go
+++ b/parse_path.go
@@ -400,5 +400,5 @@ func (c *pathCursor) ellipseAt(cx, cy, rx, ry float64) {
 func (c *pathCursor) addArcFromA(points []float64) {
 	cx, cy := findEllipseCenter(&points[0], &points[1], points[2]*math.Pi/180, c.placeX,
 		c.placeY, points[5], points[6], points[4] == 0, points[3] == 0)
-	c.placeX, c.placeY = c.path.addArc(c.points, cx+c.curX, cy+c.curY, c.placeX+c.curX, c.placeY+c.curY)
+	c.placeX, c.placeY = c.path.addArc(points, cx+c.curX, cy+c.curY, c.placeX+c.curX, c.placeY+c.curY)
 }
-- 
2.43.0


From ea2eb265436ee93708bf9d7e3cd1a38f6cf3b290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:23 +0000
Subject: [PATCH 07/60] fix: arcs with a zero radius, negative radius or
 coincident endpoints

These arcs produced NaN coordinates; SVG asks for a straight line, for the
magnitude of the radius, and for no segment at all.
---
 parse_path.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/parse_path.go b/parse_path.go
index f681e2e..e3334a0 100644
--- a/parse_path.go
+++ b/parse_path.go
@@ -398,6 +398,16 @@ func (c *pathCursor) ellipseAt(cx, cy, rx, ry float64) {
 
 // addArcFromA adds a path of an arc element to the svgCursor path to the pathCursor
 func (c *pathCursor) addArcFromA(points []float64) {
+	if points[5] == c.placeX && points[6] == c.placeY {
+		return // coincident endpoints: the segment is omitted
+	}
+	if points[0] == 0 || points[1] == 0 {
+		// a zero radius gives a straight line
+		c.placeX, c.placeY = points[5], points[6]
+		c.path.Line(toFixedP(c.placeX+c.curX, c.placeY+c.curY))
+		return
+	}
+	points[0], points[1] = math.Abs(points[0]), math.Abs(points[1])
 	cx, cy := findEllipseCenter(&points[0], &points[1], points[2]*math.Pi/180, c.placeX,
 		c.placeY, points[5], points[6], points[4] == 0, points[3] == 0)
 	c.placeX, c.placeY = c.path.addArc(points, cx+c.curX, cy+c.curY, c.placeX+c.curX, c.placeY+c.curY)
-- 
2.43.0


From 4433114f77827c6e531ae66c496650c86dfae198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:19 +0000
Subject: [PATCH 08/60] fix: use draws the whole referenced definition with its
 own styles

Every element inside defs is recorded together with its end, so that nested
ids and un-named siblings no longer tear definitions apart, the shapes of a
definition keep their own style, x and y translate the definition as a whole,
and definitions that use themselves are an error instead of a stack overflow.
---
 parse.go        | 34 ++++++++++++++++++++++++++++------
 svg.go          | 17 +++++++----------
 svg_elements.go | 39 ++++++++++++++++++++++++++++-----------
 3 files changed, 63 insertions(+), 27 deletions(-)

diff --git a/parse.go b/parse.go
index 865cb8a..08b4e08 100644
--- a/parse.go
+++ b/parse.go
@@ -20,10 +20,13 @@ type (
 		grad                                            *Gradient
 		inTitleText, inDescText, inGrad, inDefs, inMask bool
 		currentDef                                      []definition
+		openDefs                                        []int           // positions in currentDef of the open elements inside defs, -1 if not recorded
+		usedIDs                                         map[string]bool // definitions being expanded by use
 		mask                                            *SvgMask
 	}
 
-	// definition is used to store what's given in a def tag
+	// definition is used to store what's given in a def tag,
+	// an empty Tag marks the end of the innermost open element
 	definition struct {
 		ID, Tag string
 		Attrs   []xml.Attr
@@ -343,6 +346,9 @@ func (c *svgCursor) readStartElement(se xml.StartElement) (err error) {
 	if se.Name.Local == "radialGradient" || se.Name.Local == "linearGradient" || c.inGrad {
 		skipDef = true
 	}
+	if c.inDefs && skipDef {
+		c.openDefs = append(c.openDefs, -1)
+	}
 	if c.inDefs && !skipDef {
 		ID := ""
 		for _, attr := range se.Attr {
@@ -350,10 +356,7 @@ func (c *svgCursor) readStartElement(se xml.StartElement) (err error) {
 				ID = attr.Value
 			}
 		}
-		if ID != "" && len(c.currentDef) > 0 {
-			c.svg.defs[c.currentDef[0].ID] = c.currentDef
-			c.currentDef = make([]definition, 0)
-		}
+		c.openDefs = append(c.openDefs, len(c.currentDef))
 		c.currentDef = append(c.currentDef, definition{
 			ID:    ID,
 			Tag:   se.Name.Local,
@@ -372,7 +375,27 @@ func (c *svgCursor) readStartElement(se xml.StartElement) (err error) {
 		return nil
 	}
 	err = df(c, se.Attr)
+	c.addPath()
+	return
+}
 
+// closeDef records the end of an element inside defs and,
+// if it has an ID, makes it available to use.
+func (c *svgCursor) closeDef() {
+	start := c.openDefs[len(c.openDefs)-1]
+	c.openDefs = c.openDefs[:len(c.openDefs)-1]
+	if start < 0 {
+		return
+	}
+	c.currentDef = append(c.currentDef, definition{})
+	if ID := c.currentDef[start].ID; ID != "" {
+		c.svg.defs[ID] = append([]definition{}, c.currentDef[start:]...)
+	}
+}
+
+// addPath moves the path of the cursor, if there is one,
+// to the document or to the current mask.
+func (c *svgCursor) addPath() {
 	if len(c.path) > 0 {
 		// The svgCursor parsed a path from the xml element
 		pathCopy := append(Path{}, c.path...)
@@ -385,5 +408,4 @@ func (c *svgCursor) readStartElement(se xml.StartElement) (err error) {
 		}
 		c.path = c.path[:0]
 	}
-	return
 }
diff --git a/svg.go b/svg.go
index 81bd73d..057a123 100644
--- a/svg.go
+++ b/svg.go
@@ -97,13 +97,11 @@ func Parse(stream io.Reader, errMode ErrorMode) (*Svg, error) {
 		case xml.EndElement:
 			// pop style
 			svgCursor.styleStack = svgCursor.styleStack[:len(svgCursor.styleStack)-1]
+			inOpenDef := len(svgCursor.openDefs) > 0
+			if inOpenDef {
+				svgCursor.closeDef()
+			}
 			switch se.Name.Local {
-			case "g":
-				if svgCursor.inDefs {
-					svgCursor.currentDef = append(svgCursor.currentDef, definition{
-						Tag: "endg",
-					})
-				}
 			case "mask":
 				if svgCursor.mask != nil {
 					svgCursor.svg.SvgMasks[svgCursor.mask.ID] = svgCursor.mask
@@ -115,11 +113,10 @@ func Parse(stream io.Reader, errMode ErrorMode) (*Svg, error) {
 			case "desc":
 				svgCursor.inDescText = false
 			case "defs":
-				if len(svgCursor.currentDef) > 0 {
-					svgCursor.svg.defs[svgCursor.currentDef[0].ID] = svgCursor.currentDef
-					svgCursor.currentDef = make([]definition, 0)
+				if !inOpenDef {
+					svgCursor.currentDef = svgCursor.currentDef[:0]
+					svgCursor.inDefs = false
 				}
-				svgCursor.inDefs = false
 			case "radialGradient", "linearGradient":
 				svgCursor.inGrad = false
 			}
diff --git a/svg_elements.go b/svg_elements.go
index 93ba5f9..2c76947 100644
--- a/svg_elements.go
+++ b/svg_elements.go
@@ -458,10 +458,9 @@ func useF(c *svgCursor, attrs []xml.Attr) error {
 			return err
 		}
 	}
-	c.curX, c.curY = x, y
-	defer func() {
-		c.curX, c.curY = 0, 0
-	}()
+	// x and y are a translation appended to the transform of the use element
+	style := &c.styleStack[len(c.styleStack)-1]
+	style.Transform = style.Transform.Translate(x, y)
 	if href == "" {
 		return errors.New("only use tags with href is supported")
 	}
@@ -472,27 +471,45 @@ func useF(c *svgCursor, attrs []xml.Attr) error {
 	if !ok {
 		return errors.New("href ID in use statement was not found in saved defs")
 	}
+	if c.usedIDs[href[1:]] {
+		return errors.New("use statement references itself")
+	}
+	if c.usedIDs == nil {
+		c.usedIDs = make(map[string]bool)
+	}
+	c.usedIDs[href[1:]] = true
+	defer delete(c.usedIDs, href[1:])
+	skip := 0 // number of open elements that are part of a nested defs
 	for _, def := range defs {
-		if def.Tag == "endg" {
+		if def.Tag == "" {
 			// pop style
 			c.styleStack = c.styleStack[:len(c.styleStack)-1]
+			if skip > 0 {
+				skip--
+			}
 			continue
 		}
 		if err = c.pushStyle(def.Attrs); err != nil {
 			return err
 		}
+		if skip > 0 || def.Tag == "defs" {
+			skip++
+			continue
+		}
+		if def.Tag == "title" || def.Tag == "desc" {
+			continue // the text of a definition is not part of the document
+		}
 		df, ok := drawFuncs[def.Tag]
 		if !ok {
-			errStr := "Cannot process svg element " + def.Tag
-			return c.handleError(errStr)
+			if err := c.handleError("Cannot process svg element %s", def.Tag); err != nil {
+				return err
+			}
+			continue
 		}
 		if err := df(c, def.Attrs); err != nil {
 			return err
 		}
-		if def.Tag != "g" {
-			// pop style
-			c.styleStack = c.styleStack[:len(c.styleStack)-1]
-		}
+		c.addPath()
 	}
 	return nil
 }
-- 
2.43.0


From b923ced2dcaf45c2722580d14f3a47361d9e2cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:33 +0000
Subject: [PATCH 09/60] fix: mask references of siblings no longer overwrite
 each other

---
 parse.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parse.go b/parse.go
index 08b4e08..78de05d 100644
--- a/parse.go
+++ b/parse.go
@@ -297,7 +297,8 @@ func (c *svgCursor) readStyleAttr(curStyle *PathStyle, k, v string) error {
 		if err != nil {
 			return err
 		}
-		curStyle.Masks = append(curStyle.Masks, id)
+		// copy, the slice is shared with the styles of the siblings
+		curStyle.Masks = append(append([]string{}, curStyle.Masks...), id)
 	}
 	return nil
 }
-- 
2.43.0


From 6567bb9c1c57161fe2d5e94e4b6ad9b3db55a484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:33 +0000
Subject: [PATCH 10/60] fix: collect masks that are defined inside defs

---
 parse.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parse.go b/parse.go
index 78de05d..eb8d356 100644
--- a/parse.go
+++ b/parse.go
@@ -347,6 +347,10 @@ func (c *svgCursor) readStartElement(se xml.StartElement) (err error) {
 	if se.Name.Local == "radialGradient" || se.Name.Local == "linearGradient" || c.inGrad {
 		skipDef = true
 	}
+	// masks are collected wherever they stand
+	if n := len(c.openDefs); se.Name.Local == "mask" || n > 0 && c.openDefs[n-1] < 0 {
+		skipDef = true
+	}
 	if c.inDefs && skipDef {
 		c.openDefs = append(c.openDefs, -1)
 	}
-- 
2.43.0


From e1df2fa385bb1cf4b624f04b26be54e924f001cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:18 +0000
Subject: [PATCH 11/60] fix: mask="none" is not a mask reference

---
 parse.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parse.go b/parse.go
index eb8d356..cd1237f 100644
--- a/parse.go
+++ b/parse.go
@@ -297,6 +297,9 @@ func (c *svgCursor) readStyleAttr(curStyle *PathStyle, k, v string) error {
 		if err != nil {
 			return err
 		}
+		if id == "" {
+			break // no reference
+		}
 		// copy, the slice is shared with the styles of the siblings
 		curStyle.Masks = append(append([]string{}, curStyle.Masks...), id)
 	}
-- 
2.43.0


From 7b70197be0fd9143d342f49f12490151691303e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:18 +0000
Subject: [PATCH 12/60] fix: a mask inside a mask does not end the outer mask

---
 parse.go        | 1 +
 svg.go          | 6 ++++--
 svg_elements.go | 1 +
 3 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/parse.go b/parse.go
index cd1237f..4b65699 100644
--- a/parse.go
+++ b/parse.go
@@ -23,6 +23,7 @@ type (
 		openDefs                                        []int           // positions in currentDef of the open elements inside defs, -1 if not recorded
 		usedIDs                                         map[string]bool // definitions being expanded by use
 		mask                                            *SvgMask
+		outerMasks                                      []*SvgMask // masks around the current mask
 	}
 
 	// definition is used to store what's given in a def tag,
diff --git a/svg.go b/svg.go
index 057a123..0fa0e1f 100644
--- a/svg.go
+++ b/svg.go
@@ -105,9 +105,11 @@ func Parse(stream io.Reader, errMode ErrorMode) (*Svg, error) {
 			case "mask":
 				if svgCursor.mask != nil {
 					svgCursor.svg.SvgMasks[svgCursor.mask.ID] = svgCursor.mask
-					svgCursor.mask = nil
+					// continue with the mask around it, if there is one
+					n := len(svgCursor.outerMasks) - 1
+					svgCursor.mask, svgCursor.outerMasks = svgCursor.outerMasks[n], svgCursor.outerMasks[:n]
 				}
-				svgCursor.inMask = false
+				svgCursor.inMask = svgCursor.mask != nil
 			case "title":
 				svgCursor.inTitleText = false
 			case "desc":
diff --git a/svg_elements.go b/svg_elements.go
index 2c76947..41ce082 100644
--- a/svg_elements.go
+++ b/svg_elements.go
@@ -135,6 +135,7 @@ func maskF(c *svgCursor, attrs []xml.Attr) error {
 	}
 
 	c.inMask = true
+	c.outerMasks = append(c.outerMasks, c.mask)
 	c.mask = &SvgMask{
 		ID:        id,
 		X:         x,
-- 
2.43.0


From ae55e58dd08566c54552c67984fdafac2fed1bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:45 +0000
Subject: [PATCH 13/60] fix: apply the transforms inside a mask

---
 renderer/gg/draw.go | 2 +-
 svg_elements.go     | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/renderer/gg/draw.go b/renderer/gg/draw.go
index 0b58a09..9dec7b9 100644
--- a/renderer/gg/draw.go
+++ b/renderer/gg/draw.go
@@ -178,7 +178,7 @@ func getMask(s *svg.Svg, masks []string, rectangle image.Rectangle, m svg.Matrix
 	// }
 
 	for _, op := range mask.SvgPaths {
-		if err := drawTransformed(gc, s, op, m, 1); err != nil {
+		if err := drawTransformed(gc, s, op, m.Mult(op.Style.Transform), 1); err != nil {
 			return nil, err
 		}
 	}
diff --git a/svg_elements.go b/svg_elements.go
index 41ce082..9dd5e20 100644
--- a/svg_elements.go
+++ b/svg_elements.go
@@ -134,6 +134,10 @@ func maskF(c *svgCursor, attrs []xml.Attr) error {
 		}
 	}
 
+	// the content lives in the user space of the masked element,
+	// not in the one of the mask element
+	c.styleStack[len(c.styleStack)-1].Transform = Identity
+
 	c.inMask = true
 	c.outerMasks = append(c.outerMasks, c.mask)
 	c.mask = &SvgMask{
-- 
2.43.0


From 7ba99c4547e2d76b2a99c8e61a9fc6daa4df62df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:46 +0000
Subject: [PATCH 14/60] fix: no panic on malformed colours, clamp rgb()
 components

---
 patterns.go | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/patterns.go b/patterns.go
index 70afbd4..06b64de 100644
--- a/patterns.go
+++ b/patterns.go
@@ -90,7 +90,7 @@ func parseSVGColor(colorStr string) (optionnalColor, error) {
 		}
 		return toOptColor(NewPlainColor(cvals[0], cvals[1], cvals[2], 0xFF)), nil
 	}
-	if colorStr[0] == '#' {
+	if strings.HasPrefix(colorStr, "#") {
 		r, g, b, err := parseSVGColorNum(colorStr)
 		if err != nil {
 			return optionnalColor{}, err
@@ -101,25 +101,33 @@ func parseSVGColor(colorStr string) (optionnalColor, error) {
 }
 
 func parseColorValue(v string) (uint8, error) {
-	if v[len(v)-1] == '%' {
-		n, err := strconv.Atoi(strings.TrimSpace(v[:len(v)-1]))
-		if err != nil {
-			return 0, err
-		}
-		return uint8(n * 0xFF / 100), nil
+	v = strings.TrimSpace(v)
+	percent := strings.HasSuffix(v, "%")
+	n, err := strconv.Atoi(strings.TrimSpace(strings.TrimSuffix(v, "%")))
+	if err != nil {
+		return 0, err
 	}
-	n, err := strconv.Atoi(strings.TrimSpace(v))
-	if n > 255 {
-		n = 255
+	max := 0xFF
+	if percent {
+		max = 100
 	}
-	return uint8(n), err
+	if n < 0 {
+		n = 0
+	} else if n > max {
+		n = max
+	}
+	return uint8(n * 0xFF / max), nil
 }
 
 // parseSVGColorNum reads the SFG color string e.g. #FBD9BD
 func parseSVGColorNum(colorStr string) (r, g, b uint8, err error) {
 	colorStr = strings.TrimPrefix(colorStr, "#")
 	var t uint64
-	if len(colorStr) != 6 {
+	if len(colorStr) != 3 && len(colorStr) != 6 {
+		err = errParamMismatch
+		return
+	}
+	if len(colorStr) == 3 {
 		// SVG specs say duplicate characters in case of 3 digit hex number
 		colorStr = string([]byte{
 			colorStr[0], colorStr[0],
-- 
2.43.0


From 1ecc5921282fa2d64fef04d087886715db9bf945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:14 +0000
Subject: [PATCH 15/60] fix: stroke-dasharray="none" turns inherited dashes off

---
 parse.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parse.go b/parse.go
index 4b65699..8ea5767 100644
--- a/parse.go
+++ b/parse.go
@@ -276,6 +276,7 @@ func (c *svgCursor) readStyleAttr(curStyle *PathStyle, k, v string) error {
 			curStyle.Dash.Dash = dList
 			break
 		}
+		curStyle.Dash.Dash = nil
 	case "opacity", "stroke-opacity", "fill-opacity":
 		op, err := parseBasicFloat(v)
 		if err != nil {
-- 
2.43.0


From eecb4f179a56ce773fdae0c882532e5a66755bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:14 +0000
Subject: [PATCH 16/60] fix: polyline and polygon draw their own points, two
 are enough

---
 svg_elements.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/svg_elements.go b/svg_elements.go
index 9dd5e20..bb3a1f2 100644
--- a/svg_elements.go
+++ b/svg_elements.go
@@ -211,6 +211,7 @@ func lineF(c *svgCursor, attrs []xml.Attr) error {
 
 func polylineF(c *svgCursor, attrs []xml.Attr) error {
 	var err error
+	c.points = c.points[:0] // do not use the points of another element
 	for _, attr := range attrs {
 		switch attr.Name.Local {
 		case "points":
@@ -223,7 +224,7 @@ func polylineF(c *svgCursor, attrs []xml.Attr) error {
 			return err
 		}
 	}
-	if len(c.points) > 4 {
+	if len(c.points) >= 4 {
 		c.path.Start(fixed.Point26_6{
 			X: fixed.Int26_6((c.points[0] + c.curX) * 64),
 			Y: fixed.Int26_6((c.points[1] + c.curY) * 64),
@@ -240,7 +241,7 @@ func polylineF(c *svgCursor, attrs []xml.Attr) error {
 
 func polygonF(c *svgCursor, attrs []xml.Attr) error {
 	err := polylineF(c, attrs)
-	if len(c.points) > 4 {
+	if len(c.path) > 0 {
 		c.path.Stop(true)
 	}
 	return err
-- 
2.43.0


From c3b4d18bd36b0d97b98da2de9bd21367ce92a51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:15 +0000
Subject: [PATCH 17/60] fix: text form of a cubic starts with a single C

---
 path.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/path.go b/path.go
index 1c72359..1c3d8c8 100644
--- a/path.go
+++ b/path.go
@@ -47,7 +47,7 @@ func (op OpQuadTo) String() string {
 }
 
 func (op OpCubicTo) String() string {
-	return "C" + fmt.Sprintf("C%4.3f,%4.3f,%4.3f,%4.3f,%4.3f,%4.3f", float32(op[0].X)/64, float32(op[0].Y)/64,
+	return fmt.Sprintf("C%4.3f,%4.3f,%4.3f,%4.3f,%4.3f,%4.3f", float32(op[0].X)/64, float32(op[0].Y)/64,
 		float32(op[1].X)/64, float32(op[1].Y)/64, float32(op[2].X)/64, float32(op[2].Y)/64)
 }
 
-- 
2.43.0


From 191c7023db99f8bd5d4af7642fe6811f25b19f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:16 +0000
Subject: [PATCH 18/60] fix: the default focal radius of a radial gradient is
 zero

---
 svg_elements.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svg_elements.go b/svg_elements.go
index bb3a1f2..8273117 100644
--- a/svg_elements.go
+++ b/svg_elements.go
@@ -341,7 +341,7 @@ func radialGradientF(c *svgCursor, attrs []xml.Attr) error {
 	c.grad = &Gradient{Bounds: c.svg.ViewBox, Matrix: Identity}
 	var setFx, setFy bool
 	var err error
-	directionStrings := [6]string{"50%", "50%", "50%", "50%", "50%", "50%"} // default values
+	directionStrings := [6]string{"50%", "50%", "50%", "50%", "50%", "0%"} // default values
 	for _, attr := range attrs {
 		switch attr.Name.Local {
 		case "id":
-- 
2.43.0


From 06b9dd04d9cd66b172937bde6a4e710808ecc601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:17 +0000
Subject: [PATCH 19/60] fix: nested svg elements do not replace the size of the
 document

---
 parse.go        | 1 +
 svg_elements.go | 4 ++++
 2 files changed, 5 insertions(+)

diff --git a/parse.go b/parse.go
index 8ea5767..88f4a6c 100644
--- a/parse.go
+++ b/parse.go
@@ -19,6 +19,7 @@ type (
 		styleStack                                      []PathStyle
 		grad                                            *Gradient
 		inTitleText, inDescText, inGrad, inDefs, inMask bool
+		inSvg                                           bool // the outermost svg element has been read
 		currentDef                                      []definition
 		openDefs                                        []int           // positions in currentDef of the open elements inside defs, -1 if not recorded
 		usedIDs                                         map[string]bool // definitions being expanded by use
diff --git a/svg_elements.go b/svg_elements.go
index 8273117..e99d8e6 100644
--- a/svg_elements.go
+++ b/svg_elements.go
@@ -36,6 +36,10 @@ var drawFuncs = map[string]svgFunc{
 }
 
 func svgF(c *svgCursor, attrs []xml.Attr) error {
+	if c.inSvg {
+		return nil // only the outermost svg element describes the document
+	}
+	c.inSvg = true
 	c.svg.ViewBox.X = 0
 	c.svg.ViewBox.Y = 0
 	c.svg.ViewBox.W = 0
-- 
2.43.0


From 248c24275e23ed4dfc1713f6940afef423140ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:05 +0000
Subject: [PATCH 20/60] fix: read numbers with exponents as SVG defines them

---
 parse_path.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/parse_path.go b/parse_path.go
index e3334a0..2c8638c 100644
--- a/parse_path.go
+++ b/parse_path.go
@@ -6,6 +6,7 @@ import (
 	"errors"
 	"log"
 	"math"
+	"strings"
 	"unicode"
 
 	"golang.org/x/image/math/fixed"
@@ -57,7 +58,7 @@ func (c *pathCursor) compilePath(svgPath string) error {
 	c.init()
 	lastIndex := -1
 	for i, v := range svgPath {
-		if unicode.IsLetter(v) && v != 'e' {
+		if unicode.IsLetter(v) && v != 'e' && v != 'E' {
 			if lastIndex != -1 {
 				if err := c.addSeg(svgPath[lastIndex:i]); err != nil {
 					return err
@@ -114,7 +115,7 @@ func (c *pathCursor) readFloat(numStr string) error {
 	isFirst := true
 	for i, n := range numStr {
 		if n == '.' {
-			if isFirst {
+			if isFirst && !strings.ContainsAny(numStr[last:i], "eE") {
 				isFirst = false
 				continue
 			}
@@ -141,7 +142,7 @@ func (c *pathCursor) getPoints(dataPoints string) error {
 	c.points = c.points[0:0]
 	lr := ' '
 	for i, r := range dataPoints {
-		if !unicode.IsNumber(r) && r != '.' && !(r == '-' && lr == 'e') && r != 'e' {
+		if !unicode.IsNumber(r) && r != '.' && !((r == '-' || r == '+') && (lr == 'e' || lr == 'E')) && r != 'e' && r != 'E' {
 			if lastIndex != -1 {
 				if err := c.readFloat(dataPoints[lastIndex:i]); err != nil {
 					return err
-- 
2.43.0


From 0f71cd1cff75df4fcefa9ea23bc1f9c6fc96815a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:05 +0000
Subject: [PATCH 21/60] fix: inf, nan and hexadecimal floats are not SVG
 numbers

---
 units.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/units.go b/units.go
index a3d1cbd..a502087 100644
--- a/units.go
+++ b/units.go
@@ -42,6 +42,9 @@ func findUnit(s string) (u unite, value string) {
 // convert the unite to pixels. Return true if it is a %
 func parseUnit(s string) (float64, bool, error) {
 	unite, value := findUnit(s)
+	if strings.Trim(value, "+-.0123456789eE") != "" {
+		return 0, false, errParamMismatch // e.g. inf, nan or a hexadecimal number
+	}
 	out, err := strconv.ParseFloat(value, 64)
 	return out * toPx[unite], unite == Perc, err
 }
-- 
2.43.0


From 4d3217e9029f18acf99380e92ab890753cb5285a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:06 +0000
Subject: [PATCH 22/60] fix: arc flags need no separator

---
 parse_path.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/parse_path.go b/parse_path.go
index 2c8638c..7f2dbc6 100644
--- a/parse_path.go
+++ b/parse_path.go
@@ -41,6 +41,7 @@ type pathCursor struct {
 	lastKey                uint8
 	errorMode              ErrorMode
 	inPath                 bool
+	arcArgs                bool // the points being read are arguments of an arc
 }
 
 func (c *pathCursor) init() {
@@ -111,6 +112,13 @@ func (c *pathCursor) hasSetsOrMore(sz int, rel bool) bool {
 
 // readFloat reads a floating point value and adds it to the svgCursor's points slice.
 func (c *pathCursor) readFloat(numStr string) error {
+	// an arc flag is a single digit, the next number may follow without a separator
+	for n := len(c.points) % 7; c.arcArgs && (n == 3 || n == 4) && (numStr[0] == '0' || numStr[0] == '1'); n++ {
+		c.points = append(c.points, float64(numStr[0]-'0'))
+		if numStr = numStr[1:]; numStr == "" {
+			return nil
+		}
+	}
 	last := 0
 	isFirst := true
 	for i, n := range numStr {
@@ -188,6 +196,8 @@ func (c *pathCursor) reflectControlCube() {
 // in the svgCursor's Path
 func (c *pathCursor) addSeg(segString string) error {
 	// Parse the string describing the numeric points in SVG format
+	c.arcArgs = segString[0] == 'a' || segString[0] == 'A'
+	defer func() { c.arcArgs = false }()
 	if err := c.getPoints(segString[1:]); err != nil {
 		return err
 	}
-- 
2.43.0


From cc77d234be26fe7a5ce9ed5243b25adbeefa0b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:07 +0000
Subject: [PATCH 23/60] fix: drawing after closepath starts a new subpath

---
 parse_path.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/parse_path.go b/parse_path.go
index 7f2dbc6..fd9f7ae 100644
--- a/parse_path.go
+++ b/parse_path.go
@@ -47,6 +47,7 @@ type pathCursor struct {
 func (c *pathCursor) init() {
 	c.placeX = 0.0
 	c.placeY = 0.0
+	c.pathStartX, c.pathStartY = 0.0, 0.0
 	c.points = c.points[0:0]
 	c.lastKey = ' '
 	c.path.Clear()
@@ -204,6 +205,11 @@ func (c *pathCursor) addSeg(segString string) error {
 	l := len(c.points)
 	k := segString[0]
 	rel := false
+	if (c.lastKey == 'z' || c.lastKey == 'Z') && strings.IndexByte("LlHhVvCcSsQqTtAa", k) >= 0 {
+		// drawing goes on after a close: start a new subpath at the same point
+		c.path.Start(toFixedP(c.pathStartX+c.curX, c.pathStartY+c.curY))
+		c.inPath = true
+	}
 	switch k {
 	case 'z':
 		fallthrough
-- 
2.43.0


From a306aa24cc1ca4d0690b20a4abb565a26cd3fe06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:08 +0000
Subject: [PATCH 24/60] fix: opacities may be percentages and are limited to
 [0,1]

---
 parse.go        | 2 +-
 svg_elements.go | 2 +-
 units.go        | 6 ++++++
 3 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/parse.go b/parse.go
index 88f4a6c..ba7c874 100644
--- a/parse.go
+++ b/parse.go
@@ -279,7 +279,7 @@ func (c *svgCursor) readStyleAttr(curStyle *PathStyle, k, v string) error {
 		}
 		curStyle.Dash.Dash = nil
 	case "opacity", "stroke-opacity", "fill-opacity":
-		op, err := parseBasicFloat(v)
+		op, err := parseOpacity(v)
 		if err != nil {
 			return err
 		}
diff --git a/svg_elements.go b/svg_elements.go
index e99d8e6..73c6a16 100644
--- a/svg_elements.go
+++ b/svg_elements.go
@@ -438,7 +438,7 @@ func stopF(c *svgCursor, attrs []xml.Attr) error {
 				optColor, err = parseSVGColor(attr.Value)
 				stop.StopColor = optColor.asColor()
 			case "stop-opacity":
-				stop.Opacity, err = parseBasicFloat(attr.Value)
+				stop.Opacity, err = parseOpacity(attr.Value)
 			}
 			if err != nil {
 				return err
diff --git a/units.go b/units.go
index a502087..5f2320c 100644
--- a/units.go
+++ b/units.go
@@ -91,6 +91,12 @@ func parseBasicFloat(s string) (float64, error) {
 	return value, err
 }
 
+// parseOpacity reads a number or percentage and limits it to the range [0,1]
+func parseOpacity(v string) (float64, error) {
+	f, err := readFraction(v)
+	return math.Max(0, math.Min(1, f)), err
+}
+
 func readFraction(v string) (f float64, err error) {
 	v = strings.TrimSpace(v)
 	d := 1.0
-- 
2.43.0


From 11e52ff423a47712c6e8f708d25ad65b442ff32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:09 +0000
Subject: [PATCH 25/60] fix: stroke-width percentages refer to the diagonal of
 the view box

---
 parse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse.go b/parse.go
index ba7c874..7ba1bf4 100644
--- a/parse.go
+++ b/parse.go
@@ -252,7 +252,7 @@ func (c *svgCursor) readStyleAttr(curStyle *PathStyle, k, v string) error {
 		}
 		curStyle.Join.MiterLimit = fToFixed(mLimit)
 	case "stroke-width":
-		width, err := c.parseUnit(v, widthPercentage)
+		width, err := c.parseUnit(v, diagPercentage)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 944816df47a67c132b5b829dfe58e85116b5a9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:10 +0000
Subject: [PATCH 26/60] fix: line widths do not vanish when rotated or mirrored

---
 matrix.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/matrix.go b/matrix.go
index db90022..2bc1437 100644
--- a/matrix.go
+++ b/matrix.go
@@ -215,9 +215,9 @@ func (t Matrix2D) CubicTo(m OpCubicTo) (fixed.Point26_6, fixed.Point26_6, fixed.
 	return t.TFixed(fixed.Point26_6(m[0])), t.TFixed(fixed.Point26_6(m[1])), t.TFixed(fixed.Point26_6(m[2]))
 }
 
-// LineWidthScale returns the mean of the horizontal and vertical scaling members.
+// LineWidthScale returns the mean of the scaling of horizontal and vertical lengths.
 // It may be used when scaling line widths with a rasterizer that does not support
 // scaling a line's horizontal and vertical aspects independently.
 func (t Matrix2D) LineWidthScale() float64 {
-	return (t.A + t.D) / 2
+	return (math.Hypot(t.A, t.B) + math.Hypot(t.C, t.D)) / 2
 }
-- 
2.43.0


From c2be18d09b99465816bd6d8b847a99a6ff92fff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:11 +0000
Subject: [PATCH 27/60] fix: inline style declarations override attributes

---
 parse.go | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/parse.go b/parse.go
index 7ba1bf4..65b62a6 100644
--- a/parse.go
+++ b/parse.go
@@ -313,22 +313,28 @@ func (c *svgCursor) readStyleAttr(curStyle *PathStyle, k, v string) error {
 // for fill. Note that this parses both the contents of a style attribute plus
 // direct fill and opacity attributes.
 func (c *svgCursor) pushStyle(attrs []xml.Attr) error {
-	var pairs []string
+	var pairs, inline []string
 	for _, attr := range attrs {
 		switch strings.ToLower(attr.Name.Local) {
 		case "style":
-			pairs = append(pairs, strings.Split(attr.Value, ";")...)
+			inline = append(inline, strings.Split(attr.Value, ";")...)
 		default:
 			pairs = append(pairs, attr.Name.Local+":"+attr.Value)
 		}
 	}
+	// inline declarations win over attributes
+	pairs = append(pairs, inline...)
+	last := make(map[string]int, len(pairs))
+	for i, pair := range pairs {
+		if strings.Contains(pair, ":") {
+			last[declaredName(pair)] = i
+		}
+	}
 	// Make a copy of the top style
 	curStyle := c.styleStack[len(c.styleStack)-1]
-	for _, pair := range pairs {
+	for i, pair := range pairs {
 		kv := strings.Split(pair, ":")
-		if len(kv) >= 2 {
-			k := strings.ToLower(kv[0])
-			k = strings.TrimSpace(k)
+		if k := declaredName(pair); len(kv) >= 2 && last[k] == i {
 			v := strings.TrimSpace(kv[1])
 			err := c.readStyleAttr(&curStyle, k, v)
 			if err != nil {
@@ -340,6 +346,12 @@ func (c *svgCursor) pushStyle(attrs []xml.Attr) error {
 	return nil
 }
 
+// declaredName returns the name of a 'name:value' declaration
+func declaredName(pair string) string {
+	name, _, _ := strings.Cut(pair, ":")
+	return strings.ToLower(strings.TrimSpace(name))
+}
+
 // splitOnCommaOrSpace returns a list of strings after splitting the input on comma and space delimiters
 func splitOnCommaOrSpace(s string) []string {
 	return strings.FieldsFunc(s,
-- 
2.43.0


From 986f3f2fe8b1ae0eb625591d9d31613af4603f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:34 +0000
Subject: [PATCH 28/60] fix: odd, zero and negative dash arrays have their SVG
 meaning

---
 parse.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/parse.go b/parse.go
index 65b62a6..c97ca25 100644
--- a/parse.go
+++ b/parse.go
@@ -267,15 +267,26 @@ func (c *svgCursor) readStyleAttr(curStyle *PathStyle, k, v string) error {
 		if v != "none" {
 			dashes := splitOnCommaOrSpace(v)
 			dList := make([]float64, len(dashes))
+			sum := 0.0
 			for i, dstr := range dashes {
 				d, err := c.parseUnit(strings.TrimSpace(dstr), diagPercentage)
 				if err != nil {
 					return err
 				}
+				if d < 0 {
+					return errParamMismatch
+				}
 				dList[i] = d
+				sum += d
+			}
+			if len(dList)%2 != 0 {
+				// an odd list is repeated, so that dashes and gaps alternate
+				dList = append(dList, dList...)
+			}
+			if sum > 0 {
+				curStyle.Dash.Dash = dList
+				break
 			}
-			curStyle.Dash.Dash = dList
-			break
 		}
 		curStyle.Dash.Dash = nil
 	case "opacity", "stroke-opacity", "fill-opacity":
-- 
2.43.0


From d8e9da6db01eb94262ff844efbe66613789a87b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:34 +0000
Subject: [PATCH 29/60] fix: draw2d paints all subpaths and leaves open ones
 open

---
 renderer/draw2d/draw.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/renderer/draw2d/draw.go b/renderer/draw2d/draw.go
index f44d74f..8bc1af0 100644
--- a/renderer/draw2d/draw.go
+++ b/renderer/draw2d/draw.go
@@ -20,8 +20,6 @@ func Draw(gc draw2d.GraphicContext, s *svg.Svg, opts ...renderer.RenderOption) {
 func drawTo(gc draw2d.GraphicContext, op svg.Operation, m svg.Matrix2D) {
 	switch op := op.(type) {
 	case svg.OpMoveTo:
-		gc.Close()
-		gc.BeginPath()
 		t := m.MoveTo(op)
 		gc.MoveTo(float64(t.X)/64, float64(t.Y)/64)
 	case svg.OpLineTo:
@@ -73,6 +71,9 @@ func toGradient(g svg.Gradient, opacity float64) color.Color {
 
 // drawTransformed draws the compiled SvgPath into the driver while applying transform t.
 func drawTransformed(gc draw2d.GraphicContext, svgp svg.SvgPath, opt *renderer.RenderOptions) {
+	if svgp.Style.FillerColor == nil && svgp.Style.LinerColor == nil {
+		return // nothing to paint
+	}
 	m := opt.Target.Mult(svgp.Style.Transform)
 
 	if svgp.Style.FillerColor != nil {
@@ -101,6 +102,7 @@ func drawTransformed(gc draw2d.GraphicContext, svgp svg.SvgPath, opt *renderer.R
 		gc.SetLineDash(svgp.Style.Dash.Dash, svgp.Style.Dash.DashOffset)
 	}
 
+	gc.BeginPath()
 	for _, op := range svgp.Path {
 		drawTo(gc, op, m)
 	}
-- 
2.43.0


From be7bd251090d4189692c2761bbd26ada2b69d8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:35 +0000
Subject: [PATCH 30/60] fix: gg leaves open subpaths open and forgets paths
 without paint

---
 renderer/gg/draw.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/renderer/gg/draw.go b/renderer/gg/draw.go
index 9dec7b9..6f4abb3 100644
--- a/renderer/gg/draw.go
+++ b/renderer/gg/draw.go
@@ -25,7 +25,6 @@ func Draw(gc *gg.Context, s *svg.Svg, opts ...renderer.RenderOption) error {
 func drawTo(gc *gg.Context, op svg.Operation, m svg.Matrix2D) {
 	switch op := op.(type) {
 	case svg.OpMoveTo:
-		gc.ClosePath()
 		gc.NewSubPath()
 		t := m.MoveTo(op)
 		gc.MoveTo(float64(t.X)/64, float64(t.Y)/64)
@@ -90,6 +89,11 @@ func toGradient(g svg.Gradient, opacity float64) gg.Gradient {
 
 // drawTransformed draws the compiled SvgPath into the driver while applying transform t.
 func drawTransformed(gc *gg.Context, s *svg.Svg, svgp svg.SvgPath, m svg.Matrix2D, opacity float64) error {
+	gc.ClearPath()
+	if svgp.Style.FillerColor == nil && svgp.Style.LinerColor == nil {
+		return nil // nothing to paint
+	}
+
 	var mask *image.Alpha
 	if len(svgp.Style.Masks) > 0 {
 		m, err := getMask(s, svgp.Style.Masks, gc.Image().Bounds(), m)
-- 
2.43.0


From b8e8d62f4cfacb8669ce8e5fb2c728fcccd0c1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:35 +0000
Subject: [PATCH 31/60] fix: gg fills with the fill colour when there is a
 stroke

---
 renderer/gg/draw.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/renderer/gg/draw.go b/renderer/gg/draw.go
index 6f4abb3..e97e808 100644
--- a/renderer/gg/draw.go
+++ b/renderer/gg/draw.go
@@ -129,9 +129,9 @@ func drawTransformed(gc *gg.Context, s *svg.Svg, svgp svg.SvgPath, m svg.Matrix2
 		gc.SetLineJoin(toLineJoin(svgp.Style.Join.LineJoin))
 		switch c := svgp.Style.LinerColor.(type) {
 		case svg.PlainColor:
-			gc.SetColor(toColor(c, svgp.Style.LineOpacity*opacity))
+			gc.SetStrokeStyle(gg.NewSolidPattern(toColor(c, svgp.Style.LineOpacity*opacity)))
 		case svg.Gradient:
-			gc.SetColor(toColor(svg.GetColor(c), svgp.Style.LineOpacity*opacity))
+			gc.SetStrokeStyle(gg.NewSolidPattern(toColor(svg.GetColor(c), svgp.Style.LineOpacity*opacity)))
 		}
 		gc.SetLineWidth(svgp.Style.LineWidth * m.LineWidthScale())
 		gc.SetDash(svgp.Style.Dash.Dash...)
-- 
2.43.0


From 78cf4efe9a21963ec0e9dc43ef924462a3552815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:35 +0000
Subject: [PATCH 32/60] fix: masks that refer to themselves no longer recurse
 without end

---
 renderer/gg/draw.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/renderer/gg/draw.go b/renderer/gg/draw.go
index e97e808..2dbc5eb 100644
--- a/renderer/gg/draw.go
+++ b/renderer/gg/draw.go
@@ -14,7 +14,7 @@ import (
 func Draw(gc *gg.Context, s *svg.Svg, opts ...renderer.RenderOption) error {
 	opt := renderer.Options(s, opts...)
 	for _, svgp := range s.SvgPaths {
-		if err := drawTransformed(gc, s, svgp, opt.Target.Mult(svgp.Style.Transform), opt.Opacity); err != nil {
+		if err := drawTransformed(gc, s, svgp, opt.Target.Mult(svgp.Style.Transform), opt.Opacity, nil); err != nil {
 			return err
 		}
 	}
@@ -88,7 +88,8 @@ func toGradient(g svg.Gradient, opacity float64) gg.Gradient {
 }
 
 // drawTransformed draws the compiled SvgPath into the driver while applying transform t.
-func drawTransformed(gc *gg.Context, s *svg.Svg, svgp svg.SvgPath, m svg.Matrix2D, opacity float64) error {
+// open lists the masks that are being drawn.
+func drawTransformed(gc *gg.Context, s *svg.Svg, svgp svg.SvgPath, m svg.Matrix2D, opacity float64, open []string) error {
 	gc.ClearPath()
 	if svgp.Style.FillerColor == nil && svgp.Style.LinerColor == nil {
 		return nil // nothing to paint
@@ -96,7 +97,7 @@ func drawTransformed(gc *gg.Context, s *svg.Svg, svgp svg.SvgPath, m svg.Matrix2
 
 	var mask *image.Alpha
 	if len(svgp.Style.Masks) > 0 {
-		m, err := getMask(s, svgp.Style.Masks, gc.Image().Bounds(), m)
+		m, err := getMask(s, svgp.Style.Masks, gc.Image().Bounds(), m, open)
 		if err != nil {
 			return err
 		}
@@ -157,7 +158,13 @@ func drawTransformed(gc *gg.Context, s *svg.Svg, svgp svg.SvgPath, m svg.Matrix2
 	return nil
 }
 
-func getMask(s *svg.Svg, masks []string, rectangle image.Rectangle, m svg.Matrix2D) (*image.Alpha, error) {
+func getMask(s *svg.Svg, masks []string, rectangle image.Rectangle, m svg.Matrix2D, open []string) (*image.Alpha, error) {
+	for _, id := range open {
+		if id == masks[len(masks)-1] {
+			// Mask refers to itself skip it.
+			return nil, nil
+		}
+	}
 	gc := gg.NewContext(rectangle.Dx(), rectangle.Dy())
 	mask, ok := s.SvgMasks[masks[len(masks)-1]]
 	if !ok {
@@ -181,8 +188,9 @@ func getMask(s *svg.Svg, masks []string, rectangle image.Rectangle, m svg.Matrix
 	// 	m = m.Translate(mask.X-s.ViewBox.X, mask.Y-s.ViewBox.Y).Scale(scaleW, scaleH)
 	// }
 
+	open = append(append([]string{}, open...), mask.ID)
 	for _, op := range mask.SvgPaths {
-		if err := drawTransformed(gc, s, op, m.Mult(op.Style.Transform), 1); err != nil {
+		if err := drawTransformed(gc, s, op, m.Mult(op.Style.Transform), 1, open); err != nil {
 			return nil, err
 		}
 	}
-- 
2.43.0


From a298e9afc3ed3bcf1dce855279986b399b5fb299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:36 +0000
Subject: [PATCH 33/60] fix: rasterx fills do not pick up the end of the
 previous stroke

---
 renderer/rasterx/draw.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/renderer/rasterx/draw.go b/renderer/rasterx/draw.go
index 97293ca..5e02f07 100644
--- a/renderer/rasterx/draw.go
+++ b/renderer/rasterx/draw.go
@@ -133,6 +133,7 @@ func drawTransformed(gc *rasterx.Dasher, svgp svg.SvgPath, opt *renderer.RenderO
 
 	if svgp.Style.FillerColor != nil {
 		filler := &gc.Filler
+		filler.Stop(false) // forget the pen position of the previous path
 		filler.Clear()
 		filler.SetWinding(svgp.Style.UseNonZeroWinding)
 
-- 
2.43.0


From 7f06461d634c35d98c32041e66e9c256179ec743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:36 +0000
Subject: [PATCH 34/60] fix: rasterx strokes do not depend on the fill rule

---
 renderer/rasterx/draw.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/renderer/rasterx/draw.go b/renderer/rasterx/draw.go
index 5e02f07..2ab4689 100644
--- a/renderer/rasterx/draw.go
+++ b/renderer/rasterx/draw.go
@@ -155,6 +155,7 @@ func drawTransformed(gc *rasterx.Dasher, svgp svg.SvgPath, opt *renderer.RenderO
 	if svgp.Style.LinerColor != nil {
 		stroker := &gc.Stroker
 		stroker.Clear()
+		stroker.SetWinding(true) // the fill rule is for fills only
 		stroker.SetStroke(
 			fixed.Int26_6(svgp.Style.LineWidth*64*m.LineWidthScale()),
 			svgp.Style.Join.MiterLimit,
-- 
2.43.0


From a459d4b79a746722e38f6e7e630718d67b83087a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:37 +0000
Subject: [PATCH 35/60] fix: rasterx maps userSpaceOnUse gradients like the
 path

---
 renderer/rasterx/draw.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/renderer/rasterx/draw.go b/renderer/rasterx/draw.go
index 2ab4689..4eb84fe 100644
--- a/renderer/rasterx/draw.go
+++ b/renderer/rasterx/draw.go
@@ -148,7 +148,7 @@ func drawTransformed(gc *rasterx.Dasher, svgp svg.SvgPath, opt *renderer.RenderO
 		case svg.Gradient:
 			_ = color.ApplyPathExtent(filler.GetPathExtent())
 			g := toRasterxGradient(color)
-			filler.SetColor(g.GetColorFunction(svgp.Style.FillOpacity * opt.Opacity))
+			filler.SetColor(g.GetColorFunctionUS(svgp.Style.FillOpacity*opt.Opacity, rasterx.Matrix2D(m)))
 		}
 		filler.Draw()
 	}
@@ -175,7 +175,7 @@ func drawTransformed(gc *rasterx.Dasher, svgp svg.SvgPath, opt *renderer.RenderO
 		case svg.Gradient:
 			_ = color.ApplyPathExtent(stroker.GetPathExtent())
 			g := toRasterxGradient(color)
-			stroker.SetColor(g.GetColorFunction(svgp.Style.LineOpacity * opt.Opacity))
+			stroker.SetColor(g.GetColorFunctionUS(svgp.Style.LineOpacity*opt.Opacity, rasterx.Matrix2D(m)))
 		}
 		stroker.Draw()
 	}
-- 
2.43.0


From 592fb03b12a4af2504f77fc9fa69e90c098dfc68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:37 +0000
Subject: [PATCH 36/60] fix: rasterx draws dashed lines

---
 renderer/rasterx/draw.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/renderer/rasterx/draw.go b/renderer/rasterx/draw.go
index 4eb84fe..ba5a60f 100644
--- a/renderer/rasterx/draw.go
+++ b/renderer/rasterx/draw.go
@@ -16,7 +16,7 @@ func Draw(gc *rasterx.Dasher, s *svg.Svg, opts ...renderer.RenderOption) {
 	}
 }
 
-func drawToStroker(gc *rasterx.Stroker, op svg.Operation, m svg.Matrix2D) {
+func drawToStroker(gc *rasterx.Dasher, op svg.Operation, m svg.Matrix2D) {
 	switch op := op.(type) {
 	case svg.OpMoveTo:
 		gc.Stop(false)
@@ -153,7 +153,7 @@ func drawTransformed(gc *rasterx.Dasher, svgp svg.SvgPath, opt *renderer.RenderO
 		filler.Draw()
 	}
 	if svgp.Style.LinerColor != nil {
-		stroker := &gc.Stroker
+		stroker := gc
 		stroker.Clear()
 		stroker.SetWinding(true) // the fill rule is for fills only
 		stroker.SetStroke(
@@ -162,7 +162,8 @@ func drawTransformed(gc *rasterx.Dasher, svgp svg.SvgPath, opt *renderer.RenderO
 			toLineCap(svgp.Style.Join.LeadLineCap, toLineCap(svgp.Style.Join.TrailLineCap, rasterx.ButtCap)),
 			toLineCap(svgp.Style.Join.TrailLineCap, rasterx.ButtCap),
 			toLineGap(svgp.Style.Join.LineGap),
-			toLineJoin(svgp.Style.Join.LineJoin))
+			toLineJoin(svgp.Style.Join.LineJoin),
+			svgp.Style.Dash.Dash, svgp.Style.Dash.DashOffset)
 
 		for _, op := range svgp.Path {
 			drawToStroker(stroker, op, m)
-- 
2.43.0


From 3fbb2f0fa0b4051c2168adadd8f532dc8d03ab50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:38 +0000
Subject: [PATCH 37/60] fix: scale dash patterns like the line width

---
 renderer/draw2d/draw.go  |  3 ++-
 renderer/gg/draw.go      |  5 +++--
 renderer/options.go      | 13 +++++++++++++
 renderer/rasterx/draw.go |  3 ++-
 4 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/renderer/draw2d/draw.go b/renderer/draw2d/draw.go
index 8bc1af0..be392a5 100644
--- a/renderer/draw2d/draw.go
+++ b/renderer/draw2d/draw.go
@@ -99,7 +99,8 @@ func drawTransformed(gc draw2d.GraphicContext, svgp svg.SvgPath, opt *renderer.R
 			gc.SetStrokeColor(toGradient(c, svgp.Style.LineOpacity*opt.Opacity))
 		}
 		gc.SetLineWidth(svgp.Style.LineWidth * m.LineWidthScale())
-		gc.SetLineDash(svgp.Style.Dash.Dash, svgp.Style.Dash.DashOffset)
+		dash := renderer.ScaleDash(svgp.Style.Dash, m.LineWidthScale())
+		gc.SetLineDash(dash.Dash, dash.DashOffset)
 	}
 
 	gc.BeginPath()
diff --git a/renderer/gg/draw.go b/renderer/gg/draw.go
index 2dbc5eb..a5a4a91 100644
--- a/renderer/gg/draw.go
+++ b/renderer/gg/draw.go
@@ -135,8 +135,9 @@ func drawTransformed(gc *gg.Context, s *svg.Svg, svgp svg.SvgPath, m svg.Matrix2
 			gc.SetStrokeStyle(gg.NewSolidPattern(toColor(svg.GetColor(c), svgp.Style.LineOpacity*opacity)))
 		}
 		gc.SetLineWidth(svgp.Style.LineWidth * m.LineWidthScale())
-		gc.SetDash(svgp.Style.Dash.Dash...)
-		gc.SetDashOffset(svgp.Style.Dash.DashOffset)
+		dash := renderer.ScaleDash(svgp.Style.Dash, m.LineWidthScale())
+		gc.SetDash(dash.Dash...)
+		gc.SetDashOffset(dash.DashOffset)
 	}
 
 	for _, op := range svgp.Path {
diff --git a/renderer/options.go b/renderer/options.go
index 8097ce4..94bc233 100644
--- a/renderer/options.go
+++ b/renderer/options.go
@@ -38,6 +38,19 @@ func Target(x, y, w, h float64) RenderOption {
 	return targetOption{X: x, Y: y, W: w, H: h}
 }
 
+// ScaleDash returns the dash pattern with all of its lengths scaled.
+// A pattern that vanishes gives a solid line.
+func ScaleDash(d svg.DashOptions, scale float64) svg.DashOptions {
+	if scale == 0 || len(d.Dash) == 0 {
+		return svg.DashOptions{}
+	}
+	dash := make([]float64, len(d.Dash))
+	for i, l := range d.Dash {
+		dash[i] = l * scale
+	}
+	return svg.DashOptions{Dash: dash, DashOffset: d.DashOffset * scale}
+}
+
 // Options apply the options.
 func Options(s *svg.Svg, opts ...RenderOption) *RenderOptions {
 	r := &RenderOptions{
diff --git a/renderer/rasterx/draw.go b/renderer/rasterx/draw.go
index ba5a60f..54d0bae 100644
--- a/renderer/rasterx/draw.go
+++ b/renderer/rasterx/draw.go
@@ -154,6 +154,7 @@ func drawTransformed(gc *rasterx.Dasher, svgp svg.SvgPath, opt *renderer.RenderO
 	}
 	if svgp.Style.LinerColor != nil {
 		stroker := gc
+		dash := renderer.ScaleDash(svgp.Style.Dash, m.LineWidthScale())
 		stroker.Clear()
 		stroker.SetWinding(true) // the fill rule is for fills only
 		stroker.SetStroke(
@@ -163,7 +164,7 @@ func drawTransformed(gc *rasterx.Dasher, svgp svg.SvgPath, opt *renderer.RenderO
 			toLineCap(svgp.Style.Join.TrailLineCap, rasterx.ButtCap),
 			toLineGap(svgp.Style.Join.LineGap),
 			toLineJoin(svgp.Style.Join.LineJoin),
-			svgp.Style.Dash.Dash, svgp.Style.Dash.DashOffset)
+			dash.Dash, dash.DashOffset)
 
 		for _, op := range svgp.Path {
 			drawToStroker(stroker, op, m)
-- 
2.43.0


From 233c355103cfd5d8ff3a7cbebd8cf80a631922fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:09 +0000
Subject: [PATCH 38/60] fix: a corner radius of zero is not a missing radius

---
 svg_elements.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/svg_elements.go b/svg_elements.go
index 73c6a16..bc7b613 100644
--- a/svg_elements.go
+++ b/svg_elements.go
@@ -79,6 +79,7 @@ func svgF(c *svgCursor, attrs []xml.Attr) error {
 func gF(*svgCursor, []xml.Attr) error { return nil } // g does nothing but push the style
 func rectF(c *svgCursor, attrs []xml.Attr) error {
 	var x, y, w, h, rx, ry float64
+	var setRx, setRy bool
 	var err error
 	for _, attr := range attrs {
 		switch attr.Name.Local {
@@ -91,8 +92,10 @@ func rectF(c *svgCursor, attrs []xml.Attr) error {
 		case "height":
 			h, err = c.parseUnit(attr.Value, heightPercentage)
 		case "rx":
+			setRx = true
 			rx, err = c.parseUnit(attr.Value, widthPercentage)
 		case "ry":
+			setRy = true
 			ry, err = c.parseUnit(attr.Value, heightPercentage)
 		}
 		if err != nil {
@@ -103,10 +106,10 @@ func rectF(c *svgCursor, attrs []xml.Attr) error {
 		return nil
 	}
 	// If only one of rx or ry is specified, the other should be same
-	if rx != 0 && ry == 0 {
+	if !setRy {
 		ry = rx
 	}
-	if ry != 0 && rx == 0 {
+	if !setRx {
 		rx = ry
 	}
 	c.path.addRoundRect(x+c.curX, y+c.curY, w+x+c.curX, h+y+c.curY, rx, ry, 0)
-- 
2.43.0


From 646d7328925f8084a98822e164915ff47d663717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:39 +0000
Subject: [PATCH 39/60] fix: defs inside a mask inside defs are not drawn into
 the mask

---
 parse.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parse.go b/parse.go
index c97ca25..4ebcef6 100644
--- a/parse.go
+++ b/parse.go
@@ -376,8 +376,8 @@ func (c *svgCursor) readStartElement(se xml.StartElement) (err error) {
 	if se.Name.Local == "radialGradient" || se.Name.Local == "linearGradient" || c.inGrad {
 		skipDef = true
 	}
-	// masks are collected wherever they stand
-	if n := len(c.openDefs); se.Name.Local == "mask" || n > 0 && c.openDefs[n-1] < 0 {
+	// masks are collected wherever they stand, except for the defs inside of them
+	if n := len(c.openDefs); se.Name.Local == "mask" || n > 0 && c.openDefs[n-1] < 0 && se.Name.Local != "defs" {
 		skipDef = true
 	}
 	if c.inDefs && skipDef {
-- 
2.43.0


From e3747069eb71f18b3e1411d8673443f7aac55564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:16 +0000
Subject: [PATCH 40/60] fix: truncated rgb() and url() colours are errors

---
 patterns.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/patterns.go b/patterns.go
index 06b64de..b73ee52 100644
--- a/patterns.go
+++ b/patterns.go
@@ -57,7 +57,7 @@ func (o optionnalColor) asPattern() Pattern {
 // including all SVG1.1 names, obtained from the colornames package
 func parseSVGColor(colorStr string) (optionnalColor, error) {
 	v := strings.ToLower(colorStr)
-	if strings.HasPrefix(v, "url") { // We are not handling urls
+	if strings.HasPrefix(v, "url(") && strings.Contains(v, ")") { // We are not handling urls
 		// and gradients and stuff at this point
 		return toOptColor(NewPlainColor(0, 0, 0, 255)), nil
 	}
@@ -75,9 +75,8 @@ func parseSVGColor(colorStr string) (optionnalColor, error) {
 	}
 	cStr := strings.TrimPrefix(colorStr, "rgb(")
 	if cStr != colorStr {
-		cStr := strings.TrimSuffix(cStr, ")")
-		vals := strings.Split(cStr, ",")
-		if len(vals) != 3 {
+		vals := strings.Split(strings.TrimSuffix(cStr, ")"), ",")
+		if len(vals) != 3 || !strings.HasSuffix(cStr, ")") {
 			return toOptColor(PlainColor{}), errParamMismatch
 		}
 		var cvals [3]uint8
-- 
2.43.0


From 7e041b324527f23020dd5b25a974520656d4eb72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:37 +0000
Subject: [PATCH 41/60] fix: dash lengths may be separated by any white space

---
 parse.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parse.go b/parse.go
index 4ebcef6..a77e8e6 100644
--- a/parse.go
+++ b/parse.go
@@ -7,6 +7,7 @@ import (
 	"log"
 	"math"
 	"strings"
+	"unicode"
 
 	"golang.org/x/image/math/fixed"
 )
@@ -367,7 +368,7 @@ func declaredName(pair string) string {
 func splitOnCommaOrSpace(s string) []string {
 	return strings.FieldsFunc(s,
 		func(r rune) bool {
-			return r == ',' || r == ' '
+			return r == ',' || unicode.IsSpace(r)
 		})
 }
 
-- 
2.43.0


From 9164310214f6a59fe3e47c875f8f70606b126471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:53 +0000
Subject: [PATCH 42/60] fix: percentages in the style of the root svg refer to
 its view box

---
 svg.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/svg.go b/svg.go
index 0fa0e1f..243c506 100644
--- a/svg.go
+++ b/svg.go
@@ -84,6 +84,13 @@ func Parse(stream io.Reader, errMode ErrorMode) (*Svg, error) {
 		switch se := t.(type) {
 		case xml.StartElement:
 			seenTag = true
+			if se.Name.Local == "svg" && !svgCursor.inDefs {
+				// percentages in the style of the root refer to its own view box
+				err = svgF(svgCursor, se.Attr)
+				if err != nil {
+					return svg, err
+				}
+			}
 			// Reads all recognized style attributes from the start element
 			// and places it on top of the styleStack
 			err = svgCursor.pushStyle(se.Attr)
-- 
2.43.0


From 4d749b9241376078262ef67f3c557d681887762c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:43:56 +0000
Subject: [PATCH 43/60] fix: a transform function without its closing
 parenthesis is an error

---
 parse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse.go b/parse.go
index a77e8e6..59c0850 100644
--- a/parse.go
+++ b/parse.go
@@ -122,7 +122,7 @@ func (c *svgCursor) parseTransform(m1 Matrix2D, v string) (Matrix2D, error) {
 			continue
 		}
 		d := strings.Split(t, "(")
-		if len(d) != 2 || len(d[1]) < 1 {
+		if len(d) != 2 || len(d[1]) < 1 || i == len(ts)-1 {
 			return m1, errParamMismatch // badly formed transformation
 		}
 		err := c.getPoints(d[1])
-- 
2.43.0


From 793c05efac39107c559fc81f6e821435f7a05779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:05:43 +0000
Subject: [PATCH 44/60] fix: text between the numbers of a list is an error

---
 parse.go      | 3 ++-
 parse_path.go | 4 +++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/parse.go b/parse.go
index 59c0850..fb56c42 100644
--- a/parse.go
+++ b/parse.go
@@ -125,7 +125,8 @@ func (c *svgCursor) parseTransform(m1 Matrix2D, v string) (Matrix2D, error) {
 		if len(d) != 2 || len(d[1]) < 1 || i == len(ts)-1 {
 			return m1, errParamMismatch // badly formed transformation
 		}
-		err := c.getPoints(d[1])
+		// lengths in pixels may carry their unit, as in CSS
+		err := c.getPoints(strings.ReplaceAll(d[1], "px", " "))
 		if err != nil {
 			return m1, err
 		}
diff --git a/parse_path.go b/parse_path.go
index fd9f7ae..d459f00 100644
--- a/parse_path.go
+++ b/parse_path.go
@@ -159,8 +159,10 @@ func (c *pathCursor) getPoints(dataPoints string) error {
 			}
 			if r == '-' {
 				lastIndex = i
-			} else {
+			} else if r == '+' || r == ',' || unicode.IsSpace(r) {
 				lastIndex = -1
+			} else {
+				return errParamMismatch // neither a number nor a separator
 			}
 		} else if lastIndex == -1 {
 			lastIndex = i
-- 
2.43.0


From 7b381dbdd366b218d79015c9b78ab5e6d98ce952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:05:44 +0000
Subject: [PATCH 45/60] fix: report unsupported gradientUnits and spreadMethod
 values

---
 patterns.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/patterns.go b/patterns.go
index b73ee52..dba2dce 100644
--- a/patterns.go
+++ b/patterns.go
@@ -288,6 +288,8 @@ func (c *svgCursor) readGradAttr(attr xml.Attr) (err error) {
 			c.grad.Units = UserSpaceOnUse
 		case "objectBoundingBox":
 			c.grad.Units = ObjectBoundingBox
+		default:
+			return c.handleError("unsupported value '%s' for <gradientUnits>", attr.Value)
 		}
 	case "spreadMethod":
 		switch strings.TrimSpace(attr.Value) {
@@ -297,6 +299,8 @@ func (c *svgCursor) readGradAttr(attr xml.Attr) (err error) {
 			c.grad.Spread = ReflectSpread
 		case "repeat":
 			c.grad.Spread = RepeatSpread
+		default:
+			return c.handleError("unsupported value '%s' for <spreadMethod>", attr.Value)
 		}
 	}
 	return
-- 
2.43.0


From ccbb193546e4d12beefd322dbfe36e5c04dbdba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:05:45 +0000
Subject: [PATCH 46/60] fix: path data that does not begin with a moveto is an
 error

---
 parse_path.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/parse_path.go b/parse_path.go
index d459f00..4f46519 100644
--- a/parse_path.go
+++ b/parse_path.go
@@ -65,6 +65,8 @@ func (c *pathCursor) compilePath(svgPath string) error {
 				if err := c.addSeg(svgPath[lastIndex:i]); err != nil {
 					return err
 				}
+			} else if strings.TrimSpace(svgPath[:i]) != "" {
+				return errParamMismatch // the data does not begin with a command
 			}
 			lastIndex = i
 		}
@@ -73,6 +75,8 @@ func (c *pathCursor) compilePath(svgPath string) error {
 		if err := c.addSeg(svgPath[lastIndex:]); err != nil {
 			return err
 		}
+	} else if strings.TrimSpace(svgPath) != "" {
+		return errParamMismatch
 	}
 	return nil
 }
@@ -212,6 +216,9 @@ func (c *pathCursor) addSeg(segString string) error {
 		c.path.Start(toFixedP(c.pathStartX+c.curX, c.pathStartY+c.curY))
 		c.inPath = true
 	}
+	if len(c.path) == 0 && strings.IndexByte("LlHhVvCcSsQqTtAaZz", k) >= 0 {
+		return errParamMismatch // a path begins with a moveto
+	}
 	switch k {
 	case 'z':
 		fallthrough
-- 
2.43.0


From b3d3744eca4c90d37d706293fa846e2644bd9938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:38:49 +0000
Subject: [PATCH 47/60] fix: a number after an exponent may begin with its
 decimal point

---
 parse_path.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parse_path.go b/parse_path.go
index 4f46519..21fb17a 100644
--- a/parse_path.go
+++ b/parse_path.go
@@ -138,6 +138,7 @@ func (c *pathCursor) readFloat(numStr string) error {
 			}
 			c.points = append(c.points, f)
 			last = i
+			isFirst = false
 		}
 	}
 	f, err := parseBasicFloat(numStr[last:])
-- 
2.43.0


From ed04864b2f7cc76a168d650f41556de4b6080e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:38:50 +0000
Subject: [PATCH 48/60] fix: the value of an attribute does not end at a colon

---
 parse.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/parse.go b/parse.go
index fb56c42..f9c508e 100644
--- a/parse.go
+++ b/parse.go
@@ -346,10 +346,9 @@ func (c *svgCursor) pushStyle(attrs []xml.Attr) error {
 	// Make a copy of the top style
 	curStyle := c.styleStack[len(c.styleStack)-1]
 	for i, pair := range pairs {
-		kv := strings.Split(pair, ":")
-		if k := declaredName(pair); len(kv) >= 2 && last[k] == i {
-			v := strings.TrimSpace(kv[1])
-			err := c.readStyleAttr(&curStyle, k, v)
+		_, v, ok := strings.Cut(pair, ":")
+		if k := declaredName(pair); ok && last[k] == i {
+			err := c.readStyleAttr(&curStyle, k, strings.TrimSpace(v))
 			if err != nil {
 				return err
 			}
-- 
2.43.0


From 769f2dff20835bb4c7178c2500d1adb853bb4f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:28 +0000
Subject: [PATCH 49/60] fix: a fraction has at most one percent sign

---
 units.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/units.go b/units.go
index 5f2320c..f51e096 100644
--- a/units.go
+++ b/units.go
@@ -102,7 +102,9 @@ func readFraction(v string) (f float64, err error) {
 	d := 1.0
 	if strings.HasSuffix(v, "%") {
 		d = 100
-		v = strings.TrimSuffix(v, "%")
+		if v = strings.TrimSuffix(v, "%"); strings.HasSuffix(v, "%") {
+			return 0, errParamMismatch // two percent signs
+		}
 	}
 	f, err = parseBasicFloat(v)
 	f /= d
-- 
2.43.0


From 6521ba56c47c03f7c6ddd6f1e827e604b6073e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:50 +0000
Subject: [PATCH 50/60] fix: a closing parenthesis without a transform function
 is an error

---
 parse.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parse.go b/parse.go
index f9c508e..3c6cf64 100644
--- a/parse.go
+++ b/parse.go
@@ -118,8 +118,8 @@ func (c *svgCursor) parseTransform(m1 Matrix2D, v string) (Matrix2D, error) {
 	// that is, their matrices are multiplied from left to right onto the transform of the parent.
 	for i := range ts {
 		t := strings.Trim(ts[i], ", \t\r\n")
-		if len(t) == 0 {
-			continue
+		if len(t) == 0 && i == len(ts)-1 {
+			break
 		}
 		d := strings.Split(t, "(")
 		if len(d) != 2 || len(d[1]) < 1 || i == len(ts)-1 {
-- 
2.43.0


From 0431fcd629c6365df89b570d4f9a8d19b0af324b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:47 +0000
Subject: [PATCH 51/60] fix: print path coordinates with full precision

Coordinates beyond 262144 pixels lost their fraction in the text form.
---
 path.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/path.go b/path.go
index 1c3d8c8..b915b46 100644
--- a/path.go
+++ b/path.go
@@ -34,21 +34,21 @@ type OpCubicTo [3]fixed.Point26_6
 type OpClose struct{}
 
 func (op OpMoveTo) String() string {
-	return fmt.Sprintf("M%4.3f,%4.3f", float32(op.X)/64, float32(op.Y)/64)
+	return fmt.Sprintf("M%4.3f,%4.3f", float64(op.X)/64, float64(op.Y)/64)
 }
 
 func (op OpLineTo) String() string {
-	return fmt.Sprintf("L%4.3f,%4.3f", float32(op.X)/64, float32(op.Y)/64)
+	return fmt.Sprintf("L%4.3f,%4.3f", float64(op.X)/64, float64(op.Y)/64)
 }
 
 func (op OpQuadTo) String() string {
-	return fmt.Sprintf("Q%4.3f,%4.3f,%4.3f,%4.3f", float32(op[0].X)/64, float32(op[0].Y)/64,
-		float32(op[1].X)/64, float32(op[1].Y)/64)
+	return fmt.Sprintf("Q%4.3f,%4.3f,%4.3f,%4.3f", float64(op[0].X)/64, float64(op[0].Y)/64,
+		float64(op[1].X)/64, float64(op[1].Y)/64)
 }
 
 func (op OpCubicTo) String() string {
-	return fmt.Sprintf("C%4.3f,%4.3f,%4.3f,%4.3f,%4.3f,%4.3f", float32(op[0].X)/64, float32(op[0].Y)/64,
-		float32(op[1].X)/64, float32(op[1].Y)/64, float32(op[2].X)/64, float32(op[2].Y)/64)
+	return fmt.Sprintf("C%4.3f,%4.3f,%4.3f,%4.3f,%4.3f,%4.3f", float64(op[0].X)/64, float64(op[0].Y)/64,
+		float64(op[1].X)/64, float64(op[1].Y)/64, float64(op[2].X)/64, float64(op[2].Y)/64)
 }
 
 func (op OpClose) String() string {
-- 
2.43.0


From 7dffae8ead29107effb3d437f0f5961c3d91436b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:13 +0000
Subject: [PATCH 52/60] fix: a target for a drawing without view box does not
 scale to infinity

Drawing <svg> without viewBox, width and height into a target never ended
on the gg back end.
---
 renderer/options.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/renderer/options.go b/renderer/options.go
index 94bc233..4a12331 100644
--- a/renderer/options.go
+++ b/renderer/options.go
@@ -28,8 +28,14 @@ type targetOption struct {
 }
 
 func (o targetOption) apply(s *svg.Svg, r *RenderOptions) {
-	scaleW := o.W / s.ViewBox.W
-	scaleH := o.H / s.ViewBox.H
+	// a view box without extent does not scale
+	scaleW, scaleH := 1.0, 1.0
+	if s.ViewBox.W != 0 {
+		scaleW = o.W / s.ViewBox.W
+	}
+	if s.ViewBox.H != 0 {
+		scaleH = o.H / s.ViewBox.H
+	}
 	r.Target = svg.Identity.Translate(o.X, o.Y).Scale(scaleW, scaleH).Translate(-s.ViewBox.X, -s.ViewBox.Y)
 }
 
-- 
2.43.0


From 96c7145a615508742ae580a29835769563c5f942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:03 +0000
Subject: [PATCH 53/60] fix: rasterx drew round joins as bevels when no gap was
 set

---
 renderer/rasterx/draw.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/renderer/rasterx/draw.go b/renderer/rasterx/draw.go
index 54d0bae..cf5dd32 100644
--- a/renderer/rasterx/draw.go
+++ b/renderer/rasterx/draw.go
@@ -50,6 +50,8 @@ func drawToFiller(gc *rasterx.Filler, op svg.Operation, m svg.Matrix2D) {
 
 func toLineGap(gap svg.GapMode) rasterx.GapFunc {
 	switch gap {
+	case svg.NilGap:
+		return nil // the gap that suits the join
 	case svg.FlatGap:
 		return rasterx.FlatGap
 	case svg.RoundGap:
-- 
2.43.0


From 33ea7aaa6c8c3477d8c328d62d3df71b7b0ae2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:04 +0000
Subject: [PATCH 54/60] fix: rasterx radial gradients vanished under rotated or
 skewed transforms

---
 renderer/rasterx/draw.go | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/renderer/rasterx/draw.go b/renderer/rasterx/draw.go
index cf5dd32..96c371b 100644
--- a/renderer/rasterx/draw.go
+++ b/renderer/rasterx/draw.go
@@ -101,7 +101,8 @@ func toLineJoin(join svg.JoinMode) rasterx.JoinMode {
 	return rasterx.Miter
 }
 
-func toRasterxGradient(grad svg.Gradient) rasterx.Gradient {
+// toRasterxGradient converts the gradient of a path that is drawn with the transform m.
+func toRasterxGradient(grad svg.Gradient, m svg.Matrix2D) (rasterx.Gradient, rasterx.Matrix2D) {
 	var (
 		points   [5]float64
 		isRadial bool
@@ -113,6 +114,14 @@ func toRasterxGradient(grad svg.Gradient) rasterx.Gradient {
 	case svg.Radial:
 		points[0], points[1], points[2], points[3], points[4], _ = dir[0], dir[1], dir[2], dir[3], dir[4], dir[5] // in rasterx fr is ignored
 		isRadial = true
+		t := m.Mult(grad.Matrix)
+		if grad.Units == svg.UserSpaceOnUse && (t.B != 0 || t.C != 0) {
+			// rasterx would rotate the radius, too
+			points[0], points[1] = t.Transform(points[0], points[1])
+			points[2], points[3] = t.Transform(points[2], points[3])
+			points[4] *= t.LineWidthScale()
+			grad.Matrix, m = svg.Identity, svg.Identity
+		}
 	}
 	stops := make([]rasterx.GradStop, len(grad.Stops))
 	for i := range grad.Stops {
@@ -126,7 +135,7 @@ func toRasterxGradient(grad svg.Gradient) rasterx.Gradient {
 		Spread:   rasterx.SpreadMethod(grad.Spread),
 		Units:    rasterx.GradientUnits(grad.Units),
 		IsRadial: isRadial,
-	}
+	}, rasterx.Matrix2D(m)
 }
 
 // drawTransformed draws the compiled SvgPath into the driver while applying transform t.
@@ -149,8 +158,8 @@ func drawTransformed(gc *rasterx.Dasher, svgp svg.SvgPath, opt *renderer.RenderO
 			filler.SetColor(rasterx.ApplyOpacity(color, svgp.Style.FillOpacity*opt.Opacity))
 		case svg.Gradient:
 			_ = color.ApplyPathExtent(filler.GetPathExtent())
-			g := toRasterxGradient(color)
-			filler.SetColor(g.GetColorFunctionUS(svgp.Style.FillOpacity*opt.Opacity, rasterx.Matrix2D(m)))
+			g, gm := toRasterxGradient(color, m)
+			filler.SetColor(g.GetColorFunctionUS(svgp.Style.FillOpacity*opt.Opacity, gm))
 		}
 		filler.Draw()
 	}
@@ -178,8 +187,8 @@ func drawTransformed(gc *rasterx.Dasher, svgp svg.SvgPath, opt *renderer.RenderO
 			stroker.SetColor(rasterx.ApplyOpacity(color, svgp.Style.LineOpacity*opt.Opacity))
 		case svg.Gradient:
 			_ = color.ApplyPathExtent(stroker.GetPathExtent())
-			g := toRasterxGradient(color)
-			stroker.SetColor(g.GetColorFunctionUS(svgp.Style.LineOpacity*opt.Opacity, rasterx.Matrix2D(m)))
+			g, gm := toRasterxGradient(color, m)
+			stroker.SetColor(g.GetColorFunctionUS(svgp.Style.LineOpacity*opt.Opacity, gm))
 		}
 		stroker.Draw()
 	}
-- 
2.43.0


From 449a80c698075dec2490d6a5007ad7357a33841f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:37:26 +0000
Subject: [PATCH 55/60] fix: rasterx divided by zero on quadratic curves whose
 control point is an end point

---
 renderer/rasterx/draw.go | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/renderer/rasterx/draw.go b/renderer/rasterx/draw.go
index 96c371b..ea8be48 100644
--- a/renderer/rasterx/draw.go
+++ b/renderer/rasterx/draw.go
@@ -16,20 +16,32 @@ func Draw(gc *rasterx.Dasher, s *svg.Svg, opts ...renderer.RenderOption) {
 	}
 }
 
-func drawToStroker(gc *rasterx.Dasher, op svg.Operation, m svg.Matrix2D) {
+// drawToStroker strokes the operation that begins at the point from, and returns where it ends.
+func drawToStroker(gc *rasterx.Dasher, op svg.Operation, m svg.Matrix2D, from fixed.Point26_6) fixed.Point26_6 {
 	switch op := op.(type) {
 	case svg.OpMoveTo:
 		gc.Stop(false)
-		gc.Start(m.MoveTo(op))
+		from = m.MoveTo(op)
+		gc.Start(from)
 	case svg.OpLineTo:
-		gc.Line(m.LineTo(op))
+		from = m.LineTo(op)
+		gc.Line(from)
 	case svg.OpQuadTo:
-		gc.QuadBezier(m.QuadTo(op))
+		c, to := m.QuadTo(op)
+		if c == from || c == to {
+			gc.Line(to) // without curvature, rasterx would divide by zero
+		} else {
+			gc.QuadBezier(c, to)
+		}
+		from = to
 	case svg.OpCubicTo:
-		gc.CubeBezier(m.CubicTo(op))
+		c1, c2, to := m.CubicTo(op)
+		gc.CubeBezier(c1, c2, to)
+		from = to
 	case svg.OpClose:
 		gc.Stop(true)
 	}
+	return from
 }
 
 func drawToFiller(gc *rasterx.Filler, op svg.Operation, m svg.Matrix2D) {
@@ -177,8 +189,9 @@ func drawTransformed(gc *rasterx.Dasher, svgp svg.SvgPath, opt *renderer.RenderO
 			toLineJoin(svgp.Style.Join.LineJoin),
 			dash.Dash, dash.DashOffset)
 
+		var at fixed.Point26_6
 		for _, op := range svgp.Path {
-			drawToStroker(stroker, op, m)
+			at = drawToStroker(stroker, op, m, at)
 		}
 		stroker.Stop(false)
 
-- 
2.43.0


From 92ca04ed84fb7629e11d927ece7b471a3f4bce0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:38 +0000
Subject: [PATCH 56/60] fix: the text after a nested title or desc is lost

---
 parse.go        | 29 ++++++++++++++++-------------
 svg.go          | 20 +++++++++++---------
 svg_elements.go |  4 ++--
 3 files changed, 29 insertions(+), 24 deletions(-)

diff --git a/parse.go b/parse.go
index 3c6cf64..48f817d 100644
--- a/parse.go
+++ b/parse.go
@@ -16,16 +16,17 @@ type (
 	// svgCursor is used while parsing SVG files
 	svgCursor struct {
 		pathCursor
-		svg                                             *Svg
-		styleStack                                      []PathStyle
-		grad                                            *Gradient
-		inTitleText, inDescText, inGrad, inDefs, inMask bool
-		inSvg                                           bool // the outermost svg element has been read
-		currentDef                                      []definition
-		openDefs                                        []int           // positions in currentDef of the open elements inside defs, -1 if not recorded
-		usedIDs                                         map[string]bool // definitions being expanded by use
-		mask                                            *SvgMask
-		outerMasks                                      []*SvgMask // masks around the current mask
+		svg                    *Svg
+		styleStack             []PathStyle
+		grad                   *Gradient
+		inGrad, inDefs, inMask bool
+		openTitles, openDescs  []int // positions of the open title and desc elements
+		inSvg                  bool  // the outermost svg element has been read
+		currentDef             []definition
+		openDefs               []int           // positions in currentDef of the open elements inside defs, -1 if not recorded
+		usedIDs                map[string]bool // definitions being expanded by use
+		mask                   *SvgMask
+		outerMasks             []*SvgMask // masks around the current mask
 	}
 
 	// definition is used to store what's given in a def tag,
@@ -415,17 +416,19 @@ func (c *svgCursor) readStartElement(se xml.StartElement) (err error) {
 }
 
 // closeDef records the end of an element inside defs and,
-// if it has an ID, makes it available to use.
-func (c *svgCursor) closeDef() {
+// if it has an ID, makes it available to use. It returns false if
+// the element has been drawn rather than recorded.
+func (c *svgCursor) closeDef() bool {
 	start := c.openDefs[len(c.openDefs)-1]
 	c.openDefs = c.openDefs[:len(c.openDefs)-1]
 	if start < 0 {
-		return
+		return false
 	}
 	c.currentDef = append(c.currentDef, definition{})
 	if ID := c.currentDef[start].ID; ID != "" {
 		c.svg.defs[ID] = append([]definition{}, c.currentDef[start:]...)
 	}
+	return true
 }
 
 // addPath moves the path of the cursor, if there is one,
diff --git a/svg.go b/svg.go
index 243c506..642bdf5 100644
--- a/svg.go
+++ b/svg.go
@@ -105,9 +105,7 @@ func Parse(stream io.Reader, errMode ErrorMode) (*Svg, error) {
 			// pop style
 			svgCursor.styleStack = svgCursor.styleStack[:len(svgCursor.styleStack)-1]
 			inOpenDef := len(svgCursor.openDefs) > 0
-			if inOpenDef {
-				svgCursor.closeDef()
-			}
+			recorded := inOpenDef && svgCursor.closeDef()
 			switch se.Name.Local {
 			case "mask":
 				if svgCursor.mask != nil {
@@ -118,9 +116,13 @@ func Parse(stream io.Reader, errMode ErrorMode) (*Svg, error) {
 				}
 				svgCursor.inMask = svgCursor.mask != nil
 			case "title":
-				svgCursor.inTitleText = false
+				if n := len(svgCursor.openTitles); n > 0 && !recorded {
+					svgCursor.openTitles = svgCursor.openTitles[:n-1]
+				}
 			case "desc":
-				svgCursor.inDescText = false
+				if n := len(svgCursor.openDescs); n > 0 && !recorded {
+					svgCursor.openDescs = svgCursor.openDescs[:n-1]
+				}
 			case "defs":
 				if !inOpenDef {
 					svgCursor.currentDef = svgCursor.currentDef[:0]
@@ -130,11 +132,11 @@ func Parse(stream io.Reader, errMode ErrorMode) (*Svg, error) {
 				svgCursor.inGrad = false
 			}
 		case xml.CharData:
-			if svgCursor.inTitleText {
-				svg.Titles[len(svg.Titles)-1] += string(se)
+			for _, i := range svgCursor.openTitles {
+				svg.Titles[i] += string(se)
 			}
-			if svgCursor.inDescText {
-				svg.Descriptions[len(svg.Descriptions)-1] += string(se)
+			for _, i := range svgCursor.openDescs {
+				svg.Descriptions[i] += string(se)
 			}
 		}
 	}
diff --git a/svg_elements.go b/svg_elements.go
index bc7b613..3358d96 100644
--- a/svg_elements.go
+++ b/svg_elements.go
@@ -269,13 +269,13 @@ func pathF(c *svgCursor, attrs []xml.Attr) error {
 }
 
 func descF(c *svgCursor, attrs []xml.Attr) error {
-	c.inDescText = true
+	c.openDescs = append(c.openDescs, len(c.svg.Descriptions))
 	c.svg.Descriptions = append(c.svg.Descriptions, "")
 	return nil
 }
 
 func titleF(c *svgCursor, attrs []xml.Attr) error {
-	c.inTitleText = true
+	c.openTitles = append(c.openTitles, len(c.svg.Titles))
 	c.svg.Titles = append(c.svg.Titles, "")
 	return nil
 }
-- 
2.43.0


From 7e11cca930d53880c7586536fead33df28464d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:49 +0000
Subject: [PATCH 57/60] fix: draw2d divided by zero on dashes without length

---
 renderer/draw2d/draw.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/renderer/draw2d/draw.go b/renderer/draw2d/draw.go
index be392a5..1c4f12c 100644
--- a/renderer/draw2d/draw.go
+++ b/renderer/draw2d/draw.go
@@ -2,6 +2,7 @@ package draw2d
 
 import (
 	"image/color"
+	"math"
 
 	"github.com/lafriks/go-svg"
 	"github.com/lafriks/go-svg/renderer"
@@ -9,6 +10,9 @@ import (
 	"github.com/llgcode/draw2d"
 )
 
+// minDash is the length of dashes and gaps without length.
+const minDash = 1e-6
+
 // Draw the parsed SVG into the graphic context with the specified options.
 func Draw(gc draw2d.GraphicContext, s *svg.Svg, opts ...renderer.RenderOption) {
 	opt := renderer.Options(s, opts...)
@@ -100,6 +104,9 @@ func drawTransformed(gc draw2d.GraphicContext, svgp svg.SvgPath, opt *renderer.R
 		}
 		gc.SetLineWidth(svgp.Style.LineWidth * m.LineWidthScale())
 		dash := renderer.ScaleDash(svgp.Style.Dash, m.LineWidthScale())
+		for i, l := range dash.Dash {
+			dash.Dash[i] = math.Max(l, minDash) // draw2d would divide by zero
+		}
 		gc.SetLineDash(dash.Dash, dash.DashOffset)
 	}
 
-- 
2.43.0


From e2d423afbff7eba3309a1b303433fe35ed7160b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:49 +0000
Subject: [PATCH 58/60] fix: rasterx lines without length took the direction of
 the previous path

---
 renderer/rasterx/draw.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/renderer/rasterx/draw.go b/renderer/rasterx/draw.go
index ea8be48..c53bd83 100644
--- a/renderer/rasterx/draw.go
+++ b/renderer/rasterx/draw.go
@@ -178,7 +178,6 @@ func drawTransformed(gc *rasterx.Dasher, svgp svg.SvgPath, opt *renderer.RenderO
 	if svgp.Style.LinerColor != nil {
 		stroker := gc
 		dash := renderer.ScaleDash(svgp.Style.Dash, m.LineWidthScale())
-		stroker.Clear()
 		stroker.SetWinding(true) // the fill rule is for fills only
 		stroker.SetStroke(
 			fixed.Int26_6(svgp.Style.LineWidth*64*m.LineWidthScale()),
@@ -188,6 +187,12 @@ func drawTransformed(gc *rasterx.Dasher, svgp svg.SvgPath, opt *renderer.RenderO
 			toLineGap(svgp.Style.Join.LineGap),
 			toLineJoin(svgp.Style.Join.LineJoin),
 			dash.Dash, dash.DashOffset)
+		// rasterx gives a line of no length the direction of the line before
+		// it, which must not be one of the previous path.
+		stroker.Start(fixed.Point26_6{})
+		stroker.Line(fixed.Point26_6{X: 1 << 6})
+		stroker.Stop(false)
+		stroker.Clear()
 
 		var at fixed.Point26_6
 		for _, op := range svgp.Path {
-- 
2.43.0


From d9cb9743bdf3023229277e84f80666c7361a9af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:06 +0000
Subject: [PATCH 59/60] fix: rasterx ignored the opacity where the stops of a
 gradient meet

---
 renderer/rasterx/draw.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/renderer/rasterx/draw.go b/renderer/rasterx/draw.go
index c53bd83..89ebc1c 100644
--- a/renderer/rasterx/draw.go
+++ b/renderer/rasterx/draw.go
@@ -150,6 +150,19 @@ func toRasterxGradient(grad svg.Gradient, m svg.Matrix2D) (rasterx.Gradient, ras
 	}, rasterx.Matrix2D(m)
 }
 
+// gradientColor returns the colour function of a gradient that is drawn with the opacity and the transform m.
+func gradientColor(grad svg.Gradient, opacity float64, m svg.Matrix2D) interface{} {
+	g, gm := toRasterxGradient(grad, m)
+	if len(g.Stops) > 1 {
+		// where stops meet, rasterx only applies their own opacity
+		for i := range g.Stops {
+			g.Stops[i].Opacity *= opacity
+		}
+		opacity = 1
+	}
+	return g.GetColorFunctionUS(opacity, gm)
+}
+
 // drawTransformed draws the compiled SvgPath into the driver while applying transform t.
 func drawTransformed(gc *rasterx.Dasher, svgp svg.SvgPath, opt *renderer.RenderOptions) {
 	m := opt.Target.Mult(svgp.Style.Transform)
@@ -170,8 +183,7 @@ func drawTransformed(gc *rasterx.Dasher, svgp svg.SvgPath, opt *renderer.RenderO
 			filler.SetColor(rasterx.ApplyOpacity(color, svgp.Style.FillOpacity*opt.Opacity))
 		case svg.Gradient:
 			_ = color.ApplyPathExtent(filler.GetPathExtent())
-			g, gm := toRasterxGradient(color, m)
-			filler.SetColor(g.GetColorFunctionUS(svgp.Style.FillOpacity*opt.Opacity, gm))
+			filler.SetColor(gradientColor(color, svgp.Style.FillOpacity*opt.Opacity, m))
 		}
 		filler.Draw()
 	}
@@ -205,8 +217,7 @@ func drawTransformed(gc *rasterx.Dasher, svgp svg.SvgPath, opt *renderer.RenderO
 			stroker.SetColor(rasterx.ApplyOpacity(color, svgp.Style.LineOpacity*opt.Opacity))
 		case svg.Gradient:
 			_ = color.ApplyPathExtent(stroker.GetPathExtent())
-			g, gm := toRasterxGradient(color, m)
-			stroker.SetColor(g.GetColorFunctionUS(svgp.Style.LineOpacity*opt.Opacity, gm))
+			stroker.SetColor(gradientColor(color, svgp.Style.LineOpacity*opt.Opacity, m))
 		}
 		stroker.Draw()
 	}
-- 
2.43.0


From d62fca1884497996a8c09baee4f712bc164252c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:06 +0000
Subject: [PATCH 60/60] fix: rasterx paints gradients of a single stop or
 without extent with their last stop

---
 renderer/rasterx/draw.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/renderer/rasterx/draw.go b/renderer/rasterx/draw.go
index 89ebc1c..2d623b1 100644
--- a/renderer/rasterx/draw.go
+++ b/renderer/rasterx/draw.go
@@ -150,8 +150,23 @@ func toRasterxGradient(grad svg.Gradient, m svg.Matrix2D) (rasterx.Gradient, ras
 	}, rasterx.Matrix2D(m)
 }
 
+// hasExtent tells whether the colours of the gradient have room to change.
+func hasExtent(grad svg.Gradient) bool {
+	switch dir := grad.Direction.(type) {
+	case svg.Linear:
+		return dir[0] != dir[2] || dir[1] != dir[3]
+	case svg.Radial:
+		return dir[4] > 0
+	}
+	return true
+}
+
 // gradientColor returns the colour function of a gradient that is drawn with the opacity and the transform m.
 func gradientColor(grad svg.Gradient, opacity float64, m svg.Matrix2D) interface{} {
+	if n := len(grad.Stops); n == 1 || n > 1 && !hasExtent(grad) {
+		last := grad.Stops[n-1]
+		return rasterx.ApplyOpacity(last.StopColor, last.Opacity*opacity)
+	}
 	g, gm := toRasterxGradient(grad, m)
 	if len(g.Stops) > 1 {
 		// where stops meet, rasterx only applies their own opacity
-- 
2.43.0

