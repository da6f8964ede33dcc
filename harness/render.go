package main

// Drawing through the three back ends onto observable canvases.

import (
	"fmt"
	"image"
	"image/color"
	"image/draw"
	"math"

	"github.com/fogleman/gg"
	svg "github.com/lafriks/go-svg"
	"github.com/lafriks/go-svg/renderer"
	rd2d "github.com/lafriks/go-svg/renderer/draw2d"
	rgg "github.com/lafriks/go-svg/renderer/gg"
	rrx "github.com/lafriks/go-svg/renderer/rasterx"
	"github.com/llgcode/draw2d"
	"github.com/llgcode/draw2d/draw2dbase"
	"github.com/llgcode/draw2d/draw2dimg"
	"github.com/srwiley/rasterx"
	"golang.org/x/image/math/fixed"
)

// Opt is one render option: k is "target" or "opacity".
type Opt struct {
	K string    `json:"k"`
	V []float64 `json:"v"`
}

func options(opts []Opt) []renderer.RenderOption {
	var out []renderer.RenderOption
	for _, o := range opts {
		switch o.K {
		case "target":
			out = append(out, renderer.Target(o.V[0], o.V[1], o.V[2], o.V[3]))
		case "opacity":
			out = append(out, renderer.Opacity(o.V[0]))
		}
	}
	return out
}

// ---- a rasterx scanner that paints whole pixels by their centre, honouring the winding rule

type edge struct{ x0, y0, x1, y1 float64 }

type pixScanner struct {
	img      *image.RGBA
	nonZero  bool
	edges    []edge
	cur, fst fixed.Point26_6
	open     bool
	col      interface{}
	ext      fixed.Rectangle26_6
	hasExt   bool
	clip     image.Rectangle
	g        *gate
	only     [][2]int // the pixels that matter, all of them when empty
}

func f6(v fixed.Int26_6) float64 { return float64(v) / 64 }

func (s *pixScanner) grow(p fixed.Point26_6) {
	if !s.hasExt {
		s.ext = fixed.Rectangle26_6{Min: p, Max: p}
		s.hasExt = true
		return
	}
	if p.X < s.ext.Min.X {
		s.ext.Min.X = p.X
	}
	if p.Y < s.ext.Min.Y {
		s.ext.Min.Y = p.Y
	}
	if p.X > s.ext.Max.X {
		s.ext.Max.X = p.X
	}
	if p.Y > s.ext.Max.Y {
		s.ext.Max.Y = p.Y
	}
}

// Every contour is closed by an edge of its own: the area scanners of rasterx
// expect closed contours, an unclosed one would be visible as a wrong area.
func (s *pixScanner) Start(a fixed.Point26_6) { s.cur, s.fst, s.open = a, a, true; s.grow(a) }
func (s *pixScanner) Line(b fixed.Point26_6) {
	s.edges = append(s.edges, edge{f6(s.cur.X), f6(s.cur.Y), f6(b.X), f6(b.Y)})
	s.cur = b
	s.grow(b)
}

func (s *pixScanner) at(x, y float64) bool {
	w, n := 0, 0
	for _, e := range s.edges {
		if (e.y0 <= y) == (e.y1 <= y) {
			continue
		}
		t := (y - e.y0) / (e.y1 - e.y0)
		if e.x0+t*(e.x1-e.x0) > x {
			n++
			if e.y1 > e.y0 {
				w++
			} else {
				w--
			}
		}
	}
	if s.nonZero {
		return w != 0
	}
	return n%2 != 0
}

func (s *pixScanner) Draw() {
	s.g.wait()
	b := s.img.Bounds()
	if len(s.only) > 0 {
		for _, p := range s.only {
			if image.Pt(p[0], p[1]).In(b) {
				s.paint(p[0], p[1])
			}
		}
		return
	}
	for y := b.Min.Y; y < b.Max.Y; y++ {
		for x := b.Min.X; x < b.Max.X; x++ {
			s.paint(x, y)
		}
	}
}

func (s *pixScanner) paint(x, y int) {
	if s.clip != image.ZR && !image.Pt(x, y).In(s.clip) || !s.at(float64(x)+0.5, float64(y)+0.5) {
		return
	}
	var c color.Color
	switch v := s.col.(type) {
	case color.Color:
		c = v
	case rasterx.ColorFunc:
		c = v(x, y)
	default:
		panic(fmt.Sprintf("unexpected colour %T", s.col))
	}
	over(s.img, x, y, c)
}

func over(img *image.RGBA, x, y int, c color.Color) {
	n := color.NRGBAModel.Convert(c).(color.NRGBA)
	a := float64(n.A) / 255
	d := img.RGBAAt(x, y)
	mix := func(s, d uint8) uint8 { return uint8(math.Round(float64(s)*a + float64(d)*(1-a))) }
	img.SetRGBA(x, y, color.RGBA{mix(n.R, d.R), mix(n.G, d.G), mix(n.B, d.B), 255})
}

func (s *pixScanner) GetPathExtent() fixed.Rectangle26_6 { return s.ext }
func (s *pixScanner) SetBounds(w, h int)                 {}
func (s *pixScanner) SetColor(c interface{})             { s.g.wait(); s.col = c }
func (s *pixScanner) SetWinding(nz bool)                 { s.nonZero = nz }
func (s *pixScanner) SetClip(r image.Rectangle)          { s.clip = r }
func (s *pixScanner) Clear() {
	s.edges = s.edges[:0]
	s.hasExt, s.open = false, false
	s.ext = fixed.Rectangle26_6{}
	s.cur, s.fst = fixed.Point26_6{}, fixed.Point26_6{}
}

// ---- a draw2d context that records what is painted

type recGC struct {
	*draw2dimg.GraphicContext
	calls []interface{}
	g     *gate
}

func (g *recGC) BeginPath() {
	g.g.wait()
	g.GraphicContext.BeginPath()
}

func newRecGC(img *image.RGBA) *recGC {
	return &recGC{GraphicContext: draw2dimg.NewGraphicContext(img)}
}

func (g *recGC) cur() *draw2dbase.ContextStack { return g.GraphicContext.Current }

func (g *recGC) ops(extra []*draw2d.Path) []interface{} {
	out := []interface{}{}
	tr := g.cur().Tr
	for _, p := range append(append([]*draw2d.Path{}, extra...), g.cur().Path) {
		i := 0
		pts := func(n int) []int {
			r := []int{}
			for k := 0; k < n; k++ {
				x, y := tr.TransformPoint(p.Points[i+2*k], p.Points[i+2*k+1])
				r = append(r, q(x, 64), q(y, 64))
			}
			i += 2 * n
			return r
		}
		for _, c := range p.Components {
			switch c {
			case draw2d.MoveToCmp:
				out = append(out, M{"k": "M", "p": pts(1)})
			case draw2d.LineToCmp:
				out = append(out, M{"k": "L", "p": pts(1)})
			case draw2d.QuadCurveToCmp:
				out = append(out, M{"k": "Q", "p": pts(2)})
			case draw2d.CubicCurveToCmp:
				out = append(out, M{"k": "C", "p": pts(3)})
			case draw2d.CloseCmp:
				out = append(out, M{"k": "Z", "p": []int{}})
			default:
				out = append(out, M{"k": "?", "p": []int{}})
				i += 6
			}
		}
	}
	return out
}

func (g *recGC) fill(paths []*draw2d.Path) {
	g.g.wait()
	c := g.cur()
	rule := "evenodd"
	if c.FillRule == draw2d.FillRuleWinding {
		rule = "nonzero"
	}
	g.calls = append(g.calls, M{"k": "fill", "ops": g.ops(paths), "c": dumpColor(c.FillColor), "rule": rule,
		"lw": 0, "cap": "", "join": "", "dash": []int{}, "doff": 0})
}

func (g *recGC) stroke(paths []*draw2d.Path) {
	g.g.wait()
	c := g.cur()
	s := c.Tr.GetScale()
	dash := []int{}
	for _, d := range c.Dash {
		dash = append(dash, q(d*s, 64))
	}
	g.calls = append(g.calls, M{"k": "stroke", "ops": g.ops(paths), "c": dumpColor(c.StrokeColor), "rule": "",
		"lw": q(c.LineWidth*s, 64), "cap": c.Cap.String(), "join": c.Join.String(), "dash": dash, "doff": q(c.DashOffset*s, 64)})
}

func (g *recGC) Fill(paths ...*draw2d.Path) {
	g.fill(paths)
	g.GraphicContext.Fill(paths...)
}

func (g *recGC) Stroke(paths ...*draw2d.Path) {
	g.stroke(paths)
	g.GraphicContext.Stroke(paths...)
}

func (g *recGC) FillStroke(paths ...*draw2d.Path) {
	g.fill(paths)
	g.stroke(paths)
	g.GraphicContext.FillStroke(paths...)
}

func white(w, h int) *image.RGBA {
	img := image.NewRGBA(image.Rect(0, 0, w, h))
	draw.Draw(img, img.Bounds(), image.White, image.Point{}, draw.Src)
	return img
}

// canvas is one drawing surface that several documents may be drawn onto
type canvas struct {
	backend string
	img     *image.RGBA
	ggc     *gg.Context
	d2d     *recGC
	das     *rasterx.Dasher
	pix     *pixScanner
}

// gate makes the canvas stop before every paint
func (c *canvas) gate(g *gate) {
	if c.d2d != nil {
		c.d2d.g = g
	}
	if c.pix != nil {
		c.pix.g = g
	}
}

func newCanvas(backend string, w, h int) *canvas {
	c := &canvas{backend: backend, img: white(w, h)}
	switch backend {
	case "gg":
		c.ggc = gg.NewContextForRGBA(c.img)
	case "draw2d":
		c.d2d = newRecGC(c.img)
	case "rasterx":
		c.pix = &pixScanner{img: c.img, nonZero: true}
		c.das = rasterx.NewDasher(w, h, c.pix)
	case "rasterxgv":
		sc := rasterx.NewScannerGV(w, h, c.img, c.img.Bounds())
		c.das = rasterx.NewDasher(w, h, sc)
	}
	return c
}

func (c *canvas) draw(s *svg.Svg, opts []Opt) error {
	switch c.backend {
	case "gg":
		return rgg.Draw(c.ggc, s, options(opts)...)
	case "draw2d":
		rd2d.Draw(c.d2d, s, options(opts)...)
	case "rasterx", "rasterxgv":
		rrx.Draw(c.das, s, options(opts)...)
	}
	return nil
}
