package main

// Sequences of draws onto one canvas, with contexts that are new or kept.

import (
	"bytes"
	"fmt"
	"image"
	"math"

	"github.com/fogleman/gg"
	svg "github.com/lafriks/go-svg"
	"github.com/lafriks/go-svg/renderer"
	rd2d "github.com/lafriks/go-svg/renderer/draw2d"
	rgg "github.com/lafriks/go-svg/renderer/gg"
	rrx "github.com/lafriks/go-svg/renderer/rasterx"
	"github.com/llgcode/draw2d/draw2dimg"
	"github.com/srwiley/rasterx"
	"golang.org/x/image/math/fixed"
)

type FoldCall struct {
	Keep bool  `json:"keep"`
	Mute bool  `json:"mute"`
	List []int `json:"list"`
}

type FoldRun struct {
	Back  string     `json:"back"`
	Calls []FoldCall `json:"calls"`
}

// painter returns a function that draws with one context onto img
func painter(back string, img *image.RGBA) func(*svg.Svg, ...renderer.RenderOption) error {
	b := img.Bounds()
	switch back {
	case "gg":
		gc := gg.NewContextForRGBA(img)
		return func(s *svg.Svg, o ...renderer.RenderOption) error { return rgg.Draw(gc, s, o...) }
	case "draw2d":
		gc := draw2dimg.NewGraphicContext(img)
		return func(s *svg.Svg, o ...renderer.RenderOption) error { rd2d.Draw(gc, s, o...); return nil }
	}
	var sc rasterx.Scanner = rasterx.NewScannerGV(b.Dx(), b.Dy(), img, b)
	if back == "winding" { // knows the winding rule
		pix := &pixScanner{img: img, nonZero: true}
		for y := b.Min.Y + 3; y < b.Max.Y; y += 6 {
			for x := b.Min.X + 2; x < b.Max.X; x += 6 {
				pix.only = append(pix.only, [2]int{x, y})
			}
		}
		sc = pix
	}
	gc := rasterx.NewDasher(b.Dx(), b.Dy(), sc)
	return func(s *svg.Svg, o ...renderer.RenderOption) error { rrx.Draw(gc, s, o...); return nil }
}

// bounded tells whether the rasterisers of the dependencies can cope: lines
// of millions of pixels and dashes of less than a pixel's fraction take them
// forever, and coordinates outside of 26.6 overflow.
func bounded(ps []svg.SvgPath, m svg.Matrix2D) bool {
	big := func(v, max float64) bool { return !(math.Abs(v) <= max) }
	for _, p := range ps {
		t := m.Mult(p.Style.Transform)
		if big(t.A, 60) || big(t.B, 60) || big(t.C, 60) || big(t.D, 60) || big(t.E, 6000) || big(t.F, 6000) {
			return false
		}
		k := t.LineWidthScale()
		if big(k*p.Style.LineWidth, 1500) {
			return false
		}
		if len(p.Style.Dash.Dash) > 0 {
			sum := 0.0
			for _, d := range p.Style.Dash.Dash {
				sum += d * k
			}
			if big(sum, 20000) || sum < 0.2 || big(p.Style.Dash.DashOffset, 20000) {
				return false
			}
		}
		ok := true
		at := func(q fixed.Point26_6) {
			x, y := t.Transform(float64(q.X)/64, float64(q.Y)/64)
			if big(x, 6000) || big(y, 6000) || big(float64(q.X), 64*6000) || big(float64(q.Y), 64*6000) {
				ok = false
			}
		}
		for _, o := range p.Path {
			switch o := o.(type) {
			case svg.OpMoveTo:
				at(fixed.Point26_6(o))
			case svg.OpLineTo:
				at(fixed.Point26_6(o))
			case svg.OpQuadTo:
				at(o[0])
				at(o[1])
			case svg.OpCubicTo:
				at(o[0])
				at(o[1])
				at(o[2])
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

func fold(r *Req) M {
	s, err := svg.Parse(bytes.NewReader(r.bytes()), svg.ErrorMode(r.Mode))
	if s == nil || len(s.SvgPaths) == 0 {
		return M{"skip": "empty"}
	}
	opts := options(r.Opts)
	target := renderer.Options(s, opts...).Target
	fits := bounded(s.SvgPaths, target)
	for _, p := range s.SvgPaths {
		for _, k := range s.SvgMasks {
			fits = fits && bounded(k.SvgPaths, target.Mult(p.Style.Transform))
		}
	}
	if !fits || len(s.SvgMasks) > 40 || len(s.SvgPaths) > 4000 {
		return M{"skip": "bounds"}
	}
	paths, picks := []M{}, []int{}
	for _, k := range r.Picks {
		i := k % len(s.SvgPaths)
		picks = append(picks, i)
		p := s.SvgPaths[i]
		paths = append(paths, M{"fill": p.Style.FillerColor != nil, "line": p.Style.LinerColor != nil})
	}
	before := fmt.Sprintf("%#v", dumpDoc(s))
	runs := []M{}
	for _, run := range r.Runs {
		img := white(r.W, r.H)
		res := []string{hash(string(img.Pix))}
		var draw func(*svg.Svg, ...renderer.RenderOption) error
		failed := ""
		for _, c := range run.Calls {
			part := *s
			part.SvgPaths = nil
			for _, k := range c.List {
				part.SvgPaths = append(part.SvgPaths, s.SvgPaths[picks[k-1]])
			}
			if draw == nil || !c.Keep {
				draw = painter(run.Back, img)
			}
			o := opts
			if c.Mute {
				o = append(append([]renderer.RenderOption{}, opts...), renderer.Opacity(0))
			}
			if e := draw(&part, o...); e != nil {
				failed = e.Error()
			}
			res = append(res, hash(string(img.Pix)))
		}
		runs = append(runs, M{"back": run.Back, "err": failed != "", "res": res})
	}
	// the whole document, as a user draws it
	for _, b := range []string{"rasterx", "gg", "draw2d"} {
		if e := painter(b, white(r.W, r.H))(s, opts...); e != nil {
			runs = append(runs, M{"back": b, "err": true, "res": []string{}})
		}
	}
	return M{"paths": paths, "runs": runs, "same": before == fmt.Sprintf("%#v", dumpDoc(s)), "perr": err != nil, "total": len(s.SvgPaths)}
}
