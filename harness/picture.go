package main

// Pictures built from (or dumped in) the integers of the specification.

import (
	"bytes"
	"image/color"

	svg "github.com/lafriks/go-svg"
	"github.com/lafriks/go-svg/renderer"
	"golang.org/x/image/math/fixed"
)

type PicOp struct {
	K string `json:"k"`
	P []int  `json:"p"`
}

type PicStop struct {
	Off int   `json:"off"`
	Op  int   `json:"op"`
	C   []int `json:"c"`
}

type PicPat struct {
	T      string    `json:"t"`
	C      []int     `json:"c"`
	Kind   string    `json:"kind"`
	Dir    []int     `json:"dir"`
	Stops  []PicStop `json:"stops"`
	M      []int     `json:"m"`
	Spread int       `json:"spread"`
	Units  int       `json:"units"`
	B      []int     `json:"b"`
}

type PicStyle struct {
	Fo, Lo, Lw, Ml, Doff  int
	Nz                    bool
	Join, Tcap, Lcap, Gap string
	Dash                  []int
	Fill, Line            PicPat
	Masks                 []string
	T                     []int
}

type PicPath struct {
	Ops []PicOp  `json:"ops"`
	St  PicStyle `json:"st"`
}

type PicMask struct {
	ID    string    `json:"id"`
	Paths []PicPath `json:"paths"`
}

type Pic struct {
	VB    []int     `json:"vb"`
	Paths []PicPath `json:"paths"`
	Masks []PicMask `json:"masks"`
}

func picMatrix(t []int) svg.Matrix2D {
	return svg.Matrix2D{A: float64(t[0]) / 4096, B: float64(t[1]) / 4096, C: float64(t[2]) / 4096, D: float64(t[3]) / 4096, E: float64(t[4]) / 64, F: float64(t[5]) / 64}
}

func picPattern(p PicPat) svg.Pattern {
	switch p.T {
	case "color":
		return svg.NewPlainColor(uint8(p.C[0]), uint8(p.C[1]), uint8(p.C[2]), uint8(p.C[3]))
	case "grad":
		g := svg.Gradient{Matrix: picMatrix(p.M), Spread: svg.SpreadMethod(p.Spread), Units: svg.GradientUnits(p.Units)}
		g.Bounds.X, g.Bounds.Y, g.Bounds.W, g.Bounds.H = float64(p.B[0])/64, float64(p.B[1])/64, float64(p.B[2])/64, float64(p.B[3])/64
		if p.Kind == "lin" {
			var d svg.Linear
			for i := range d {
				d[i] = float64(p.Dir[i]) / 4096
			}
			g.Direction = d
		} else {
			var d svg.Radial
			for i := range d {
				d[i] = float64(p.Dir[i]) / 4096
			}
			g.Direction = d
		}
		for _, s := range p.Stops {
			g.Stops = append(g.Stops, svg.GradStop{StopColor: color.NRGBA{uint8(s.C[0]), uint8(s.C[1]), uint8(s.C[2]), uint8(s.C[3])}, Offset: float64(s.Off) / 4096, Opacity: float64(s.Op) / 4096})
		}
		return g
	}
	return nil
}

func picPaths(ps []PicPath) (out []svg.SvgPath) {
	for _, p := range ps {
		var path svg.Path
		pt := func(o PicOp, i int) fixed.Point26_6 {
			return fixed.Point26_6{X: fixed.Int26_6(o.P[2*i]), Y: fixed.Int26_6(o.P[2*i+1])}
		}
		for _, o := range p.Ops {
			switch o.K {
			case "M":
				path.Start(pt(o, 0))
			case "L":
				path.Line(pt(o, 0))
			case "Q":
				path.QuadBezier(pt(o, 0), pt(o, 1))
			case "C":
				path.CubeBezier(pt(o, 0), pt(o, 1), pt(o, 2))
			case "Z":
				path.Stop(true)
			}
		}
		st := svg.PathStyle{
			FillOpacity: float64(p.St.Fo) / 4096, LineOpacity: float64(p.St.Lo) / 4096, LineWidth: float64(p.St.Lw) / 64,
			UseNonZeroWinding: p.St.Nz, FillerColor: picPattern(p.St.Fill), LinerColor: picPattern(p.St.Line),
			Transform: picMatrix(p.St.T), Masks: p.St.Masks,
		}
		st.Join.MiterLimit = fixed.Int26_6(p.St.Ml)
		for _, j := range []svg.JoinMode{svg.Arc, svg.Round, svg.Bevel, svg.Miter, svg.MiterClip, svg.ArcClip} {
			if j.String() == p.St.Join {
				st.Join.LineJoin = j
			}
		}
		for _, c := range []svg.CapMode{svg.NilCap, svg.ButtCap, svg.SquareCap, svg.RoundCap, svg.CubicCap, svg.QuadraticCap} {
			if c.String() == p.St.Tcap {
				st.Join.TrailLineCap = c
			}
			if c.String() == p.St.Lcap {
				st.Join.LeadLineCap = c
			}
		}
		for _, g := range []svg.GapMode{svg.NilGap, svg.FlatGap, svg.RoundGap, svg.CubicGap, svg.QuadraticGap} {
			if g.String() == p.St.Gap {
				st.Join.LineGap = g
			}
		}
		for _, d := range p.St.Dash {
			st.Dash.Dash = append(st.Dash.Dash, float64(d)/64)
		}
		st.Dash.DashOffset = float64(p.St.Doff) / 64
		out = append(out, svg.SvgPath{Path: path, Style: st})
	}
	return out
}

// picture builds (or parses) a picture and paints it on the back ends
func picture(r *Req) M {
	out := M{"perr": false}
	make1 := func() *svg.Svg {
		s := &svg.Svg{SvgPaths: picPaths(r.Pic.Paths), SvgMasks: map[string]*svg.SvgMask{}, Transform: svg.Identity}
		s.ViewBox.X, s.ViewBox.Y, s.ViewBox.W, s.ViewBox.H = float64(r.Pic.VB[0])/64, float64(r.Pic.VB[1])/64, float64(r.Pic.VB[2])/64, float64(r.Pic.VB[3])/64
		for _, m := range r.Pic.Masks {
			s.SvgMasks[m.ID] = &svg.SvgMask{ID: m.ID, SvgPaths: picPaths(m.Paths), Transform: svg.Identity}
		}
		return s
	}
	if r.Pic == nil {
		s, err := svg.Parse(bytes.NewReader(r.bytes()), svg.IgnoreErrorMode)
		if err != nil || s == nil {
			return M{"perr": true, "msg": errText(err)}
		}
		out["doc"] = dumpDoc(s)
		make1 = func() *svg.Svg { return s }
	}
	s := make1()
	o := renderer.Options(s, options(r.Opts)...)
	out["target"], out["opacity"] = dumpMatrix(o.Target), q(o.Opacity, 4096)
	corners := []int{}
	for i := 0; i < 4; i++ {
		x, y := o.Target.Transform(s.ViewBox.X+s.ViewBox.W*float64(i&1), s.ViewBox.Y+s.ViewBox.H*float64(i>>1))
		corners = append(corners, q(x, 64), q(y, 64))
	}
	out["corners"] = corners
	backs := M{}
	for _, b := range r.Backs {
		c := newCanvas(b, r.W, r.H)
		if c.pix != nil {
			c.pix.only = r.Pts
		}
		one := M{"derr": ""}
		if err := c.draw(make1(), r.Opts); err != nil {
			one["derr"] = err.Error()
		}
		px := [][]int{}
		for _, p := range r.Pts {
			v := c.img.RGBAAt(p[0], p[1])
			px = append(px, []int{int(v.R), int(v.G), int(v.B)})
		}
		one["px"] = px
		if c.d2d != nil {
			one["calls"] = append([]interface{}{}, c.d2d.calls...)
		}
		backs[b] = one
	}
	out["backs"] = backs
	return out
}
