package main

// Projection of parsed documents onto the integers the specification uses.

import (
	"fmt"
	"image/color"
	"math"
	"sort"
	"strings"

	svg "github.com/lafriks/go-svg"
	"golang.org/x/image/math/fixed"
)

type M = map[string]interface{}

const lim = 1000000000

// q scales a float to an integer; NaN and huge values become a recognisable number.
func q(f, scale float64) int {
	v := f * scale
	if math.IsNaN(v) {
		return lim + 7
	}
	if v > lim {
		return lim
	}
	if v < -lim {
		return -lim
	}
	return int(math.Round(v))
}

func qf(v fixed.Int26_6) int {
	if v > lim {
		return lim
	}
	if v < -lim {
		return -lim
	}
	return int(v)
}

func dumpOps(p svg.Path) []interface{} {
	out := make([]interface{}, 0, len(p))
	for _, op := range p {
		switch o := op.(type) {
		case svg.OpMoveTo:
			out = append(out, M{"k": "M", "p": []int{qf(o.X), qf(o.Y)}})
		case svg.OpLineTo:
			out = append(out, M{"k": "L", "p": []int{qf(o.X), qf(o.Y)}})
		case svg.OpQuadTo:
			out = append(out, M{"k": "Q", "p": []int{qf(o[0].X), qf(o[0].Y), qf(o[1].X), qf(o[1].Y)}})
		case svg.OpCubicTo:
			out = append(out, M{"k": "C", "p": []int{qf(o[0].X), qf(o[0].Y), qf(o[1].X), qf(o[1].Y), qf(o[2].X), qf(o[2].Y)}})
		case svg.OpClose:
			out = append(out, M{"k": "Z", "p": []int{}})
		default:
			out = append(out, M{"k": "?", "p": []int{}})
		}
	}
	return out
}

func dumpColor(c color.Color) []int {
	if c == nil {
		return []int{}
	}
	n := color.NRGBAModel.Convert(c).(color.NRGBA)
	return []int{int(n.R), int(n.G), int(n.B), int(n.A)}
}

func dumpMatrix(m svg.Matrix2D) []int {
	return []int{q(m.A, 4096), q(m.B, 4096), q(m.C, 4096), q(m.D, 4096), q(m.E, 64), q(m.F, 64)}
}

func dumpPattern(p svg.Pattern) M {
	switch v := p.(type) {
	case nil:
		return M{"t": "none"}
	case svg.PlainColor:
		return M{"t": "color", "c": dumpColor(v)}
	case svg.Gradient:
		return dumpGradient(v)
	case *svg.Gradient:
		if v == nil {
			return M{"t": "?"}
		}
		return dumpGradient(*v)
	}
	return M{"t": "?"}
}

func dumpGradient(g svg.Gradient) M {
	dir := []int{}
	kind := "?"
	switch d := g.Direction.(type) {
	case svg.Linear:
		kind = "lin"
		for _, f := range d {
			dir = append(dir, q(f, 4096))
		}
	case svg.Radial:
		kind = "rad"
		for _, f := range d {
			dir = append(dir, q(f, 4096))
		}
	}
	stops := []interface{}{}
	for _, s := range g.Stops {
		stops = append(stops, M{"off": q(s.Offset, 4096), "op": q(s.Opacity, 4096), "c": dumpColor(s.StopColor)})
	}
	gm := []int{q(g.Matrix.A, 4096), q(g.Matrix.B, 4096), q(g.Matrix.C, 4096), q(g.Matrix.D, 4096), q(g.Matrix.E, 64), q(g.Matrix.F, 64)}
	return M{"t": "grad", "kind": kind, "dir": dir, "stops": stops, "m": gm, "spread": int(g.Spread), "units": int(g.Units),
		"b": []int{q(g.Bounds.X, 64), q(g.Bounds.Y, 64), q(g.Bounds.W, 64), q(g.Bounds.H, 64)}}
}

func dumpStyle(s svg.PathStyle) M {
	dash := []int{}
	for _, d := range s.Dash.Dash {
		dash = append(dash, q(d, 64))
	}
	masks := []string{}
	masks = append(masks, s.Masks...)
	return M{
		"fo": q(s.FillOpacity, 4096), "lo": q(s.LineOpacity, 4096), "lw": q(s.LineWidth, 64), "nz": s.UseNonZeroWinding,
		"ml": qf(s.Join.MiterLimit), "join": s.Join.LineJoin.String(), "tcap": s.Join.TrailLineCap.String(),
		"lcap": s.Join.LeadLineCap.String(), "gap": s.Join.LineGap.String(),
		"dash": dash, "doff": q(s.Dash.DashOffset, 64),
		"fill": dumpPattern(s.FillerColor), "line": dumpPattern(s.LinerColor),
		"masks": masks, "t": dumpMatrix(s.Transform),
	}
}

func dumpPaths(ps []svg.SvgPath) []interface{} {
	out := make([]interface{}, 0, len(ps))
	for _, p := range ps {
		out = append(out, M{"ops": dumpOps(p.Path), "st": dumpStyle(p.Style)})
	}
	return out
}

func dumpDoc(s *svg.Svg) M {
	ids := []string{}
	for id := range s.SvgMasks {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	masks := []interface{}{}
	for _, id := range ids {
		m := s.SvgMasks[id]
		if m == nil {
			masks = append(masks, M{"id": id, "own": "?", "g": []int{}, "paths": []int{}, "t": []int{}})
			continue
		}
		masks = append(masks, M{"id": id, "own": m.ID, "g": []int{q(m.X, 64), q(m.Y, 64), q(m.W, 64), q(m.H, 64)},
			"paths": dumpPaths(m.SvgPaths), "t": dumpMatrix(m.Transform)})
	}
	titles, descs := []string{}, []string{}
	titles = append(titles, s.Titles...)
	descs = append(descs, s.Descriptions...)
	return M{
		"vb":     []int{q(s.ViewBox.X, 64), q(s.ViewBox.Y, 64), q(s.ViewBox.W, 64), q(s.ViewBox.H, 64)},
		"titles": titles, "descs": descs, "paths": dumpPaths(s.SvgPaths), "masks": masks,
		"t": dumpMatrix(s.Transform), "w": s.Width, "h": s.Height,
	}
}

// exact renders everything reachable through the public API without any rounding.
func exact(s *svg.Svg) string {
	if s == nil {
		return "<nil>"
	}
	var b strings.Builder
	pat := func(p svg.Pattern) {
		switch v := p.(type) {
		case nil:
			b.WriteString("nil")
		case svg.PlainColor:
			fmt.Fprintf(&b, "plain%v", v.NRGBA)
		case svg.Gradient:
			fmt.Fprintf(&b, "grad %T %v %v %v %v %v[", v.Direction, v.Direction, v.Bounds, v.Matrix, v.Spread, v.Units)
			for _, st := range v.Stops {
				fmt.Fprintf(&b, "(%v %v %v)", st.Offset, st.Opacity, dumpColor(st.StopColor))
			}
			b.WriteString("]")
		default:
			fmt.Fprintf(&b, "?%T", p)
		}
		b.WriteString("|")
	}
	paths := func(ps []svg.SvgPath) {
		for _, p := range ps {
			for _, op := range p.Path {
				fmt.Fprintf(&b, "%T%v ", op, dumpOps(svg.Path{op}))
			}
			st := p.Style
			pat(st.FillerColor)
			pat(st.LinerColor)
			fmt.Fprintf(&b, "%v %v %v %v %v %v %v %q %v\n", st.FillOpacity, st.LineOpacity, st.LineWidth, st.UseNonZeroWinding,
				st.Join, st.Dash.Dash, st.Dash.DashOffset, st.Masks, st.Transform)
		}
	}
	fmt.Fprintf(&b, "%v %q %q %v %q %q\n", s.ViewBox, s.Titles, s.Descriptions, s.Transform, s.Width, s.Height)
	paths(s.SvgPaths)
	ids := []string{}
	for id := range s.SvgMasks {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	for _, id := range ids {
		m := s.SvgMasks[id]
		fmt.Fprintf(&b, "mask %q %q %v %v %v %v %v\n", id, m.ID, m.X, m.Y, m.W, m.H, m.Transform)
		paths(m.SvgPaths)
	}
	return b.String()
}
