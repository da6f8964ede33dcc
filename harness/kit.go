package main

// Calls of the helpers for painting drivers: path building, the extent of a
// gradient, the colour of a pattern and the names of the modes.

import (
	"image/color"

	svg "github.com/lafriks/go-svg"
	"golang.org/x/image/math/fixed"
)

type KitStop struct {
	C   []int   `json:"c"` // NRGBA, nothing for no colour
	Off float64 `json:"off"`
	Op  float64 `json:"op"`
	Pre bool    `json:"pre"` // of the type color.RGBA
}

type Kit struct {
	Radial bool       `json:"radial"`
	Dir    []float64  `json:"dir"`
	M      []float64  `json:"m"`
	B      [4]float64 `json:"b"`
	Spread int        `json:"spread"`
	Units  int        `json:"units"`
	Stops  []KitStop  `json:"stops"`
	Calls  []KitCall  `json:"calls"`
}

type KitCall struct {
	K string `json:"k"`
	P []int  `json:"p"`
	N int    `json:"n"`
	W string `json:"w"`
}

func kitGradient(k *Kit) svg.Gradient {
	g := svg.Gradient{
		Matrix: mat(k.M), Spread: svg.SpreadMethod(k.Spread), Units: svg.GradientUnits(k.Units),
		Bounds: svg.Bounds{X: k.B[0], Y: k.B[1], W: k.B[2], H: k.B[3]},
	}
	if k.Radial {
		var d svg.Radial
		copy(d[:], k.Dir)
		g.Direction = d
	} else {
		var d svg.Linear
		copy(d[:], k.Dir)
		g.Direction = d
	}
	for _, s := range k.Stops {
		st := svg.GradStop{Offset: s.Off, Opacity: s.Op}
		if len(s.C) == 4 {
			n := color.NRGBA{uint8(s.C[0]), uint8(s.C[1]), uint8(s.C[2]), uint8(s.C[3])}
			if s.Pre {
				st.StopColor = color.RGBAModel.Convert(n)
			} else {
				st.StopColor = svg.PlainColor{NRGBA: n}
			}
		}
		g.Stops = append(g.Stops, st)
	}
	return g
}

func kit(r *Req) M {
	var (
		p   svg.Path
		out []M
	)
	keep := kitGradient(r.Kit)
	g := keep
	for _, c := range r.Kit.Calls {
		pt := func(i int) fixed.Point26_6 {
			return fixed.Point26_6{X: fixed.Int26_6(c.P[2*i]), Y: fixed.Int26_6(c.P[2*i+1])}
		}
		var res interface{} = []int{}
		switch c.K {
		case "start":
			p.Start(pt(0))
		case "line":
			p.Line(pt(0))
		case "quad":
			p.QuadBezier(pt(0), pt(1))
		case "cube":
			p.CubeBezier(pt(0), pt(1), pt(2))
		case "stop":
			p.Stop(c.N == 1)
		case "clear":
			p.Clear()
		case "extent":
			res = dumpMatrix(g.ApplyPathExtent(fixed.Rectangle26_6{Min: pt(0), Max: pt(1)}))
		case "copy":
			g = keep
		case "units":
			g.Units = svg.GradientUnits(c.N)
		case "colour":
			switch c.N {
			case 0:
				res = dumpColor(svg.GetColor(nil))
			case 1:
				res = dumpColor(svg.GetColor(svg.NewPlainColor(0x12, 0x34, 0x56, 0xff)))
			default:
				res = dumpColor(svg.GetColor(g))
			}
		case "name":
			switch c.W {
			case "join":
				res = []string{svg.JoinMode(c.N).String()}
			case "cap":
				res = []string{svg.CapMode(c.N).String()}
			default:
				res = []string{svg.GapMode(c.N).String()}
			}
		default:
			panic("harness: unknown call " + c.K)
		}
		out = append(out, M{"path": dumpOps(p), "g": dumpGradient(g), "keep": dumpGradient(keep), "res": res})
	}
	return M{"steps": out}
}
