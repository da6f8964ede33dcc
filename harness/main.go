package main

// The harness executes one JSON request per line against the code in /repo,
// through its public API only, and reports what was observed.

import (
	"bufio"
	"bytes"
	"crypto/sha256"
	"encoding/base64"
	"encoding/json"
	"encoding/xml"
	"errors"
	"fmt"
	"io"
	"log"
	"os"
	"runtime/debug"
	"strings"
	"sync"
	"time"

	svg "github.com/lafriks/go-svg"
	"golang.org/x/image/math/fixed"
)

type Req struct {
	Op    string      `json:"op"`
	ID    int         `json:"id"`
	Src   string      `json:"src"`
	B64   string      `json:"b64"`
	Mode  int         `json:"mode"`
	Chunk []int       `json:"chunk"`
	Back  string      `json:"back"`
	Opts  []Opt       `json:"opts"`
	W     int         `json:"w"`
	H     int         `json:"h"`
	Pts   [][2]int    `json:"pts"`
	Nums  [][]float64 `json:"nums"`
	Docs  []string    `json:"docs"`
	Steps []Step      `json:"steps"`
	Limit int         `json:"limit"`
	Pic   *Pic        `json:"pic"`
	Backs []string    `json:"backs"`
	Picks []int       `json:"picks"`
	Runs  []FoldRun   `json:"runs"`
	Kit   *Kit        `json:"kit"`
}

var logbuf bytes.Buffer

func (r *Req) bytes() []byte {
	if r.B64 != "" {
		b, err := base64.StdEncoding.DecodeString(r.B64)
		if err != nil {
			panic("harness: " + err.Error())
		}
		return b
	}
	return []byte(r.Src)
}

// chunkReader delivers the data in the given sizes, then in one piece.
type chunkReader struct {
	data []byte
	size []int
}

func (c *chunkReader) Read(p []byte) (int, error) {
	if len(c.data) == 0 {
		return 0, io.EOF
	}
	n := len(c.data)
	if len(c.size) > 0 {
		n = c.size[0]
		c.size = c.size[1:]
	}
	if n > len(c.data) {
		n = len(c.data)
	}
	if n > len(p) {
		n = len(p)
	}
	copy(p, c.data[:n])
	c.data = c.data[n:]
	return n, nil
}

func errText(err error) string {
	if err == nil {
		return ""
	}
	return err.Error()
}

func parse(r *Req) M {
	logbuf.Reset()
	s, err := svg.Parse(&chunkReader{data: r.bytes(), size: r.Chunk}, svg.ErrorMode(r.Mode))
	out := M{"err": err != nil, "msg": errText(err), "nil": s == nil, "logs": strings.Count(logbuf.String(), "\n")}
	if s != nil {
		out["doc"] = dumpDoc(s)
	}
	return out
}

// faultReader delivers the data and then fails instead of reporting the end
type faultReader struct {
	rd io.Reader
}

var errFault = errors.New("read fault")

func (f *faultReader) Read(p []byte) (int, error) {
	n, err := f.rd.Read(p)
	if err == io.EOF {
		err = errFault
	}
	return n, err
}

// modes parses the same bytes in all error modes, and once more from a reader
// that breaks down after the last byte
func modes(r *Req) M {
	one := func(mode int, fault bool) M {
		logbuf.Reset()
		var rd io.Reader = bytes.NewReader(r.bytes())
		if fault {
			rd = &faultReader{rd}
		}
		s, err := svg.Parse(rd, svg.ErrorMode(mode))
		o := M{"err": err != nil, "nil": s == nil, "logs": strings.Count(logbuf.String(), "\n"), "h": hash(exact(s)), "ph": []string{}, "msg": errText(err)}
		if s != nil {
			ph := []string{}
			for _, p := range s.SvgPaths {
				ph = append(ph, hash(exact(&svg.Svg{SvgPaths: []svg.SvgPath{p}})))
			}
			o["ph"] = ph
		}
		return o
	}
	return M{"runs": []M{one(0, false), one(1, false), one(2, false), one(0, true)}}
}

func render(r *Req) M {
	logbuf.Reset()
	s, err := svg.Parse(bytes.NewReader(r.bytes()), svg.ErrorMode(r.Mode))
	if err != nil || s == nil {
		return M{"perr": true, "msg": errText(err)}
	}
	c := newCanvas(r.Back, r.W, r.H)
	derr := c.draw(s, r.Opts)
	px := [][]int{}
	for _, p := range r.Pts {
		v := c.img.RGBAAt(p[0], p[1])
		px = append(px, []int{int(v.R), int(v.G), int(v.B)})
	}
	out := M{"perr": false, "derr": derr != nil, "px": px, "msg": errText(derr)}
	if c.d2d != nil {
		out["calls"] = c.d2d.calls
	}
	return out
}

// readBack parses the text form of a path
func readBack(t string) M {
	codes := []int{}
	for _, b := range []byte(t) {
		codes = append(codes, int(b))
	}
	s, err := svg.Parse(strings.NewReader(`<svg><path d="`+t+`"/></svg>`), svg.StrictErrorMode)
	o := M{"text": t, "cs": codes, "err": err != nil, "back": []interface{}{}, "n": 0}
	if s != nil {
		o["n"] = len(s.SvgPaths)
		if len(s.SvgPaths) > 0 {
			o["back"] = dumpOps(s.SvgPaths[0].Path)
		}
	}
	return o
}

// build makes a path from operations [kind, coordinates in 1/64 ...]
func build(nums [][]float64) (p svg.Path) {
	at := func(v []float64, i int) fixed.Point26_6 {
		return fixed.Point26_6{X: fixed.Int26_6(v[i]), Y: fixed.Int26_6(v[i+1])}
	}
	for _, v := range nums {
		switch v[0] {
		case 0:
			p.Start(at(v, 1))
		case 1:
			p.Line(at(v, 1))
		case 2:
			p.QuadBezier(at(v, 1), at(v, 3))
		case 3:
			p.CubeBezier(at(v, 1), at(v, 3), at(v, 5))
		case 4:
			p.Stop(true)
		}
	}
	return p
}

// text reports the text form of paths and what it parses back to
func text(r *Req) M {
	var ps []svg.Path
	if len(r.Nums) > 0 {
		ps = []svg.Path{build(r.Nums)}
	} else {
		s, err := svg.Parse(bytes.NewReader(r.bytes()), svg.ErrorMode(r.Mode))
		if err != nil || s == nil {
			return M{"perr": true, "msg": errText(err)}
		}
		for _, p := range s.SvgPaths {
			ps = append(ps, p.Path)
		}
	}
	out := []interface{}{}
	for _, p := range ps {
		t := []M{readBack(p.ToSVGPath())}
		if u := p.String(); u != p.ToSVGPath() {
			t = append(t, readBack(u))
		}
		out = append(out, M{"ops": dumpOps(p), "texts": t})
	}
	return M{"perr": false, "paths": out}
}

// colours reports what each text means as a fill, stroke and stop colour
func colours(r *Req) M {
	var esc bytes.Buffer
	forms := []struct{ ctx, doc string }{
		{"fill", `<svg viewBox="0 0 9 9"><rect width="5" height="5" fill="@"/></svg>`},
		{"stroke", `<svg viewBox="0 0 9 9"><rect width="5" height="5" stroke="@"/></svg>`},
		{"stop", `<svg viewBox="0 0 9 9"><linearGradient id="gg"><stop offset="0" stop-color="@"/></linearGradient><rect width="5" height="5" fill="url(#gg)"/></svg>`},
		{"fillstyle", `<svg viewBox="0 0 9 9"><g style="stroke-width:3;fill: @"><rect width="5" height="5"/></g></svg>`},
		{"strokestyle", `<svg viewBox="0 0 9 9"><rect width="5" height="5" style="stroke:@;opacity:0.5"/></svg>`},
		{"stopstyle", `<svg viewBox="0 0 9 9"><radialGradient id="gg"><stop style="stop-color:@;stop-opacity:1"/></radialGradient><rect width="5" height="5" stroke="url(#gg)"/></svg>`},
	}
	out := []interface{}{}
	for _, t := range r.Docs {
		esc.Reset()
		if err := xml.EscapeText(&esc, []byte(t)); err != nil {
			panic("harness: " + err.Error())
		}
		one := []M{}
		for _, f := range forms {
			if strings.HasSuffix(f.ctx, "style") && strings.ContainsAny(t, ";:") {
				continue
			}
			one = append(one, colourIn(f.ctx, strings.Replace(f.doc, "@", esc.String(), 1), r.Mode))
		}
		out = append(out, one)
	}
	return M{"res": out}
}

func colourIn(ctx, doc string, mode int) (o M) {
	o = M{"ctx": ctx, "out": "ok", "err": false, "t": "?", "c": []int{}}
	defer func() {
		if e := recover(); e != nil {
			o["out"] = "panic"
			o["msg"] = fmt.Sprint(e)
		}
	}()
	s, err := svg.Parse(strings.NewReader(doc), svg.ErrorMode(mode))
	o["err"] = err != nil
	if err != nil || s == nil || len(s.SvgPaths) != 1 {
		return o
	}
	p := s.SvgPaths[0].Style.FillerColor
	if ctx == "stroke" || ctx == "strokestyle" || ctx == "stopstyle" {
		p = s.SvgPaths[0].Style.LinerColor
	}
	switch v := p.(type) {
	case nil:
		o["t"] = "none"
	case svg.PlainColor:
		o["t"], o["c"] = "color", dumpColor(v)
	case svg.Gradient:
		if strings.HasPrefix(ctx, "stop") && len(v.Stops) == 1 {
			o["t"], o["c"] = "color", dumpColor(v.Stops[0].StopColor)
		}
	}
	return o
}

func mat(v []float64) svg.Matrix2D {
	return svg.Matrix2D{A: v[0], B: v[1], C: v[2], D: v[3], E: v[4], F: v[5]}
}

// matrix repeats a product of functions [kind, args...] with the matrix API;
// the first entry of nums is the point
func matrix(r *Req) M {
	x, y := r.Nums[0][0], r.Nums[0][1]
	m, left := svg.Identity, svg.Identity
	var single []svg.Matrix2D
	for _, v := range r.Nums[1:] {
		one := svg.Identity
		switch v[0] {
		case 0:
			m, one = m.Translate(v[1], v[2]), one.Translate(v[1], v[2])
		case 1:
			m, one = m.Scale(v[1], v[2]), one.Scale(v[1], v[2])
		case 2:
			m, one = m.Rotate(v[1]), one.Rotate(v[1])
		case 3:
			m, one = m.SkewX(v[1]), one.SkewX(v[1])
		case 4:
			m, one = m.SkewY(v[1]), one.SkewY(v[1])
		case 5:
			one = mat(v[1:])
			m = m.Mult(one)
		}
		left = left.Mult(one)
		single = append(single, one)
	}
	right := svg.Identity
	sx, sy := x, y
	for i := len(single) - 1; i >= 0; i-- {
		right = single[i].Mult(right)
		sx, sy = single[i].Transform(sx, sy)
	}
	pt := func(x, y float64) []int { return []int{q(x, 64), q(y, 64)} }
	fp := func(p fixed.Point26_6) []int { return []int{qf(p.X), qf(p.Y)} }
	fx := fixed.Point26_6{X: fixed.Int26_6(x * 64), Y: fixed.Int26_6(y * 64)}
	fy := fixed.Point26_6{X: fx.Y, Y: fx.X}
	m0 := m
	q1, q2 := m.QuadTo(svg.OpQuadTo{fx, fy})
	c1, c2, c3 := m.CubicTo(svg.OpCubicTo{fx, fy, fx})
	inv := m.Invert()
	out := M{
		"m": dumpMatrix(m), "left": dumpMatrix(left), "right": dumpMatrix(right),
		"ainv": dumpMatrix(m.Mult(inv)), "inva": dumpMatrix(inv.Mult(m)),
		"ida": dumpMatrix(svg.Identity.Mult(m)), "aid": dumpMatrix(m.Mult(svg.Identity)), "idm": dumpMatrix(svg.Identity),
		"fix": fp(m.TFixed(fx)), "mt": fp(m.MoveTo(svg.OpMoveTo(fx))), "lt": fp(m.LineTo(svg.OpLineTo(fx))),
		"qt": append(fp(q1), fp(q2)...), "ct": append(append(fp(c1), fp(c2)...), fp(c3)...),
		"fixsw": fp(m.TFixed(fy)), "lws": q(m.LineWidthScale(), 4096), "seq": pt(sx, sy),
	}
	tx, ty := m.Transform(x, y)
	out["pt"] = pt(tx, ty)
	vx, vy := m.TransformVector(x, y)
	out["vec"] = pt(vx, vy)
	ix, iy := inv.Transform(tx, ty)
	out["back"] = pt(ix, iy)
	out["same"] = m == m0 && svg.Identity == svg.Matrix2D{A: 1, D: 1}
	return out
}

func do(r *Req) M {
	switch r.Op {
	case "parse":
		return parse(r)
	case "modes":
		return modes(r)
	case "render":
		return render(r)
	case "text":
		return text(r)
	case "colour":
		return colours(r)
	case "matrix":
		return matrix(r)
	case "kit":
		return kit(r)
	case "pic":
		return picture(r)
	case "fold":
		return fold(r)
	case "hist":
		return history(r)
	}
	panic("harness: unknown op " + r.Op)
}

func guarded(r *Req) (out M) {
	defer func() {
		if e := recover(); e != nil {
			out = M{"panic": fmt.Sprint(e), "where": where(string(debug.Stack()))}
		}
	}()
	return do(r)
}

func where(stack string) string {
	for _, l := range strings.Split(stack, "\n") {
		if strings.Contains(l, "go-svg") || strings.Contains(l, "/repo/") {
			return strings.TrimSpace(l)
		}
	}
	return ""
}

func hash(s string) string { return fmt.Sprintf("%x", sha256.Sum256([]byte(s)))[:16] }

func main() {
	debug.SetMaxStack(128 << 20)
	log.SetFlags(0)
	log.SetOutput(&syncBuf{})
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	outw := bufio.NewWriterSize(os.Stdout, 1<<16)
	enc := json.NewEncoder(outw)
	enc.SetEscapeHTML(false)
	for {
		line, err := in.ReadBytes('\n')
		if len(bytes.TrimSpace(line)) > 0 {
			var r Req
			if e := json.Unmarshal(line, &r); e != nil {
				fmt.Fprintln(os.Stderr, "harness: bad request:", e)
				os.Exit(3)
			}
			limit := 10 * time.Second
			if r.Limit > 0 {
				limit = time.Duration(r.Limit) * time.Second
			}
			done := make(chan M, 1)
			go func() { done <- guarded(&r) }()
			select {
			case o := <-done:
				o["id"] = r.ID
				if e := enc.Encode(o); e != nil {
					fmt.Fprintln(os.Stderr, "harness: encode:", e)
					os.Exit(3)
				}
				outw.Flush()
			case <-time.After(limit):
				_ = enc.Encode(M{"id": r.ID, "hang": true})
				outw.Flush()
				os.Exit(4)
			}
		}
		if errors.Is(err, io.EOF) {
			break
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, "harness: read:", err)
			os.Exit(3)
		}
	}
}

// syncBuf collects what the library logs
type syncBuf struct{ mu sync.Mutex }

func (b *syncBuf) Write(p []byte) (int, error) {
	b.mu.Lock()
	defer b.mu.Unlock()
	return logbuf.Write(p)
}
