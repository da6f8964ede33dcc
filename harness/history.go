package main

// Histories of calls: parses whose readers are released chunk by chunk, draws
// whose canvases are released paint by paint, and mutation of returned
// documents in between.  Every step is reported as an event.

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"sync"

	svg "github.com/lafriks/go-svg"
)

type Step struct {
	E    string `json:"e"` // begin, give, drawbegin, drawgive, scribble, snap, globals, race
	S    int    `json:"s"` // slot
	D    int    `json:"d"` // source text
	Mode int    `json:"mode"`
	I    int    `json:"i"` // parsed document, in the order of their completion
	Via  string `json:"via"`
	Back string `json:"back"`
	Opts []Opt  `json:"opts"`
	Canv int    `json:"canvas"` // 0 = a fresh canvas, k = the canvas number k of this back end, used again
	// sizes of the chunks; 0 is an empty read
	Chunk []int `json:"chunk"`
	// the last bytes arrive together with the end of the stream
	Early bool   `json:"early"`
	All   []Step `json:"all"` // race: calls that run freely at the same time
}

// gate stops a goroutine until the scheduler releases it
type gate struct {
	want chan struct{} // announces that it wants to go on
	give chan struct{} // the permission
	fin  chan struct{} // closed when the call has ended
	stop bool          // the call has ended
}

func newGate() *gate {
	return &gate{want: make(chan struct{}), give: make(chan struct{}), fin: make(chan struct{})}
}

func (g *gate) wait() {
	if g != nil {
		g.want <- struct{}{}
		<-g.give
	}
}

// settle returns when the goroutine wants to go on or has ended
func (g *gate) settle() {
	select {
	case <-g.want:
	case <-g.fin:
		g.stop = true
	}
}

func (g *gate) release() {
	g.give <- struct{}{}
	g.settle()
}

// feed delivers the data in the given sizes, then in one piece
type feed struct {
	g     *gate
	data  []byte
	sizes []int
	early bool
}

func (f *feed) Read(p []byte) (int, error) {
	f.g.wait()
	if len(f.data) == 0 {
		return 0, io.EOF
	}
	n := len(f.data)
	if len(f.sizes) > 0 {
		n, f.sizes = f.sizes[0], f.sizes[1:]
	}
	if n > len(f.data) {
		n = len(f.data)
	}
	if n > len(p) {
		n = len(p)
	}
	copy(p, f.data[:n])
	f.data = f.data[n:]
	if len(f.data) == 0 && f.early {
		return n, io.EOF
	}
	return n, nil
}

func result(s *svg.Svg, err error) string {
	e := "ok"
	if err != nil {
		e = "err:" + err.Error()
	}
	return hash(e + "\n" + exact(s))
}

func globals() string {
	return hash(fmt.Sprintf("%v %v", dumpStyle(svg.DefaultStyle), svg.Identity))
}

// scribble overwrites everything a caller can reach in a document
func scribble(s *svg.Svg) {
	if s == nil {
		return
	}
	defer func() { _ = recover() }()
	paths := func(ps []svg.SvgPath) {
		for i := range ps {
			for j := range ps[i].Path {
				ps[i].Path[j] = svg.OpClose{}
			}
			st := &ps[i].Style
			for j := range st.Dash.Dash {
				st.Dash.Dash[j] = 77
			}
			for j := range st.Masks {
				st.Masks[j] = "scribbled"
			}
			st.Masks = append(st.Masks, "more")
			for _, p := range []svg.Pattern{st.FillerColor, st.LinerColor} {
				if g, ok := p.(svg.Gradient); ok {
					for j := range g.Stops {
						g.Stops[j] = svg.GradStop{Offset: 9, Opacity: 9}
					}
				}
			}
			st.Transform = svg.Matrix2D{}
			st.FillerColor = svg.NewPlainColor(1, 2, 3, 4)
			ps[i].Path = append(ps[i].Path[:0], svg.OpClose{})
		}
	}
	paths(s.SvgPaths)
	for id, m := range s.SvgMasks {
		if m != nil {
			paths(m.SvgPaths)
			m.ID = "scribbled"
			m.W = 99
		}
		delete(s.SvgMasks, id)
	}
	s.SvgMasks["new"] = &svg.SvgMask{}
	s.ViewBox = svg.Bounds{X: 9, Y: 9, W: 9, H: 9}
	for i := range s.Titles {
		s.Titles[i] = "scribbled"
	}
	for i := range s.Descriptions {
		s.Descriptions[i] = "scribbled"
	}
	s.Transform = svg.Matrix2D{}
}

type job struct {
	step Step
	g    *gate
	svg  *svg.Svg
	res  string
}

// history executes the steps and returns the events
func history(r *Req) M {
	events := []interface{}{}
	add := func(e M) { events = append(events, e) }
	var docs []*svg.Svg
	dir := ""
	defer func() {
		if dir != "" {
			os.RemoveAll(dir)
		}
	}()
	shared := map[string]*canvas{}
	parse := func(st Step, g *gate) (s *svg.Svg, res string) {
		defer func() {
			if e := recover(); e != nil {
				s, res = nil, "panic:"+fmt.Sprint(e)
			}
		}()
		data := []byte(r.Docs[st.D])
		var err error
		if st.Via == "file" {
			s, err = svg.ParseFile(filepath.Join(dir, fmt.Sprintf("slot%d.svg", st.S)), svg.ErrorMode(st.Mode))
		} else {
			s, err = svg.Parse(&feed{g: g, data: data, sizes: append([]int{}, st.Chunk...), early: st.Early}, svg.ErrorMode(st.Mode))
		}
		return s, result(s, err)
	}
	// the same file name is used for different texts, one after the other
	file := func(st Step) {
		if st.Via != "file" {
			return
		}
		var err error
		if dir == "" {
			dir, err = os.MkdirTemp("", "svgfile")
		}
		if err == nil {
			err = os.WriteFile(filepath.Join(dir, fmt.Sprintf("slot%d.svg", st.S)), []byte(r.Docs[st.D]), 0o600)
		}
		if err != nil {
			panic("harness: " + err.Error())
		}
	}
	draw := func(st Step, cv *canvas, s *svg.Svg) (res string) {
		defer func() {
			if e := recover(); e != nil {
				res = "panic:" + fmt.Sprint(e)
			}
		}()
		err := cv.draw(s, st.Opts)
		return hash(errText(err) + string(cv.img.Pix))
	}
	canvasFor := func(st Step) *canvas {
		if st.Canv == 0 {
			return newCanvas(st.Back, r.W, r.H)
		}
		// a context that is used again: its pixels are painted white, its drawing state is kept
		k := fmt.Sprintf("%s/%d", st.Back, st.Canv)
		if shared[k] == nil {
			shared[k] = newCanvas(st.Back, r.W, r.H)
		}
		cv := shared[k]
		copy(cv.img.Pix, bytes.Repeat([]byte{255}, len(cv.img.Pix)))
		return cv
	}
	jobs := map[int]*job{}
	ended := func(n int) {
		j := jobs[n]
		if j == nil || !j.g.stop {
			return
		}
		delete(jobs, n)
		if j.step.E == "begin" {
			docs = append(docs, j.svg)
			add(M{"e": "end", "s": n, "res": j.res, "doc": hash(exact(j.svg)), "none": j.svg == nil})
		} else {
			add(M{"e": "drawend", "s": n, "res": j.res})
		}
	}
	start := func(st Step, free bool) *job {
		j := &job{step: st, g: newGate()}
		if st.E == "begin" {
			file(st)
			go func() {
				defer close(j.g.fin)
				if free {
					j.svg, j.res = parse(st, nil)
				} else {
					j.svg, j.res = parse(st, j.g)
				}
			}()
			return j
		}
		cv := canvasFor(st)
		s := docs[st.I]
		if !free {
			cv.gate(j.g)
		}
		go func() {
			defer close(j.g.fin)
			j.res = draw(st, cv, s)
			cv.gate(nil)
		}()
		return j
	}
	event := func(st Step) M {
		e := M{"e": st.E, "s": st.S}
		switch st.E {
		case "begin":
			e["d"], e["mode"] = st.D, st.Mode
		case "drawbegin":
			e["i"], e["how"] = st.I, fmt.Sprintf("%s%v", st.Back, st.Opts)
		}
		return e
	}
	run := func(st Step) {
		switch st.E {
		case "begin", "drawbegin":
			add(event(st))
			jobs[st.S] = start(st, false)
			jobs[st.S].g.settle()
			ended(st.S)
		case "give", "drawgive":
			if j := jobs[st.S]; j != nil {
				add(M{"e": st.E, "s": st.S})
				j.g.release()
				ended(st.S)
			}
		case "finish":
			for j := jobs[st.S]; j != nil && !j.g.stop; {
				j.g.release()
			}
			ended(st.S)
		case "race":
			var js []*job
			for _, c := range st.All {
				add(event(c))
				if c.E == "begin" {
					file(c)
				}
			}
			for _, c := range st.All {
				js = append(js, start(c, true))
			}
			var wg sync.WaitGroup
			for _, j := range js {
				wg.Add(1)
				go func(j *job) { defer wg.Done(); <-j.g.fin }(j)
			}
			wg.Wait()
			for i, c := range st.All {
				js[i].g.stop = true
				jobs[c.S] = js[i]
				ended(c.S)
			}
		case "scribble":
			add(M{"e": "scribble", "i": st.I})
			scribble(docs[st.I])
		case "globals":
			add(M{"e": "globals", "res": globals()})
		case "snap":
			add(M{"e": "snap", "i": st.I, "res": hash(exact(docs[st.I]))})
		default:
			panic("harness: unknown step " + st.E)
		}
	}
	for _, st := range r.Steps {
		run(st)
	}
	for n := range jobs {
		run(Step{E: "finish", S: n})
	}
	for i := range docs {
		run(Step{E: "snap", I: i})
	}
	run(Step{E: "globals"})
	return M{"events": events}
}
