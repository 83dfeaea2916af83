package props

import (
	gopdf "github.com/signintech/pdft/minigopdf"
	"symh/pdfx"
	"symh/sym"
)

// ink is the state of a page as drawing commands leave it.
type ink struct {
	h          float64 // page height
	line, fill [3]float64
	width      float64
	dash       string
	want       []pdfx.Mark
}

func newInk(h float64) *ink { return &ink{h: h, width: 1, dash: "[] 0"} }

// pen draws a mark with the state; styles are as in the documentation.
func (k *ink) pen(m pdfx.Mark, outline, filled byte, style string) {
	if style == "F" || style == "FD" || style == "DF" {
		m.K, m.RGB = filled, k.fill
		k.want = append(k.want, m)
	}
	if style != "F" {
		m.K, m.RGB, m.Width, m.Dash = outline, k.line, k.width, k.dash
		k.want = append(k.want, m)
	}
}

func rgbOf(r, g, b byte) [3]float64 {
	return [3]float64{float64(r) / 255, float64(g) / 255, float64(b) / 255}
}

func sameRGB(a, b [3]float64) bool {
	return sym.And(near(a[0], b[0], colourTol), sym.And(near(a[1], b[1], colourTol), near(a[2], b[2], colourTol)))
}

const colourTol = 0.0051

// same asserts that what is drawn is what was asked for, in order.
func (k *ink) same(got []pdfx.Mark) {
	sym.Assert(len(got) == len(k.want), "as much is drawn as was asked for")
	for i, w := range k.want {
		if i >= len(got) {
			return
		}
		m := got[i]
		sym.Assert(m.K == w.K, "the shapes are drawn in order, outlined or filled as asked for")
		if m.K != w.K {
			return
		}
		switch m.K {
		case 'L':
			there := sym.And(sym.And(near(m.X, w.X, cent), near(m.Y, w.Y, cent)), sym.And(near(m.X2, w.X2, cent), near(m.Y2, w.Y2, cent)))
			back := sym.And(sym.And(near(m.X, w.X2, cent), near(m.Y, w.Y2, cent)), sym.And(near(m.X2, w.X, cent), near(m.Y2, w.Y, cent)))
			sym.Assert(sym.Or(there, back), "a line runs between its ends")
		case 'R', 'r':
			// a rectangle may be given by any corner
			x, y := box(m.X, m.W, w.X, w.W), box(m.Y, m.H, w.Y, w.H)
			sym.Assert(sym.And(x, y), "a rectangle is at its place, of its size")
		case 'C', 'c':
			sym.Assert(len(m.Path) == len(w.Path), "a curve has its points")
			if len(m.Path) != len(w.Path) {
				return
			}
			ok := true
			for j := range m.Path {
				ok = sym.And(ok, near(m.Path[j], w.Path[j], cent))
			}
			sym.Assert(ok, "a curve runs through its points")
		}
		sym.Assert(sameRGB(m.RGB, w.RGB), "a shape has the colour set")
		if m.K == 'L' || m.K == 'r' || m.K == 'C' {
			sym.Assert(near(m.Width, w.Width, cent), "an outline has the width set")
			sym.Assert(m.Dash == w.Dash, "an outline has the line type set")
		}
	}
}

// box compares the extents of two intervals given by start and signed length.
func box(a, la, b, lb float64) bool {
	lo := sym.And(near(a, b, cent), near(a+la, b+lb, 2*cent))
	hi := sym.And(near(a, b+lb, 2*cent), near(a+la, b, 2*cent))
	return sym.Or(lo, hi)
}

var penStyles = []string{"", "D", "F", "FD", "DF"}

// shape draws one shape with arbitrary places and sizes.
func shape(g *gopdf.GoPdf, k *ink, kind, style int, tag string) {
	v := func(n string) float64 { return sym.Float(n+tag, -100, 1000) }
	st := penStyles[style]
	switch kind {
	case 0:
		x1, y1, x2, y2 := v("x1"), v("y1"), v("x2"), v("y2")
		g.Line(x1, y1, x2, y2)
		k.pen(pdfx.Mark{X: x1, Y: k.h - y1, X2: x2, Y2: k.h - y2}, 'L', 'L', "")
	case 1, 2:
		x, y, w, h := v("x"), v("y"), sym.Float("w"+tag, 0, 500), sym.Float("h"+tag, 0, 500)
		if kind == 1 {
			if st == "" {
				g.RectFromUpperLeft(x, y, w, h)
			} else {
				g.RectFromUpperLeftWithStyle(x, y, w, h, st)
			}
			k.pen(pdfx.Mark{X: x, Y: k.h - y - h, W: w, H: h}, 'r', 'R', st)
		} else {
			if st == "" {
				g.RectFromLowerLeft(x, y, w, h)
			} else {
				g.RectFromLowerLeftWithStyle(x, y, w, h, st)
			}
			k.pen(pdfx.Mark{X: x, Y: k.h - y, W: w, H: h}, 'r', 'R', st)
		}
	case 3:
		p := []float64{v("x0"), v("y0"), v("x1"), v("y1"), v("x2"), v("y2"), v("x3"), v("y3")}
		g.Curve(p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7], st)
		m := pdfx.Mark{}
		for i, x := range p {
			if i%2 == 1 {
				x = k.h - x
			}
			m.Path = append(m.Path, x)
		}
		k.pen(m, 'C', 'c', st)
	}
}

// C22_Shapes: two shapes of any kind and style at any places on a page of any
// height: both are drawn where and how asked, in order.
func C22_Shapes() {
	h := symR("height", 100, 2000)
	g := begin(600, float64(h), false)
	g.AddPage()
	k := newInk(float64(h))
	for i := 0; i < 2; i++ {
		kind := sym.Choice("kind"+itoa(i), 4)
		style := 0
		if kind > 0 {
			style = sym.Choice("style"+itoa(i), 5)
		}
		shape(g, k, kind, style, itoa(i))
	}
	f := parsed(written(g))
	k.same(drawnOn(f, f.Pages()[0]))
}

// set changes the state of the page.
func set(g *gopdf.GoPdf, k *ink, kind int, tag string) {
	switch kind {
	case 0:
		w := sym.Float("lw"+tag, 0, 50)
		g.SetLineWidth(w)
		k.width = w
	case 1:
		t := sym.Choice("type"+tag, 3)
		g.SetLineType([]string{"dashed", "dotted", "solid"}[t])
		k.dash = []string{"[5] 2", "[2 3] 11", "[] 0"}[t]
	case 2, 3:
		c := sym.Bytes("rgb"+tag, 3)
		if kind == 2 {
			g.SetStrokeColor(c[0], c[1], c[2])
			k.line = rgbOf(c[0], c[1], c[2])
		} else {
			g.SetFillColor(c[0], c[1], c[2])
			k.fill = rgbOf(c[0], c[1], c[2])
		}
	case 4, 5:
		s := sym.Float("gray"+tag, -2, 2)
		v := s
		if sym.Fork(s < 0) {
			v = 0
		} else if sym.Fork(s > 1) {
			v = 1
		}
		if kind == 4 {
			g.SetGrayStroke(s)
			k.line = [3]float64{v, v, v}
		} else {
			g.SetGrayFill(s)
			k.fill = [3]float64{v, v, v}
		}
	}
}

// C22_State: the width, type, colours and grey of lines and fills are set, to
// anything, two at a time, between three shapes: each shape is drawn with what was set before
// it, and a new page starts afresh, with another setting on it.
func C22_State() {
	g := begin(600, 700, false)
	g.AddPage()
	k := newInk(700)
	draw := func() {
		g.RectFromUpperLeftWithStyle(10, 20, 30, 40, "DF")
		k.pen(pdfx.Mark{X: 10, Y: 640, W: 30, H: 40}, 'r', 'R', "DF")
		g.Line(1, 2, 3, 4)
		k.pen(pdfx.Mark{X: 1, Y: 698, X2: 3, Y2: 696}, 'L', 'L', "")
	}
	draw()
	set(g, k, sym.Choice("first", 6), "a")
	g.Curve(1, 2, 3, 4, 5, 6, 7, 8, "")
	k.pen(pdfx.Mark{Path: []float64{1, 698, 3, 696, 5, 694, 7, 692}}, 'C', 'c', "")
	set(g, k, sym.Choice("second", 6), "b")
	draw()
	g.AddPage()
	l := newInk(700)
	k, l = l, k
	draw()
	set(g, k, sym.Choice("third", 6), "c")
	draw()
	f := parsed(written(g))
	l.same(drawnOn(f, f.Pages()[0]))
	k.same(drawnOn(f, f.Pages()[1]))
}

// C22_Oval: an oval in any box is a closed curve of four pieces that touches the
// middle of each side of the box with the control points of an ellipse.
func C22_Oval() {
	h := symR("height", 100, 2000)
	g := begin(600, float64(h), false)
	g.AddPage()
	x1, y1 := sym.Float("x1", 0, 500), sym.Float("y1", 0, 500)
	w, d := sym.Float("w", 0, 400), sym.Float("d", 0, 400)
	g.Oval(x1, y1, x1+w, y1+d)
	f := parsed(written(g))
	ms := drawnOn(f, f.Pages()[0])
	sym.Assert(len(ms) == 1 && ms[0].K == 'C' && len(ms[0].Path) == 26, "an oval is one curve of four pieces")
	if len(ms) != 1 || len(ms[0].Path) != 26 {
		return
	}
	p := ms[0].Path
	cx, cy := x1+w/2, float64(h)-y1-d/2
	ok := true
	// the ends of the pieces, and the control points at kappa of the half axes
	const kappa = 0.5523
	tol := 2 * cent
	at := func(i int) (float64, float64) { return p[2*i], p[2*i+1] }
	dx, dy := []float64{0, 1, 0, -1}, []float64{-1, 0, 1, 0}
	for i := 0; i < 4; i++ {
		s, e := i, (i+1)%4
		ax, ay := at(3 * i)
		bx, by := at(3*i + 1)
		qx, qy := at(3*i + 2)
		ex, ey := at(3*i + 3)
		ok = sym.And(ok, sym.And(near(ax, cx+dx[s]*w/2, tol), near(ay, cy+dy[s]*d/2, tol)))
		ok = sym.And(ok, sym.And(near(ex, cx+dx[e]*w/2, tol), near(ey, cy+dy[e]*d/2, tol)))
		ok = sym.And(ok, sym.And(near(bx, cx+(dx[s]+kappa*dx[e])*w/2, tol), near(by, cy+(dy[s]+kappa*dy[e])*d/2, tol)))
		ok = sym.And(ok, sym.And(near(qx, cx+(dx[e]+kappa*dx[s])*w/2, tol), near(qy, cy+(dy[e]+kappa*dy[s])*d/2, tol)))
	}
	sym.Assert(ok, "an oval is the ellipse of its box")
}
