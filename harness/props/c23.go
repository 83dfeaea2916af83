package props

import (
	"bytes"

	gopdf "github.com/signintech/pdft/minigopdf"
	"symh/pdfx"
	"symh/sym"
)

// glyphAt is one glyph as it stands on a page.
type glyphAt struct {
	code int
	x, y float64
	size float64
	rgb  [3]float64
}

// glyphsOf walks the texts of a page; widths are those of the font file.
func glyphsOf(ms []pdfx.Mark, t *pdfx.TTF) []glyphAt {
	var out []glyphAt
	for _, m := range pick(ms, 'T') {
		x := m.X
		for _, it := range m.Items {
			if it.Adj {
				x -= it.Amt * m.Size / 1000
				continue
			}
			out = append(out, glyphAt{it.Code, x, m.Y + it.Rise, m.Size, m.RGB})
			x += float64(t.AdvOf(it.Code)) * m.Size / 1000
		}
	}
	return out
}

// flow is where the next text goes, and what is expected on the page.
type flow struct {
	g     *gopdf.GoPdf
	t     *pdfx.TTF
	x, y  float64
	left  float64
	h     float64
	size  int
	rgb   [3]float64
	fill  [3]float64
	want  []glyphAt
	lines [][4]float64
	lw    float64
	bars  [][3]float64 // x, width, baseline
	under bool
	more  []pdfx.Mark
}

func newFlow(h float64) *flow {
	f := &flow{g: begin(600, h, false), t: stdFont(), x: 10, y: 10, left: 10, h: h, size: 10, lw: 1}
	f.g.AddPage()
	return f
}

func (f *flow) width(s string) float64 { return textWidth(f.t, s, f.size) }
func (f *flow) asc() float64           { return float64(f.t.TypoAsc) * float64(f.size) / float64(f.t.UPM) }
func (f *flow) desc() float64          { return float64(f.t.TypoDesc) * float64(f.size) / float64(f.t.UPM) }

// show expects a text at a place (y up the page).
func (f *flow) show(s string, x, y float64) {
	c := f.rgb
	if c == ([3]float64{}) {
		c = f.fill
	}
	for _, r := range s {
		g := f.t.GlyphOf(int(r))
		f.want = append(f.want, glyphAt{g, x, y, float64(f.size), c})
		x += float64(f.t.AdvOf(g)) * float64(f.size) / 1000
	}
}

func (f *flow) text(s string) {
	sym.Assert(f.g.Text(s) == nil, "writing a text succeeds")
	f.show(s, f.x, f.h-f.y)
	if f.under {
		f.bars = append(f.bars, [3]float64{f.x, f.width(s), f.h - f.y})
	}
	f.x += f.width(s)
}

func (f *flow) cell(rect *gopdf.Rect, s string, o gopdf.CellOption, plain bool) {
	if plain {
		o = gopdf.CellOption{Align: gopdf.Left | gopdf.Top, Float: gopdf.Right}
		sym.Assert(f.g.Cell(rect, s) == nil, "writing a cell succeeds")
	} else {
		sym.Assert(f.g.CellWithOption(rect, s, o) == nil, "writing a cell succeeds")
	}
	w, h := f.width(s), f.asc()-f.desc()
	cw, ch := w, h
	if rect != nil {
		cw, ch = rect.W, rect.H
	}
	x, y := f.x, f.h-f.y-f.asc()
	switch {
	case o.Align&gopdf.Right != 0:
		x += cw - w
	case o.Align&gopdf.Center != 0:
		x += (cw - w) / 2
	}
	switch {
	case o.Align&gopdf.Bottom != 0:
		y = f.h - f.y - ch - f.desc()
	case o.Align&gopdf.Middle != 0:
		y = f.h - f.y - ch/2 - (f.asc()+f.desc())/2
	}
	f.show(s, x, y)
	if f.under {
		f.bars = append(f.bars, [3]float64{f.x, cw, y})
	}
	top, bot := f.h-f.y, f.h-f.y-ch
	for i, side := range []int{gopdf.Top, gopdf.Bottom, gopdf.Left, gopdf.Right} {
		if o.Border&side != 0 {
			f.lines = append(f.lines, [][4]float64{{f.x, top, f.x + cw, top}, {f.x, bot, f.x + cw, bot}, {f.x, top, f.x, bot}, {f.x + cw, top, f.x + cw, bot}}[i])
		}
	}
	if o.Float == 0 || o.Float&gopdf.Right != 0 {
		f.x += cw
	}
	if o.Float&gopdf.Bottom != 0 {
		f.y += ch
	}
}

func (f *flow) at() {
	sym.Assert(near(f.g.GetX(), f.x, 0.000001) && near(f.g.GetY(), f.y, 0.000001), "the position follows what was written")
}

func (f *flow) check() {
	f.at()
	d := parsed(written(f.g))
	ms := drawnOn(d, d.Pages()[0])
	got := glyphsOf(ms, f.t)
	sym.Assert(len(got) == len(f.want), "every character is shown once")
	if len(got) != len(f.want) {
		return
	}
	for i, w := range f.want {
		g := got[i]
		sym.Assert(g.code == w.code, "the characters are shown in order")
		sym.Assert(near(g.x, w.x, 0.02), "a character is where the one before ends, or where it was put")
		sym.Assert(near(g.y, w.y, cent), "a character is at the height asked for")
		sym.Assert(g.size == w.size, "a character has the size set")
		sym.Assert(sameRGB(g.rgb, w.rgb), "a character has the colour set")
	}
	ls := pick(ms, 'L')
	sym.Assert(len(ls) == len(f.lines), "the borders asked for are drawn, and no others")
	if len(ls) == len(f.lines) {
		over := f.lw/2 + cent
		for _, e := range f.lines {
			hit := false
			for _, l := range ls {
				// ends may go beyond the corners, to close them, but not fall short of them
				x, x2 := near(l.X, e[0], cent), near(l.X2, e[2], cent)
				if e[1] == e[3] {
					x, x2 = sym.And(l.X >= e[0]-over, l.X <= e[0]+cent), sym.And(l.X2 >= e[2]-cent, l.X2 <= e[2]+over)
				}
				hit = sym.Or(hit, sym.And(sym.And(x, near(l.Y, e[1], cent)), sym.And(x2, near(l.Y2, e[3], cent))))
			}
			sym.Assert(hit, "a border is at its side of the cell")
		}
	}
	// underlines: joined texts may have one bar
	rs := pick(ms, 'R')
	sum, all := 0.0, 0.0
	for _, b := range f.bars {
		all += b[1]
	}
	thick := float64(f.t.UThick) * float64(f.size) / float64(f.t.UPM)
	for _, r := range rs {
		sum += r.W
		hit := false
		for _, b := range f.bars {
			hit = sym.Or(hit, sym.And(near(r.X, b[0], 0.02), near(r.Y, b[2]+float64(f.t.UPos)*float64(f.size)/float64(f.t.UPM), 0.02)))
		}
		sym.Assert(hit, "an underline is below its text")
		sym.Assert(near(r.H, -thick, cent), "an underline has the thickness of the font")
	}
	sym.Assert(near(sum, all, 0.05), "what is underlined is as long as the texts")
}

// C23_Flow: three calls that write texts or cells, move the position, or change
// font size or colour: every character stands where the position was, in its size
// and colour, and the position follows.
func C23_Flow() {
	f := newFlow(700)
	n := 3 + sym.Tier()
	f.text("AB")
	for i := 0; i < n; i++ {
		tag := itoa(i)
		switch sym.Choice("call"+tag, 10) {
		case 0:
			f.text("CA")
		case 1:
			f.cell(nil, "D", gopdf.CellOption{}, true)
		case 2:
			f.cell(&gopdf.Rect{W: 40, H: 20}, "BE", gopdf.CellOption{}, true)
		case 3:
			f.cell(nil, "F", gopdf.CellOption{Align: gopdf.Right | gopdf.Bottom, Border: gopdf.Left, Float: gopdf.Bottom}, false)
		case 4:
			x := sym.Float("x"+tag, 0, 500)
			f.g.SetX(x)
			f.x = x
		case 5:
			f.g.SetY(55.5)
			f.y = 55.5
		case 6:
			h := sym.Float("br"+tag, 0, 50)
			f.g.Br(h)
			f.x, f.y = f.left, f.y+h
		case 7:
			f.size = 24 - f.size
			sym.Assert(f.g.SetFont("a", "", f.size) == nil, "a font that was added can be set")
		case 8:
			if f.rgb == ([3]float64{}) {
				f.g.SetTextColor(200, 0, 7)
				f.rgb = rgbOf(200, 0, 7)
			} else {
				f.g.SetTextColor(0, 0, 0)
				f.rgb = [3]float64{}
			}
		case 9:
			w, err := f.g.MeasureTextWidth("AC")
			sym.Assert(err == nil && near(w, f.width("AC"), 0.000001), "a text is measured as wide as it is drawn")
		}
		f.at()
	}
	f.text("GA")
	f.check()
}

// C23_Cell: a cell of any size at any place on a page of any height, with any
// alignment, border and float, underlined or not, and a text after it.
func C23_Cell() {
	h := float64(symR("height", 500, 2000))
	f := newFlow(h)
	x, y := sym.Float("x", 0, 400), sym.Float("y", 0, 400)
	f.g.SetX(x)
	f.g.SetY(y)
	f.x, f.y = x, y
	var rect *gopdf.Rect
	if sym.Bool("rect") {
		rect = &gopdf.Rect{W: sym.Float("w", 0, 200), H: sym.Float("h", 0, 100)}
	}
	if sym.Bool("under") {
		f.under = true
		sym.Assert(f.g.SetFont("a", "U", 10) == nil, "a font that was added can be underlined")
	}
	if sym.Tier() > 0 || sym.Bool("wide") {
		lw := sym.Float("lw", 0, 9)
		f.g.SetLineWidth(lw)
		f.lw = lw
	}
	al := []int{gopdf.Left, gopdf.Right, gopdf.Center}[sym.Choice("align", 3)] | []int{gopdf.Top, gopdf.Bottom, gopdf.Middle}[sym.Choice("valign", 3)]
	b := []int{0, gopdf.Left, gopdf.Top, gopdf.Right, gopdf.Bottom, 15}[sym.Choice("border", 6)]
	fl := []int{0, gopdf.Right, gopdf.Bottom, gopdf.Right | gopdf.Bottom}[sym.Choice("float", 4)]
	f.cell(rect, "BC", gopdf.CellOption{Align: al, Border: b, Float: fl}, false)
	f.at()
	f.text("D")
	f.check()
}

// C23_Paint: shapes, fills and colours between texts: a coloured text does not
// colour what comes after it, and a black one is drawn with the fill set.
func C23_Paint() {
	f := newFlow(700)
	k := newInk(700)
	for i := 0; i < 3; i++ {
		tag := itoa(i)
		switch sym.Choice("call"+tag, 5) {
		case 0:
			f.text("AB")
		case 1:
			c := sym.Bytes("rgb"+tag, 3)
			f.g.SetTextColor(c[0], c[1], c[2])
			f.rgb = rgbOf(c[0], c[1], c[2])
			if !sym.Fork(sym.Or(c[0] != 0, sym.Or(c[1] != 0, c[2] != 0))) {
				f.rgb = [3]float64{}
			} else {
				f.text("C")
			}
		case 2:
			set(f.g, k, 3, tag)
			f.fill = k.fill
		case 3:
			set(f.g, k, 5, tag)
			f.fill = k.fill
		case 4:
			f.g.RectFromUpperLeftWithStyle(10, 20, 30, 40, "F")
			k.pen(pdfx.Mark{X: 10, Y: 640, W: 30, H: 40}, 'r', 'R', "F")
		}
	}
	f.text("D")
	f.g.RectFromUpperLeftWithStyle(10, 20, 30, 40, "FD")
	k.pen(pdfx.Mark{X: 10, Y: 640, W: 30, H: 40}, 'r', 'R', "FD")
	f.at()
	d := parsed(written(f.g))
	ms := drawnOn(d, d.Pages()[0])
	got := glyphsOf(ms, f.t)
	sym.Assert(len(got) == len(f.want), "every character is shown once")
	if len(got) != len(f.want) {
		return
	}
	for i, w := range f.want {
		sym.Assert(got[i].code == w.code && near(got[i].x, w.x, 0.02), "the characters are shown in order")
		sym.Assert(sameRGB(got[i].rgb, w.rgb), "a character has the colour set")
	}
	var shapes []pdfx.Mark
	for _, m := range ms {
		if m.K != 'T' {
			shapes = append(shapes, m)
		}
	}
	k.same(shapes)
}

// C23_Pages: margins are set, pages added and texts written in any order of
// three calls: a page starts at the margins, a line at the left one.
func C23_Pages() {
	f := newFlow(700)
	left, top := sym.Float("left", 0, 100), sym.Float("top", 0, 100)
	h := 700.0
	type line struct {
		page int
		x, y float64
		s    string
	}
	var want []line
	page := 0
	l, t := 10.0, 10.0
	x, y := 10.0, 10.0
	for i := 0; i < 4; i++ {
		switch sym.Choice("call"+itoa(i), 6) {
		case 0:
			f.g.SetLeftMargin(left)
			l = left
		case 1:
			f.g.SetTopMargin(top)
			t = top
		case 2:
			f.g.AddPage()
			page++
			x, y, h = l, t, 700
		case 3:
			f.g.AddPageWithOption(gopdf.PageOption{PageSize: gopdf.Rect{W: 300, H: 400}})
			page++
			x, y, h = l, t, 400
		case 4:
			f.g.Br(20)
			x, y = l, y+20
		case 5:
			sym.Assert(f.g.Text("AB") == nil, "writing a text succeeds")
			want = append(want, line{page, x, h - y, "AB"})
			x += f.width("AB")
		}
		sym.Assert(near(f.g.GetX(), x, 0.000001) && near(f.g.GetY(), y, 0.000001), "the position follows the margins")
	}
	sym.Assert(f.g.Text("C") == nil, "writing a text succeeds")
	want = append(want, line{page, x, h - y, "C"})
	d := parsed(written(f.g))
	pages := d.Pages()
	sym.Assert(len(pages) == page+1, "the document has the pages that were added")
	for i, pg := range pages {
		got := glyphsOf(drawnOn(d, pg), f.t)
		n := 0
		for _, w := range want {
			if w.page != i {
				continue
			}
			gx := w.x
			for _, r := range w.s {
				g := f.t.GlyphOf(int(r))
				sym.Assert(n < len(got), "every text is on its page")
				if n >= len(got) {
					return
				}
				sym.Assert(got[n].code == g && near(got[n].x, gx, 0.02) && near(got[n].y, w.y, cent), "a text is on its page, at its place")
				gx += float64(f.t.AdvOf(g)) * 10 / 1000
				n++
			}
		}
		sym.Assert(n == len(got), "no other text is on a page")
	}
}

// C23_Styles: a family with up to four fonts, added in any of some orders, and a
// second family: the style asked for, in either spelling, with or without underline, is the font
// that is drawn, and a style that was not added is an error that leaves the choice as it was.
func C23_Styles() {
	g := &gopdf.GoPdf{}
	g.Start(gopdf.Config{PageSize: gopdf.Rect{W: 595, H: 842}})
	g.SetNoCompression()
	g.AddPage()
	order := [][]int{{0, 1, 2, 3}, {3, 2, 1, 0}, {2, 0}, {1, 3}, {3}, {0}}[sym.Choice("order", 6)]
	fonts := map[int]*pdfx.TTF{}
	add := func(fam string, style, k int) *pdfx.TTF {
		t := stdFont()
		t.Adv[1] = 1100 + 10*k
		sym.Assert(g.AddTTFFontByReaderWithOption(fam, bytes.NewReader(t.Bytes()), gopdf.TtfOption{Style: style}) == nil, "a valid font is accepted")
		return t
	}
	other := add("g", sym.Choice("other", 4), 9)
	for _, st := range order {
		fonts[st] = add("f", st, st)
	}
	last := -1
	for i := 0; i < 2; i++ {
		st := sym.Choice("style"+itoa(i), 8)
		var err error
		if sym.Bool("text" + itoa(i)) {
			err = g.SetFont("f", []string{"", "I", "B", "BI", "U", "iu", "Ub", "IBU"}[st], 10)
		} else {
			err = g.SetFontWithStyle("f", st, 10)
		}
		sym.Assert((err == nil) == (fonts[st&3] != nil), "a style can be chosen if it was added")
		if err == nil {
			last = st
		}
	}
	err := g.Text("AB")
	sym.Assert((err == nil) == (last >= 0), "a text needs a font")
	if err != nil {
		return
	}
	f := parsed(written(g))
	ms := drawnOn(f, f.Pages()[0])
	ts := pick(ms, 'T')
	sym.Assert(len(ts) == 1, "the text is drawn once")
	sym.Assert(len(pick(ms, 'R')) == last>>2, "the text is underlined if asked for")
	if len(ts) != 1 {
		return
	}
	ws := cidWidths(f, resolves(f, f.Pages()[0], "Font", ts[0].Name))
	t := fonts[last&3]
	sym.Assert(ws[1] == float64(t.AdvOf(1)) && ws[1] != float64(other.AdvOf(1)), "the text is in the font of the style")
}
