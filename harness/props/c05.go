package props

import (
	"github.com/signintech/pdft"
	"symh/pdfx"
	"symh/sym"
)

const cent = 0.0051 // two printed decimals

// C05_Align: one text of 0..2 letters on page 1 or 2 of a document whose pages
// have different heights; x, y, w, h any multiple of 1/16 in 0..600 (width and
// height up to 300), every combination of the alignment flags, sizes 7, 12, 30.
func C05_Align() {
	heights := []int{800, 595}
	t := mkTmpl(tpage{h: heights[0], content: []byte("q Q")}, tpage{h: heights[1], content: []byte("q Q")})
	p := open(t.raw)
	fn := stdFont()
	addFont(p, "a", fn)
	size := []int{7, 12, 30}[sym.Choice("size", 3)]
	p.SetFont("a", "", size)
	x, y := sym.Float("x", 0, 600), sym.Float("y", 0, 600)
	w, h := sym.Float("w", 0, 300), sym.Float("h", 0, 300)
	align := sym.Choice("align", 64)
	text := []string{"", "C", "AP"}[sym.Choice("text", 3)]
	page := 1 + sym.Choice("page", 2)
	err := p.Insert(text, page, x, y, w, h, align, nil)
	sym.Assert(err == nil, "insert succeeds")
	f := saved(p)
	pages := f.Pages()
	ms := pick(marksOf(f, pages[page-1]), 'T')
	sym.Assert(len(ms) == 1, "one text on the page")
	sym.Assert(len(pick(marksOf(f, pages[2-page]), 'T')) == 0, "no text on the other page")
	H := float64(heights[page-1])
	asc := float64(fn.TypoAsc) * float64(size) / float64(fn.UPM)
	desc := float64(fn.TypoDesc) * float64(size) / float64(fn.UPM)
	tw := textWidth(fn, text, size)
	wx, wy := x, H-y-asc
	if align&pdft.Right != 0 {
		wx = x + w - tw
	} else if align&pdft.Center != 0 {
		wx = x + w/2 - tw/2
	}
	if align&pdft.Bottom != 0 {
		wy = H - y - h - desc
	} else if align&pdft.Middle != 0 {
		wy = H - y - h/2 - (asc+desc)/2
	}
	sym.Assert(near(ms[0].X, wx, cent), "horizontal position")
	sym.Assert(near(ms[0].Y, wy, cent), "vertical position")
	sym.Assert(ms[0].Size == float64(size), "font size")
}

// C05_Colour: two texts in a row with any colours 0..255 per channel (or no
// colour, which means black): each is painted in its own colour, also when the
// caller reuses one colour value for both.
func C05_Colour() {
	reuse := sym.Bool("reuse")
	var shared pdft.FontColor
	t := mkTmpl(tpage{content: []byte("q Q")})
	p := open(t.raw)
	addFont(p, "a", stdFont())
	p.SetFont("a", "", 12)
	var want [2][3]float64
	for i := 0; i < 2; i++ {
		var c *pdft.FontColor
		if sym.Bool("given" + itoa(i)) {
			c = &pdft.FontColor{R: sym.Int("r"+itoa(i), 0, 255), G: sym.Int("g"+itoa(i), 0, 255), B: sym.Int("b"+itoa(i), 0, 255)}
			want[i] = [3]float64{float64(c.R) / 255, float64(c.G) / 255, float64(c.B) / 255}
			if reuse {
				shared = *c
				c = &shared
			}
		}
		err := p.Insert("AB", 1, 10, float64(10+30*i), 50, 20, pdft.Left, c)
		sym.Assert(err == nil, "insert succeeds")
	}
	f := saved(p)
	ms := pick(marksOf(f, f.Pages()[0]), 'T')
	sym.Assert(len(ms) == 2, "two texts on the page")
	for i := range ms {
		for k := 0; k < 3; k++ {
			sym.Assert(near(ms[i].RGB[k], want[i][k], 0.0055), "text colour")
		}
	}
}

// C05_Box: cell borders on or off, underline on or off; position and size of
// the cell any multiple of 1/16: the four border lines outline the cell in the
// thin dotted style, and the underline is a bar of the cell's width at the
// font's underline position.
func C05_Box() {
	t := mkTmpl(tpage{h: 700, content: []byte("q Q")})
	p := open(t.raw)
	fn := stdFont()
	addFont(p, "a", fn)
	border := sym.Bool("border")
	if border {
		p.ShowCellBorder(true)
		if sym.Bool("offon") {
			p.ShowCellBorder(false)
			border = false
		}
	}
	style := []string{"", "U", "bu", "I"}[sym.Choice("style", 4)]
	size := []int{9, 20}[sym.Choice("size", 2)]
	p.SetFont("a", style, size)
	x, y := sym.Float("x", 0, 600), sym.Float("y", 0, 600)
	w, h := sym.Float("w", 0, 300), sym.Float("h", 0, 300)
	err := p.Insert("BC", 1, x, y, w, h, pdft.Left|pdft.Top, nil)
	sym.Assert(err == nil, "insert succeeds")
	f := saved(p)
	all := marksOf(f, f.Pages()[0])
	ls, rs := pick(all, 'L'), pick(all, 'R')
	if border {
		sym.Assert(len(ls) == 4, "four border lines")
		top, bot := 700-y, 700-y-h
		ends := [4][4]float64{{x, top, x + w, top}, {x, top, x, bot}, {x + w, top, x + w, bot}, {x, bot, x + w, bot}}
		for k := 0; k < 4; k++ {
			hit := false
			for _, l := range ls {
				e := ends[k]
				// the stroke may reach half a line width beyond the corner
				hit = sym.Or(hit, sym.And(sym.And(near(l.X, e[0], 0.0551), near(l.Y, e[1], cent)), sym.And(near(l.X2, e[2], 0.0551), near(l.Y2, e[3], cent))))
			}
			sym.Assert(hit, "border line outlines the cell")
		}
		for _, l := range ls {
			sym.Assert(near(l.Width, 0.1, 0.001), "border width")
			sym.Assert(l.Dash == "[2 3] 11", "border is dotted")
		}
	} else {
		sym.Assert(len(ls) == 0, "no border lines")
	}
	if style == "U" || style == "bu" {
		sym.Assert(len(rs) == 1, "one underline bar")
		r := rs[0]
		thick := float64(fn.UThick) * float64(size) / float64(fn.UPM)
		at := 700 - y - float64(fn.TypoAsc)*float64(size)/float64(fn.UPM) + float64(fn.UPos)*float64(size)/float64(fn.UPM)
		sym.Assert(near(r.X, x, cent), "underline starts at the cell")
		sym.Assert(near(r.W, w, cent), "underline is as wide as the cell")
		sym.Assert(near(r.Y, at, cent), "underline height on the page")
		sym.Assert(near(r.H, -thick, cent), "underline thickness")
	} else {
		sym.Assert(len(rs) == 0, "no underline")
	}
}

// C05_PageHeight: the page size stands on the page, on the page tree node above
// it, one further up, or in an object of its own; the height has any
// first decimal. Text and image are placed by that height, whatever page size the
// first page has.
func C05_PageHeight() {
	d := pdfx.NewDoc()
	hi := []int{792, 595, 1224}[sym.Choice("h", 3)]
	dec := append(sym.Bytes("dec", 1), 0x35)
	for _, c := range dec {
		sym.Assume(sym.And(c >= '0', c <= '9'))
	}
	hs := itoa(hi) + "." + string(dec)
	h := float64(hi) + float64(int(dec[0]-'0')*10+int(dec[1]-'0'))/100
	box := "[0 0 600 " + hs + "]"
	if sym.Bool("spaced") {
		box = "[ 0  0\n600 " + hs + " ]"
	}
	own, up, up2 := "", "", ""
	switch sym.Choice("where", 4) {
	case 0:
		own = "/MediaBox" + box
	case 1:
		up = "/MediaBox" + box
	case 2:
		up2 = "/MediaBox" + box
	case 3:
		own = "/MediaBox 12 0 R"
		d.Obj(12, box)
	}
	d.Obj(1, "<</Type/Catalog/Pages 2 0 R>>")
	d.Obj(2, "<</Type/Pages/Kids[4 0 R 10 0 R]/Count 2"+up2+">>")
	d.Obj(10, "<</Type/Pages/Parent 2 0 R/Kids[6 0 R]/Count 1"+up+">>")
	d.Obj(3, "<</Type/Font/Subtype/Type1/BaseFont/Helvetica>>")
	d.Obj(4, "<</Type/Page/Parent 2 0 R/MediaBox[0 0 400 300]/Resources"+defRes+"/Contents 5 0 R>>")
	d.Stream(5, "", []byte("q Q"))
	d.Obj(6, "<</Type/Page/Parent 10 0 R"+own+"/Resources"+defRes+"/Contents 7 0 R>>")
	d.Stream(7, "", []byte("q Q"))
	p := open(d.Bytes(1))
	fn := stdFont()
	addFont(p, "a", fn)
	p.SetFont("a", "", 10)
	sym.Assert(p.Insert("A", 2, 10, 20, 100, 20, pdft.Left|pdft.Top, nil) == nil, "insert succeeds")
	sym.Assert(p.InsertImg(tinyPNG(), 2, 10, 20, 30, 40) == nil, "insert succeeds")
	f := saved(p)
	ms := marksOf(f, f.Pages()[1])
	ts, is := pick(ms, 'T'), pick(ms, 'I')
	sym.Assert(len(ts) == 1 && len(is) == 1, "text and image are on the page")
	sym.Assert(near(ts[0].Y, h-20-float64(fn.TypoAsc)*10/float64(fn.UPM), cent), "vertical position")
	sym.Assert(near(is[0].M[5], h-60, cent), "vertical position")
}

// C05_BorderPages: borders switched on and off between texts on pages 1..3:
// exactly the texts inserted while they were on have a border, thin and dotted,
// on whatever page they are.
func C05_BorderPages() {
	t := mkTmpl(tpage{content: []byte("q Q")}, tpage{content: []byte("q Q")}, tpage{content: []byte("q Q")})
	p := open(t.raw)
	addFont(p, "a", stdFont())
	p.SetFont("a", "", 10)
	var want [3]int
	for k := 0; k < 3; k++ {
		on := sym.Bool("on" + itoa(k))
		if k > 0 || on {
			p.ShowCellBorder(on)
		}
		pg := sym.Choice("page"+itoa(k), 3)
		sym.Assert(p.Insert("A", pg+1, 10, 20, 100, 20, pdft.Left, nil) == nil, "insert succeeds")
		if on {
			want[pg]++
		}
	}
	f := saved(p)
	for i, pg := range f.Pages() {
		ls := pick(marksOf(f, pg), 'L')
		sym.Assert(len(ls) == 4*want[i], "four border lines per bordered text")
		for _, l := range ls {
			sym.Assert(near(l.Width, 0.1, 0.001), "border width")
			sym.Assert(l.Dash == "[2 3] 11", "border is dotted")
		}
	}
}

// C05_MediaBox: a page whose media box starts anywhere (four values each way),
// gives its corners in any order, in place, inherited or in an object of its
// own; text, border, underline and image are placed from its top left corner.
func C05_MediaBox() {
	lx, ly := []int{0, 50, -20, 300}[sym.Choice("left", 4)], []int{0, 100, -30, 700}[sym.Choice("low", 4)]
	ux, uy := lx+600, ly+800
	box := "[" + itoa(lx) + " " + itoa(ly) + " " + itoa(ux) + " " + itoa(uy) + "]"
	switch sym.Choice("corners", 4) {
	case 1:
		box = "[" + itoa(lx) + " " + itoa(uy) + " " + itoa(ux) + " " + itoa(ly) + "]"
	case 2:
		box = "[" + itoa(ux) + " " + itoa(uy) + " " + itoa(lx) + " " + itoa(ly) + "]"
	case 3:
		box = "[ " + itoa(lx) + ".0 " + itoa(ly) + ". " + itoa(ux) + ".00 +" + itoa(uy) + " ]"
		if uy < 0 {
			return
		}
	}
	d := pdfx.NewDoc()
	at := sym.Choice("where", 3)
	on := func(k int) string {
		switch {
		case k == at && k < 2:
			return "/MediaBox" + box
		case k == 0 && at == 2:
			return "/MediaBox 7 0 R"
		}
		return ""
	}
	d.Obj(1, "<</Type/Catalog/Pages 2 0 R>>")
	d.Obj(2, "<</Type/Pages/Kids[4 0 R]/Count 1"+on(1)+">>")
	d.Obj(3, "<</Type/Font/Subtype/Type1/BaseFont/Helvetica>>")
	d.Obj(4, "<</Type/Page/Parent 2 0 R"+on(0)+"/Resources<</Font<</F1 3 0 R>>>>/Contents 5 0 R>>")
	d.Stream(5, "", []byte("q Q"))
	d.Obj(7, box)
	p := open(d.Bytes(1))
	fn := stdFont()
	addFont(p, "a", fn)
	p.ShowCellBorder(true)
	p.SetFont("a", "U", 20)
	x, y := sym.Float("x", 0, 500), sym.Float("y", 0, 500)
	sym.Assert(p.Insert("BC", 1, x, y, 100, 50, pdft.Left|pdft.Top, nil) == nil, "insert succeeds")
	sym.Assert(p.InsertImg(pdfx.JPEG(2, 3, 1, []byte{1, 2}), 1, x, y, 30, 40) == nil, "insert succeeds")
	f := saved(p)
	all := marksOf(f, f.Pages()[0])
	ts, is, ls, rs := pick(all, 'T'), pick(all, 'I'), pick(all, 'L'), pick(all, 'R')
	sym.Assert(len(ts) == 1 && len(is) == 1 && len(ls) == 4 && len(rs) == 1, "all items are on the page")
	if len(ts) != 1 || len(is) != 1 || len(ls) != 4 || len(rs) != 1 {
		return
	}
	left, top := float64(lx), float64(uy)
	asc := float64(fn.TypoAsc) * 20 / float64(fn.UPM)
	sym.Assert(sym.And(near(ts[0].X, left+x, cent), near(ts[0].Y, top-y-asc, cent)), "a text is placed from the top left corner of the media box")
	sym.Assert(sym.And(near(is[0].M[4], left+x, cent), near(is[0].M[5], top-y-40, cent)), "an image is placed from the top left corner of the media box")
	sym.Assert(near(rs[0].X, left+x, cent), "the underline starts at the cell")
	for _, l := range ls {
		in := sym.And(sym.And(l.X >= left+x-0.06, l.X <= left+x+100.06), sym.And(l.Y >= top-y-50.06, l.Y <= top-y+0.06))
		sym.Assert(in, "the border is at the cell")
	}
}
