package props

import (
	"bytes"

	gopdf "github.com/signintech/pdft/minigopdf"
	"symh/pdfx"
	"symh/sym"
)

// begin starts a document of its own, with a font "a" chosen at size 10.
func begin(w, h float64, prot bool) *gopdf.GoPdf {
	g := &gopdf.GoPdf{}
	c := gopdf.Config{PageSize: gopdf.Rect{W: w, H: h}}
	if prot {
		c.Protection = gopdf.PDFProtectionConfig{UseProtection: true, Permissions: gopdf.PermissionsPrint, UserPass: []byte("u"), OwnerPass: []byte("o")}
	}
	g.Start(c)
	ownFont(g, "a", stdFont())
	sym.Assert(g.SetFont("a", "", 10) == nil, "a font that was added can be set")
	return g
}

func ownFont(g *gopdf.GoPdf, name string, t *pdfx.TTF) {
	err := g.AddTTFFontByReader(name, bytes.NewReader(t.Bytes()))
	sym.Assert(err == nil, "a valid font is accepted")
}

func written(g *gopdf.GoPdf) []byte {
	b, err := g.GetBytesPdfReturnErr()
	sym.Assert(err == nil, "writing succeeds")
	return b
}

func holder(b []byte) gopdf.ImageHolder {
	h, err := gopdf.ImageHolderByBytes(b)
	sym.Assert(err == nil, "an image can be held")
	return h
}

const drawSteps = 16

// drawStep makes one call on a document of its own.
func drawStep(g *gopdf.GoPdf, k int) (pages int) {
	ok := true
	switch k {
	case 0:
		g.AddPage()
		return 1
	case 1:
		g.AddPageWithOption(gopdf.PageOption{PageSize: gopdf.Rect{W: 300, H: 400}})
		return 1
	case 2:
		ok = g.Text("AB") == nil
	case 3:
		ok = g.Cell(&gopdf.Rect{W: 50, H: 20}, "CA") == nil
	case 4:
		ok = g.SetFont("a", "U", 14) == nil && g.CellWithOption(nil, "D", gopdf.CellOption{Align: gopdf.Center | gopdf.Middle, Border: gopdf.Left | gopdf.Top | gopdf.Right | gopdf.Bottom, Float: gopdf.Bottom}) == nil
	case 5:
		g.SetStrokeColor(1, 2, 3)
		g.Line(10, 20, 30, 40)
	case 6:
		g.SetFillColor(200, 100, 50)
		g.RectFromUpperLeftWithStyle(10, 20, 30, 40, "FD")
	case 7:
		g.SetLineType("dashed")
		g.Oval(10, 20, 30, 40)
	case 8:
		g.SetLineWidth(2)
		g.Curve(1, 2, 3, 4, 5, 6, 7, 8, "F")
	case 9:
		ok = g.ImageByHolder(holder(wideAlpha()), 10, 20, &gopdf.Rect{W: 30, H: 40}) == nil
	case 10:
		ok = g.ImageByHolder(holder(paletteJPEG(0)), 10, 20, &gopdf.Rect{W: 30, H: 40}) == nil
	case 11:
		ok = g.ImageByHolder(holder(paletteJPEG(1)), 10, 20, &gopdf.Rect{W: 30, H: 40}) == nil
	case 12:
		ownFont(g, "b", smallFont())
		ok = g.SetFont("b", "", 12) == nil
		if ok {
			ok = g.Text("AB") == nil
		}
		if ok {
			ok = g.SetFont("a", "", 12) == nil
		}
	case 13:
		g.SetInfo(gopdf.PdfInfo{Title: "A (title)", Author: "\u0e01>", CreationDate: aDate(0)})
	case 14:
		g.SetNoCompression()
	case 15:
		written(g)
	}
	sym.Assert(ok, "drawing succeeds")
	return 0
}

// C21_Calls: any three calls (thorough: four) on a document begun from scratch,
// protected or not: the file is whole and has the pages that were added.
func C21_Calls() {
	prot := sym.Bool("protected")
	g := begin(595, 842, prot)
	g.AddPage()
	n := 1
	for i := 0; i < 3+sym.Tier(); i++ {
		n += drawStep(g, sym.Choice("call"+itoa(i), drawSteps))
	}
	raw := written(g)
	wholeFile(raw, prot)
	f := pdfx.Parse(raw)
	sym.Assert(len(f.Pages()) == n, "the document has the pages that were added")
}

// C21_Pages: up to four pages, each with or without something drawn and with or
// without a size of its own, sizes any: every page has its size and shows what was
// drawn on it, in the order they were added.
func C21_Pages() {
	w, h := symR("w", 1000, 9999), symR("h", 100, 999)
	w2, h2 := symR("w2", 100, 999), symR("h2", 1000, 9999)
	g := begin(float64(w), float64(h), false)
	n := 1 + sym.Choice("pages", 4)
	var own, inked []bool
	for i := 0; i < n; i++ {
		own = append(own, sym.Bool("own"+itoa(i)))
		inked = append(inked, sym.Bool("ink"+itoa(i)))
		if own[i] {
			g.AddPageWithOption(gopdf.PageOption{PageSize: gopdf.Rect{W: float64(w2), H: float64(h2)}})
		} else {
			g.AddPage()
		}
		if inked[i] {
			g.Line(float64(i), 20, 300, 40)
		}
	}
	f := parsed(written(g))
	pages := f.Pages()
	sym.Assert(len(pages) == n, "the document has the pages that were added")
	for i, pg := range pages {
		mb := f.Inherited(pg, "MediaBox")
		sym.Assert(mb != nil && mb.K == 'a' && len(mb.A) == 4, "a page has a size")
		pw, ph := w, h
		if own[i] {
			pw, ph = w2, h2
		}
		sym.Assert(mb.A[0].Num() == 0 && mb.A[1].Num() == 0 && near(mb.A[2].Num(), float64(pw), cent) && near(mb.A[3].Num(), float64(ph), cent), "a page has the size asked for")
		ms := drawnOn(f, pg)
		if !inked[i] {
			sym.Assert(len(ms) == 0, "nothing is on a page that was left empty")
			continue
		}
		sym.Assert(len(ms) == 1 && ms[0].K == 'L', "a page shows what was drawn on it")
		sym.Assert(near(ms[0].X, float64(i), cent) && near(ms[0].Y, float64(ph-20), cent), "a page shows what was drawn on it, at its place")
	}
}

// drawnOn interprets the content of a page, outlines and curves included.
func drawnOn(f *pdfx.File, page int) []pdfx.Mark {
	c, ok := f.Content(page)
	sym.Assert(ok, "page content can be read")
	ms, bad := pdfx.Drawn(c)
	sym.Assert(bad == "", "page content is well-formed: "+bad)
	return ms
}

// C21_Again: a document is written, something is added, and it is written
// again, through the bytes or the reader, compressed or not, protected or not: the second
// file is the one a document gets that was only written then.
func C21_Again() {
	prot, plain := sym.Bool("protected"), sym.Bool("plain")
	first, more := sym.Choice("first", 7), sym.Choice("more", 7)
	kinds := []int{0, 2, 6, 9, 10, 12, 13}
	how := sym.Choice("how", 3)
	run := func(twice bool) []byte {
		g := begin(595, 842, prot)
		if plain {
			g.SetNoCompression()
		}
		g.AddPage()
		drawStep(g, kinds[first])
		if twice {
			if how == 2 {
				readAll(g)
			} else {
				written(g)
			}
		}
		drawStep(g, kinds[more])
		if how == 0 {
			return written(g)
		}
		g.Close()
		return readAll(g)
	}
	once, twice := run(false), run(true)
	a, b := pdfx.Parse(once), pdfx.Parse(twice)
	sym.Assert(a.Problem() == "", "a file is well-formed: "+a.Problem())
	sym.Assert(b.Problem() == "", "a file written a second time is well-formed: "+b.Problem())
	if a.Problem() == "" && b.Problem() == "" {
		if prot {
			why := a.Unlock(pdfx.PadPass([]byte("u"))) + b.Unlock(pdfx.PadPass([]byte("u")))
			sym.Assert(why == "", "the password opens the file: "+why)
		}
		sameDoc(a, b)
	}
}

func readAll(g *gopdf.GoPdf) []byte {
	var b bytes.Buffer
	_, err := b.ReadFrom(g)
	sym.Assert(err == nil, "reading succeeds")
	return b.Bytes()
}

// sameDoc asserts that two files have the same pages: what they draw, in which
// sizes, and how many objects.
func sameDoc(a, b *pdfx.File) {
	pa, pb := a.Pages(), b.Pages()
	sym.Assert(len(pa) == len(pb), "the same number of pages")
	sym.Assert(a.Live() == b.Live(), "the same number of objects")
	for i := range pa {
		if i >= len(pb) {
			return
		}
		ca, ok1 := a.Content(pa[i])
		cb, ok2 := b.Content(pb[i])
		sym.Assert(ok1 && ok2, "page content can be read")
		sym.Assert(bytes.Equal(ca, cb), "the pages show the same")
		sameRes(a, b, pa[i], pb[i], "Font")
		sameRes(a, b, pa[i], pb[i], "XObject")
	}
	ia, ib := a.Deref(a.Trailer.Get("Info")), b.Deref(b.Trailer.Get("Info"))
	sym.Assert((ia == nil) == (ib == nil) && (ia == nil || pdfx.Equal(ia, ib)), "the same document information")
}

func sameRes(a, b *pdfx.File, pa, pb int, kind string) {
	ra, rb := a.Get(a.Inherited(pa, "Resources"), kind), b.Get(b.Inherited(pb, "Resources"), kind)
	if ra == nil || rb == nil {
		sym.Assert(ra == rb, "the same resources")
		return
	}
	sym.Assert(len(ra.D) == len(rb.D), "the same resources")
	for _, e := range ra.D {
		oa, ob := a.RefObj(ra, e.K), b.RefObj(rb, e.K)
		sym.Assert(oa != nil && ob != nil, "a resource is in the file")
		if oa != nil && ob != nil {
			sym.Assert(oa.HasStream == ob.HasStream && bytes.Equal(oa.Stream, ob.Stream), "a resource has the same data")
		}
	}
}

// C21_Long: a document of more than 1, 10 or 100 kB, its objects at one of some places
// around these: the file is whole and shows all of it.
func C21_Long() {
	g := begin(595, 842, false)
	g.SetNoCompression()
	n := []int{0, 40, 300, 4000}[sym.Choice("size", 4)] // lines of 31 bytes
	g.AddPage()
	g.Line(1, 2, 3, 4)
	g.AddPage()
	for i := 0; i < n; i++ {
		g.Line(float64(100+i%10), 200, 300, 400)
	}
	g.SetFont("a", "", 10+sym.Choice("digits", 2)*90)
	sym.Assert(g.Text("ABCDEFGH"[:1+sym.Choice("more", 8)]) == nil, "writing a text succeeds")
	g.AddPage()
	g.Line(1, 2, 3, 4)
	raw := written(g)
	wholeFile(raw, false)
	f := pdfx.Parse(raw)
	sym.Assert(len(f.Pages()) == 3, "the document has the pages that were added")
	sym.Assert(len(pick(drawnOn(f, f.Pages()[1]), 'L')) == n, "a page shows all that was drawn on it")
}
