package props

import (
	"bytes"
	"strconv"

	"github.com/signintech/pdft"
	"symh/pdfx"
	"symh/sym"
)

func itoa(n int) string { return strconv.Itoa(n) }

// tpage is one page of a template.
type tpage struct {
	h       int    // media box height
	content []byte // decoded content
	zip     bool
	extra   string // more page entries
	res     string // resources; empty means the default
}

// tmpl is a conventional template: 1 catalog, 2 page tree, 3 base font, then
// page and content per page.
type tmpl struct {
	doc   *pdfx.Doc
	pages []int
	conts []int
	raw   []byte
}

const defRes = "<</Font<</F1 3 0 R>>>>"

func mkTmpl(ps ...tpage) *tmpl {
	t := &tmpl{doc: pdfx.NewDoc()}
	t.fill(ps...)
	t.raw = t.doc.Bytes(1)
	return t
}

func (t *tmpl) fill(ps ...tpage) {
	d := t.doc
	kids := ""
	for i := range ps {
		if i > 0 {
			kids += " "
		}
		kids += itoa(4+2*i) + " 0 R"
	}
	d.Obj(1, "<</Type/Catalog/Pages 2 0 R>>")
	d.Obj(2, "<</Type/Pages/Kids["+kids+"]/Count "+itoa(len(ps))+">>")
	d.Obj(3, "<</Type/Font/Subtype/Type1/BaseFont/Helvetica>>")
	for i, p := range ps {
		id := 4 + 2*i
		t.pages = append(t.pages, id)
		t.conts = append(t.conts, id+1)
		if p.h == 0 {
			p.h = 800
		}
		res := p.res
		if res == "" {
			res = defRes
		}
		d.Obj(id, "<</Type/Page/Parent 2 0 R/MediaBox[0 0 600 "+itoa(p.h)+"]"+p.extra+"/Resources"+res+"/Contents "+itoa(id+1)+" 0 R>>")
		if p.zip {
			d.Stream(id+1, "/Filter/FlateDecode", pdfx.Deflate(p.content))
		} else {
			d.Stream(id+1, "", p.content)
		}
	}
}

// symContent is page content whose bytes are arbitrary letters.
func symContent(name string, n int) []byte {
	b := sym.Bytes(name, n)
	for _, c := range b {
		sym.Assume(sym.And(c >= 'B', c <= 'Q'))
	}
	return b
}

func open(raw []byte) *pdft.PDFt {
	var p pdft.PDFt
	err := p.OpenFrom(bytes.NewReader(raw))
	sym.Assert(err == nil, "a conventional template opens")
	if err != nil {
		return nil
	}
	return &p
}

func save(p *pdft.PDFt) []byte {
	var b bytes.Buffer
	err := p.SaveTo(&b)
	sym.Assert(err == nil, "saving succeeds")
	return b.Bytes()
}

// saved parses the output strictly.
func saved(p *pdft.PDFt) *pdfx.File {
	return parsed(save(p))
}

func parsed(b []byte) *pdfx.File {
	f := pdfx.Parse(b)
	f.Pages()
	sym.Assert(f.Problem() == "", "saved file is well-formed: "+f.Problem())
	return f
}

// stdFont covers A..P (glyphs 1..16) and a space (glyph 17); the advances are
// all different, the last metric serves the last two glyphs.
func stdFont() *pdfx.TTF {
	t := &pdfx.TTF{UPM: 2048, Asc: 1900, Desc: -480, TypoAsc: 1500, TypoDesc: -450, WinAsc: 1950, WinDesc: 500,
		XMin: -100, YMin: -400, XMax: 2000, YMax: 1800, UPos: -150, UThick: 90, OS2Ver: 2, XHeight: 1000, CapH: 1400}
	for i := 0; i < 18; i++ {
		t.Glyphs = append(t.Glyphs, pdfx.SimpleGlyph(12+2*(i%3), byte(i+1)))
	}
	for i := 0; i < 17; i++ {
		t.Adv = append(t.Adv, 900+37*i)
	}
	t.Segs = []pdfx.Seg{{Start: 32, End: 32, Delta: 17 - 32}, {Start: 'A', End: 'P', Delta: 1 - 'A'}}
	return t
}

func addFont(p *pdft.PDFt, name string, t *pdfx.TTF) {
	err := p.AddFontFrom(name, bytes.NewReader(t.Bytes()))
	sym.Assert(err == nil, "a valid font is accepted")
}

func near(a, b, eps float64) bool {
	d := a - b
	return sym.And(d <= eps, d >= -eps)
}

// marksOf interprets the content of a page.
func marksOf(f *pdfx.File, page int) []pdfx.Mark {
	c, ok := f.Content(page)
	sym.Assert(ok, "page content can be read")
	sym.Observe("content", string(c))
	ms, bad := pdfx.Marks(c)
	sym.Assert(bad == "", "page content is well-formed: "+bad)
	return ms
}

func textWidth(t *pdfx.TTF, s string, size int) float64 {
	n := 0
	for _, r := range s {
		n += t.AdvOf(t.GlyphOf(int(r)))
	}
	return float64(n) * float64(size) / 1000
}

func pick(marks []pdfx.Mark, k byte) []pdfx.Mark {
	var out []pdfx.Mark
	for _, m := range marks {
		if m.K == k {
			out = append(out, m)
		}
	}
	return out
}
