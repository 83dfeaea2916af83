package props

import (
	"github.com/signintech/pdft"
	"symh/pdfx"
	"symh/sym"
)

// edits are the kinds of change a template goes through in C02.
const edits = 6

// alter makes the k-th change to page n; the result is the output page number
// which shows page n, or 0 when the page is gone.
func alter(p *pdft.PDFt, k, n int) int {
	text := func() {
		addFont(p, "a", stdFont())
		p.SetFont("a", "", 10)
		sym.Assert(p.Insert("AB", n, 1, 2, 30, 40, pdft.Left, nil) == nil, "insert succeeds")
	}
	img := func() {
		sym.Assert(p.InsertImg(tinyPNG(), n, 1, 2, 30, 40) == nil, "insert succeeds")
	}
	switch k {
	case 1:
		text()
	case 2:
		img()
	case 3:
		text()
		img()
		sym.Assert(p.DuplicatePageAfter(n, 0) == nil, "copying a page succeeds")
		if n > 1 {
			return n + 1
		}
	case 4:
		sym.Assert(p.RemoveOtherPages(n) == nil, "removing pages succeeds")
		return 1
	case 5:
		sym.Assert(p.SetProtection(4, []byte("u"), []byte("o")) == nil, "protection is set")
		text()
	}
	return n
}

// entriesKept compares two dictionaries but for the entries named.
func entriesKept(a, b *pdfx.Val, but ...string) {
	skip := func(k string) bool {
		for _, s := range but {
			if sym.Fork(k == s) {
				return true
			}
		}
		return false
	}
	n := 0
	for _, e := range a.D {
		if skip(e.K) {
			continue
		}
		n++
		sym.Assert(b.Count(e.K) == 1, "an entry of the page is still there once")
		sym.Assert(pdfx.Equal(e.V, b.Get(e.K)), "an entry of the page keeps its value")
	}
	m := 0
	for _, e := range b.D {
		if !skip(e.K) {
			m++
		}
	}
	sym.Assert(n == m, "the page gets no other entries")
}

// pageKept checks page i of the output against page j of the template.
func pageKept(f *pdfx.File, i int, t *pdfx.File, j int) {
	fp, tp := f.Pages(), t.Pages()
	if i < 1 || i > len(fp) || j > len(tp) {
		sym.Assert(false, "the page is in the output")
		return
	}
	a, b := t.Obj(tp[j-1]).V, f.Obj(fp[i-1]).V
	entriesKept(a, b, "Parent", "Contents", "Resources")
	ra, rb := t.Deref(t.Inherited(tp[j-1], "Resources")), f.Deref(f.Inherited(fp[i-1], "Resources"))
	if ra != nil {
		entriesKept(ra, rb, "Font", "XObject")
	}
}

// symString is the source of a literal string of n arbitrary bytes.
func symString(name string, n int) string {
	return "(" + string(sym.Bytes(name, n)) + ")"
}

// valueOf is the source of the k-th kind of value.
func valueOf(k int) string {
	switch k {
	case 0:
		return symString("s", 2+sym.Tier())
	case 1:
		return "[<</Type/Annot/Subtype/Link/A<</S/URI/URI(h://x" + string(sym.Bytes("s", 2)) + "y)>>/Rect[1 2 3 4]>>]"
	case 2:
		b := sym.Bytes("h", 2)
		for _, c := range b {
			sym.Assume(sym.Or(sym.And(c >= '0', c <= '9'), sym.Or(sym.And(c >= 'a', c <= 'f'), c == ' ')))
		}
		return "<" + string(b) + "4>"
	case 3:
		return "[1 true null/N(a)[2(b)]<</K(c)/L[3]>> 5 0 R 4]"
	case 4:
		b := sym.Bytes("c", 2)
		for _, c := range b {
			sym.Assume(sym.And(c != '\n', c != '\r'))
		}
		return "7 %" + string(b) + "\n"
	case 5:
		return "<</D<</E(/Pages/Kids/Parent)>>/stream(stream)/Q(>>)>>"
	case 6:
		return "/" + symName("n", "N", 1) + " "
	case 7:
		return " -.5 "
	}
	return []string{"true ", "(endobj) ", "(4 0 obj endobj\nxref) ", "%endobj\n(stream\nendstream endobj)"}[sym.Choice("fixed", 4)]
}

// C02_Page: an entry of a page, or of its resources, of any kind, at any place.
func C02_Page() {
	k, op := sym.Choice("kind", 9), sym.Choice("edit", edits)
	v := "/Extra" + valueOf(k)
	res := "/Resources<</Font<</F1 3 0 R>>>>"
	at := sym.Choice("at", 4)
	pre, post := "", ""
	switch at {
	case 0:
		pre = v
	case 1:
		post = v
	case 2:
		res = "/Resources<<" + v + "/Font<</F1 3 0 R>>>>"
	case 3:
		res = "/Resources<<" + v + ">>"
	}
	d := pdfx.NewDoc()
	d.Obj(1, "<</Type/Catalog/Pages 2 0 R>>")
	d.Obj(2, "<</Type/Pages/Kids[4 0 R 6 0 R]/Count 2>>")
	d.Obj(3, "<</Type/Font/Subtype/Type1/BaseFont/Helvetica>>")
	d.Obj(4, "<<"+pre+"/Type/Page/Parent 2 0 R/MediaBox[0 0 600 800]"+res+"/Contents 5 0 R"+post+">>")
	d.Stream(5, "", []byte("q Q"))
	d.Obj(6, "<</Type/Page/Parent 2 0 R/MediaBox[0 0 600 800]/Contents 7 0 R>>")
	d.Stream(7, "", []byte("q Q"))
	raw := d.Bytes(1)
	t := pdfx.Parse(raw)
	if t.Problem() != "" { //unbalanced parentheses
		return
	}
	p := open(raw)
	if p == nil {
		return
	}
	n := alter(p, op, 1)
	f := unlocked(p, op == 5)
	if f == nil {
		return
	}
	pageKept(f, n, t, 1)
}

// unlocked saves and, when the document is protected, unlocks it.
func unlocked(p *pdft.PDFt, locked bool) *pdfx.File {
	f := saved(p)
	if locked {
		why := f.Unlock(pdfx.PadPass([]byte("u")))
		sym.Assert(why == "", "the user password opens the document: "+why)
		if why != "" {
			return nil
		}
	}
	return f
}

// C02_Loose: objects the edits do not concern, reached from the catalog: any
// value, or a stream with any data.
func C02_Loose() {
	op := sym.Choice("edit", edits)
	d := pdfx.NewDoc()
	d.Obj(1, "<</Type/Catalog/X 8 0 R/Pages 2 0 R>>")
	d.Obj(2, "<</Type/Pages/Kids[4 0 R 6 0 R]/Count 2>>")
	d.Obj(3, "<</Type/Font/Subtype/Type1/BaseFont/Helvetica>>")
	for _, id := range []int{4, 6} {
		d.Obj(id, "<</Type/Page/Parent 2 0 R/MediaBox[0 0 600 800]/Resources<</Font<</F1 3 0 R>>>>/Contents "+itoa(id+1)+" 0 R>>")
		d.Stream(id+1, "", []byte("q Q"))
	}
	k := sym.Choice("kind", 9+12)
	if k < 9 {
		d.Obj(8, valueOf(k))
	} else {
		b := sym.Bytes("b", 2)
		words := []string{"", "\nendobj\n", "endstream ", "stream\r\n", "\nxref\n0 9\n", "trailer<</Root 9 0 R>>", "\nstartxref\n7\n%%EOF\n", "4 0 obj", "<</Type/Page>>", "%(", "\nxref\n0 2\n0000000011 00000 n \n0000000007 00000 n \ntrailer<</Root 8 0 R/Size 2>>\nstartxref\n20\n%%EOF\n", "xref 4 0 obj"}
		data := append([]byte{b[0]}, words[k-9]...)
		data = append(data, b[1])
		d.Stream(8, []string{"", "/Subtype/application#2Foctet-stream", "/N(a stream)"}[sym.Choice("dict", 3)], data)
	}
	raw := d.Bytes(1)
	t := pdfx.Parse(raw)
	if t.Problem() != "" {
		return
	}
	p := open(raw)
	if p == nil {
		return
	}
	alter(p, op, 1)
	f := unlocked(p, op == 5)
	if f == nil {
		return
	}
	a, b := t.Obj(8), f.Obj(8)
	sym.Assert(b != nil, "an object of the template is still there")
	if b == nil {
		return
	}
	sym.Assert(pdfx.Equal(a.V, b.V), "an object of the template keeps its value")
	sym.Assert(a.HasStream == b.HasStream && string(a.Stream) == string(b.Stream), "a stream of the template keeps its data")
	entriesKept(t.Obj(t.Root).V, f.Obj(f.Root).V)
}
