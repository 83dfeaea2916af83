package props

import (
	"github.com/signintech/pdft"
	"symh/pdfx"
	"symh/sym"
)

// shownAfterEdits opens a template and gives what a fixed series of edits makes
// of it.
func shownAfterEdits(raw []byte, pages int) *pdfx.File {
	p := open(raw)
	if p == nil {
		return nil
	}
	sym.Assert(p.GetNumberOfPage() == pages, "the pages are found whatever the layout")
	addFont(p, "a", stdFont())
	p.SetFont("a", "", 10)
	sym.Assert(p.Insert("AB", 1, 10, 20, 100, 20, pdft.Left, nil) == nil, "insert succeeds")
	sym.Assert(p.DuplicatePageAfter(1, -1) == nil, "copying a page succeeds")
	sym.Assert(p.InsertImg(tinyPNG(), 2, 10, 20, 40, 30) == nil, "insert succeeds")
	sym.Assert(p.Insert("C", pages+1, 10, 20, 100, 20, pdft.Left, nil) == nil, "insert succeeds")
	return saved(p)
}

// c19 is the document the C19 harnesses write in different ways: two pages of
// different heights that show things with a font and an image of their own. The
// pixel of the image is arbitrary.
type c19 struct {
	cont1, cont2 string
	pix          []byte
}

func newC19() *c19 {
	pix := sym.Bytes("pix", 1)
	sym.Assume(pix[0] >= 0x80)
	return &c19{
		cont1: "BT 10 20 TD /F7 9 Tf [<0041>] TJ ET q 30 0 0 40 5 6 cm /I3 Do Q",
		cont2: "BT 10 20 TD /F7 8 Tf [<0042>] TJ ET",
		pix:   pix,
	}
}

// plain is the conventional layout.
func (c *c19) plain() []byte {
	d := pdfx.NewDoc()
	c.objs(d, []int{1, 2, 3, 4, 5, 6, 7, 8})
	return d.Bytes(1)
}

// ws is n arbitrary white-space characters.
func ws(name string, n int) string {
	b := sym.Bytes(name, n)
	for _, c := range b {
		ok := sym.Or(c == ' ', sym.Or(c == '\n', c == '\r'))
		sym.Assume(sym.Or(ok, sym.Or(c == '\t', c == '\f')))
	}
	return string(b)
}

// C19_Space: arbitrary white space, or comments, between the tokens of one of
// the objects.
func C19_Space() {
	doc := newC19()
	where := sym.Choice("where", 8)
	a, b := ws("a", 1), ws("b", 2)
	if sym.Bool("comment") {
		b = "%" + string(sym.Bytes("t", 1)) + ">>/x\n"
		sym.Assume(sym.And(b[1] != '\n', b[1] != '\r'))
	}
	// o writes an object: ' ' stands for a separator that must be there, '~' for
	// one that may
	o := func(k int, src string) string {
		out := ""
		n := 0
		for _, c := range src {
			switch {
			case c != ' ' && c != '~':
				out += string(c)
			case k != where && c == ' ':
				out += " "
			case k == where:
				n++
				if n%3 == 0 {
					out += b
				} else {
					out += a
				}
			}
		}
		return out
	}
	d := pdfx.NewDoc()
	d.Obj(1, o(0, "~<<~/Type~/Catalog~/Pages 2 0 R~>>~"))
	d.Obj(2, o(1, "~<<~/Type~/Pages~/Kids~[~4 0 R 6 0 R~]~/Count 2~>>~"))
	d.Obj(3, o(2, "~<<~/Type~/Font~/Subtype~/Type1~/BaseFont~/Helvetica~>>~"))
	d.Obj(4, o(3, "~<<~/Type~/Page~/Parent 2 0 R~/MediaBox~[~0 0 600 700~]~/Resources~<<~/Font~<<~/F7 3 0 R~>>~/XObject~<<~/I3 8 0 R~>>~>>~/Contents 5 0 R~>>~"))
	d.Obj(5, o(4, "~<<~/Length "+itoa(len(doc.cont1))+"~>>~")+"stream\n"+doc.cont1+"\nendstream")
	d.Obj(6, o(5, "<</Type/Page/Parent 2 0 R~/MediaBox 9 0 R~/Resources 10 0 R~/Contents~[~7 0 R~]~>>"))
	c := pdfx.Deflate([]byte(doc.cont2))
	d.ObjB(7, append(append([]byte(o(6, "~<<~/Filter~/FlateDecode~/Length 11 0 R~>>~")+"stream\r\n"), c...), "\r\nendstream"...))
	d.Obj(8, "<</Type/XObject/Subtype/Image/Width 1/Height 1/ColorSpace/DeviceGray/BitsPerComponent 8/Length 1>>stream\n"+string(doc.pix)+"\nendstream")
	d.Obj(9, o(7, "~[~0 0 600 500~]~"))
	d.Obj(10, o(7, "~<<~/Font 12 0 R~>>~"))
	d.Obj(11, o(7, "~"+itoa(len(c))+"~"))
	d.Obj(12, o(7, "~<<~/F7 3 0 R~>>~"))
	f := shownAfterEdits(d.Bytes(1), 2)
	if f != nil {
		sameShown(f, shownAfterEdits(doc.plain(), 2))
	}
}

// objs adds the objects to d, with numbers from a map.
func (c *c19) objs(d *pdfx.Doc, num []int) {
	r := func(k int) string { return itoa(num[k]) + " 0 R" }
	d.Obj(num[0], "<</Type/Catalog/Pages "+r(1)+">>")
	d.Obj(num[1], "<</Type/Pages/Kids["+r(3)+" "+r(5)+"]/Count 2>>")
	d.Obj(num[2], "<</Type/Font/Subtype/Type1/BaseFont/Helvetica>>")
	d.Obj(num[3], "<</Type/Page/Parent "+r(1)+"/MediaBox[0 0 600 700]/Resources<</Font<</F7 "+r(2)+">>/XObject<</I3 "+r(7)+">>>>/Contents "+r(4)+">>")
	d.Stream(num[4], "", []byte(c.cont1))
	d.Obj(num[5], "<</Type/Page/Parent "+r(1)+"/MediaBox[0 0 600 500]/Resources<</Font<</F7 "+r(2)+">>>>/Contents "+r(6)+">>")
	d.Stream(num[6], "", []byte(c.cont2))
	d.Stream(num[7], "/Type/XObject/Subtype/Image/Width 1/Height 1/ColorSpace/DeviceGray/BitsPerComponent 8", c.pix)
}

// C19_File: ends of line, headers, comments and garbage, order and numbers of
// the objects, sections and subsections of the cross-reference table; two of
// these at a time (thorough: three).
func C19_File() {
	doc := newC19()
	d1 := sym.Choice("vary1", 9)
	d2 := d1 + sym.Choice("vary2", 9-d1)
	d3 := d2
	if sym.Tier() > 0 {
		d3 = d2 + sym.Choice("vary3", 9-d2)
	}
	dim := -1
	vary := func(name string, n int) int {
		dim++
		if dim != d1 && dim != d2 && dim != d3 {
			return 0
		}
		return sym.Choice(name, n)
	}
	var l pdfx.Layout
	l.EOL = []string{"\n", "\r\n", "\r"}[vary("eol", 3)]
	l.Header = []string{"%PDF-1.3\n", "%PDF-1.7\r%\xe2\xe3\xcf\xd3\r", "%PDF-1.4\r\n%xref obj endobj\r\n\r\n"}[vary("header", 3)]
	l.XEOL = []string{" \n", "\r\n", " \r"}[vary("xeol", 3)]
	l.Pre = []string{"", l.EOL, "%c 4 0 obj" + l.EOL}[vary("pre", 3)]
	l.Head = []string{l.EOL, " ", ""}[vary("head", 3)]
	l.Gap = []string{" ", "\t", "\r\n", "  ", "\f\n"}[vary("gap", 5)]
	l.Tail = []string{"", "\x00\x00", l.EOL + "garbage"}[vary("tail", 3)]
	num := [][]int{{1, 2, 3, 4, 5, 6, 7, 8}, {8, 7, 6, 5, 4, 3, 2, 1}, {12, 3, 90, 4, 5, 17, 7, 9}}[vary("numbers", 3)]
	switch vary("order", 8) {
	case 1:
		l.Order = []int{7, 6, 5, 4, 3, 2, 1, 0}
	case 2:
		l.Order = []int{4, 1, 3, 0, 2, 7, 5, 6}
	case 3:
		l.First = 3
	case 4:
		l.First = 6
	case 5:
		l.Split = true
	case 6:
		l.Split, l.Order = true, []int{7, 6, 5, 4, 3, 2, 1, 0}
	case 7:
		l.Split, l.First = true, 5
	}
	d := pdfx.NewDoc()
	if l.EOL != "\r" {
		d.EOL = l.EOL
	}
	doc.objs(d, num)
	f := shownAfterEdits(d.Write(num[0], l), 2)
	if f != nil {
		sameShown(f, shownAfterEdits(doc.plain(), 2))
	}
}

// C19_Update: the document as the result of an incremental update (thorough:
// two), which gave some of its objects their values, added and freed others.
func C19_Update() {
	doc := newC19()
	num := []int{1, 2, 3, 4, 5, 6, 7, 8}
	l := pdfx.Layout{Header: "%PDF-1.4\n", EOL: "\n", XEOL: " \n", Head: "\n"}
	full := pdfx.NewDoc()
	doc.objs(full, num)
	// what the objects are before
	olds := []string{
		"<</Type/Catalog/Pages 9 0 R>>",
		"<</Type/Pages/Kids[6 0 R]/Count 1>>",
		"<</Type/Font/Subtype/Type1/BaseFont/Times-Roman>>",
		"<</Type/Page/Parent 2 0 R/MediaBox[0 0 600 300]/Annots[9 0 R]/Resources<<>>/Contents 7 0 R>>",
		"<</Length 3>>stream\nq Q\nendstream",
		"null",
		"<</Length 0>>stream\n\nendstream",
		"(a string)",
	}
	base := pdfx.NewDoc()
	var late [2][]int
	for k := 0; k < 8; k++ {
		switch w := sym.Choice("when"+itoa(k), 2+sym.Tier()); w {
		case 0:
			base.CopyObj(full, num[k])
		case 1:
			base.Obj(num[k], olds[k])
			late[0] = append(late[0], k)
		case 2:
			base.Obj(num[k], olds[k])
			late[1] = append(late[1], k)
		}
	}
	base.Obj(9, "<</Type/Pages/Kids[6 0 R]/Count 1>>")
	for i := range late {
		ks := late[i]
		if len(ks) == 0 {
			continue
		}
		l.Update = append(l.Update, func(d *pdfx.Doc) {
			for _, k := range ks {
				d.CopyObj(full, num[k])
			}
		})
	}
	if sym.Bool("free") {
		l.Drop = []int{9}
	}
	f := shownAfterEdits(base.Write(1, l), 2)
	if f != nil {
		sameShown(f, shownAfterEdits(doc.plain(), 2))
	}
}
