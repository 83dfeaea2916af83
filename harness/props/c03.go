package props

import (
	"encoding/hex"

	"github.com/signintech/pdft"
	"symh/pdfx"
	"symh/sym"
)

// restOf checks that a page still starts with its original content and gives
// what follows it.
func restOf(f *pdfx.File, page int, orig []byte) []byte {
	c, ok := f.Content(page)
	sym.Assert(ok, "page content can be read")
	if len(c) < len(orig) {
		sym.Assert(false, "page keeps its original content")
		return nil
	}
	same := true
	for i := range orig {
		same = sym.And(same, c[i] == orig[i])
	}
	sym.Assert(same, "page keeps its original content")
	rest := c[len(orig):]
	if len(rest) > 0 && len(orig) > 0 {
		sym.Assert(rest[0] == '\n' || rest[0] == ' ' || rest[0] == '\r', "added content is separated from the original")
	}
	return rest
}

func tinyPNG() []byte {
	p := pdfx.PNG{W: 1, H: 1, Depth: 8, Color: 2, Raw: []byte{0, 1, 2, 3}}
	return p.Bytes()
}

// C03_Order: 3 pages with arbitrary 4-letter contents, compressed or not; 3
// insertions (text, wrapped text or image) each on page 0..4. Every page is its
// original content followed by exactly the items asked for on it, in call order.
func C03_Order() {
	var ps []tpage
	zip := sym.Bool("zip")
	for i := 0; i < 3; i++ {
		ps = append(ps, tpage{content: symContent("c"+itoa(i), 4), zip: zip != (i == 1)})
	}
	t := mkTmpl(ps...)
	p := open(t.raw)
	addFont(p, "a", stdFont())
	p.SetFont("a", "", 10)
	n := 3
	want := make([][]int, 5)
	for k := 0; k < n; k++ {
		pg := sym.Choice("page"+itoa(k), 5)
		kind := sym.Choice("kind"+itoa(k), 2)
		var err error
		if kind == 0 {
			err = p.Insert(string(rune('A'+k)), pg, 10, 20, 100, 20, pdft.Left, nil)
		} else {
			err = p.InsertImg(tinyPNG(), pg, 10, 20, float64(40+k), 30)
		}
		if pg >= 1 && pg <= 3 {
			sym.Assert(err == nil, "insert succeeds")
		}
		want[pg] = append(want[pg], k*2+kind)
	}
	f := saved(p)
	pages := f.Pages()
	sym.Assert(len(pages) == 3, "page count kept")
	fn := stdFont()
	for i, pg := range pages {
		rest := restOf(f, pg, ps[i].content)
		ms, bad := pdfx.Marks(rest)
		sym.Assert(bad == "", "added content is well-formed: "+bad)
		w := want[i+1]
		sym.Assert(len(ms) == len(w), "exactly the items asked for are on the page")
		for j := 0; j < len(ms) && j < len(w); j++ {
			k := w[j] / 2
			if w[j]%2 == 0 {
				sym.Assert(ms[j].K == 'T' && len(ms[j].Items) == 1 && ms[j].Items[0].Code == fn.GlyphOf('A'+k), "items are in call order")
			} else {
				sym.Assert(ms[j].K == 'I' && near(ms[j].M[0], float64(40+k), cent), "items are in call order")
			}
		}
	}
}

// C03_Bytes: original content of 3 arbitrary bytes (any value 0..255 except
// that the object-end and stream keywords are not spelled), stored plain or
// compressed, text on it or not: the page keeps these bytes exactly.
func C03_Bytes() {
	n := 3
	if sym.Tier() > 0 {
		n = 5
	}
	b := sym.Bytes("c", n)
	zip := sym.Bool("zip")
	t := mkTmpl(tpage{content: b, zip: zip}, tpage{content: b, zip: zip})
	p := open(t.raw)
	if sym.Bool("text") {
		addFont(p, "a", stdFont())
		p.SetFont("a", "", 10)
		err := p.Insert("A", 2, 10, 20, 100, 20, pdft.Left, nil)
		sym.Assert(err == nil, "insert succeeds")
	}
	f := saved(p)
	for _, pg := range f.Pages() {
		restOf(f, pg, b)
	}
}

// C03_Array: a page whose content is an array of 1..3 streams: all of them are
// kept in order and the inserted text comes after all of them.
func C03_Array() {
	n := 1 + sym.Choice("streams", 3)
	d := pdfx.NewDoc()
	d.Obj(1, "<</Type/Catalog/Pages 2 0 R>>")
	d.Obj(2, "<</Type/Pages/Kids[4 0 R]/Count 1>>")
	d.Obj(3, "<</Type/Font/Subtype/Type1/BaseFont/Helvetica>>")
	arr := ""
	var all []byte
	for i := 0; i < n; i++ {
		if i > 0 {
			arr += " "
			all = append(all, '\n')
		}
		arr += itoa(5+i) + " 0 R"
		c := symContent("c"+itoa(i), 3)
		d.Stream(5+i, "", c)
		all = append(all, c...)
	}
	d.Obj(4, "<</Type/Page/Parent 2 0 R/MediaBox[0 0 600 800]/Resources"+defRes+"/Contents["+arr+"]>>")
	p := open(d.Bytes(1))
	addFont(p, "a", stdFont())
	p.SetFont("a", "", 10)
	err := p.Insert("A", 1, 10, 20, 100, 20, pdft.Left, nil)
	sym.Assert(err == nil, "insert succeeds")
	f := saved(p)
	rest := restOf(f, f.Pages()[0], all)
	ms, bad := pdfx.Marks(rest)
	sym.Assert(bad == "", "added content is well-formed: "+bad)
	sym.Assert(len(ms) == 1 && ms[0].K == 'T', "the text follows all original content")
}

// C03_Forms: a page whose contents are missing, null, an empty array or an array
// in an object of its own, plain or encoded in any of the usual ways, with its
// length in place or elsewhere; possibly a copied page; texts and an image.
func C03_Forms() {
	var all []byte
	d := pdfx.NewDoc()
	d.Obj(1, "<</Type/Catalog/Pages 2 0 R>>")
	d.Obj(2, "<</Type/Pages/Kids[4 0 R]/Count 1>>")
	d.Obj(3, "<</Type/Font/Subtype/Type1/BaseFont/Helvetica>>")
	stream := func(id, enc int) {
		c := []byte("BCD")
		if enc != 4 && enc != 5 {
			c = symContent("c"+itoa(id), 3)
		}
		dict := []string{"", "/Filter/FlateDecode", "/Filter[/FlateDecode]", "/Filter[]", "/Filter/ASCIIHexDecode", "/Filter[/ASCIIHexDecode/FlateDecode]", "/Filter null", "/Filter 9 0 R", "/Filter/FlateDecode/DecodeParms<</Predictor 1>>", "/Filter [ /FlateDecode ] /DecodeParms [null]"}[enc]
		if len(all) > 0 {
			all = append(all, '\n')
		}
		all = append(all, c...)
		if enc == 1 || enc == 2 || enc == 5 || enc >= 7 {
			c = pdfx.Deflate(c)
		}
		if enc == 4 || enc == 5 {
			c = []byte(hex.EncodeToString(c) + ">")
		}
		if sym.Bool("len" + itoa(id)) {
			d.Obj(id+5, itoa(len(c)))
			d.ObjB(id, append([]byte("<<"+dict+"/Length "+itoa(id+5)+" 0 R>>stream\r\n"), append(c, "\nendstream"...)...))
		} else {
			d.Stream(id, dict, c)
		}
	}
	conts := ""
	form := sym.Choice("form", 8)
	e0 := 0
	if form >= 4 {
		e0 = sym.Choice("enc0", 10)
	}
	switch form {
	case 1:
		conts = "/Contents null"
	case 2:
		conts = "/Contents[]"
	case 3:
		conts = "/Contents 8 0 R"
		d.Obj(8, "[ ]")
	case 4:
		conts = "/Contents 5 0 R"
	case 5:
		conts = "/Contents [ 5 0 R\n]"
	case 6:
		conts = "/Contents 8 0 R"
		d.Obj(8, "[5 0 R]")
	case 7:
		conts = "/Contents 8 0 R"
		d.Obj(8, "[5 0 R\n 6 0 R ]")
	}
	if form >= 4 {
		stream(5, e0)
	}
	if form == 7 {
		stream(6, sym.Choice("enc1", 10))
	}
	d.Obj(9, "/FlateDecode")
	d.Obj(4, "<</Type/Page/Parent 2 0 R/MediaBox[0 0 600 800]/Resources"+defRes+conts+">>")
	raw := d.Bytes(1)
	run := func(copied int) {
		p := open(raw)
		addFont(p, "a", stdFont())
		p.SetFont("a", "", 10)
		sym.Assert(p.Insert("A", 1, 10, 20, 100, 20, pdft.Left, nil) == nil, "insert succeeds")
		pages := 1
		if copied >= 0 {
			if p.DuplicatePageAfter(1, 0) == nil {
				pages = 2
			} else {
				sym.Assert(form == 0 || form == 1, "a page with contents can be copied")
			}
			sym.Assert(p.Insert("C", 1+copied, 10, 20, 100, 20, pdft.Left, nil) == nil, "insert succeeds")
		}
		sym.Assert(p.InsertImg(tinyPNG(), 1, 10, 20, 40, 30) == nil, "insert succeeds")
		f := saved(p)
		pp := f.Pages()
		sym.Assert(len(pp) == pages, "page count kept")
		for i, pg := range pp {
			rest := restOf(f, pg, all)
			ms, bad := pdfx.Marks(rest)
			sym.Assert(bad == "", "added content is well-formed: "+bad)
			want := ""
			if i == 0 {
				want = "T"
			}
			if i == copied {
				want += "T"
			}
			if i == 0 {
				want += "I"
			}
			got := ""
			for _, m := range ms {
				got += string(rune(m.K))
			}
			sym.Assert(got == want, "exactly the items asked for are on the page")
		}
	}
	run(sym.Choice("copied", 3) - 1)
}

// C03_Shared: two pages that show the same content object; text on one of them.
func C03_Shared() {
	c := symContent("c", 3)
	d := pdfx.NewDoc()
	d.Obj(1, "<</Type/Catalog/Pages 2 0 R>>")
	d.Obj(2, "<</Type/Pages/Kids[4 0 R 5 0 R]/Count 2>>")
	d.Obj(3, "<</Type/Font/Subtype/Type1/BaseFont/Helvetica>>")
	for i := 4; i <= 5; i++ {
		d.Obj(i, "<</Type/Page/Parent 2 0 R/MediaBox[0 0 600 800]/Resources"+defRes+"/Contents 6 0 R>>")
	}
	d.Stream(6, "", c)
	p := open(d.Bytes(1))
	addFont(p, "a", stdFont())
	p.SetFont("a", "", 10)
	n := [2]int{}
	for k := 0; k < 2; k++ {
		pg := sym.Choice("page"+itoa(k), 2)
		err := p.Insert("A", pg+1, 10, 20, 100, 20, pdft.Left, nil)
		sym.Assert(err == nil, "insert succeeds")
		n[pg]++
	}
	f := saved(p)
	for i, pg := range f.Pages() {
		ms, bad := pdfx.Marks(restOf(f, pg, c))
		sym.Assert(bad == "", "added content is well-formed: "+bad)
		sym.Assert(len(ms) == n[i], "exactly the items asked for are on the page")
	}
}
