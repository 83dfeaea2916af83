package props

import (
	"github.com/signintech/pdft"
	"symh/pdfx"
	"symh/sym"
)

// symName is a resource name: a prefix and n arbitrary characters out of
// letters, digits, '_', '-' and '.'.
func symName(name, prefix string, n int) string {
	b := sym.Bytes(name, n)
	for _, c := range b {
		ok := sym.Or(sym.And(c >= '0', c <= '9'), sym.And(c >= 'A', c <= 'Z'))
		ok = sym.Or(ok, sym.Or(sym.And(c >= 'a', c <= 'z'), sym.And(c >= '_', c <= '_')))
		sym.Assume(sym.Or(ok, sym.And(c >= '-', c <= '.')))
	}
	return prefix + string(b)
}

// entryIs asserts that a resource dictionary holds a name exactly once, for the
// given object.
func entryIs(f *pdfx.File, page int, kind, name string, id int) {
	d := f.Get(f.Inherited(page, "Resources"), kind)
	if d == nil || d.K != 'd' {
		sym.Assert(false, "existing resource names keep their meaning")
		return
	}
	n, ok := 0, false
	for _, e := range d.D {
		same := sym.Fork(e.K == name)
		if same {
			n++
			ok = e.V.K == 'r' && e.V.I == id
		}
	}
	sym.Assert(n == 1 && ok, "existing resource names keep their meaning")
}

// resolves gives the object a drawn item uses, which must be named once on the
// page.
func resolves(f *pdfx.File, page int, kind, name string) *pdfx.Obj {
	d := f.Get(f.Inherited(page, "Resources"), kind)
	if d == nil || d.K != 'd' {
		sym.Assert(false, "what is drawn is a resource of its page")
		return nil
	}
	var hit *pdfx.Val
	n := 0
	for _, e := range d.D {
		if sym.Fork(e.K == name) {
			n++
			hit = e.V
		}
	}
	sym.Assert(n == 1, "what is drawn is a resource of its page")
	if hit == nil || hit.K != 'r' {
		return nil
	}
	return f.Obj(hit.I)
}

// drawn checks the added items on a page: the texts use the fonts called by
// these names, the images have these widths.
func drawn(f *pdfx.File, page int, fonts []string, widths []int) {
	ms := marksOf(f, page)
	ts, is := pick(ms, 'T'), pick(ms, 'I')
	sym.Assert(len(ts) == len(fonts) && len(is) == len(widths), "exactly the items asked for are on the page")
	if len(ts) != len(fonts) || len(is) != len(widths) {
		return
	}
	for i, t := range ts {
		o := resolves(f, page, "Font", t.Name)
		sym.Assert(o != nil && o.V.Get("Subtype").IsName("Type0") && o.V.Get("BaseFont").IsName(fonts[i]), "the text is drawn with its font")
	}
	for i, m := range is {
		o := resolves(f, page, "XObject", m.Name)
		sym.Assert(o != nil && o.V.Get("Subtype").IsName("Image") && o.V.Get("Width").Int() == widths[i], "the image drawn is the one asked for")
	}
}

func widePNG(w int) []byte {
	raw := []byte{0}
	for i := 0; i < w; i++ {
		raw = append(raw, 1, 2, 3)
	}
	p := pdfx.PNG{W: w, H: 1, Depth: 8, Color: 2, Raw: raw}
	return p.Bytes()
}

// twoPageRes makes a template of two pages with these resource dictionaries;
// objects 3 and 20..29 are fonts and images to refer to.
func twoPageRes(res1, res2 string, more func(d *pdfx.Doc)) []byte {
	t := &tmpl{doc: pdfx.NewDoc()}
	t.fill(tpage{content: []byte("q Q"), res: res1}, tpage{content: []byte("q Q"), res: res2})
	for i := 20; i < 23; i++ {
		t.doc.Obj(i, "<</Type/Font/Subtype/Type1/BaseFont/Courier>>")
	}
	for i := 23; i < 26; i++ {
		t.doc.Stream(i, "/Type/XObject/Subtype/Image/Width 1/Height 1/ColorSpace/DeviceGray/BitsPerComponent 8", []byte("z"))
	}
	if more != nil {
		more(t.doc)
	}
	return t.doc.Bytes(1)
}

// C12_FontNames: a page with two fonts named F and 1..2 arbitrary characters,
// and another with a third one; one font added and used on both pages. All
// names keep their meaning and the new one is not among them.
func C12_FontNames() {
	n := 1 + sym.Choice("len", 2)
	pre := []string{"F", "T"}[sym.Choice("pre", 2)]
	a := symName("a", pre, n)
	b := symName("b", "F", 1)
	sym.Assume(a != b)
	c := "F" + []string{"1", "7", "7x"}[sym.Choice("c", 3)]
	raw := twoPageRes("<</Font<</"+a+" 20 0 R/"+b+" 21 0 R>>>>", "<</Font<</"+c+" 22 0 R>>>>", nil)
	p := open(raw)
	addFont(p, "aa", stdFont())
	p.SetFont("aa", "", 10)
	for pg := 1; pg <= 2; pg++ {
		sym.Assert(p.Insert("A", pg, 10, 20, 100, 20, pdft.Left, nil) == nil, "insert succeeds")
	}
	f := saved(p)
	ps := f.Pages()
	entryIs(f, ps[0], "Font", a, 20)
	entryIs(f, ps[0], "Font", b, 21)
	entryIs(f, ps[1], "Font", c, 22)
	drawn(f, ps[0], []string{"aa"}, nil)
	drawn(f, ps[1], []string{"aa"}, nil)
}

// C12_ImageNames: the same for images: two named I (or Im) and 1..2 arbitrary
// characters on page 1, one on page 2; two images added, drawn on both pages.
func C12_ImageNames() {
	n := 1 + sym.Choice("len", 2)
	pre := []string{"I", "Im"}[sym.Choice("pre", 2)]
	a := symName("a", pre, n)
	b := symName("b", "I", 1)
	sym.Assume(a != b)
	c := []string{"I1", "Fm7", "X"}[sym.Choice("c", 3)]
	raw := twoPageRes("<</Font<</F1 3 0 R>>/XObject<</"+a+" 23 0 R/"+b+" 24 0 R>>>>", "<</Font<</F1 3 0 R>>/XObject<</"+c+" 25 0 R>>>>", nil)
	p := open(raw)
	for pg := 1; pg <= 2; pg++ {
		sym.Assert(p.InsertImg(widePNG(pg+1), pg, 10, 20, 100, 20) == nil, "insert succeeds")
	}
	f := saved(p)
	ps := f.Pages()
	entryIs(f, ps[0], "XObject", a, 23)
	entryIs(f, ps[0], "XObject", b, 24)
	entryIs(f, ps[1], "XObject", c, 25)
	drawn(f, ps[0], nil, []int{2})
	drawn(f, ps[1], nil, []int{3})
}

// C12_Shapes: each of two pages has its resources inline, in an object of their
// own (possibly shared), or not at all; the font and image dictionaries in them
// inline, in an object of their own, empty or missing. Two fonts and two images
// added, all used on both pages; fonts are enumerated in any order.
func C12_Shapes() {
	sym.MapOrders(2)
	mk := func(k string, base int, d *pdfx.Doc) string {
		res := "<<"
		switch sym.Choice("font"+k, 4) {
		case 0:
			res += "/Font<</F1 20 0 R>>"
		case 1:
			res += "/Font " + itoa(base) + " 0 R"
			d.Obj(base, "<</F1 20 0 R>>")
		case 2:
			res += "/Font<<>>"
		}
		res += "/ProcSet[/PDF/Text]"
		switch sym.Choice("img"+k, 4) {
		case 0:
			res += "/XObject<</I1 23 0 R>>"
		case 1:
			res += "/XObject " + itoa(base+1) + " 0 R"
			d.Obj(base+1, "<</I1 23 0 R>>")
		case 2:
			res += "/XObject<<>>"
		}
		res += ">>"
		if sym.Bool("ref" + k) {
			d.Obj(base+2, res)
			return " " + itoa(base+2) + " 0 R"
		}
		return res
	}
	t := &tmpl{doc: pdfx.NewDoc()}
	r1 := mk("1", 30, t.doc)
	r2 := r1
	if sym.Tier() > 0 {
		r2 = mk("2", 40, t.doc)
	} else {
		switch sym.Choice("second", 3) {
		case 0:
			r2 = "<</Font<</F2 21 0 R>>/XObject<</I2 24 0 R>>>>"
		case 1:
			t.doc.Obj(40, "<</Font<</F2 21 0 R>>/XObject 41 0 R>>")
			t.doc.Obj(41, "<</I2 24 0 R>>")
			r2 = " 40 0 R"
		}
	}
	t.fill(tpage{content: []byte("q Q"), res: r1}, tpage{content: []byte("q Q"), res: r2})
	for i := 20; i < 23; i++ {
		t.doc.Obj(i, "<</Type/Font/Subtype/Type1/BaseFont/Courier>>")
	}
	for i := 23; i < 26; i++ {
		t.doc.Stream(i, "/Type/XObject/Subtype/Image/Width 1/Height 1/ColorSpace/DeviceGray/BitsPerComponent 8", []byte("z"))
	}
	raw := t.doc.Bytes(1)
	before := pdfx.Parse(raw)
	p := open(raw)
	addFont(p, "aa", stdFont())
	addFont(p, "bb", stdFont())
	for pg := 1; pg <= 2; pg++ {
		p.SetFont("aa", "", 10)
		sym.Assert(p.Insert("A", pg, 10, 20, 100, 20, pdft.Left, nil) == nil, "insert succeeds")
		p.SetFont("bb", "", 10)
		sym.Assert(p.Insert("B", pg, 10, 20, 100, 20, pdft.Left, nil) == nil, "insert succeeds")
		for w := 2; w <= 3; w++ {
			sym.Assert(p.InsertImgWithCache(widePNG(w), pg, 10, 20, 100, 20) == nil, "insert succeeds")
		}
	}
	f := saved(p)
	for _, pg := range f.Pages() {
		drawn(f, pg, []string{"aa", "bb"}, []int{2, 3})
		keptResources(before, f, pg)
	}
	sym.Assert(f.Dangling() == 0, "every reference leads to an object")
}

// keptResources checks that every resource a page had is still there.
func keptResources(before, f *pdfx.File, pg int) {
	old := before.Inherited(pg, "Resources")
	if old == nil {
		return
	}
	now := f.Inherited(pg, "Resources")
	for _, e := range old.D {
		ov, nv := before.Deref(e.V), f.Get(now, e.K)
		if ov.K != 'd' {
			sym.Assert(pdfx.Equal(ov, nv), "existing resource names keep their meaning")
			continue
		}
		for _, x := range ov.D {
			sym.Assert(nv != nil && nv.Count(x.K) == 1 && pdfx.Equal(nv.Get(x.K), x.V), "existing resource names keep their meaning")
		}
	}
}

// C12_Bare: pages without a resource dictionary, or with one they inherit from
// the page tree; fonts and images added or not.
func C12_Bare() {
	d := pdfx.NewDoc()
	up := ""
	inh := sym.Bool("inherited")
	if inh {
		up = "/Resources<</Font<</F1 20 0 R>>/XObject<</I1 23 0 R>>>>"
	}
	d.Obj(1, "<</Type/Catalog/Pages 2 0 R>>")
	d.Obj(2, "<</Type/Pages/Kids[4 0 R 6 0 R]/Count 2"+up+">>")
	for i := 4; i <= 6; i += 2 {
		r := ""
		if sym.Bool("own" + itoa(i)) {
			r = "/Resources<</Font<</F1 20 0 R>>/XObject<</I1 23 0 R>>>>"
		}
		d.Obj(i, "<</Type/Page/Parent 2 0 R/MediaBox[0 0 600 800]"+r+"/Contents "+itoa(i+1)+" 0 R>>")
		d.Stream(i+1, "", []byte("q Q"))
	}
	d.Obj(20, "<</Type/Font/Subtype/Type1/BaseFont/Courier>>")
	d.Stream(23, "/Type/XObject/Subtype/Image/Width 1/Height 1/ColorSpace/DeviceGray/BitsPerComponent 8", []byte("z"))
	raw := d.Bytes(1)
	before := pdfx.Parse(raw)
	p := open(raw)
	var fonts []string
	var widths []int
	pg := 1 + sym.Choice("page", 2)
	if sym.Bool("text") {
		addFont(p, "aa", stdFont())
		p.SetFont("aa", "", 10)
		sym.Assert(p.Insert("A", pg, 10, 20, 100, 20, pdft.Left, nil) == nil, "insert succeeds")
		fonts = []string{"aa"}
	}
	if sym.Bool("image") {
		sym.Assert(p.InsertImg(widePNG(2), pg, 10, 20, 100, 20) == nil, "insert succeeds")
		widths = []int{2}
	}
	f := saved(p)
	for i, id := range f.Pages() {
		keptResources(before, f, id)
		if i+1 == pg {
			drawn(f, id, fonts, widths)
		}
	}
}
