package props

import (
	"bytes"

	"github.com/signintech/pdft"
	"symh/pdfx"
	"symh/sym"
)

// wholeFile checks everything about a file that does not depend on what was
// asked for.
func wholeFile(raw []byte, locked bool) {
	f := pdfx.Parse(raw)
	pages := f.Pages()
	sym.Assert(f.Problem() == "", "saved file is well-formed: "+f.Problem())
	if f.Problem() != "" {
		return
	}
	sym.Assert(bytes.Count(raw, []byte(" 0 obj\n")) == f.Live(), "every object is in the file once")
	sym.Assert((f.Trailer.Get("Encrypt") != nil) == locked, "the file is protected if that was asked for")
	if locked {
		why := f.Unlock(pdfx.PadPass([]byte("u")))
		sym.Assert(why == "", "the user password opens the document: "+why)
		if why != "" {
			return
		}
	}
	id := f.Dangling()
	sym.Assert(id == 0, "no reference leads nowhere")
	for _, o := range f.Objs {
		if o == nil {
			continue
		}
		sym.Assert(uniqueKeys(o.V), "no dictionary has a key twice")
		if o.HasStream && (o.V.Get("Filter") == nil || o.V.Get("Filter").IsName("FlateDecode")) {
			_, ok := f.Decoded(o)
			sym.Assert(ok, "every stream can be decoded")
		}
		if o.V.Get("Type").IsName("XObject") {
			wholeImage(f, o)
		}
	}
	for _, p := range pages {
		c, ok := f.Content(p)
		sym.Assert(ok, "page content can be read")
		ms, bad := pdfx.Marks(c)
		sym.Assert(bad == "", "page content is well-formed: "+bad)
		for _, m := range ms {
			if m.K == 'T' {
				sym.Assert(f.Deref(f.Resource(p, "Font", m.Name)).Get("Type").IsName("Font"), "the font of a text is in the resources of the page")
			} else if m.K == 'I' {
				sym.Assert(f.Deref(f.Resource(p, "XObject", m.Name)).Get("Subtype").IsName("Image"), "an image is in the resources of the page")
			}
		}
		mb := f.Inherited(p, "MediaBox")
		sym.Assert(mb != nil && mb.K == 'a' && len(mb.A) == 4, "a page has a size")
	}
}

func uniqueKeys(v *pdfx.Val) bool {
	if v == nil {
		return true
	}
	for _, e := range v.D {
		if v.Count(e.K) != 1 || !uniqueKeys(e.V) {
			return false
		}
	}
	for _, x := range v.A {
		if !uniqueKeys(x) {
			return false
		}
	}
	return true
}

// wholeImage checks that an image has as much data as its size asks for.
func wholeImage(f *pdfx.File, o *pdfx.Obj) {
	v := o.V
	w, h, bpc := f.Get(v, "Width").Int(), f.Get(v, "Height").Int(), f.Get(v, "BitsPerComponent").Int()
	sym.Assert(w > 0 && h > 0 && bpc > 0, "an image has a size")
	cs := f.Get(v, "ColorSpace")
	n := 0
	switch {
	case cs.IsName("DeviceGray") || cs != nil && cs.K == 'a' && cs.A[0].IsName("Indexed"):
		n = 1
	case cs.IsName("DeviceRGB"):
		n = 3
	case cs.IsName("DeviceCMYK"):
		n = 4
	}
	sym.Assert(n > 0, "an image has a colour space")
	if d, ok := f.Decoded(o); ok {
		line := (w*n*bpc + 7) / 8
		if f.Get(v, "DecodeParms").Get("Predictor").Int() >= 10 {
			line++
		}
		sym.Assert(len(d) == line*h, "an image has the data its size asks for")
	}
	if m := v.Get("SMask"); m != nil {
		mo := f.RefObj(v, "SMask")
		sym.Assert(mo != nil && mo.HasStream && f.Get(mo.V, "ColorSpace").IsName("DeviceGray"), "a soft mask is a grey image")
	}
}

func wideAlpha() []byte {
	p := pdfx.PNG{W: 2, H: 2, Depth: 8, Color: 6, Raw: []byte{0, 1, 2, 3, 4, 5, 6, 7, 8, 2, 9, 8, 7, 6, 5, 4, 3, 2}}
	return p.Bytes()
}

func paletteJPEG(k int) []byte {
	if k == 0 {
		p := pdfx.PNG{W: 3, H: 2, Depth: 2, Color: 3, Pal: []byte{1, 2, 3, 4, 5, 6, 7, 8, 9}, Trns: []byte{0}, Raw: []byte{0, 0x18, 0, 0x24}}
		return p.Bytes()
	}
	return pdfx.JPEG(3, 2, 3, []byte("scan"))
}

// sessionDoc is a template in one of four shapes.
func sessionDoc(shape int) []byte {
	d := pdfx.NewDoc()
	d.Stream(5, "", []byte("q 1 0 0 1 2 3 cm Q"))
	d.Stream(7, "/Filter/FlateDecode", pdfx.Deflate([]byte("BT /F7 9 Tf (xy) Tj ET")))
	d.Obj(3, "<</Type/Font/Subtype/Type1/BaseFont/Helvetica>>")
	switch shape {
	case 0: // conventional
		d.Obj(1, "<</Type/Catalog/Pages 2 0 R>>")
		d.Obj(2, "<</Type/Pages/Kids[4 0 R 6 0 R]/Count 2>>")
		d.Obj(4, "<</Type/Page/Parent 2 0 R/MediaBox[0 0 600 700]/Resources<</Font<</F7 3 0 R>>>>/Contents 5 0 R>>")
		d.Obj(6, "<</Type/Page/Parent 2 0 R/MediaBox[0 0 600 800]/Resources<</Font<</F7 3 0 R>>>>/Contents 7 0 R>>")
	case 1: // gaps between the numbers, everything in objects of its own
		d.Obj(31, "<</Type/Catalog/Pages 22 0 R>>")
		d.Obj(22, "<</Type/Pages/Kids[4 0 R 6 0 R]/Count 2>>")
		d.Obj(4, "<</Type/Page/Parent 22 0 R/MediaBox 15 0 R/Resources 16 0 R/Contents 17 0 R>>")
		d.Obj(6, "<</Type/Page/Parent 22 0 R/MediaBox 15 0 R/Resources 16 0 R/Contents 7 0 R>>")
		d.Obj(15, "[0 0 600 800]")
		d.Obj(16, "<</Font 18 0 R/XObject 19 0 R>>")
		d.Obj(17, "[5 0 R]")
		d.Obj(18, "<</F7 3 0 R>>")
		d.Obj(19, "<<>>")
		return d.Bytes(31)
	case 2: // a tree with inherited entries
		d.Obj(1, "<</Type/Catalog/Pages 2 0 R>>")
		d.Obj(2, "<</Type/Pages/Kids[9 0 R 6 0 R]/Count 2/MediaBox[0 0 500 500]/Resources<</Font<</F7 3 0 R>>>>>>")
		d.Obj(9, "<</Type/Pages/Parent 2 0 R/Kids[4 0 R]/Count 1>>")
		d.Obj(4, "<</Type/Page/Parent 9 0 R/Contents 5 0 R>>")
		d.Obj(6, "<</Type/Page/Parent 2 0 R/Contents[7 0 R 5 0 R]>>")
	case 3: // no contents, no resources; notes on the page
		d.Obj(1, "<</Type/Catalog/Pages 2 0 R>>")
		d.Obj(2, "<</Type/Pages/Kids[4 0 R 6 0 R]/Count 2/MediaBox[0 0 500 500]>>")
		d.Obj(4, "<</Type/Page/Parent 2 0 R/Annots[8 0 R]>>")
		d.Obj(6, "<</Type/Page/Parent 2 0 R/MediaBox[0 0 500 500]/Resources<<>>/Contents[]>>")
		d.Obj(8, "<</Type/Annot/Subtype/Link/Rect[0 0 1 1]/P 4 0 R>>")
	}
	return d.Bytes(1)
}

const steps = 13

// step makes one call of the library.
func step(p *pdft.PDFt, k int) (locked bool) {
	switch k {
	case 0:
		p.SetFont("a", "", 10)
		p.Insert("AB", 1, 10, 20, 100, 20, pdft.Left, nil)
	case 1:
		p.SetFont("b", "", 12)
		p.Insert("CA", 2, 10, 20, 100, 20, pdft.Right|pdft.Top, &pdft.FontColor{R: 1, G: 2, B: 3})
	case 2:
		p.InsertImg(wideAlpha(), 2, 10, 20, 100, 20)
	case 3:
		p.InsertImgWithCache(paletteJPEG(0), 1, 10, 20, 100, 20)
	case 4:
		p.InsertImgWithCache(paletteJPEG(1), 2, 10, 20, 100, 20)
	case 5:
		p.AddFontFrom("b", bytes.NewReader(smallFont().Bytes()))
	case 6:
		p.DuplicatePageAfter(1, 0)
	case 7:
		p.RemovePage(1)
	case 8:
		p.RemoveOtherPages(2)
	case 9:
		return p.SetProtection(4, []byte("u"), []byte("o")) == nil
	case 10:
		p.ShowCellBorder(true)
	case 11:
		var b bytes.Buffer
		p.SaveTo(&b)
	case 12:
		p.DuplicatePageAfter(2, 1)
	}
	return false
}

// C01_Session: any three calls on any of four templates; the file is whole.
func C01_Session() {
	raw := sessionDoc(sym.Choice("template", 4))
	p := open(raw)
	addFont(p, "a", smallFont())
	locked := false
	n := 3 + sym.Tier()
	for i := 0; i < n; i++ {
		if step(p, sym.Choice("call"+itoa(i), steps)) {
			locked = true
		}
	}
	wholeFile(save(p), locked)
}

// C01_Numbers: the numbers of the objects of the template are arbitrary.
func C01_Numbers() {
	ids := []int{2, 3, 5, 9, 14}
	perm := make([]int, 5)
	for i := range perm {
		perm[i] = sym.Choice("id"+itoa(i), 5)
		for j := 0; j < i; j++ {
			sym.Assume(perm[i] != perm[j])
		}
	}
	id := func(i int) string { return itoa(ids[perm[i]]) }
	d := pdfx.NewDoc()
	d.Obj(ids[perm[0]], "<</Type/Catalog/Pages "+id(1)+" 0 R>>")
	d.Obj(ids[perm[1]], "<</Type/Pages/Kids["+id(2)+" 0 R]/Count 1>>")
	d.Obj(ids[perm[2]], "<</Type/Page/Parent "+id(1)+" 0 R/MediaBox[0 0 600 700]/Resources<</Font<</F7 "+id(3)+" 0 R>>>>/Contents "+id(4)+" 0 R>>")
	d.Obj(ids[perm[3]], "<</Type/Font/Subtype/Type1/BaseFont/Helvetica>>")
	d.Stream(ids[perm[4]], "", []byte("q Q"))
	p := open(d.Bytes(ids[perm[0]]))
	addFont(p, "a", smallFont())
	locked := false
	for _, k := range []int{0, 2, 6, 3, 9} {
		if sym.Bool("do" + itoa(k)) {
			locked = step(p, k)
		}
	}
	wholeFile(save(p), locked)
}

// C01_Long: a template of more than 1, 10 or 100 kB to which texts and a font of any of eight
// sizes are added: the file is whole and shows all of it.
func C01_Long() {
	n := []int{0, 300, 4000, 40000}[sym.Choice("size", 4)]
	p := open(mkTmpl(tpage{content: bytes.Repeat([]byte("q Q "), n/4)}, tpage{content: []byte("q Q")}).raw)
	addFont(p, "a", stdFont())
	sym.Assert(p.SetFont("a", "", 10) == nil, "a font that was added can be set")
	for i, k := 0, 1+sym.Choice("texts", 8); i < k; i++ {
		sym.Assert(p.Insert("AB", 1+i%2, 100, 20, 90, 20, pdft.Left, nil) == nil, "insert succeeds")
	}
	for i := 0; i < n/100; i++ {
		sym.Assert(p.Insert("CD", 2, 100, 20, 90, 20, pdft.Left, nil) == nil, "insert succeeds")
	}
	raw := save(p)
	wholeFile(raw, false)
}
