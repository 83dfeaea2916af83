package props

import (
	"bytes"

	"github.com/signintech/pdft"
	"symh/pdfx"
	"symh/sym"
)

// useDoc does everything with a template that may be damaged; nothing is asked
// of the results, but it has to come to an end without a panic.
func useDoc(raw []byte) {
	var p pdft.PDFt
	if p.OpenFrom(bytes.NewReader(raw)) != nil {
		return
	}
	n := p.GetNumberOfPage()
	if n > 4 {
		return
	}
	fn := stdFont()
	fn.Glyphs, fn.Adv = fn.Glyphs[:3], fn.Adv[:2]
	fn.Segs = []pdfx.Seg{{Start: 'A', End: 'B', Delta: 1 - 'A'}}
	if p.AddFontFrom("a", bytes.NewReader(fn.Bytes())) != nil {
		return
	}
	p.SetFont("a", "", 10)
	p.Insert("AB", 1, 10, 20, 100, 20, pdft.Left, nil)
	p.InsertImg(tinyPNG(), 2, 10, 20, 40, 30)
	p.DuplicatePageAfter(1, 0)
	var b bytes.Buffer
	if p.SaveTo(&b) == nil {
		p.RemovePage(2)
		p.RemoveOtherPages(1)
		p.SaveTo(&b)
	}
}

// C20_TmplByte: a template in which one byte is any other.
func C20_TmplByte() {
	raw := damagedDoc().Bytes(1)
	at := sym.Choice("at", len(raw))
	if x := bytes.Index(raw, []byte("\nxref")); sym.Tier() == 0 {
		sym.Assume(at < x+60 || at > x+250) // the lines of the table are alike
	}
	b := sym.Bytes("b", 1)
	raw[at] = b[0]
	useDoc(raw)
}

// C20_TmplCut: a template that ends anywhere.
func C20_TmplCut() {
	raw := damagedDoc().Bytes(1)
	useDoc(raw[:sym.Choice("at", len(raw))])
}

func damagedDoc() *pdfx.Doc {
	d := pdfx.NewDoc()
	d.Obj(1, "<</Type/Catalog/Pages 2 0 R>>")
	d.Obj(2, "<</Type/Pages/Kids[4 0 R 6 0 R]/Count 2>>")
	d.Obj(3, "<</Type/Font/Subtype/Type1/BaseFont/Helvetica>>")
	d.Obj(4, "<</Type/Page/Parent 2 0 R/MediaBox[0 0 600 700]/Resources<</Font<</F7 3 0 R>>/XObject<</I3 8 0 R>>>>/Contents 5 0 R>>")
	d.Stream(5, "", []byte("q Q"))
	d.Obj(6, "<</Type/Page/Parent 2 0 R/MediaBox 9 0 R/Resources 10 0 R/Contents[7 0 R]>>")
	d.Obj(7, "<</Length 11 0 R>>stream\nq Q\nendstream")
	d.Obj(8, "<</Type/XObject/Subtype/Image/Width 1/Height 1/ColorSpace/DeviceGray/BitsPerComponent 8/Length 1>>stream\n.\nendstream")
	d.Obj(9, "[0 0 600 500]")
	d.Obj(10, "<</Font 12 0 R>>")
	d.Obj(11, "3")
	d.Obj(12, "<</F7 3 0 R>>")
	return d
}

func smallFont() *pdfx.TTF {
	fn := stdFont()
	fn.Glyphs, fn.Adv = fn.Glyphs[:3], fn.Adv[:2]
	fn.Segs = []pdfx.Seg{{Start: 'A', End: 'A', Delta: 1 - 'A'}, {Start: 'B', End: 'B', Delta: 0, IDs: []int{2}}}
	fn.Glyphs[2] = pdfx.CompositeGlyph(pdfx.Comp{Glyph: 1, Flags: 3})
	fn.Kern = []pdfx.KernPair{{L: 1, R: 2, V: -30}}
	return fn
}

// useFont does everything with a font file that may be damaged.
func useFont(raw []byte) {
	p := open(mkTmpl(tpage{content: []byte("q Q")}).raw)
	if p.AddFontFrom("a", bytes.NewReader(raw)) != nil {
		return
	}
	p.SetFont("a", "", 10)
	p.MeasureTextWidth("AB")
	p.Insert("AB", 1, 10, 20, 100, 20, pdft.Right, nil)
	var b bytes.Buffer
	p.SaveTo(&b)
}

// C20_FontByte: a font file in which one byte is any other.
func C20_FontByte() {
	raw := smallFont().Bytes()
	at := sym.Choice("at", len(raw))
	b := sym.Bytes("b", 1)
	// numbers of glyphs and characters, divisors: a few values
	if c := tableAt(raw, "cmap"); at >= c && at < c+26+40 {
		b[0] = []byte{0, 1, 3, 128}[sym.Choice("few", 4)]
	} else if at == tableAt(raw, "maxp")+4 {
		b[0] = byte(sym.Choice("few", 3))
	} else if h := tableAt(raw, "head") + 18; at == h || at == h+1 {
		b[0] = byte(17 * sym.Choice("few", 16))
	}
	raw[at] = b[0]
	useFont(raw)
}

// C20_FontCut: a font file that ends anywhere.
func C20_FontCut() {
	raw := smallFont().Bytes()
	useFont(raw[:sym.Choice("at", len(raw))])
}

// useImg does everything with an image that may be damaged.
func useImg(raw []byte) {
	p := open(mkTmpl(tpage{content: []byte("q Q")}).raw)
	p.InsertImg(raw, 1, 10, 20, 100, 20)
	var b bytes.Buffer
	p.SaveTo(&b)
}

func someImg() []byte {
	switch sym.Choice("img", 4) {
	case 0:
		p := pdfx.PNG{W: 1, H: 2, Depth: 8, Color: 2, Raw: []byte{0, 1, 2, 3, 0, 4, 5, 6}, Extra: []byte("ab"), Trns: []byte{0, 1, 0, 2, 0, 3}}
		return p.Bytes()
	case 1:
		p := pdfx.PNG{W: 2, H: 1, Depth: 8, Color: 6, Raw: []byte{0, 1, 2, 3, 4, 5, 6, 7, 8}}
		return p.Bytes()
	case 2:
		p := pdfx.PNG{W: 3, H: 1, Depth: 2, Color: 3, Pal: []byte{1, 2, 3, 4, 5, 6}, Trns: []byte{9}, Raw: []byte{0, 16}}
		return p.Bytes()
	}
	return pdfx.JPEG(3, 2, 3, []byte{1, 2})
}

// C20_ImgByte: an image file in which one byte is any other.
func C20_ImgByte() {
	raw := someImg()
	at := sym.Choice("at", len(raw))
	b := sym.Bytes("b", 1)
	if i := bytes.Index(raw, []byte("IDAT")); i > 0 && at >= i {
		b[0] = []byte{0, 1, 63, 255}[sym.Choice("few", 4)]
	}
	raw[at] = b[0]
	pdfx.FixPNG(raw)
	useImg(raw)
}

// C20_ImgCut: an image file that ends anywhere.
func C20_ImgCut() {
	raw := someImg()
	useImg(raw[:sym.Choice("at", len(raw))])
}

// tableAt is where the table starts in a font file.
func tableAt(raw []byte, tag string) int {
	for i := 12; ; i += 16 {
		if string(raw[i:i+4]) == tag {
			return int(raw[i+8])<<24 | int(raw[i+9])<<16 | int(raw[i+10])<<8 | int(raw[i+11])
		}
	}
}
