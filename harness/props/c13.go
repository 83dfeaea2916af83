package props

import (
	"bytes"
	"encoding/base64"

	"github.com/signintech/pdft"
	"symh/pdfx"
	"symh/sym"
)

// pngLine is the number of bytes of a line and of a pixel.
func pngLine(p *pdfx.PNG) (n, unit int) {
	ch := map[int]int{0: 1, 2: 3, 3: 1, 4: 2, 6: 4}[p.Color]
	return (p.W*ch*p.Depth + 7) / 8, (ch*p.Depth + 7) / 8
}

// symPNG is a picture of w x h pixels of one kind with arbitrary data; flt
// names the filters of the lines.
func symPNG(kind, w, h int, flt []int) *pdfx.PNG {
	k := [][2]int{{0, 8}, {0, 1}, {0, 4}, {2, 8}, {3, 8}, {3, 2}, {4, 8}, {6, 8}}[kind]
	p := &pdfx.PNG{W: w, H: h, Color: k[0], Depth: k[1]}
	n, _ := pngLine(p)
	for i := 0; i < h; i++ {
		p.Raw = append(p.Raw, byte(flt[i]))
		p.Raw = append(p.Raw, sym.Bytes("px"+itoa(i), n)...)
	}
	if k[0] == 3 {
		p.Pal = sym.Bytes("pal", 9)
	}
	return p
}

// onlyImage is the object of the only image on the only page.
func onlyImage(f *pdfx.File) *pdfx.Obj {
	pg := f.Pages()[0]
	ms := marksOf(f, pg)
	sym.Assert(len(ms) == 1 && ms[0].K == 'I', "the image is on the page")
	if len(ms) != 1 {
		return nil
	}
	return resolves(f, pg, "XObject", ms[0].Name)
}

// isPNG asserts that an image object shows a PNG file.
func isPNG(f *pdfx.File, o *pdfx.Obj, p *pdfx.PNG) {
	if o == nil {
		sym.Assert(false, "the image is in the file")
		return
	}
	sym.Assert(f.Get(o.V, "Width").Int() == p.W && f.Get(o.V, "Height").Int() == p.H, "the image has its size")
	sym.Assert(f.Get(o.V, "BitsPerComponent").Int() == p.Depth, "the image has its depth")
	got, comps, bad := f.Samples(o)
	sym.Assert(bad == "", "the image can be read: "+bad)
	if bad != "" {
		return
	}
	n, unit := pngLine(p)
	want, ok := pdfx.SplitRows(p.Raw, n, p.H, unit)
	if !ok {
		return
	}
	cs := f.Get(o.V, "ColorSpace")
	rgb := map[int]int{0: 1, 2: 3, 3: 1, 4: 1, 6: 3}[p.Color]
	sym.Assert(comps == rgb, "the image has its colours")
	mask := f.RefObj(o.V, "SMask")
	if p.Color >= 4 {
		sym.Assert(mask != nil, "a transparent image has a mask")
		if mask != nil {
			mcs := f.Get(mask.V, "ColorSpace")
			sym.Assert(mcs.IsName("DeviceGray") && f.Get(mask.V, "BitsPerComponent").Int() == 8, "the mask is a grey image")
			sym.Assert(f.Get(mask.V, "Width").Int() == p.W && f.Get(mask.V, "Height").Int() == p.H, "the mask has the image's size")
			alpha, _, bad := f.Samples(mask)
			sym.Assert(bad == "", "the mask can be read: "+bad)
			if bad == "" {
				sym.Assert(alpha.Same(want.Plane(unit-1, 1)), "the mask is the image's transparency")
			}
		}
		want = want.Plane(0, unit-1)
	} else {
		sym.Assert(f.Get(o.V, "SMask") == nil, "an opaque image has no mask")
	}
	sym.Assert(got.Same(want), "the image has its pixels")
	if p.Color == 3 {
		sym.Assert(cs.K == 'a' && len(cs.A) == 4, "a palette image has a palette")
		if cs.K != 'a' || len(cs.A) != 4 {
			return
		}
		sym.Assert(f.Deref(cs.A[1]).IsName("DeviceRGB"), "the palette is of RGB colours")
		var pal []byte
		if v := f.Deref(cs.A[3]); v != nil && v.K == 's' {
			pal = []byte(v.S)
		} else if cs.A[3].K == 'r' {
			pal, _ = f.Decoded(f.Obj(cs.A[3].I))
		}
		sym.Assert(f.Deref(cs.A[2]).Int() == len(p.Pal)/3-1, "the palette has its size")
		sym.Assert(bytes.Equal(pal, p.Pal), "the palette is the image's")
	} else {
		sym.Assert(cs.K == '/', "the image has its colours")
	}
	sym.Assert(f.Get(o.V, "Decode") == nil, "the samples mean what they are")
	if p.Trns == nil {
		sym.Assert(f.Get(o.V, "Mask") == nil, "no colour is transparent")
	}
}

func putImg(p *pdft.PDFt, how int, img []byte) error {
	switch how {
	case 0:
		return p.InsertImg(img, 1, 10, 20, 30, 40)
	case 1:
		return p.InsertImgWithCache(img, 1, 10, 20, 30, 40)
	}
	return p.InsertImgBase64(base64.StdEncoding.EncodeToString(img), 1, 10, 20, 30, 40)
}

// C13_PNG: pictures of 3x2 pixels of all colour types, any pixel data and
// palette, every line filter, the data in one chunk, in two, or with an empty
// one first, with or without another chunk (possibly empty) before.
func C13_PNG() {
	kind := sym.Choice("kind", 8)
	f0 := sym.Choice("f0", 2)
	f1 := sym.Choice("f1", 5)
	img := symPNG(kind, 3, 2, []int{f0, f1})
	switch sym.Choice("form", 4) {
	case 1:
		img.Split = 1 + sym.Choice("split", 3)*3
	case 2:
		img.Empty = true
	case 3:
		img.Extra = []byte("text")[:4*sym.Choice("extra", 2)]
	}
	p := open(mkTmpl(tpage{content: []byte("q Q")}).raw)
	err := putImg(p, 0, img.Bytes())
	sym.Assert(err == nil, "a PNG image is accepted")
	if err != nil {
		return
	}
	f := saved(p)
	isPNG(f, onlyImage(f), img)
}

// C13_Large: pictures and chunks whose size needs more than 15 bits.
func C13_Large() {
	img := &pdfx.PNG{W: 3, H: 2, Depth: 8, Color: 0}
	switch sym.Choice("case", 4) {
	case 0: // wide
		img.W, img.Depth = 32768+40, 1
	case 1: // high
		img.W, img.H = 1, 33000
	case 2: // palette image with transparency in a big chunk
		img.W, img.H, img.Color = 100, 90, 6
	case 3:
		img.W, img.H, img.Color = 100, 200, 4
	}
	n, _ := pngLine(img)
	x := 12345
	for i := 0; i < img.H; i++ {
		img.Raw = append(img.Raw, byte(i%3))
		for j := 0; j < n; j++ {
			x = (x*1103515245 + 12345) & 0x7fffffff
			img.Raw = append(img.Raw, byte(x>>16))
		}
	}
	p := open(mkTmpl(tpage{content: []byte("q Q")}).raw)
	err := putImg(p, 0, img.Bytes())
	sym.Assert(err == nil, "a PNG image is accepted")
	if err != nil {
		return
	}
	f := saved(p)
	isPNG(f, onlyImage(f), img)
}

// C13_Ways: the three ways of inserting show the same image (a palette image,
// an RGBA image, a grey image or a JPEG), with or without protection set later.
func C13_Ways() {
	how := sym.Choice("how", 3)
	p := open(mkTmpl(tpage{content: []byte("q Q")}).raw)
	k := sym.Choice("img", 4)
	var img []byte
	var src *pdfx.PNG
	if k < 3 {
		src = symPNG0([]int{4, 7, 6}[k])
		img = src.Bytes()
	} else {
		img = pdfx.JPEG(20, 10, 3, []byte("\x12\x34\x56"))
	}
	err := putImg(p, how, img)
	sym.Assert(err == nil, "an image is accepted")
	if err != nil {
		return
	}
	f := saved(p)
	if src != nil {
		isPNG(f, onlyImage(f), src)
	} else if o := onlyImage(f); o != nil {
		sym.Assert(bytes.Equal(o.Stream, img), "the JPEG data are the file")
	}
}

// symPNG0 is a fixed picture of a kind.
func symPNG0(kind int) *pdfx.PNG {
	k := [][2]int{{0, 8}, {0, 1}, {0, 4}, {2, 8}, {3, 8}, {3, 2}, {4, 8}, {6, 8}}[kind]
	p := &pdfx.PNG{W: 2, H: 2, Color: k[0], Depth: k[1]}
	n, _ := pngLine(p)
	for i := 0; i < 2; i++ {
		p.Raw = append(p.Raw, byte(i))
		for j := 0; j < n; j++ {
			p.Raw = append(p.Raw, byte(17*i+j))
		}
	}
	if k[0] == 3 {
		p.Pal = []byte("abcdefghi")
	}
	return p
}

// C13_JPEG: JPEG files of one, three and four components, any size and data.
func C13_JPEG() {
	n := []int{1, 3, 4}[sym.Choice("n", 3)]
	w, h := symR("w", 1000, 9999), symR("h", 10000, 65535)
	img := pdfx.JPEG(w, h, n, sym.Bytes("scan", 4))
	p := open(mkTmpl(tpage{content: []byte("q Q")}).raw)
	err := putImg(p, 0, img)
	sym.Assert(err == nil, "a JPEG image is accepted")
	if err != nil {
		return
	}
	f := saved(p)
	o := onlyImage(f)
	if o == nil {
		sym.Assert(false, "the image is in the file")
		return
	}
	sym.Assert(sym.And(f.Get(o.V, "Width").S == itoa(w), f.Get(o.V, "Height").S == itoa(h)), "the image has its size")
	sym.Assert(f.Get(o.V, "BitsPerComponent").Int() == 8, "the image has its depth")
	sym.Assert(f.Get(o.V, "Filter").IsName("DCTDecode"), "the image is stored as a JPEG")
	sym.Assert(bytes.Equal(o.Stream, img), "the JPEG data are the file")
	sym.Assert(f.Get(o.V, "ColorSpace").IsName(map[int]string{1: "DeviceGray", 3: "DeviceRGB", 4: "DeviceCMYK"}[n]), "the image has its colours")
	sym.Assert(f.Get(o.V, "SMask") == nil && f.Get(o.V, "Mask") == nil, "a JPEG is opaque")
	dec := f.Get(o.V, "Decode")
	if n == 4 {
		sym.Assert(dec.String() == "[1 0 1 0 1 0 1 0]", "CMYK samples of a JPEG are inverted")
	} else {
		sym.Assert(dec == nil, "the samples mean what they are")
	}
}

// C13_Place: an image anywhere on a page of any height.
func C13_Place() {
	ph := symR("ph", 100, 999)
	d := pdfx.NewDoc()
	d.Obj(1, "<</Type/Catalog/Pages 2 0 R>>")
	d.Obj(2, "<</Type/Pages/Kids[4 0 R]/Count 1>>")
	d.Obj(4, "<</Type/Page/Parent 2 0 R/MediaBox[0 0 600 "+itoa(ph)+"]/Resources<<>>/Contents 5 0 R>>")
	d.Stream(5, "", []byte("q Q"))
	p := open(d.Bytes(1))
	var v [4]float64
	for i, n := range []string{"x", "y", "w", "h"} {
		v[i] = float64(sym.Int(n, 0, 9600)) / 16
	}
	sym.Assert(p.InsertImg(tinyPNG(), 1, v[0], v[1], v[2], v[3]) == nil, "insert succeeds")
	f := saved(p)
	ms := marksOf(f, f.Pages()[0])
	sym.Assert(len(ms) == 1 && ms[0].K == 'I', "the image is on the page")
	if len(ms) != 1 {
		return
	}
	m := ms[0].M
	sym.Assert(sym.And(m[1] == 0, m[2] == 0), "the image is upright")
	sym.Assert(sym.And(near(m[0], v[2], 0.0051), near(m[3], v[3], 0.0051)), "the image has the size asked for")
	sym.Assert(sym.And(near(m[4], v[0], 0.0051), near(m[5], float64(ph)-v[1]-v[3], 0.0051)), "the image is where it was asked for")
}

// C13_Key: colours made transparent by a PNG file.
func C13_Key() {
	kind := []int{0, 1, 2, 3, 4, 5}[sym.Choice("kind", 6)]
	img := symPNG0(kind)
	want := ""
	v := []int{0, 1, 200, 255}[sym.Choice("v", 4)] & (1<<img.Depth - 1)
	switch img.Color {
	case 0:
		img.Trns = []byte{0, byte(v)}
		want = "[" + itoa(v) + " " + itoa(v) + "]"
	case 2:
		img.Trns = []byte{0, 7, 0, byte(v), 0, 255}
		want = "[7 7 " + itoa(v) + " " + itoa(v) + " 255 255]"
	case 3:
		v = v % 3
		img.Trns = []byte{255, 255, 255}[:v]
		img.Trns = append(img.Trns, 0)
		want = "[" + itoa(v) + " " + itoa(v) + "]"
	}
	p := open(mkTmpl(tpage{content: []byte("q Q")}).raw)
	err := putImg(p, 0, img.Bytes())
	sym.Assert(err == nil, "a PNG image is accepted")
	if err != nil {
		return
	}
	f := saved(p)
	o := onlyImage(f)
	isPNG(f, o, img)
	if o != nil {
		m := f.Get(o.V, "Mask")
		sym.Assert(m != nil && m.String() == want, "the transparent colour is masked")
	}
}

// C13_Refuse: files that are not images, or images of a kind that is not
// supported, are refused and leave the document as it was.
func C13_Refuse() {
	var img []byte
	good := symPNG0(7).Bytes()
	switch sym.Choice("case", 7) {
	case 0:
		img = sym.Bytes("b", 6)
		sym.Assume(sym.And(img[0] != 0x89, img[0] != 0xff))
	case 1: // interlaced
		q := symPNG0(3)
		q.Lace = 1
		img = q.Bytes()
	case 2: // 16 bits
		q := pdfx.PNG{W: 1, H: 1, Depth: 16, Color: 2, Raw: []byte{0, 1, 2, 3, 4, 5, 6}}
		img = q.Bytes()
	case 3: // truncated
		img = good[:33+sym.Choice("cut", len(good)-33-4)] // all but the final checksum
	case 4: // too little data
		q := symPNG0(6 + sym.Choice("k", 2))
		q.Raw = q.Raw[:len(q.Raw)-1-sym.Choice("less", 4)]
		img = q.Bytes()
	case 5: // no palette
		q := symPNG0(4)
		q.Pal = nil
		img = q.Bytes()
	case 6: // short transparency
		q := symPNG0(3 * sym.Choice("k", 2))
		q.Trns = make([]byte, sym.Choice("n", 2))
		img = q.Bytes()
	}
	p := open(mkTmpl(tpage{content: []byte("q Q")}).raw)
	sym.Assert(p.InsertImg(tinyPNG(), 1, 1, 2, 3, 4) == nil, "insert succeeds")
	before := save(p)
	err := putImg(p, sym.Choice("how", 2), img)
	sym.Assert(err != nil, "what is not a supported image is refused")
	sym.Assert(bytes.Equal(before, save(p)), "a refused image leaves the document as it was")
}

// symR is a 16-bit number in a range.
func symR(name string, lo, hi int) int {
	v := sym16(name)
	sym.Assume(sym.And(v >= lo, v <= hi))
	return v
}

// C13_PalAlpha: a palette image any of whose colours are transparent to any
// degree: every pixel has its colour's transparency.
func C13_PalAlpha() {
	img := symPNG0(4)
	img.Raw = []byte{0, 0, 1, 0, 2, 1}
	img.Trns = make([]byte, 1+sym.Choice("n", 3))
	for i := range img.Trns {
		img.Trns[i] = []byte{0, 128, 255}[sym.Choice("t"+itoa(i), 3)]
	}
	p := open(mkTmpl(tpage{content: []byte("q Q")}).raw)
	err := putImg(p, 0, img.Bytes())
	sym.Assert(err == nil, "a PNG image is accepted")
	if err != nil {
		return
	}
	f := saved(p)
	o := onlyImage(f)
	if o == nil {
		sym.Assert(false, "the image is in the file")
		return
	}
	var alpha [][]byte
	if m := f.RefObj(o.V, "SMask"); m != nil {
		r, _, bad := f.Samples(m)
		sym.Assert(bad == "", "the mask can be read: "+bad)
		alpha = r.Plain()
	}
	lo, hi := -1, -1
	if m := f.Get(o.V, "Mask"); m != nil && m.K == 'a' && len(m.A) == 2 {
		lo, hi = m.A[0].Int(), m.A[1].Int()
	}
	zeros, partly := 0, 0
	for _, t := range img.Trns {
		if t == 0 {
			zeros++
		} else if t < 255 {
			partly++
		}
	}
	for y := 0; y < 2; y++ {
		for x := 0; x < 2; x++ {
			k := int(img.Raw[3*y+1+x])
			want := 255
			if k < len(img.Trns) {
				want = int(img.Trns[k])
			}
			got := 255
			if alpha != nil {
				got = int(alpha[y][x])
			} else if lo <= k && k <= hi {
				got = 0
			}
			switch {
			case partly > 0 && want > 0 && want < 255:
				sym.Assert(got == want, "partly transparent palette colours are partly transparent")
			case zeros > 1 && want == 0:
				sym.Assert(got == want, "all fully transparent palette colours are transparent")
			default:
				sym.Assert(got == want, "each pixel is as transparent as its colour")
			}
		}
	}
}
