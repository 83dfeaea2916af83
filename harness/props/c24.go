package props

import (
	"bytes"

	gopdf "github.com/signintech/pdft/minigopdf"
	"symh/pdfx"
	"symh/sym"
)

// someImage is one of three pictures, held by bytes or by a reader.
func someImage(k int, reader bool) gopdf.ImageHolder {
	var b []byte
	switch k {
	case 0:
		b = wideAlpha()
	case 1:
		b = paletteJPEG(0)
	case 2:
		b = paletteJPEG(1)
	}
	if reader {
		h, err := gopdf.ImageHolderByReader(bytes.NewReader(b))
		sym.Assert(err == nil, "an image can be held")
		return h
	}
	return holder(b)
}

// C24_Places: three images of three pictures, some the same, held by bytes or
// by a reader, on two pages, at any places and of any sizes: each is where it was
// put, shows its picture, and a picture is in the file once.
func C24_Places() {
	h := float64(symR("height", 500, 2000))
	g := begin(600, h, false)
	g.AddPage()
	type put struct{ page, kind int }
	var puts []put
	var want [][4]float64
	var used [3]bool
	page := 0
	for i := 0; i < 3; i++ {
		tag := itoa(i)
		if i > 0 && sym.Bool("page"+tag) {
			g.AddPage()
			page++
		}
		k := sym.Choice("picture"+tag, 3)
		used[k] = true
		x, y := sym.Float("x"+tag, 0, 500), sym.Float("y"+tag, 0, 500)
		w, d := sym.Float("w"+tag, 0, 300), sym.Float("h"+tag, 0, 300)
		err := g.ImageByHolder(someImage(k, sym.Bool("reader"+tag)), x, y, &gopdf.Rect{W: w, H: d})
		sym.Assert(err == nil, "drawing an image succeeds")
		puts = append(puts, put{page, k})
		want = append(want, [4]float64{w, d, x, h - y - d})
	}
	f := parsed(written(g))
	stored := map[int]int{}
	objs := map[int]int{}
	for pi, pg := range f.Pages() {
		is := drawnOn(f, pg)
		n := 0
		for i, p := range puts {
			if p.page != pi {
				continue
			}
			sym.Assert(n < len(is) && is[n].K == 'I', "every image is on its page")
			if n >= len(is) || is[n].K != 'I' {
				return
			}
			m := is[n].M
			ok := sym.And(near(m[0], want[i][0], cent), near(m[3], want[i][1], cent))
			ok = sym.And(ok, sym.And(near(m[4], want[i][2], cent), near(m[5], want[i][3], cent)))
			sym.Assert(sym.And(ok, sym.And(m[1] == 0, m[2] == 0)), "an image is where it was put, in its size")
			o := resolves(f, pg, "XObject", is[n].Name)
			n++
			if o == nil {
				return
			}
			r := f.Get(f.Inherited(pg, "Resources"), "XObject").Get(is[n-1].Name)
			if r != nil && r.K == 'r' {
				stored[p.kind] = r.I
				objs[r.I]++
			}
			showsPicture(f, o, p.kind)
		}
		sym.Assert(n == len(is), "no other image is on a page")
	}
	kinds := 0
	for _, u := range used {
		if u {
			kinds++
		}
	}
	sym.Assert(len(objs) == kinds && len(stored) == kinds, "a picture is in the file once")
}

// showsPicture asserts that an image object shows one of the three pictures.
func showsPicture(f *pdfx.File, o *pdfx.Obj, k int) {
	switch k {
	case 0:
		p := pdfx.PNG{W: 2, H: 2, Depth: 8, Color: 6, Raw: []byte{0, 1, 2, 3, 4, 5, 6, 7, 8, 2, 9, 8, 7, 6, 5, 4, 3, 2}}
		isPNG(f, o, &p)
	case 1:
		p := pdfx.PNG{W: 3, H: 2, Depth: 2, Color: 3, Pal: []byte{1, 2, 3, 4, 5, 6, 7, 8, 9}, Trns: []byte{0}, Raw: []byte{0, 0x18, 0, 0x24}}
		isPNG(f, o, &p)
	case 2:
		sym.Assert(f.Get(o.V, "Filter").IsName("DCTDecode") && bytesEq(o.Stream, paletteJPEG(1)), "a JPEG is stored as it is")
	}
}

// C24_Any: a PNG with arbitrary samples, of one of several kinds, or a JPEG with any size and data,
// alone or protected: the image in the file shows the same samples.
func C24_Any() {
	prot := sym.Bool("protected")
	g := begin(600, 700, prot)
	g.AddPage()
	kind := sym.Choice("kind", 8)
	p := symPNG(kind, 2, 2, []int{sym.Choice("filter", 5), 2})
	if prot {
		p = symPNG0(kind)
	}
	if kind == 7 && !prot {
		p.Raw[4] |= 1
	}
	h, err := gopdf.ImageHolderByReader(bytes.NewReader(p.Bytes()))
	if err == nil {
		err = g.ImageByHolder(h, 10, 20, &gopdf.Rect{W: 30, H: 40})
	}
	sym.Assert(err == nil, "drawing an image succeeds")
	f := parsed(written(g))
	if prot {
		why := f.Unlock(pdfx.PadPass([]byte("u")))
		sym.Assert(why == "", "the password opens the file: "+why)
	}
	pg := f.Pages()[0]
	ms := drawnOn(f, pg)
	sym.Assert(len(ms) == 1 && ms[0].K == 'I', "the image is on the page")
	if len(ms) == 1 {
		isPNG(f, resolves(f, pg, "XObject", ms[0].Name), p)
	}
}

// C24_Bad: data that are not an image are refused, and leave the document as it was.
func C24_Bad() {
	g := begin(600, 700, false)
	g.AddPage()
	g.Line(1, 2, 3, 4)
	b := wideAlpha()
	switch sym.Choice("damage", 4) {
	case 0:
		b = sym.Bytes("data", 3)
	case 1:
		b = b[:sym.Choice("cut", len(b)-12)]
	case 2:
		b = nil
	case 3:
		b = append([]byte("\x89PNG\r\n\x1a\n"), b[:20]...)
	}
	h, err := gopdf.ImageHolderByBytes(b)
	if err == nil {
		err = g.ImageByHolder(h, 10, 20, &gopdf.Rect{W: 30, H: 40})
	}
	sym.Assert(err != nil, "what is not an image is refused")
	f := parsed(written(g))
	sym.Assert(len(drawnOn(f, f.Pages()[0])) == 1, "a refused image leaves nothing on the page")
	sym.Assert(f.Dangling() == 0, "no reference leads nowhere")
}

// C24_Long: two long files that are alike but for one byte at one of seven
// places (or nowhere), or one of which is the other cut off, held by bytes or by a
// reader: each use shows its picture, and the object is shared exactly when they are equal.
func C24_Long() {
	base := pdfx.JPEG(2, 3, 3, make([]byte, 8900+61000*sym.Tier()))
	other := append([]byte(nil), base...)
	same := false
	switch sym.Choice("how", 3) {
	case 0:
		at := []int{len(base) - 1, len(base) - 3, 1000, 513, 700, 4500, len(base) - 700}[sym.Choice("at", 7)]
		v := sym.Bytes("v", 2)
		base[at], other[at] = v[0], v[1]
		same = v[0] == v[1]
	case 1:
		other = append(other, 0)
	case 2:
		other = other[:len(other)-1]
	}
	g := begin(595, 842, false)
	g.AddPage()
	rd := sym.Choice("reader", 4)
	for i, img := range [][]byte{base, other, base} {
		h := holder(img)
		if rd == 3 || rd == i {
			var err error
			h, err = gopdf.ImageHolderByReader(bytes.NewReader(img))
			sym.Assert(err == nil, "an image can be held")
		}
		sym.Assert(g.ImageByHolder(h, float64(10*i), 0, &gopdf.Rect{W: 5, H: 5}) == nil, "an image is accepted")
	}
	f := parsed(written(g))
	pg := f.Pages()[0]
	ms := pick(drawnOn(f, pg), 'I')
	sym.Assert(len(ms) == 3, "all images are on the page")
	if len(ms) != 3 {
		return
	}
	var objs [3]*pdfx.Obj
	for i, m := range ms {
		objs[i] = resolves(f, pg, "XObject", m.Name)
		want := [][]byte{base, other, base}[i]
		sym.Assert(objs[i] != nil && bytes.Equal(objs[i].Stream, want), "each use shows its picture")
	}
	sym.Assert((objs[0] == objs[1]) == same, "uses share an object exactly when the pictures are equal")
	sym.Assert(objs[0] == objs[2], "uses of a picture share one object")
}
