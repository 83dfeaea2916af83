package props

import (
	"bytes"

	"symh/pdfx"
	"symh/sym"
)

// C14_Cache: four insertions, each of one of four images (two PNG files that
// differ in one pixel, one with transparency, one JPEG), with or without the
// cache, on either of two pages, with a save possibly in between. Each shows
// its own image; cached insertions of the same image share one object.
func C14_Cache() {
	imgs := [][]byte{
		(&pdfx.PNG{W: 1, H: 1, Depth: 8, Color: 2, Raw: []byte{0, 1, 2, 3}}).Bytes(),
		(&pdfx.PNG{W: 1, H: 1, Depth: 8, Color: 2, Raw: []byte{0, 1, 2, 4}}).Bytes(),
		(&pdfx.PNG{W: 1, H: 1, Depth: 8, Color: 6, Raw: []byte{0, 1, 2, 3, 9}}).Bytes(),
		pdfx.JPEG(2, 3, 3, []byte{1, 2}),
	}
	p := open(mkTmpl(tpage{content: []byte("q Q")}, tpage{content: []byte("q Q")}).raw)
	type put struct{ img, page int }
	var puts []put
	var buf []byte
	n := 3
	if sym.Tier() > 0 {
		n = 4
	}
	cached := make([]bool, n)
	for i := 0; i < n; i++ {
		k := sym.Choice("img"+itoa(i), 4)
		page := 1 + sym.Choice("page"+itoa(i), 2)
		cached[i] = sym.Bool("cache" + itoa(i))
		// one buffer is reused for all images
		buf = append(buf[:0], imgs[k]...)
		var err error
		if cached[i] {
			err = p.InsertImgWithCache(buf, page, float64(10*i), 0, 5, 5)
		} else {
			err = p.InsertImg(buf, page, float64(10*i), 0, 5, 5)
		}
		sym.Assert(err == nil, "an image is accepted")
		puts = append(puts, put{k, page})
		if i == 1 && sym.Bool("save") {
			save(p)
		}
	}
	f := saved(p)
	objs := map[int]*pdfx.Obj{}
	for i, pg := range f.Pages() {
		ms := pick(marksOf(f, pg), 'I')
		j := 0
		for k, u := range puts {
			if u.page != i+1 {
				continue
			}
			if j >= len(ms) {
				sym.Assert(false, "each image is on its page")
				return
			}
			sym.Assert(ms[j].M[4] == float64(10*k), "each image is at its place")
			o := resolves(f, pg, "XObject", ms[j].Name)
			sym.Assert(o != nil && isImg(f, o, u.img), "each insertion shows its image")
			objs[k] = o
			j++
		}
		sym.Assert(j == len(ms), "there is nothing else on the page")
	}
	for a := range puts {
		for b := 0; b < a; b++ {
			if cached[a] && cached[b] && puts[a].img == puts[b].img {
				sym.Assert(objs[a] == objs[b], "cached insertions of an image share one object")
			}
		}
	}
	// no image object but those that are shown, and no duplicate of a cached one
	count := map[int]int{}
	for _, o := range f.Objs {
		if o != nil && f.Get(o.V, "Subtype").IsName("Image") && o.V.Get("SMask") == nil {
			for k := range imgs {
				if isImg(f, o, k) {
					count[k]++
				}
			}
		}
	}
	for k := range imgs {
		plain, some := 0, 0
		for i, u := range puts {
			if u.img != k {
				continue
			}
			if cached[i] {
				some = 1
			} else {
				plain++
			}
		}
		if k != 2 {
			sym.Assert(count[k] <= plain+some, "the cache stores an image once")
		}
	}
}

// isImg tells which of the images of C14 an object is.
func isImg(f *pdfx.File, o *pdfx.Obj, k int) bool {
	if k == 3 {
		return bytes.HasPrefix(o.Stream, []byte{0xff, 0xd8}) && f.Get(o.V, "Height").Int() == 3
	}
	r, comps, bad := f.Samples(o)
	if bad != "" || comps != 3 {
		return false
	}
	px := r.Plain()[0]
	m := f.RefObj(o.V, "SMask")
	if k == 2 {
		if m == nil || !bytes.Equal(px, []byte{1, 2, 3}) {
			return false
		}
		a, _, bad := f.Samples(m)
		return bad == "" && a.Plain()[0][0] == 9
	}
	return m == nil && bytes.Equal(px, []byte{1, 2, byte(3 + k)})
}

// C14_Bytes: two insertions of one-pixel grey PNG files with any pixels, each
// in any of the ways: each shows its pixel, and two cached ones share an object
// exactly when the files are equal.
func C14_Bytes() {
	p := open(mkTmpl(tpage{content: []byte("q Q")}).raw)
	var px [2]byte
	var how [2]int
	for i := range px {
		how[i] = sym.Choice("how"+itoa(i), 2)
		px[i] = sym.Bytes("px"+itoa(i), 1)[0]
		img := (&pdfx.PNG{W: 1, H: 1, Depth: 8, Color: 0, Raw: []byte{0, px[i]}}).Bytes()
		var err error
		if how[i] == 0 {
			err = p.InsertImgWithCache(img, 1, 0, 0, 5, 5)
		} else {
			err = p.InsertImg(img, 1, 0, 0, 5, 5)
		}
		sym.Assert(err == nil, "an image is accepted")
	}
	f := saved(p)
	pg := f.Pages()[0]
	ms := marksOf(f, pg)
	sym.Assert(len(ms) == 2, "both images are on the page")
	var objs [2]*pdfx.Obj
	for i, m := range ms {
		o := resolves(f, pg, "XObject", m.Name)
		r, _, bad := f.Samples(o)
		sym.Assert(bad == "", "the image can be read: "+bad)
		if bad != "" {
			return
		}
		sym.Assert(r.Plain()[0][0] == px[i], "each insertion shows its image")
		objs[i] = o
	}
	if how[0] == 0 && how[1] == 0 {
		sym.Assert((px[0] == px[1]) == (objs[0] == objs[1]), "cached insertions share an object exactly when the images are equal")
	}
}

// C14_Long: two files of 9000 bytes (thorough: 70000) that are alike but for one byte at one of
// seven places (or nowhere), or one of which is the other cut off: cached insertions share an
// object exactly when the files are equal.
func C14_Long() {
	base := pdfx.JPEG(2, 3, 3, make([]byte, 8900+61000*sym.Tier()))
	other := append([]byte(nil), base...)
	same := false
	switch sym.Choice("how", 3) {
	case 0:
		at := []int{len(base) - 1, len(base) - 3, 1000, 513, 700, 4500, len(base) - 700}[sym.Choice("at", 7)]
		v := sym.Bytes("v", 2)
		base[at], other[at] = v[0], v[1]
		same = v[0] == v[1]
	case 1:
		other = append(other, 0)
	case 2:
		other = other[:len(other)-1]
	}
	p := open(mkTmpl(tpage{content: []byte("q Q")}).raw)
	for i, img := range [][]byte{base, other, base} {
		sym.Assert(p.InsertImgWithCache(img, 1, float64(10*i), 0, 5, 5) == nil, "an image is accepted")
	}
	f := saved(p)
	pg := f.Pages()[0]
	ms := marksOf(f, pg)
	sym.Assert(len(ms) == 3, "all images are on the page")
	if len(ms) != 3 {
		return
	}
	var objs [3]*pdfx.Obj
	for i, m := range ms {
		objs[i] = resolves(f, pg, "XObject", m.Name)
		want := [][]byte{base, other, base}[i]
		sym.Assert(objs[i] != nil && bytes.Equal(objs[i].Stream, want), "each insertion shows its image")
	}
	sym.Assert((objs[0] == objs[1]) == same, "cached insertions share an object exactly when the images are equal")
	sym.Assert(objs[0] == objs[2], "cached insertions of an image share one object")
}
