package props

import (
	"bytes"
	"encoding/base64"
	"errors"

	"github.com/signintech/pdft"
	"github.com/signintech/pdft/render"
	"github.com/signintech/pdft/textbreak"
	"symh/pdfx"
	"symh/sym"
)

type failBreak struct{}

func (failBreak) BreakTextToToken(string) ([]string, error) { return nil, errBreak }

// fieldSet is up to three fields with keys a, b, "" or one arbitrary letter.
func fieldSet() render.FieldInfos {
	var fs render.FieldInfos
	n := 1 + sym.Choice("n", 3)
	for i := 0; i < n; i++ {
		s := itoa(i)
		f := render.FieldInfo{
			Key:        []string{"a", "b", ""}[sym.Choice("key"+s, 3)],
			PageNum:    1 + i%2,
			X:          float64(10 + 100*i),
			Y:          float64(20 + i),
			W:          float64(90 - 30*i),
			H:          float64(40 + i),
			Align:      []int{pdft.Left, pdft.Right | pdft.Top, pdft.Center | pdft.Middle}[i],
			Font:       []string{"f", "g", "f"}[i],
			Size:       10 + 2*i,
			IsWrapText: i > 0 && sym.Bool("wrap"+s),
		}
		fs = append(fs, f)
	}
	return fs
}

// rendered opens a template both ways, with the same fonts.
func rendered(fs render.FieldInfos) (*render.Render, *pdft.PDFt) {
	raw := mkTmpl(tpage{content: []byte("q Q")}, tpage{content: []byte("q Q"), h: 500}).raw
	rd, err := render.NewRender(sym.File("t.pdf", raw), fs)
	sym.Assert(err == nil && rd != nil, "the template opens")
	if rd == nil {
		return nil, nil
	}
	p := open(raw)
	for _, q := range []*pdft.PDFt{&rd.PDFt, p} {
		addFont(q, "f", stdFont())
		addFont(q, "g", stdFont())
	}
	return rd, p
}

// C18_Text: up to three fields (keys may repeat: the last one counts), two texts
// for any key, known or not, with or without a breaker: the document is the one
// made by inserting each text by hand with what its field says.
func C18_Text() {
	fs := fieldSet()
	rd, p := rendered(fs)
	if rd == nil {
		return
	}
	var tb textbreak.TextBreaker
	if sym.Bool("breaker") {
		tb = textbreak.BasicTextbreak{}
		rd.SetTextBreaker(tb)
	}
	for k := 0; k < 2; k++ {
		key := []string{"a", "b", "", "zz"}[sym.Choice("use"+itoa(k), 4)]
		text := []string{"AB CD EFGH", "P"}[k]
		err := rd.Text(key, text)
		sym.Assert(err == nil, "a text for any key is no error")
		var fi *render.FieldInfo
		for i := range fs {
			if fs[i].Key == key {
				fi = &fs[i]
			}
		}
		if fi == nil {
			continue
		}
		p.SetFont(fi.Font, "", fi.Size)
		if fi.IsWrapText {
			err = p.InsertWrapText(text, fi.PageNum, fi.X, fi.Y, fi.W, fi.H, fi.Align, nil, tb)
		} else {
			err = p.Insert(text, fi.PageNum, fi.X, fi.Y, fi.W, fi.H, fi.Align, nil)
		}
		sym.Assert(err == nil, "insert succeeds")
	}
	sameShown(saved(&rd.PDFt), saved(p))
}

// sameShown asserts that two documents show the same on every page.
func sameShown(a, b *pdfx.File) {
	pa, pb := a.Pages(), b.Pages()
	sym.Assert(len(pa) == len(pb), "the documents have the same pages")
	for i := range pa {
		ma, mb := marksOf(a, pa[i]), marksOf(b, pb[i])
		sym.Assert(len(ma) == len(mb), "the pages show the same things")
		for j := 0; j < len(ma) && j < len(mb); j++ {
			x, y := ma[j], mb[j]
			same := x.K == y.K && x.X == y.X && x.Y == y.Y && x.W == y.W && x.H == y.H && x.Size == y.Size && x.RGB == y.RGB && x.M == y.M && len(x.Items) == len(y.Items)
			for k := 0; same && k < len(x.Items); k++ {
				same = x.Items[k] == y.Items[k]
			}
			sym.Assert(same, "the pages show the same things")
			switch x.K {
			case 'T':
				o, q := resolves(a, pa[i], "Font", x.Name), resolves(b, pb[i], "Font", y.Name)
				sym.Assert(o != nil && q != nil && pdfx.Equal(a.Get(o.V, "BaseFont"), b.Get(q.V, "BaseFont")), "texts are in the same font")
			case 'I':
				o, q := resolves(a, pa[i], "XObject", x.Name), resolves(b, pb[i], "XObject", y.Name)
				sym.Assert(o != nil && q != nil && bytes.Equal(o.Stream, q.Stream), "images are the same")
			}
		}
	}
}

// C18_Image: images for known and unknown keys.
func C18_Image() {
	fs := fieldSet()
	rd, p := rendered(fs)
	if rd == nil {
		return
	}
	imgs := []string{base64.StdEncoding.EncodeToString(tinyPNG()), base64.StdEncoding.EncodeToString(pdfx.JPEG(3, 2, 3, []byte("\x01")))}
	for k := 0; k < 2; k++ {
		key := []string{"a", "b", "", "zz"}[sym.Choice("use"+itoa(k), 4)]
		sym.Assert(rd.ImgBase64(key, imgs[k]) == nil, "an image for any key is no error")
		for i := len(fs) - 1; i >= 0; i-- {
			if fi := fs[i]; fi.Key == key {
				sym.Assert(p.InsertImgBase64(imgs[k], fi.PageNum, fi.X, fi.Y, fi.W, fi.H) == nil, "insert succeeds")
				break
			}
		}
	}
	sameShown(saved(&rd.PDFt), saved(p))
}

// C18_Errors: what goes wrong is reported, and can be told by the cause.
func C18_Errors() {
	fs := render.FieldInfos{
		{Key: "nofont", PageNum: 1, Font: "none", Size: 10},
		{Key: "wrap", PageNum: 1, Font: "f", Size: 10, W: 50, IsWrapText: true},
		{Key: "t", PageNum: 1, Font: "f", Size: 10},
	}
	rd, p := rendered(fs)
	if rd == nil {
		return
	}
	var err error
	switch sym.Choice("case", 5) {
	case 0:
		err = rd.Text("nofont", "A")
		sym.Assert(errors.Is(err, pdft.ErrFontNameNotFound), "an unknown font is reported as such")
	case 1:
		rd.SetTextBreaker(failBreak{})
		err = rd.Text("wrap", "A")
		sym.Assert(errors.Is(err, errBreak), "the breaker's error is reported")
	case 2:
		err = rd.Text("t", "\U0001F600")
		sym.Assert(err != nil, "a character the font cannot show is reported")
	case 3:
		err = rd.ImgBase64("t", "!!!")
		sym.Assert(err != nil, "bad base64 is reported")
	case 4:
		err = rd.ImgBase64("t", base64.StdEncoding.EncodeToString([]byte("no image")))
		sym.Assert(err != nil, "what is not an image is reported")
	}
	sameShown(saved(&rd.PDFt), saved(p))
	_, err = render.NewRender(sym.File("none.pdf", nil), fs)
	sym.Assert(err != nil, "a missing template is reported")
}

// C18_Design: the design view shows every field's cell with its key.
func C18_Design() {
	sym.MapOrders(6)
	fs := render.FieldInfos{
		{Key: "A", PageNum: 1, X: 10, Y: 20, W: 60, H: 30, Align: pdft.Left | pdft.Top, Font: "f", Size: 10},
		{Key: "B", PageNum: 2, X: 15, Y: 25, W: 50, H: 20, Align: pdft.Right | pdft.Bottom, Font: "g", Size: 12},
		{Key: "AB", PageNum: 1, X: 100, Y: 200, W: 40, H: 10, Align: pdft.Center | pdft.Middle, Font: "f", Size: 8},
	}
	rd, _ := rendered(fs)
	if rd == nil {
		return
	}
	rd.ShowDesignView()
	f := saved(&rd.PDFt)
	fn := stdFont()
	pages := f.Pages()
	for _, fi := range fs {
		h := []int{800, 500}[fi.PageNum-1]
		texts, lines := 0, 0
		for _, m := range marksOf(f, pages[fi.PageNum-1]) {
			if m.K == 'T' && len(m.Items) == 1+len(fi.Key) && m.Size == float64(fi.Size) {
				ok := m.Items[0].Code == 0 // '#' is not in the font
				for i, r := range fi.Key {
					ok = ok && m.Items[i+1].Code == fn.GlyphOf(int(r))
				}
				if ok {
					texts++
				}
			}
			if m.K == 'L' {
				in := func(x, y float64) bool {
					y = float64(h) - y
					return x >= fi.X-0.06 && x <= fi.X+fi.W+0.06 && y >= fi.Y-0.06 && y <= fi.Y+fi.H+0.06
				}
				if in(m.X, m.Y) && in(m.X2, m.Y2) {
					lines++
				}
			}
		}
		sym.Assert(texts == 1, "every field shows its key once")
		sym.Assert(lines == 4, "every field shows its cell")
	}
}
