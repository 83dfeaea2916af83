package props

import (
	"bytes"
	"encoding/base64"
	"errors"

	"github.com/signintech/pdft"
	"github.com/signintech/pdft/textbreak"
	"symh/pdfx"
	"symh/sym"
)

// mistakes are the calls that cannot be carried out.
const mistakes = 19

// mistake makes the k-th of them; err is what it returned, is the error it must
// be (nil: any).
func mistake(p *pdft.PDFt, k int) (err, is error) {
	fn := stdFont()
	emoji := "AB\U0001F600"
	switch k {
	case 0:
		return p.SetFont("none", "", 10), pdft.ErrFontNameNotFound
	case 1:
		other := stdFont()
		other.Segs = []pdfx.Seg{{Start: 'A', End: 'P', Delta: 5 - 'A'}}
		return p.AddFontFrom("a", bytes.NewReader(other.Bytes())), pdft.ErrAddSameFontName
	case 2:
		return p.AddFont("a", sym.File("f.ttf", fn.Bytes())), pdft.ErrAddSameFontName
	case 3:
		return p.AddFont("b", sym.File("none.ttf", nil)), nil
	case 4:
		return p.AddFontFrom("b", bytes.NewReader([]byte("no font"))), nil
	case 5:
		return p.KernOverride("none", func(l, r rune, lp, rp uint, v int16) int16 { return 0 }), pdft.ErrFontNameNotFound
	case 6:
		return p.TextriseOverride("none", func(l, r rune, s int, t string, i int) float32 { return 0 }), pdft.ErrFontNameNotFound
	case 7:
		return p.Insert(emoji, 1, 1, 2, 3, 4, pdft.Left, nil), nil
	case 8:
		return p.InsertWrapText("AB CD "+emoji, 1, 1, 2, 30, 4, pdft.Left, nil, textbreak.BasicTextbreak{}), nil
	case 9:
		return p.InsertImg([]byte("no image"), 1, 1, 2, 3, 4), nil
	case 10:
		return p.InsertImgWithCache([]byte("no image"), 1, 1, 2, 3, 4), nil
	case 11:
		return p.InsertImgBase64("****", 1, 1, 2, 3, 4), nil
	case 12:
		return p.InsertImgBase64(base64.StdEncoding.EncodeToString(tinyPNG()[:50]), 1, 1, 2, 3, 4), nil
	case 13:
		return p.DuplicatePageAfter(9, 0), pdft.ErrNoDesiredPageToCopy
	case 14:
		return p.RemovePage(9), pdft.ErrNoDesiredPageToRemove
	case 15:
		return p.RemoveOtherPages(9), pdft.ErrNoDesiredPageToKeep
	case 16:
		_, err := p.MeasureTextWidth(emoji)
		return err, nil
	case 17:
		return p.Save(sym.File("none/x.pdf", nil)), nil
	case 18:
		return p.InsertWrapText("AB", 1, 1, 2, 30, 4, pdft.Left, nil, failBreak{}), errBreak
	}
	return nil, nil
}

// C17_Mistakes: two calls that cannot be carried out, anywhere among calls that
// can: each returns its error, and the document shows what it shows without
// them.
func C17_Mistakes() {
	raw := mkTmpl(tpage{content: []byte("q Q")}, tpage{content: []byte("q Q")}).raw
	k0, k1 := sym.Choice("k0", mistakes), sym.Choice("k1", mistakes)
	at0, at1 := sym.Choice("at0", 3), sym.Choice("at1", 3)
	if sym.Tier() == 0 && k0 != k1 && at0 != 1 {
		return
	}
	run := func(wrong bool) *pdfx.File {
		p := open(raw)
		try := func(at int) {
			for i, k := range []int{k0, k1} {
				if !wrong || at != []int{at0, at1}[i] {
					continue
				}
				err, is := mistake(p, k)
				sym.Assert(err != nil, "a call that cannot be carried out returns an error")
				sym.Assert(is == nil || errors.Is(err, is), "the error is the documented one")
			}
		}
		addFont(p, "a", stdFont())
		p.SetFont("a", "", 10)
		try(0)
		sym.Assert(p.Insert("AB", 1, 10, 20, 100, 20, pdft.Left, nil) == nil, "insert succeeds")
		sym.Assert(p.InsertImg(alphaPNG(), 2, 10, 20, 100, 20) == nil, "insert succeeds")
		try(1)
		sym.Assert(p.DuplicatePageAfter(1, 0) == nil, "copying a page succeeds")
		sym.Assert(p.Insert("CD", 2, 10, 20, 100, 20, pdft.Left, nil) == nil, "insert succeeds")
		try(2)
		return saved(p)
	}
	a, b := run(true), run(false)
	sameShown(a, b)
	sym.Assert(a.Live() == b.Live(), "a refused call leaves nothing in the file")
}

// C17_NoFont: texts before a font is chosen, or with a font of another document.
func C17_NoFont() {
	raw := mkTmpl(tpage{content: []byte("q Q")}).raw
	p := open(raw)
	if sym.Bool("added") {
		addFont(p, "a", stdFont())
	}
	var err error
	switch sym.Choice("call", 3) {
	case 0:
		err = p.Insert("A", 1, 1, 2, 3, 4, pdft.Left, nil)
	case 1:
		_, err = p.MeasureTextWidth("A")
	case 2:
		err = p.InsertWrapText("A", 1, 1, 2, 3, 4, pdft.Left, nil, textbreak.BasicTextbreak{})
	}
	sym.Assert(errors.Is(err, pdft.ErrFontNameNotFound), "a text without a font is refused as such")
	f := saved(p)
	sym.Assert(len(marksOf(f, f.Pages()[0])) == 0, "a refused text is not drawn")
}

// C17_Again: a value used for one document and then for another: nothing of the
// first is in the second, whether the first was saved or not; fonts have to be
// added anew.
func C17_Again() {
	raw1 := mkTmpl(tpage{content: []byte("1 w")}, tpage{content: []byte("2 w")}, tpage{content: []byte("3 w")}).raw
	raw2 := mkTmpl(tpage{content: []byte("4 w"), h: 500}).raw
	p := open(raw1)
	addFont(p, "a", stdFont())
	p.SetFont("a", "", 10)
	switch sym.Choice("edit", 4) {
	case 1:
		sym.Assert(p.Insert("AB", 1, 10, 20, 100, 20, pdft.Left, nil) == nil, "insert succeeds")
	case 2:
		sym.Assert(p.InsertImgWithCache(tinyPNG(), 1, 10, 20, 100, 20) == nil, "insert succeeds")
	case 3:
		p.ShowCellBorder(true)
		sym.Assert(p.RemovePage(2) == nil, "removing a page succeeds")
	}
	if sym.Bool("save") {
		save(p)
	}
	sym.Assert(p.OpenFrom(bytes.NewReader(raw2)) == nil, "a conventional template opens")
	q := open(raw2)
	sym.Assert(errors.Is(p.SetFont("a", "", 10), pdft.ErrFontNameNotFound), "fonts belong to a document")
	for _, d := range []*pdft.PDFt{p, q} {
		addFont(d, "a", stdFont())
		d.SetFont("a", "", 12)
		sym.Assert(d.GetNumberOfPage() == 1, "the pages are those of the file opened last")
		sym.Assert(d.Insert("C", 1, 10, 20, 100, 20, pdft.Left, nil) == nil, "insert succeeds")
		sym.Assert(d.InsertImgWithCache(tinyPNG(), 1, 10, 20, 100, 20) == nil, "insert succeeds")
	}
	a, b := saved(p), saved(q)
	sameShown(a, b)
	sym.Assert(a.Live() == b.Live(), "nothing of an earlier document is in the file")
}
