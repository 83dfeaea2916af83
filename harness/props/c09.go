package props

import (
	"github.com/signintech/pdft"
	"symh/pdfx"
	"symh/sym"
)

// cidWidths reads the glyph widths the saved font declares.
func cidWidths(f *pdfx.File, font *pdfx.Obj) map[int]float64 {
	out := map[int]float64{}
	if font == nil {
		return out
	}
	ds := f.Get(font.V, "DescendantFonts")
	sym.Assert(ds != nil && len(ds.A) == 1, "the font has one descendant")
	if ds == nil || len(ds.A) != 1 {
		return out
	}
	w := f.Get(f.Deref(ds.A[0]), "W")
	sym.Assert(w != nil && w.K == 'a', "the font declares its widths")
	if w == nil {
		return out
	}
	for i := 0; i < len(w.A); {
		if i+1 < len(w.A) && w.A[i+1].K == 'a' {
			for k, x := range w.A[i+1].A {
				out[w.A[i].Int()+k] = x.Num()
			}
			i += 2
			continue
		}
		sym.Assert(i+2 < len(w.A), "the width list is well-formed")
		if i+2 >= len(w.A) {
			break
		}
		for c := w.A[i].Int(); c <= w.A[i+1].Int(); c++ {
			out[c] = w.A[i+2].Num()
		}
		i += 3
	}
	return out
}

// drawnWidth is how far a text moves the pen, by the widths in the file.
func drawnWidth(m pdfx.Mark, ws map[int]float64) float64 {
	sum := 0.0
	for _, it := range m.Items {
		if it.Adj {
			sum -= it.Amt
		} else {
			w, ok := ws[it.Code]
			sym.Assert(ok, "every glyph shown has a width")
			sum += w
		}
	}
	return sum * m.Size / 1000
}

// sym16 is any number of two bytes.
func sym16(name string) int {
	b := sym.Bytes(name, 2)
	return int(uint16(b[1]) | uint16(b[0])<<8)
}

// C09_Advance: any advances (0..65535 units) for the glyphs of a text of up to
// three characters, several units per em and sizes: the measured width is the
// sum of the advances, in whole thousandths of the size.
func C09_Advance() {
	p := open(mkTmpl(tpage{content: []byte("q Q")}).raw)
	fn := stdFont()
	fn.UPM = []int{1000, 2048, 1024, 250}[sym.Choice("upm", 4)]
	for _, g := range []int{1, 2, 16} {
		fn.Adv[g] = sym16("adv" + itoa(g))
	}
	addFont(p, "a", fn)
	size := []int{1, 12, 37}[sym.Choice("size", 3)]
	p.SetFont("a", "", size)
	text := ""
	n := sym.Choice("len", 4)
	for i := 0; i < n; i++ {
		text += []string{"A", "B", "P", " "}[sym.Choice("c"+itoa(i), 4)]
	}
	got, err := p.MeasureTextWidth(text)
	sym.Assert(err == nil, "measuring succeeds")
	sum := 0
	for _, r := range text {
		// glyph 17 uses the last metric
		sum += fn.AdvOf(fn.GlyphOf(int(r)))
	}
	sym.Assert(near(got, float64(sum)*float64(size)/1000, 0.0001), "the measured width is the sum of the advances")
}

// C09_Drawn: any advances that come to three digits: the widths written into
// the file are the advances, the space a text takes on the page is the width
// measured, and right alignment uses it.
func C09_Drawn() {
	p := open(mkTmpl(tpage{content: []byte("q Q")}).raw)
	fn := stdFont()
	fn.UPM = []int{1000, 2048, 512}[sym.Choice("upm", 3)]
	k := fn.UPM / 500
	if fn.UPM == 1000 {
		k = 1
	}
	for _, g := range []int{1, 2, 16} {
		fn.Adv[g] = sym16("adv" + itoa(g))
		sym.Assume(sym.And(fn.Adv[g] > (fn.UPM+9)/10, fn.Adv[g] <= fn.UPM-k))
	}
	addFont(p, "a", fn)
	p.SetFont("a", "", 10)
	text := []string{"A", "AB", "BAP", "P "}[sym.Choice("text", 4)]
	got, err := p.MeasureTextWidth(text)
	sym.Assert(err == nil, "measuring succeeds")
	sym.Assert(p.Insert(text, 1, 100, 20, 90, 20, pdft.Right, nil) == nil, "insert succeeds")
	f := saved(p)
	ms := pick(marksOf(f, f.Pages()[0]), 'T')
	sym.Assert(len(ms) == 1, "one text on the page")
	ws := cidWidths(f, resolves(f, f.Pages()[0], "Font", ms[0].Name))
	for _, r := range text {
		g := fn.GlyphOf(int(r))
		sym.Assert(ws[g] == float64(fn.AdvOf(g)), "the file declares the advances of the font")
	}
	sym.Assert(near(drawnWidth(ms[0], ws), got, 0.001), "a text takes the width measured")
	sym.Assert(near(ms[0].X, 190-got, cent), "alignment uses the width measured")
}

// C09_Kern: pair adjustments chosen by the caller, any of three digits (and the
// extreme ones) for one pair, in font units: the pair is moved by that much,
// other pairs are not, the measured width follows, and the caller's function
// sees each pair of neighbours.
func C09_Kern() {
	p := open(mkTmpl(tpage{content: []byte("q Q")}).raw)
	fn := stdFont()
	fn.UPM = []int{1000, 2048}[sym.Choice("upm", 2)]
	addFont(p, "a", fn)
	addFont(p, "b", fn)
	p.SetFont("a", "", 10)
	v := 0
	switch sym.Choice("v", 4) {
	case 0:
		v = sym.Int("pos", 205, 999)
	case 1:
		v = -sym.Int("neg", 205, 999)
	case 2:
		v = []int{0, 1, -1, 3, -3, 32767, -32768}[sym.Choice("x", 7)]
	case 3:
		v = sym.Int("big", 2100, 9999)
	}
	calls := ""
	err := p.KernOverride("a", func(l, r rune, lg, rg uint, pair int16) int16 {
		calls += string(l) + string(r) + " "
		sym.Assert(int(lg) == fn.GlyphOf(int(l)) && int(rg) == fn.GlyphOf(int(r)), "the function sees the glyphs of the pair")
		if l == 'A' && r == 'B' {
			return int16(v)
		}
		return pair
	})
	sym.Assert(err == nil, "overriding succeeds")
	text := []string{"AB", "BA", "CABD", "ABAB", "A"}[sym.Choice("text", 5)]
	got, err := p.MeasureTextWidth(text)
	sym.Assert(err == nil, "measuring succeeds")
	want := ""
	pdfv := v * 1000 / fn.UPM
	sum := 0
	for i := range text {
		sum += fn.AdvOf(fn.GlyphOf(int(text[i])))
		if i > 0 {
			want += text[i-1:i+1] + " "
			if text[i-1:i+1] == "AB" {
				sum += pdfv
			}
		}
	}
	sym.Assert(calls == want, "the function is asked for each pair of neighbours")
	sym.Assert(near(got, float64(sum)/100, 0.001), "the measured width includes the adjustments")
	sym.Assert(p.Insert(text, 1, 100, 20, 90, 20, pdft.Left, nil) == nil, "insert succeeds")
	p.SetFont("b", "", 10)
	sym.Assert(p.Insert(text, 1, 100, 50, 90, 20, pdft.Left, nil) == nil, "insert succeeds")
	f := saved(p)
	ms := pick(marksOf(f, f.Pages()[0]), 'T')
	sym.Assert(len(ms) == 2, "two texts on the page")
	ws := cidWidths(f, resolves(f, f.Pages()[0], "Font", ms[0].Name))
	sym.Assert(near(drawnWidth(ms[0], ws), got, 0.001), "a text takes the width measured")
	// where each glyph stands
	k, at, wat := 0, 0.0, 0
	for _, it := range ms[0].Items {
		if it.Adj {
			at -= it.Amt
			continue
		}
		if k > 0 && k < len(text) && text[k-1:k+1] == "AB" {
			wat += pdfv
		}
		sym.Assert(k < len(text) && it.Code == fn.GlyphOf(int(text[k])), "the glyphs shown are those of the text")
		if k >= len(text) {
			break
		}
		sym.Assert(at == float64(wat), "the pair is moved by the adjustment")
		at += ws[it.Code]
		wat += fn.AdvOf(it.Code)
		k++
	}
	for _, it := range ms[1].Items {
		sym.Assert(!it.Adj, "other fonts are not adjusted")
	}
}

// C09_Rise: text rise chosen by the caller for each character of a text: each
// glyph is raised by it, the function sees the neighbours, the size and the
// position, and texts in other fonts stay on their baseline.
func C09_Rise() {
	p := open(mkTmpl(tpage{content: []byte("q Q")}).raw)
	fn := stdFont()
	addFont(p, "a", fn)
	addFont(p, "b", fn)
	var rise [3]float32
	for i := range rise {
		rise[i] = []float32{0, 2.5, -3.25}[sym.Choice("rise"+itoa(i), 3)]
	}
	text := []string{"A", "AB", "CAB"}[sym.Choice("text", 3)]
	err := p.TextriseOverride("a", func(l, r rune, size int, all string, at int) float32 {
		sym.Assert(size == 10 && all == text && at >= 0 && at < len(text) && r == rune(text[at]), "the function sees the text and the position in it")
		if at > 0 && at < len(text) {
			sym.Assert(l == rune(text[at-1]), "the function sees the character before")
		}
		return rise[at%3]
	})
	sym.Assert(err == nil, "overriding succeeds")
	p.SetFont("a", "", 10)
	got, err := p.MeasureTextWidth(text)
	sym.Assert(err == nil && near(got, textWidth(fn, text, 10), 0.001), "rise does not change the width")
	first := sym.Bool("first")
	ins := func(font string, y float64) {
		p.SetFont(font, "", 10)
		sym.Assert(p.Insert(text, 1, 100, y, 90, 20, pdft.Left, nil) == nil, "insert succeeds")
	}
	if first {
		ins("b", 20)
		ins("a", 50)
	} else {
		ins("a", 50)
		ins("b", 20)
	}
	f := saved(p)
	ms := pick(marksOf(f, f.Pages()[0]), 'T')
	sym.Assert(len(ms) == 2, "two texts on the page")
	a, b := ms[0], ms[1]
	if first {
		a, b = b, a
	}
	sym.Assert(shown(fn, a) == text && shown(fn, b) == text, "the glyphs shown are those of the text")
	for k, it := range a.Items {
		sym.Assert(near(it.Rise, float64(rise[k%3]), cent), "each glyph is raised as asked")
	}
	for _, it := range b.Items {
		sym.Assert(it.Rise == 0, "texts in other fonts are not raised")
	}
}
