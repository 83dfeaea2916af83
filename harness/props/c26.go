package props

import (
	"bytes"

	gopdf "github.com/signintech/pdft/minigopdf"
	"symh/pdfx"
	"symh/sym"
)

// kernFont has tables of pairs of several kinds; pairs gives what they amount to
// for the letters A (glyph 1) to C (glyph 3). One pair of the first table is v.
func kernFont(n, v0 int) (t *pdfx.TTF, pairs map[[2]int]int) {
	t = stdFont()
	t.UPM = []int{1000, 2048}[sym.Choice("upm", 2)]
	pairs = map[[2]int]int{}
	for i := 0; i < n; i++ {
		tag := itoa(i)
		sub := pdfx.KernSub{Coverage: []int{1, 9, 3, 5, 0, 0x201}[sym.Choice("kind"+tag, 6)]}
		var ps [][2]int
		switch sym.Choice("pairs"+tag, 3) {
		case 0:
			ps = [][2]int{{1, 2}}
		case 1:
			ps = [][2]int{{1, 2}, {1, 3}, {2, 1}}
		case 2:
			ps = [][2]int{{2, 1}, {3, 1}}
		}
		for j, lr := range ps {
			v := 100*i + 37*j - 50
			if i == 0 && j == 0 {
				v = v0
			}
			sub.Pairs = append(sub.Pairs, pdfx.KernPair{L: lr[0], R: lr[1], V: v})
			switch sub.Coverage {
			case 1:
				pairs[lr] += v
			case 9:
				pairs[lr] = v
			}
		}
		sub.Tail = []int{0, 4}[sym.Choice("tail"+tag, 2)]
		if i == n-1 && sym.Bool("short") {
			sub.Length = 14 // tables with many pairs have a length that is too small
		}
		t.KernSubs = append(t.KernSubs, sub)
	}
	return
}

// kernVal is an adjustment of any three digits, or one of some others.
func kernVal(name string) int {
	if sym.Bool(name) {
		return sym.Int(name+"pos", 205, 999)
	}
	return []int{0, 1, -1, -3, -77, -205, -999, -2047, -2048, 2047, 32767, -32768}[sym.Choice(name+"x", 12)]
}

// kerned asserts that a drawn text has the adjustments of its pairs, and gives its width.
func kerned(m pdfx.Mark, t *pdfx.TTF, text string, pairs map[[2]int]int) (width float64) {
	k, at, prev := 0, 0.0, 0
	want := 0.0
	for _, it := range m.Items {
		if it.Adj {
			at -= it.Amt
			continue
		}
		sym.Assert(k < len(text), "every character is shown once")
		if k >= len(text) {
			return
		}
		g := t.GlyphOf(int(text[k]))
		sym.Assert(it.Code == g, "the characters are shown in order")
		if k > 0 {
			want += float64(pairs[[2]int{prev, g}]) * 1000 / float64(t.UPM)
		}
		sym.Assert(near(at, want, float64(k)), "a character stands where the pair's adjustment puts it")
		at += float64(t.AdvOf(g))
		want += float64(t.AdvOf(g))
		prev = g
		k++
	}
	sym.Assert(k == len(text), "every character is shown")
	return at * m.Size / 1000
}

// C26_Table: fonts with one or two tables of pairs (thorough: three) of all
// kinds: with kerning switched on, neighbours are moved by what the tables for
// horizontal text amount to, and the position and the measured width follow;
// without, they are not moved.
func C26_Table() {
	t, pairs := kernFont(1+sym.Choice("tables", 2+sym.Tier()), -50)
	kernedText(t, pairs, []string{"ABA", "CABAC"}[sym.Choice("text", 2)], sym.Choice("off", 2) == 0)
}

// C26_Value: a font with a table of one, two or three pairs, one of any three digits
// or some extreme values.
func C26_Value() {
	v := kernVal("v")
	t := stdFont()
	t.UPM = []int{1000, 2048}[sym.Choice("upm", 2)]
	pairs := map[[2]int]int{{1, 2}: v}
	sub := pdfx.KernSub{Coverage: 1, Pairs: []pdfx.KernPair{{L: 1, R: 2, V: v}}}
	if sym.Bool("more") {
		sub.Pairs = append(sub.Pairs, pdfx.KernPair{L: 1, R: 3, V: 70}, pdfx.KernPair{L: 2, R: 1, V: -70})
		pairs[[2]int{1, 3}], pairs[[2]int{2, 1}] = 70, -70
	}
	t.KernSubs = []pdfx.KernSub{sub}
	kernedText(t, pairs, []string{"ABA", "BA", "CAB"}[sym.Choice("text", 3)], true)
}

// kernedText writes a text with such a font.
func kernedText(t *pdfx.TTF, pairs map[[2]int]int, text string, on bool) {
	if !on {
		pairs = nil
	}
	g := &gopdf.GoPdf{}
	g.Start(gopdf.Config{PageSize: gopdf.Rect{W: 595, H: 842}})
	g.SetNoCompression()
	g.AddPage()
	sym.Assert(g.AddTTFFontByReaderWithOption("a", bytes.NewReader(t.Bytes()), gopdf.TtfOption{UseKerning: on}) == nil, "a valid font is accepted")
	sym.Assert(g.SetFont("a", "", 10) == nil, "a font that was added can be chosen")
	w, err := g.MeasureTextWidth(text)
	sym.Assert(err == nil, "measuring succeeds")
	g.SetX(50)
	g.SetY(60)
	sym.Assert(g.Text(text) == nil, "writing a text succeeds")
	f := parsed(written(g))
	ms := pick(drawnOn(f, f.Pages()[0]), 'T')
	sym.Assert(len(ms) == 1, "the text is drawn once")
	if len(ms) != 1 {
		return
	}
	drawn := kerned(ms[0], t, text, pairs)
	sym.Assert(near(drawn, w, 0.001), "a text takes the width measured")
	sym.Assert(near(g.GetX(), 50+drawn, 0.001), "the position moves to the end of the text")
}

// C26_Override: a function that changes the adjustments sees every pair of
// neighbours with the font's own value, in a font with or without pairs; what it
// returns is what is drawn. A font of another name is not concerned; the cell's alignment goes by the adjusted width.
func C26_Override() {
	t := stdFont()
	t.UPM = 1000
	own := map[[2]int]int{}
	if sym.Bool("pairs") {
		v := []int{-40, 250}[sym.Choice("own", 2)]
		own[[2]int{1, 2}], own[[2]int{2, 1}] = v, -77
		t.KernSubs = []pdfx.KernSub{{Coverage: 1, Pairs: []pdfx.KernPair{{L: 1, R: 2, V: v}, {L: 2, R: 1, V: -77}}}}
	}
	g := begin(595, 842, false)
	g.AddPage()
	for _, n := range []string{"k", "l"} {
		sym.Assert(g.AddTTFFontByReaderWithOption(n, bytes.NewReader(t.Bytes()), gopdf.TtfOption{UseKerning: true}) == nil, "a valid font is accepted")
	}
	v := kernVal("v")
	text := []string{"ABA", "BAAB", "CB"}[sym.Choice("text", 3)]
	seen := ""
	sym.Assert(g.KernOverride("k", func(l, r rune, lg, rg uint, pair int16) int16 {
		seen += string(l) + string(r) + " "
		sym.Assert(int(lg) == t.GlyphOf(int(l)) && int(rg) == t.GlyphOf(int(r)), "the function sees the glyphs of the pair")
		sym.Assert(int(pair) == own[[2]int{int(lg), int(rg)}], "the function sees the font's own value")
		if l == 'A' && r == 'B' {
			return int16(v)
		}
		return pair
	}) == nil, "overriding succeeds")
	sym.Assert(g.KernOverride("none", nil) != nil, "a font that was not added cannot be changed")
	want := ""
	for i := 1; i < len(text); i++ {
		want += text[i-1:i+1] + " "
	}
	right := sym.Bool("right")
	opt := gopdf.CellOption{Align: gopdf.Left | gopdf.Top, Float: gopdf.Right}
	if right {
		opt.Align = gopdf.Right | gopdf.Top
	}
	var ws []float64
	for i, n := range []string{"k", "l"} {
		sym.Assert(g.SetFont(n, "", 10) == nil, "a font that was added can be chosen")
		w, err := g.MeasureTextWidth(text)
		sym.Assert(err == nil, "measuring succeeds")
		if i == 0 {
			sym.Assert(seen == want, "the function is asked for each pair of neighbours")
		}
		ws = append(ws, w)
		g.SetX(100)
		g.SetY(float64(50 + 50*i))
		sym.Assert(g.CellWithOption(&gopdf.Rect{W: 200, H: 20}, text, opt) == nil, "writing a cell succeeds")
	}
	f := parsed(written(g))
	ms := pick(drawnOn(f, f.Pages()[0]), 'T')
	sym.Assert(len(ms) == 2, "each text is drawn once")
	if len(ms) != 2 {
		return
	}
	for i, m := range ms {
		pairs := map[[2]int]int{{1, 2}: own[[2]int{1, 2}], {2, 1}: own[[2]int{2, 1}]}
		if i == 0 {
			pairs[[2]int{1, 2}] = v
		}
		drawn := kerned(m, t, text, pairs)
		sym.Assert(near(drawn, ws[i], 0.001), "a text takes the width measured")
		x := 100.0
		if right {
			x += 200 - drawn
		}
		sym.Assert(near(m.X, x, 0.02), "the text is aligned by its adjusted width")
	}
}

// C26_Own: the font's own value that the function sees is the one in the
// file, any of 16 bits, also where two tables add up to it.
func C26_Own() {
	t := stdFont()
	u := sym.Int("u", 0, 65535)
	v := u
	if sym.Fork(u >= 32768) {
		v -= 65536
	}
	t.KernSubs = []pdfx.KernSub{{Coverage: 1, Pairs: []pdfx.KernPair{{L: 1, R: 2, V: u}, {L: 2, R: 1, V: 5}}}}
	switch sym.Choice("second", 3) {
	case 1:
		sym.Assume(sym.And(v > -32000, v < 32000))
		t.KernSubs = append(t.KernSubs, pdfx.KernSub{Coverage: 1, Pairs: []pdfx.KernPair{{L: 1, R: 2, V: -300}}})
		v -= 300
	case 2:
		t.KernSubs = append([]pdfx.KernSub{{Coverage: 1, Pairs: []pdfx.KernPair{{L: 1, R: 2, V: -300}}}}, t.KernSubs...)
		t.KernSubs[1].Coverage = 9
	}
	g := begin(595, 842, false)
	g.AddPage()
	sym.Assert(g.AddTTFFontByReaderWithOption("k", bytes.NewReader(t.Bytes()), gopdf.TtfOption{UseKerning: true}) == nil, "a valid font is accepted")
	n := 0
	g.KernOverride("k", func(l, r rune, lg, rg uint, pair int16) int16 {
		if l == 'A' {
			n++
			sym.Assert(int(pair) == v, "the function sees the font's own value")
		} else {
			sym.Assert(int(pair) == 5, "the function sees the font's own value of the other pair")
		}
		return 0
	})
	sym.Assert(g.SetFont("k", "", 10) == nil, "a font that was added can be chosen")
	_, err := g.MeasureTextWidth("ABAB")
	sym.Assert(err == nil && n == 2, "the function is asked for each pair")
}
