package props

import (
	"bytes"

	"github.com/signintech/pdft"
	gopdf "github.com/signintech/pdft/minigopdf"
	"symh/pdfx"
	"symh/sym"
)

// anyRune is any character number.
func anyRune(name string) int {
	return sym.Int(name, 0, 0x10FFFF)
}

// refGlyph reads the mapping of a font the way its format defines it; -1 means
// none (only beyond the first 65536 characters).
func refGlyph(t *pdfx.TTF, r int) int {
	g := 0
	done := false
	if sym.Fork(r > 0xFFFF) {
		g = -1
		for _, x := range t.Groups {
			hit := sym.And(!done, sym.And(r >= x.Start, r <= x.End))
			g = sym.IteInt(hit, x.Glyph+r-x.Start, g)
			done = sym.Or(done, hit)
		}
		return g
	}
	for _, s := range t.Segs {
		if s.IDs == nil {
			hit := sym.And(r >= s.Start, r <= s.End)
			g = sym.IteInt(hit, (r+s.Delta)&0xFFFF, g)
			continue
		}
		for i, id := range s.IDs {
			v := sym.IteInt(id == 0, 0, (id+s.Delta)&0xFFFF)
			g = sym.IteInt(r == s.Start+i, v, g)
		}
	}
	return g
}

func parseFont(t *pdfx.TTF) *gopdf.SubsetFontObj {
	var s gopdf.SubsetFontObj
	err := s.SetTTFByReader(bytes.NewReader(t.Bytes()))
	sym.Assert(err == nil, "a valid font is accepted")
	return &s
}

// C08_Basic: every character of the basic plane in a font with delta segments
// (any delta) and segments that go through the glyph array (any entries and
// delta), in several layouts: the glyph is the one the character map gives,
// or glyph 0.
func C08_Basic() {
	t := stdFont()
	d1, d2 := sym.Int("d1", 0, 0xFFFF), sym.Int("d2", 0, 0xFFFF)
	var ids []int
	for i := 0; i < 3; i++ {
		ids = append(ids, sym.Int("id"+itoa(i), 0, 0xFFFF))
	}
	switch sym.Choice("layout", 5) {
	case 0:
		t.Segs = []pdfx.Seg{{Start: 0x41, End: 0x43, Delta: d1}}
	case 1:
		t.Segs = []pdfx.Seg{{Start: 0x41, End: 0x42, Delta: d1}, {Start: 0x45, End: 0x46, Delta: d2}}
	case 2:
		t.Segs = []pdfx.Seg{{Start: 0x41, End: 0x43, Delta: 0, IDs: ids}}
	case 3:
		t.Segs = []pdfx.Seg{{Start: 0x41, End: 0x41, Delta: d1}, {Start: 0x0E01, End: 0x0E02, Delta: d2, IDs: ids[:2]}, {Start: 0x0E10, End: 0x0E10, IDs: ids[2:]}}
	case 4:
		t.Segs = []pdfx.Seg{{Start: 0x20, End: 0x21, Delta: 5, IDs: ids[:2]}, {Start: 0xFFFD, End: 0xFFFE, Delta: d1}}
	}
	s := parseFont(t)
	r := sym.Int("r", 0, 0xFFFF)
	g, err := s.CharCodeToGlyphIndex(rune(r))
	sym.Assert(err == nil, "every character of the basic plane has a glyph, if only glyph 0")
	sym.Assert(int(g) == refGlyph(t, r), "the glyph is the one the font gives for the character")
}

// C08_Full: every character beyond the basic plane in a font with up to three
// groups with any bounds and glyph numbers.
func C08_Full() {
	t := stdFont()
	n := sym.Choice("groups", 4)
	lo := 0x10000
	for i := 0; i < n; i++ {
		g := pdfx.Group{Start: sym.Int("s"+itoa(i), 0, 0x10FFFF), End: sym.Int("e"+itoa(i), 0, 0x10FFFF), Glyph: sym.Int("g"+itoa(i), 0, 0xFFFF)}
		sym.Assume(sym.And(g.Start <= g.End, g.Start >= lo))
		lo = g.End + 1
		t.Groups = append(t.Groups, g)
	}
	s := parseFont(t)
	r := sym.Int("r", 0x10000, 0x10FFFF)
	g, err := s.CharCodeToGlyphIndex(rune(r))
	want := refGlyph(t, r)
	if err != nil {
		sym.Assert(want == -1, "a character the font has is found")
		return
	}
	sym.Assert(int(g) == want, "the glyph is the one the font gives for the character")
}

// wideFont maps characters of one to four bytes, some to the same glyph.
func wideFont() *pdfx.TTF {
	t := stdFont()
	t.Segs = []pdfx.Seg{
		{Start: 32, End: 32, Delta: 17 - 32},
		{Start: 'A', End: 'F', Delta: 1 - 'A'},
		{Start: 'a', End: 'c', IDs: []int{3, 0, 7}},
		{Start: 0xE9, End: 0xE9, Delta: 8 - 0xE9},
		{Start: 0xE01, End: 0xE02, Delta: 9 - 0xE01},
		{Start: 0x20AC, End: 0x20AC, Delta: 11 - 0x20AC},
	}
	t.Groups = []pdfx.Group{{Start: 0x1F600, End: 0x1F602, Glyph: 12}, {Start: 0x20000, End: 0x20000, Glyph: 15}}
	return t
}

var wideChars = []string{"A", "F", "a", "b", "\u00e9", "\u0e02", "\u20ac", "\U0001F602", "\U00020000", "Z", " ", "\uFFFF"}

// C08_Shown: texts of two (thorough three) characters of all UTF-8 lengths: the page shows exactly their
// glyphs, in order; a text with a character that has no glyph at all is
// refused.
func C08_Shown() {
	p := open(mkTmpl(tpage{content: []byte("q Q")}).raw)
	fn := wideFont()
	addFont(p, "a", fn)
	p.SetFont("a", "", 10)
	text := ""
	n := 2 + sym.Tier()
	for i := 0; i < n; i++ {
		text += wideChars[sym.Choice("c"+itoa(i), len(wideChars))]
	}
	bad := sym.Choice("bad", 3)
	if bad == 1 {
		text += "\U0001F603"
	} else if bad == 2 {
		text = "\U0001FFFF" + text
	}
	err := p.Insert(text, 1, 10, 20, 100, 20, pdft.Left, nil)
	if bad != 0 {
		sym.Assert(err != nil, "a character without any glyph is refused")
		f := saved(p)
		sym.Assert(len(marksOf(f, f.Pages()[0])) == 0, "a refused text leaves nothing on the page")
		return
	}
	sym.Assert(err == nil, "insert succeeds")
	f := saved(p)
	ms := pick(marksOf(f, f.Pages()[0]), 'T')
	sym.Assert(len(ms) == 1, "one text on the page")
	k := 0
	for _, r := range text {
		sym.Assert(k < len(ms[0].Items) && ms[0].Items[k].Code == fn.GlyphOf(int(r)), "the glyphs shown are those of the text")
		k++
	}
	sym.Assert(k == len(ms[0].Items), "the glyphs shown are those of the text")
}
