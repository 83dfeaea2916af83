package props

import (
	"github.com/signintech/pdft"
	gopdf "github.com/signintech/pdft/minigopdf"
	"symh/pdfx"
	"symh/sym"
)

// textOf is what a ToUnicode map gives for a two-byte code: the UTF-16 text as
// one number per unit, or nil. It branches only on entries that may match.
func textOf(m *pdfx.CMap, code int) []int {
	hi, lo := code>>8&255, code&255
	ok := false
	for _, s := range m.Spaces {
		sym.Assert(len(s[0]) == 2, "codes have two bytes")
		// ranges are rectangles: each byte lies between its bounds
		ok = sym.Or(ok, sym.And(sym.And(int(s[0][0]) <= hi, hi <= int(s[1][0])), sym.And(int(s[0][1]) <= lo, lo <= int(s[1][1]))))
	}
	sym.Assert(ok, "every code shown lies in the code space")
	for _, r := range m.Ranges {
		sym.Assert(len(r.Lo) == 2 && len(r.Hi) == 2, "codes have two bytes")
		a, b := int(r.Lo[0])<<8|int(r.Lo[1]), int(r.Hi[0])<<8|int(r.Hi[1])
		if sym.Fork(sym.And(a <= code, code <= b)) {
			sym.Assert(len(r.To) > 0 && len(r.To)%2 == 0, "text is given in UTF-16")
			var out []int
			for i := 0; i+1 < len(r.To); i += 2 {
				out = append(out, int(r.To[i])<<8|int(r.To[i+1]))
			}
			if len(out) > 0 {
				out[len(out)-1] += code - a
			}
			return out
		}
	}
	return nil
}

// isUTF16 tells that units are the UTF-16 form of a character.
func isUTF16(u []int, r int) bool {
	switch len(u) {
	case 1:
		return u[0] == r
	case 2:
		v := r - 0x10000
		return sym.And(sym.And(u[0] == 0xD800+v>>10, u[1] == 0xDC00+v&0x3FF), r >= 0x10000)
	}
	return false
}

// C11_Map: the map written for any two characters (of the whole of Unicode)
// with any glyph numbers.
func C11_Map() {
	var s gopdf.SubsetFontObj
	s.CharacterToGlyphIndex = gopdf.NewMapOfCharacterToGlyphIndex()
	var rs, gs [2]int
	for i := range rs {
		rs[i] = sym.Int("r"+itoa(i), 1, 0x10FFFF)
		gs[i] = sym.Int("g"+itoa(i), 0, 0xFFFF)
		sym.Assume(sym.Or(rs[i] < 0xD800, rs[i] > 0xDFFF))
	}
	sym.Assume(sym.And(rs[0] != rs[1], gs[0] != gs[1]))
	n := 1 + sym.Choice("n", 2)
	for i := 0; i < n; i++ {
		s.CharacterToGlyphIndex.Set(rune(rs[i]), uint(gs[i]))
	}
	var u gopdf.UnicodeMap
	u.SetPtrToSubsetFontObj(&s)
	sym.Assert(u.Build(7) == nil, "the map is made")
	d := pdfx.NewDoc()
	d.Obj(1, "<</Type/Catalog>>")
	d.ObjB(2, u.GetObjBuff().Bytes())
	f := pdfx.Parse(d.Bytes(1))
	sym.Assert(f.Problem() == "", "the map object is well-formed: "+f.Problem())
	o := f.Obj(2)
	sym.Assert(o != nil && o.HasStream, "the map is a stream")
	if o == nil {
		return
	}
	m, bad := pdfx.ParseCMap(o.Stream)
	sym.Assert(bad == "", "the map is well-formed: "+bad)
	if m == nil {
		return
	}
	for i := 0; i < n; i++ {
		sym.Assert(isUTF16(textOf(m, gs[i]), rs[i]), "the map leads from the glyph to the character")
	}
}

// toUnicode reads the map of a text's font.
func toUnicode(f *pdfx.File, page int, name string) *pdfx.CMap {
	font := resolves(f, page, "Font", name)
	if font == nil {
		return nil
	}
	b, ok := f.Decoded(f.RefObj(font.V, "ToUnicode"))
	sym.Assert(ok, "the font has a map to Unicode")
	m, bad := pdfx.ParseCMap(b)
	sym.Assert(bad == "", "the map is well-formed: "+bad)
	return m
}

// C11_Text: texts of characters of all UTF-8 lengths, in two calls: the text
// can be read back from the page, character by character (a character that
// shares its glyph with others may come back as one of them).
func C11_Text() {
	p := open(mkTmpl(tpage{content: []byte("q Q")}).raw)
	fn := wideFont()
	addFont(p, "a", fn)
	p.SetFont("a", "", 10)
	var texts []string
	for k := 0; k < 2; k++ {
		t := ""
		n := 2 - k
		for i := 0; i < n; i++ {
			t += wideChars[sym.Choice("c"+itoa(k)+itoa(i), len(wideChars))]
		}
		sym.Assert(p.Insert(t, 1, 10, 20, 100, 20, pdft.Left, nil) == nil, "insert succeeds")
		texts = append(texts, t)
	}
	f := saved(p)
	pg := f.Pages()[0]
	ms := pick(marksOf(f, pg), 'T')
	sym.Assert(len(ms) == 2, "two texts on the page")
	all := []rune(texts[0] + texts[1])
	for k, m := range ms {
		cm := toUnicode(f, pg, m.Name)
		if cm == nil {
			return
		}
		i := 0
		for _, r := range texts[k] {
			u := textOf(cm, m.Items[i].Code)
			hit := isUTF16(u, int(r))
			for _, x := range all {
				if fn.GlyphOf(int(x)) == fn.GlyphOf(int(r)) {
					hit = hit || isUTF16(u, int(x))
				}
			}
			sym.Assert(hit, "the text can be read back from the page")
			i++
		}
	}
}

// C11_Many: a font used for many characters (or for none): the map has them
// all, in blocks of at most 100.
func C11_Many() {
	p := open(mkTmpl(tpage{content: []byte("q Q")}).raw)
	fn := stdFont()
	for len(fn.Glyphs) < 320 {
		fn.Glyphs = append(fn.Glyphs, pdfx.SimpleGlyph(10, 1))
	}
	fn.Segs = []pdfx.Seg{{Start: 0x4E00, End: 0x4E00 + 300, Delta: 1 - 0x4E00}}
	addFont(p, "a", fn)
	addFont(p, "unused", fn)
	p.SetFont("a", "", 10)
	n := []int{1, 99, 100, 101, 200, 260}[sym.Choice("n", 6)]
	text := ""
	for i := 0; i < n; i++ {
		text += string(rune(0x4E00 + i))
	}
	sym.Assert(p.Insert(text, 1, 10, 20, 100, 20, pdft.Left, nil) == nil, "insert succeeds")
	f := saved(p)
	pg := f.Pages()[0]
	m := pick(marksOf(f, pg), 'T')[0]
	cm := toUnicode(f, pg, m.Name)
	if cm == nil {
		return
	}
	sym.Assert(len(m.Items) == n, "all characters are shown")
	for i, it := range m.Items {
		sym.Assert(isUTF16(textOf(cm, it.Code), 0x4E00+i), "the text can be read back from the page")
	}
	for _, e := range f.Get(f.Inherited(pg, "Resources"), "Font").D {
		if o := f.Obj(e.V.I); o != nil && o.V.Get("ToUnicode") != nil {
			toUnicode(f, pg, e.K)
		}
	}
}
