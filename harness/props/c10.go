package props

import (
	"bytes"

	"github.com/signintech/pdft"
	"symh/pdfx"
	"symh/sym"
)

// fontFile reads the font program embedded for the only text of page 1.
func fontFile(f *pdfx.File) (desc *pdfx.Val, prog []byte) {
	ms := pick(marksOf(f, f.Pages()[0]), 'T')
	sym.Assert(len(ms) > 0, "the text is on the page")
	font := resolves(f, f.Pages()[0], "Font", ms[0].Name)
	ds := f.Get(font.V, "DescendantFonts")
	sym.Assert(ds != nil && len(ds.A) == 1, "the font has one descendant")
	desc = f.Get(f.Deref(ds.A[0]), "FontDescriptor")
	sym.Assert(desc != nil && desc.K == 'd', "the font has a descriptor")
	o := f.RefObj(desc, "FontFile2")
	sym.Assert(o != nil && o.HasStream, "the font is embedded")
	prog, ok := f.Decoded(o)
	sym.Assert(ok, "the font program can be read")
	n := f.Get(o.V, "Length1")
	sym.Assert(n != nil && n.Int() == len(prog), "the length of the font program is given")
	return desc, prog
}

// glyphIn reads a glyph description out of a font program.
func glyphIn(t map[string]pdfx.Table, g int) []byte {
	loca, glyf := t["loca"].Data, t["glyf"].Data
	a, b := 0, 0
	if pdfx.S16(t["head"].Data, 50) == 0 {
		a, b = 2*pdfx.U16(loca, 2*g), 2*pdfx.U16(loca, 2*g+2)
	} else {
		a, b = pdfx.U32(loca, 4*g), pdfx.U32(loca, 4*g+4)
	}
	sym.Assert(a <= b && b <= len(glyf), "glyph locations are in order and inside the table")
	if a > b || b > len(glyf) {
		return nil
	}
	return glyf[a:b]
}

// checkProgram compares an embedded font program to the font it came from;
// need lists the glyphs that must be there.
func checkProgram(fn *pdfx.TTF, prog []byte, need []int) {
	t, bad := pdfx.Sfnt(prog)
	sym.Assert(bad == "", "the font program is well-formed: "+bad)
	orig, bad := pdfx.Sfnt(fn.Bytes())
	sym.Assert(bad == "", "the font program is well-formed: "+bad)
	for _, tag := range []string{"head", "hhea", "hmtx", "maxp", "cvt ", "fpgm", "prep"} {
		o, have := orig[tag]
		n := t[tag]
		if have {
			sym.Assert(bytes.Equal(o.Data, n.Data), "the tables the glyphs depend on are those of the font")
		} else {
			sym.Assert(len(n.Data) == 0, "a table the font does not have is not made up")
		}
	}
	for _, tag := range []string{"head", "hhea", "hmtx", "maxp", "cvt ", "fpgm", "prep", "glyf", "loca"} {
		if tb, have := t[tag]; have {
			sym.Assert(tb.Sum == pdfx.TableSum(tb.Data), "table checksums are right")
		}
	}
	n := pdfx.U16(t["maxp"].Data, 4)
	sz := 2
	if pdfx.S16(t["head"].Data, 50) != 0 {
		sz = 4
	}
	sym.Assert(len(t["loca"].Data) == sz*(n+1), "there is a location for every glyph")
	for g := 0; g < n; g++ {
		glyphIn(t, g)
	}
	for _, g := range need {
		sym.Assert(bytes.Equal(glyphIn(t, g), fn.Glyphs[g]), "the glyphs shown, and those they are made of, are those of the font")
	}
}

// C10_Closure: a font with simple glyphs (any bytes), an empty glyph, and three
// composite glyphs, the last two made of any glyphs with any combination of
// argument and scale flags (composites of composites included), short or long
// locations; a text of up to three characters, two of which share a glyph.
func C10_Closure() {
	p := open(mkTmpl(tpage{content: []byte("q Q")}).raw)
	fn := stdFont()
	fn.Long = sym.Bool("long")
	sub := func(name string) pdfx.Comp {
		flags := sym.Choice(name+"w", 2) | []int{0, 8, 64, 128}[sym.Choice(name+"f", 4)]
		return pdfx.Comp{Flags: flags}
	}
	g1 := append([]byte{0, 1}, append(sym.Bytes("g1", 3), 1, 2, 3, 4, 5, 6, 7)...)
	g2 := append([]byte{0, 2}, append([]byte{1, 2, 3, 4, 5, 6, 7, 8, 9}, sym.Bytes("g2", 3)...)...)
	a, b, c := sub("a"), pdfx.Comp{}, pdfx.Comp{Flags: 1}
	a.Glyph, b.Glyph = 1, 2+3*sym.Choice("bg", 2) // 2 or the composite 5
	c.Glyph = []int{1, 3, 4, 0}[sym.Choice("cg", 4)]
	fn.Glyphs = [][]byte{
		pdfx.SimpleGlyph(12, 1),
		g1, g2,
		pdfx.CompositeGlyph(a, b),                // 3
		nil,                                      // 4
		pdfx.CompositeGlyph(pdfx.Comp{Glyph: 2}), // 5
		pdfx.CompositeGlyph(c),                   // 6
		pdfx.SimpleGlyph(14, 7),
	}
	fn.Adv = []int{500, 600, 700, 800}
	// A..G are glyphs 1..7, H is glyph 1 again, I glyph 4
	fn.Segs = []pdfx.Seg{{Start: 'A', End: 'G', Delta: 1 - 'A'}, {Start: 'H', End: 'I', IDs: []int{1, 4}}}
	addFont(p, "a", fn)
	p.SetFont("a", "", 10)
	text := []string{"C", "F", "AH", "HAC", "FA", "DIG", "GHF", "z"}[sym.Choice("text", 8)]
	sym.Assert(p.Insert(text, 1, 100, 20, 90, 20, pdft.Left, nil) == nil, "insert succeeds")
	_, prog := fontFile(saved(p))
	comps := map[int][]int{3: {a.Glyph, b.Glyph}, 5: {2}, 6: {c.Glyph}}
	need := []int{0}
	for _, r := range text {
		need = append(need, fn.GlyphOf(int(r)))
	}
	for i := 0; i < len(need) && i < 40; i++ {
		need = append(need, comps[need[i]]...)
	}
	checkProgram(fn, prog, need)
}

// C10_Tables: the font file has its tables in any rotation, with or without
// padding at the end, cvt, fpgm and prep tables of 0..5 bytes (any) or none.
func C10_Tables() {
	p := open(mkTmpl(tpage{content: []byte("q Q")}).raw)
	fn := stdFont()
	mk := func(name string) []byte {
		n := sym.Choice(name, 4)
		if n == 0 {
			return nil
		}
		return sym.Bytes(name+"b", []int{0, 0, 2, 5}[n])
	}
	fn.Cvt, fn.Fpgm, fn.Prep = mk("cvt"), mk("fpgm"), mk("prep")
	fn.NoPad = sym.Bool("nopad")
	fn.Rot = sym.Choice("rot", 13)
	addFont(p, "a", fn)
	p.SetFont("a", "", 10)
	sym.Assert(p.Insert("AP B", 1, 100, 20, 90, 20, pdft.Left, nil) == nil, "insert succeeds")
	_, prog := fontFile(saved(p))
	checkProgram(fn, prog, []int{0, 1, 2, 16, 17})
}

// C10_More: texts added in several calls, in two fonts: each font program has
// the glyphs of all texts in that font.
func C10_More() {
	p := open(mkTmpl(tpage{content: []byte("q Q")}).raw)
	fa, fb := stdFont(), stdFont()
	for i := range fb.Glyphs {
		fb.Glyphs[i] = pdfx.SimpleGlyph(16, byte(100+i))
	}
	addFont(p, "a", fa)
	addFont(p, "b", fb)
	need := [2][]int{{0}, {0}}
	fns := []*pdfx.TTF{fa, fb}
	for k := 0; k < 3; k++ {
		w := sym.Choice("font"+itoa(k), 2)
		p.SetFont([]string{"a", "b"}[w], "", 10)
		text := []string{"A", "BA", "PO", ""}[sym.Choice("text"+itoa(k), 4)]
		sym.Assert(p.Insert(text, 1, 100, 20, 90, 20, pdft.Left, nil) == nil, "insert succeeds")
		for _, r := range text {
			need[w] = append(need[w], fns[w].GlyphOf(int(r)))
		}
	}
	f := saved(p)
	for _, m := range pick(marksOf(f, f.Pages()[0]), 'T') {
		font := resolves(f, f.Pages()[0], "Font", m.Name)
		bf := f.Get(font.V, "BaseFont")
		w := 0
		if bf.S == "b" {
			w = 1
		}
		desc := f.Get(f.Deref(f.Get(font.V, "DescendantFonts").A[0]), "FontDescriptor")
		prog, ok := f.Decoded(f.RefObj(desc, "FontFile2"))
		sym.Assert(ok, "the font program can be read")
		checkProgram(fns[w], prog, need[w])
	}
}

// C10_Descriptor: the descriptor gives the metrics of the font, in thousandths.
func C10_Descriptor() {
	p := open(mkTmpl(tpage{content: []byte("q Q")}).raw)
	fn := stdFont()
	fn.UPM = []int{1000, 2048}[sym.Choice("upm", 2)]
	rnd := func(v int) float64 {
		if fn.UPM == 1000 {
			return float64(v)
		}
		if v < 0 {
			return -float64((-v*2000 + fn.UPM) / (2 * fn.UPM))
		}
		return float64((v*2000 + fn.UPM) / (2 * fn.UPM))
	}
	if fn.UPM == 1000 {
		fn.WinAsc = sym.Int("winasc", 100, 999)
		fn.WinDesc = sym.Int("windesc", 100, 999)
		fn.CapH = sym.Int("cap", 100, 999)
		fn.XMin = -sym.Int("xmin", 100, 999)
		fn.YMax = sym.Int("ymax", 1000, 9999)
	}
	fn.Italic = []int{0, -12, 7}[sym.Choice("italic", 3)]
	addFont(p, "a", fn)
	p.SetFont("a", "", 10)
	sym.Assert(p.Insert("A", 1, 100, 20, 90, 20, pdft.Left, nil) == nil, "insert succeeds")
	f := saved(p)
	desc, _ := fontFile(f)
	num := func(k string) float64 { return f.Get(desc, k).Num() }
	sym.Assert(num("Ascent") == rnd(fn.WinAsc), "Ascent")
	sym.Assert(num("Descent") == rnd(-fn.WinDesc), "Descent")
	sym.Assert(num("CapHeight") == rnd(fn.CapH), "CapHeight")
	sym.Assert(num("ItalicAngle") == float64(fn.Italic), "ItalicAngle")
	bb := f.Get(desc, "FontBBox")
	sym.Assert(bb != nil && len(bb.A) == 4, "FontBBox has four numbers")
	for i, v := range []int{fn.XMin, fn.YMin, fn.XMax, fn.YMax} {
		sym.Assert(bb.A[i].Num() == rnd(v), "FontBBox")
	}
}

// C10_Family: a font added under a name with any one or two characters (the second one of
// those that have a meaning in the file), in a template or a document of its own:
// the file is whole, and the font, its descendant and its descriptor have the same name.
func C10_Family() {
	fam := "f" + string(sym.Bytes("a", 1))
	if k := sym.Choice("b", 9); k > 0 {
		fam += "#()</% \n"[k-1 : k]
	}
	var raw []byte
	if sym.Bool("own") {
		g := begin(595, 842, false)
		g.AddPage()
		ownFont(g, fam, stdFont())
		sym.Assert(g.SetFont(fam, "", 10) == nil, "a font that was added can be chosen")
		sym.Assert(g.Text("AB") == nil, "writing a text succeeds")
		raw = written(g)
	} else {
		p := open(mkTmpl(tpage{content: []byte("q Q")}).raw)
		addFont(p, fam, stdFont())
		sym.Assert(p.SetFont(fam, "", 10) == nil, "a font that was added can be chosen")
		sym.Assert(p.Insert("AB", 1, 100, 20, 90, 20, pdft.Left, nil) == nil, "insert succeeds")
		raw = save(p)
	}
	wholeFile(raw, false)
	f := pdfx.Parse(raw)
	desc, _ := fontFile(f)
	ms := pick(marksOf(f, f.Pages()[0]), 'T')
	font := resolves(f, f.Pages()[0], "Font", ms[0].Name)
	cid := f.Deref(f.Get(font.V, "DescendantFonts").A[0])
	n := f.Get(font.V, "BaseFont")
	sym.Assert(n != nil && n.K == '/' && n.S != "", "the font has a name")
	for _, m := range []*pdfx.Val{f.Get(cid, "BaseFont"), f.Get(desc, "FontName")} {
		sym.Assert(m != nil && m.K == '/' && m.S == n.S, "the font, its descendant and its descriptor have the same name")
	}
}
