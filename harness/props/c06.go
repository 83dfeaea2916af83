package props

import (
	"errors"
	"strings"

	"github.com/signintech/pdft"
	"github.com/signintech/pdft/textbreak"
	"symh/pdfx"
	"symh/sym"
)

// shown is the text a mark shows, by the glyphs of the font.
func shown(fn *pdfx.TTF, m pdfx.Mark) string {
	out := ""
	for _, it := range m.Items {
		if it.Adj {
			continue
		}
		hit := "?"
		for _, s := range fn.Segs {
			for c := s.Start; c <= s.End; c++ {
				if fn.GlyphOf(c) == it.Code {
					hit = string(rune(c))
				}
			}
		}
		out += hit
	}
	return out
}

// wrapModel: pieces fill a line as long as the line is not wider than w.
func wrapModel(fn *pdfx.TTF, tokens []string, size int, w float64) []string {
	return wrapLines(tokens, w, func(s string) float64 { return textWidth(fn, s, size) })
}

func wrapLines(tokens []string, w float64, width func(string) float64) []string {
	var lines []string
	cur := ""
	for _, t := range tokens {
		if t == "" {
			continue
		}
		if sym.Fork(width(cur+t) > w) {
			if s := strings.TrimSpace(cur); s != "" {
				lines = append(lines, s)
			}
			cur = t
			continue
		}
		cur += t
	}
	if s := strings.TrimSpace(cur); s != "" || (cur != "" && len(lines) == 0) {
		lines = append(lines, s)
	}
	return lines
}

// symText is a text of up to n characters out of A, P and space.
func symText(name string, n int) string {
	n = sym.Choice(name+"len", n+1)
	s := ""
	for i := 0; i < n; i++ {
		s += []string{"A", "P", " "}[sym.Choice(name+itoa(i), 3)]
	}
	return s
}

func checkLines(fn *pdfx.TTF, ms []pdfx.Mark, lines []string, H, x, y, w, h float64, size, align int) {
	sym.Assert(len(ms) == len(lines), "as many lines as the text needs")
	if len(ms) != len(lines) {
		return
	}
	asc := float64(fn.TypoAsc) * float64(size) / float64(fn.UPM)
	desc := float64(fn.TypoDesc) * float64(size) / float64(fn.UPM)
	for k, m := range ms {
		sym.Assert(shown(fn, m) == lines[k], "each line shows its pieces")
		ly := y + float64(k)*1.2*float64(size)
		if align&pdft.Middle != 0 {
			ly -= float64(len(lines))*0.6*float64(size) - float64(size)/2
		}
		tw := textWidth(fn, lines[k], size)
		wx, wy := x, H-ly-asc
		if align&pdft.Right != 0 {
			wx = x + w - tw
		} else if align&pdft.Center != 0 {
			wx = x + w/2 - tw/2
		}
		if align&pdft.Bottom != 0 {
			wy = H - ly - h - desc
		} else if align&pdft.Middle != 0 {
			wy = H - ly - h/2 - (asc+desc)/2
		}
		sym.Assert(near(m.X, wx, cent), "horizontal position of a line")
		sym.Assert(near(m.Y, wy, cent), "vertical position of a line")
		sym.Assert(m.Size == float64(size), "font size of a line")
	}
}

// C06_Greedy: texts of up to 5 (thorough 6) characters out of a narrow and a wide
// letter and the space, split at spaces, in cells of any width (multiples of
// 1/16 up to 80): the lines are the greedy ones.
func C06_Greedy() {
	p := open(mkTmpl(tpage{content: []byte("q Q")}).raw)
	fn := stdFont()
	fn.Adv[1], fn.Adv[16] = 700, 2800 // A and P; the space is as wide as P
	if sym.Bool("narrow") { // spaces narrower than letters
		fn.Adv = append(fn.Adv, 500)
	}
	addFont(p, "a", fn)
	p.SetFont("a", "", 16)
	text := symText("t", 5+sym.Tier())
	w := sym.Float("w", 0, 80)
	err := p.InsertWrapText(text, 1, 20, 30, w, 25, pdft.Left, nil, textbreak.BasicTextbreak{})
	sym.Assert(err == nil, "insert succeeds")
	f := saved(p)
	var tokens []string
	word := ""
	for i := 0; i < len(text); i++ {
		if text[i] == ' ' {
			tokens = append(tokens, word, " ")
			word = ""
		} else {
			word += text[i : i+1]
		}
	}
	tokens = append(tokens, word)
	lines := wrapModel(fn, tokens, 16, w)
	ms := pick(marksOf(f, f.Pages()[0]), 'T')
	checkLines(fn, ms, lines, 800, 20, 30, w, 25, 16, pdft.Left)
}

type pieces struct {
	toks []string
	err  error
}

func (b pieces) BreakTextToToken(string) ([]string, error) { return b.toks, b.err }

var errBreak = errors.New("no words")

// C06_Place: a breaker of the caller's that gives up to 3 pieces without spaces
// (or empty ones), every alignment, sizes 8 and 16, page 1 or 2, any colour:
// each line has the position and looks the single texts would have, on that
// page; without a breaker the text is drawn as one.
func C06_Place() {
	hs := []int{800, 595}
	p := open(mkTmpl(tpage{h: hs[0], content: []byte("q Q")}, tpage{h: hs[1], content: []byte("q Q")}).raw)
	fn := stdFont()
	addFont(p, "a", fn)
	size := []int{8, 16}[sym.Choice("size", 2)]
	p.SetFont("a", "", size)
	align := sym.Choice("align", 64)
	page := 1 + sym.Choice("page", 2)
	x, y := sym.Float("x", 0, 400), sym.Float("y", 0, 400)
	w, h := sym.Float("w", 0, 100), sym.Float("h", 0, 100)
	var br textbreak.TextBreaker
	toks := [][]string{nil, {"AP", "", "BC", "P"}, {"", "A"}}[sym.Choice("toks", 3)]
	text := "AB"
	if toks != nil {
		br = pieces{toks: toks}
		text = strings.Join(toks, "")
	}
	col := &pdft.FontColor{R: 255, G: 128}
	err := p.InsertWrapText(text, page, x, y, w, h, align, col, br)
	sym.Assert(err == nil, "insert succeeds")
	f := saved(p)
	ms := pick(marksOf(f, f.Pages()[page-1]), 'T')
	sym.Assert(len(pick(marksOf(f, f.Pages()[2-page]), 'T')) == 0, "no text on the other page")
	for _, m := range ms {
		sym.Assert(near(m.RGB[0], 1, 0.0055) && near(m.RGB[1], 0.502, 0.0055) && m.RGB[2] == 0, "text colour")
	}
	if toks == nil {
		sym.Assert(len(ms) == 1, "one text without a breaker")
		asc := float64(fn.TypoAsc) * float64(size) / float64(fn.UPM)
		if align == 0 && len(ms) == 1 {
			sym.Assert(near(ms[0].Y, float64(hs[page-1])-y-asc, cent), "vertical position of a line")
		}
		return
	}
	checkLines(fn, ms, wrapModel(fn, toks, size, w), float64(hs[page-1]), x, y, w, h, size, align)
}

// C06_Kern: pair adjustments of any three digits between the last letter of a
// piece and the first of the next: lines are measured as a whole.
func C06_Kern() {
	p := open(mkTmpl(tpage{content: []byte("q Q")}).raw)
	fn := stdFont()
	addFont(p, "a", fn)
	p.SetFont("a", "", 20)
	v := []int{700, -700, -250}[sym.Choice("v", 3)]
	sym.Assert(p.KernOverride("a", func(l, r rune, lg, rg uint, pair int16) int16 {
		if l == 'A' && r == 'B' {
			return int16(v)
		}
		return 0
	}) == nil, "overriding succeeds")
	toks := [][]string{{"A", "B"}, {"A", "BA", "B"}, {"CA", "B", "C", "AB"}, {"A", " ", "B"}}[sym.Choice("toks", 4)]
	w := sym.Float("w", 0, 80)
	sym.Assert(p.InsertWrapText(strings.Join(toks, ""), 1, 20, 30, w, 25, pdft.Left, nil, pieces{toks: toks}) == nil, "insert succeeds")
	f := saved(p)
	lines := wrapLines(toks, w, func(s string) float64 {
		return textWidth(fn, s, 20) + float64(strings.Count(s, "AB")*(v*1000/fn.UPM))*20/1000
	})
	ms := pick(marksOf(f, f.Pages()[0]), 'T')
	sym.Assert(len(ms) == len(lines), "as many lines as the text needs")
	for k := range ms {
		if k < len(lines) {
			sym.Assert(shown(fn, ms[k]) == lines[k], "each line shows its pieces")
		}
	}
}

// C06_Error: when the breaker fails, or no font is chosen, the call fails and
// the document shows nothing new.
func C06_Error() {
	p := open(mkTmpl(tpage{content: []byte("q Q")}).raw)
	var br textbreak.TextBreaker = textbreak.BasicTextbreak{}
	switch sym.Choice("how", 3) {
	case 0:
		addFont(p, "a", stdFont())
		p.SetFont("a", "", 16)
		br = pieces{toks: []string{"A"}, err: errBreak}
	case 1:
		addFont(p, "a", stdFont())
	}
	err := p.InsertWrapText("A B", 1, 20, 30, 10, 25, pdft.Left, nil, br)
	sym.Assert(err != nil, "the failure is reported")
	f := saved(p)
	sym.Assert(len(pick(marksOf(f, f.Pages()[0]), 'T')) == 0, "a failed call draws nothing")
}
