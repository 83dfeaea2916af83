package props

import (
	"strings"

	"github.com/signintech/pdft"
	"github.com/signintech/pdft/textbreak"
	"symh/sym"
)

// C07_Tokens: any text of up to five bytes (valid UTF-8 or not).
func C07_Tokens() {
	n := sym.Choice("n", 6)
	if sym.Tier() == 0 && n > 4 {
		n = 4
	}
	b := sym.Bytes("t", n)
	text := string(b)
	toks, err := textbreak.BasicTextbreak{}.BreakTextToToken(text)
	sym.Assert(err == nil, "any text can be broken")
	// what the text means: bad bytes count as U+FFFD
	var want []byte
	for _, r := range text {
		want = append(want, string(r)...)
	}
	got := []byte(strings.Join(toks, ""))
	sym.Assert(len(got) == len(want), "no part of the text is lost or added")
	same := true
	for i := 0; i < len(got) && i < len(want); i++ {
		same = sym.And(same, got[i] == want[i])
	}
	sym.Assert(same, "the tokens are the text, in order")
	blank := 0
	for _, t := range toks {
		if t == " " {
			blank++
			continue
		}
		sym.Assert(strings.IndexByte(t, ' ') < 0, "a token is one blank or has none")
	}
	// two words are never run into each other, nor is one torn apart
	for i := 1; i < len(toks); i++ {
		sym.Assert(toks[i] == " " || toks[i-1] == " ", "words are broken at blanks only")
	}
	sym.Assert(blank == strings.Count(text, " "), "every blank is a token")
}

// C07_Wrapped: a text of letters and blanks wrapped with the basic breaker into
// any width: the lines read back from the page hold its words, whole and in
// order.
func C07_Wrapped() {
	p := open(mkTmpl(tpage{content: []byte("q Q")}).raw)
	fn := stdFont()
	addFont(p, "a", fn)
	p.SetFont("a", "", 10)
	texts := []string{"AB C", "A  B", " AB", "AB ", "A B C D", "ABCD EF", "A", " ", "", "AB CD  EF "}
	text := texts[sym.Choice("text", len(texts))]
	w := float64(sym.Int("w", 0, 60*16)) / 16
	err := p.InsertWrapText(text, 1, 10, 20, w, 200, pdft.Left, nil, textbreak.BasicTextbreak{})
	sym.Assert(err == nil, "wrapping succeeds")
	f := saved(p)
	ms := pick(marksOf(f, f.Pages()[0]), 'T')
	var words []string
	lastY := 1e9
	for _, m := range ms {
		sym.Assert(m.Y < lastY, "each line is below the one before")
		lastY = m.Y
		line := ""
		for _, it := range m.Items {
			if it.Adj {
				continue
			}
			if it.Code == fn.GlyphOf(' ') {
				line += " "
			} else {
				line += string(rune('A' + it.Code - 1))
			}
		}
		words = append(words, strings.Fields(line)...)
	}
	want := strings.Fields(text)
	sym.Assert(strings.Join(words, "|") == strings.Join(want, "|"), "the lines hold the words of the text, whole and in order")
}
