package props

import (
	"bytes"
	"errors"
	"io"

	"github.com/signintech/pdft"
	"symh/pdfx"
	"symh/sym"
)

type scenario struct {
	font, text, dup, prot bool
	img                   int
	contents              []byte
}

func symScenario() scenario {
	var s scenario
	s.font = sym.Bool("font")
	s.text = s.font && sym.Bool("text")
	s.img = sym.Choice("img", 3)
	s.dup = sym.Bool("dup")
	s.prot = sym.Bool("prot")
	s.contents = symContent("c", 4)
	return s
}

func (s scenario) start() *pdft.PDFt {
	t := mkTmpl(tpage{content: s.contents}, tpage{content: []byte("q Q"), h: 500})
	p := open(t.raw)
	if s.font {
		addFont(p, "a", stdFont())
		p.SetFont("a", "", 10)
	}
	return p
}

func (s scenario) apply(p *pdft.PDFt, round int) {
	if s.dup {
		err := p.DuplicatePageAfter(1, 0)
		sym.Assert(err == nil, "duplicating a page succeeds")
	}
	if s.text {
		err := p.Insert("AB", 1, float64(10+round), 20, 100, 20, pdft.Left, nil)
		sym.Assert(err == nil, "insert succeeds")
	}
	if s.img > 0 {
		im := tinyPNG()
		if s.img == 2 {
			im = alphaPNG()
		}
		err := p.InsertImg(im, 2, 10, float64(20+round), 30, 40)
		sym.Assert(err == nil, "insert succeeds")
	}
	if s.prot {
		err := p.SetProtection(4, []byte("user"), []byte("owner"))
		sym.Assert(err == nil, "protecting succeeds")
	}
}

func alphaPNG() []byte {
	p := pdfx.PNG{W: 1, H: 1, Depth: 8, Color: 6, Raw: []byte{0, 1, 2, 3, 4}}
	return p.Bytes()
}

func sameBytes(a, b []byte, msg string) {
	if len(a) != len(b) {
		sym.Assert(false, msg)
		return
	}
	eq := true
	for i := range a {
		eq = sym.And(eq, a[i] == b[i])
	}
	sym.Assert(eq, msg)
}

// C16_Twice: a document with any mix of text, image (with or without alpha),
// duplicated page and protection, and an arbitrary 4-letter page content:
// saving it again gives the same bytes, and saving before adding more does not
// change what the final document is.
func C16_Twice() {
	s := symScenario()
	p := s.start()
	s.apply(p, 0)
	a := save(p)
	b := save(p)
	sameBytes(a, b, "a second save gives the same document")
	s.apply(p, 1)
	c := save(p)
	q := s.start()
	s.apply(q, 0)
	s.apply(q, 1)
	d := save(q)
	sameBytes(c, d, "a document saved earlier ends up the same")
	parsed(c)
}

// C16_Inputs: the caller's image bytes, template bytes, font bytes and password
// slices (with spare capacity behind them) are as they were after everything.
func C16_Inputs() {
	n := 1 + sym.Choice("ulen", 2)
	backing := []byte("abcdefghijklmnopabcdefghijklmnopabcdefgh")
	keep := append([]byte(nil), backing...)
	user := backing[:n]
	owner := backing[n : n+1+sym.Choice("olen", 2)]
	raw := mkTmpl(tpage{content: symContent("c", 3)}).raw
	rawKeep := append([]byte(nil), raw...)
	img := alphaPNG()
	imgKeep := append([]byte(nil), img...)
	var p pdft.PDFt
	sym.Assert(p.OpenFrom(bytes.NewReader(raw)) == nil, "a conventional template opens")
	sym.Assert(p.InsertImg(img, 1, 1, 2, 3, 4) == nil, "insert succeeds")
	sym.Assert(p.InsertImgWithCache(img, 1, 1, 2, 3, 4) == nil, "insert succeeds")
	if sym.Bool("prot") {
		sym.Assert(p.SetProtection(4, user, owner) == nil, "protecting succeeds")
	}
	save(&p)
	sameBytes(backing, keep, "passwords are not modified")
	sameBytes(raw, rawKeep, "the template bytes are not modified")
	sameBytes(img, imgKeep, "the image bytes are not modified")
}

// C16_Path: saving to a path leaves exactly the bytes a save to a writer gives,
// also where a longer or shorter file was before.
func C16_Path() {
	s := symScenario()
	s.prot = false
	p := s.start()
	s.apply(p, 0)
	b := save(p)
	var old []byte
	switch sym.Choice("old", 3) {
	case 1:
		old = []byte("short")
	case 2:
		old = append(append(old, b...), "and more"...)
	}
	path := sym.File("out.pdf", old)
	err := p.Save(path)
	sym.Assert(err == nil, "saving succeeds")
	sameBytes(sym.ReadBack(path), b, "both ways of saving give the same document")
}

type failWriter struct {
	left int
	err  error
}

var errFull = errors.New("full")

func (w *failWriter) Write(b []byte) (int, error) {
	if len(b) > w.left {
		n := w.left
		w.left = 0
		return n, w.err
	}
	w.left -= len(b)
	return len(b), nil
}

// C16_WriteError: a writer that fails after any number of bytes short of the file size makes
// the save report an error, whichever error it gives, also when it only returns
// a short count.
func C16_WriteError() {
	p := open(mkTmpl(tpage{content: symContent("c", 3)}).raw)
	n := len(save(p))
	left := sym.Int("left", 0, 2000)
	sym.Assume(left < n)
	e := []error{errFull, nil, io.EOF, io.ErrShortWrite, io.ErrUnexpectedEOF}[sym.Choice("how", 5)]
	err := p.SaveTo(&failWriter{left: left, err: e})
	sym.Assert(err != nil, "a failed write is reported")
}
