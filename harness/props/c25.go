package props

import (
	"time"
	"unicode/utf16"

	gopdf "github.com/signintech/pdft/minigopdf"
	"symh/pdfx"
	"symh/sym"
)

// aDate is a moment in one of some zones, with what a PDF date says of it.
func aDate(k int) time.Time {
	return time.Date(2019, 3, 5, 7, 8, 9, 0, time.FixedZone("", dateZones[k].sec))
}

var dateZones = []struct {
	sec int
	s   string
}{{7 * 3600, "+07'00'"}, {5*3600 + 1800, "+05'30'"}, {-(3*3600 + 2700), "-03'45'"}, {0, "+00'00'"}}

// isText asserts that a text string of the document information says s.
func isText(v *pdfx.Val, s []rune, what string) {
	ok := v != nil && v.K == 's'
	sym.Assert(ok, what+" is in the file")
	if !ok {
		return
	}
	b := []byte(v.S)
	u := utf16.Encode(s)
	if len(b) != 2*len(u)+2 {
		sym.Assert(false, what+" has its length")
		return
	}
	same := b[0] == 0xfe && b[1] == 0xff
	for i, c := range u {
		same = sym.And(same, sym.And(b[2+2*i] == byte(c>>8), b[3+2*i] == byte(c)))
	}
	sym.Assert(same, what+" says what was asked for")
}

// C25_Info: any titles of up to two characters of all kinds (one of them any
// letter or mark of Latin or Thai, or beyond the 16-bit range), each field alone
// or with others, with a date in some zones or none, in a document that is
// protected or not: the document information in the file says the same.
func C25_Info() {
	prot := sym.Bool("protected")
	g := begin(595, 842, prot)
	g.AddPage()
	var s []rune
	n := sym.Choice("len", 3)
	for i := 0; i < n; i++ {
		switch sym.Choice("kind"+itoa(i), 4) {
		case 0:
			r := rune(sym.Int("ascii"+itoa(i), 32, 126))
			s = append(s, r)
		case 1:
			s = append(s, rune(sym.Int("thai"+itoa(i), 0xe01, 0xe3a)))
		case 2:
			s = append(s, []rune{0xe9, 0x4e2d, 0xffe5, '\n', '\\'}[sym.Choice("some"+itoa(i), 5)])
		case 3:
			s = append(s, rune(sym.Int("wide"+itoa(i), 0x1f600, 0x1f64f)))
		}
	}
	var info gopdf.PdfInfo
	k := sym.Choice("field", 6)
	t := string(s)
	switch k {
	case 0:
		info.Title = t
	case 1:
		info.Author = t
	case 2:
		info.Subject = t
	case 3:
		info.Creator = t
	case 4:
		info.Producer = t
	case 5:
		info = gopdf.PdfInfo{Title: t, Author: "x" + t, Subject: "y", Creator: "z", Producer: "p" + t}
	}
	d := sym.Choice("date", len(dateZones)+1)
	if d > 0 {
		info.CreationDate = aDate(d - 1)
	}
	g.SetInfo(info)
	f := parsed(written(g))
	if prot {
		why := f.Unlock(pdfx.PadPass([]byte("u")))
		sym.Assert(why == "", "the password opens the file: "+why)
	}
	r := f.Trailer.Get("Info")
	sym.Assert(r != nil && r.K == 'r', "the document information is an object of the file")
	v := f.Deref(r)
	sym.Assert(v != nil && v.K == 'd', "the document information is in the file")
	if v == nil {
		return
	}
	for i, e := range []struct{ key, pre string }{{"Title", ""}, {"Author", "x"}, {"Subject", "y"}, {"Creator", "z"}, {"Producer", "p"}} {
		x := f.Get(v, e.key)
		switch {
		case k == 5 && i >= 2 && i < 4:
			isText(x, []rune(e.pre), e.key)
		case k == 5 && (i > 0 || n > 0):
			isText(x, append([]rune(e.pre), s...), e.key)
		case k == i && n > 0:
			isText(x, s, e.key)
		default:
			sym.Assert(x == nil, e.key+" is not in the file unasked")
		}
	}
	cd := f.Get(v, "CreationDate")
	sym.Observe("date", cd.String())
	if d > 0 {
		sym.Assert(cd != nil && cd.K == 's' && cd.S == "D:20190305070809"+dateZones[d-1].s, "the date is the moment asked for")
	} else {
		sym.Assert(cd == nil, "no date unasked")
	}
}

// C25_Protect: a document of text, images of all kinds, one or two fonts and
// document information, protected with some passwords and any permissions: opened with the
// user password it is the one without protection; the owner password leads to
// the user password; the permissions are the ones given.
func C25_Protect() {
	perm := sym.Choice("print", 2)*4 | sym.Choice("modify", 2)*8 | sym.Choice("copy", 2)*16 | sym.Choice("forms", 2)*32
	pass := [][]byte{nil, []byte("user"), []byte("0123456789abcdef0123456789abcdefXYZ")}
	user, owner := pass[sym.Choice("user", 3)], pass[1+sym.Choice("owner", 2)]
	what := sym.Choice("what", 6)
	run := func(lock bool) *pdfx.File {
		g := &gopdf.GoPdf{}
		c := gopdf.Config{PageSize: gopdf.Rect{W: 595, H: 842}}
		if lock {
			c.Protection = gopdf.PDFProtectionConfig{UseProtection: true, Permissions: perm, UserPass: user, OwnerPass: owner}
		}
		g.Start(c)
		ownFont(g, "a", stdFont())
		g.SetFont("a", "", 10)
		g.AddPage()
		for _, k := range [][]int{{2, 3}, {9, 7}, {10, 12}, {11, 1, 2}, {13, 4}, {14, 5, 9}}[what] {
			drawStep(g, k)
		}
		return parsed(written(g))
	}
	plain, locked := run(false), run(true)
	sym.Assert(plain.Trailer.Get("Encrypt") == nil, "a file is not protected unasked")
	e := locked.Encrypt()
	sym.Assert(e != nil, "the file is protected")
	if e == nil {
		return
	}
	sym.Assert(bytesEq(locked.UserFromOwner(owner), pdfx.PadPass(user)), "the owner password leads to the user password")
	p := locked.Get(e, "P").Int()
	sym.Assert(p&0x3c == perm, "the permissions are the ones given")
	why := locked.Unlock(pdfx.PadPass(user))
	sym.Assert(why == "", "the user password opens the file: "+why)
	if why == "" {
		seen := map[[2]int]bool{}
		sym.Assert(deepSame(plain, locked, plain.Trailer.Get("Root"), locked.Trailer.Get("Root"), seen), "an unlocked document is the one without protection")
		sym.Assert(deepSame(plain, locked, plain.Trailer.Get("Info"), locked.Trailer.Get("Info"), seen), "its information is that of the one without protection")
	}
}

func bytesEq(a, b []byte) bool { return string(a) == string(b) }

// deepSame compares what two values lead to, whatever the numbers of the objects.
func deepSame(a, b *pdfx.File, x, y *pdfx.Val, seen map[[2]int]bool) bool {
	if x == nil || y == nil {
		return x == y
	}
	if x.K == 'r' && y.K == 'r' {
		k := [2]int{x.I, y.I}
		if seen[k] {
			return true
		}
		seen[k] = true
		p, q := a.Obj(x.I), b.Obj(y.I)
		if p == nil || q == nil {
			return p == q
		}
		if p.HasStream != q.HasStream || !bytesEq(p.Stream, q.Stream) {
			return false
		}
		return deepSame(a, b, p.V, q.V, seen)
	}
	if x.K != y.K || len(x.D) != len(y.D) || len(x.A) != len(y.A) {
		return false
	}
	for i, e := range x.A {
		if !deepSame(a, b, e, y.A[i], seen) {
			return false
		}
	}
	for _, e := range x.D {
		if !deepSame(a, b, e.V, y.Get(e.K), seen) {
			return false
		}
	}
	return len(x.A) > 0 || len(x.D) > 0 || pdfx.Equal(x, y)
}
