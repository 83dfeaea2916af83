package props

import (
	"bytes"

	"github.com/signintech/pdft"
	"symh/pdfx"
	"symh/sym"
)

// lockedSame asserts that a protected file is the plain one once unlocked.
func lockedSame(plain, locked *pdfx.File) {
	n := 0
	for id, a := range plain.Objs {
		if a == nil {
			continue
		}
		n++
		b := locked.Obj(id)
		sym.Assert(b != nil, "protection keeps every object")
		if b == nil {
			continue
		}
		sym.Assert(a.HasStream == b.HasStream && pdfx.Equal(a.V, b.V), "the values of an unlocked object are its own")
		if a.HasStream && b.HasStream {
			sym.Assert(bytes.Equal(a.Stream, b.Stream), "the stream of an unlocked object is its own")
		}
	}
	for _, b := range locked.Objs {
		if b != nil {
			n--
		}
	}
	sym.Assert(n >= -1, "protection adds only its dictionary")
	sym.Assert(plain.Root == locked.Root, "the catalog is the same")
}

// C15_Doc: a template with arbitrary page content (with line breaks at its ends),
// possibly compressed, its length possibly in an object of its own, with strings
// of all forms in its dictionaries; text, images of all kinds and a copied page
// added; protected before, between or after the edits. Unlocked with the user
// password, the file is the unprotected one; the owner password leads to the
// user password.
func C15_Doc() {
	body := symContent("c", 3)
	switch sym.Choice("ends", 5) {
	case 1:
		body = append([]byte("\n"), body...)
	case 2:
		body = append(body, '\n')
	case 3:
		body = append(body, "\r\n"...)
	case 4:
		body = append([]byte("\r "), append(body, " \n\n"...)...)
	}
	form := sym.Choice("form", 3)
	d := pdfx.NewDoc()
	d.Obj(1, "<</Type/Catalog/Pages 2 0 R>>")
	d.Obj(2, "<</Type/Pages/Kids[4 0 R]/Count 1>>")
	d.Obj(3, "<</Type/Font/Subtype/Type1/BaseFont/Helvetica>>")
	d.Obj(4, "<</Type/Page/Parent 2 0 R/MediaBox[0 0 600 800]/Resources<</Font<</F1 3 0 R>>>>/Contents 5 0 R>>")
	switch form {
	case 0:
		d.Stream(5, "", body)
	case 1:
		d.Stream(5, "/Filter/FlateDecode", pdfx.Deflate(body))
	case 2:
		d.ObjB(5, append(append([]byte("<</Length 6 0 R>>\nstream\n"), body...), "\nendstream"...))
	}
	d.Obj(6, itoa(len(body)))
	raw := d.Bytes(1)
	user, owner := []byte("user"), []byte("the owner")
	when := sym.Choice("when", 3)
	what := sym.Choice("what", 6)
	run := func(lock bool) *pdfx.File {
		p := open(raw)
		prot := func(k int) {
			if lock && when == k {
				sym.Assert(p.SetProtection(4, user, owner) == nil, "protecting succeeds")
			}
		}
		prot(0)
		switch what {
		case 0:
		case 1:
			addFont(p, "a", stdFont())
			p.SetFont("a", "", 10)
			sym.Assert(p.Insert("AB", 1, 10, 20, 30, 40, pdft.Left, nil) == nil, "insert succeeds")
		case 2, 3, 4:
			sym.Assert(p.InsertImg(symPNG0([]int{7, 4, 3}[what-2]).Bytes(), 1, 10, 20, 30, 40) == nil, "insert succeeds")
		case 5:
			sym.Assert(p.DuplicatePageAfter(1, 0) == nil, "copying a page succeeds")
		}
		prot(1)
		sym.Assert(p.InsertImgWithCache(pdfx.JPEG(2, 3, 1, []byte{1, 2}), 1, 10, 20, 30, 40) == nil, "insert succeeds")
		prot(2)
		return saved(p)
	}
	plain, locked := run(false), run(true)
	sym.Assert(plain.Encrypt() == nil, "a file is not protected unasked")
	sym.Assert(bytes.Equal(locked.UserFromOwner(owner), pdfx.PadPass(user)), "the owner password leads to the user password")
	bad := locked.Unlock(pdfx.PadPass(user))
	sym.Assert(bad == "", "the user password unlocks the file: "+bad)
	if bad == "" {
		lockedSame(plain, locked)
	}
}

// C15_Strings: strings of all forms in the dictionaries of a template.
func C15_Strings() {
	forms := []string{"(abc)", "()", "<>", "<616263>", "(a(b)c)", "(a\\)b)", "(\\\\)", "(a\\\nb)", "(\\101\\12)", "<61 6>", "(<<x>>)", "(% no comment)", "(a\rb)", "(a[b]c)"}
	s := forms[sym.Choice("form", len(forms))]
	t := forms[sym.Choice("form2", len(forms))]
	body := "<</A " + s + "/B[" + t + " 1 (z)]/C<</D" + s + "/E 3 0 R>>/F/Name>>"
	switch sym.Choice("place", 4) {
	case 1:
		body = s
	case 2:
		body = "[" + s + t + "<</K" + s + ">>]"
	case 3:
		body = "<</A " + s + "% comment (not a string\n/B " + t + ">>"
	}
	d := pdfx.NewDoc()
	d.Obj(1, "<</Type/Catalog/Pages 2 0 R/Extra 6 0 R>>")
	d.Obj(2, "<</Type/Pages/Kids[4 0 R]/Count 1>>")
	d.Obj(3, "<</Type/Font/Subtype/Type1/BaseFont/Helvetica>>")
	d.Obj(4, "<</Type/Page/Parent 2 0 R/MediaBox[0 0 600 800]/Resources<</Font<</F1 3 0 R>>>>/Contents 5 0 R>>")
	d.Stream(5, "/Note "+s, []byte("q Q"))
	d.Obj(6, body)
	raw := d.Bytes(1)
	run := func(lock bool) *pdfx.File {
		p := open(raw)
		if lock {
			sym.Assert(p.SetProtection(4, []byte("user"), []byte("owner")) == nil, "protecting succeeds")
		}
		return saved(p)
	}
	plain, locked := run(false), run(true)
	bad := locked.Unlock(pdfx.PadPass([]byte("user")))
	sym.Assert(bad == "", "the user password unlocks the file: "+bad)
	if bad == "" {
		lockedSame(plain, locked)
	}
}

// C15_Passwords: passwords of all kinds and lengths (none, empty, long, longer
// than counts, with any of 40 values) and any permissions.
func C15_Passwords() {
	pass := func(k int) []byte {
		switch k {
		case 0:
			return nil
		case 1:
			return []byte{}
		case 2:
			return bytes.Repeat([]byte("x"), 31)
		case 3:
			return bytes.Repeat([]byte("y"), 32)
		case 4:
			return append(bytes.Repeat([]byte("z"), 32), "ignored"...)
		}
		return []byte{byte(k), byte(k * 37), 'p', byte(255 - k)}
	}
	user := pass(sym.Choice("user", 24))
	owner := pass(sym.Choice("owner", 12))
	perm := sym.Choice("perm", 16) << 2
	p := open(mkTmpl(tpage{content: []byte("q 1 0 0 1 0 0 cm Q")}).raw)
	sym.Assert(p.SetProtection(perm, user, owner) == nil, "protecting succeeds")
	f := saved(p)
	e := f.Encrypt()
	sym.Assert(e != nil && e.K == 'd', "the file is protected")
	P := f.Get(e, "P").Int()
	sym.Assert(P >= -1<<31 && P < 0, "the permissions are a 32-bit number")
	for bit, on := range map[int]bool{0: false, 1: false, 2: perm&4 != 0, 3: perm&8 != 0, 4: perm&16 != 0, 5: perm&32 != 0, 6: true, 7: true} {
		sym.Assert(P>>bit&1 == 1 == on, "exactly the permissions asked for are given")
	}
	sym.Assert(P>>8 == -1, "reserved permission bits are set")
	if len(owner) > 0 {
		sym.Assert(bytes.Equal(f.UserFromOwner(owner), pdfx.PadPass(user)), "the owner password leads to the user password")
	}
	bad := f.Unlock(pdfx.PadPass(user))
	sym.Assert(bad == "", "the user password unlocks the file: "+bad)
	if bad != "" {
		return
	}
	c, ok := f.Content(f.Pages()[0])
	sym.Assert(ok && bytes.HasPrefix(c, []byte("q 1 0 0 1 0 0 cm Q")), "the content can be read with the password")
}

// C15_AnyString: a string of any two characters (escaped or not, or in
// hexadecimal) in a dictionary of the template.
func C15_AnyString() {
	b := sym.Bytes("b", 2)
	var s []byte
	form := sym.Choice("form", 3)
	switch form {
	case 0:
		s = append(append([]byte("("), b...), ')')
		for _, c := range b {
			sym.Assume(sym.And(sym.And(c != '(', c != ')'), c != '\\'))
		}
	case 1:
		s = append(append(append([]byte("(x("), b...), ')'), ')')
		for _, c := range b {
			sym.Assume(sym.And(sym.And(c != '(', c != ')'), c != '\\'))
		}
	case 2:
		s = append(append([]byte("(\\"), b...), ')')
		sym.Assume(sym.And(sym.And(b[1] != '(', b[1] != ')'), b[1] != '\\'))
	}
	d := pdfx.NewDoc()
	d.Obj(1, "<</Type/Catalog/Pages 2 0 R/Extra 6 0 R>>")
	d.Obj(2, "<</Type/Pages/Kids[4 0 R]/Count 1>>")
	d.Obj(3, "<</Type/Font/Subtype/Type1/BaseFont/Helvetica>>")
	d.Obj(4, "<</Type/Page/Parent 2 0 R/MediaBox[0 0 600 800]/Resources<</Font<</F1 3 0 R>>>>/Contents 5 0 R>>")
	d.Stream(5, "", []byte("q Q"))
	d.ObjB(6, append(append([]byte("<</A "), s...), ">>"...))
	raw := d.Bytes(1)
	run := func(lock bool) *pdfx.File {
		p := open(raw)
		if lock {
			sym.Assert(p.SetProtection(4, []byte("user"), []byte("owner")) == nil, "protecting succeeds")
		}
		return saved(p)
	}
	plain, locked := run(false), run(true)
	bad := locked.Unlock(pdfx.PadPass([]byte("user")))
	sym.Assert(bad == "", "the user password unlocks the file: "+bad)
	if bad == "" {
		lockedSame(plain, locked)
	}
}

// C15_Numbers: objects of the template with any of nine numbers around the
// limits of one, two and three bytes: each is locked under its own number.
func C15_Numbers() {
	n := []int{10, 127, 128, 255, 256, 257, 300, 511, 512}[sym.Choice("n", 9)]
	d := pdfx.NewDoc()
	d.Obj(1, "<</Type/Catalog/Pages 2 0 R/Extra "+itoa(n+1)+" 0 R>>")
	d.Obj(2, "<</Type/Pages/Kids[4 0 R]/Count 1>>")
	d.Obj(3, "<</Type/Font/Subtype/Type1/BaseFont/Helvetica>>")
	d.Obj(4, "<</Type/Page/Parent 2 0 R/MediaBox[0 0 600 800]/Resources<</Font<</F1 3 0 R>>>>/Contents "+itoa(n)+" 0 R>>")
	d.Stream(n, "", []byte("q 1 0 0 1 0 0 cm Q"))
	d.Obj(n+1, "[(text) <</A(b)>>]")
	raw := d.Bytes(1)
	run := func(lock bool) *pdfx.File {
		p := open(raw)
		addFont(p, "a", smallFont())
		p.SetFont("a", "", 10)
		sym.Assert(p.Insert("AB", 1, 10, 20, 30, 40, pdft.Left, nil) == nil, "insert succeeds")
		if lock {
			sym.Assert(p.SetProtection(4, []byte("user"), []byte("owner")) == nil, "protecting succeeds")
		}
		return saved(p)
	}
	plain, locked := run(false), run(true)
	bad := locked.Unlock(pdfx.PadPass([]byte("user")))
	sym.Assert(bad == "", "the user password unlocks the file: "+bad)
	if bad == "" {
		lockedSame(plain, locked)
	}
}
