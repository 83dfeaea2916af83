// Package pdfx is the independent reader the checks judge documents with: a
// small PDF parser, a template writer, a TrueType writer and reader, and image
// writers. It shares no code with the repository under check.
package pdfx

import (
	"bytes"
	"compress/zlib"
	"io"
	"strconv"
)

// Val is a PDF value.
// K: 'n' number, '/' name, 's' string, 'r' reference, 'a' array, 'd'
// dictionary, 'k' keyword.
type Val struct {
	K byte
	S string
	I int
	A []*Val
	D []Ent
}

type Ent struct {
	K string
	V *Val
}

func (v *Val) Get(key string) *Val {
	if v == nil {
		return nil
	}
	for _, e := range v.D {
		if e.K == key {
			return e.V
		}
	}
	return nil
}

func (v *Val) Count(key string) int {
	n := 0
	if v == nil {
		return 0
	}
	for _, e := range v.D {
		if e.K == key {
			n++
		}
	}
	return n
}

func (v *Val) IsName(s string) bool { return v != nil && v.K == '/' && v.S == s }

// Int gives the value of an integer (or -1 << 40).
func (v *Val) Int() int {
	if v == nil || v.K != 'n' {
		return -1 << 40
	}
	n, err := strconv.Atoi(v.S)
	if err != nil {
		return -1 << 40
	}
	return n
}

// String prints a value in a canonical form.
func (v *Val) String() string {
	if v == nil {
		return "?"
	}
	switch v.K {
	case 'n', 'k':
		return v.S
	case '/':
		return "/" + v.S
	case 's':
		return "(" + v.S + ")"
	case 'r':
		return strconv.Itoa(v.I) + " R"
	case 'a':
		s := "["
		for i, x := range v.A {
			if i > 0 {
				s += " "
			}
			s += x.String()
		}
		return s + "]"
	case 'd':
		s := "<<"
		for _, e := range v.D {
			s += "/" + e.K + " " + e.V.String() + " "
		}
		return s + ">>"
	}
	return "?"
}

// Equal compares two values; dictionaries compare as maps.
func Equal(a, b *Val) bool {
	if a == nil || b == nil {
		return a == b
	}
	if a.K != b.K {
		return false
	}
	switch a.K {
	case 'n':
		if a.S == b.S {
			return true
		}
		x, e1 := strconv.ParseFloat(a.S, 64)
		y, e2 := strconv.ParseFloat(b.S, 64)
		return e1 == nil && e2 == nil && x == y
	case 'r':
		return a.I == b.I
	case 'a':
		if len(a.A) != len(b.A) {
			return false
		}
		for i := range a.A {
			if !Equal(a.A[i], b.A[i]) {
				return false
			}
		}
		return true
	case 'd':
		if len(a.D) != len(b.D) {
			return false
		}
		for _, e := range a.D {
			if b.Count(e.K) != 1 || !Equal(e.V, b.Get(e.K)) {
				return false
			}
		}
		return true
	}
	return a.S == b.S
}

type Obj struct {
	ID        int
	V         *Val
	HasStream bool
	Stream    []byte
}

type File struct {
	Data     []byte
	Size     int
	Trailer  *Val
	Root     int
	Objs     []*Obj // indexed by number, nil when free
	Problems []string
}

func (f *File) bad(s string) { f.Problems = append(f.Problems, s) }

// Ok reports the first problem, or "".
func (f *File) Problem() string {
	if len(f.Problems) > 0 {
		return f.Problems[0]
	}
	return ""
}

func (f *File) Obj(id int) *Obj {
	if id <= 0 || id >= len(f.Objs) {
		return nil
	}
	return f.Objs[id]
}

// Deref follows references.
func (f *File) Deref(v *Val) *Val {
	for i := 0; v != nil && v.K == 'r'; i++ {
		o := f.Obj(v.I)
		if o == nil || i > 10 {
			return nil
		}
		v = o.V
	}
	return v
}

func (f *File) Get(v *Val, key string) *Val { return f.Deref(f.Deref(v).Get(key)) }

// ---- lexer

type lexer struct {
	b   []byte
	p   int
	err bool
}

func isSpace(c byte) bool {
	return c == ' ' || c == '\n' || c == '\r' || c == '\t' || c == 0 || c == '\f'
}

func isDelim(c byte) bool {
	return c == '/' || c == '[' || c == ']' || c == '<' || c == '>' || c == '(' || c == ')' || c == '{' || c == '}' || c == '%'
}

func (l *lexer) skip() {
	for l.p < len(l.b) {
		c := l.b[l.p]
		if c == '%' {
			for l.p < len(l.b) && l.b[l.p] != '\n' && l.b[l.p] != '\r' {
				l.p++
			}
			continue
		}
		if !isSpace(c) {
			return
		}
		l.p++
	}
}

func (l *lexer) word() string {
	st := l.p
	for l.p < len(l.b) && !isSpace(l.b[l.p]) && !isDelim(l.b[l.p]) {
		l.p++
	}
	return string(l.b[st:l.p])
}

func (l *lexer) has(s string) bool {
	return l.p+len(s) <= len(l.b) && string(l.b[l.p:l.p+len(s)]) == s
}

func isNum(s string) bool {
	if s == "" {
		return false
	}
	d := false
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c >= '0' && c <= '9' {
			d = true
		} else if !(c == '.' || ((c == '-' || c == '+') && i == 0)) {
			return false
		}
	}
	return d
}

func isUint(s string) bool {
	if s == "" {
		return false
	}
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return false
		}
	}
	return true
}

func hexNib(c byte) int {
	if c >= '0' && c <= '9' {
		return int(c - '0')
	}
	if c >= 'A' && c <= 'F' {
		return int(c-'A') + 10
	}
	if c >= 'a' && c <= 'f' {
		return int(c-'a') + 10
	}
	return -1
}

func (l *lexer) name() string {
	l.p++
	w := l.word()
	if bytes.IndexByte([]byte(w), '#') < 0 {
		return w
	}
	out := ""
	for i := 0; i < len(w); i++ {
		if w[i] == '#' && i+2 < len(w) && hexNib(w[i+1]) >= 0 && hexNib(w[i+2]) >= 0 {
			out += string([]byte{byte(hexNib(w[i+1])<<4 | hexNib(w[i+2]))})
			i += 2
			continue
		}
		out += w[i : i+1]
	}
	return out
}

func (l *lexer) litString() *Val {
	l.p++
	depth := 1
	var out []byte
	for l.p < len(l.b) {
		c := l.b[l.p]
		l.p++
		switch c {
		case '(':
			depth++
		case ')':
			depth--
			if depth == 0 {
				return &Val{K: 's', S: string(out)}
			}
		case '\r':
			// an end of line in a string reads as \n
			if l.p < len(l.b) && l.b[l.p] == '\n' {
				l.p++
			}
			out = append(out, '\n')
			continue
		case '\\':
			if l.p >= len(l.b) {
				l.err = true
				return nil
			}
			e := l.b[l.p]
			l.p++
			switch e {
			case 'n':
				out = append(out, '\n')
			case 'r':
				out = append(out, '\r')
			case 't':
				out = append(out, '\t')
			case 'b':
				out = append(out, '\b')
			case 'f':
				out = append(out, '\f')
			case '\n':
			case '\r':
				if l.p < len(l.b) && l.b[l.p] == '\n' {
					l.p++
				}
			default:
				if e >= '0' && e <= '7' {
					n := int(e - '0')
					for k := 0; k < 2 && l.p < len(l.b) && l.b[l.p] >= '0' && l.b[l.p] <= '7'; k++ {
						n = n*8 + int(l.b[l.p]-'0')
						l.p++
					}
					out = append(out, byte(n))
				} else {
					out = append(out, e)
				}
			}
			continue
		}
		out = append(out, c)
	}
	l.err = true
	return nil
}

// hexStr reads a hexadecimal string without branching on the digits.
func (l *lexer) hexStr() *Val {
	st := l.p + 1
	n := bytes.IndexByte(l.b[st:], '>')
	if n < 0 {
		l.err = true
		return nil
	}
	raw := l.b[st : st+n]
	l.p = st + n + 1
	return &Val{K: 's', S: string(UnHex(raw))}
}

// value parses one object; refs are recognised.
func (l *lexer) value() *Val {
	l.skip()
	if l.p >= len(l.b) {
		l.err = true
		return nil
	}
	c := l.b[l.p]
	switch {
	case c == '/':
		return &Val{K: '/', S: l.name()}
	case c == '(':
		return l.litString()
	case c == '<':
		if l.has("<<") {
			l.p += 2
			d := &Val{K: 'd'}
			for {
				l.skip()
				if l.has(">>") {
					l.p += 2
					return d
				}
				if l.p >= len(l.b) || l.b[l.p] != '/' {
					l.err = true
					return nil
				}
				k := l.name()
				v := l.value()
				if l.err {
					return nil
				}
				d.D = append(d.D, Ent{k, v})
			}
		}
		return l.hexStr()
	case c == '[':
		l.p++
		a := &Val{K: 'a'}
		for {
			l.skip()
			if l.p >= len(l.b) {
				l.err = true
				return nil
			}
			if l.b[l.p] == ']' {
				l.p++
				return a
			}
			v := l.value()
			if l.err {
				return nil
			}
			a.A = append(a.A, v)
		}
	}
	w := l.word()
	if w == "" {
		l.err = true
		return nil
	}
	if isUint(w) {
		// maybe a reference
		save := l.p
		l.skip()
		g := l.word()
		if isUint(g) {
			l.skip()
			if l.p < len(l.b) && l.b[l.p] == 'R' && (l.p+1 == len(l.b) || isSpace(l.b[l.p+1]) || isDelim(l.b[l.p+1])) {
				l.p++
				id, _ := strconv.Atoi(w)
				return &Val{K: 'r', I: id}
			}
		}
		l.p = save
	}
	if isNum(w) {
		return &Val{K: 'n', S: w}
	}
	if w == "true" || w == "false" || w == "null" {
		return &Val{K: 'k', S: w}
	}
	l.err = true
	return nil
}

// ParseVal parses a single value.
func ParseVal(b []byte) *Val {
	l := &lexer{b: b}
	v := l.value()
	if l.err {
		return nil
	}
	return v
}

// ---- file

func digits(b []byte) (int, bool) {
	n := 0
	for _, c := range b {
		if c < '0' || c > '9' {
			return 0, false
		}
		n = n*10 + int(c-'0')
	}
	return n, len(b) > 0
}

// Parse reads a file with a single cross-reference table strictly.
func Parse(data []byte) *File {
	f := &File{Data: data}
	if !bytes.HasPrefix(data, []byte("%PDF-1.")) {
		f.bad("no PDF header")
	}
	sx := bytes.LastIndex(data, []byte("startxref"))
	if sx < 0 {
		f.bad("no startxref")
		return f
	}
	l := &lexer{b: data, p: sx + 9}
	l.skip()
	xoff, ok := digits([]byte(l.word()))
	if !ok || xoff >= len(data) {
		f.bad("bad startxref offset")
		return f
	}
	for l.p < len(data) && isSpace(data[l.p]) {
		l.p++
	}
	if !l.has("%%EOF") {
		f.bad("no %%EOF after startxref")
	}
	l.p = xoff
	for l.p < len(data) && isSpace(data[l.p]) {
		l.p++
	}
	if !l.has("xref") {
		f.bad("startxref does not lead to xref")
		return f
	}
	l.p += 4
	l.skip()
	type xe struct {
		off, gen int
		kind     byte
	}
	var ents []xe
	for {
		l.skip()
		if l.has("trailer") {
			break
		}
		w := l.word()
		l.skip()
		w2 := l.word()
		st, ok1 := digits([]byte(w))
		n, ok2 := digits([]byte(w2))
		if !ok1 || !ok2 || st != len(ents) {
			f.bad("bad xref subsection")
			return f
		}
		// to the end of the line
		for l.p < len(data) && data[l.p] == ' ' {
			l.p++
		}
		if l.has("\r\n") {
			l.p += 2
		} else if l.has("\n") || l.has("\r") {
			l.p++
		} else {
			f.bad("xref subsection header without end of line")
			return f
		}
		for i := 0; i < n; i++ {
			if l.p+20 > len(data) {
				f.bad("short xref table")
				return f
			}
			e := data[l.p : l.p+20]
			l.p += 20
			off, ok1 := digits(e[:10])
			gen, ok2 := digits(e[11:16])
			eol := string(e[18:])
			if !ok1 || !ok2 || e[10] != ' ' || e[16] != ' ' || (e[17] != 'n' && e[17] != 'f') || (eol != " \n" && eol != " \r" && eol != "\r\n") {
				f.bad("bad xref entry " + strconv.Itoa(i))
				return f
			}
			ents = append(ents, xe{off, gen, e[17]})
		}
	}
	l.p += 7
	f.Trailer = l.value()
	if l.err || f.Trailer == nil || f.Trailer.K != 'd' {
		f.bad("bad trailer dictionary")
		return f
	}
	f.Size = f.Trailer.Get("Size").Int()
	if f.Size != len(ents) {
		f.bad("/Size differs from the xref table")
	}
	// free list: starts at 0 and visits exactly the free entries
	if len(ents) == 0 || ents[0].kind != 'f' || ents[0].gen != 65535 {
		f.bad("xref entry 0 is not the head of the free list")
		return f
	}
	free := 0
	for _, e := range ents {
		if e.kind == 'f' {
			free++
		}
	}
	at := 0
	for i := 0; i < free; i++ {
		at = ents[at].off
		if at >= len(ents) || ents[at].kind != 'f' {
			f.bad("free list leaves the free entries")
			return f
		}
		if at == 0 && i != free-1 {
			f.bad("free list ends early")
			return f
		}
	}
	if at != 0 {
		f.bad("free list does not return to 0")
	}
	f.Objs = make([]*Obj, len(ents))
	type pend struct {
		o *Obj
		p int
	}
	var streams []pend
	for id, e := range ents {
		if e.kind == 'f' {
			continue
		}
		l := &lexer{b: data, p: e.off}
		if e.off >= len(data) {
			f.bad("xref offset of object " + strconv.Itoa(id) + " past the end")
			continue
		}
		for l.p < len(data) && isSpace(data[l.p]) {
			l.p++
		}
		head := strconv.Itoa(id) + " " + strconv.Itoa(e.gen) + " obj"
		if !l.has(head) {
			f.bad("xref offset of object " + strconv.Itoa(id) + " does not lead to it")
			continue
		}
		l.p += len(head)
		o := &Obj{ID: id}
		o.V = l.value()
		if l.err {
			f.bad("object " + strconv.Itoa(id) + " does not parse")
			continue
		}
		f.Objs[id] = o
		l.skip()
		if l.has("stream") {
			l.p += 6
			if l.has("\r\n") {
				l.p += 2
			} else if l.has("\n") {
				l.p++
			} else {
				f.bad("object " + strconv.Itoa(id) + ": no end of line after stream")
				continue
			}
			streams = append(streams, pend{o, l.p})
			continue
		}
		if !l.has("endobj") {
			f.bad("object " + strconv.Itoa(id) + " is not closed by endobj")
		}
	}
	for _, s := range streams {
		id := strconv.Itoa(s.o.ID)
		n := f.Get(s.o.V, "Length").Int()
		if n < 0 || s.p+n > len(data) {
			f.bad("stream " + id + ": bad /Length")
			continue
		}
		l := &lexer{b: data, p: s.p + n}
		if l.has("\r\n") {
			l.p += 2
		} else if l.has("\n") || l.has("\r") {
			l.p++
		}
		if !l.has("endstream") {
			f.bad("stream " + id + ": /Length does not lead to endstream")
			continue
		}
		l.p += 9
		l.skip()
		if !l.has("endobj") {
			f.bad("stream " + id + " is not closed by endobj")
			continue
		}
		s.o.HasStream = true
		s.o.Stream = data[s.p : s.p+n]
	}
	r := f.Trailer.Get("Root")
	if r == nil || r.K != 'r' || f.Obj(r.I) == nil {
		f.bad("/Root does not lead to an object")
		return f
	}
	f.Root = r.I
	if !f.Obj(f.Root).V.Get("Type").IsName("Catalog") {
		f.bad("/Root is not a catalog")
	}
	return f
}

// Decoded gives the data of a stream, decoded by its filters (FlateDecode and
// ASCIIHexDecode).
func (f *File) Decoded(o *Obj) ([]byte, bool) {
	if o == nil || !o.HasStream {
		return nil, false
	}
	var fs []*Val
	fl := f.Get(o.V, "Filter")
	switch {
	case fl == nil || fl.K == 'k' && fl.S == "null":
	case fl.K == 'a':
		fs = fl.A
	default:
		fs = []*Val{fl}
	}
	b := o.Stream
	for _, x := range fs {
		ok := false
		switch x = f.Deref(x); {
		case x.IsName("FlateDecode"):
			b, ok = Inflate(b)
		case x.IsName("ASCIIHexDecode"):
			b, ok = []byte((&lexer{b: append([]byte("<"), b...)}).hexStr().S), true
		}
		if !ok {
			return nil, false
		}
	}
	return b, true
}

func Inflate(b []byte) ([]byte, bool) {
	r, err := zlib.NewReader(bytes.NewReader(b))
	if err != nil {
		return nil, false
	}
	out, err := io.ReadAll(r)
	if err != nil {
		return nil, false
	}
	return out, true
}

func Deflate(b []byte) []byte {
	var w bytes.Buffer
	z := zlib.NewWriter(&w)
	z.Write(b)
	z.Close()
	return w.Bytes()
}

// Pages lists the object numbers of the pages in reading order and checks the
// page tree (/Count, /Parent, no page twice).
func (f *File) Pages() []int {
	var out []int
	root := f.Obj(f.Root)
	if root == nil {
		return nil
	}
	p := root.V.Get("Pages")
	if p == nil || p.K != 'r' {
		f.bad("catalog without /Pages")
		return nil
	}
	f.walk(p.I, &out, 0)
	for i := range out {
		for j := 0; j < i; j++ {
			if out[i] == out[j] {
				f.bad("a page object is in the page tree twice")
			}
		}
	}
	return out
}

func (f *File) walk(id int, out *[]int, depth int) int {
	o := f.Obj(id)
	if o == nil || depth > 10 {
		f.bad("page tree leads nowhere")
		return 0
	}
	if o.V.Get("Type").IsName("Page") {
		*out = append(*out, id)
		return 1
	}
	kids := f.Get(o.V, "Kids")
	if !o.V.Get("Type").IsName("Pages") || kids == nil || kids.K != 'a' {
		f.bad("page tree node without /Kids")
		return 0
	}
	n := 0
	for _, k := range kids.A {
		if k.K != 'r' {
			f.bad("/Kids entry is not a reference")
			continue
		}
		if ko := f.Obj(k.I); ko != nil {
			if pa := ko.V.Get("Parent"); pa == nil || pa.K != 'r' || pa.I != id {
				f.bad("/Parent of a page tree node is not the node above it")
			}
		}
		n += f.walk(k.I, out, depth+1)
	}
	if o.V.Get("Count").Int() != n {
		f.bad("/Count differs from the number of pages")
	}
	return n
}

// Inherited finds a page attribute on the page or an ancestor.
func (f *File) Inherited(page int, key string) *Val {
	id := page
	for i := 0; i < 10; i++ {
		o := f.Obj(id)
		if o == nil {
			return nil
		}
		if v := o.V.Get(key); v != nil {
			return f.Deref(v)
		}
		p := o.V.Get("Parent")
		if p == nil || p.K != 'r' {
			return nil
		}
		id = p.I
	}
	return nil
}

// Content gives the decoded content of a page (its streams joined by \n).
func (f *File) Content(page int) ([]byte, bool) {
	o := f.Obj(page)
	if o == nil {
		return nil, false
	}
	c := o.V.Get("Contents")
	if c == nil {
		return nil, true
	}
	d := f.Deref(c)
	if c.K == 'r' && d != nil && d.K == 'd' {
		return f.Decoded(f.Obj(c.I))
	}
	if d == nil || d.K != 'a' {
		return nil, false
	}
	var out []byte
	for i, e := range d.A {
		if e.K != 'r' {
			return nil, false
		}
		b, ok := f.Decoded(f.Obj(e.I))
		if !ok {
			return nil, false
		}
		if i > 0 {
			out = append(out, '\n')
		}
		out = append(out, b...)
	}
	return out, true
}

// Resource finds an entry of a page's resource dictionary; the reference.
func (f *File) Resource(page int, kind, name string) *Val {
	r := f.Inherited(page, "Resources")
	d := f.Get(r, kind)
	if d == nil || d.Count(name) != 1 {
		return nil
	}
	return d.Get(name)
}

// Refs collects the object numbers a value refers to.
func Refs(v *Val, out *[]int) {
	if v == nil {
		return
	}
	if v.K == 'r' {
		*out = append(*out, v.I)
	}
	for _, x := range v.A {
		Refs(x, out)
	}
	for _, e := range v.D {
		Refs(e.V, out)
	}
}

// Dangling finds a reference to an object that is not in the file (0 if none).
func (f *File) Dangling() int {
	var all []int
	Refs(f.Trailer, &all)
	for _, o := range f.Objs {
		if o != nil {
			Refs(o.V, &all)
		}
	}
	for _, id := range all {
		if f.Obj(id) == nil {
			return id
		}
	}
	return 0
}

// RefObj is the object an entry of a dictionary refers to.
func (f *File) RefObj(v *Val, key string) *Obj {
	r := f.Deref(v).Get(key)
	if r == nil || r.K != 'r' {
		return nil
	}
	return f.Obj(r.I)
}

// Live counts the objects of a file.
func (f *File) Live() int {
	n := 0
	for _, o := range f.Objs {
		if o != nil {
			n++
		}
	}
	return n
}
