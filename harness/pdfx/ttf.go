package pdfx

import "sort"

// Seg is one cmap format 4 segment; with IDs it goes through glyphIdArray.
type Seg struct {
	Start, End, Delta int
	IDs               []int
}

// Group is one cmap format 12 group.
type Group struct{ Start, End, Glyph int }

type KernPair struct{ L, R, V int }

// KernSub is one table of pairs; Coverage has the format in its high byte.
type KernSub struct {
	Coverage int
	Pairs    []KernPair
	Length   int // if not 0, the length it says it has
	Tail     int // bytes after the pairs
}

// TTF describes a font file. Numbers may be symbolic where the layout of the
// file does not depend on them.
type TTF struct {
	UPM                    int
	Asc, Desc              int // hhea
	TypoAsc, TypoDesc      int
	WinAsc, WinDesc        int
	XMin, YMin, XMax, YMax int
	UPos, UThick           int
	Italic                 int
	OS2Ver, XHeight, CapH  int
	Long                   bool // long loca
	Glyphs                 [][]byte
	Adv                    []int // one per horizontal metric
	Segs                   []Seg // without the final 0xFFFF segment
	Groups                 []Group
	Kern                   []KernPair
	KernSubs               []KernSub
	Cvt, Fpgm, Prep        []byte
	Name                   string
	NoPad                  bool // the last table is not padded
	Rot                    int  // the tables start with this one in the file
}

func P16(b []byte, v int) []byte { return append(b, byte(v>>8), byte(v)) }
func P32(b []byte, v int) []byte {
	return append(b, byte(v>>24), byte(v>>16), byte(v>>8), byte(v))
}

func zeros(n int) []byte { return make([]byte, n) }

// SimpleGlyph is a glyph description of n bytes (n >= 10, even).
func SimpleGlyph(n int, fill byte) []byte {
	b := P16(nil, 1)
	for len(b) < n {
		b = append(b, fill)
	}
	return b
}

type Comp struct {
	Glyph int
	Flags int // without MORE_COMPONENTS
}

// CompositeGlyph refers to other glyphs.
func CompositeGlyph(cs ...Comp) []byte {
	b := P16(nil, -1)
	b = append(b, zeros(8)...)
	for i, c := range cs {
		f := c.Flags
		if i+1 < len(cs) {
			f |= 32
		}
		b = P16(b, f)
		b = P16(b, c.Glyph)
		n := 2
		if c.Flags&1 != 0 {
			n = 4
		}
		if c.Flags&8 != 0 {
			n += 2
		} else if c.Flags&64 != 0 {
			n += 4
		} else if c.Flags&128 != 0 {
			n += 8
		}
		for k := 0; k < n; k++ {
			b = append(b, byte(k+1))
		}
	}
	for len(b)%2 != 0 {
		b = append(b, 0)
	}
	return b
}

func (t *TTF) cmap() []byte {
	segs := append(append([]Seg(nil), t.Segs...), Seg{Start: 0xFFFF, End: 0xFFFF, Delta: 1})
	n := len(segs)
	var ids []int
	var end, start, delta, ro []byte
	for i, s := range segs {
		end = P16(end, s.End)
		start = P16(start, s.Start)
		delta = P16(delta, s.Delta)
		if s.IDs == nil {
			ro = P16(ro, 0)
		} else {
			ro = P16(ro, 2*(n-i)+2*len(ids))
			ids = append(ids, s.IDs...)
		}
	}
	f4 := P16(nil, 4)
	f4 = P16(f4, 16+8*n+2*len(ids))
	f4 = P16(f4, 0)
	f4 = P16(f4, 2*n)
	f4 = append(f4, zeros(6)...)
	f4 = append(f4, end...)
	f4 = P16(f4, 0)
	f4 = append(f4, start...)
	f4 = append(f4, delta...)
	f4 = append(f4, ro...)
	for _, x := range ids {
		f4 = P16(f4, x)
	}
	nt := 1
	if t.Groups != nil {
		nt = 2
	}
	b := P16(nil, 0)
	b = P16(b, nt)
	b = P16(b, 3)
	b = P16(b, 1)
	b = P32(b, 4+8*nt)
	if nt == 2 {
		b = P16(b, 3)
		b = P16(b, 10)
		b = P32(b, 4+8*nt+len(f4))
	}
	b = append(b, f4...)
	if nt == 2 {
		b = P16(b, 12)
		b = P16(b, 0)
		b = P32(b, 16+12*len(t.Groups))
		b = P32(b, 0)
		b = P32(b, len(t.Groups))
		for _, g := range t.Groups {
			b = P32(b, g.Start)
			b = P32(b, g.End)
			b = P32(b, g.Glyph)
		}
	}
	return b
}

// GlyphOf is the glyph the cmap gives for a character (reference reading).
func (t *TTF) GlyphOf(r int) int {
	if r > 0xFFFF {
		for _, g := range t.Groups {
			if r >= g.Start && r <= g.End {
				return g.Glyph + r - g.Start
			}
		}
		return -1
	}
	for _, s := range t.Segs {
		if r >= s.Start && r <= s.End {
			if s.IDs == nil {
				return (r + s.Delta) & 0xFFFF
			}
			for i, id := range s.IDs {
				if r == s.Start+i {
					if id == 0 {
						return 0
					}
					return (id + s.Delta) & 0xFFFF
				}
			}
		}
	}
	return 0
}

// AdvOf is the advance of a glyph in thousandths of the font size.
func (t *TTF) AdvOf(g int) int {
	for i := range t.Adv {
		if i == g {
			return int(uint(t.Adv[i]) * 1000 / uint(t.UPM))
		}
	}
	return int(uint(t.Adv[len(t.Adv)-1]) * 1000 / uint(t.UPM))
}

// Bytes writes the font file.
func (t *TTF) Bytes() []byte {
	tabs := map[string][]byte{}
	h := P32(nil, 0x10000)
	h = append(h, zeros(8)...)
	h = P32(h, 0x5F0F3CF5)
	h = P16(h, 0)
	h = P16(h, t.UPM)
	h = append(h, zeros(16)...)
	h = P16(h, t.XMin)
	h = P16(h, t.YMin)
	h = P16(h, t.XMax)
	h = P16(h, t.YMax)
	h = append(h, zeros(6)...)
	if t.Long {
		h = P16(h, 1)
	} else {
		h = P16(h, 0)
	}
	h = P16(h, 0)
	tabs["head"] = h
	hh := P32(nil, 0x10000)
	hh = P16(hh, t.Asc)
	hh = P16(hh, t.Desc)
	hh = append(hh, zeros(26)...)
	hh = P16(hh, len(t.Adv))
	tabs["hhea"] = hh
	mp := P32(nil, 0x10000)
	mp = P16(mp, len(t.Glyphs))
	mp = append(mp, zeros(26)...)
	tabs["maxp"] = mp
	var hm []byte
	for i, a := range t.Adv {
		hm = P16(hm, a)
		hm = P16(hm, 10+i)
	}
	for i := len(t.Adv); i < len(t.Glyphs); i++ {
		hm = P16(hm, 50+i)
	}
	tabs["hmtx"] = hm
	tabs["cmap"] = t.cmap()
	nm := t.Name
	if nm == "" {
		nm = "TestFont"
	}
	n := P16(nil, 0)
	n = P16(n, 1)
	n = P16(n, 18)
	n = P16(n, 3)
	n = P16(n, 1)
	n = P16(n, 0x409)
	n = P16(n, 6)
	n = P16(n, 2*len(nm))
	n = P16(n, 0)
	for i := 0; i < len(nm); i++ {
		n = append(n, 0, nm[i])
	}
	tabs["name"] = n
	o := P16(nil, t.OS2Ver)
	o = append(o, zeros(6)...)
	o = P16(o, 0)
	o = append(o, zeros(22+10+16+4)...)
	o = P16(o, 0)
	o = append(o, zeros(4)...)
	o = P16(o, t.TypoAsc)
	o = P16(o, t.TypoDesc)
	o = P16(o, 0)
	o = P16(o, t.WinAsc)
	o = P16(o, t.WinDesc)
	o = append(o, zeros(8)...)
	o = P16(o, t.XHeight)
	o = P16(o, t.CapH)
	o = append(o, zeros(6)...)
	tabs["OS/2"] = o
	ps := P32(nil, 0x30000)
	ps = P16(ps, t.Italic)
	ps = P16(ps, 0)
	ps = P16(ps, t.UPos)
	ps = P16(ps, t.UThick)
	ps = append(ps, zeros(20)...)
	tabs["post"] = ps
	var gl, lo []byte
	for _, g := range t.Glyphs {
		if t.Long {
			lo = P32(lo, len(gl))
		} else {
			lo = P16(lo, len(gl)/2)
		}
		gl = append(gl, g...)
	}
	if t.Long {
		lo = P32(lo, len(gl))
	} else {
		lo = P16(lo, len(gl)/2)
	}
	tabs["glyf"] = gl
	tabs["loca"] = lo
	if t.Cvt != nil {
		tabs["cvt "] = t.Cvt
	}
	if t.Fpgm != nil {
		tabs["fpgm"] = t.Fpgm
	}
	if t.Prep != nil {
		tabs["prep"] = t.Prep
	}
	subs := t.KernSubs
	if t.Kern != nil {
		subs = append([]KernSub{{Coverage: 1, Pairs: t.Kern}}, subs...)
	}
	if len(subs) > 0 {
		k := P16(nil, 0)
		k = P16(k, len(subs))
		for _, sub := range subs {
			k = P16(k, 0)
			l := 14 + 6*len(sub.Pairs) + sub.Tail
			if sub.Length != 0 {
				l = sub.Length
			}
			k = P16(k, l)
			k = P16(k, sub.Coverage)
			k = P16(k, len(sub.Pairs))
			k = append(k, zeros(6)...)
			for _, p := range sub.Pairs {
				k = P16(k, p.L)
				k = P16(k, p.R)
				k = P16(k, p.V)
			}
			k = append(k, zeros(sub.Tail)...)
		}
		tabs["kern"] = k
	}
	var tags []string
	for tag := range tabs {
		tags = append(tags, tag)
	}
	sort.Strings(tags)
	out := P32(nil, 0x10000)
	out = P16(out, len(tags))
	out = append(out, zeros(6)...)
	off := 12 + 16*len(tags)
	order := append(append([]string(nil), tags[t.Rot%len(tags):]...), tags[:t.Rot%len(tags)]...)
	at := map[string]int{}
	for _, tag := range order {
		at[tag] = off
		off += (len(tabs[tag]) + 3) &^ 3
	}
	for _, tag := range tags {
		out = append(out, tag...)
		out = P32(out, TableSum(tabs[tag]))
		out = P32(out, at[tag])
		out = P32(out, len(tabs[tag]))
	}
	for i, tag := range order {
		out = append(out, tabs[tag]...)
		for len(out)%4 != 0 && !(t.NoPad && i+1 == len(order)) {
			out = append(out, 0)
		}
	}
	return out
}

// TableSum is the checksum of a table.
func TableSum(b []byte) int {
	sum := uint32(0)
	for i := 0; i < len(b); i += 4 {
		var w [4]byte
		copy(w[:], b[i:])
		sum += uint32(w[0])<<24 | uint32(w[1])<<16 | uint32(w[2])<<8 | uint32(w[3])
	}
	return int(sum)
}

// Table is a table of a font file.
type Table struct {
	Sum  int
	Data []byte
}

func U16(b []byte, p int) int { return int(b[p])<<8 | int(b[p+1]) }
func S16(b []byte, p int) int { return int(int16(uint16(b[p])<<8 | uint16(b[p+1]))) }
func U32(b []byte, p int) int {
	return int(b[p])<<24 | int(b[p+1])<<16 | int(b[p+2])<<8 | int(b[p+3])
}

// Sfnt reads a table directory; it reports the first structural problem.
func Sfnt(b []byte) (map[string]Table, string) {
	if len(b) < 12 || U32(b, 0) != 0x10000 {
		return nil, "not a TrueType file"
	}
	n := U16(b, 4)
	if 12+16*n > len(b) {
		return nil, "table directory does not fit"
	}
	m := map[string]Table{}
	prev := ""
	for i := 0; i < n; i++ {
		e := 12 + 16*i
		tag := string(b[e : e+4])
		if tag <= prev {
			return nil, "table directory is not sorted"
		}
		prev = tag
		off, ln := U32(b, e+8), U32(b, e+12)
		if off%4 != 0 || off < 12+16*n && ln > 0 || off+ln > len(b) {
			return nil, "table " + tag + " lies outside the file"
		}
		m[tag] = Table{U32(b, e+4), b[off : off+ln]}
	}
	return m, ""
}
