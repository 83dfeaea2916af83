package pdfx

import (
	"hash/crc32"

	"symh/sym"
)

func chunk(out []byte, typ string, data []byte) []byte {
	out = P32(out, len(data))
	st := len(out)
	out = append(out, typ...)
	out = append(out, data...)
	c := 0
	if !sym.Symbolic() {
		c = int(crc32.ChecksumIEEE(out[st:]))
	}
	return P32(out, c)
}

// PNG describes a PNG file.
type PNG struct {
	W, H, Depth, Color int
	Raw                []byte // filtered scan lines
	Pal, Trns          []byte
	Split              int    // IDAT in two chunks, the first of this size
	Extra              []byte // data of an ancillary chunk before IDAT
	Empty              bool   // an empty IDAT chunk comes first
	Lace               int    // interlace method
}

func (p *PNG) Bytes() []byte {
	out := []byte("\x89PNG\r\n\x1a\n")
	h := P32(nil, p.W)
	h = P32(h, p.H)
	h = append(h, byte(p.Depth), byte(p.Color), 0, 0, byte(p.Lace))
	out = chunk(out, "IHDR", h)
	if p.Extra != nil {
		out = chunk(out, "tEXt", p.Extra)
	}
	if p.Pal != nil {
		out = chunk(out, "PLTE", p.Pal)
	}
	if p.Trns != nil {
		out = chunk(out, "tRNS", p.Trns)
	}
	z := Deflate(p.Raw)
	if p.Empty {
		out = chunk(out, "IDAT", nil)
	}
	if p.Split > 0 && p.Split < len(z) {
		out = chunk(out, "IDAT", z[:p.Split])
		z = z[p.Split:]
	}
	out = chunk(out, "IDAT", z)
	return chunk(out, "IEND", nil)
}

// JPEG is a baseline JPEG with n components and arbitrary entropy-coded data.
func JPEG(w, h, n int, scan []byte) []byte {
	out := []byte{0xff, 0xd8}
	out = append(out, "\xff\xe0\x00\x10JFIF\x00\x01\x01\x00\x00\x01\x00\x01\x00\x00"...)
	if n == 4 {
		out = append(out, "\xff\xee\x00\x0eAdobe\x00\x64\x00\x00\x00\x00\x00"...)
	}
	out = append(out, 0xff, 0xc0)
	out = P16(out, 8+3*n)
	out = append(out, 8)
	out = P16(out, h)
	out = P16(out, w)
	out = append(out, byte(n))
	for i := 0; i < n; i++ {
		out = append(out, byte(i+1), 0x11, 0)
	}
	out = append(out, 0xff, 0xda)
	out = P16(out, 6+2*n)
	out = append(out, byte(n))
	for i := 0; i < n; i++ {
		out = append(out, byte(i+1), 0)
	}
	out = append(out, 0, 63, 0)
	out = append(out, scan...)
	return append(out, 0xff, 0xd9)
}

// Rows are the lines of a picture as stored with PNG prediction: a filter byte
// and the filtered bytes of each line.
type Rows struct {
	Unit  int // bytes per pixel, at least 1
	Lines [][]byte
}

// SplitRows cuts predicted data into h lines of n bytes.
func SplitRows(b []byte, n, h, unit int) (Rows, bool) {
	r := Rows{Unit: unit}
	if len(b) != (n+1)*h {
		return r, false
	}
	for i := 0; i < h; i++ {
		r.Lines = append(r.Lines, b[i*(n+1):(i+1)*(n+1)])
	}
	return r, true
}

// Plane takes the bytes from..from+n-1 of every pixel. Prediction works on
// corresponding bytes of pixels, so it commutes with this.
func (r Rows) Plane(from, n int) Rows {
	out := Rows{Unit: n}
	for _, l := range r.Lines {
		m := []byte{l[0]}
		for i := 1; i < len(l); i += r.Unit {
			m = append(m, l[i+from:i+from+n]...)
		}
		out.Lines = append(out.Lines, m)
	}
	return out
}

// Plain undoes the prediction.
func (r Rows) Plain() [][]byte {
	var out [][]byte
	for k, l := range r.Lines {
		m := make([]byte, len(l)-1)
		for i := range m {
			var a, b, c int
			if i >= r.Unit {
				a = int(m[i-r.Unit])
			}
			if k > 0 {
				b = int(out[k-1][i])
				if i >= r.Unit {
					c = int(out[k-1][i-r.Unit])
				}
			}
			v := 0
			switch l[0] {
			case 1:
				v = a
			case 2:
				v = b
			case 3:
				v = (a + b) / 2
			case 4:
				d := func(x int) int {
					x = a + b - c - x
					if x < 0 {
						return -x
					}
					return x
				}
				v = c
				if d(a) <= d(b) && d(a) <= d(c) {
					v = a
				} else if d(b) <= d(c) {
					v = b
				}
			}
			m[i] = byte(int(l[i+1]) + v)
		}
		out = append(out, m)
	}
	return out
}

// Same tells that two pictures have the same samples.
func (r Rows) Same(s Rows) bool {
	if len(r.Lines) != len(s.Lines) {
		return false
	}
	ok := true
	stored := true
	for i, l := range r.Lines {
		if len(l) != len(s.Lines[i]) {
			return false
		}
		for j := range l {
			stored = sym.And(stored, l[j] == s.Lines[i][j])
		}
	}
	if r.Unit == s.Unit && sym.Fork(stored) {
		return true
	}
	a, b := r.Plain(), s.Plain()
	for i, l := range a {
		for j := range l {
			ok = sym.And(ok, l[j] == b[i][j])
		}
	}
	return ok
}

// Samples reads an image object: its lines, and the number of components.
func (f *File) Samples(o *Obj) (r Rows, comps int, bad string) {
	if o == nil || !o.HasStream || !f.Get(o.V, "Subtype").IsName("Image") {
		return r, 0, "not an image"
	}
	w, h, bpc := f.Get(o.V, "Width").Int(), f.Get(o.V, "Height").Int(), f.Get(o.V, "BitsPerComponent").Int()
	cs := f.Get(o.V, "ColorSpace")
	comps = 1
	switch {
	case cs.IsName("DeviceRGB"):
		comps = 3
	case cs.IsName("DeviceCMYK"):
		comps = 4
	case cs.IsName("DeviceGray"):
	case cs != nil && cs.K == 'a' && len(cs.A) == 4 && cs.A[0].IsName("Indexed"):
	default:
		return r, 0, "unknown colour space"
	}
	b, ok := f.Decoded(o)
	if !ok {
		return r, 0, "the data cannot be read"
	}
	n := (w*bpc*comps + 7) / 8
	unit := (bpc*comps + 7) / 8
	dp := f.Get(o.V, "DecodeParms")
	if dp == nil || f.Get(dp, "Predictor") == nil || f.Get(dp, "Predictor").Int() < 10 {
		if len(b) < n*h {
			return r, 0, "the data are too short"
		}
		r.Unit = unit
		for i := 0; i < h; i++ {
			r.Lines = append(r.Lines, append([]byte{0}, b[i*n:(i+1)*n]...))
		}
		return r, comps, ""
	}
	num := func(k string, d int) int {
		if v := f.Get(dp, k); v != nil {
			return v.Int()
		}
		return d
	}
	if num("Columns", 1) != w || num("Colors", 1) != comps || num("BitsPerComponent", 8) != bpc {
		return r, 0, "the prediction does not fit the image"
	}
	r, ok = SplitRows(b, n, h, unit)
	if !ok {
		return r, 0, "the data do not fill the image"
	}
	return r, comps, ""
}

// FixPNG makes the checksums of a PNG file right again (natively only: the
// model of the image decoder does not look at them).
func FixPNG(b []byte) {
	if sym.Symbolic() || len(b) < 8 || b[0] != 0x89 {
		return
	}
	for i := 8; i+12 <= len(b); {
		n := int(b[i])<<24 | int(b[i+1])<<16 | int(b[i+2])<<8 | int(b[i+3])
		if n > len(b)-i-12 {
			return
		}
		c := crc32.ChecksumIEEE(b[i+4 : i+8+n])
		copy(b[i+8+n:], []byte{byte(c >> 24), byte(c >> 16), byte(c >> 8), byte(c)})
		i += 12 + n
	}
}
