package pdfx

import "symh/sym"

// UnHex decodes hexadecimal digits without branching on them; a wrong digit
// gives an arbitrary value.
func UnHex(b []byte) []byte {
	var out []byte
	var d []byte
	for _, c := range b {
		if !isSpace(c) {
			d = append(d, c)
		}
	}
	b = d
	for i := 0; i < len(b); i += 2 {
		h := Nib(b[i])
		l := 0
		if i+1 < len(b) {
			l = Nib(b[i+1])
		}
		out = append(out, byte(h<<4|l))
	}
	return out
}

// Nib is the value of one hexadecimal digit.
func Nib(c byte) int {
	return sym.IteInt(c <= '9', int(c-'0'), sym.IteInt(c <= 'F', int(c-'A')+10, int(c-'a')+10)) & 15
}
