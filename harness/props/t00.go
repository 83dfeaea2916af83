package props

import (
	"bytes"
	"fmt"
	"regexp"
	"strings"

	"symh/sym"
)

func T00_Basic() {
	b := sym.Bytes("b", 4)
	n := 0
	for _, c := range b {
		if c == 'a' {
			n++
		}
	}
	sym.Assert(n == strings.Count(string(b), "a"), "count")
	sym.Assert(n < 4, "expected-violation")
	sym.Observe("n", fmt.Sprintf("%d", n))
}

func T00_Float() {
	x := sym.Float("x", 0, 100)
	y := sym.Float("y", 0, 100)
	s := fmt.Sprintf("%0.2f %d", x*1.2-y/2, 7)
	f := strings.Fields(s)
	v := sym.Num(f[0])
	d := v - (x*1.2 - y/2)
	sym.Assert(d < 0.0051 && d > -0.0051, "close")
	if x > y+3 {
		sym.Assert(x*2 > y*2+6, "mono")
		sym.Assert(x*2 > y*2+7, "expected-violation")
	}
}

func T00_Regex() {
	b := sym.Bytes("b", 3)
	s := "ab " + string(b) + " [x]"
	re := regexp.MustCompile("[\\r\\n\\t ]+\\[")
	out := re.ReplaceAllString(s, "[")
	sym.Assert(strings.HasSuffix(out, "[x]"), "suffix")
	var buf bytes.Buffer
	fmt.Fprintf(&buf, "<%04X> %x", int(b[0])+256, b[1])
	sym.Observe("buf", buf.String())
	m := map[string]int{}
	m[string(b[:1])] = 1
	m["z"] = 2
	sym.Assert(m["z"] == 2, "map")
	for i, r := range "é" + string(b[2:]) {
		if i == 2 && r < 128 {
			sym.Assert(byte(r) == b[2], "rune")
		}
	}
}

func T00_K() {
	v := -sym.Int("n", 205, 999)
	n := int(int16(v))
	sym.Assert(n == v, "A")
	up := 2048
	r := n % up
	sym.Assert(r == v, "B")
	sr := 1000 * r
	sym.Assert(sr != 0, "C")
	l := r / sr
	sym.Assert(l == 0, "D")
	sym.Assert(sr/r == 1000, "D2")
	q := (-1000 * n) / up
	sym.Assert(q == -(v*1000/up), "E")
	ret := -(q - l)
	sym.Assert(ret == v*1000/up, "F")
	f := float64(ret+500) * (10.0 / 1000.0)
	g := float64(v*1000/up+500) / 100
	sym.Assert(near(f, g, 0.001), "G")
}
