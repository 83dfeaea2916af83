#!/usr/bin/env python3
"""Flattens the PDF reader/builder of the harness into one test file for demos."""
import re, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
imports, body = set(), []
files = ["harness/pdfx/%s.go" % n for n in "parse build img content hex interp ttf".split()] + ["harness/props/util.go"]
for f in files:
    s = open(os.path.join(V, f)).read()
    m = re.search(r'^import \((.*?)^\)', s, re.S | re.M)
    if m:
        for l in m.group(1).split("\n"):
            if l.strip() and "symh/" not in l:
                imports.add(l.strip())
        s = s[:m.start()] + s[m.end():]
    else:
        for m in re.finditer(r'^import (".*")$', s, re.M):
            if "symh/" not in m.group(1):
                imports.add(m.group(1))
        s = re.sub(r'^import ".*"$', '', s, flags=re.M)
    s = re.sub(r'^package \w+$', '', s, flags=re.M)
    if f.endswith("util.go"):
        s = s.replace("pdfx.", "")
        s = re.sub(r'// symContent.*?^}\n', '', s, flags=re.S | re.M)
    s = s.replace("sym.Symbolic()", "false").replace("sym.And(", "and(").replace("sym.Or(", "or(").replace("sym.Assert(", "check(").replace("sym.Num(", "num(").replace("sym.IteInt(", "iteInt(").replace("sym.Concrete(", "(").replace("sym.Fork(", "(")
    s = re.sub(r"^\tsym.Observe.*\n", "", s, flags=re.M)
    body.append(s)
assert "sym." not in "".join(body).replace("//",""), re.findall(r'.*sym\..*', "".join(body))
imports |= {'"strconv"', '"testing"', '"fmt"', '"os"'}
out = "package pdft_test\n\nimport (\n" + "\n".join("\t" + i for i in sorted(imports)) + "\n)\n" + "\n".join(body) + '''
var demoFailed bool

func and(a, b bool) bool { return a && b }
func or(a, b bool) bool  { return a || b }
func check(ok bool, msg string) {
	if !ok {
		demoFailed = true
		fmt.Println("FAILED:", msg)
	}
}
func must(err error) {
	if err != nil {
		check(false, "unexpected error: "+err.Error())
	}
}
func num(s string) float64 {
	f, err := strconv.ParseFloat(s, 64)
	if err != nil {
		return -1e9
	}
	return f
}
func iteInt(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}
func TestDemo(t *testing.T) {
	defer func() {
		if r := recover(); r != nil {
			t.Fatal("panic:", r)
		}
	}()
	demo()
	if demoFailed {
		t.Fatal("the property does not hold")
	}
	_ = os.Args
}
'''
open(sys.argv[1], "w").write(out)
