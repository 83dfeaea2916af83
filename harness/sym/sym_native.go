//go:build !symvm

// Package sym, native side: inputs come from a recorded assignment.
package sym

import (
	"encoding/hex"
	"os"
	"path/filepath"
	"strconv"
)

type Input struct {
	Name string  `json:"n"`
	Kind string  `json:"k"`
	Int  int64   `json:"i,omitempty"`
	Hex  string  `json:"x,omitempty"`
	F    float64 `json:"f,omitempty"`
}

type Obs struct {
	Label string `json:"l"`
	Hex   string `json:"x"`
}

type Stop struct{ Why string }

var (
	Inputs   []Input
	pos      int
	Failures []string
	Observed []Obs
	Reached  []string
	TierN    int
	Dir      string
)

func Reset(in []Input) {
	Inputs, pos, Failures, Observed, Reached = in, 0, nil, nil, nil
}

func next(name string) Input {
	if pos >= len(Inputs) || Inputs[pos].Name != name {
		panic(Stop{"diverged at input " + name})
	}
	pos++
	return Inputs[pos-1]
}

func Byte(name string) byte { return byte(next(name).Int) }
func Bytes(name string, n int) []byte {
	b, _ := hex.DecodeString(next(name).Hex)
	if len(b) != n {
		panic(Stop{"diverged at input " + name})
	}
	return b
}
func Bool(name string) bool                     { return next(name).Int == 1 }
func Int(name string, lo, hi int) int           { return int(next(name).Int) }
func Choice(name string, n int) int             { return int(next(name).Int) }
func Float(name string, lo, hi float64) float64 { return next(name).F }
func Assume(c bool) {
	if !c {
		panic(Stop{"assume"})
	}
}
func Assert(c bool, msg string) {
	if !c {
		Failures = append(Failures, msg)
	}
}
func Reach(label string)          { Reached = append(Reached, label) }
func Symbolic() bool              { return false }
func Tier() int                   { return TierN }
func Concrete(n int) int          { return n }
func Fork(b bool) bool            { return b }
func MapOrders(n int)             {}
func And(a, b bool) bool          { return a && b }
func Or(a, b bool) bool           { return a || b }
func IteInt(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}
func Num(s string) float64 {
	f, err := strconv.ParseFloat(s, 64)
	if err != nil {
		return -1e9
	}
	return f
}
func Observe(label string, v string) {
	Observed = append(Observed, Obs{label, hex.EncodeToString([]byte(v))})
}

// File stores data under a scratch directory and returns its path.
func File(name string, data []byte) string {
	p := filepath.Join(Dir, name)
	os.Remove(p)
	if data != nil {
		os.WriteFile(p, data, 0644)
	}
	return p
}
func ReadBack(name string) []byte {
	b, _ := os.ReadFile(name)
	return b
}
