//go:build symvm

// Package sym is the harness interface of the symbolic executor. Under the
// symvm tag every function is an intrinsic of the executor.
package sym

func Byte(name string) byte                       { panic("vm") }
func Bytes(name string, n int) []byte             { panic("vm") }
func Bool(name string) bool                       { panic("vm") }
func Int(name string, lo, hi int) int             { panic("vm") }
func Choice(name string, n int) int               { panic("vm") }
func Float(name string, lo, hi float64) float64   { panic("vm") }
func Assume(c bool)                               { panic("vm") }
func Assert(c bool, msg string)                   { panic("vm") }
func Reach(label string)                          { panic("vm") }
func Symbolic() bool                              { panic("vm") }
func Tier() int                                   { panic("vm") }
func Concrete(n int) int                          { panic("vm") }
func Fork(b bool) bool                            { panic("vm") }
func MapOrders(n int)                             { panic("vm") }
func And(a, b bool) bool                          { panic("vm") }
func Or(a, b bool) bool                           { panic("vm") }
func IteInt(c bool, a, b int) int                 { panic("vm") }
func Num(s string) float64                        { panic("vm") }
func Observe(label string, v string)              { panic("vm") }
func File(name string, data []byte) string        { panic("vm") }
func ReadBack(name string) []byte                 { panic("vm") }
