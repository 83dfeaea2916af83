package pdfx

// Op is one operator of a content stream.
type Op struct {
	Name string
	Args []*Val
}

// Ops splits a content stream; ok is false when it is not well formed.
func Ops(b []byte) (ops []Op, ok bool) {
	l := &lexer{b: b}
	var args []*Val
	for {
		l.skip()
		if l.p >= len(l.b) {
			return ops, len(args) == 0
		}
		c := l.b[l.p]
		if !isDelim(c) && !isSpace(c) {
			save := l.p
			w := l.word()
			if !isNum(w) && w != "true" && w != "false" && w != "null" {
				ops = append(ops, Op{w, args})
				args = nil
				continue
			}
			if isNum(w) {
				args = append(args, &Val{K: 'n', S: w})
				continue
			}
			l.p = save
		}
		v := l.value()
		if l.err {
			return ops, false
		}
		args = append(args, v)
	}
}
