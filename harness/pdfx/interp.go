package pdfx

import "symh/sym"

// Item is a glyph shown or an adjustment inside a text object.
type Item struct {
	Adj  bool
	Code int     // two-byte code
	Amt  float64 // adjustment
	Rise float64
}

// Mark is something a content stream paints.
type Mark struct {
	K          byte // T text, R filled rectangle, L stroked line, I external object; of Drawn also r stroked rectangle, C stroked and c filled curve
	X, Y, W, H float64
	X2, Y2     float64
	M          [6]float64
	Name       string // font or object name
	Size       float64
	RGB        [3]float64
	Items      []Item
	Width      float64
	Dash       string
	Path       []float64 // of a curve: start, then the three points of each piece
}

type gstate struct {
	m     [6]float64
	rgb   [3]float64
	line  [3]float64
	width float64
	dash  string
}

func mul(a, b [6]float64) [6]float64 {
	return [6]float64{
		a[0]*b[0] + a[1]*b[2], a[0]*b[1] + a[1]*b[3],
		a[2]*b[0] + a[3]*b[2], a[2]*b[1] + a[3]*b[3],
		a[4]*b[0] + a[5]*b[2] + b[4], a[4]*b[1] + a[5]*b[3] + b[5],
	}
}

func (v *Val) Num() float64 {
	if v == nil || v.K != 'n' {
		return -1e9
	}
	return sym.Num(v.S)
}

// Marks interprets a content stream; bad tells what is wrong with it, if anything.
func Marks(b []byte) (marks []Mark, bad string) { return interp(b, false) }

// Drawn is Marks with the outlines of rectangles and with curves; RGB of what is
// stroked is the stroke colour.
func Drawn(b []byte) (marks []Mark, bad string) { return interp(b, true) }

// paint gives the marks of a path.
func paint(path []Mark, g gstate, fill, stroke, full bool) []Mark {
	var out []Mark
	if fill {
		for _, m := range path {
			m.RGB = g.rgb
			switch {
			case m.K == 'r':
				m.K = 'R'
			case m.K == 'C' && full:
				m.K = 'c'
			default:
				continue
			}
			out = append(out, m)
		}
	}
	if stroke {
		for _, m := range path {
			m.Width, m.Dash = g.width, g.dash
			if m.K == 'L' && !full {
				out = append(out, m)
			} else if full {
				m.RGB = g.line
				out = append(out, m)
			}
		}
	}
	return out
}

func interp(b []byte, full bool) (marks []Mark, bad string) {
	ops, ok := Ops(b)
	if !ok {
		return nil, "content is not a sequence of operators"
	}
	g := gstate{m: [6]float64{1, 0, 0, 1, 0, 0}, width: 1, dash: "[] 0"}
	var stack []gstate
	inText := false
	var tx, ty, rise, size float64
	font := ""
	var text *Mark
	var px, py float64
	curve := false // the last path operator was a curve
	var path []Mark
	for _, o := range ops {
		n := len(o.Args)
		arg := func(i int) float64 { return o.Args[i].Num() }
		switch o.Name {
		case "q", "Q", "BT", "ET", "Do", "cm", "rg", "g", "w", "d", "m", "l", "s", "S", "re", "f", "Tf", "Td", "TD", "Tj", "TJ", "Ts", "c", "B", "n", "RG", "G":
		default:
			continue
		}
		need := map[string]int{"q": 0, "Q": 0, "BT": 0, "ET": 0, "Do": 1, "cm": 6, "rg": 3, "g": 1, "w": 1, "d": 2, "m": 2, "l": 2, "s": 0, "S": 0, "re": 4, "f": 0, "Tf": 2, "Td": 2, "TD": 2, "Tj": 1, "TJ": 1, "Ts": 1, "c": 6, "B": 0, "n": 0, "RG": 3, "G": 1}[o.Name]
		if n != need {
			return marks, "operator " + o.Name + " has the wrong number of operands"
		}
		wasCurve := o.Name == "c"
		switch o.Name {
		case "q":
			stack = append(stack, g)
		case "Q":
			if len(stack) == 0 {
				return marks, "Q without q"
			}
			g = stack[len(stack)-1]
			stack = stack[:len(stack)-1]
		case "cm":
			g.m = mul([6]float64{arg(0), arg(1), arg(2), arg(3), arg(4), arg(5)}, g.m)
		case "Do":
			if o.Args[0].K != '/' {
				return marks, "Do without a name"
			}
			marks = append(marks, Mark{K: 'I', M: g.m, Name: o.Args[0].S})
		case "rg":
			g.rgb = [3]float64{arg(0), arg(1), arg(2)}
		case "g":
			g.rgb = [3]float64{arg(0), arg(0), arg(0)}
		case "w":
			g.width = arg(0)
		case "d":
			g.dash = o.Args[0].String() + " " + o.Args[1].String()
		case "m":
			px, py = arg(0), arg(1)
		case "RG":
			g.line = [3]float64{arg(0), arg(1), arg(2)}
		case "G":
			g.line = [3]float64{arg(0), arg(0), arg(0)}
		case "l":
			path = append(path, Mark{K: 'L', X: px, Y: py, X2: arg(0), Y2: arg(1)})
			px, py = arg(0), arg(1)
		case "c":
			ex, ey := arg(4), arg(5)
			if !curve {
				path = append(path, Mark{K: 'C', X: px, Y: py, Path: []float64{px, py}})
			}
			k := len(path) - 1
			path[k].Path = append(path[k].Path, arg(0), arg(1), arg(2), arg(3), ex, ey)
			path[k].X2, path[k].Y2 = ex, ey
			px, py = ex, ey
		case "re":
			path = append(path, Mark{K: 'r', X: arg(0), Y: arg(1), W: arg(2), H: arg(3)})
		case "s", "S", "f", "B", "n":
			marks = append(marks, paint(path, g, o.Name == "f" || o.Name == "B", o.Name == "s" || o.Name == "S" || o.Name == "B", full)...)
			path = nil
		case "BT":
			if inText {
				return marks, "nested BT"
			}
			inText = true
			tx, ty = 0, 0
			text = nil
		case "ET":
			if !inText {
				return marks, "ET without BT"
			}
			inText = false
			if text != nil {
				marks = append(marks, *text)
			}
			text = nil
		case "Tf":
			if o.Args[0].K != '/' {
				return marks, "Tf without a font name"
			}
			font = o.Args[0].S
			size = arg(1)
		case "Td", "TD":
			tx += arg(0)
			ty += arg(1)
		case "Ts":
			rise = arg(0)
		case "Tj", "TJ":
			if o.Name == "Tj" {
				o.Args[0] = &Val{K: 'a', A: []*Val{o.Args[0]}}
			}
			if !inText {
				return marks, "TJ outside a text object"
			}
			if o.Args[0].K != 'a' {
				return marks, "TJ without an array"
			}
			if text == nil {
				text = &Mark{K: 'T', X: tx, Y: ty, M: g.m, Name: font, Size: size, RGB: g.rgb}
			}
			for _, e := range o.Args[0].A {
				switch e.K {
				case 'n':
					text.Items = append(text.Items, Item{Adj: true, Amt: e.Num()})
				case 's':
					bs := []byte(e.S)
					if len(bs)%2 != 0 {
						return marks, "odd number of bytes shown with a two-byte font"
					}
					for i := 0; i < len(bs); i += 2 {
						text.Items = append(text.Items, Item{Code: int(bs[i])<<8 | int(bs[i+1]), Rise: rise})
					}
				default:
					return marks, "TJ array holds something else"
				}
			}
		}
		curve = wasCurve
	}
	if inText {
		return marks, "BT without ET"
	}
	if len(stack) != 0 {
		return marks, "q without Q"
	}
	return marks, ""
}
