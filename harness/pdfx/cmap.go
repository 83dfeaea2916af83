package pdfx

// BfRange is one entry of a ToUnicode map: codes Lo..Hi stand for the text To
// (UTF-16), counted up in its last unit.
type BfRange struct {
	Lo, Hi []byte
	To     []byte
}

// CMap is a ToUnicode map.
type CMap struct {
	Spaces [][2][]byte
	Ranges []BfRange
}

// ParseCMap reads a ToUnicode map; bad tells what is wrong with it.
func ParseCMap(b []byte) (m *CMap, bad string) {
	ops, ok := Ops(b)
	if !ok {
		return nil, "not well-formed"
	}
	m = &CMap{}
	n := -1
	open := ""
	began := false
	for _, o := range ops {
		switch o.Name {
		case "begincmap":
			began = true
		case "endcmap":
			if open != "" || !began {
				return nil, "endcmap out of place"
			}
			began = false
		case "begincodespacerange", "beginbfrange", "beginbfchar":
			if open != "" || !began || len(o.Args) != 1 {
				return nil, o.Name + " out of place"
			}
			open = o.Name[5:]
			n = o.Args[0].Int()
			if n < 1 || n > 100 {
				return nil, "a block has no or too many entries"
			}
		case "endcodespacerange", "endbfrange", "endbfchar":
			if open != o.Name[3:] {
				return nil, o.Name + " out of place"
			}
			open = ""
			k := 2
			if o.Name == "endbfrange" {
				k = 3
			}
			if len(o.Args) != k*n {
				return nil, "a block does not have the number of entries it says"
			}
			for i := 0; i < len(o.Args); i += k {
				for _, a := range o.Args[i : i+k] {
					if a.K != 's' {
						return nil, "an entry is not made of strings"
					}
				}
				x, y := []byte(o.Args[i].S), []byte(o.Args[i+1].S)
				switch o.Name {
				case "endcodespacerange":
					if len(x) != len(y) || len(x) == 0 || len(x) > 4 {
						return nil, "a code space range is not well-formed"
					}
					m.Spaces = append(m.Spaces, [2][]byte{x, y})
				case "endbfchar":
					m.Ranges = append(m.Ranges, BfRange{x, x, y})
				default:
					m.Ranges = append(m.Ranges, BfRange{x, y, []byte(o.Args[i+2].S)})
				}
			}
		}
	}
	if began || open != "" {
		return nil, "not ended"
	}
	return m, ""
}
