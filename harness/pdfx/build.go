package pdfx

import (
	"bytes"
	"strconv"
)

// Doc is a template under construction.
type Doc struct {
	EOL    string // end of line between tokens of the file structure
	XEOL   string // end of an xref entry (two characters)
	Pre    string // text before every object
	objs   []tobj
	Tail   string // after %%EOF
	Header string
}

type tobj struct {
	id   int
	body []byte
}

func NewDoc() *Doc { return &Doc{EOL: "\n", XEOL: " \n", Header: "%PDF-1.4\n"} }

func (d *Doc) Obj(id int, body string)  { d.objs = append(d.objs, tobj{id, []byte(body)}) }
func (d *Doc) ObjB(id int, body []byte) { d.objs = append(d.objs, tobj{id, body}) }
func (d *Doc) Stream(id int, dict string, data []byte) {
	b := []byte("<<" + dict + "/Length " + strconv.Itoa(len(data)) + ">>" + d.EOL + "stream" + d.EOL)
	b = append(b, data...)
	b = append(b, (d.EOL + "endstream")...)
	d.ObjB(id, b)
}

func pad(n, w int) string {
	s := strconv.Itoa(n)
	for len(s) < w {
		s = "0" + s
	}
	return s
}

// Bytes writes the file; unused numbers become free entries.
func (d *Doc) Bytes(root int) []byte {
	e := d.EOL
	out := []byte(d.Header)
	max := 0
	for _, o := range d.objs {
		if o.id > max {
			max = o.id
		}
	}
	offs := make([]int, max+1)
	for _, o := range d.objs {
		out = append(out, d.Pre...)
		offs[o.id] = len(out)
		out = append(out, (strconv.Itoa(o.id) + " 0 obj" + e)...)
		out = append(out, o.body...)
		out = append(out, (e + "endobj" + e)...)
	}
	xr := len(out)
	out = append(out, ("xref" + e + "0 " + strconv.Itoa(max+1) + e)...)
	out = append(out, ("0000000000 65535 f" + d.XEOL)...)
	for i := 1; i <= max; i++ {
		if offs[i] == 0 {
			out = append(out, ("0000000000 00001 f" + d.XEOL)...)
			continue
		}
		out = append(out, (pad(offs[i], 10) + " 00000 n" + d.XEOL)...)
	}
	out = append(out, ("trailer" + e + "<</Size " + strconv.Itoa(max+1) + "/Root " + strconv.Itoa(root) + " 0 R>>" + e + "startxref" + e + strconv.Itoa(xr) + e + "%%EOF" + e)...)
	return append(out, d.Tail...)
}

// Layout is a way to lay the objects of a file out.
type Layout struct {
	Header string
	EOL    string // between lines
	XEOL   string // end of an xref entry (two characters)
	Pre    string // before every object
	Order  []int  // order of the objects in the file (indices); nil: as added
	Split  bool   // one xref subsection per object
	Head   string // what follows the number of an object
	Tail   string // after %%EOF
	Gap    string // between the parts of an object's header (a space if empty)
	First  int    // > 0: the objects from the n-th on get a section of their own at the front, as in linearised files
	Trail  string // more trailer entries
	Drop   []int  // objects an update frees
	Update []func(*Doc)
}

func (d *Doc) section(out []byte, l Layout, objs []tobj, root, size, prev int, free []int, first bool) ([]byte, int) {
	e := l.EOL
	offs := map[int]int{}
	var ids []int
	for k := range objs {
		o := objs[k]
		if l.Order != nil && len(l.Order) == len(objs) {
			o = objs[l.Order[k]]
		}
		out = append(out, l.Pre...)
		offs[o.id] = len(out)
		g := l.Gap
		if g == "" {
			g = " "
		}
		out = append(out, (strconv.Itoa(o.id) + g + "0" + g + "obj" + l.Head)...)
		out = append(out, o.body...)
		out = append(out, (e + "endobj" + e)...)
	}
	for i := 0; i < size; i++ {
		if _, ok := offs[i]; ok || first && i == 0 {
			ids = append(ids, i)
			continue
		}
		for _, x := range free {
			if x == i {
				ids = append(ids, i)
			}
		}
	}
	xr := len(out)
	out = append(out, ("xref" + e)...)
	for k := 0; k < len(ids); {
		n := 1
		for !l.Split && k+n < len(ids) && ids[k+n] == ids[k]+n {
			n++
		}
		out = append(out, (strconv.Itoa(ids[k]) + " " + strconv.Itoa(n) + e)...)
		for i := k; i < k+n; i++ {
			if off, ok := offs[ids[i]]; ok {
				out = append(out, (pad(off, 10) + " 00000 n" + l.XEOL)...)
			} else if ids[i] == 0 {
				out = append(out, ("0000000000 65535 f" + l.XEOL)...)
			} else {
				out = append(out, ("0000000000 00001 f" + l.XEOL)...)
			}
		}
		k += n
	}
	tr := "trailer" + e + "<</Size " + strconv.Itoa(size)
	if root > 0 {
		tr += "/Root " + strconv.Itoa(root) + " 0 R"
	}
	tr += l.Trail
	if prev > 0 {
		tr += "/Prev " + strconv.Itoa(prev)
	}
	return append(out, (tr + ">>" + e)...), xr
}

// Write lays the file out.
func (d *Doc) Write(root int, l Layout) []byte {
	size := 1
	for _, o := range d.objs {
		if o.id >= size {
			size = o.id + 1
		}
	}
	e := l.EOL
	out := []byte(l.Header)
	objs := d.objs
	at := 0
	if l.First > 0 {
		out, at = d.section(out, l, objs[l.First:], root, size, 1000000, nil, false)
		out = append(out, ("startxref" + e + "0" + e + "%%EOF" + e)...)
		objs = objs[:l.First]
		root = 0
	}
	var last int
	out, last = d.section(out, l, objs, root, size, 0, nil, true)
	if l.First > 0 {
		i := bytes.Index(out, []byte("/Prev 1000000"))
		copy(out[i+6:], pad(last, 7))
		last = at
	}
	out = append(out, ("startxref" + e + strconv.Itoa(last) + e + "%%EOF" + e)...)
	for i, u := range l.Update {
		up := &Doc{EOL: d.EOL, XEOL: d.XEOL}
		u(up)
		for _, o := range up.objs {
			if o.id >= size {
				size = o.id + 1
			}
		}
		var free []int
		if i == 0 {
			free = l.Drop
		}
		out, last = d.section(out, l, up.objs, root, size, last, free, false)
		out = append(out, ("startxref" + e + strconv.Itoa(last) + e + "%%EOF" + e)...)
	}
	return append(out, l.Tail...)
}

// CopyObj takes an object over.
func (d *Doc) CopyObj(from *Doc, id int) {
	for _, o := range from.objs {
		if o.id == id {
			d.ObjB(id, o.body)
		}
	}
}
