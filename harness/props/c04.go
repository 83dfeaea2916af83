package props

import (
	"github.com/signintech/pdft"
	"symh/pdfx"
	"symh/sym"
)

// edit applies one page operation to the document and to the model (a list of
// page marks).
func edit(p *pdft.PDFt, model []int, k int) []int {
	n := len(model)
	kind := sym.Choice("op"+itoa(k), 3)
	target := sym.Int("target"+itoa(k), -big, big)
	valid := sym.Fork(sym.And(target >= 1, target <= n))
	if valid {
		target = sym.Concrete(target)
	}
	pos := 0
	var err error
	switch kind {
	case 0:
		err = p.RemovePage(target)
	case 1:
		err = p.RemoveOtherPages(target)
	case 2:
		pos = sym.Int("pos"+itoa(k), -big, big)
		if sym.Fork(sym.And(pos >= -n, pos < n)) {
			pos = sym.Concrete(pos)
		} else {
			valid = false
		}
		err = p.DuplicatePageAfter(target, pos)
	}
	if valid {
		sym.Assert(err == nil, "a valid page operation succeeds")
	} else {
		sym.Assert(err != nil, "an invalid page operation is refused")
		sym.Assert(p.GetNumberOfPage() == n, "page count follows the operations")
		return model
	}
	t := target - 1
	var out []int
	switch kind {
	case 0:
		out = append(append([]int{}, model[:t]...), model[t+1:]...)
	case 1:
		out = []int{model[t]}
	case 2:
		q := pos
		if q < 0 {
			q += n
		}
		out = append([]int{}, model[:q+1]...)
		out = append(append(out, model[t]), model[q+1:]...)
	}
	sym.Assert(p.GetNumberOfPage() == len(out), "page count follows the operations")
	return out
}

const big = 1 << 40

func checkPages(f *pdfx.File, model []int, ps []tpage) {
	pages := f.Pages()
	sym.Assert(len(pages) == len(model), "the saved file has the pages asked for")
	for i, pg := range pages {
		if i >= len(model) {
			break
		}
		restOf(f, pg, ps[model[i]].content)
		mb := f.Inherited(pg, "MediaBox")
		sym.Assert(mb != nil && len(mb.A) == 4 && mb.A[3].Num() == float64(ps[model[i]].h), "each page keeps its size")
		sym.Assert(f.Obj(pg).V.Get("Rotate").Int() == 90*model[i], "each page keeps its entries")
	}
}

func threePages() []tpage {
	var ps []tpage
	for i := 0; i < 3; i++ {
		ps = append(ps, tpage{h: 500 + 100*i, content: symContent("c"+itoa(i), 3), extra: "/Rotate " + itoa(90*i)})
	}
	return ps
}

// C04_Model: 3 pages with arbitrary contents and different sizes, two page
// operations in any order with any target and position (+-2^40), then a text on
// the middle page (thorough: any page): the page list equals that of a list model, invalid operations are
// refused and change nothing, and the text is on the one page asked for, placed
// by that page's height.
func C04_Model() {
	ps := threePages()
	p := open(mkTmpl(ps...).raw)
	model := []int{0, 1, 2}
	n := 2
	for k := 0; k < n; k++ {
		model = edit(p, model, k)
	}
	if len(model) == 0 {
		return
	}
	addFont(p, "a", stdFont())
	p.SetFont("a", "", 10)
	at := 1 + len(model)/2
	if sym.Tier() > 0 {
		at = 1 + sym.Choice("page", len(model))
	}
	err := p.Insert("B", at, 10, 20, 100, 20, pdft.Left, nil)
	sym.Assert(err == nil, "insert succeeds")
	f := saved(p)
	checkPages(f, model, ps)
	for i, pg := range f.Pages() {
		ms, bad := pdfx.Marks(restOf(f, pg, ps[model[i]].content))
		sym.Assert(bad == "", "added content is well-formed: "+bad)
		if i+1 != at {
			sym.Assert(len(ms) == 0, "the other pages do not show the text")
			continue
		}
		sym.Assert(len(ms) == 1 && ms[0].K == 'T', "the page shows the text")
		fn := stdFont()
		y := float64(ps[model[i]].h) - 20 - float64(fn.TypoAsc)*10/float64(fn.UPM)
		sym.Assert(near(ms[0].Y, y, cent), "the text is placed by the height of its page")
	}
}

// C04_Reopen: one page operation, save, reopen, another one: the file is the
// same as the list model says.
func C04_Reopen() {
	ps := threePages()
	m := []int{0, 1, 2}
	if sym.Tier() == 0 {
		ps, m = ps[1:], m[:2]
		ps[0].extra, ps[1].extra = "/Rotate 0", "/Rotate 90"
	}
	p := open(mkTmpl(ps...).raw)
	model := edit(p, m, 0)
	if len(model) == 0 {
		return
	}
	p = open(save(p))
	sym.Assert(p.GetNumberOfPage() == len(model), "page count after reopening")
	model = edit(p, model, 1)
	if len(model) == 0 {
		return
	}
	checkPages(saved(p), model, ps)
}

// C04_Tree: 3 or 4 pages in a nested page tree (which of the pages 2 and 3 are
// below an inner node, itself possibly below another one), one page operation.
func C04_Tree() {
	ps := threePages()
	d := pdfx.NewDoc()
	d.Obj(1, "<</Type/Catalog/Pages 2 0 R>>")
	d.Obj(3, "<</Type/Font/Subtype/Type1/BaseFont/Helvetica>>")
	par := [3]int{2, 2, 2}
	switch sym.Choice("shape", 5) {
	case 0:
		d.Obj(2, "<</Type/Pages/Kids[4 0 R 10 0 R]/Count 3>>")
		d.Obj(10, "<</Type/Pages/Parent 2 0 R/Kids[6 0 R 8 0 R]/Count 2>>")
		par = [3]int{2, 10, 10}
	case 1:
		d.Obj(2, "<</Type/Pages/Kids[10 0 R 8 0 R]/Count 3>>")
		d.Obj(10, "<</Type/Pages/Parent 2 0 R/Kids[4 0 R 6 0 R]/Count 2>>")
		par = [3]int{10, 10, 2}
	case 2:
		d.Obj(2, "<</Type/Pages/Kids[10 0 R 11 0 R]/Count 3>>")
		d.Obj(10, "<</Type/Pages/Parent 2 0 R/Kids[4 0 R]/Count 1>>")
		d.Obj(11, "<</Type/Pages/Parent 2 0 R/Kids[6 0 R 8 0 R]/Count 2>>")
		par = [3]int{10, 11, 11}
	case 3:
		d.Obj(2, "<</Type/Pages/Kids[10 0 R]/Count 3>>")
		d.Obj(10, "<</Type/Pages/Parent 2 0 R/Kids[4 0 R 11 0 R]/Count 3>>")
		d.Obj(11, "<</Type/Pages/Parent 10 0 R/Kids[6 0 R 8 0 R]/Count 2>>")
		par = [3]int{10, 11, 11}
	default:
		d.Obj(2, "<</Type/Pages/Kids[4 0 R 10 0 R 8 0 R]/Count 3>>")
		d.Obj(10, "<</Type/Pages/Parent 2 0 R/Kids[6 0 R]/Count 1>>")
		par = [3]int{2, 10, 2}
	}
	for i, tp := range ps {
		id := 4 + 2*i
		d.Obj(id, "<</Type/Page/Parent "+itoa(par[i])+" 0 R/MediaBox[0 0 600 "+itoa(tp.h)+"]"+tp.extra+"/Resources"+defRes+"/Contents "+itoa(id+1)+" 0 R>>")
		d.Stream(id+1, "", tp.content)
	}
	p := open(d.Bytes(1))
	model := []int{0, 1, 2}
	sym.Assert(p.GetNumberOfPage() == 3, "all pages of the tree are found")
	if sym.Bool("edit") {
		model = edit(p, model, 0)
	}
	if len(model) == 0 {
		return
	}
	addFont(p, "a", stdFont())
	p.SetFont("a", "", 10)
	at := 1 + sym.Choice("page", len(model))
	err := p.Insert("B", at, 10, 20, 100, 20, pdft.Left, nil)
	sym.Assert(err == nil, "insert succeeds")
	f := saved(p)
	checkPages(f, model, ps)
	for i, pg := range f.Pages() {
		ms, _ := pdfx.Marks(restOf(f, pg, ps[model[i]].content))
		want := 0
		if i+1 == at {
			want = 1
		}
		sym.Assert(len(ms) == want, "the text is on the page asked for")
		if want == 1 && len(ms) == 1 {
			fo := f.Resource(pg, "Font", ms[0].Name)
			sym.Assert(fo != nil, "the text's font is a resource of the page")
		}
	}
}

// C04_Array: duplicating a page whose content is an array of streams.
func C04_Array() {
	n := 1 + sym.Choice("streams", 3)
	d := pdfx.NewDoc()
	d.Obj(1, "<</Type/Catalog/Pages 2 0 R>>")
	d.Obj(2, "<</Type/Pages/Kids[4 0 R]/Count 1>>")
	d.Obj(3, "<</Type/Font/Subtype/Type1/BaseFont/Helvetica>>")
	arr := ""
	var all []byte
	for i := 0; i < n; i++ {
		if i > 0 {
			arr += " "
			all = append(all, '\n')
		}
		arr += itoa(5+i) + " 0 R"
		c := symContent("c"+itoa(i), 3)
		d.Stream(5+i, "", c)
		all = append(all, c...)
	}
	d.Obj(4, "<</Type/Page/Parent 2 0 R/MediaBox[0 0 600 800]/Resources"+defRes+"/Contents["+arr+"]>>")
	p := open(d.Bytes(1))
	err := p.DuplicatePageAfter(1, -1)
	sym.Assert(err == nil, "duplicating succeeds")
	addFont(p, "a", stdFont())
	p.SetFont("a", "", 10)
	at := sym.Choice("page", 2)
	err = p.Insert("A", at+1, 10, 20, 100, 20, pdft.Left, nil)
	sym.Assert(err == nil, "insert succeeds")
	f := saved(p)
	sym.Assert(len(f.Pages()) == 2, "two pages")
	for i, pg := range f.Pages() {
		ms, _ := pdfx.Marks(restOf(f, pg, all))
		want := 0
		if i == at {
			want = 1
		}
		sym.Assert(len(ms) == want, "the text is on the page asked for")
	}
}
