package verifh

import (
	"github.com/KarmaPenny/pdfparser/pdf"
	. "github.com/KarmaPenny/pdfparser/verifsym"
)

// tree is a graph of nodes that refer to each other by number: the first ones are dictionaries,
// then come a reference, a string, a dictionary in which kids are direct, and numbers of nothing.
type tree struct {
	nodes    int
	kids     [][]byte // of each node, digits
	alias    byte
	direct   byte // kid of the dictionary that is a kid of the last one
	odd      bool // the names of node 1 lack a value
	free     bool // the second node is not in use
	names    bool
	indirect bool // lists of kids are objects of their own
}

func (t *tree) number(of int) byte { return byte('1' + t.nodes + of) }

// parser opens the document.
func (t *tree) parser() *pdf.Parser {
	var bodies [][]byte
	last := t.nodes + 3
	node := func(n int, kids []byte) []byte {
		b := cat("<</N ", decimal(n))
		if t.names {
			b = cat(b, "/Names[(", decimal(n), ")")
			if !(t.odd && n == 1) {
				b = cat(b, decimal(n))
			}
			b = cat(b, "]")
		}
		return cat(b, "/Kids ", kids, ">>")
	}
	var lists [][]byte
	for i, kids := range t.kids {
		list := []byte("[ ")
		for _, k := range kids {
			list = cat(list, k, " 0 R ")
		}
		list = cat(list, "]")
		if t.indirect {
			lists = append(lists, list)
			list = cat(decimal(last+i+1), " 0 R")
		}
		bodies = append(bodies, node(i+1, list))
	}
	bodies = append(bodies, cat(t.alias, " 0 R"), []byte("(x)"))
	bodies = append(bodies, node(last, cat("[", node(last+1, cat("[", t.direct, " 0 R]")), "[] 7 null ", node(last+2, []byte("7")), "]")))
	p := objects(append(bodies, lists...)...)
	if t.free {
		p.Xref[2].Type = pdf.XrefTypeFreeObject
	}
	return p
}

// walk lists the nodes reached from number n, each once, in document order.
func (t *tree) walk(n byte, seen *[16]bool, out []int) []int {
	for i := 0; i <= 1 && n == t.number(0); i++ {
		n = t.alias
	}
	if n < '1' || n > t.number(2) {
		return out
	}
	at := int(n - '0')
	if seen[at] || at == t.nodes+1 || at == t.nodes+2 || t.free && at == 2 {
		return out
	}
	seen[at] = true
	out = append(out, at)
	if at == t.nodes+3 {
		out = t.walk(t.direct, seen, append(out, at+1))
		return append(out, at+2)
	}
	for _, k := range t.kids[at-1] {
		out = t.walk(k, seen, out)
	}
	return out
}

func someTree(nodes, kids int) *tree {
	t := &tree{nodes: nodes}
	target := func() byte {
		b := Byte()
		Assume(b >= '1' && b <= t.number(3))
		return b
	}
	for i := 0; i < nodes; i++ {
		var list []byte
		for j := 0; j < kids; j++ {
			list = append(list, target())
		}
		t.kids = append(t.kids, list)
	}
	if nodes > 2 {
		t.kids[nodes-1] = t.kids[nodes-1][:1]
	}
	t.alias = target()
	t.direct = target()
	return t
}

// root gives access to the tree in one of several ways.
func (t *tree) root(p *pdf.Parser, how int) (pdf.Dictionary, byte) {
	switch how {
	case 0:
		return pdf.Dictionary{"T": pdf.NewReference(p, 1, 0)}, '1'
	case 1:
		return pdf.Dictionary{"T": pdf.NewReference(p, t.nodes+1, 0)}, t.number(0)
	case 2:
		return pdf.Dictionary{"T": pdf.NewReference(p, t.nodes+3, 0)}, t.number(2)
	}
	return pdf.Dictionary{"T": pdf.NewReference(p, t.nodes+2, 0)}, t.number(1)
}

func checkPages(t *tree, how int) {
	p := t.parser()
	d, from := t.root(p, how)
	want := t.walk(from, &[16]bool{}, nil)
	got, ok := d.GetPageTree("T")
	Assert(ok == (len(want) > 0), "tree is found or not")
	Assert(len(got) == len(want), "number of nodes visited")
	for i := range want {
		if i < len(got) {
			n, ok := got[i].GetInt("N")
			Assert(ok && n == want[i], "node differs")
		}
	}
	Cover("walked")
}

func checkNames(t *tree, how int) {
	t.names = true
	p := t.parser()
	d, from := t.root(p, how)
	want := t.walk(from, &[16]bool{}, nil)
	got := d.GetNameTreeMap("T")
	Assert(len(got) == 2*len(want), "number of names and values")
	for i, n := range want {
		if 2*i+1 < len(got) {
			equal(got[2*i], pdf.String(decimal(n)), "name")
			if t.odd && n == 1 {
				equal(got[2*i+1], pdf.KEYWORD_NULL, "missing value")
			} else {
				equal(got[2*i+1], pdf.Number(n), "value")
			}
		}
	}
	Cover("walked")
}

// C25_pages walks every page tree of few nodes.
func C25_pages() {
	t := someTree(Bound("nodes", 2, 3), 2)
	checkPages(t, Choose(4))
}

// C25_names walks every name tree of few nodes.
func C25_names() {
	t := someTree(Bound("nodes", 2, 3), 2)
	t.odd = Choose(2) == 1
	checkNames(t, Choose(4))
}

// C25_wide has one node with many kids.
func C25_wide() {
	t := someTree(3, 1)
	n := Bound("kids", 2, 3)
	for i := 0; i < n; i++ {
		b := Byte()
		Assume(b >= '1' && b <= t.number(3))
		t.kids[0] = append(t.kids[0], b)
	}
	t.kids[2] = nil
	if Choose(2) == 0 {
		checkPages(t, 0)
	} else {
		checkNames(t, 0)
	}
}

// C25_forms keeps lists of kids elsewhere and has nodes that are not in use.
func C25_forms() {
	t := someTree(3, 2)
	for i := Bound("forking", 1, 2); i < 3; i++ {
		t.kids[i] = t.kids[i][:1]
	}
	t.indirect = Choose(2) == 1
	t.free = Choose(2) == 1
	if Choose(2) == 0 {
		checkPages(t, 0)
	} else {
		checkNames(t, 0)
	}
}

// C25_deep follows a long chain of nodes, each also referring back to any earlier one.
func C25_deep() {
	n := Bound("depth", 20, 60)
	back := Int(1, n)
	names := Choose(2) == 1
	var bodies [][]byte
	for i := 1; i <= n; i++ {
		to := back
		if to > i {
			to = i
		}
		bodies = append(bodies, cat("<</N ", decimal(i), "/Names[(", decimal(i), ") 0]/Kids[", digits2(to), " 0 R ", decimal(i+1), " 0 R ", digits2(to), " 0 R]>>"))
	}
	p := objects(bodies...)
	d := pdf.Dictionary{"T": pdf.NewReference(p, 1, 0)}
	if names {
		got := d.GetNameTreeMap("T")
		Assert(len(got) == 2*n, "number of names and values")
		for i := 0; i < n && 2*i < len(got); i++ {
			equal(got[2*i], pdf.String(decimal(i+1)), "name")
		}
	} else {
		got, ok := d.GetPageTree("T")
		Assert(ok && len(got) == n, "number of nodes visited")
		for i := range got {
			v, _ := got[i].GetInt("N")
			Assert(v == i+1, "node differs")
		}
	}
	Cover("walked")
}

// digits2 writes any number below 100 without looking at it.
func digits2(n int) []byte { return []byte{byte('0' + n/10), byte('0' + n%10)} }

// C25_long follows chains and visits rows of nodes as long as counters of small kinds go.
func C25_long() {
	n := []int{32, 33, 64, 65, 100, 101, 128, 129, 255, 256, 257, 300, 1000, 1025}[Choose(Bound("C25.long", 12, 14))]
	mark := digits(1)
	var bodies [][]byte
	wide := Choose(2) == 0
	for i := 1; i <= n; i++ {
		kids := []byte("[")
		if wide && i == 1 {
			for k := 2; k <= n; k++ {
				kids = cat(kids, decimal(k), " 0 R ")
			}
		}
		if !wide && i < n {
			kids = cat(kids, decimal(i+1), " 0 R ")
		}
		if !wide || i == n {
			kids = cat(kids, "1 0 R")
		}
		kids = cat(kids, "]")
		key := cat("(", decimal(i), ")")
		if i == n {
			key = cat("(", mark, ")")
		}
		bodies = append(bodies, cat("<</N ", decimal(i), "/Names[", key, " ", decimal(i), "]/Kids", kids, ">>"))
	}
	p := objects(bodies...)
	d := pdf.Dictionary{"T": pdf.NewReference(p, 1, 0)}
	if Choose(2) == 0 {
		got := d.GetNameTreeMap("T")
		Assert(len(got) == 2*n, "number of names and values")
		for i := 0; i < n && 2*i+1 < len(got); i++ {
			want := decimal(i + 1)
			if i == n-1 {
				want = mark
			}
			equal(got[2*i], pdf.String(want), "name")
			equal(got[2*i+1], pdf.Number(i+1), "value")
		}
	} else {
		got, ok := d.GetPageTree("T")
		Assert(ok && len(got) == n, "number of nodes visited")
		for i := range got {
			v, _ := got[i].GetInt("N")
			Assert(v == i+1, "node differs")
		}
	}
	Cover("walked")
}

// C25_names_many has one node with many names.
func C25_names_many() {
	n := []int{99, 100, 128, 255, 256, 257, 1025}[Choose(7)]
	mark := digits(1)
	list := []byte("[")
	for i := 0; i < n; i++ {
		key := decimal(i)
		if i == n-1 {
			key = mark
		}
		list = cat(list, "(", key, ") ", decimal(i), " ")
	}
	p := objects(cat("<</Names", list, "]>>"))
	d := pdf.Dictionary{"T": pdf.NewReference(p, 1, 0)}
	got := d.GetNameTreeMap("T")
	Assert(len(got) == 2*n, "number of names and values")
	for i := 0; i < n && 2*i+1 < len(got); i++ {
		want := decimal(i)
		if i == n-1 {
			want = mark
		}
		equal(got[2*i], pdf.String(want), "name")
		equal(got[2*i+1], pdf.Number(i), "value")
	}
	Cover("walked")
}
