package verifh

import (
	"bytes"

	"github.com/KarmaPenny/pdfparser/pdf"
	. "github.com/KarmaPenny/pdfparser/verifsym"
)

// node is an object of a reference graph.
type node struct {
	kind int // 0 value, 1 stream, 2 free, 3 reference
	to   int
	data []byte
	gen  []byte // of the reference, nil for 0
}

// graph writes objects 1, 2, ... and opens them.
func graph(nodes []node, head []byte) *pdf.Parser {
	data := head
	var offs []int
	for i, n := range nodes {
		offs = append(offs, len(data))
		data = cat(data, decimal(i+1), " 0 obj\n")
		switch n.kind {
		case 0, 2:
			data = cat(data, "(", n.data, ")")
		case 1:
			data = cat(data, "<</D(", n.data, ")>>stream\n", n.data, "\nendstream")
		case 3:
			g := n.gen
			if g == nil {
				g = []byte("0")
			}
			data = cat(data, decimal(n.to), " ", g, " R")
		}
		data = cat(data, "\nendobj\n")
	}
	p := open(data)
	for i, o := range offs {
		kind := pdf.XrefTypeIndirectObject
		if nodes[i].kind == 2 {
			kind = []int{pdf.XrefTypeFreeObject, pdf.XrefTypeCompressedObject}[i&1]
		}
		p.Xref[i+1] = pdf.NewXrefEntry(int64(o), 0, kind)
	}
	return p
}

// follow is the object a reference to number n stands for, nil if there is none.
func follow(nodes []node, n int) *node {
	for steps := 0; steps <= len(nodes); steps++ {
		if n < 1 || n > len(nodes) || nodes[n-1].kind == 2 {
			return nil
		}
		if nodes[n-1].kind != 3 {
			return &nodes[n-1]
		}
		n = nodes[n-1].to
	}
	return nil
}

func checkResolved(value pdf.Object, stream []byte, want *node) {
	switch {
	case want == nil:
		Assert(value == pdf.KEYWORD_NULL, "value of nothing is not null")
		Assert(stream == nil, "stream of nothing")
	case want.kind == 0:
		equal(value, pdf.String(want.data), "value")
		Assert(stream == nil, "stream of a value")
	case want.kind == 1:
		equal(value, pdf.Dictionary{"D": pdf.String(want.data)}, "value")
		Assert(stream != nil && same(stream, want.data), "stream differs")
	}
}

func someNodes(k int) []node {
	nodes := make([]node, k)
	for i := range nodes {
		c := Choose(3 + k + 1)
		if c < 3 {
			nodes[i].kind = c
			nodes[i].data = digits(1)
		} else {
			nodes[i].kind = 3
			nodes[i].to = c - 2 // k+1 is missing
		}
	}
	return nodes
}

// C19_graph resolves references in every small graph.
func C19_graph() {
	k := Bound("objects", 4, 5)
	nodes := someNodes(k)
	// the generation makes no difference
	g := digits(1)
	for i := range nodes {
		nodes[i].gen = g
	}
	head := cat("[1 ", g, " R 77]<</K 1 ", g, " R>>(next)    ")
	p := graph(nodes, head)
	a := p.ReadArray(none)
	r, ok := a[0].(*pdf.Reference)
	Assert(ok && len(a) == 2, "array is not read")
	want := follow(nodes, 1)
	checkResolved(r.Resolve(), r.ResolveStream(), want)
	d := p.ReadDictionary(none)
	v, ok := d.GetObject("K")
	Assert(ok, "entry is missing")
	s, ok := d.GetStream("K")
	if ok {
		checkResolved(v, s, want)
	} else {
		checkResolved(v, nil, want)
		Assert(want == nil || want.kind != 1, "stream is not found")
	}
	equal(p.ReadString(none), pdf.String("next"), "what is read next")
	// other ways to the same object
	for n := 1; n <= k+1; n++ {
		ref := pdf.NewReference(p, n, int(g[0]-'0'))
		checkResolved(ref.Resolve(), ref.ResolveStream(), follow(nodes, n))
	}
	Cover("resolved")
}

// C19_position resolves anywhere in the middle of reading.
func C19_position() {
	lead := lengths[Choose(len(lengths))]
	x := digits(2)
	pad := bytes.Repeat([]byte{' '}, lead)
	data := cat("1 0 obj", pad, "(", x, ")endobj 2 0 obj", pad, "<<>>stream\n", x, "\nendstream", pad, "[1 0 R]", pad, "(", x, ")", pad, "tail")
	var r interface {
		Read([]byte) (int, error)
		Seek(int64, int) (int64, error)
	} = bytes.NewReader(data)
	if lead < 3 && Choose(2) == 0 {
		r = arrive(data, 0)
	}
	p := pdf.NewParser(r, nil)
	p.Xref[1] = pdf.NewXrefEntry(0, 0, pdf.XrefTypeIndirectObject)
	p.Xref[2] = pdf.NewXrefEntry(int64(lead+18), 0, pdf.XrefTypeIndirectObject)
	at := 3*lead + len("1 0 obj(xx)endobj 2 0 obj<<>>stream\nxx\nendstream")
	p.Seek(int64(at), 0)
	one, two := pdf.NewReference(p, 1, 0), pdf.NewReference(p, 2, 0)
	first := Choose(2) == 0
	check := func() {
		if first = !first; first {
			equal(one.Resolve(), pdf.String(x), "object 1")
		} else {
			Assert(same(two.ResolveStream(), x), "stream of object 2")
		}
	}
	check()
	a := p.ReadArray(none)
	Assert(len(a) == 1, "array is not read")
	check()
	equal(p.ReadString(none), pdf.String(x), "string")
	check()
	Assert(same(rest(p), cat(pad, "tail")), "the rest differs")
	Cover("resolved")
}

// C19_stream uses references in a stream's dictionary, even to the stream itself.
func C19_stream() {
	x := digits(2)
	g := digits(1)
	target := func() string { return []string{"1", "2", "3", "4", "5"}[Choose(5)] + " " + string(g) + " R" }
	entries := ""
	keys := []string{"Filter", "DecodeParms", "Type", "Length", "F"}
	picked := map[string]string{}
	for i := 0; i < 2; i++ {
		k := keys[Choose(len(keys))]
		if _, ok := picked[k]; ok {
			continue
		}
		v := target()
		picked[k] = v
		if k == "Filter" && Choose(2) == 0 {
			v = "[" + v + "]"
		}
		entries += "/" + k + " " + v
	}
	// 2 names a filter, 3 leads back to the stream, 4 is missing, 5 leads to 2
	bodies := [][]byte{
		cat("<<", entries, "/K 7>>stream\r\n", encHex(x), "\r\nendstream"),
		[]byte("/ASCIIHexDecode"),
		cat("1 ", g, " R"),
		cat("5 ", g, " R"),
		cat("2 ", g, " R"),
	}
	p := objects(bodies...)
	delete(p.Xref, 4)
	want := encHex(x)
	if f := picked["Filter"]; f != "" && (f[0] == '2' || f[0] == '5') {
		want = x
	}
	o := p.GetObject(1)
	d, ok := o.Value.(pdf.Dictionary)
	Assert(ok, "dictionary is not read")
	n, ok := d.GetInt("K")
	Assert(ok && n == 7, "dictionary entry differs")
	Assert(o.Stream != nil && same(o.Stream, want), "stream differs")
	r := pdf.NewReference(p, 3, 0)
	v, ok := r.Resolve().(pdf.Dictionary)
	Assert(ok && len(v) == len(d), "value of the stream differs")
	Assert(same(r.ResolveStream(), want), "stream through references differs")
	Cover("resolved")
}

// C19_mutual has streams whose dictionaries refer to each other.
func C19_mutual() {
	x := digits(1)
	k := 3
	var bodies [][]byte
	for i := 0; i < k; i++ {
		body := cat("<</N ", decimal(i))
		for _, key := range []string{"Filter", "DecodeParms"} {
			if to := Choose(k + 1); to > 0 {
				body = cat(body, "/", key, []string{" ", "["}[i&1], decimal(to), " 0 R", []string{" ", "]"}[i&1])
			}
		}
		bodies = append(bodies, cat(body, ">>stream\n", x, "\nendstream"))
	}
	p := objects(bodies...)
	for n := 1; n <= k; n++ {
		o := p.GetObject(n)
		Assert(o.Stream != nil && same(o.Stream, x), "stream differs")
		v, ok := pdf.NewReference(p, n, 0).Resolve().(pdf.Dictionary)
		Assert(ok && v["N"] == pdf.Number(n-1), "value differs")
	}
	Cover("resolved")
}

// C19_long follows long chains of references.
func C19_long() {
	n := []int{7, 8, 9, 10, 11, 16, 17, 31, 32, 33, 64, 65, 100, 101, 127, 128, 129, 255, 256, 257, 300, 1000, 1001, 1025, 4097}[Choose(Bound("C19.long", 24, 25))]
	x := digits(2)
	var nodes []node
	for i := 1; i < n; i++ {
		nodes = append(nodes, node{kind: 3, to: i + 1})
	}
	end := node{kind: Choose(5), data: x}
	switch end.kind {
	case 3: // back to an earlier one
		end.to = []int{1, n / 2, n}[Choose(3)]
	case 4: // nothing there
		end.kind, end.to = 3, n+1
	}
	nodes = append(nodes, end)
	if Choose(2) == 0 {
		// the chain lies in the file the other way round
		for i := range nodes {
			if nodes[i].kind == 3 && i < n-1 {
				nodes[i].to = i
			}
		}
		nodes[0], nodes[n-1] = nodes[n-1], nodes[0]
		nodes[n-1].to = n - 1
		if end.kind == 3 && end.to <= n {
			nodes[0].to = n + 1 - end.to
		}
		nodes[n-1].kind, nodes[n-1].data = 3, nil
	}
	from := 1
	if nodes[n-1].kind == 3 && nodes[n-1].to == n-1 {
		from = n
	}
	p := graph(nodes, nil)
	r := pdf.NewReference(p, from, 0)
	// a cycle or nothing at the end gives null however long it takes to see it
	var want *node
	if end.kind < 2 {
		want = &end
	}
	checkResolved(r.Resolve(), r.ResolveStream(), want)
	Cover("resolved")
}
