package verifh

import (
	"github.com/KarmaPenny/pdfparser/pdf"
	. "github.com/KarmaPenny/pdfparser/verifsym"
)

// sep is a separator: white space bytes and comments of arbitrary content.
func sep(least, most int) []byte {
	n := least + Choose(most-least+1)
	var out []byte
	for i := 0; i < n; i++ {
		if Choose(2) == 0 {
			b := Byte()
			Assume(isWS(b))
			out = append(out, b)
		} else {
			out = append(out, comment(Choose(3))...)
		}
	}
	return out
}

// comment is a comment of n arbitrary bytes with its end of line.
func comment(n int) []byte {
	c := Bytes(n)
	for i := range c {
		Assume(c[i] != '\n' && c[i] != '\r')
	}
	e := Byte()
	Assume(e == '\n' || e == '\r')
	return cat("%", c, e)
}

// C05_array reads arrays of adjacent tokens with separators between them.
func C05_array() {
	toks := []struct {
		text string
		word bool
		o    pdf.Object
	}{
		{"true", true, pdf.Keyword("true")},
		{"12", true, pdf.Number(12)},
		{"(a%\rb)", false, pdf.String("a%\rb")},
		{"<4142>", false, pdf.String("AB")},
		{"/Nm", true, pdf.Name("Nm")},
		{"[7]", false, pdf.Array{pdf.Number(7)}},
		{"<</K/V>>", false, pdf.Dictionary{"K": pdf.Name("V")}},
		{"3 0 R", true, &pdf.Reference{Number: 3}},
		{"-1.5", true, pdf.Number(-1.5)},
	}
	most := Bound("C05.array.sep", 3, 4)
	a := toks[Choose(len(toks))]
	b := toks[Choose(len(toks))]
	least := 0
	if a.word && b.word && b.text[0] != '/' {
		least = 1
	}
	s := sep(least, most)
	// a number directly before two more of them reads as a reference only with R
	p := object(cat("[", a.text, s, b.text, "]"))
	equal(p.GetObject(1).Value, pdf.Array{a.o, b.o}, "array")
	Cover("read")
}

// C05_edges reads tokens with separators at the brackets.
func C05_edges() {
	most := Bound("C05.edges.sep", 4, 5)
	var s [3][]byte
	k := Choose(3)
	s[k] = sep(0, most)
	switch Choose(3) {
	case 0:
		p := object(cat(s[0], "[", s[1], "1", s[2], "]"))
		equal(p.GetObject(1).Value, pdf.Array{pdf.Number(1)}, "array")
	case 1:
		p := object(cat(s[0], "<<", s[1], "/A(x)", s[2], ">>"))
		equal(p.GetObject(1).Value, pdf.Dictionary{"A": pdf.String("x")}, "dictionary")
	case 2:
		p := object(cat(s[0], "<4", s[1], "1", s[2], ">"))
		equal(p.GetObject(1).Value, pdf.String("A"), "hex string")
	}
	Cover("read")
}

// C05_dict reads dictionaries with separators between keys and values.
func C05_dict() {
	most := Bound("C05.dict.sep", 4, 5)
	s, t := sep(0, most), sep(1, 1)
	p := object(cat("<</A", s, "/B/C", t, "12/D", t, "3 0 R", s, "/E(x)>>"))
	equal(p.GetObject(1).Value, pdf.Dictionary{"A": pdf.Name("B"), "C": pdf.Number(12), "D": &pdf.Reference{Number: 3}, "E": pdf.String("x")}, "dictionary")
	Cover("read")
}

// C05_header reads object headers and references with separators in them.
func C05_header() {
	most := Bound("C05.header.sep", 4, 5)
	var s [4][]byte
	k := Choose(4)
	for i := range s {
		if i == k {
			least := 1
			if i == 0 || i == 3 {
				least = 0
			}
			s[i] = sep(least, most)
		} else if i == 1 || i == 2 {
			s[i] = []byte(" ")
		}
	}
	data := cat(s[0], "12", s[1], "3", s[2], "obj", s[3], "(x)")
	p := open(data)
	n, g, ok := p.ReadObjectHeader()
	Assert(ok && n == 12 && g == 3, "header: not read")
	o, err := p.ReadObject(none)
	Assert(err == nil, "header: no object follows")
	equal(o, pdf.String("x"), "header: object")
	Cover("header")
	p = open(cat(s[0], "12", s[1], "3", s[2], "R", s[3], "(x)"))
	o, err = p.ReadObject(none)
	Assert(err == nil, "reference: error")
	equal(o, &pdf.Reference{Number: 12, Generation: 3}, "reference")
	o, err = p.ReadObject(none)
	Assert(err == nil, "reference: no object follows")
	equal(o, pdf.String("x"), "reference: object")
	Cover("reference")
}

// C05_long reads separators of many bytes.
func C05_long() {
	n := lengths[Choose(Bound("C05.long.lengths", len(lengths), len(lengths)))]
	var s []byte
	for len(s) < n {
		b := Byte()
		Assume(isWS(b))
		s = append(s, b)
	}
	c := Bytes(n)
	for i := range c {
		Assume(c[i] != '\n' && c[i] != '\r')
	}
	p := object(cat(s, "[/A", s, "%", c, "\r\n/B%", c, "\n12%", c, "\r(%x)]"))
	equal(p.GetObject(1).Value, pdf.Array{pdf.Name("A"), pdf.Name("B"), pdf.Number(12), pdf.String("%x")}, "long separators")
	Cover("read")
}

// C05_end reads a token that a comment ends, at the end of the input.
func C05_end() {
	c := Bytes(Choose(Bound("C05.end.len", 3, 6) + 1))
	for i := range c {
		Assume(c[i] != '\n' && c[i] != '\r')
	}
	w := []string{"true", "12", "/Nm", "(a%)", "3 0 R"}[Choose(5)]
	l := &lex{d: []byte(w)}
	want, _ := l.object()
	p := open(cat("%", c, "\n", w, "%", c))
	o, err := p.ReadObject(none)
	Assert(err == nil, "end: error")
	equal(o, want, "end")
	_, err = p.ReadObject(none)
	Assert(err != nil, "end: something was read from a comment")
	Cover("read")
}

// C05_huge reads very long comments and gaps.
func C05_huge() {
	n := huge[Choose(len(huge))]
	var sep []byte
	if Choose(2) == 0 {
		sep = cat("%", bulk(n, most), "\r")
	} else {
		sep = bulk(n, " \t\r\n\f\x00")
	}
	p := object(cat("[", sep, "7", sep, "(x)]"))
	equal(p.GetObject(1).Value, pdf.Array{pdf.Number(7), pdf.String("x")}, "after a long gap")
	Cover("read")
}
