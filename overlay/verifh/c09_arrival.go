package verifh

import (
	"github.com/KarmaPenny/pdfparser/pdf"
	. "github.com/KarmaPenny/pdfparser/verifsym"
)

func sample() (string, []byte, []byte, pdf.Dictionary) {
	b := Bytes(3)
	Assume(isDigit(b[0]))
	Assume(isRegular(b[1]) && b[1] != '#')
	Assume(b[2] != '(' && b[2] != ')' && b[2] != '\\' && b[2] != 'e' && b[2] != '\r' && b[2] != '\n')
	text := "<</N" + string(b[1:2]) + " -1" + string(b[:1]) + ".5/S(a\\\r\n\\05" + "3(" + string(b[2:]) + "))/H<4%c\r1 4>/R 1" + string(b[:1]) + " 0 R/A[true[ ]<<>>]/#4e 1 % x\r\n>>"
	want := pdf.Dictionary{
		"N" + string(b[1:2]): pdf.Number(-10.5 - float64(b[0]-'0')),
		"S":                  pdf.String("a+(" + string(b[2:]) + ")"),
		"H":                  pdf.String("A@"),
		"R":                  &pdf.Reference{Number: 10 + int(b[0]-'0')},
		"A":                  pdf.Array{pdf.Keyword("true"), pdf.Array{}, pdf.Dictionary{}},
		"N":                  pdf.Number(1),
	}
	stream := cat(b, "ends", b[2], "\rendstrea")
	return text, b, stream, want
}

func blanks(n int) []byte {
	c := make([]byte, n)
	for i := range c {
		c[i] = ' '
	}
	return c
}

// C09_object reads a dictionary with every kind of object in it and its stream, however they
// arrive.
func C09_object() {
	text, _, stream, want := sample()
	data := cat("1 0 obj\n", text, "stream\r\n", stream, "\r\nendstream\nendobj")
	p := pdf.NewParser(arrive(data, 0), nil)
	p.Xref[1] = pdf.NewXrefEntry(0, 0, pdf.XrefTypeIndirectObject)
	o := p.GetObject(1)
	equal(o.Value, want, "object")
	Assert(same(o.Stream, stream), "object: stream differs")
	Cover("read")
}

// C09_offset reads the same object at every place around the end of a buffer.
func C09_offset() {
	text, _, stream, want := sample()
	body := cat("1 0 obj\n", text, "stream\r\n", stream, "\r\nendstream\nendobj")
	size := 4096 * (1 + Choose(Bound("C09.buffers", 1, 3)))
	pad := size - Choose(len(body)+2)
	data := cat(blanks(pad), body)
	p := pdf.NewParser(&pieces{data: data}, nil)
	at := int64(pad)
	if Choose(2) == 0 {
		at = 0
	}
	p.Xref[1] = pdf.NewXrefEntry(at, 0, pdf.XrefTypeIndirectObject)
	o := p.GetObject(1)
	equal(o.Value, want, "object")
	Assert(same(o.Stream, stream), "object: stream differs")
	Cover("read")
}

// smallFile is a file with a cross-reference table and one with a stream.
func smallFile(b byte, table bool, pad int) ([]byte, int) {
	d := cat("%PDF-1.4\n", blanks(pad))
	o1 := len(d)
	d = cat(d, "1 0 obj<</Type/Catalog/V(", b, ")>>endobj\n")
	o2 := len(d)
	d = cat(d, "2 3 obj[", b, " <41>]endobj\n")
	x := len(d)
	if table {
		d = cat(d, "xref\n0 3\n0000000000 65535 f \n", ten(o1), " 00000 n \n", ten(o2), " 00003 n \ntrailer<</Root 1 3 R/Size 3>>\nstartxref\n", ten(x), "\n%%EOF\n")
	} else {
		w := cat(byte(0), byte(0), byte(0), byte(0), byte(0), byte(1), byte(o1>>16), byte(o1>>8), byte(o1), byte(0), byte(1), byte(o2>>16), byte(o2>>8), byte(o2), byte(3), byte(1), byte(x>>16), byte(x>>8), byte(x), byte(0))
		d = cat(d, "9 0 obj<</Type/XRef/W[1 3 1]/Size 4/Index[0 3 9 1]/Root 1 0 R>>stream\n", w, "\nendstream endobj\nstartxref\n", ten(x), "\n%%EOF\n")
	}
	return d, o2
}

func ten(n int) []byte {
	b := []byte("0000000000")
	for i := 9; i >= 0; i-- {
		b[i] = '0' + byte(n%10)
		n /= 10
	}
	return b
}

func checkDocument(p *pdf.Parser, b byte, at int) {
	err := p.Load("")
	Assert(err == nil, "document: not loaded")
	equal(p.GetObject(1).Value, pdf.Dictionary{"Type": pdf.Name("Catalog"), "V": pdf.String(cat(b))}, "document: object 1")
	o := p.GetObject(2)
	equal(o.Value, pdf.Array{pdf.Number(float64(b - '0')), pdf.String("A")}, "document: object 2")
	Assert(o.Generation == 3, "document: generation differs")
	x := p.Xref[2]
	Assert(x != nil, "document: no entry")
	if x != nil {
		Assert(x.Offset == int64(at) && x.Type == pdf.XrefTypeIndirectObject, "document: entry differs")
	}
}

// C09_load loads documents however they arrive.
func C09_load() {
	b := Byte()
	Assume(isDigit(b))
	d, o2 := smallFile(b, Choose(2) == 0, 0)
	p := pdf.NewParser(arrive(d, 0), nil)
	checkDocument(p, b, o2)
	Cover("loaded")
}

// C09_place loads documents that lie anywhere around the end of a buffer.
func C09_place() {
	b := Byte()
	Assume(isDigit(b))
	table := Choose(2) == 0
	d, _ := smallFile(b, table, 0)
	d, o2 := smallFile(b, table, 4096-Choose(len(d)))
	p := pdf.NewParser(&pieces{data: d}, nil)
	checkDocument(p, b, o2)
	Cover("loaded")
}

// C09_ahead reads an array around the end of a buffer, with more than a buffer of data behind it.
func C09_ahead() {
	b := Bytes(3)
	Assume(isDigit(b[0]) && isDigit(b[1]) && isDigit(b[2]))
	body := cat("[123", b[0], " 45", b[1], " 678 null 12", b[2], " 34 R 123.", b[0], "5 -1", b[1], " 12 /N#41x(a\\053\\\r\nb)<4 1>", "<</A 12", b[2], ">>%c\r\n777 ")
	n := func(i byte) float64 { return float64(i - '0') }
	want := pdf.Array{pdf.Number(1230 + n(b[0])), pdf.Number(450 + n(b[1])), pdf.Number(678), pdf.KEYWORD_NULL,
		&pdf.Reference{Number: 120 + int(b[2]-'0'), Generation: 34}, pdf.Number(123.05 + n(b[0])/10), pdf.Number(-10 - n(b[1])), pdf.Number(12), pdf.Name("NAx"),
		pdf.String("a+b"), pdf.String("A"), pdf.Dictionary{"A": pdf.Number(120 + n(b[2]))}, pdf.Number(777), pdf.Number(888), pdf.KEYWORD_TRUE}
	behind := []int{4090, 4096, 5000, 8200}[Choose(Bound("C09.behind", 3, 4))]
	pad := 4096 - Choose(len(body)+2)
	data := cat(blanks(pad), body, blanks(behind), "888 true]")
	p := pdf.NewParser(&pieces{data: data}, nil)
	o, err := p.ReadObject(none)
	Assert(err == nil, "not read")
	a, ok := o.(pdf.Array)
	Assert(ok && len(a) == len(want), "array differs")
	if ok && len(a) == len(want) {
		for i := range a {
			if f, ok := a[i].(pdf.Number); ok && i == 5 {
				Assert(near(float64(f), float64(want[i].(pdf.Number))), "number differs")
				continue
			}
			equal(a[i], want[i], "element")
		}
	}
	Cover("read")
}

// C09_far loads documents whose objects lie far behind the start.
func C09_far() {
	b := Byte()
	Assume(isDigit(b))
	far := huge[Choose(len(huge))] - Choose(Bound("C09.far", 3, 60))
	d, o2 := smallFile(b, Choose(2) == 0, far-9)
	var p *pdf.Parser
	switch Choose(3) {
	case 0:
		p = pdf.NewParser(&pieces{data: d}, nil)
	case 1:
		p = pdf.NewParser(&pieces{data: d, cuts: []int{far, o2, o2 + 3}, void: true}, nil)
	case 2:
		p = pdf.NewParser(&pieces{data: d, most: 1000, last: true}, nil)
	}
	checkDocument(p, b, o2)
	Cover("loaded")
}
