package verifh

import (
	"bytes"
	"os"

	"github.com/KarmaPenny/pdfparser/pdf"
	. "github.com/KarmaPenny/pdfparser/verifsym"
)

// headerAt tells if an object header stands at a position, read independently of the parser.
func headerAt(data []byte, at, number int) (gen int, end int, ok bool) {
	i := at
	skip := func() {
		for i < len(data) {
			if isWS(data[i]) {
				i++
			} else if data[i] == '%' {
				for i < len(data) && data[i] != '\r' && data[i] != '\n' {
					i++
				}
			} else {
				return
			}
		}
	}
	num := func() (int, bool) {
		skip()
		v, from := 0, i
		for i < len(data) && isDigit(data[i]) {
			v = v*10 + int(data[i]-'0')
			i++
		}
		return v, i > from
	}
	n, ok := num()
	if !ok || n != number {
		return 0, 0, false
	}
	gen, ok = num()
	if !ok {
		return 0, 0, false
	}
	skip()
	if i+3 > len(data) || string(data[i:i+3]) != "obj" || i+3 < len(data) && isRegular(data[i+3]) {
		return 0, 0, false
	}
	return gen, i + 3, true
}

// C18_offset gives an object's entry every offset; objects have two copies.
func C18_offset() {
	v := [][]byte{digits(2), digits(2), digits(2), digits(2)}
	at := make([]int, 4)
	data := []byte("%PDF-1.4\n")
	heads := []string{"1 0 obj", "2 0 obj", "1 3 obj", "2 0 obj"}
	for i, h := range heads {
		at[i] = len(data)
		data = cat(data, h, "\n(", v[i], ")\nendobj\n")
	}
	off := cat(decimal(Choose(3)), digits(2))
	from := len(data)
	data = cat(data, "xref\n1 2\n0000000", off, " 00000 n \n", pad10(at[1]), " 00000 n \ntrailer\n<</Size 3>>\nstartxref\n", decimal(from), "\n%%EOF\n")
	n := int(off[0]-'0')*100 + int(off[1]-'0')*10 + int(off[2]-'0')
	Assume(n < len(data)+3)
	p := open(data)
	Assert(p.Load("") == nil, "document does not load")
	o := p.GetObject(1)
	want, gen := v[2], 3
	if n <= at[0] {
		if _, _, ok := headerAt(data, n, 1); ok {
			want, gen = v[0], 0
		}
	} else if _, _, ok := headerAt(data, n, 1); ok {
		gen = 0 // as the entry says
	}
	equal(o.Value, pdf.String(want), "object 1")
	Assert(o.Generation == gen, "generation of object 1 differs")
	equal(p.GetObject(2).Value, pdf.String(v[1]), "object 2")
	Cover("repaired")
}

// C18_gaps leaves objects out of the table or out of the file.
func C18_gaps() {
	k := Bound("objects", 3, 4)
	data := []byte("%PDF-1.4\n")
	table := []byte("xref\n")
	v := make([][]byte, k)
	state := make([]int, k)
	for i := range v {
		v[i] = digits(2)
		state[i] = Choose(6)
		head := cat(decimal(i+1), " 0 obj\n(", v[i], ")\nendobj\n")
		entry := func(off int) {
			table = cat(table, decimal(i+1), " 1\n", pad10(off), " 00000 n \n")
		}
		switch state[i] {
		case 0: // fine
			entry(len(data))
		case 1: // not mentioned
		case 2: // points to the header
			entry(0)
		case 3: // points to the end of the file
			entry(99999)
		case 4: // points into the object
			entry(len(data) + 2)
		case 5: // points to another object's place
			entry(len(data) + len(head))
		}
		data = cat(data, head)
	}
	data = cat(data, "90 0 obj\n(last)\nendobj\n")
	from := len(data)
	if Choose(3) == 0 {
		from += 7
	}
	data = cat(data, table, "trailer\n<</Size 3>>\nstartxref\n", decimal(from), "\n%%EOF\n")
	p := open(data)
	Assert(p.Load("") == nil, "document does not load")
	for i := range v {
		equal(p.GetObject(i+1).Value, pdf.String(v[i]), "object")
	}
	equal(p.GetObject(90).Value, pdf.String("last"), "object 90")
	Cover("repaired")
}

// C18_none has no cross-reference data and anything between the objects.
func C18_none() {
	v := [][]byte{digits(2), digits(2), digits(2)}
	junk := Bytes(Bound("junk", 2, 3))
	at := Choose(3)
	data := []byte("%PDF-1.4\n")
	for i, h := range []string{"1 0 obj", "12 0 obj", "1 7 obj"} {
		if i == at {
			data = cat(data, junk, "\n")
		}
		data = cat(data, h, "\n(", v[i], ")", []string{"\nendobj\n", "\n"}[i&1])
	}
	data = cat(data, []string{"", "trailer\n<</Size 3>>\n", "startxref\n5\n%%EOF\n"}[Choose(3)])
	p := open(data)
	Assert(p.Load("") == nil, "document does not load")
	Assert(len(p.Xref) == 2, "number of objects differs")
	equal(p.GetObject(12).Value, pdf.String(v[1]), "object 12")
	o := p.GetObject(1)
	equal(o.Value, pdf.String(v[2]), "object 1")
	Assert(o.Generation == 7, "generation differs")
	Cover("found")
}

func gap(n int) []byte {
	g := Bytes(n)
	for _, b := range g {
		Assume(isWS(b))
	}
	switch Choose(3) {
	case 1:
		g = cat(g, "%!\n")
	case 2:
		g = cat("%\r", g)
	}
	return g
}

// C18_header finds headers however they are spaced.
func C18_header() {
	v := digits(1)
	n, g := digits(2), digits(1)
	Assume(n[0] != '0')
	after := []string{"", " ", "\n", "%x\n"}[Choose(4)]
	body := []string{"(", "[", "/", "<<"}[Choose(4)]
	end := map[string]string{"(": ")", "[": "]", "/": " ", "<<": ">>"}[body]
	inner := v
	if body == "<<" {
		inner = cat("/K ", v)
	}
	data := cat("%PDF-1.4\n", n, gap(1), g, gap(1), "obj", after, body, inner, end, "endobj\n")
	p := open(data)
	Assert(p.Load("") == nil, "document does not load")
	Assert(len(p.Xref) == 1, "number of objects differs")
	num := int(n[0]-'0')*10 + int(n[1]-'0')
	o := p.GetObject(num)
	Assert(o.Generation == int(g[0]-'0'), "generation differs")
	switch body {
	case "(":
		equal(o.Value, pdf.String(v), "object")
	case "[":
		equal(o.Value, pdf.Array{pdf.Number(v[0] - '0')}, "object")
	case "/":
		equal(o.Value, pdf.Name(v), "object")
	default:
		equal(o.Value, pdf.Dictionary{"K": pdf.Number(v[0] - '0')}, "object")
	}
	Cover("found")
}

// C18_words is not misled by words that begin like a header's.
func C18_words() {
	v := digits(2)
	c := Byte()
	Assume(isRegular(c) && c < 0x80)
	decoy := cat("1 0 obj", c, " (no)\n")
	if Choose(2) == 0 {
		decoy = cat("1 0 ", c, "obj (no)\n")
		Assume(c != '0' && c != 'o')
	}
	data := cat("%PDF-1.4\n1 2 obj\n(", v, ")\nendobj\n% ", decoy, "%%EOF\n")
	p := open(data)
	Assert(p.Load("") == nil, "document does not load")
	Assert(len(p.Xref) == 1, "number of objects differs")
	o := p.GetObject(1)
	equal(o.Value, pdf.String(v), "object")
	Assert(o.Generation == 2, "generation differs")
	Cover("found")
}

// C18_extract extracts what only repair can find.
func C18_extract() {
	host := Bytes(1)
	Assume(isRegular(host[0]) && host[0] != '\\')
	data := cat("%PDF-1.4\n1 0 obj<</URI(http://", host, ")>>endobj\n")
	switch Choose(4) {
	case 1:
		data = cat(data, "xref\n0 1\n0000000000 65535 f \ntrailer<</Size 1>>startxref\n57\n%%EOF")
	case 2:
		data = cat(data, "xref\n1 1\n0000000020 00000 n \ntrailer<</Size 1>>startxref\n0\n%%EOF")
	case 3:
		data = cat(data, "startxref\n9\n%%EOF")
	}
	os.WriteFile(Path("in.pdf"), data, 0644)
	Assert(pdf.Parse(Path("in.pdf"), "", Path("out")) == nil, "document is refused")
	urls, _ := os.ReadFile(Path("out/urls.txt"))
	Assert(string(urls) == string(cat("http://", host, "\n")), "URL is not extracted")
	Cover("extracted")
}

// C18_far finds objects wherever they lie in large files, and however many there are.
func C18_far() {
	far := huge[Choose(Bound("C18.far", 11, len(huge)))] - Choose(3)
	v := [][]byte{digits(2), digits(2), digits(2)}
	filler := bytes.Repeat([]byte("(filler) 77 \n"), (far-9)/13)
	filler = cat(filler, bytes.Repeat([]byte(" "), far-len(filler)-9))
	data := cat("%PDF-1.4\n", filler, "1 0 obj\n(", v[0], ")\nendobj\n2 7 obj\n(", v[1], ")\nendobj\n")
	switch Choose(3) {
	case 1: // a table that knows neither, at a wrong place
		data = cat(data, "xref\n0 1\n0000000000 65535 f \ntrailer\n<</Root 1 0 R>>\nstartxref\n", pad10(len(data)-far), "\n%%EOF\n")
	case 2: // a table that has offsets without their high parts
		at := len(data)
		data = cat(data, "xref\n1 2\n", pad10(far%256), " 00000 n \n", pad10((far+25)%65536), " 00007 n \ntrailer\n<</Root 1 0 R>>\nstartxref\n", pad10(at), "\n%%EOF\n")
	}
	data = cat(data, "3 0 obj(", v[2], ")")
	p := open(data)
	Assert(p.Load("") == nil, "document does not load")
	for i := range v {
		equal(p.GetObject(i+1).Value, pdf.String(v[i]), "object")
	}
	Assert(p.GetObject(2).Generation == 7, "generation of object 2 differs")
	Cover("repaired")
}

// C18_many finds any number of objects; some of them have several copies.
func C18_many() {
	n := []int{17, 65, 100, 128, 129, 255, 256, 257, 300, 1000, 1025}[Choose(Bound("C18.many", 9, 11))]
	first := []int{0, 1, 250, 65500, 99990, 8388000}[Choose(6)]
	x := digits(2)
	mid := n / 2
	data := []byte("%PDF-1.4\n")
	copies := 1 + Choose(2)
	for c := 1; c <= copies; c++ {
		for i := 0; i < n; i++ {
			body := decimal(i)
			if c == copies && i == mid {
				body = x
			}
			if c < copies {
				body = []byte("old")
			}
			data = cat(data, decimal(first+i), " ", decimal(i%3), " obj(", body, ")endobj\n")
		}
	}
	p := open(data)
	Assert(p.Load("") == nil, "document does not load")
	Assert(len(p.Xref) == n, "number of objects differs")
	for i := 0; i < n; i++ {
		want := decimal(i)
		if i == mid {
			want = x
		}
		o := p.GetObject(first + i)
		equal(o.Value, pdf.String(want), "object")
		Assert(o.Generation == i%3, "generation differs")
	}
	Cover("repaired")
}
