package verifh

import (
	"github.com/KarmaPenny/pdfparser/pdf"
	. "github.com/KarmaPenny/pdfparser/verifsym"
)

// extent is what a stream holds, by its definition; d follows the keyword.
func extent(d []byte) []byte {
	i := 0
	for i < len(d) && d[i] != '\n' && d[i] != '\r' {
		i++
	}
	if i == len(d) {
		return nil
	}
	i++
	if d[i-1] == '\r' {
		if i == len(d) {
			return nil
		}
		if d[i] == '\n' {
			i++
		}
	}
	d = d[i:]
	for j := 0; j+9 <= len(d); j++ {
		if string(d[j:j+9]) == "endstream" {
			d = d[:j]
			if j > 0 && d[j-1] == '\n' {
				j--
				if j > 0 && d[j-1] == '\r' {
					j--
				}
			} else if j > 0 && d[j-1] == '\r' {
				j--
			}
			return d[:j]
		}
	}
	return d
}

func checkStream(head, d []byte, msg string) {
	want := extent(d)
	p := open(cat(head, d))
	p.Xref[1] = pdf.NewXrefEntry(0, 0, pdf.XrefTypeIndirectObject)
	o := p.GetObject(1)
	Assert(len(o.Stream) == len(want), msg+": length differs")
	Assert(same(o.Stream, want), msg+": data differs")
	Observe("stream", string(o.Stream))
}

// C08_any reads streams of arbitrary bytes.
func C08_any() {
	n := Choose(Bound("C08.any.len", 10, 12) + 1)
	d := Bytes(n)
	start := []string{"\n", "\r\n", "\r", " \n", "  \r\n"}[Choose(5)]
	end := []string{"endstream\nendobj", "\nendstream\nendobj", "\r\nendstream endobj", "\rendstream", "endstreamendstream", ""}[Choose(6)]
	checkStream([]byte("1 0 obj<</A 1>>stream"), cat(start, d, end), "stream")
	Cover("read")
}

// C08_letters reads streams made of the letters of the marker and line ends.
func C08_letters() {
	n := Choose(Bound("C08.letters.len", 5, 8) + 1)
	d := Bytes(n)
	within(d, "endstram\r\n")
	k := Choose(10)
	const m = "endstream"
	checkStream([]byte("1 0 obj<<>>stream"), cat("\n", m[:k], d, m[9-Choose(10):], "\nendobj"), "letters")
	Cover("read")
}

// C08_length reads streams whose Length is wrong or of a wrong type.
func C08_length() {
	d := Bytes(3)
	l := []string{"0", "2", "3", "4", "1000000", "-1", "(x)", "null", "9 0 R", "1 0 R", "2 0 R"}[Choose(11)]
	data := cat("1 0 obj<</Length ", l, "/A(", d[0], ")>>stream\n")
	Assume(d[0] != '(' && d[0] != ')' && d[0] != '\\')
	p := open(cat(data, d, "\nendstream\nendobj\n2 0 obj 3 endobj"))
	p.Xref[1] = pdf.NewXrefEntry(0, 0, pdf.XrefTypeIndirectObject)
	p.Xref[2] = pdf.NewXrefEntry(int64(len(data)+3+len("\nendstream\nendobj\n")), 0, pdf.XrefTypeIndirectObject)
	o := p.GetObject(1)
	Assert(same(o.Stream, extent(cat("\n", d, "\nendstream"))), "length: data differs")
	Cover("read")
}

// C08_long reads long streams; those with an end marker start and end anywhere in the buffer.
func C08_long() {
	n := lengths[Choose(len(lengths))]
	d := Bytes(n)
	for i := range d {
		Assume(d[i] != 'e')
	}
	if n > 0 {
		Assume(d[0] != '\n' && d[n-1] != '\n' && d[n-1] != '\r')
	}
	e := []string{"\nendstream", "\r\nendstream", "endstream", ""}[Choose(4)]
	p := open(cat("1 0 obj<<>>stream\r\n", d, e))
	p.Xref[1] = pdf.NewXrefEntry(0, 0, pdf.XrefTypeIndirectObject)
	o := p.GetObject(1)
	Assert(same(o.Stream, d), "long: data differs")
	Cover("read")
}

// C08_place reads a short stream at any place around the end of a buffer.
func C08_place() {
	pad := 4096 - 60 + Choose(Bound("C08.place", 72, 80))
	c := make([]byte, pad)
	for i := range c {
		c[i] = ' '
	}
	d := Bytes(Choose(5))
	for i := range d {
		Assume(d[i] != 'e')
	}
	checkStream(cat("1 0 obj", c, "<<>>stream"), cat("\n", d, "\nendstream\n"), "place")
	Cover("read")
}

// C08_none reads objects that have no stream.
func C08_none() {
	b := Byte()
	Assume(isRegular(b))
	k := []string{"endobj", "Stream", "streams", "strea", "endstream", ""}[Choose(6)]
	if k == "" {
		Assume(!isDigit(b))
	}
	if k == "strea" {
		Assume(b != 'm')
	}
	p := object(cat("<</A 1>> ", k, b, "\nstream\nx\nendstream"))
	o := p.GetObject(1)
	Assert(o.Stream == nil, "none: a stream was read")
	Cover("read")
}

// C08_huge reads very long streams.
func C08_huge() {
	n := huge[Choose(len(huge))]
	d := bulk(n, most+"\r\n")
	checkStream([]byte("1 0 obj<<>>stream"), cat("\r\n", d, "\r\nendstream\nendobj"), "long stream")
	Cover("read")
}
