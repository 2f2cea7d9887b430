package verifh

import (
	"github.com/KarmaPenny/pdfparser/pdf"
	. "github.com/KarmaPenny/pdfparser/verifsym"
)

// C03_any reads a name whose bytes are arbitrary.
func C03_any() {
	n := Choose(Bound("C03.any.len", 4, 6) + 1)
	checkObject(cat("/", Bytes(n)), false, "name")
	Cover("read")
}

// C03_escape reads escapes between other bytes.
func C03_escape() {
	n := Choose(Bound("C03.escape.len", 4, 5) + 1)
	checkObject(cat("/", Byte(), "#", Bytes(n), "(x)"), false, "name")
	Cover("read")
}

// C03_roundtrip reads names in which any byte but NUL may be escaped.
func C03_roundtrip() {
	n := Choose(Bound("C03.roundtrip.len", 3, 5) + 1)
	want := Bytes(n)
	var enc []byte
	for _, b := range want {
		if Choose(2) == 0 {
			Assume(isRegular(b) && b != '#')
			enc = append(enc, b)
		} else if Choose(2) == 0 {
			enc = append(enc, '#', hexDigit(b>>4), hexDigit(b&15))
		} else {
			enc = append(enc, '#', upper(b>>4), upper(b&15))
		}
	}
	p := object(cat("[/", enc, "(x)]"))
	equal(p.GetObject(1).Value, pdf.Array{pdf.Name(want), pdf.String("x")}, "name")
	Cover("read")
}

// C03_long reads long names.
func C03_long() {
	n := lengths[Choose(len(lengths))]
	d := Bytes(n)
	for i := range d {
		Assume(isRegular(d[i]) && d[i] != '#')
	}
	t := Byte()
	Assume(isWS(t) || t == '(' || t == '[' || t == '/' || t == '<' || t == '%')
	data := cat("/", d, t, "tail")
	p := open(data)
	o, err := p.ReadObject(none)
	Assert(err == nil, "name: error")
	equal(o, pdf.Name(d), "long name")
	Assert(same(rest(p), data[n+1:]), "long name: reading stopped at the wrong place")
	Cover("read")
}

// C03_huge reads very long names.
func C03_huge() {
	n := huge[Choose(len(huge))]
	d := bulk(n, most)
	p := object(cat("[/", d, "(x)]"))
	equal(p.GetObject(1).Value, pdf.Array{pdf.Name(d), pdf.String("x")}, "long name")
	Cover("read")
}
