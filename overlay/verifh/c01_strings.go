package verifh

import (
	"bytes"

	"github.com/KarmaPenny/pdfparser/pdf"
	. "github.com/KarmaPenny/pdfparser/verifsym"
)

// C01_any reads a literal string whose bytes are arbitrary.
func C01_any() {
	n := Choose(Bound("C01.any.len", 4, 5) + 1)
	checkObject(cat("(", Bytes(n)), false, "literal string")
	Cover("read")
}

// C01_escape reads an escape sequence between other bytes.
func C01_escape() {
	n := Choose(Bound("C01.escape.len", 4, 5) + 1)
	checkObject(cat("(", Byte(), "\\", Bytes(n), ")/N"), false, "literal string")
	Cover("read")
}

// C01_octal reads two octal escapes in a row.
func C01_octal() {
	a, b := Bytes(3), Bytes(2)
	within(a, "01234567")
	within(b, "01234567")
	checkObject(cat("(\\", a, "\\", b, ")9"), false, "octal escapes")
	Cover("read")
}

// C01_plain reads a long string without escapes; lengths lie around buffer sizes.
func C01_plain() {
	n := lengths[Choose(len(lengths))]
	d := Bytes(n)
	for i := range d {
		Assume(d[i] != '(' && d[i] != ')' && d[i] != '\\')
	}
	p := object(cat("[(", d, ")/N]"))
	o := p.GetObject(1)
	equal(o.Value, pdf.Array{pdf.String(d), pdf.Name("N")}, "plain string")
	Cover("read")
}

// C01_nested reads balanced parentheses around arbitrary plain bytes.
func C01_nested() {
	depth := Choose(Bound("C01.nested.depth", 6, 40) + 1)
	var body []byte
	for i := 0; i < depth; i++ {
		body = append(body, plain(1)...)
		body = append(body, '(')
	}
	body = append(body, plain(2)...)
	for i := 0; i < depth; i++ {
		body = append(body, ')')
		body = append(body, plain(1)...)
	}
	p := object(cat("[(", body, ")/N]"))
	equal(p.GetObject(1).Value, pdf.Array{pdf.String(body), pdf.Name("N")}, "nested parentheses")
	Cover("read")
}

func plain(n int) []byte {
	d := Bytes(n)
	for i := range d {
		Assume(d[i] != '(' && d[i] != ')' && d[i] != '\\')
	}
	return d
}

// C01_deep nests parentheses to depths around the limits of small counters.
func C01_deep() {
	depths := []int{1, 7, 8, 15, 16, 31, 32, 63, 64, 126, 127, 128, 253, 254, 255, 256, 257, 511, 512, 1000, 4094, 4096, 32768, 65536}
	n := depths[Choose(Bound("C01.deep.depths", 22, len(depths)))]
	x := plain(1)
	body := cat(bytes.Repeat([]byte("("), n), x, bytes.Repeat([]byte(")"), n))
	p := object(cat("[(", body, ")/N]"))
	equal(p.GetObject(1).Value, pdf.Array{pdf.String(body), pdf.Name("N")}, "deeply nested parentheses")
	Cover("read")
}

// C01_huge reads very long literal strings.
func C01_huge() {
	n := huge[Choose(len(huge))]
	d := bulk(n, most)
	p := object(cat("[(", d, ")/N]"))
	equal(p.GetObject(1).Value, pdf.Array{pdf.String(d), pdf.Name("N")}, "long string")
	Cover("read")
}
