package verifh

import (
	"github.com/KarmaPenny/pdfparser/pdf"
	. "github.com/KarmaPenny/pdfparser/verifsym"
)

// C02_any reads a hexadecimal string whose bytes are arbitrary.
func C02_any() {
	n := Choose(Bound("C02.any.len", 4, 5) + 1)
	d := Bytes(n)
	if n > 0 {
		Assume(d[0] != '<')
	}
	checkObject(cat("<", d), false, "hex string")
	Cover("read")
}

// C02_closed reads hex strings that are followed by another object.
func C02_closed() {
	n := Choose(Bound("C02.closed.len", 4, 5) + 1)
	d := Bytes(n)
	if n > 0 {
		Assume(d[0] != '<')
	}
	checkObject(cat("<", d, "> /N"), false, "hex string")
	Cover("read")
}

// C02_digits reads every digit pair, with a separator anywhere.
func C02_digits() {
	n := Choose(Bound("C02.digits", 6, 9) + 1)
	d := Bytes(n)
	var want []byte
	for i := range d {
		Assume(isHexDigit(d[i]))
		if i%2 == 0 {
			want = append(want, hexVal(d[i])<<4)
		} else {
			want[i/2] |= hexVal(d[i])
		}
	}
	k := Choose(n + 1)
	sep := Bytes(Choose(3))
	for i := range sep {
		Assume(isWS(sep[i]))
	}
	p := object(cat("[<", d[:k], sep, d[k:], ">/N]"))
	equal(p.GetObject(1).Value, pdf.Array{pdf.String(want), pdf.Name("N")}, "hex digits")
	Cover("read")
}

// C02_long reads hex strings around buffer sizes; the bytes at both ends are arbitrary.
func C02_long() {
	n := lengths[Choose(len(lengths))]
	want := make([]byte, n)
	var enc []byte
	for i := range want {
		if i == 0 || i == n-1 {
			want[i] = Byte()
		} else {
			want[i] = byte(i * 7)
		}
		enc = append(enc, hexDigit(want[i]>>4), hexDigit(want[i]&15))
	}
	p := object(cat("[<", enc, ">/N]"))
	equal(p.GetObject(1).Value, pdf.Array{pdf.String(want), pdf.Name("N")}, "long hex string")
	Cover("read")
}

// C02_huge reads very long hexadecimal strings.
func C02_huge() {
	n := huge[Choose(len(huge)-1)]
	d := bulk(n, most)
	p := object(cat("[<", encHex(d), "/N]"))
	equal(p.GetObject(1).Value, pdf.Array{pdf.String(d), pdf.Name("N")}, "long string")
	Cover("read")
}
