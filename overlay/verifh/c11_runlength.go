package verifh

import (
	"github.com/KarmaPenny/pdfparser/pdf"
	. "github.com/KarmaPenny/pdfparser/verifsym"
)

// refRunLength is the decoding rule of ISO 32000-1 7.4.5: a length byte below 128 copies the
// next length+1 bytes, above 128 repeats the next byte 257-length times, 128 ends the data;
// cut-off data yields what is there.
func refRunLength(d []byte) []byte {
	out := []byte{}
	p := 0
	for p < len(d) {
		l := int(d[p])
		p++
		if l == 128 {
			return out
		}
		if l > 128 {
			if p == len(d) {
				return out
			}
			for k := l; k < 257; k++ {
				out = append(out, d[p])
			}
			p++
			continue
		}
		for k := 0; k <= l && p < len(d); k++ {
			out = append(out, d[p])
			p++
		}
	}
	return out
}

// C11_any decodes arbitrary bytes.
func C11_any() {
	n := Choose(Bound("C11.any.len", 3, 4) + 1)
	d := Bytes(n)
	want := refRunLength(d)
	got := pdf.DecodeStream("RunLengthDecode", append([]byte{}, d...), pdf.Dictionary{})
	Assert(same(got, want), "RunLengthDecode differs from the run-length rule")
	Observe("out", string(got))
	Cover("decoded")
}

// C11_literal decodes inputs that contain only literal runs.
func C11_literal() {
	n := Choose(Bound("C11.literal.len", 9, 14) + 1)
	d := Bytes(n)
	p := 0
	for p < n {
		Assume(d[p] <= 128)
		if d[p] == 128 {
			break
		}
		k := int(d[p]) + 2
		if k > n {
			break
		}
		p += k
	}
	want := refRunLength(d)
	got := pdf.DecodeStream("RunLengthDecode", append([]byte{}, d...), pdf.Dictionary{})
	Assert(same(got, want), "RunLengthDecode differs from the run-length rule (literal runs)")
	Observe("out", string(got))
	Cover("decoded")
}

// C11_roundtrip decodes what an encoder produces for a sequence of runs.
func C11_roundtrip() {
	var enc, want []byte
	runs := Choose(Bound("C11.runs", 2, 3)) + 1
	for r := 0; r < runs; r++ {
		var n int
		if r == 0 {
			n = 1 + Choose(128)
		} else {
			n = []int{1, 2, 127, 128}[Choose(4)]
		}
		if Choose(2) == 0 {
			b := Bytes(n)
			enc = append(append(enc, byte(n-1)), b...)
			want = append(want, b...)
		} else if n >= 2 {
			b := Byte()
			enc = append(enc, byte(257-n), b)
			for i := 0; i < n; i++ {
				want = append(want, b)
			}
		}
	}
	switch Choose(3) {
	case 0:
		enc = append(enc, 128)
	case 1:
		enc = append(append(enc, 128), Bytes(3)...)
		Cover("trailing garbage")
	}
	got := pdf.DecodeStream("RunLengthDecode", enc, pdf.Dictionary{})
	Assert(same(got, want), "run-length round trip")
	Observe("out", string(got))
	Cover("done")
}

// C11_huge decodes very many runs.
func C11_huge() {
	n := huge[Choose(len(huge))]
	var in, want []byte
	for i := 0; len(in) < n; i++ {
		b := byte(i)
		if i == 0 || len(in)+5 > n {
			b = Byte()
		}
		switch i % 3 {
		case 0:
			in, want = append(in, 1, b, 7), append(want, b, 7)
		case 1:
			in, want = append(in, 255, b), append(want, b, b)
		case 2:
			in, want = append(in, 0, b), append(want, b)
		}
	}
	if Choose(2) == 0 {
		in = append(in, 128, 0, 1)
	}
	Assert(same(pdf.DecodeStream("RunLengthDecode", in, pdf.Dictionary{}), want), "many runs: wrong data")
	Cover("decoded")
}
