package verifh

import (
	"github.com/KarmaPenny/pdfparser/pdf"
	. "github.com/KarmaPenny/pdfparser/verifsym"
)

func decode(filter string, data []byte, parms pdf.Dictionary) []byte {
	return pdf.DecodeStream(filter, append([]byte{}, data...), parms)
}

// gap is white space of any bytes.
func gap(most int) []byte {
	d := Bytes(Choose(most + 1))
	for i := range d {
		Assume(isWS(d[i]))
	}
	return d
}

// C10_hex decodes every way of writing some bytes as hex digits.
func C10_hex() {
	n := Choose(Bound("C10.hex.bytes", 4, 6) + 1)
	d := Bytes(2 * n)
	for i := range d {
		Assume(isHexDigit(d[i]))
	}
	odd := n > 0 && Choose(2) == 0
	if odd {
		d = d[:2*n-1]
	}
	var want []byte
	for i := range d {
		if i%2 == 0 {
			want = append(want, hexVal(d[i])<<4)
		} else {
			want[i/2] |= hexVal(d[i])
		}
	}
	k := Choose(len(d) + 1)
	enc := cat(gap(1), d[:k], gap(2), d[k:], gap(1))
	if Choose(2) == 0 {
		enc = cat(enc, ">", Bytes(Choose(3)))
	}
	got := decode("ASCIIHexDecode", enc, nil)
	Assert(same(got, want), "hex: wrong data")
	Cover("decoded")
}

// C10_hexws puts white space between all digits.
func C10_hexws() {
	b := Bytes(2)
	var enc []byte
	for _, v := range b {
		d := Bytes(2)
		Assume(isHexDigit(d[0]) && isHexDigit(d[1]) && hexVal(d[0])<<4|hexVal(d[1]) == v)
		enc = append(enc, cat(gap(2), d[:1], gap(2), d[1:])...)
	}
	enc = cat(enc, gap(2))
	if Choose(2) == 0 {
		enc = cat(enc, ">", Bytes(Choose(3)))
	}
	Assert(same(decode("ASCIIHexDecode", enc, nil), b), "hex: wrong data")
	Cover("decoded")
}

// C10_hexlong decodes many bytes.
func C10_hexlong() {
	n := lengths[Choose(len(lengths))]
	var want, enc []byte
	for i := 0; i < n; i++ {
		b := byte(i*11 + i>>8)
		if i == 0 || i == n-1 {
			b = Byte()
		}
		want = append(want, b)
		enc = append(enc, hexDigit(b>>4), upper(b&15))
		if i%37 == 36 {
			enc = append(enc, '\n')
		}
	}
	Assert(same(decode("ASCIIHexDecode", cat(enc, ">"), nil), want), "long hex: wrong data")
	Cover("decoded")
}

// group85 is any encoding of n bytes as one group of base 85 digits.
func group85(n int) (enc, want []byte) {
	want = Bytes(n)
	v, w := uint64(0), uint64(0)
	for i := 0; i < 4; i++ {
		v <<= 8
		if i < n {
			v |= uint64(want[i])
		}
	}
	enc = Bytes(n + 1)
	unit := uint64(1)
	for i := 0; i < 5; i++ {
		w *= 85
		if i <= n {
			Assume(enc[i] >= '!' && enc[i] <= 'u')
			w += uint64(enc[i] - '!')
		} else {
			unit *= 85
		}
	}
	// the digits are the leading ones of the value
	Assume(w <= v && v < w+unit)
	return
}

func end85() []byte {
	switch Choose(3) {
	case 0:
		return nil
	case 1:
		return cat("~>", Bytes(Choose(3)))
	}
	return cat("~", gap(1), ">", Bytes(Choose(2)))
}

// C10_85group decodes every group of base 85 digits, full or partial.
func C10_85group() {
	n := 1 + Choose(4)
	enc, want := group85(n)
	k := Choose(len(enc) + 1)
	in := cat(gap(1), enc[:k], gap(2), enc[k:], end85())
	Assert(same(decode("ASCII85Decode", in, nil), want), "base 85: wrong data")
	Cover("decoded")
}

// C10_85mix decodes several groups, also abbreviated ones.
func C10_85mix() {
	var in, want []byte
	n := Choose(Bound("C10.85mix", 3, 4) + 1)
	for i := 0; i < n; i++ {
		switch Choose(3) {
		case 0:
			in, want = append(in, 'z'), append(want, 0, 0, 0, 0)
		case 1:
			// @:E_W stands for abcd
			d := Byte()
			Assume(d >= '!' && d <= 'u')
			in, want = append(in, cat("@:E_", d)...), append(want, 'a', 'b', 'c', 'd'-'W'+d)
		case 2:
			in, want = append(in, "s8W-!"...), append(want, 255, 255, 255, 255)
		}
		in = append(in, gap(1)...)
	}
	if Choose(2) == 0 {
		b := Byte()
		v := uint32(b) << 24
		in = append(in, byte(v/52200625)+'!', byte(v/614125%85)+'!')
		want = append(want, b)
	}
	in = cat(in, end85())
	Assert(same(decode("ASCII85Decode", in, nil), want), "base 85: wrong data")
	Cover("decoded")
}

// C10_85long decodes many groups.
func C10_85long() {
	n := lengths[Choose(len(lengths))]
	var want, enc []byte
	for i := 0; i < n; i += 4 {
		g := make([]byte, min(4, n-i))
		v := uint32(0)
		for j := range g {
			g[j] = byte(i*13 + j*71 + i>>8)
			if i == 0 && j == 0 || i+j == n-1 && j == 0 {
				g[j] = Byte()
			}
			v |= uint32(g[j]) << (24 - 8*uint(j))
		}
		want = append(want, g...)
		div := uint32(85 * 85 * 85 * 85)
		for j := 0; j <= len(g); j++ {
			enc = append(enc, byte(v/div%85)+'!')
			div /= 85
		}
		if i%36 == 32 {
			enc = append(enc, '\n')
		}
	}
	Assert(same(decode("ASCII85Decode", cat(enc, "~>"), nil), want), "long base 85: wrong data")
	Cover("decoded")
}

// C10_huge decodes very long data.
func C10_huge() {
	n := huge[Choose(len(huge)-1)]
	d := bulk(n, most)
	if Choose(2) == 0 {
		Assert(same(decode("ASCIIHexDecode", encHex(d), nil), d), "long hex: wrong data")
	} else {
		Assert(same(decode("ASCII85Decode", enc85(d), nil), d), "long base 85: wrong data")
	}
	Cover("decoded")
}
