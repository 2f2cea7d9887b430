package verifh

import (
	"bytes"

	"github.com/KarmaPenny/pdfparser/pdf"
	. "github.com/KarmaPenny/pdfparser/verifsym"
)

func font(cmap []byte) *pdf.Font {
	p := objects(plainStream(cmap))
	return pdf.NewFont(pdf.Dictionary{"ToUnicode": pdf.NewReference(p, 1, 0)})
}

// hexed is n bytes written with any hexadecimal digits.
func hexed(n int) (text, value []byte) {
	text = []byte("<")
	for i := 0; i < n; i++ {
		d := Bytes(2)
		Assume(isHexDigit(d[0]) && isHexDigit(d[1]))
		text = cat(text, d)
		value = append(value, hexVal(d[0])<<4|hexVal(d[1]))
	}
	return cat(text, ">"), value
}

func number(b []byte) int {
	n := 0
	for _, x := range b {
		n = n<<8 | int(x)
	}
	return n
}

func join(v int, n int) []byte {
	out := make([]byte, n)
	for i := n - 1; i >= 0; i-- {
		out[i] = byte(v)
		v >>= 8
	}
	return out
}

// C24_char translates any code with single mappings.
func C24_char() {
	w := 1 + Choose(Bound("width", 4, 5))
	k := 1 + Choose(2)
	var cmap []byte
	var codes, values [][]byte
	for i := 0; i < k; i++ {
		ct, c := hexed(w)
		vt, v := hexed([]int{1, 2, 4}[Choose(3)])
		cmap = cat(cmap, ct, []string{" ", "\n", ""}[i%3], vt, "\n")
		codes, values = append(codes, c), append(values, v)
	}
	if k == 2 {
		Assume(!same(codes[0], codes[1]))
	}
	f := font(cat("/CIDInit /ProcSet findresource begin\n", decimal(k), " beginbfchar\n", cmap, "endbfchar\nendcmap"))
	text := Bytes(w)
	want := text
	for i := range codes {
		if same(codes[i], text) {
			want = values[i]
		}
	}
	Assert(f.Decode(append([]byte{}, text...)) == string(want), "translation differs")
	Cover("translated")
}

// C24_range translates any code with a range.
func C24_range() {
	w := 1 + Choose(Bound("width", 4, 5))
	n := 1 + Choose(3)
	st, s := hexed(w)
	et, e := hexed(w)
	vt, v := hexed(n)
	text := Bytes(w)
	f := font(cat("1 beginbfrange", st, et, vt, "endbfrange"))
	code := number(text)
	want := text
	if code >= number(s) && code <= number(e) {
		sum := number(v) + code - number(s)
		Assume(sum < 1<<(8*uint(n)))
		want = join(sum, n)
	}
	Assert(f.Decode(append([]byte{}, text...)) == string(want), "translation differs")
	Cover("translated")
}

// C24_array translates any code with a range that lists its values.
func C24_array() {
	w := 1 + Choose(2)
	k := 1 + Choose(3)
	st, s := hexed(w)
	last := number(s) + k - 1
	Assume(last < 1<<(8*uint(w)))
	var list []byte
	var values [][]byte
	for i := 0; i < k; i++ {
		vt, v := hexed(1 + i&1)
		list = cat(list, vt, " ")
		values = append(values, v)
	}
	more := Choose(2) == 0
	_, c := hexed(w)
	Assume(!(number(c) >= number(s) && number(c) <= last))
	cmap := cat("2 beginbfrange\n", st, " <", encHex(join(last, w)), " [", list, "]\n")
	if more {
		cmap = cat(cmap, "<", encHex(c), "<", encHex(c), "<7A>\n")
	}
	f := font(cat(cmap, "endbfrange"))
	text := Bytes(w)
	want := text
	for i := range values {
		if number(text) == number(s)+i {
			want = values[i]
		}
	}
	if more && same(text, c) {
		want = []byte("z")
	}
	Assert(f.Decode(append([]byte{}, text...)) == string(want), "translation differs")
	Cover("translated")
}

// C24_several has several sections of mappings.
func C24_several() {
	var cmap []byte
	type entry struct {
		lo, hi int
		value  []byte
	}
	var entries []entry
	at := 16
	for i := 0; i < 3; i++ {
		n := 1 + Choose(2)
		section := []byte{}
		kind := Choose(2)
		for j := 0; j < n; j++ {
			v := Byte()
			Assume(v < 0xf0)
			e := entry{at, at, []byte{'v', v}}
			if kind == 0 {
				section = cat(section, "<", encHex([]byte{byte(at)}), " <", encHex(e.value))
			} else {
				e.hi = at + 3
				section = cat(section, "<", encHex([]byte{byte(at)}), "<", encHex([]byte{byte(e.hi)}), "<", encHex(e.value))
			}
			entries = append(entries, e)
			at = e.hi + 1 + i
		}
		name := []string{"char", "range"}[kind]
		cmap = cat(cmap, decimal(n), " beginbf", name, "\n", section, "\nendbf", name, "\n")
	}
	f := font(cmap)
	c := Byte()
	want := []byte{c}
	for _, e := range entries {
		if int(c) >= e.lo && int(c) <= e.hi {
			want = []byte{'v', e.value[1] + c - byte(e.lo)}
		}
	}
	Assert(f.Decode([]byte{c}) == string(want), "translation differs")
	Cover("translated")
}

// C24_string translates strings code by code.
func C24_string() {
	w := 1 + Choose(3)
	_, v := hexed(1)
	a, b := []byte("ABC")[:w], []byte("aBC")[:w]
	f := font(cat("1 beginbfchar <", encHex(a), "<", encHex(v), "endbfchar 1 beginbfrange <", encHex(b), "<", encHex(b), "<7879> endbfrange"))
	var text, want []byte
	n := Choose(Bound("codes", 4, 6))
	for i := 0; i < n; i++ {
		switch Choose(3) {
		case 0:
			text, want = cat(text, a), cat(want, v)
		case 1:
			text, want = cat(text, b), cat(want, "xy")
		case 2:
			x := Bytes(w)
			Assume(x[0] != 'A' && x[0] != 'a')
			text, want = cat(text, x), cat(want, x)
		}
	}
	Assert(f.Decode(append([]byte{}, text...)) == string(want), "translation differs")
	Cover("translated")
}

// C24_none has no map, or one that maps nothing.
func C24_none() {
	text := Bytes(Choose(4))
	var f *pdf.Font
	switch Choose(4) {
	case 0:
		f = pdf.FontDefault
	case 1:
		f = pdf.NewFont(pdf.Dictionary{})
	case 2:
		f = pdf.NewFont(pdf.Dictionary{"ToUnicode": pdf.Name("Identity-H")})
	case 3:
		f = font([]byte([]string{"", "1 begincodespacerange <0000> <FFFF> endcodespacerange", "0 beginbfchar endbfchar", "1 beginbfrange endbfrange", "1 beginbfchar"}[Choose(5)]))
	}
	Assert(f.Decode(append([]byte{}, text...)) == string(text), "text is changed")
	Cover("translated")
}

// C24_extent builds maps whose ranges extend far.
func C24_extent() {
	x := digits(2)
	w := 2 + Choose(5)
	lo, hi := []byte("<"), []byte("<")
	for i := 0; i < w; i++ {
		lo, hi = cat(lo, "00"), cat(hi, "FF")
	}
	if w == 6 {
		hi = cat(hi[:1], "7F", hi[3:])
	}
	cmap := cat("9", x, " beginbfrange\n", lo, ">", hi, "><0000>\n", lo, ">", hi, "><0041>\n", "endbfrange")
	f := font(cmap)
	code := make([]byte, w)
	code[w-1] = x[0]
	got := f.Decode(code)
	Assert(got == string([]byte{0, 0x41 + x[0]}), "translation differs")
	Cover("translated")
}

// C24_many has many mappings in one section or in many.
func C24_many() {
	n := []int{99, 100, 101, 128, 255, 256, 257, 1000, 1025, 3000}[Choose(Bound("C24.many", 8, 10))]
	per := []int{1, 100, n}[Choose(3)]
	kind := Choose(3)
	_, v := hexed(2)
	Assume(v[1] < 0xf0)
	mid := n / 2
	var cmap []byte
	value := func(i int) []byte {
		if i == mid {
			return v
		}
		return []byte{byte(i>>8) + 0x20, byte(i), 'v'}
	}
	code := func(i int) []byte { return []byte{byte(i >> 6), byte(i<<2) + 1} }
	for i := 0; i < n; {
		k := min(per, n-i)
		name := []string{"char", "range", "range"}[kind]
		cmap = cat(cmap, decimal(k), " beginbf", name, "\n")
		for j := i; j < i+k; j++ {
			switch kind {
			case 0:
				cmap = cat(cmap, "<", encHex(code(j)), " <", encHex(value(j)), "\n")
			case 1:
				hi := code(j)
				hi[1]++
				cmap = cat(cmap, "<", encHex(code(j)), " <", encHex(hi), " <", encHex(value(j)), "\n")
			case 2:
				cmap = cat(cmap, "<", encHex(code(j)), " <", encHex(code(j)), "[<", encHex(value(j)), "]\n")
			}
		}
		cmap = cat(cmap, "endbf", name, "\n")
		i += k
	}
	f := font(cmap)
	text, want := []byte{}, []byte{}
	for _, i := range []int{0, 1, mid, n - 2, n - 1} {
		text, want = cat(text, code(i)), cat(want, value(i))
	}
	Assert(f.Decode(text) == string(want), "translation differs")
	unmapped := []byte{byte(n >> 6), byte(n<<2) + 1}
	Assert(f.Decode(append([]byte{}, unmapped...)) == string(unmapped), "a code that is not mapped is translated")
	Cover("translated")
}

// C24_carry has ranges across the end of a byte, in codes and in values of any width.
func C24_carry() {
	w, n := 1+Choose(4), 1+Choose(Bound("C24.carry", 5, 9))
	lo := bytes.Repeat([]byte{0x12}, w)
	hi := append([]byte{}, lo...)
	lo[w-1], hi[w-1] = 0xf0, 0xff
	if w > 1 {
		lo[w-2], hi[w-2] = 0x01, 0x02
		hi[w-1] = 0x20
	} else {
		lo[0] = 0x60
	}
	_, v := hexed(n)
	Assume(v[0] < 0xf0)
	if n > 2 {
		v[0] = 0x7f
		for i := 1; i < n-2; i++ {
			v[i] = 0xff
		}
	}
	f := font(cat("1 beginbfrange <", encHex(lo), "<", encHex(hi), "<", encHex(v), "endbfrange"))
	step := Choose(Bound("C24.step", 24, 24)) * 2
	if n == 1 {
		Assume(int(v[0])+step < 256)
	}
	text, want := append([]byte{}, lo...), append([]byte{}, v...)
	add := func(b []byte, k int) {
		for i := len(b) - 1; i >= 0; i-- {
			k += int(b[i])
			b[i] = byte(k)
			k >>= 8
		}
	}
	add(text, step)
	add(want, step)
	Assert(f.Decode(append([]byte{}, text...)) == string(want), "translation differs")
	Cover("translated")
}
