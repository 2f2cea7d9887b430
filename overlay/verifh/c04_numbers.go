package verifh

import (
	"github.com/KarmaPenny/pdfparser/pdf"
	. "github.com/KarmaPenny/pdfparser/verifsym"
)

// readNumber reads one object that must be a number and checks what stays to be read.
func readNumber(data []byte, left int) (float64, bool) {
	p := open(data)
	o, err := p.ReadObject(none)
	Assert(err == nil, "number: error")
	n, ok := o.(pdf.Number)
	Assert(ok, "number: not a number")
	Assert(same(rest(p), data[len(data)-left:]), "number: reading stopped at the wrong place")
	return float64(n), ok
}

func sign() (string, float64) {

	switch Choose(3) {
	case 0:
		return "-", -1
	case 1:
		return "+", 1
	}
	return "", 1
}

// C04_integer reads integers of up to 16 digits, ended by any byte or by the end of the input.
func C04_integer() {
	s, f := sign()
	d := digits(1 + Choose(Bound("C04.integer.digits", 16, 16)))
	if len(d) == 16 {
		Assume(d[0] <= '8') // below 2^53
	}
	v := int64(0)
	for i := range d {
		v = v*10 + int64(d[i]-'0')
	}
	var tail []byte
	if Choose(2) == 0 {
		t := Byte()
		Assume(!isDigit(t) && t != '.')
		tail = cat(t, "(x)")
	}
	got, ok := readNumber(cat(s, d, tail), len(tail))
	if ok {
		Assert(got*f == float64(v), "integer: wrong value")
	}
	Cover("read")
}

// C04_zeros reads integers with many leading zeros.
func C04_zeros() {
	s, f := sign()
	n := []int{1, 2, 8, 17, 40, 300, 400}[Choose(7)]
	z := make([]byte, n)
	for i := range z {
		z[i] = '0'
	}
	d := digits(3)
	tail := []byte("/N")
	got, ok := readNumber(cat(s, z, d, tail), len(tail))
	if ok {
		Assert(got*f == float64(int(d[0]-'0')*100+int(d[1]-'0')*10+int(d[2]-'0')), "zeros: wrong value")
	}
	Cover("read")
}

// C04_real reads reals with symbolic digits; each is within rounding of what it denotes.
func C04_real() {
	s, f := sign()
	ni := Choose(Bound("C04.real.int", 3, 4))
	nf := Choose(Bound("C04.real.frac", 3, 4) + 1)
	Assume(ni+nf > 0)
	a, b := digits(ni), digits(nf)
	v, scale := 0, 1
	for i := range a {
		v = v*10 + int(a[i]-'0')
	}
	for i := range b {
		v = v*10 + int(b[i]-'0')
		scale *= 10
	}
	var tail []byte
	if Choose(2) == 0 {
		t := Byte()
		Assume(!isDigit(t))
		tail = cat(t, "(x)")
	}
	got, ok := readNumber(cat(s, a, ".", b, tail), len(tail))
	if ok {
		got = got * f * float64(scale)
		Assert(near(got, float64(v)), "real: wrong value")
	}
	Cover("read")
}

// C04_long reads reals with long concrete stretches of digits and symbolic ones at any place.
func C04_long() {
	n := []int{4, 6, 9, 12, 15}[Choose(5)]
	k := Choose(n + 1)
	d := make([]byte, n)
	for i := range d {
		d[i] = '0' + byte((i*7+3)%10)
	}
	d[Choose(n)] = digits(1)[0]
	var v int64
	scale := 1.0
	for i := range d {
		v = v*10 + int64(d[i]-'0')
		if i >= k {
			scale *= 10
		}
	}
	got, ok := readNumber(cat(d[:k], ".", d[k:], "]"), 1)
	if ok {
		want := float64(v) / scale
		diff := got - want
		tol := want * 1e-14
		Assert(diff <= tol && -diff <= tol, "long real: wrong value")
	}
	Cover("read")
}

// C04_next reads a number right before another one.
func C04_next() {
	d := digits(2)
	c := []string{".5", "-7", "+7", "/7", "(7)", "[7]", "<7>", "%7\n"}[Choose(8)]
	p := object(cat("[", d, ".", d[:1], c, "]"))
	a, ok := p.GetObject(1).Value.(pdf.Array)
	Assert(ok && len(a) > 0, "next: not an array")
	if ok && len(a) > 0 {
		x, ok := a[0].(pdf.Number)
		Assert(ok, "next: not a number")
		if ok {
			Assert(near(float64(x)*10, float64(int(d[0]-'0')*100+int(d[1]-'0')*10+int(d[0]-'0'))), "next: wrong value")
		}
		if c[0] == '%' {
			Assert(len(a) == 1, "next: wrong length")
		} else {
			Assert(len(a) == 2, "next: wrong length")
		}
	}
	Cover("read")
}
