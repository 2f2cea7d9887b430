package verifh

import (
	"github.com/KarmaPenny/pdfparser/pdf"
	. "github.com/KarmaPenny/pdfparser/verifsym"
)

// C06_any reads composites whose bytes are arbitrary.
func C06_any() {
	n := Choose(Bound("C06.any.len", 3, 4) + 1)
	start := []string{"[", "<<", "<</A ", "[1 0 ", "<</A 1 0 "}[Choose(5)]
	checkObject(cat(start, Bytes(n)), false, "composite")
	Cover("read")
}

// C06_brackets reads nestings of brackets and short tokens.
func C06_brackets() {
	n := Choose(Bound("C06.brackets.len", 7, 9) + 1)
	d := Bytes(n)
	within(d, "[]<>/ ")
	start := []string{"[", "<<"}[Choose(2)]
	checkObject(cat(start, d), false, "brackets")
	Cover("read")
}

// C06_refs reads numbers, references and keywords.
func C06_refs() {
	n := Choose(Bound("C06.refs.len", 8, 10) + 1)
	d := Bytes(n)
	within(d, "15 R")
	checkObject(cat("[", d, "]/N"), false, "references")
	Cover("read")
}

// C06_refnum reads references with any number and generation of some digits, followed by any
// byte.
func C06_refnum() {
	a, b := digits(1+Choose(Bound("C06.refnum.num", 7, 9))), digits(1+Choose(Bound("C06.refnum.gen", 5, 5)))
	t := Bytes(2)
	Assume(isDelim(t[0]) || isWS(t[0]))
	l := &lex{d: cat(a, " ", b, " R", t, "/x")}
	want, _ := l.object()
	p := open(l.d)
	got, err := p.ReadObject(none)
	Assert(err == nil, "reference: error")
	equal(got, want, "reference")
	Assert(same(rest(p), cat(t, "/x")), "reference: reading stopped at the wrong place")
	Cover("read")
}

// leaf is a token with an arbitrary byte in it, and what it denotes.
func leaf() ([]byte, pdf.Object) {
	switch Choose(6) {
	case 0:
		b := Byte()
		Assume(b != '(' && b != ')' && b != '\\')
		return cat("(", b, ")"), pdf.String(cat(b))
	case 1:
		b := Byte()
		return cat("<", hexDigit(b>>4), hexDigit(b&15), ">"), pdf.String(cat(b))
	case 2:
		b := Byte()
		Assume(isRegular(b) && b != '#')
		return cat("/", b, " "), pdf.Name(cat(b))
	case 3:
		b := Byte()
		Assume(isDigit(b))
		return cat("1", b, " "), pdf.Number(float64(10 + int(b-'0')))
	case 4:
		b := Byte()
		Assume(isDigit(b))
		return cat("1", b, " 0 R "), &pdf.Reference{Number: 10 + int(b-'0')}
	}
	b := Byte()
	Assume(isRegular(b) && !isDigit(b) && b != '+' && b != '-' && b != '.')
	return cat(" ", b, "x "), pdf.Keyword(cat(b, "x"))
}

// tree is a random object of the given depth and what it denotes.
func tree(depth int) ([]byte, pdf.Object) {
	k := 0
	if depth > 0 {
		k = Choose(3)
	}
	switch k {
	case 1:
		out := []byte("[")
		a := pdf.Array{}
		n := Choose(3)
		for i := 0; i < n; i++ {
			s, o := tree(depth - 1)
			out = append(out, s...)
			a = append(a, o)
		}
		return append(out, ']'), a
	case 2:
		out := []byte("<<")
		d := pdf.Dictionary{}
		n := Choose(3)
		for i := 0; i < n; i++ {
			k := Byte()
			Assume(k >= 'a' && k <= 'c')
			s, o := tree(depth - 1)
			out = append(out, cat("/", k, " ", s)...)
			d[string(cat(k))] = o
		}
		return append(out, '>', '>'), d
	}
	return leaf()
}

// C06_tree reads nested structures.
func C06_tree() {
	s, o := tree(Bound("C06.tree.depth", 2, 2))
	p := object(cat("[", s, "/N]"))
	a, ok := p.GetObject(1).Value.(pdf.Array)
	Assert(ok && len(a) == 2, "tree: not an array of two")
	if ok && len(a) == 2 {
		equal(a[0], o, "tree")
		equal(a[1], pdf.Name("N"), "after the tree")
	}
	Cover("read")
}

// C06_cut reads structures cut off anywhere.
func C06_cut() {
	b := Byte()
	Assume(b >= 'a' && b <= 'z')
	d := [][]byte{
		cat("[1 (", b, ") /A", b, " [2 3] <</K", b, " 5/L[", b, " ]>> 1 0 R 7]"),
		cat("<</A 1/B", b, "(x", b, ")/C[1 <</D ", b, ">>]/E<41", b, ">/F 1 0 R/G true>>"),
		cat("<</A<</B<</C ", b, ">>/D 1>>/E[[", b, "]]/A(", b, ")>>"),
	}[Choose(3)]
	checkObject(d[:1+Choose(len(d))], false, "cut off")
	Cover("read")
}

// C06_keys reads dictionaries with entries whose keys are no names and repeated keys.
func C06_keys() {
	n := Choose(Bound("C06.keys.entries", 4, 5) + 1)
	out := []byte("<<")
	want := pdf.Dictionary{}
	for i := 0; i < n; i++ {
		switch Choose(3) {
		case 0:
			k := Byte()
			Assume(isRegular(k) && k != '#')
			if v := Choose(5); v > 0 {
				words := []string{"", "null", "()", "[]", "<<>>"}
				out = append(out, cat("/", k, " ", words[v], " ")...)
				want[string(cat(k))] = []pdf.Object{nil, pdf.KEYWORD_NULL, pdf.String(""), pdf.Array{}, pdf.Dictionary{}}[v]
				continue
			}
			out = append(out, cat("/", k, " ", byte('0'+i), " ")...)
			want[string(cat(k))] = pdf.Number(i)
		case 1:
			out = append(out, []string{"(x)", "1 ", "[/A/B]", "true ", "<</A 1>>", "4 0 R"}[Choose(6)]...)
		case 2:
			out = append(out, cat("/", " (e)")...)
			want[""] = pdf.String("e")
		}
	}
	p := object(cat("[", out, ">>]"))
	a, ok := p.GetObject(1).Value.(pdf.Array)
	Assert(ok && len(a) == 1, "keys: not an array of one")
	if ok && len(a) == 1 {
		equal(a[0], want, "keys")
	}
	Cover("read")
}

// C06_many reads composites with many entries and deep nestings.
func C06_many() {
	n := lengths[Choose(Bound("C06.many.lengths", 27, len(lengths)))]
	b := Byte()
	Assume(isDigit(b))
	var out []byte
	switch Choose(3) {
	case 0:
		want := pdf.Array{}
		for i := 0; i < n; i++ {
			out = append(out, ' ', b)
			want = append(want, pdf.Number(float64(b-'0')))
		}
		p := object(cat("[", out, "]"))
		equal(p.GetObject(1).Value, want, "many elements")
	case 1:
		want := pdf.Dictionary{}
		for i := 0; i < n; i++ {
			k := cat("k", byte('a'+i/676), byte('a'+i/26%26), byte('a'+i%26))
			out = append(out, cat("/", k, " ", b)...)
			want[string(k)] = pdf.Number(float64(b - '0'))
		}
		p := object(cat("<<", out, ">>"))
		equal(p.GetObject(1).Value, want, "many entries")
	case 2:
		if n > 600 {
			n = 600
		}
		for i := 0; i < n; i++ {
			out = append(out, '[')
		}
		out = append(out, b)
		for i := 0; i < n; i++ {
			out = append(out, ']')
		}
		p := object(cat(out))
		o := p.GetObject(1).Value
		for i := 0; i < n; i++ {
			a, ok := o.(pdf.Array)
			Assert(ok && len(a) == 1, "deep: not an array of one")
			if !ok || len(a) != 1 {
				return
			}
			o = a[0]
		}
		equal(o, pdf.Number(float64(b-'0')), "deep")
	}
	Cover("read")
}
