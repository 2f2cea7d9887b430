package verifh

import (
	"github.com/KarmaPenny/pdfparser/pdf"
	. "github.com/KarmaPenny/pdfparser/verifsym"
)

// C07_string checks what reading a literal string logs.
func C07_string() {
	n := Choose(Bound("C07.string.len", 4, 5) + 1)
	start := []string{"(", "(\\", "(\\1"}[Choose(3)]
	checkObject(cat(start, Bytes(n)), true, "literal string")
	Cover("read")
}

// C07_hex checks what reading a hex string logs.
func C07_hex() {
	n := Choose(Bound("C07.hex.len", 4, 5) + 1)
	d := Bytes(n)
	if n > 0 {
		Assume(d[0] != '<')
	}
	checkObject(cat("<", d), true, "hex string")
	Cover("read")
}

// C07_name checks what reading a name logs.
func C07_name() {
	n := Choose(Bound("C07.name.len", 4, 5) + 1)
	start := []string{"/", "/#"}[Choose(2)]
	checkObject(cat(start, Bytes(n)), true, "name")
	Cover("read")
}

// C07_composite checks what reading arrays and dictionaries logs.
func C07_composite() {
	n := Choose(Bound("C07.composite.len", 3, 4) + 1)
	start := []string{"[", "<<", "<</A ", "<</A 1 ", "[<</A", "[(", "<<[", "<</A#"}[Choose(8)]
	checkObject(cat(start, Bytes(n)), true, "composite")
	Cover("read")
}

// C07_brackets checks what reading nestings of brackets logs.
func C07_brackets() {
	n := Choose(Bound("C07.brackets.len", 6, 8) + 1)
	d := Bytes(n)
	within(d, "[]<>/ 1")
	start := []string{"[", "<<"}[Choose(2)]
	checkObject(cat(start, d), true, "brackets")
	Cover("read")
}

// C07_cut checks what reading structures cut off anywhere logs.
func C07_cut() {
	b := Byte()
	Assume(b >= 'a' && b <= 'z')
	d := [][]byte{
		cat("[1 (\\", b, ") /A#", b, "1 [2 3] <</K", b, " 5/L[", b, " ]>> 1 0 R 7]"),
		cat("<</A 1/B", b, "(x\\061\\", b, ")/C[1 <</D ", b, ">>]/E<4", b, "1>/F 1 0 R/G true 5 /H>>"),
		cat("<</A<</B<</C ", b, ">>/D 1>>/E[[", b, "]]/A(", b, "\\7)/#4", b, "#21 <4x>>>"),
		cat("<<", b, " (", b, ")/A (", b, "\\400)[] <<>> 1 0 R /B>>"),
	}[Choose(4)]
	checkObject(d[:1+Choose(len(d))], true, "cut off")
	Cover("read")
}

// C07_repeat checks that abnormalities are logged once each however many there are.
func C07_repeat() {
	n := 1 + Choose(Bound("C07.repeat", 20, 200))
	b := Byte()
	Assume(isRegular(b) && !isHexDigit(b))
	unit := [][]byte{cat("<4", b, "1>"), cat("/A#41#", b, " "), cat("(\\101\\77", byte('7'), ")"), cat("<<1 /A>>"), cat("<<(", b, ") /A 1 2>>")}[Choose(5)]
	var d []byte
	for i := 0; i < n; i++ {
		d = append(d, unit...)
	}
	checkObject(cat("[", d, "]"), true, "repeated")
	Cover("read")
}

// C07_clean checks that proper objects log nothing; every byte that must be escaped is.
func C07_clean() {
	b := Byte()
	var esc []byte
	if b == '(' || b == ')' || b == '\\' {
		esc = cat("\\", b)
	} else if b == '\r' {
		esc = []byte("\\r")
	} else if b > ' ' && b < 127 {
		esc = cat(b)
	} else {
		esc = cat("\\", '0'+b>>6, '0'+b>>3&7, '0'+b&7)
	}
	var nm []byte
	if isRegular(b) && b != '#' && b > ' ' && b < 127 {
		nm = cat(b)
	} else {
		nm = cat("#", hexDigit(b>>4), hexDigit(b&15))
	}
	p, logged := openLog(cat("<</", nm, "(", esc, ")/x", nm, "<", hexDigit(b>>4), hexDigit(b&15), ">/A[1 -2.5 true null/N<</B 3 0 R>>]>>"))
	o, err := p.ReadObject(none)
	Assert(err == nil, "clean: error")
	want := pdf.Dictionary{string(cat("x", b)): pdf.String(cat(b)), "A": pdf.Array{pdf.Number(1), pdf.Number(-2.5), pdf.Keyword("true"), pdf.Keyword("null"), pdf.Name("N"), pdf.Dictionary{"B": &pdf.Reference{Number: 3}}}}
	want[string(cat(b))] = pdf.String(cat(b))
	if b != 'A' {
		equal(o, want, "clean")
	}
	Assert(logged() == "", "clean: something was logged")
	Cover("read")
}

// C07_stream checks what reading streams logs.
func C07_stream() {
	n := Choose(Bound("C07.stream.len", 4, 6) + 1)
	d := Bytes(n)
	for i := range d {
		Assume(d[i] != 'e')
	}
	start := []string{"stream", "stream\n", "stream\r", "stream\r\n"}[Choose(4)]
	end := []string{"", "e", "endstrea", "endstream", "endstream endobj", "\nendstream\nendobj"}[Choose(6)]
	if start == "stream" {
		if n > 0 {
			Assume(isWS(d[0]))
		} else {
			Assume(end == "" || end[0] == '\n')
		}
	}
	p, logged := openLog(cat("1 0 obj <</A 1>>", start, d, end))
	p.Xref[1] = pdf.NewXrefEntry(0, 0, pdf.XrefTypeIndirectObject)
	p.GetObject(1)
	// a line end must follow the keyword; without one, data never starts
	line := start != "stream"
	for i := range d {
		if d[i] == '\n' || d[i] == '\r' {
			line = true
		}
	}
	want := ""
	switch {
	case len(end) < 9:
		want = "unclosed stream\n"
	case !line && end[0] != '\n':
		want = "unclosed stream\n"
	case !line:
		// the line end before endstream is the one that starts the data
	}
	got := logged()
	Assert(got == want, "stream: log differs")
	Observe("log", got)
	Cover("read")
}
