package verifh

import (
	"strings"

	"github.com/KarmaPenny/pdfparser/pdf"
	. "github.com/KarmaPenny/pdfparser/verifsym"
)

// lex is a second, independent reader of PDF objects over a byte slice: the oracle for what
// the parser reads. It records the abnormalities the README lists.
type lex struct {
	d    []byte
	i    int
	errs []string
	// stray closing brackets have no defined meaning: what follows one is not compared
	stray bool
}

func (l *lex) log(s string) { l.errs = append(l.errs, s) }
func (l *lex) eof() bool    { return l.i >= len(l.d) }
func (l *lex) report() string {
	s := ""
	for _, e := range l.errs {
		s += e + "\n"
	}
	return s
}

func (l *lex) space() {
	for l.i < len(l.d) {
		b := l.d[l.i]
		if isWS(b) {
			l.i++
			continue
		}
		if b != '%' {
			return
		}
		for l.i < len(l.d) && l.d[l.i] != '\n' && l.d[l.i] != '\r' {
			l.i++
		}
	}
}

// str reads a literal string; l.i is behind the opening parenthesis.
func (l *lex) str() pdf.String {
	var out []byte
	depth := 0
	for {
		if l.eof() {
			l.log("unclosed string")
			return pdf.String(out)
		}
		b := l.d[l.i]
		l.i++
		if b == ')' {
			if depth == 0 {
				return pdf.String(out)
			}
			depth--
			out = append(out, b)
			continue
		}
		if b == '(' {
			depth++
			out = append(out, b)
			continue
		}
		if b != '\\' {
			out = append(out, b)
			continue
		}
		if l.eof() {
			l.log("unclosed escape in string")
			return pdf.String(append(out, '\\'))
		}
		e := l.d[l.i]
		l.i++
		switch {
		case e == '\n':
		case e == '\r':
			if l.eof() {
				l.log("unclosed escape in string")
				return pdf.String(out)
			}
			if l.d[l.i] == '\n' {
				l.i++
			}
		case e == 'n':
			out = append(out, 10)
		case e == 'r':
			out = append(out, 13)
		case e == 't':
			out = append(out, 9)
		case e == 'b':
			out = append(out, 8)
		case e == 'f':
			out = append(out, 12)
		case isOctal(e):
			v := int(e - '0')
			n := 1
			for n < 3 && !l.eof() && isOctal(l.d[l.i]) {
				if n == 2 && e > '3' {
					// the third digit would exceed \377: two digits count
					l.log("invalid octal in string")
					break
				}
				v = v*8 + int(l.d[l.i]-'0')
				l.i++
				n++
			}
			if n < 3 && l.eof() {
				l.log("unclosed octal in string")
			}
			c := byte(v)
			if c > ' ' && c < 127 && c != '\\' && c != '(' && c != ')' {
				l.log("unnecessary espace sequence in string")
			}
			out = append(out, c)
		default:
			out = append(out, e)
		}
	}
}

// hex reads a hexadecimal string; l.i is behind the '<'.
func (l *lex) hex() pdf.String {
	var out []byte
	half := -1
	for {
		l.space()
		if l.eof() {
			l.log("unclosed hex string")
			break
		}
		b := l.d[l.i]
		l.i++
		if b == '>' {
			break
		}
		if !isHexDigit(b) {
			l.log("invalid hex string character")
			continue
		}
		if half < 0 {
			half = int(hexVal(b))
		} else {
			out = append(out, byte(half)<<4|hexVal(b))
			half = -1
		}
	}
	if half >= 0 {
		out = append(out, byte(half)<<4)
	}
	return pdf.String(out)
}

// name reads a name; l.i is behind the '/'.
func (l *lex) name() pdf.Name {
	var out []byte
	for !l.eof() && isRegular(l.d[l.i]) {
		b := l.d[l.i]
		l.i++
		if b != '#' {
			out = append(out, b)
			continue
		}
		v := byte(0)
		if !l.eof() && isHexDigit(l.d[l.i]) {
			v = hexVal(l.d[l.i]) << 4
			l.i++
			if !l.eof() && isHexDigit(l.d[l.i]) {
				v |= hexVal(l.d[l.i])
				l.i++
			} else if !l.eof() {
				l.log("invalid name escape character")
			}
		} else if !l.eof() {
			l.log("invalid name escape character")
		}
		if v > ' ' && v < 127 && v != '#' && !isDelim(v) {
			l.log("unnecessary espace sequence in name")
		}
		out = append(out, v)
	}
	return pdf.Name(out)
}

func (l *lex) word() string {
	s := l.i
	for !l.eof() && isRegular(l.d[l.i]) {
		l.i++
	}
	return string(l.d[s:l.i])
}

// digits reads an unsigned integer after white space.
func (l *lex) digits() (int, bool) {
	l.space()
	if l.eof() || !isDigit(l.d[l.i]) {
		return 0, false
	}
	v := 0
	for !l.eof() && isDigit(l.d[l.i]) {
		v = v*10 + int(l.d[l.i]-'0')
		l.i++
	}
	return v, true
}

// number reads a number and the reference it may start. Fractions are not for symbolic digits.
func (l *lex) number() pdf.Object {
	neg := false
	if l.d[l.i] == '-' || l.d[l.i] == '+' {
		neg = l.d[l.i] == '-'
		l.i++
	}
	v := 0
	scale := 1
	plain := !neg
	for !l.eof() && isDigit(l.d[l.i]) {
		v = v*10 + int(l.d[l.i]-'0')
		l.i++
	}
	if !l.eof() && l.d[l.i] == '.' {
		plain = false
		l.i++
		for !l.eof() && isDigit(l.d[l.i]) {
			v = v*10 + int(l.d[l.i]-'0')
			scale *= 10
			l.i++
		}
	}
	save := l.i
	if g, ok := l.digits(); ok {
		l.space()
		if l.word() == "R" {
			if !plain {
				l.stray = true // a negative or fractional object number means nothing
			}
			return &pdf.Reference{Number: v, Generation: g}
		}
	}
	l.i = save
	f := float64(v)
	if scale > 1 {
		f = f / float64(scale)
	}
	if neg {
		f = -f
	}
	return pdf.Number(f)
}

// object reads one object. ok is false at the end of the input.
func (l *lex) object() (o pdf.Object, ok bool) {
	l.space()
	if l.eof() {
		return pdf.Keyword("null"), false
	}
	b := l.d[l.i]
	switch {
	case b == '/':
		l.i++
		return l.name(), true
	case b == '(':
		l.i++
		return l.str(), true
	case b == '[':
		l.i++
		return l.array(), true
	case b == '<':
		l.i++
		if !l.eof() && l.d[l.i] == '<' {
			l.i++
			return l.dict(), true
		}
		return l.hex(), true
	case b == ')' || b == ']' || b == '>':
		l.stray = true
		l.i = len(l.d)
		return pdf.Keyword("null"), false
	case isDigit(b) || b == '+' || b == '-' || b == '.':
		return l.number(), true
	}
	return pdf.Keyword(l.word()), true
}

func (l *lex) array() pdf.Array {
	a := pdf.Array{}
	for {
		l.space()
		if !l.eof() && l.d[l.i] == ']' {
			l.i++
			return a
		}
		o, ok := l.object()
		if l.stray {
			return a
		}
		if !ok {
			l.log("unclosed array")
			return a
		}
		a = append(a, o)
	}
}

func (l *lex) end() bool {
	l.space()
	if l.i+1 < len(l.d) && l.d[l.i] == '>' && l.d[l.i+1] == '>' {
		l.i += 2
		return true
	}
	return false
}

func (l *lex) dict() pdf.Dictionary {
	d := pdf.Dictionary{}
	for {
		if l.end() {
			return d
		}
		k, ok := l.object()
		if l.stray {
			return d
		}
		if !ok {
			l.log("unclosed dictionary")
			return d
		}
		n, ok := k.(pdf.Name)
		if !ok {
			l.log("invalid dictionary key type")
			continue
		}
		if l.end() {
			l.log("missing dictionary value")
			return d
		}
		v, ok := l.object()
		if l.stray {
			return d
		}
		if !ok {
			l.log("missing dictionary value")
			return d
		}
		d[string(n)] = v
	}
}

// within assumes that every byte of d is one of the given characters.
func within(d []byte, chars string) {
	for i := range d {
		Assume(strings.IndexByte(chars, d[i]) >= 0)
	}
}

// check reads one object with the parser and with the oracle and compares value, position and
// log.
func checkObject(data []byte, log bool, msg string) {
	l := &lex{d: data}
	want, ok := l.object()
	Assume(!l.stray)
	var p *pdf.Parser
	var logged func() string
	if log {
		p, logged = openLog(data)
	} else {
		p = open(data)
	}
	got, err := p.ReadObject(none)
	Assert((err == nil) == ok, msg+": end of input reported wrongly")
	if ok {
		equal(got, want, msg)
	}
	Assert(same(rest(p), data[l.i:]), msg+": reading stopped at the wrong place")
	if log {
		g := logged()
		Assert(g == l.report(), msg+": log differs")
		Observe("log", g)
	}
	if s, ok := got.(pdf.String); ok {
		Observe("string", string(s))
	}
	if s, ok := got.(pdf.Name); ok {
		Observe("name", string(s))
	}
}
