// Package verifh holds the harnesses: each exported CNN_name function states a property over
// symbolic inputs.
package verifh

import (
	"bytes"
	"io"
	"os"

	"github.com/KarmaPenny/pdfparser/pdf"
	. "github.com/KarmaPenny/pdfparser/verifsym"
)

func init() {
	// the command line sets this flag; the library must also do without it, see C26
	v := false
	pdf.Verbose = &v
}

var none = &pdf.DecryptorNone{}

func same(a, b []byte) bool { return string(a) == string(b) }

func cat(parts ...any) []byte {
	var out []byte
	for _, p := range parts {
		switch x := p.(type) {
		case string:
			out = append(out, x...)
		case []byte:
			out = append(out, x...)
		case byte:
			out = append(out, x)
		default:
			panic("cat of something else")
		}
	}
	return out
}

// open makes a parser over data that logs nothing.
func open(data []byte) *pdf.Parser { return pdf.NewParser(bytes.NewReader(data), nil) }

// rest is what the parser would read next.
func rest(p *pdf.Parser) []byte {
	b, _ := io.ReadAll(p)
	return b
}

// openLog makes a parser over data that logs into a file; the function returned reads the log.
func openLog(data []byte) (*pdf.Parser, func() string) {
	f, err := os.Create(Path("errors.txt"))
	if err != nil {
		panic(err)
	}
	p := pdf.NewParser(bytes.NewReader(data), &pdf.Output{Errors: f})
	return p, func() string {
		f.Close()
		b, _ := os.ReadFile(Path("errors.txt"))
		return string(b)
	}
}

// object makes a parser that knows object 1, whose body starts with the given bytes.
func object(body []byte) *pdf.Parser {
	p := open(cat("1 0 obj ", body))
	p.Xref[1] = pdf.NewXrefEntry(0, 0, pdf.XrefTypeIndirectObject)
	return p
}

func isWS(b byte) bool {
	return b == 0 || b == '\t' || b == '\n' || b == '\f' || b == '\r' || b == ' '
}
func isDelim(b byte) bool {
	return b == '(' || b == ')' || b == '<' || b == '>' || b == '[' || b == ']' || b == '/' || b == '%'
}
func isRegular(b byte) bool { return !isWS(b) && !isDelim(b) }
func isDigit(b byte) bool   { return b >= '0' && b <= '9' }
func isHexDigit(b byte) bool {
	return isDigit(b) || b >= 'a' && b <= 'f' || b >= 'A' && b <= 'F'
}
func isOctal(b byte) bool { return b >= '0' && b <= '7' }
func hexVal(b byte) byte {
	switch {
	case b >= 'a':
		return b - 'a' + 10
	case b >= 'A':
		return b - 'A' + 10
	}
	return b - '0'
}

// equal asserts that two objects are the same.
func equal(got, want pdf.Object, msg string) {
	switch w := want.(type) {
	case nil:
		Assert(got == nil, msg+": expected nothing")
	case pdf.String:
		g, ok := got.(pdf.String)
		Assert(ok, msg+": not a string")
		if ok {
			Assert(string(g) == string(w), msg+": string differs")
		}
	case pdf.Name:
		g, ok := got.(pdf.Name)
		Assert(ok, msg+": not a name")
		if ok {
			Assert(string(g) == string(w), msg+": name differs")
		}
	case pdf.Keyword:
		g, ok := got.(pdf.Keyword)
		Assert(ok, msg+": not a keyword")
		if ok {
			Assert(string(g) == string(w), msg+": keyword differs")
		}
	case pdf.Number:
		g, ok := got.(pdf.Number)
		Assert(ok, msg+": not a number")
		if ok {
			Assert(g == w || near(float64(g), float64(w)), msg+": number differs")
		}
	case *pdf.Reference:
		g, ok := got.(*pdf.Reference)
		Assert(ok && g != nil, msg+": not a reference")
		if ok && g != nil {
			Assert(g.Number == w.Number && g.Generation == w.Generation, msg+": reference differs")
		}
	case pdf.Array:
		g, ok := got.(pdf.Array)
		Assert(ok, msg+": not an array")
		if ok {
			Assert(len(g) == len(w), msg+": array length differs")
			for i := range w {
				if i < len(g) {
					equal(g[i], w[i], msg+": element")
				}
			}
		}
	case pdf.Dictionary:
		g, ok := got.(pdf.Dictionary)
		Assert(ok, msg+": not a dictionary")
		if ok {
			Assert(len(g) == len(w), msg+": dictionary size differs")
			for k, v := range w {
				x, ok := g[k]
				Assert(ok, msg+": dictionary key missing")
				if ok {
					equal(x, v, msg+": value")
				}
			}
		}
	}
}

// lengths are sizes around the powers of two where buffers end.
var lengths = []int{0, 1, 2, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4083, 4084, 4085, 4086, 4087, 4088, 4095, 4096, 4097}

const (
	hexDigits = "0123456789abcdef"
	hexUpper  = "0123456789ABCDEF"
)

func hexDigit(v byte) byte { return hexDigits[v&15] }
func upper(v byte) byte    { return hexUpper[v&15] }

func digits(n int) []byte {
	d := Bytes(n)
	for i := range d {
		Assume(isDigit(d[i]))
	}
	return d
}

// near compares two values of moderate size up to rounding.
func near(a, b float64) bool {
	const eps = 1e-7
	return a-b < eps && b-a < eps
}

// objects makes a parser that knows objects 1, 2, ... with the given bodies.
func objects(bodies ...[]byte) *pdf.Parser {
	var data []byte
	var offs []int
	for i, b := range bodies {
		offs = append(offs, len(data))
		data = append(data, cat(decimal(i+1), " 0 obj\n", b, "\nendobj\n")...)
	}
	p := open(data)
	for i, o := range offs {
		p.Xref[i+1] = pdf.NewXrefEntry(int64(o), 0, pdf.XrefTypeIndirectObject)
	}
	return p
}

func decimal(n int) []byte {
	if n < 0 {
		return append([]byte{'-'}, decimal(-n)...)
	}
	if n < 10 {
		return []byte{byte('0' + n)}
	}
	return append(decimal(n/10), byte('0'+n%10))
}

var outputs = []string{"commands.txt", "contents.txt", "errors.txt", "files.txt", "javascript.js", "raw.pdf", "urls.txt"}

// file writes a document with a cross-reference table for objects 1, 2, ...
func file(trailer []byte, bodies ...[]byte) []byte {
	data := []byte("%PDF-1.4\n")
	table := cat("xref\n0 ", decimal(len(bodies)+1), "\n0000000000 65535 f \n")
	for i, b := range bodies {
		table = append(table, cat(pad10(len(data)), " 00000 n \n")...)
		data = append(data, cat(decimal(i+1), " 0 obj\n", b, "\nendobj\n")...)
	}
	at := len(data)
	return cat(data, table, "trailer\n<</Size ", decimal(len(bodies)+1), trailer, ">>\nstartxref\n", decimal(at), "\n%%EOF\n")
}

func pad10(n int) []byte {
	d := decimal(n)
	return append([]byte("0000000000")[:10-len(d)], d...)
}

func encHex(d []byte) []byte {
	var out []byte
	for _, b := range d {
		out = append(out, hexDigit(b>>4), upper(b&15))
	}
	return append(out, '>')
}

func plainStream(data []byte) []byte { return cat("<<>>stream\r\n", data, "\r\nendstream") }

// letters is any text that nothing in a document starts with.
func letters(n int) []byte {
	b := Bytes(n)
	for _, c := range b {
		Assume(c >= 'A' && c <= 'Z' || c == '_' || c == '!')
	}
	return b
}
