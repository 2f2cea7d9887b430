package verifh

import (
	"os"

	"github.com/KarmaPenny/pdfparser/pdf"
	. "github.com/KarmaPenny/pdfparser/verifsym"
)

const zeroHash = "00000000000000000000000000000000"

// run extracts a document and returns the contents of the output directory.
func run(data []byte) map[string]string {
	os.WriteFile(Path("in.pdf"), data, 0644)
	if err := pdf.Parse(Path("in.pdf"), "", Path("out")); err != nil {
		Assert(false, "document is refused")
	}
	out := map[string]string{}
	entries, _ := os.ReadDir(Path("out"))
	for _, e := range entries {
		b, _ := os.ReadFile(Path("out/" + e.Name()))
		out[e.Name()] = string(b)
	}
	for _, name := range outputs {
		_, ok := out[name]
		Assert(ok, name+" is missing")
	}
	return out
}

// consists tells if text is made of the given lines, each once or more, in any order.
func consists(text string, lines ...string) bool {
	if len(lines) == 0 {
		return text == ""
	}
	for _, perm := range orders(len(lines)) {
		s := ""
		for _, i := range perm {
			s += lines[i] + "\n"
		}
		if len(s) == len(text) && s == text {
			return true
		}
	}
	return false
}

func orders(n int) [][]int {
	if n == 0 {
		return [][]int{nil}
	}
	var out [][]int
	for _, o := range orders(n - 1) {
		for at := 0; at <= len(o); at++ {
			p := append(append(append([]int{}, o[:at]...), n-1), o[at:]...)
			out = append(out, p)
		}
	}
	return out
}

// plainString is any string content that can stand in parentheses as it is.
func plainString(n int) []byte {
	b := Bytes(n)
	for _, c := range b {
		Assume(c != '(' && c != ')' && c != '\\' && c != '\r')
		Assume(!isDigit(c) && c < 0x80 && c != 'x' && c != 's')
	}
	return b
}

// document collects numbered objects.
type document struct{ bodies [][]byte }

func (d *document) add(body ...any) string {
	d.bodies = append(d.bodies, cat(body...))
	return string(decimal(len(d.bodies))) + " 0 R"
}

// value gives a value directly or by reference.
func (d *document) value(v []byte, how int) string {
	switch how {
	case 1:
		return d.add(v)
	case 2:
		return d.add(d.add(v))
	}
	return string(v)
}

// place puts a dictionary somewhere into the document.
func (d *document) place(kind int, dict string) {
	switch kind {
	case 0:
		d.add(dict)
	case 1:
		d.add("<</K ", dict, ">>")
	case 2:
		d.add("<</K[0 ", dict, " /Q]>>")
	case 3:
		d.add("[", dict, "]")
	case 4:
		d.add("<</K<</L[[", dict, "]]>>>>")
	case 5:
		d.add(dict, "stream\n0 0\nendstream")
	}
}

const places = 6

func (d *document) bytes() []byte { return file(nil, d.bodies...) }
