package verifh

import (
	"bytes"
	"compress/zlib"
	"os"

	"github.com/KarmaPenny/pdfparser/pdf"
	. "github.com/KarmaPenny/pdfparser/verifsym"
)

// Every harness here only extracts: the engine reports panics, exhausted stacks, allocations
// beyond 16 MB and runs without an end on its own.

// survive extracts a document, whatever the result.
func survive(data []byte, password string) {
	os.WriteFile(Path("in.pdf"), data, 0644)
	pdf.Parse(Path("in.pdf"), password, Path("out"))
	for _, name := range outputs {
		_, err := os.Stat(Path("out/" + name))
		Assert(err == nil, name+" is missing")
	}
	Cover("survived")
}

// wild lists values of every kind; self refers to the object that holds the value.
func wild(self string) []string {
	return []string{
		"null", "true", "0", "1", "-1", "2", "17", ".5", "65537", "50000000", "2147483648", "4294967297", "-9223372036854775809", "99999999999999999999999999",
		"/N", "/", "()", "(x)", "(a longer string than any of the others is)", "[]", "[()]", "[0]", "[1 1 1]", "[0 0 0]", "[-1 1 1]", "[1 0 50000000]", "[0 50000000]", "[null -1 (x) /N [] <<>>]", "[0 9999999999]", "[99999999999 1 99999999999]", "[[[[]]]]",
		"<<>>", "<</N 1/A<<>>>>", "<</N<</CFM/AESV2>>>>", self, "99 0 R", "97 0 R", "98 0 R", "[" + self + " " + self + "]", "<</A " + self + "/Kids[" + self + "]>>", "[98 0 R 97 0 R 99 0 R]",
		"0 0 R", "4294967297 0 R", "-1 0 R", "[0 1 0 1 0 1 0 1]", "\"", "1 0", "1 0 0", "(", "[", "<<", "<", ")", "]", ">>", ">", "%", "",
	}
}

func pickWild(self string) string {
	w := wild(self)
	return w[Choose(len(w))]
}

// around completes a document of objects with a loop of references and a stream.
func around(trailer []byte, bodies ...[]byte) []byte {
	data := []byte("%PDF-1.4\n")
	table := cat("xref\n0 1\n0000000000 65535 f \n")
	put := func(n int, body []byte) {
		table = cat(table, decimal(n), " 1\n", pad10(len(data)), " 00000 n \n")
		data = cat(data, decimal(n), " 0 obj\n", body, "\nendobj\n")
	}
	for i, b := range bodies {
		put(i+1, b)
	}
	put(97, []byte("97 0 R"))
	put(98, []byte("<</Filter 98 0 R/DecodeParms[98 0 R]>>stream\nstream\nendstream"))
	at := len(data)
	return cat(data, table, "trailer\n<</Size 99", trailer, ">>\nstartxref\n", decimal(at), "\n%%EOF\n")
}

// entries writes a dictionary in which some of the keys have wild values.
func entries(self string, n int, pairs ...string) string {
	keys := len(pairs) / 2
	at := map[int]string{}
	for i := 0; i < n; i++ {
		at[Choose(keys)] = pickWild(self)
	}
	out := "<<"
	for i := 0; i < keys; i++ {
		v, ok := at[i]
		if !ok {
			v = pairs[2*i+1]
		}
		out += pairs[2*i] + " " + v
	}
	return out + ">>"
}

// C26_stream has wild values in the dictionary of a stream.
func C26_stream() {
	x := Bytes(2)
	for _, b := range x {
		Assume(b != 'e' && b != 'x' && b != 's' && !isDigit(b) && b != '.' && b < 0x80)
	}
	filter := []string{"/ASCIIHexDecode", "[/Crypt/ASCII85Decode]", "[/RunLengthDecode 7/LZWDecode]", "/None"}[Choose(4)]
	n := 1
	survive(around(nil, cat(entries("1 0 R", n, "/Filter", filter, "/DecodeParms", "[null]", "/Length", "5", "/Type", "/EmbeddedFile", "/F", "(f)"), "stream\n", x, "z~>\nendstream")), "")
}

// C26_predictor has wild parameters of a predictor over any data.
func C26_predictor() {
	data := Bytes(Bound("bytes", 3, 5))
	n := Bound("wild", 1, 1)
	parms := entries("1 0 R", n, "/Predictor", []string{"2", "10", "12", "15"}[Choose(4)], "/Columns", "2", "/Colors", "1", "/BitsPerComponent", []string{"1", "8", "16"}[Choose(3)], "/EarlyChange", "1")
	p := open([]byte(parms + " "))
	d := p.ReadDictionary(none)
	pdf.ReversePredictor(append([]byte{}, data...), d)
	Cover("survived")
}

// C26_geometry has any small parameters of a predictor.
func C26_geometry() {
	data := Bytes(Bound("bytes", 4, 6))
	d := pdf.Dictionary{"Predictor": pdf.Number([]int{2, 10}[Choose(2)])}
	for _, k := range []string{"Columns", "Colors", "BitsPerComponent"} {
		d[k] = pdf.Number(Choose(18) - 1)
	}
	pdf.ReversePredictor(data, d)
	Cover("survived")
}

// C26_filters decodes any few bytes by every filter.
func C26_filters() {
	filters := []string{"ASCIIHexDecode", "ASCII85Decode", "RunLengthDecode", "FlateDecode", "LZWDecode", "LZWDecode0", ""}
	f := filters[Choose(len(filters))]
	n := Bound("bytes", 3, 4)
	if f[:min(4, len(f))] == "ASCI" {
		n++
	}
	if f == "FlateDecode" || f == "LZWDecode0" || f == "LZWDecode" {
		n = Bound("coded", 2, 2)
	}
	data := Bytes(n - Choose(2))
	d := pdf.Dictionary{}
	if f == "LZWDecode0" {
		f, d["EarlyChange"] = "LZWDecode", pdf.Number(0)
	}
	pdf.DecodeStream(f, data, d)
	Cover("survived")
}

func deflated(b []byte) []byte {
	var z bytes.Buffer
	w, _ := zlib.NewWriterLevel(&z, 0)
	w.Write(b)
	w.Close()
	return z.Bytes()
}

// C26_xrefstream has wild values in the dictionary of a cross-reference stream.
func C26_xrefstream() {
	data := cat("%PDF-1.5\n1 0 obj(x)endobj ")
	at := len(data)
	x := Bytes(8)
	for _, b := range x {
		Assume(b < 4)
	}
	n := 1
	dict := entries("2 0 R", n, "/Type", "/XRef", "/Size", "3", "/W", "[1 2 1]", "/Index", "[0 2]", "/Prev", decimalString(at), "/Filter", "null", "/Length", "8", "/Encrypt", "null", "/DecodeParms", "null")
	data = cat(data, "2 0 obj", dict, "stream\n", x, "\nendstream endobj\nstartxref ", decimal(at), " %%EOF")
	survive(data, "")
}

func decimalString(n int) string { return string(decimal(n)) }

// C26_table has wild values in a cross-reference table and trailer.
func C26_table() {
	first := cat("%PDF-1.4\n1 0 obj(x)endobj\n")
	at := len(first)
	w := func(s string, here int) string {
		if here == 0 {
			return pickWild("1 0 R")
		}
		return s
	}
	c := Choose(12)
	data := cat(first, "xref\n", w("0", c), " ", w("2", c-1), "\n", w("0000000000", c-2), " ", w("65535", c-3), " ", w("f", c-4), " \n", w("0000000009 00000 n \n", c-5))
	data = cat(data, "trailer", w("<<", c-6), "/Size ", w("2", c-7), "/Prev ", w(decimalString(at), c-8), "/Encrypt ", w("null", c-9), "/ID ", w("[(a)(b)]", c-10), ">>\nstartxref\n", w(decimalString(at), c-11), "\n%%EOF\n")
	survive(data, "")
}

// C26_encryption has wild values in the encryption dictionary.
func C26_encryption() {
	s := newSealed(handler{v: 4, r: 4, bytes: 16}, "")
	u := s.user(s.fkey)
	for len(u) < 32 {
		u = append(u, 0)
	}
	n := Choose(2)
	v := Choose(3)
	dict := entries("1 0 R", n,
		"/Filter", "/Standard", "/V", []string{"1", "2", "4"}[v], "/R", []string{"2", "3", "4"}[v], "/O", string(cat("<", encHex(s.o))), "/U", string(cat("<", encHex(u))),
		"/P", "-44", "/Length", []string{"40", "128"}[min(v, 1)], "/CF", "<</N<</CFM/AESV2/Length 16>>/M<</CFM/V2>>>>", "/StmF", "/N", "/StrF", "/M", "/EFF", "/N", "/EncryptMetadata", "false")
	id := string(cat("[<", encHex(s.id), "<>]"))
	if n == 0 {
		id = pickWild("1 0 R")
	}
	trailer := cat("/Encrypt ", dict, "/ID ", id)
	if Choose(2) == 0 {
		trailer = cat("/ID ", id, "/Encrypt 2 0 R")
	}
	body := cat("<</Filter[/Crypt]/DecodeParms[<</Name/N>>]/S(string)>>stream\nsixteen bytes ofsixteen bytes of\nendstream")
	survive(around(trailer, body, []byte(dict), []byte("<</S<00>>>stream\nshort\nendstream")), "pw")
}

// C26_cryptfilter has wild values in a crypt filter and its use.
func C26_cryptfilter() {
	s := newSealed(handler{v: 4, r: 4, bytes: 16}, "")
	n := Choose(2)
	s.extra = "/CF<</N " + entries("1 0 R", n, "/CFM", []string{"/V2", "/AESV2"}[Choose(2)], "/Length", "16", "/Type", "/CryptFilter", "/AuthEvent", "/DocOpen") + ">>/StmF/N/StrF/N"
	body := cat(entries("1 0 R", 1-n, "/Filter", "[/Crypt/ASCIIHexDecode]", "/DecodeParms", "[<</Name/N>>]", "/S", "<0011>", "/Type", "/X"), "stream\n", bytes.Repeat([]byte{'7'}, []int{0, 1, 15, 16, 17, 32}[Choose(6)]), "\nendstream")
	survive(around(s.trailer(), body), "pw")
}

// C26_extraction has wild values wherever extraction looks.
func C26_extraction() {
	keys := []string{"A", "AA", "OpenAction", "Next", "URI", "JS", "XFA", "EmbeddedFiles", "URLS", "Pages", "Names", "Kids", "S", "F", "Win", "EF", "FS", "P", "Base", "Contents", "Resources", "Font", "F1", "ToUnicode"}
	k := keys[Choose(len(keys))]
	v := pickWild("1 0 R")
	outer := []string{"", "/A<<", "/AA<</O<<", "/Pages<<", "/EmbeddedFiles<<", "/Pages<</Resources<<", "/A<</S/Launch/F<<", "/Pages<</Resources<</Font<<", "/Pages<</Resources<</Font<</F1<<", "/EmbeddedFiles<</Names[(a)<<"}[Choose(10)]
	closing := ""
	for i := len(outer) - 1; i > 0; i-- {
		if outer[i] == '<' && outer[i-1] == '<' {
			closing += ">>"
			i--
		}
		if outer[i] == '[' {
			closing += "]"
		}
	}
	survive(around(nil, cat("<<", outer, "/", k, " ", v, closing, ">>")), "")
}

// C26_content shows text with wild operands.
func C26_content() {
	op := []string{"Tf", "Tj", "TJ", "'", "\"", "BT", "ET", "Td", ""}[Choose(9)]
	operands := ""
	for i := Choose(1 + Bound("operands", 0, 0)); i >= 0; i-- {
		operands += pickWild("1 0 R") + " "
	}
	font := []string{"", "/F1 1 Tf "}[Choose(2)]
	fonts := "/Resources<</Font<</F1<</ToUnicode 3 0 R>>>>>>"
	survive(around(nil, cat("<</Pages<</Contents 2 0 R", fonts, ">>>>"), plainStream(cat("BT ", font, operands, op, " (t)Tj ET")), plainStream([]byte("1 beginbfrange<0000><ffff><0041>endbfrange"))), "")
}

// C26_cmap maps characters by wild values.
func C26_cmap() {
	w := func(s string, here int) string {
		if here == 0 {
			return pickWild("1 0 R")
		}
		return s
	}
	c := Choose(7)
	var cmap []byte
	if Choose(2) == 0 {
		cmap = cat(w("1", c), w(" beginbfrange", c-1), w("<0000>", c-2), w("<ffff>", c-3), w("<0041>", c-4), w(" endbfrange", c-5), w(" ", c-6))
	} else {
		cmap = cat(w("2", c), w(" beginbfchar", c-1), w("<41>", c-2), w("<0041>", c-3), w("<42>", c-4), w("<42>", c-5), w(" endbfchar", c-6))
	}
	survive(around(nil, cat("<</Pages<</Contents 2 0 R/Resources<</Font<</F1<</ToUnicode 3 0 R>>>>>>>>>>"), plainStream([]byte("BT/F1 1 Tf(ABC)Tj[(A)1(B)]TJ ET")), plainStream(cmap)), "")
}

// C26_codes decodes text by codes of any width and extent.
func C26_codes() {
	wide := Choose(Bound("width", 10, 18))
	start, end := Bytes(wide), Bytes(Choose(3)*4)
	cmap := cat("9999999999 beginbfrange<", encHex(start), "<", encHex(end), "<", encHex(Bytes(2)), " endbfrange")
	p := objects(cat("<</ToUnicode 2 0 R>>"), plainStream(cmap))
	d, _ := p.GetObject(1).Value.(pdf.Dictionary)
	f := pdf.NewFont(d)
	f.Decode(Bytes(Bound("text", 3, 4)))
	Cover("survived")
}

var seed = file([]byte("/ID[(a)(b)]"),
	[]byte("<</Pages 2 0 R/URI(u)>>"),
	[]byte("<</Kids[2 0 R]/Contents 3 0 R>>"),
	[]byte("<</Filter/AHx>>stream\nBT[(a)-1(\\142)]TJ ET\nendstream"),
	[]byte("[<41>true#]%c"))

// C26_corrupt changes one byte anywhere in a document.
func C26_corrupt() {
	data := append([]byte{}, seed...)
	at := Choose(len(data))
	b := Byte()
	Assume(b < 0x80)
	data[at] = b
	survive(data, "")
}

// C26_truncated ends a document early, maybe with other bytes.
func C26_truncated() {
	data := append([]byte{}, seed[:Choose(len(seed)+1)]...)
	b := Bytes(Bound("tail", 1, 2))
	for _, c := range b {
		Assume(c < 0x80)
	}
	survive(append(data, b...), "")
}

// C26_removed lacks some bytes of a document.
func C26_removed() {
	at := Choose(len(seed))
	n := 1 + Choose(Bound("removed", 8, 40))
	Assume(at+n <= len(seed))
	survive(cat(seed[:at], seed[at+n:]), "")
}

// C26_bytes is any few bytes.
func C26_bytes() {
	b := Bytes(Bound("bytes", 4, 5))
	for _, c := range b {
		Assume(c < 0x80)
	}
	survive(b, "")
}

// C26_value reads any few bytes after a beginning of some value.
func C26_value() {
	begin := []string{"", "[", "<<", "<</A ", "(", "<", "/", "[<", "(\\", "/#", "%", "-", "1 0 ", "stream", "<<>>stream\n", "<</Filter["}
	b := Bytes(Bound("bytes", 3, 4))
	data := cat("1 0 obj ", begin[Choose(len(begin))], b)
	p := open(data)
	p.Xref[1] = pdf.NewXrefEntry(0, 0, pdf.XrefTypeIndirectObject)
	o := p.GetObject(1)
	_ = o.Value
	Cover("survived")
}

// C26_nested nests arrays and dictionaries deeply.
func C26_nested() {
	n := Bound("depth", 1500, 5000)
	marks := []string{"[", "<</A", "[<</A ", "(", "<</A[/B"}
	m := marks[Choose(len(marks))]
	body := bytes.Repeat([]byte(m), n)
	x := letters(1)
	tail := [][]byte{nil, x, cat("/", x, "]>>"), bytes.Repeat([]byte("]>>"), n), bytes.Repeat([]byte(")"), n)}[Choose(5)]
	survive(around(nil, cat(body, tail)), "")
}

// C26_library runs without the flag of the command.
func C26_library() {
	v := pdf.Verbose
	pdf.Verbose = nil
	survive(around(nil, cat("(", letters(1), ")")), "")
	pdf.Verbose = v
}
