package verifh

import (
	"bytes"
	"os"

	"github.com/KarmaPenny/pdfparser/pdf"
	. "github.com/KarmaPenny/pdfparser/verifsym"
)

// entry is what raw.pdf says of an object; several forms may be allowed.
type entry []string

func entryOf(n, g int, values []string, stream []byte) entry {
	var out entry
	for _, v := range values {
		s := cat(decimal(n), " ", decimal(g), " obj\n", v, "\n")
		if stream != nil {
			s = cat(s, "stream\n", stream, "\nendstream\n")
		}
		out = append(out, string(cat(s, "endobj\n\n")))
	}
	return out
}

// made tells if text is made of the entries, each once, in any order.
func made(text string, entries []entry) bool {
	for _, order := range orders(len(entries)) {
		texts := []string{""}
		for _, i := range order {
			var next []string
			for _, t := range texts {
				for _, e := range entries[i] {
					next = append(next, t+e)
				}
			}
			texts = next
		}
		for _, t := range texts {
			if len(t) == len(text) && t == text {
				return true
			}
		}
	}
	return false
}

// someValue is a value, as written and as shown.
func someValue(kind int) (written []byte, shown []string, stream []byte) {
	switch kind {
	case 0:
		s := plainString(2)
		return cat("(", s, ")"), []string{string(cat("(", s, ")"))}, nil
	case 1:
		s := letters(2)
		return cat("[/", s, " 7[-1.5 true]null]"), []string{string(cat("[/", s, " 7 [-1.5 true] null]"))}, nil
	case 2:
		s := letters(1)
		return cat("<</K<", encHex(s), ">>"), []string{string(cat("<</K (", s, ")>>"))}, nil
	case 3:
		s := letters(1)
		return cat("<</A", s, " 1 0 R/B<<>>>>"), []string{string(cat("<</A", s, " 1 0 R/B <<>>>>")), string(cat("<</B <<>>/A", s, " 1 0 R>>"))}, nil
	case 4:
		s := letters(2)
		return cat("<</Length 2>>stream\n", s, "\nendstream"), []string{"<</Length 2>>"}, s
	case 5:
		s := letters(2)
		return cat("<</Filter/ASCIIHexDecode>>stream\r\n", encHex(s), "\r\nendstream"), []string{"<</Filter /ASCIIHexDecode>>"}, s
	case 6:
		return []byte("<<>>stream\n\nendstream"), []string{"<<>>"}, []byte{}
	case 7:
		s := letters(3)
		return cat("<</Filter/RunLengthDecode>>stream\r\n", byte(2), s, byte(128), "\r\nendstream"), []string{"<</Filter /RunLengthDecode>>"}, s
	case 8:
		return []byte("null"), []string{"null"}, nil
	}
	return nil, nil, nil
}

const values = 9

// C27_values shows objects of every kind.
func C27_values() {
	k := Bound("objects", 2, 3)
	var objs []numbered
	var want []entry
	for i := 0; i < k; i++ {
		n := []int{i + 1, 3*i + 9}[Choose(2)]
		g := []int{0, 3, 65535}[Choose(Bound("generations", 2, 2))]
		written, shown, stream := someValue(Choose(values))
		objs = append(objs, numbered{n, g, written})
		want = append(want, entryOf(n, g, shown, stream))
	}
	out := run(lay(nil, objs...))
	Assert(made(out["raw.pdf"], want), "raw.pdf is not made of the objects")
	Cover("shown")
}

// C27_orders visits objects in every order.
func C27_orders() {
	k := Bound("objects", 3, 3)
	pick := Choose(Bound("picks", 2, 4))
	var objs [][]byte
	var want []entry
	for i := 0; i < k; i++ {
		written, shown, stream := someValue([]int{0, 5, 2, 4, 0, 5}[pick+i])
		objs = append(objs, written)
		want = append(want, entryOf(i+1, 0, shown, stream))
	}
	data := bare(objs...)
	MapOrder(true)
	out := run(data)
	MapOrder(false)
	Assert(made(out["raw.pdf"], want), "raw.pdf is not made of the objects")
	Cover("shown")
}

// C27_unused leaves out what is not in use, and shows what is.
func C27_unused() {
	k := Bound("entries", 4, 5)
	var want []entry
	var kinds []byte
	data := []byte("%PDF-1.4\n")
	table := cat("xref\n0 ", decimal(k+1), "\n0000000000 65535 f \n")
	for i := 1; i <= k; i++ {
		s, g, kind := letters(1), digits(1), Byte()
		Assume(kind == 'n' || kind == 'f')
		gs := cat("0000", g)
		table = cat(table, pad10(len(data)), " ", gs, " ", kind, " \n")
		data = cat(data, decimal(i), " ", g, " obj\n(", s, ")\nendobj\n")
		kinds = append(kinds, kind)
		want = append(want, entry{string(cat(decimal(i), " ", g, " obj\n(", s, ")\nendobj\n\n"))})
	}
	at := len(data)
	data = cat(data, table, "trailer\n<</Size ", decimal(k+1), ">>\nstartxref\n", decimal(at), "\n%%EOF\n")
	out := run(data)
	var used []entry
	for i, e := range want {
		if kinds[i] == 'n' {
			used = append(used, e)
		}
	}
	Assert(made(out["raw.pdf"], used), "raw.pdf is not made of the objects in use")
	Cover("shown")
}

// C27_sealed shows decrypted values and streams.
func C27_sealed() {
	h := keyed27[Choose(len(keyed27))]
	extra, cipher := "", cipherRC4
	if h.v == 4 {
		cipher = cipherAES
		extra = "/CF<</StdCF<</CFM/AESV2/Length 16>>>>/StmF/StdCF/StrF/StdCF"
	}
	s := newSealed(h, extra)
	a, b := []byte("string"), []byte("stream data")
	g := []int{0, 258}[Choose(2)]
	n := []int{2, 515}[Choose(2)]
	filter, coded := "", b
	if Choose(2) == 1 {
		filter, coded = "/Filter/ASCIIHexDecode", encHex(b)
	}
	raw := s.encrypt(cipher, n, g, coded)
	data := lay(s.trailer(),
		numbered{1, 0, cat("<", encHex(s.encrypt(cipher, 1, 0, a)))},
		numbered{n, g, cat("<<", filter, ">>stream\r\n", raw, "\r\nendstream")})
	os.WriteFile(Path("in.pdf"), data, 0644)
	err := pdf.Parse(Path("in.pdf"), "pw", Path("out"))
	Assert(err == nil, "document is refused")
	text, _ := os.ReadFile(Path("out/raw.pdf"))
	shown := "<<>>"
	if filter != "" {
		shown = "<</Filter /ASCIIHexDecode>>"
	}
	Assert(made(string(text), []entry{
		entryOf(1, 0, []string{"(" + string(a) + ")"}, nil),
		entryOf(n, g, []string{shown}, b),
	}), "raw.pdf is not made of the decrypted objects")
	Cover("shown")
}

var keyed27 = []handler{{v: 1, r: 2, bytes: 5}, {v: 2, r: 3, bytes: 10}, {v: 4, r: 4, bytes: 16}}

// C27_revised shows the latest of every object.
func C27_revised() {
	x, y, z := letters(1), letters(1), letters(1)
	one := cat("%PDF-1.4\n1 0 obj\n(", x, ")\nendobj\n2 0 obj\n(", y, ")\nendobj\n")
	at := len(one)
	one = cat(one, "xref\n0 3\n0000000000 65535 f \n0000000009 00000 n \n0000000030 00000 n \ntrailer\n<</Size 3>>\nstartxref\n", decimal(at), "\n%%EOF\n")
	which := 1 + Choose(3)
	g := Choose(2)
	entries := []entry{entryOf(1, 0, []string{string(cat("(", x, ")"))}, nil), entryOf(2, 0, []string{string(cat("(", y, ")"))}, nil)}
	var two []byte
	if Choose(2) == 0 {
		off := len(one)
		two = cat(decimal(which), " ", decimal(g), " obj\n(", z, ")\nendobj\nxref\n", decimal(which), " 1\n", pad10(off), " 0000", decimal(g), " n \n")
		off = len(one) + len("1 0 obj\n(x)\nendobj\n")
		two = cat(two, "trailer\n<</Size 4/Prev ", decimal(at), ">>\nstartxref\n", decimal(off), "\n%%EOF\n")
		e := entryOf(which, g, []string{string(cat("(", z, ")"))}, nil)
		if which == 3 {
			entries = append(entries, e)
		} else {
			entries[which-1] = e
		}
	} else {
		off := len(one)
		two = cat("xref\n", decimal(which), " 1\n0000000000 00001 f \ntrailer\n<</Size 4/Prev ", decimal(at), ">>\nstartxref\n", decimal(off), "\n%%EOF\n")
		if which < 3 {
			entries = entries[2-which : 3-which]
		}
	}
	out := run(cat(one, two))
	Assert(made(out["raw.pdf"], entries), "raw.pdf is not made of the latest objects")
	Cover("shown")
}

// bare writes a document of objects 1, 2, ... and nothing else.
func bare(bodies ...[]byte) []byte {
	data := []byte("%PDF-1.4\n")
	table := cat("xref\n1 ", decimal(len(bodies)), "\n")
	for i, b := range bodies {
		table = append(table, cat(pad10(len(data)), " 00000 n \n")...)
		data = append(data, cat(decimal(i+1), " 0 obj\n", b, "\nendobj\n")...)
	}
	at := len(data)
	return cat(data, table, "trailer\n<<>>\nstartxref\n", decimal(at), "\n%%EOF\n")
}

// C27_elsewhere looks for the same lines whatever the order of visiting objects and entries.
func C27_elsewhere() {
	x := letters(1)
	d := &document{}
	name, lines := "urls.txt", []string{}
	switch Choose(5) {
	case 0:
		d.add("<</A<</S/URI/URI(u", x, ")>>>>")
		d.add("<</URI(v)>>")
		lines = []string{"u" + string(x), "v"}
	case 1:
		d.add("<</AA<</O<</S/JavaScript/JS(j", x, ")>>/C<</S/JavaScript/JS(k)>>>>>>")
		name, lines = "javascript.js", []string{"j" + string(x), "k"}
	case 2:
		f := d.add("<</F(f", x, ")>>")
		d.add("<</OpenAction<</S/Launch/F ", f, ">>>>")
		name, lines = "commands.txt", []string{"f" + string(x)}
	case 3:
		pages := d.add("<</Contents ", d.add(plainStream(cat("BT(t", x, ")Tj ET"))), ">>")
		d.add("<</Pages ", pages, ">>")
		name, lines = "contents.txt", []string{"t" + string(x)}
	case 4:
		f := d.add("<</F(f", x, ")/Type/Filespec>>")
		d.add("<</EmbeddedFiles<</Names[(n) ", f, "]>>>>")
		name, lines = "files.txt", []string{zeroHash + ":f" + string(x)}
	}
	data := bare(d.bodies...)
	MapOrder(true)
	out := run(data)
	MapOrder(false)
	Assert(linesOf(out[name], lines), name+" depends on the order of visiting")
	for _, o := range outputs {
		if o != name && o != "raw.pdf" && o != "files.txt" {
			Assert(out[o] == "", o+" depends on the order of visiting")
		}
	}
	Cover("shown")
}

// linesOf tells if every line of text is one of the lines and every one of them is there.
func linesOf(text string, lines []string) bool {
	seen := make([]bool, len(lines))
	for text != "" {
		found := false
		for i, l := range lines {
			if len(text) > len(l) && text[:len(l)] == l && text[len(l)] == '\n' {
				seen[i], found = true, true
				text = text[len(l)+1:]
				break
			}
		}
		if !found {
			return false
		}
	}
	for _, s := range seen {
		if !s {
			return false
		}
	}
	return true
}

// C27_many shows any number of objects, with numbers of any size.
func C27_many() {
	n := []int{17, 65, 100, 128, 129, 255, 256, 257, 300}[Choose(Bound("C27.many", 8, 9))]
	first := []int{1000, 65500, 99000, 8388000}[Choose(4)]
	if first == 65500 {
		first = 65536 - n/2
	}
	if first == 99000 {
		first = 100000
	}
	x := letters(2)
	streams := Choose(2) == 0
	data := []byte("%PDF-1.4\n")
	table := cat("xref\n", decimal(first), " ", decimal(n), "\n")
	var want []string
	prefix := len(decimal(first))
	for i := 0; i < n; i++ {
		t := pad10(i)
		if i == n/2 {
			t = cat("12345678", x)
		}
		head := cat(decimal(first+i), " 0 obj\n")
		body := cat("(", t, ")\n")
		if streams {
			body = cat("<<>>stream\n", t, "\nendstream\n")
		}
		table = cat(table, pad10(len(data)), " 00000 n \n")
		data = cat(data, head, body, "endobj\n")
		if streams {
			body = cat("<<>>\nstream\n", t, "\nendstream\n")
		}
		want = append(want, string(cat(head, body, "endobj\n")))
	}
	at := len(data)
	data = cat(data, table, "trailer\n<<>>\nstartxref\n", decimal(at), "\n%%EOF\n")
	text := run(data)["raw.pdf"]
	w := len(want[0]) + 1
	Assert(len(text) == n*w, "raw.pdf is not made of the objects")
	if len(text) != n*w {
		return
	}
	got := map[string]string{}
	for i := 0; i < len(text); i += w {
		got[text[i:i+prefix]] = text[i+prefix : i+w]
	}
	for _, e := range want {
		Assert(got[e[:prefix]] == e[prefix:]+"\n", "raw.pdf is not made of the objects")
	}
	Cover("shown")
}

// C27_huge shows very long values and streams.
func C27_huge() {
	n := huge[Choose(Bound("C27.huge", 9, len(huge)))]
	x := bulk(n, capitals)
	var written, shown, stream []byte
	switch Choose(4) {
	case 0:
		written = cat("(", x, ")")
		shown = written
	case 1:
		written = cat("/", x)
		shown = written
	case 2:
		written = plainStream(x)
		shown, stream = []byte("<<>>"), x
	case 3:
		written = []byte("[")
		for i := 0; i < n/64; i++ {
			written = cat(written, "(", decimal(i), ")")
		}
		written = cat(written, "(", x[:1], ")]")
		shown = bytes.ReplaceAll(written, []byte(")("), []byte(") ("))
	}
	out := run(lay(nil, numbered{1, 0, written}))
	Assert(made(out["raw.pdf"], []entry{entryOf(1, 0, []string{string(shown)}, stream)}), "raw.pdf is not made of the objects")
	Cover("shown")
}
