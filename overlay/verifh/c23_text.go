package verifh

import (
	"os"

	"github.com/KarmaPenny/pdfparser/pdf"
	. "github.com/KarmaPenny/pdfparser/verifsym"
)

// pageText extracts the page that object 1 is.
func pageText(bodies ...[]byte) string {
	p := objects(bodies...)
	d, ok := p.GetObject(1).Value.(pdf.Dictionary)
	Assert(ok, "page is not read")
	f, err := os.Create(Path("text"))
	if err != nil {
		panic(err)
	}
	pdf.Page(d).Extract(&pdf.Output{Text: f})
	f.Close()
	b, _ := os.ReadFile(Path("text"))
	return string(b)
}

// inString is any content that can stand in parentheses as it is, in a stream.
func inString(n int) []byte {
	b := Bytes(n)
	for _, c := range b {
		Assume(c != '(' && c != ')' && c != '\\' && c != '\r' && c != 'e')
	}
	return b
}

// two fonts: A translates a to (one), B the two bytes ab to (two)
const fontResources = "/Resources<</Font<</A<</ToUnicode 8 0 R>>/B 7 0 R/C<<>>>>>>"

var fontObjects = [][]byte{
	[]byte("<</Type/Font/ToUnicode 9 0 R>>"),
	plainStream([]byte("1 beginbfchar <61> <6F6e65> endbfchar")),
	plainStream([]byte("1 beginbfchar <6162> <74776F> endbfchar")),
}

// decoded is text as the font shows it.
func decoded(font int, text []byte) []byte {
	switch font {
	case 1:
		var out []byte
		for _, c := range text {
			if c == 'a' {
				out = append(out, "one"...)
			} else {
				out = append(out, c)
			}
		}
		return out
	case 2:
		var out []byte
		for i := 0; i < len(text); i += 2 {
			if i+2 > len(text) {
				return append(out, text[i:]...)
			}
			if text[i] == 'a' && text[i+1] == 'b' {
				out = append(out, "two"...)
			} else {
				out = append(out, text[i], text[i+1])
			}
		}
		return out
	}
	return text
}

// positioned is a TJ array and its text.
func positioned(x []byte) ([]byte, []byte) {
	a, b := cat("(", x[:1], ")"), cat("(", x[1:], ")")
	switch Choose(9) {
	case 0:
		return cat("[", a, b, "]"), x
	case 1:
		return cat("[", a, "-12", b, "]"), x
	case 2:
		return cat("[5 ", a, b, "]"), x
	case 3:
		return cat("[1 -2.5", a, "3 4 ", b, " 6]"), x
	case 4:
		return []byte("[]"), nil
	case 5:
		return []byte("[7 8]"), nil
	case 6:
		return cat("[", a, "]"), x[:1]
	case 7:
		return cat("[", a, a, "0", b, b, "]"), cat(x[:1], x[:1], x[1:], x[1:])
	}
	return cat("[0", b, "]"), x[1:]
}

// some is one operator with its operands; it returns the text shown, nil for none.
func showOp(font *int, x []byte) (op []byte, text []byte, shown bool) {
	switch Choose(10) {
	case 0:
		return cat("(", x, ")Tj\n"), x, true
	case 1:
		return cat("(", x, ")'\n"), x, true
	case 2:
		return cat("1 .5 (", x, ") \"\n"), x, true
	case 3:
		a, t := positioned(x)
		return cat(a, "TJ "), t, true
	case 4:
		*font = 1
		return []byte("/A 12 Tf\n"), nil, false
	case 5:
		*font = 2
		return []byte("/B -1.5 Tf "), nil, false
	case 6:
		*font = 0
		return []byte("/" + []string{"X", "C"}[Choose(2)] + " 1 Tf\n"), nil, false
	case 7:
		return []byte("10 0 0 1 Tm T* 0 0 1 rg % (no)Tj\n/P <</MCID 0>>BDC EMC\n"), nil, false
	case 8:
		// brackets that end nothing end the operands before them
		return cat([]string{"]", ">>", ") ", "> ", "(no)] /A 0 1 null "}[Choose(5)]), nil, false
	}
	return cat("<", encHex(cat("z")), "Tj\n"), []byte("z"), true
}

// C23_operators shows text with any operators.
func C23_operators() {
	k := Bound("operators", 3, 4)
	var content, want []byte
	font := 0
	content = cat("q BT\n")
	for i := 0; i < k; i++ {
		op, text, shown := showOp(&font, []byte{'a', 'b'})
		content = cat(content, op)
		if shown {
			want = cat(want, decoded(font, text), "\n")
		}
	}
	content = cat(content, "ET Q")
	got := pageText(append([][]byte{cat("<<", fontResources, "/Contents 2 0 R>>"), plainStream(content), []byte("0"), []byte("0"), []byte("0"), []byte("0")}, fontObjects...)...)
	Assert(got == string(want), "text differs")
	Cover("shown")
}

// C23_text shows any text in any font.
func C23_text() {
	x := inString(2)
	font := Choose(3)
	content := cat("BT", []string{" ", "/A 1 Tf ", "/B 1 Tf "}[font])
	var text []byte
	switch Choose(4) {
	case 0:
		content, text = cat(content, "(", x, ")Tj"), x
	case 1:
		content, text = cat(content, "(", x, ")'"), x
	case 2:
		content, text = cat(content, "0 0 (", x, ")\""), x
	case 3:
		var a []byte
		a, text = positioned(x)
		content = cat(content, a, "TJ")
	}
	content = cat(content, []string{" ET", "", "\n"}[Choose(3)])
	got := pageText(append([][]byte{cat("<<", fontResources, "/Contents 2 0 R>>"), plainStream(content), []byte("0"), []byte("0"), []byte("0"), []byte("0")}, fontObjects...)...)
	Assert(got == string(cat(decoded(font, text), "\n")), "text differs")
	Cover("shown")
}

// C23_blocks shows text in several text objects; each starts without a font.
func C23_blocks() {
	x := inString(1)
	var content, want []byte
	for i := 0; i < 3; i++ {
		content = cat(content, "BT ")
		font := Choose(3)
		content = cat(content, []string{"", "/A 9 Tf ", "/B 9 Tf "}[font])
		switch Choose(3) {
		case 0:
			content = cat(content, "(ab", x, ")Tj ")
			want = cat(want, decoded(font, cat("ab", x)), "\n")
		case 1:
			content = cat(content, "(a)Tj/A 1 Tf(a)Tj/Q 1 Tf(a)Tj ")
			want = cat(want, decoded(font, []byte("a")), "\none\na\n")
		}
		content = cat(content, "ET 1 0 0 1 0 0 cm ")
	}
	got := pageText(append([][]byte{cat("<<", fontResources, "/Contents 2 0 R>>"), plainStream(content), []byte("0"), []byte("0"), []byte("0"), []byte("0")}, fontObjects...)...)
	Assert(got == string(want), "text differs")
	Cover("shown")
}

// C23_streams has its content in one or several streams, divided anywhere between operators.
func C23_streams() {
	x := inString(1)
	ops := [][]byte{[]byte("q"), []byte("BT"), []byte("/A 1 Tf"), cat("(a", x, ")Tj"), []byte("(b)'"), []byte("ET"), []byte("BT"), []byte("[(c)1(d)]TJ"), []byte("ET Q")}
	want := cat("one", decoded(1, x), "\nb\ncd\n")
	if Choose(2) == 0 {
		want = cat("a", x, "\nb\ncd\n")
		ops[2] = []byte("/N 1 Tf")
	}
	i := Choose(len(ops) + 1)
	j := i + Choose(len(ops)+1-i)
	join := func(ops [][]byte) []byte {
		var out []byte
		for i, o := range ops {
			if i > 0 {
				out = append(out, ' ')
			}
			out = cat(out, o)
		}
		return out
	}
	parts := [][]byte{plainStream(join(ops[:i])), plainStream(join(ops[i:j])), plainStream(join(ops[j:]))}
	contents := "[2 0 R 3 0 R 4 0 R]"
	last := []byte("0")
	if Choose(2) == 0 {
		last, contents = []byte(contents), "5 0 R"
	}
	got := pageText(append([][]byte{cat("<<", fontResources, "/Contents ", contents, ">>"), parts[0], parts[1], parts[2], last, []byte("0")}, fontObjects...)...)
	Assert(got == string(want), "text differs")
	Cover("shown")
}

// C23_pages writes the text of all pages in order.
func C23_pages() {
	x, y := plainString(1), plainString(1)
	for _, c := range cat(x, y) {
		Assume(c != 'e')
	}
	d := &document{}
	one := d.add(plainStream(cat("BT(1", x, ")Tj ET")))
	two := d.add(plainStream(cat("BT(2", y, ")Tj ET")))
	three := d.add("<<>>stream\nBT(3)Tj ET\nendstream")
	a := d.add("<</Type/Page/Contents ", one, ">>")
	b := d.add("<</Type/Page/Contents[", two, "]>>")
	c := d.add("<</Type/Page/Contents ", three, ">>")
	var root string
	switch Choose(3) {
	case 0:
		root = d.add("<</Type/Pages/Kids[", a, " ", b, " ", c, "]>>")
	case 1:
		root = d.add("<</Type/Pages/Kids[", d.add("<</Type/Pages/Kids[", a, " ", b, "]>>"), " ", c, "]>>")
	case 2:
		root = d.add("<</Type/Pages/Kids[", a, " ", d.add("<</Type/Pages/Kids[", d.add("<</Kids[", b, "]>>"), " ", c, "]>>"), "]>>")
	}
	d.add("<</Type/Catalog/Pages ", root, ">>")
	out := run(d.bytes())
	Assert(out["contents.txt"] == string(cat("1", x, "\n2", y, "\n3\n")), "contents.txt differs")
	Cover("shown")
}

// C23_long shows long text.
func C23_long() {
	n := lengths[Choose(len(lengths))]
	x := make([]byte, n)
	for i := range x {
		x[i] = byte('b' + i%20)
	}
	if n > 0 {
		x[[]int{0, n / 2, n - 1}[Choose(3)]] = inString(1)[0]
	}
	font := Choose(2)
	content := cat("BT ", []string{"", "/A 1 Tf"}[font], []string{"(", "[("}[n&1], x, []string{")Tj", ")]TJ"}[n&1], " ET")
	got := pageText(append([][]byte{cat("<<", fontResources, "/Contents 2 0 R>>"), plainStream(content), []byte("0"), []byte("0"), []byte("0"), []byte("0")}, fontObjects...)...)
	Assert(got == string(cat(decoded(font, x), "\n")), "text differs")
	Cover("shown")
}

// C23_many has many streams, operators, elements, fonts or pages.
func C23_many() {
	n := []int{15, 16, 17, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 600}[Choose(Bound("C23.many", 14, 15))]
	x := inString(1)
	mid := n / 2
	text := func(i int) []byte {
		if i == mid {
			return cat("x", x)
		}
		return decimal(i)
	}
	kind := Choose(6)
	d := &document{}
	var content, want []byte
	switch kind {
	case 0: // streams
		var list []byte
		for i := 0; i < n; i++ {
			list = cat(list, d.add(plainStream(cat("BT(", text(i), ")Tj ET"))), " ")
			want = cat(want, text(i), "\n")
		}
		content = cat("[", list, "]")
	case 1: // text objects
		for i := 0; i < n; i++ {
			content = cat(content, "BT(", text(i), ")Tj ET\n")
			want = cat(want, text(i), "\n")
		}
	case 2: // operators
		content = cat("BT ")
		for i := 0; i < n; i++ {
			content = cat(content, "(", text(i), ")' ")
			want = cat(want, text(i), "\n")
		}
	case 3: // elements
		content = cat("BT[")
		for i := 0; i < n; i++ {
			content = cat(content, "(", text(i), ")-", decimal(i))
			want = cat(want, text(i))
		}
		content = cat(content, "]TJ")
		want = cat(want, "\n")
	case 4: // operands
		content = cat("BT ")
		for i := 0; i < n; i++ {
			content = cat(content, decimal(i), " ")
		}
		content = cat(content, "(", text(mid), ")Tj")
		want = cat(text(mid), "\n")
	case 5: // fonts
		var list []byte
		content = cat("BT ")
		for i := 0; i < n; i++ {
			value := text(i)
			m := d.add(plainStream(cat("1 beginbfchar<61><", encHex(value), "endbfchar")))
			list = cat(list, "/F", decimal(i), "<</ToUnicode ", m, ">>")
			content = cat(content, "/F", decimal(i), " 1 Tf(a)Tj ")
			want = cat(want, value, "\n")
		}
		d.add("<<", list, ">>")
	}
	resources := ""
	if kind == 5 {
		resources = "/Resources<</Font " + string(decimal(len(d.bodies))) + " 0 R>>"
	}
	contents := string(content)
	if kind > 0 {
		contents = d.add(plainStream(content))
	}
	page := cat("<</Contents ", contents, resources, ">>")
	d.add(page)
	p := objects(d.bodies...)
	dict, ok := p.GetObject(len(d.bodies)).Value.(pdf.Dictionary)
	Assert(ok, "page is not read")
	f, err := os.Create(Path("text"))
	if err != nil {
		panic(err)
	}
	pdf.Page(dict).Extract(&pdf.Output{Text: f})
	f.Close()
	got, _ := os.ReadFile(Path("text"))
	Assert(string(got) == string(want), "text differs")
	Cover("shown")
}

// C23_crowd has many pages, in one node or a chain of them.
func C23_crowd() {
	n := []int{17, 65, 129, 257}[Choose(Bound("C23.crowd", 3, 4))]
	x := plainString(1)
	Assume(x[0] != 'e')
	mid := n / 2
	chain := Choose(2) == 0
	d := &document{}
	var want []byte
	var pages []string
	for i := 0; i < n; i++ {
		text := decimal(i)
		if i == mid {
			text = cat("x", x)
		}
		want = cat(want, text, "\n")
		pages = append(pages, d.add("<</Contents ", d.add(plainStream(cat("BT(", text, ")Tj ET"))), ">>"))
	}
	var root string
	if chain {
		root = pages[n-1]
		for i := n - 2; i >= 0; i-- {
			root = d.add("<</Kids[", pages[i], " ", root, "]>>")
		}
	} else {
		list := ""
		for _, p := range pages {
			list += p + " "
		}
		root = d.add("<</Kids[", list, "]>>")
	}
	d.add("<</Type/Catalog/Pages ", root, ">>")
	out := run(d.bytes())
	Assert(out["contents.txt"] == string(want), "contents.txt differs")
	Cover("shown")
}
