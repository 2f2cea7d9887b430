package verifh

import (
	. "github.com/KarmaPenny/pdfparser/verifsym"
)

// expected is what the four text outputs hold.
type expected struct{ urls, scripts, commands, files []string }

func (e *expected) add(o expected) {
	e.urls = append(e.urls, o.urls...)
	e.scripts = append(e.scripts, o.scripts...)
	e.commands = append(e.commands, o.commands...)
	e.files = append(e.files, o.files...)
}

func (e expected) check(out map[string]string) {
	Assert(consists(out["urls.txt"], e.urls...), "urls.txt differs")
	Assert(consists(out["javascript.js"], e.scripts...), "javascript.js differs")
	Assert(consists(out["commands.txt"], e.commands...), "commands.txt differs")
	Assert(consists(out["files.txt"], e.files...), "files.txt differs")
}

func external(name string) string { return zeroHash + ":" + name }

// simple is a dictionary that yields its content wherever it sits.
func (d *document) simple(kind int, x []byte, how int) (string, expected) {
	s := d.value(cat("(", x, ")"), how)
	switch kind {
	case 0:
		return "<</S/URI/URI " + s + ">>", expected{urls: []string{string(x)}}
	case 1:
		return "<</URI " + d.value(cat("<</Base ", s, ">>"), how) + ">>", expected{urls: []string{string(x)}}
	case 2:
		return "<</S/JavaScript/JS " + s + ">>", expected{scripts: []string{string(x)}}
	case 3:
		js := d.add("<<>>stream\r\n", x, "\r\nendstream")
		if how == 2 {
			js = d.add(js)
		}
		return "<</S/JavaScript/JS " + js + ">>", expected{scripts: []string{string(x)}}
	}
	return "<</URLS " + d.value(cat("<</Names[", s, " null]>>"), how) + ">>", expected{urls: []string{string(x)}}
}

const simples = 5

// action is an action dictionary that refers to a file.
func (d *document) action(kind int, x, y []byte, how int) (string, expected) {
	s, p := d.value(cat("(", x, ")"), how), d.value(cat("(", y, ")"), how)
	name, both := string(x), string(x)+" "+string(y)
	spec := func(entries string) string { return d.value([]byte("<<"+entries+">>"), how) }
	switch kind {
	case 0:
		return "<</S/Launch/F " + s + ">>", expected{files: []string{external(name)}, commands: []string{name}}
	case 1:
		return "<</S/Launch/F " + spec("/F "+s) + ">>", expected{files: []string{external(name)}, commands: []string{name}}
	case 2:
		return "<</S/Launch/Win " + spec("/F "+s+"/P "+p) + ">>", expected{files: []string{external(name)}, commands: []string{both}}
	case 3:
		return "<</S/Launch/Win " + spec("/F "+s) + ">>", expected{files: []string{external(name)}, commands: []string{name}}
	case 4:
		return "<</S/GoToR/F " + s + ">>", expected{files: []string{external(name)}}
	case 5:
		return "<</S/ImportData/F " + spec("/Type/Filespec/F "+s) + ">>", expected{files: []string{external(name)}}
	case 6:
		return "<</S/SubmitForm/F " + spec("/FS/URL/F "+s) + ">>", expected{urls: []string{name}}
	}
	return "<</S/SubmitForm/F " + spec("/FS(URL)/F "+s) + ">>", expected{urls: []string{name}}
}

const actions = 8

// under puts an action into a dictionary.
func (d *document) under(kind int, action string) string {
	switch kind {
	case 0:
		return "<</A " + action + ">>"
	case 1:
		return "<</OpenAction " + action + "/Q 1>>"
	case 2:
		return "<</AA<</O " + action + ">>>>"
	case 3:
		return "<</AA " + d.add("<</O ", action, ">>") + ">>"
	case 4:
		return "<</Next " + action + ">>"
	}
	return "<</Next[" + action + "]>>"
}

const holders = 6

// C21_simple extracts URLs and scripts wherever they are.
func C21_simple() {
	d := &document{}
	x := plainString(2)
	dict, want := d.simple(Choose(simples), x, Choose(3))
	if Choose(2) == 0 {
		dict = d.under(Choose(holders), dict)
	}
	if Choose(4) == 0 {
		dict = d.add(dict)
	}
	d.place(Choose(places), dict)
	want.check(run(d.bytes()))
	Cover("extracted")
}

// C21_action extracts files and commands of actions wherever they are.
func C21_action() {
	d := &document{}
	x, y := plainString(1), plainString(1)
	dict, want := d.action(Choose(actions), x, y, Choose(3))
	if Choose(2) == 0 {
		dict = d.add(dict)
	}
	d.place(Choose(places), d.under(Choose(holders), dict))
	want.check(run(d.bytes()))
	Cover("extracted")
}

// C21_several extracts two things at once.
func C21_several() {
	d := &document{}
	var all expected
	body := "<<"
	for i, key := range []string{"A", "OpenAction"} {
		x := cat([]string{"u", "v"}[i], plainString(1))
		var dict string
		var want expected
		if k := Choose(2); k == 0 {
			dict, want = d.simple([]int{0, 2}[Choose(2)], x, i)
		} else {
			dict, want = d.action([]int{0, 2, 4}[Choose(3)], x, []byte("p"), i)
		}
		all.add(want)
		body += "/" + key + " " + dict
	}
	body += "/AA<</O<</S/GoToR/F(w)>>/C<</S/GoToR/F(z)>>>>>>"
	all.add(expected{files: []string{external("w"), external("z")}})
	d.add(body)
	all.check(run(d.bytes()))
	Cover("extracted")
}

// C21_together has actions with any entries together.
func C21_together() {
	d := &document{}
	var want expected
	how := Choose(2)
	spec := func(entries string) string { return d.value([]byte("<<"+entries+">>"), how) }
	file := func(name string, command bool) {
		want.files = append(want.files, external(name))
		if command {
			want.commands = append(want.commands, name)
		}
	}
	x := string(plainString(1))
	s := Choose(4)
	launch := s == 1
	action := "<<" + []string{"", "/S/Launch", "/S/GoToR", "/S(Launch)"}[s]
	kinds := 5
	if launch {
		kinds = 6
	}
	switch Choose(kinds) {
	case 1:
		action += "/F " + d.value([]byte("(f"+x+")"), how)
		file("f"+x, launch)
	case 2:
		action += "/F " + spec("/F(f"+x+")")
		file("f"+x, launch)
	case 3:
		action += "/F " + spec("/FS/URL/F(u"+x+")")
		want.urls = append(want.urls, "u"+x)
	case 4:
		action += "/F " + spec("/FS/Other/F(f"+x+")/UF(no)/Unix(no)")
		file("f"+x, launch)
	case 5:
		action += "/F " + spec("/F(f"+x+")/P(p)")
		want.files = append(want.files, external("f"+x))
		want.commands = append(want.commands, "f"+x+" p")
	}
	kinds = 2
	if launch {
		kinds = 3
	}
	switch Choose(kinds) {
	case 1:
		action += "/Win " + spec("/F(w"+x+")/D(no)/O(open)")
		file("w"+x, launch)
	case 2:
		action += "/Win " + spec("/F(w"+x+")/P(-q "+x+")")
		want.files = append(want.files, external("w"+x))
		want.commands = append(want.commands, "w"+x+" -q "+x)
	}
	d.add(d.under(Choose(holders), action+">>"))
	want.check(run(d.bytes()))
	Cover("extracted")
}

// C21_entries has dictionaries with any other entries together.
func C21_entries() {
	d := &document{}
	var want expected
	x := string(plainString(1))
	how := Choose(2)
	dict := "<<" + []string{"", "/S/URI", "/S/JavaScript", "/Type/Action"}[Choose(4)]
	switch Choose(3) {
	case 1:
		dict += "/URI " + d.value([]byte("(u"+x+")"), how)
		want.urls = append(want.urls, "u"+x)
	case 2:
		dict += "/URI " + d.value([]byte("<</Base(u"+x+")/Q(no)>>"), how)
		want.urls = append(want.urls, "u"+x)
	}
	switch Choose(3) {
	case 1:
		dict += "/JS " + d.value([]byte("(j"+x+")"), how)
		want.scripts = append(want.scripts, "j"+x)
	case 2:
		dict += "/JS " + d.add("<<>>stream\nj", x, "\nendstream")
		want.scripts = append(want.scripts, "j"+x)
	}
	if Choose(2) == 0 {
		dict += "/URLS " + d.value([]byte("<</Names[(v"+x+") 1]>>"), how)
		want.urls = append(want.urls, "v"+x)
	}
	switch Choose(4) {
	case 1:
		dict += "/EmbeddedFiles " + d.value([]byte("<</Names[(no)(e"+x+")]>>"), how)
		want.files = append(want.files, external("e"+x))
	case 2:
		dict += "/EmbeddedFiles " + d.value([]byte("<</Names[(no)<</F(e"+x+")>>]>>"), how)
		want.files = append(want.files, external("e"+x))
	case 3:
		dict += "/EmbeddedFiles<</Names[(no)<</FS/URL/F(e" + x + ")>>]>>"
		want.urls = append(want.urls, "e"+x)
	}
	if Choose(2) == 0 {
		dict += "/Next[<</F(n" + x + ")>><</S/Launch/F(l)>>]"
		want.files = append(want.files, external("n"+x), external("l"))
		want.commands = append(want.commands, "l")
	}
	dict += ">>"
	if Choose(2) == 0 {
		dict = "<</A " + dict + ">>"
	}
	d.add(dict)
	want.check(run(d.bytes()))
	Cover("extracted")
}

// C21_bytes extracts short strings of arbitrary bytes.
func C21_bytes() {
	d := &document{}
	x := Bytes(Choose(Bound("C21.bytes", 4, 5)))
	var want expected
	h := cat("<", encHex(x))
	switch Choose(8) {
	case 0:
		d.add("<</URI ", h, ">>")
		want.urls = []string{string(x)}
	case 1:
		d.add("<</URI<</Base ", h, ">>>>")
		want.urls = []string{string(x)}
	case 2:
		d.add("<</JS ", h, ">>")
		want.scripts = []string{string(x)}
	case 3:
		d.add("<</JS ", d.add("<</Filter/ASCIIHexDecode>>stream\n", encHex(x), "\nendstream"), ">>")
		want.scripts = []string{string(x)}
	case 4:
		d.add("<</A<</S/Launch/F ", h, ">>>>")
		want.files = []string{external(string(x))}
		want.commands = []string{string(x)}
	case 5:
		d.add("<</A<</S/Launch/Win<</F(f)/P ", h, ">>>>>>")
		want.files = []string{external("f")}
		want.commands = []string{"f " + string(x)}
	case 6:
		d.add("<</URLS<</Names[", h, " 0]>>>>")
		want.urls = []string{string(x)}
	case 7:
		d.add("<</AA<</O<</F<</FS/URL/F ", h, ">>>>>>>>")
		want.urls = []string{string(x)}
	}
	want.check(run(d.bytes()))
	Cover("extracted")
}

// C21_order extracts the same in any order of dictionary entries and objects.
func C21_order() {
	MapOrder(true)
	d := &document{}
	x := plainString(1)
	d.add("<</A<</URI(", x, ")>>/AA<</O<</F(w)>>/C<</F(z)>>>>>>")
	d.add("<</JS(j)>>")
	expected{urls: []string{string(x)}, scripts: []string{"j"}, files: []string{external("w"), external("z")}}.check(run(d.bytes()))
	Cover("extracted")
}

// C21_strings extracts strings of any content and length.
func C21_strings() {
	n := lengths[Choose(len(lengths))]
	x := make([]byte, n)
	for i := range x {
		x[i] = byte('a' + i%26)
	}
	if n > 0 {
		i := []int{0, n / 2, n - 1}[Choose(3)]
		x[i] = Byte()
	}
	d := &document{}
	var want expected
	switch Choose(4) {
	case 0:
		d.add("<</URI<", encHex(x), ">>")
		want.urls = []string{string(x)}
	case 1:
		d.add("<</JS<", encHex(x), ">>")
		want.scripts = []string{string(x)}
	case 2:
		d.add("<</JS ", d.add("<</Filter/ASCIIHexDecode>>stream\n", encHex(x), "\nendstream"), ">>")
		want.scripts = []string{string(x)}
	case 3:
		d.add("<</A<</S/Launch/F<", encHex(x), ">>>>")
		want.files = []string{external(string(x))}
		want.commands = []string{string(x)}
	}
	want.check(run(d.bytes()))
	Cover("extracted")
}

// C21_nothing has entries of other types, which yield nothing.
func C21_nothing() {
	d := &document{}
	key := []string{"URI", "JS", "A", "OpenAction", "AA", "URLS", "EmbeddedFiles", "F", "Win", "Base", "Next", "S", "XFA"}[Choose(13)]
	var v string
	switch Choose(7) {
	case 0:
		v = "/Name"
	case 1:
		v = string(cat(digits(1)))
	case 2:
		v = "[1/N]"
	case 3:
		v = "<</K/V>>"
	case 4:
		v = d.add("null")
	case 5:
		v = "9 0 R"
	case 6:
		v = d.add("[7]")
	}
	holder := "<</" + key + " " + v + ">>"
	if Choose(2) == 0 {
		holder = "<</A" + holder + ">>"
	}
	d.add(holder)
	out := run(d.bytes())
	if key == "XFA" {
		out["files.txt"] = "" // see C22
	}
	expected{}.check(out)
	Cover("extracted")
}

// C21_tree extracts from name trees with levels.
func C21_tree() {
	d := &document{}
	x, y := plainString(1), plainString(1)
	a := d.value(cat("<</Names[(", x, ") 1]>>"), Choose(2))
	b := d.value(cat("<</Names[(k", y, ")", d.add("<</K 1>>"), "]/Kids[", a, "]>>"), Choose(2))
	var want expected
	if Choose(2) == 0 {
		d.add("<</URLS ", d.value(cat("<</Kids[", b, "]>>"), Choose(2)), ">>")
		want.urls = []string{string(x), "k" + string(y)}
	} else {
		a := d.value(cat("<</Names[(n)(", x, ")]>>"), Choose(2))
		d.add("<</EmbeddedFiles ", d.value(cat("<</Kids[", a, "]/Names[(m)", d.add("<</F(", y, ")>>"), "]>>"), Choose(2)), ">>")
		want.files = []string{external(string(x)), external(string(y))}
	}
	want.check(run(d.bytes()))
	Cover("extracted")
}

// sameLines tells if text is made of the lines, each once, in any order. Lines have the same length
// and differ in their first bytes.
func sameLines(text string, prefix int, lines []string) bool {
	if len(lines) == 0 {
		return text == ""
	}
	w := len(lines[0]) + 1
	if len(text) != w*len(lines) {
		return false
	}
	got := map[string]string{}
	for i := 0; i < len(text); i += w {
		got[text[i:i+prefix]] = text[i+prefix : i+w]
	}
	for _, l := range lines {
		if got[l[:prefix]] != l[prefix:]+"\n" {
			return false
		}
	}
	return true
}

// C21_many extracts from any number of entries, actions and objects.
func C21_many() {
	n := []int{16, 17, 64, 65, 100, 128, 129, 255, 256, 257, 300}[Choose(Bound("C21.many", 10, 11))]
	x := plainString(1)
	var urls []string
	url := func(i int) string {
		u := cat(pad10(i), ":")
		if i == n/2 {
			u = cat(u, x)
		} else {
			u = cat(u, "-")
		}
		urls = append(urls, string(u))
		return string(u)
	}
	d := &document{}
	switch Choose(7) {
	case 0: // objects
		for i := 0; i < n; i++ {
			d.add("<</S/URI/URI(", url(i), ")>>")
		}
	case 1: // triggers
		list := ""
		for i := 0; i < n; i++ {
			list += "/T" + string(decimal(i)) + "<</S/SubmitForm/F<</FS/URL/F(" + url(i) + ")>>>>"
		}
		d.add("<</AA<<", list, ">>>>")
	case 2: // actions that follow one another, each an object
		next := ""
		for i := 0; i < n; i++ {
			next = "/Next " + d.add("<</S/URI/URI(", url(i), ")", next, ">>")
		}
	case 3: // actions that follow one another, one in the other
		text := ""
		for i := 0; i < n; i++ {
			text = "<</S/URI/URI(" + url(i) + ")" + []string{"/Next ", "/Next["}[i&1] + text + []string{" ", "]"}[i&1] + ">>"
		}
		d.add("<</A ", text, ">>")
	case 4: // elements
		text := ""
		for i := 0; i < n; i++ {
			text += "<</A<</URI(" + url(i) + ")>>>>"
		}
		d.add("[", text, "]")
	case 5: // deep in arrays
		text := "<</URI(" + url(0) + ")>>"
		for i := 0; i < n; i++ {
			text = "[" + text + "]"
		}
		d.add(text)
		urls[0] = string(cat(pad10(0), ":-"))
	case 6: // names
		text := ""
		for i := 0; i < n; i++ {
			text += "(" + url(i) + ")0 "
		}
		d.add("<</URLS<</Names[", text, "]>>>>")
	}
	out := run(d.bytes())
	Assert(sameLines(out["urls.txt"], 11, urls), "urls.txt differs")
	Assert(out["javascript.js"] == "" && out["commands.txt"] == "" && out["files.txt"] == "", "something else is extracted")
	Cover("extracted")
}

// C21_huge extracts very long strings.
func C21_huge() {
	n := huge[Choose(Bound("C21.huge", 9, len(huge)))]
	x := bulk(n, capitals)
	d := &document{}
	var want expected
	switch Choose(4) {
	case 0:
		d.add("<</URI(", x, ")>>")
		want.urls = []string{string(x)}
	case 1:
		d.add("<</JS(", x, ")>>")
		want.scripts = []string{string(x)}
	case 2:
		d.add("<</JS ", d.add(plainStream(x)), ">>")
		want.scripts = []string{string(x)}
	case 3:
		d.add("<</A<</S/Launch/F(", x, ")>>>>")
		want.files = []string{external(string(x))}
		want.commands = []string{string(x)}
	}
	want.check(run(d.bytes()))
	Cover("extracted")
}
