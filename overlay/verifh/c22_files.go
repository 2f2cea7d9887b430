package verifh

import (
	"crypto/md5"
	"encoding/hex"
	"os"

	"github.com/KarmaPenny/pdfparser/pdf"
	. "github.com/KarmaPenny/pdfparser/verifsym"
)

func sum(data []byte) string {
	h := md5.Sum(data)
	return hex.EncodeToString(h[:])
}

// count is the number of files in a directory.
func count(dir string) int {
	f, err := os.Open(Path(dir))
	if err != nil {
		return -1
	}
	names, _ := f.Readdirnames(-1)
	f.Close()
	return len(names)
}

// stored is an embedded file and the name it goes by.
type stored struct {
	name string
	data []byte
}

// deep is an output directory from which there are several levels to climb.
const deep = "a/b/out"

// dump extracts a document and checks that exactly the given files come out.
func dump(data []byte, files ...stored) {
	for i, f := range files {
		for _, g := range files[:i] {
			// no two contents have the same hash
			Assume(same(f.data, g.data) || sum(f.data) != sum(g.data))
		}
	}
	os.WriteFile(Path("in.pdf"), data, 0644)
	os.MkdirAll(Path("a/b"), 0755)
	os.WriteFile(Path("a/b/near"), []byte("near"), 0644)
	Assert(pdf.Parse(Path("in.pdf"), "", Path(deep)) == nil, "document is refused")
	var lines []string
	seen := map[string]bool{}
	for _, f := range files {
		h := sum(f.data)
		seen[h] = true
		lines = append(lines, h+":"+f.name)
		got, err := os.ReadFile(Path(deep + "/" + h))
		Assert(err == nil, "embedded file is not written under its hash")
		Assert(same(got, f.data), "embedded file's content differs")
	}
	manifest, _ := os.ReadFile(Path(deep + "/files.txt"))
	Assert(consists(string(manifest), lines...), "files.txt differs")
	for _, name := range outputs {
		seen[name] = true
		if name == "errors.txt" || name == "files.txt" || name == "raw.pdf" {
			continue
		}
		b, err := os.ReadFile(Path(deep + "/" + name))
		Assert(err == nil && len(b) == 0, "an output file is overwritten")
	}
	Assert(count(deep) == len(seen), "number of files in the output directory differs")
	for at, n := range map[string]int{"": 2, "a": 1, "a/b": 2} {
		Assert(count(at) == n, "a file is created outside of the output directory")
	}
	near, _ := os.ReadFile(Path("a/b/near"))
	Assert(string(near) == "near", "a file outside of the output directory is changed")
	Cover("dumped")
}

// stream adds an embedded file.
func (d *document) stream(data []byte, filter int) string {
	switch filter {
	case 0:
		return d.add("<</Type/EmbeddedFile>>stream\r\n", data, "\r\nendstream")
	case 1:
		return d.add("<</Filter/ASCIIHexDecode>>stream\r\n", encHex(data), "\r\nendstream")
	}
	return d.add(d.add("<</Filter[/ASCIIHexDecode/ASCIIHexDecode]>>stream\r\n", encHex(encHex(data)), "\r\nendstream"))
}

// embed puts an embedded file into the document.
func (d *document) embed(kind int, name []byte, data []byte, filter int) stored {
	ref := d.stream(data, filter)
	spec := "<</Type/Filespec/F(" + string(name) + ")/EF<</F " + ref + ">>>>"
	s := stored{string(name), data}
	switch kind {
	case 0:
		d.add("<</EmbeddedFiles<</Names[(k) ", spec, "]>>>>")
	case 1:
		d.add("<</Names<</EmbeddedFiles ", d.add("<</Kids[", d.add("<</Names[(k) ", d.add(spec), "]>>"), "]>>"), ">>>>")
	case 2:
		d.add("<</A<</S/GoToE/F ", spec, ">>>>")
	case 3:
		d.add("[<</AA<</E<</S/Launch/F ", d.add(spec), ">>>>>>]")
	case 4:
		d.add("<</AcroForm<</XFA ", ref, ">>>>")
		s.name = "form.xml"
	case 5:
		d.add("<</XFA[(preamble) ", ref, "]>>")
		s.name = "form.xml"
	case 6:
		d.add("<</XFA ", d.add("[(preamble) ", ref, "(postamble) ", d.add("<<>>stream\nend\nendstream"), "]"), ">>")
		s.name = "form.xml"
		s.data = cat(data, "end")
	case 7:
		d.add("<</EmbeddedFiles<</Names[(k)<</EF<</F ", ref, ">>>>]>>>>")
		s.name = zeroHash
	}
	return s
}

const embeddings = 8

// C22_content dumps files of any content.
func C22_content() {
	d := &document{}
	n := lengths[Choose(len(lengths))]
	x := make([]byte, n)
	for i := range x {
		x[i] = byte('A' + i%26)
	}
	if n > 0 {
		x[[]int{0, n / 2, n - 1}[Choose(3)]] = Byte()
	}
	dump2 := d.embed([]int{0, 4}[Choose(2)], []byte("n"), x, 1)
	dump(d.bytes(), dump2)
}

// C22_bytes dumps short files of arbitrary bytes.
func C22_bytes() {
	d := &document{}
	x := Bytes(Choose(Bound("bytes", 3, 5)))
	s := d.embed(Choose(embeddings), []byte("n"), x, 1+Choose(2))
	dump(d.bytes(), s)
}

// C22_raw dumps data that stands in the file as it is.
func C22_raw() {
	d := &document{}
	x := Bytes(2)
	for _, c := range x {
		Assume(c != 'e' && c != 'x' && c != 's' && !isDigit(c) && c < 0x80)
	}
	s := d.embed(Choose(embeddings), []byte("n"), x, 0)
	dump(d.bytes(), s)
}

var badNames = []string{"../near", "../../../in.pdf", "near", "../../up", "raw.pdf", "./urls.txt", "/urls.txt", "a/b/near", "C:\\\\x", "", ".", "..", "x/", "files.txt", "%s%n", "..\\\\near"}

// C22_names gives files names that look like paths.
func C22_names() {
	d := &document{}
	name := []byte(badNames[Choose(len(badNames))])
	s := d.embed([]int{0, 2, 3}[Choose(3)], name, []byte("data"), 0)
	if n := len(s.name); n > 3 && (s.name[2] == '\\') {
		// written with an escape
		s.name = map[string]string{"C:\\\\x": "C:\\x", "..\\\\near": "..\\near"}[s.name]
	}
	dump(d.bytes(), s)
}

// C22_anyname gives files any name.
func C22_anyname() {
	d := &document{}
	x := plainString(Bound("name", 3, 5))
	s := d.embed([]int{0, 2}[Choose(2)], x, []byte("data"), 0)
	dump(d.bytes(), s)
}

// C22_several dumps several files, some with the same content or name.
func C22_several() {
	d := &document{}
	x := digits(2)
	var files []stored
	for i := 0; i < 2; i++ {
		data := x[Choose(2):]
		name := []string{"one", "two"}[Choose(2)]
		files = append(files, d.embed([]int{0, 3, 4}[Choose(3)], []byte(name), data, i))
	}
	dump(d.bytes(), files...)
}

// C22_huge dumps large files.
func C22_huge() {
	d := &document{}
	n := huge[Choose(Bound("C22.huge", 8, 12))]
	x := bulk(n, capitals)
	kind := []int{0, 4, 6}[Choose(3)]
	dump(d.bytes2(kind, x))
}

func (d *document) bytes2(kind int, x []byte) ([]byte, stored) {
	s := d.embed(kind, []byte("n"), x, 0)
	return d.bytes(), s
}

// C22_form puts a form together from the streams of an array, wherever they stand in it.
func C22_form() {
	k := Choose(Bound("form", 4, 5) + 1)
	d := &document{}
	x := letters(1)
	list := []byte("[")
	var want []byte
	for i := 0; i < k; i++ {
		part := cat(decimal(i), x)
		switch Choose(6) {
		case 0:
			list = cat(list, d.stream(part, 0), " ")
			want = cat(want, part)
		case 1:
			list = cat(list, d.stream(part, 2), " ")
			want = cat(want, part)
		case 2:
			list = cat(list, "(", part, ")")
		case 3:
			list = cat(list, []string{"null ", "/N ", "7 ", "<</K 1>>", "[1]"}[i])
		case 4:
			list = cat(list, "99 0 R ")
		case 5:
			list = cat(list, d.add("<</K 1>>"), " ")
		}
	}
	list = cat(list, "]")
	if Choose(2) == 0 {
		d.add("<</XFA ", list, ">>")
	} else {
		d.add("<</XFA ", d.add(list), ">>")
	}
	dump(d.bytes(), stored{"form.xml", want})
}

// C22_parts puts a form together from any number of parts.
func C22_parts() {
	n := []int{1, 2, 3, 15, 16, 17, 64, 65, 100, 128, 129, 255, 256, 257, 300}[Choose(15)]
	d := &document{}
	x := letters(2)
	list := []byte("[")
	var want []byte
	for i := 0; i < n; i++ {
		part := cat("part", decimal(i))
		if i == n/2 {
			part = x
		}
		want = cat(want, part)
		list = cat(list, "(name)", d.stream(part, i&1))
	}
	d.add("<</XFA ", list, "]>>")
	dump(d.bytes(), stored{"form.xml", want})
}

// C22_many dumps very many files.
func C22_many() {
	n := []int{17, 65, 100, 129, 257, 300}[Choose(Bound("C22.many", 4, 6))]
	d := &document{}
	x := letters(1)
	var files []stored
	list := []byte("[")
	for i := 0; i < n; i++ {
		data := cat("content ", pad10(i))
		s := stored{string(pad10(i)) + "a", data}
		if i == n/2 {
			s.name = string(cat(pad10(i), x))
		}
		files = append(files, s)
		list = cat(list, "(k)<</F(", s.name, ")/EF<</F ", d.stream(data, 0), ">>>>")
	}
	d.add("<</EmbeddedFiles<</Names ", list, "]>>>>")
	out := run(d.bytes())
	// lines have the same length; which is which is known by the beginning of the name
	text := out["files.txt"]
	const width = 32 + 1 + 11 + 1
	Assert(len(text) == n*width, "files.txt differs")
	if len(text) != n*width {
		return
	}
	lines := map[string]string{}
	for i := 0; i < n; i++ {
		l := text[i*width : (i+1)*width]
		lines[l[33:43]] = l[:33] + l[43:]
	}
	for _, f := range files {
		h := sum(f.data)
		Assert(lines[f.name[:10]] == h+":"+f.name[10:]+"\n", "files.txt differs")
		got, ok := out[h]
		Assert(ok, "embedded file is not written under its hash")
		Assert(got == string(f.data), "embedded file's content differs")
	}
	Cover("dumped")
}
