package verifh

import (
	"bytes"

	"github.com/KarmaPenny/pdfparser/pdf"
	. "github.com/KarmaPenny/pdfparser/verifsym"
)

// what a section says about an object
const (
	unmentioned = iota
	inUse
	freed
	compressed
)

type mention struct {
	kind int
	off  int // set by layout
	gen  int
	body []byte // the object's copy of this revision
}

// revision is one cross-reference section with the copies of objects it refers to.
type revision struct {
	stream  bool
	number  int // of the stream
	self    bool
	widths  [3]int
	objects []mention // of objects 1, 2, ...
	extra   string    // trailer entries
	at      int
	header  int
	alone   bool // without a Prev
}

func (r *revision) runs() [][2]int {
	var runs [][2]int
	for i := 0; i < len(r.objects); i++ {
		if r.objects[i].kind == unmentioned {
			continue
		}
		if i > 0 && r.objects[i-1].kind != unmentioned {
			runs[len(runs)-1][1]++
		} else {
			runs = append(runs, [2]int{i + 1, 1})
		}
	}
	return runs
}

func bigEndian(v, width int) []byte {
	out := make([]byte, width)
	for i := width - 1; i >= 0; i-- {
		out[i] = byte(v)
		v >>= 8
	}
	return out
}

func (r *revision) section(at int, prev *revision) []byte {
	trailer := cat("/Size 20", r.extra)
	if prev != nil && !r.alone {
		trailer = cat(trailer, "/Prev ", pad10(prev.at))
	}
	if !r.stream {
		out := []byte("xref\n")
		for _, run := range r.runs() {
			out = cat(out, decimal(run[0]), " ", decimal(run[1]), "\n")
			for n := run[0]; n < run[0]+run[1]; n++ {
				m := r.objects[n-1]
				if m.kind == inUse {
					out = cat(out, pad10(m.off), " ", pad10(m.gen)[5:], " n \n")
				} else {
					out = cat(out, pad10(0), " 65535 f \n")
				}
			}
		}
		return cat(out, "trailer\n<<", trailer, ">>\n")
	}
	var index, data []byte
	put := func(kind, off, gen int) {
		if r.widths[0] > 0 {
			data = cat(data, bigEndian(kind, r.widths[0]))
		}
		data = cat(data, bigEndian(off, r.widths[1]), bigEndian(gen, r.widths[2]))
	}
	for _, run := range r.runs() {
		index = cat(index, " ", decimal(run[0]), " ", decimal(run[1]))
		for n := run[0]; n < run[0]+run[1]; n++ {
			m := r.objects[n-1]
			switch m.kind {
			case inUse:
				put(1, m.off, m.gen)
			case freed:
				put(0, 0, 0)
			default:
				put(2, 7, 1)
			}
		}
	}
	if r.self {
		index = cat(index, " ", decimal(r.number), " 1")
		put(1, at, 0)
	}
	return cat(decimal(r.number), " 0 obj\n<</Type/XRef/Index[", index, "]/W[", decimal(r.widths[0]), " ", decimal(r.widths[1]), " ", decimal(r.widths[2]), "]", trailer,
		"/Filter/ASCIIHexDecode/Length 99>>\nstream\r\n", encHex(data), "\r\nendstream\nendobj\n")
}

// write lays out revisions (oldest first) in the given physical order.
func write(revisions []*revision, order []int) []byte {
	var data []byte
	// the first pass finds out the offsets, the second uses them
	for pass := 0; pass < 2; pass++ {
		data = []byte("%PDF-1.5\n")
		for _, i := range order {
			data = cat(data, chapter(revisions, i, len(data)))
		}
	}
	return cat(data, "startxref\n", pad10(revisions[len(revisions)-1].at), "\n%%EOF\n")
}

// chapter is one revision, placed at an offset.
func chapter(revisions []*revision, i, at int) []byte {
	r := revisions[i]
	var data []byte
	for n := range r.objects {
		m := &r.objects[n]
		if m.kind == inUse {
			m.off = at + len(data)
			data = cat(data, decimal(n+1), " ", decimal(m.gen), " obj\n", m.body, "\nendobj\n")
		}
	}
	r.at = at + len(data)
	var prev *revision
	if i > 0 {
		prev = revisions[i-1]
	}
	return cat(data, r.section(r.at, prev))
}

// C17_updates reads documents whose revisions follow one another, each with an end of its own. The
// last one counts, be it the newest or not.
func C17_updates() {
	k := 1 + Choose(Bound("updates", 3, 3))
	var revisions []*revision
	gap, eol := "", "\n"
	if k < 3 {
		gap = []string{"", "\n", "%more\n"}[Choose(3)]
		eol = []string{"\n", "\r\n", "\r", " \n"}[Choose(4)]
	}
	for i := 0; i < k; i++ {
		r := &revision{}
		if Choose(2) == 0 {
			r.stream, r.self, r.widths, r.number = true, true, [3]int{1, 2, 1}, 10+i
		}
		m := mention{kind: Choose(3)}
		if m.kind == inUse {
			m.body, m.gen = cat("(", digits(1), ")"), i
		}
		r.objects = []mention{m}
		revisions = append(revisions, r)
	}
	order := permutation(k)
	var data []byte
	for pass := 0; pass < 2; pass++ {
		data = []byte("%PDF-1.5\n")
		for _, i := range order {
			data = cat(data, chapter(revisions, i, len(data)))
			at := revisions[i].at
			if i == order[k-1] {
				at = revisions[k-1].at
			}
			data = cat(data, "startxref", eol, pad10(at), eol, "%%EOF", eol, gap)
		}
	}
	p := open(data)
	Assert(p.Load("") == nil, "document does not load")
	checkHistory(p, revisions)
	Cover("loaded")
}

func permutation(n int) []int {
	var left, out []int
	for i := 0; i < n; i++ {
		left = append(left, i)
	}
	for len(left) > 0 {
		i := Choose(len(left))
		out = append(out, left[i])
		left = append(append([]int{}, left[:i]...), left[i+1:]...)
	}
	return out
}

// someKind chooses the form of a section.
func someKind(r *revision, i int) {
	switch Choose(3) {
	case 0:
		return
	case 1:
		r.stream, r.self, r.widths = true, true, [3]int{1, 2, 1}
		r.number = 9
	case 2:
		r.stream, r.self, r.widths = true, false, [3]int{1, 3, 2}
		r.number = 10 + i
	}
}

func checkHistory(p *pdf.Parser, revisions []*revision) {
	for n := 1; n <= len(revisions[0].objects); n++ {
		newest := mention{}
		for _, r := range revisions {
			if r.objects[n-1].kind != unmentioned {
				newest = r.objects[n-1]
			}
		}
		o := p.GetObject(n)
		entry, known := p.Xref[n]
		switch newest.kind {
		case unmentioned:
			Assert(!known, "an entry nobody made")
			fallthrough
		case freed, compressed:
			Assert(!known || entry.Type != pdf.XrefTypeIndirectObject, "free object is in use")
			Assert(o.Value == pdf.KEYWORD_NULL && o.Stream == nil, "free object has a value")
		case inUse:
			Assert(known && entry.Type == pdf.XrefTypeIndirectObject, "object in use is unknown")
			s, ok := o.Value.(pdf.String)
			Assert(ok, "object is not read from its place")
			Assert(string(s) == string(newest.body[1:len(newest.body)-1]), "object is not the newest one")
			Assert(o.Generation == newest.gen, "generation differs")
		}
	}
	last := map[int]*revision{}
	for _, r := range revisions {
		if r.stream {
			last[r.number] = r
		}
	}
	for n := range last {
		o := p.GetObject(n)
		_, ok := o.Value.(pdf.Dictionary)
		Assert(ok && o.Stream != nil, "cross-reference stream is not found")
	}
}

func someRevision(i, objects int) *revision {
	r := &revision{}
	someKind(r, i)
	for n := 0; n < objects; n++ {
		kinds := 3
		if r.stream {
			kinds = 4
		}
		m := mention{kind: Choose(kinds)}
		if m.kind == inUse {
			m.body = cat("(", digits(2), ")")
			m.gen = i
		}
		r.objects = append(r.objects, m)
	}
	return r
}

// C17_history reads objects of a document with updates; sections lie in the file in any order.
func C17_history() {
	k := Bound("sections", 2, 3)
	objects := Bound("objects", 2, 2)
	if k == 3 {
		objects = 1
	}
	var revisions []*revision
	for i := 0; i < k; i++ {
		revisions = append(revisions, someRevision(i, objects))
	}
	p := open(write(revisions, permutation(k)))
	Assert(p.Load("") == nil, "document does not load")
	checkHistory(p, revisions)
	Cover("loaded")
}

// C17_chain follows one object through many sections.
func C17_chain() {
	k := 3
	var revisions []*revision
	for i := 0; i < k; i++ {
		r := &revision{}
		if Choose(2) == 0 {
			r.stream, r.self, r.widths, r.number = true, i == 1, [3]int{1, 2, 1}, 10+i
		}
		m := mention{kind: Choose(3)}
		if m.kind == inUse {
			m.body = cat("(", digits(2), ")")
		}
		r.objects = []mention{m}
		revisions = append(revisions, r)
	}
	p := open(write(revisions, permutation(k)))
	Assert(p.Load("") == nil, "document does not load")
	checkHistory(p, revisions)
	Cover("loaded")
}

// C17_table reads a table with any offsets, generations and flags.
func C17_table() {
	eol := []string{" \n", " \r", "\r\n"}[Choose(3)]
	table := []byte("xref\n")
	type entry struct {
		off, gen []byte
		use      bool
	}
	want := map[int]entry{}
	start := 0
	for s := 0; s < 2; s++ {
		start += Choose(3)
		n := Choose(3)
		table = cat(table, decimal(start), " ", decimal(n), []string{"\n", " \r\n"}[s])
		for i := 0; i < n; i++ {
			e := entry{digits(10), digits(5), Choose(2) == 0}
			flag := "f"
			if e.use {
				flag = "n"
			}
			table = cat(table, e.off, " ", e.gen, " ", flag, eol)
			want[start+i] = e
		}
		start += n
	}
	data := cat("%PDF-1.4\n", table, "trailer", []string{"\n", " ", ""}[Choose(3)], "<</Size 9>>\nstartxref\n9\n%%EOF")
	p := open(data)
	Assert(p.Load("") == nil, "document does not load")
	Assert(len(p.Xref) == len(want), "number of entries differs")
	for n, e := range want {
		x, ok := p.Xref[n]
		Assert(ok, "entry missing")
		Assert((x.Type == pdf.XrefTypeIndirectObject) == e.use, "in-use flag differs")
		off := int64(0)
		for _, d := range e.off {
			off = off*10 + int64(d-'0')
		}
		gen := 0
		for _, d := range e.gen {
			gen = gen*10 + int(d-'0')
		}
		if e.use {
			Assert(x.Offset == off, "offset differs")
			Assert(x.Generation == gen, "generation differs")
		}
	}
	Cover("read")
}

// C17_stream reads a stream with any fields of any width.
func C17_stream() {
	w := [3]int{Choose(3), []int{1, 2, 3, 4, 8}[Choose(5)], Choose(3)}
	var index []byte
	var numbers []int
	switch Choose(4) {
	case 0: // default
		numbers = []int{0}
		index = []byte("/Size 1")
	case 1:
		numbers = []int{5}
		index = []byte("/Index[5 1]/Size 6")
	case 2:
		numbers = []int{3, 6}
		index = []byte("/Index[3 1 6 1]/Size 7")
	case 3:
		numbers = []int{0, 1}
		index = []byte("/Size 2")
	}
	w0, w1, w2 := w[0], w[1], w[2]
	data := Bytes(len(numbers) * (w0 + w1 + w2))
	high := Choose(len(data) + 1)
	for i, b := range data {
		// digits and keywords in the data may look like objects
		Assume((b < '0' || b > '9') && b != 'e' && b != 'x' && b != 's')
		Assume(i == high || b < 0x80)
	}
	file := cat("%PDF-1.5\n9 0 obj<</Type/XRef", index, "/W[", decimal(w0), " ", decimal(w1), " ", decimal(w2), "]/Length 9>>stream\n", data, "\r\nendstream endobj\nstartxref\n9\n%%EOF")
	p := open(file)
	Assert(p.Load("") == nil, "document does not load")
	Assert(len(p.Xref) == len(numbers)+1, "number of entries differs")
	for i, n := range numbers {
		x, ok := p.Xref[n]
		Assert(ok, "entry missing")
		f := data[i*(w0+w1+w2):]
		kind := int64(1)
		if w0 > 0 {
			kind = fieldValue(f[:w0])
		}
		Assert((x.Type == pdf.XrefTypeIndirectObject) == (kind == 1), "type differs")
		if kind == 1 {
			Assert(x.Offset == fieldValue(f[w0:w0+w1]), "offset differs")
			Assert(int64(x.Generation) == fieldValue(f[w0+w1:w0+w1+w2]), "generation differs")
		}
	}
	self, ok := p.Xref[9]
	Assert(ok && self.Type == pdf.XrefTypeIndirectObject && !self.IsEncrypted, "stream's own entry differs")
	Cover("read")
}

func fieldValue(b []byte) int64 {
	v := int64(0)
	for _, x := range b {
		v = v<<8 | int64(x)
	}
	return v
}

// C17_trailer opens a document whose sections differ in their encryption entries.
func C17_trailer() {
	s := newSealed(handler{v: 1, r: 2, bytes: 5}, "")
	good := string(s.trailer())
	bad := "/Encrypt<</Filter/Other>>"
	second := Choose(2)
	var revisions []*revision
	for i := 0; i < 2; i++ {
		r := &revision{objects: []mention{{kind: inUse, body: []byte("(" + "ab" + ")")}}}
		someKind(r, i)
		r.extra = good
		if i != second {
			r.extra = bad
		}
		revisions = append(revisions, r)
	}
	var data []byte
	if Choose(2) == 0 {
		data = write(revisions, permutation(2))
	} else {
		data = scanned(revisions, []int{0, 1}, nowhere())
	}
	p := open(data)
	err := p.Load("pw")
	if second == 1 {
		Assert(err == nil, "newest encryption dictionary is not used")
	} else {
		Assert(err == pdf.EncryptionUnsupported, "older encryption dictionary is used")
	}
	Cover("loaded")
}

// nowhere ends a document without a word of where its newest section is.
func nowhere() []byte {
	return []byte([]string{"", "startxref\n", "startxref\n99999999\n%%EOF\n", "startxref\n0\n%%EOF\n", "startxref\n99999999999999999999999\n%%EOF\n", "startxref\n-9\n%%EOF\n", "startxref\nx\n%%EOF\n"}[Choose(7)])
}

// scanned lays out revisions in the given order with an end of its own.
func scanned(revisions []*revision, order []int, end []byte) []byte {
	var data []byte
	for pass := 0; pass < 2; pass++ {
		data = []byte("%PDF-1.5\n90 4 obj\n<</W 7/Encrypt 7/F(first)>>\nendobj\n")
		for _, i := range order {
			data = cat(data, chapter(revisions, i, len(data)))
		}
	}
	return cat(data, end)
}

// C17_scan finds sections nothing points to. They apply in the order in which they are in the file,
// the one startxref points to after them.
func C17_scan() {
	k := 1 + Choose(Bound("scanned", 2, 3))
	var revisions []*revision
	for i := 0; i < k; i++ {
		r := &revision{alone: Choose(2) == 0}
		if Choose(2) == 0 {
			r.stream, r.self, r.widths, r.number = true, Choose(2) == 0, [3]int{1, 2, 1}, 10+i
		}
		for n := 0; n < 2; n++ {
			m := mention{kind: Choose(3 - n)}
			if m.kind == inUse {
				m.body, m.gen = cat("(", digits(1), ")"), i
			}
			r.objects = append(r.objects, m)
		}
		revisions = append(revisions, r)
	}
	order := make([]int, k)
	for i := range order {
		order[i] = i
	}
	var end []byte
	if Choose(2) == 0 {
		end = nowhere()
	} else {
		// the newest one comes first in the file
		for i := range order {
			order[i] = (i + k - 1) % k
		}
		scanned(revisions, order, nil)
		end = cat("startxref\n", decimal(revisions[k-1].at), "\n%%EOF\n", bytes.Repeat([]byte("\n"), []int{0, 17, 200}[Choose(3)]))
	}
	p := open(scanned(revisions, order, end))
	Assert(p.Load("") == nil, "document does not load")
	checkHistory(p, revisions)
	o := p.GetObject(90)
	equal(o.Value, pdf.Dictionary{"W": pdf.Number(7), "Encrypt": pdf.Number(7), "F": pdf.String("first")}, "first object")
	Assert(o.Generation == 4, "generation of the first object differs")
	Assert(p.Xref[90].IsEncrypted, "first object is taken for a section")
	Cover("loaded")
}

// C17_sections follows a long chain of sections. Every object is last mentioned somewhere in it.
func C17_sections() {
	k := []int{5, 17, 33, 64}[Choose(Bound("C17.sections", 2, 4))]
	forms := Choose(3)
	at := []int{0, k / 2, k - 2}[Choose(3)] // where object 1 is written the last time
	kind := 1 + Choose(2)
	var revisions []*revision
	for i := 0; i < k; i++ {
		r := &revision{objects: make([]mention, 3)}
		if forms == 1 || forms == 2 && i%2 == 0 {
			r.stream, r.self, r.widths, r.number = true, true, [3]int{1, 3, 1}, 10+i
		}
		if i <= at {
			r.objects[0] = mention{kind: inUse, body: []byte("(old)")}
		}
		if i == at {
			r.objects[0] = mention{kind: kind, body: cat("(", digits(2), ")"), gen: 7}
		}
		if i == k-1-at {
			r.objects[1] = mention{kind: inUse, body: cat("(", digits(1), ")"), gen: 2}
		}
		if i == k-1 {
			r.objects[2] = mention{kind: freed}
		} else {
			r.objects[2] = mention{kind: inUse, body: []byte("(was)")}
		}
		revisions = append(revisions, r)
	}
	order := make([]int, k)
	for i := range order {
		order[i] = i
	}
	if Choose(2) == 0 {
		for i := range order {
			order[i] = k - 1 - i
		}
	}
	p := open(write(revisions, order))
	Assert(p.Load("") == nil, "document does not load")
	checkHistory(p, revisions)
	Cover("loaded")
}

// C17_many has many entries in one section, in one subsection or in many, for numbers up to any
// size.
func C17_many() {
	n := []int{9, 10, 11, 99, 100, 127, 128, 255, 256, 257, 300, 1000, 1025}[Choose(Bound("C17.many", 11, 13))]
	step := []int{1, 2, 0}[Choose(3)] // a run, every second number, two long runs
	first := []int{1, 250, 65530, 1 << 20}[Choose(4)]
	number := func(i int) int {
		if step == 0 {
			return first + i + i/(n/2)*5
		}
		return first + i*step
	}
	table := Choose(2) == 0
	offs := map[int]int{}
	// the offset of one entry is any beyond the end of the file
	a, b := cat("9", digits(1), "12345678"), []byte{0x7f, Byte(), 0x80, 0xff}
	mid := n / 2
	var out, index []byte
	head := cat("%PDF-1.5\n")
	put := func(i int) {
		if table {
			off := pad10(1000 + i)
			if i == mid {
				off = a
			}
			out = cat(out, off, " 00000 n \n")
			return
		}
		off := bigEndian(1000+i, 4)
		if i == mid {
			off = b
		}
		// two digits for each byte
		out = cat(out, "01", encHex(off)[:8], "00")
	}
	for i := 0; i < n; {
		j := i + 1
		for j < n && number(j) == number(j-1)+1 {
			j++
		}
		if table {
			out = cat(out, decimal(number(i)), " ", decimal(j-i), "\n")
		} else {
			index = cat(index, decimal(number(i)), " ", decimal(j-i), " ")
		}
		for ; i < j; i++ {
			put(i)
			offs[number(i)] = i
		}
	}
	var data []byte
	if table {
		data = cat(head, "xref\n", out, "trailer<</Size 9>>\nstartxref\n9\n%%EOF")
	} else {
		data = cat(head, "9 0 obj<</Type/XRef/W[1 4 1]/Filter/ASCIIHexDecode/Index[", index, "]/Size 9>>stream\n", out, ">\nendstream endobj\nstartxref\n9\n%%EOF")
	}
	p := open(data)
	Assert(p.Load("") == nil, "document does not load")
	want := n
	if _, ok := offs[9]; !ok && !table {
		want++
	}
	Assert(len(p.Xref) == want, "number of entries differs")
	for o, i := range offs {
		if o == 9 && !table {
			continue
		}
		x, ok := p.Xref[o]
		Assert(ok && x.Type == pdf.XrefTypeIndirectObject, "entry missing")
		v := int64(1000 + i)
		if i == mid {
			v = fieldValue(b)
			if table {
				v = 0
				for _, d := range a {
					v = v*10 + int64(d-'0')
				}
			}
		}
		Assert(x.Offset == v, "offset differs")
	}
	Cover("read")
}
