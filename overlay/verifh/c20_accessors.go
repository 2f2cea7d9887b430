package verifh

import (
	"github.com/KarmaPenny/pdfparser/pdf"
	. "github.com/KarmaPenny/pdfparser/verifsym"
)

// holder reads one entry with every getter.
type holder struct {
	array      func() (pdf.Array, bool)
	boolean    func() (bool, bool)
	bytes      func() ([]byte, bool)
	dictionary func() (pdf.Dictionary, bool)
	integer    func() (int, bool)
	integer64  func() (int64, bool)
	name       func() (string, bool)
	number     func() (pdf.Number, bool)
	object     func() (pdf.Object, bool)
	stream     func() ([]byte, bool)
	str        func() (string, bool)
}

func inDictionary(d pdf.Dictionary, key string) holder {
	return holder{
		func() (pdf.Array, bool) { return d.GetArray(key) },
		func() (bool, bool) { return d.GetBool(key) },
		func() ([]byte, bool) { return d.GetBytes(key) },
		func() (pdf.Dictionary, bool) { return d.GetDictionary(key) },
		func() (int, bool) { return d.GetInt(key) },
		func() (int64, bool) { return d.GetInt64(key) },
		func() (string, bool) { return d.GetName(key) },
		func() (pdf.Number, bool) { return d.GetNumber(key) },
		func() (pdf.Object, bool) { return d.GetObject(key) },
		func() ([]byte, bool) { return d.GetStream(key) },
		func() (string, bool) { return d.GetString(key) },
	}
}

func inArray(a pdf.Array, i int) holder {
	return holder{
		func() (pdf.Array, bool) { return a.GetArray(i) },
		func() (bool, bool) { return a.GetBool(i) },
		func() ([]byte, bool) { return a.GetBytes(i) },
		func() (pdf.Dictionary, bool) { return a.GetDictionary(i) },
		func() (int, bool) { return a.GetInt(i) },
		func() (int64, bool) { return a.GetInt64(i) },
		func() (string, bool) { return a.GetName(i) },
		func() (pdf.Number, bool) { return a.GetNumber(i) },
		func() (pdf.Object, bool) { return a.GetObject(i) },
		func() ([]byte, bool) { return a.GetStream(i) },
		func() (string, bool) { return a.GetString(i) },
	}
}

// check asserts that every getter finds want (nil for nothing) and stream (nil for none).
func (h holder) check(want pdf.Object, stream []byte) {
	{
		v, ok := h.array()
		w, is := want.(pdf.Array)
		Assert(ok == is, "array getter's flag differs")
		if is {
			equal(v, w, "array")
		} else {
			Assert(len(v) == 0, "array of nothing")
		}
	}
	{
		v, ok := h.boolean()
		k, is := want.(pdf.Keyword)
		is = is && (k == "true" || k == "false")
		Assert(ok == is, "boolean getter's flag differs")
		Assert(v == (is && k == "true"), "boolean differs")
	}
	{
		v, ok := h.bytes()
		w, is := want.(pdf.String)
		Assert(ok == is, "bytes getter's flag differs")
		Assert(string(v) == string(w), "bytes differ")
	}
	{
		v, ok := h.str()
		w, is := want.(pdf.String)
		Assert(ok == is, "string getter's flag differs")
		Assert(v == string(w), "string differs")
	}
	{
		v, ok := h.dictionary()
		w, is := want.(pdf.Dictionary)
		Assert(ok == is, "dictionary getter's flag differs")
		if is {
			equal(v, w, "dictionary")
		} else {
			Assert(len(v) == 0, "dictionary of nothing")
		}
	}
	{
		w, is := want.(pdf.Number)
		v, ok := h.number()
		Assert(ok == is, "number getter's flag differs")
		Assert(v == w, "number differs")
		i, ok := h.integer()
		Assert(ok == is, "integer getter's flag differs")
		Assert(i == int(w), "integer differs")
		j, ok := h.integer64()
		Assert(ok == is, "long integer getter's flag differs")
		Assert(j == int64(w), "long integer differs")
	}
	{
		v, ok := h.name()
		w, is := want.(pdf.Name)
		Assert(ok == is, "name getter's flag differs")
		Assert(v == string(w), "name differs")
	}
	{
		v, ok := h.stream()
		Assert(ok == (stream != nil), "stream getter's flag differs")
		Assert(same(v, stream), "stream differs")
	}
	if want != nil {
		v, ok := h.object()
		Assert(ok, "object getter's flag differs")
		equal(v, want, "object")
	} else {
		v, _ := h.object()
		Assert(v == pdf.KEYWORD_NULL, "object of nothing")
	}
}

// someValue is any kind of value, as text and as object.
func someValue() ([]byte, pdf.Object) {
	switch Choose(11) {
	case 0:
		d := digits(1)
		return cat("[", d, "/N]"), pdf.Array{pdf.Number(d[0] - '0'), pdf.Name("N")}
	case 1:
		return []byte("[]"), pdf.Array{}
	case 2:
		return []byte("true"), pdf.KEYWORD_TRUE
	case 3:
		return []byte("false"), pdf.KEYWORD_FALSE
	case 4:
		return []byte("<</K/V>>"), pdf.Dictionary{"K": pdf.Name("V")}
	case 5:
		d := digits(3)
		v := int(d[0]-'0')*100 + int(d[1]-'0')*10 + int(d[2]-'0')
		if Choose(2) == 0 {
			return cat("-", d), pdf.Number(-v)
		}
		return d, pdf.Number(v)
	case 6:
		c := Byte()
		Assume(isRegular(c) && c != '#')
		return cat("/", c), pdf.Name(string([]byte{c}))
	case 7:
		b := Bytes(2)
		Assume(b[0] != '(' && b[0] != ')' && b[0] != '\\' && b[0] != '\r')
		Assume(b[1] != '(' && b[1] != ')' && b[1] != '\\' && b[1] != '\r')
		return cat("(", b, ")"), pdf.String(b)
	case 8:
		return []byte("()"), pdf.String("")
	case 9:
		return []byte("null"), nil
	}
	return []byte("<<>>"), pdf.Dictionary{}
}

// C20_getters asks for an entry of any kind, there directly or through references, or not there.
func C20_getters() {
	text, want := someValue()
	var stream []byte
	bodies := [][]byte{nil, nil, nil, nil}
	entry := text
	how := Choose(6)
	byReference := how > 0
	switch how {
	case 1: // through a reference
		entry = []byte("2 0 R")
		bodies[1] = text
	case 2: // through references
		entry = []byte("2 0 R")
		bodies[1] = []byte("3 0 R")
		bodies[2] = text
	case 3: // a stream
		x := digits(Choose(3))
		bodies[1] = cat("<</A 1>>stream\n", x, "\nendstream")
		want = pdf.Dictionary{"A": pdf.Number(1)}
		if len(x) == 0 {
			// nothing, or nothing that can be decoded
			f := []string{"ASCIIHexDecode", "ASCII85Decode", "RunLengthDecode", "LZWDecode", "FlateDecode", "DCTDecode"}[Choose(6)]
			bodies[1] = cat("<</Filter/", f, ">>stream\n\nendstream")
			want = pdf.Dictionary{"Filter": pdf.Name(f)}
		}
		entry = []byte("2 0 R")
		if Choose(2) == 0 {
			entry = []byte("3 0 R")
			bodies[2] = []byte("2 0 R")
		}
		stream = append([]byte{}, x...)
	case 4: // circular
		entry = []byte("2 0 R")
		bodies[1] = []byte("3 0 R")
		bodies[2] = []byte("2 0 R")
		want = nil
	case 5: // missing
		entry = []byte("9 0 R")
		want = nil
	}
	at := Choose(3)
	list := [][]byte{[]byte(" /p"), []byte(" 7"), []byte(" /z")}
	list[at] = cat(" ", entry)
	bodies[0] = cat("<</D<</Q/q/E ", entry, "/Z/z>>/L[", list[0], list[1], list[2], "]>>")
	p := objects(bodies...)
	o := p.GetObject(1)
	root, ok := o.Value.(pdf.Dictionary)
	Assert(ok, "root is not read")
	d, ok := root["D"].(pdf.Dictionary)
	Assert(ok, "dictionary is not read")
	l, ok := root["L"].(pdf.Array)
	Assert(ok && len(l) == 3, "array is not read")
	inDictionary(d, "E").check(want, stream)
	inArray(l, at).check(want, stream)
	r, ok := d.GetReference("E")
	Assert(ok == byReference, "reference getter's flag differs")
	Assert(ok == (r != nil), "reference differs")
	if ok {
		Assert(r.Number == int(entry[0]-'0') && r.Generation == 0, "reference differs")
	}
	Cover("asked")
}

// C20_numbers asks for numbers of any size.
func C20_numbers() {
	var v pdf.Number
	if Choose(2) == 0 {
		edges := []float64{0.5, -0.5, 1.99, -1.99, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 1<<31 - 1, 1 << 31, 1<<31 + 1, 1<<32 - 1, 1 << 32, 1<<40 + 7, 1<<53 - 1, 1 << 53, 1 << 62, 1e18, 2147483647.9}
		v = pdf.Number(edges[Choose(len(edges))])
		if Choose(2) == 0 {
			v = -v
		}
	} else {
		i := Int(-1<<48, 1<<48)
		v = pdf.Number(i)
	}
	d, a := pdf.Dictionary{"K": v}, pdf.Array{v, pdf.Number(1)}
	inDictionary(d, "K").check(v, nil)
	inArray(a, 0).check(v, nil)
	Cover("asked")
}

// C20_index asks an array for any index.
func C20_index() {
	n := Choose(3)
	x := digits(2)
	a := pdf.Array{}
	for i := 0; i < n; i++ {
		a = append(a, pdf.Number(x[i]-'0'))
	}
	b := Bytes(8)
	v := uint64(0)
	for _, c := range b {
		v = v<<8 | uint64(c)
	}
	i := int(v)
	var want pdf.Object
	if i >= 0 && i < n {
		want = pdf.Number(x[i] - '0')
	}
	inArray(a, i).check(want, nil)
	Cover("asked")
}

// C20_key asks a dictionary for any key.
func C20_key() {
	k := string(Bytes(Choose(3)))
	e := string(Bytes(Choose(3)))
	x := digits(2)
	d := pdf.Dictionary{}
	if Choose(2) == 0 {
		d[e] = pdf.Name(x[:1])
	}
	d["a"] = pdf.String(x)
	var want pdf.Object
	if v, ok := d[k]; ok {
		want = v
	}
	inDictionary(d, k).check(want, nil)
	_, ok := d.GetReference(k)
	Assert(!ok, "reference where there is none")
	Cover("asked")
}

// C20_long asks arrays and dictionaries of many entries.
func C20_long() {
	n := []int{100, 127, 128, 129, 255, 256, 257, 1025}[Choose(Bound("C20.long", 7, 8))]
	x := digits(1)
	a, d := pdf.Array{}, pdf.Dictionary{}
	mid := n / 2
	for i := 0; i < n; i++ {
		v := pdf.Number(1000 + i)
		if i == mid {
			v = pdf.Number(x[0] - '0')
		}
		a = append(a, v)
		d["k"+string(decimal(i))] = v
	}
	at := []int{0, mid, n - 1, n, -1, n - 256, n - 65536, n + 1<<32}[Choose(8)]
	var want pdf.Object
	if at >= 0 && at < n {
		want = a[at]
	}
	inArray(a, at).check(want, nil)
	inDictionary(d, "k"+string(decimal(at))).check(want, nil)
	Cover("asked")
}
