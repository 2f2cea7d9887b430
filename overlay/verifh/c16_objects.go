package verifh

import (
	"bytes"
	"compress/zlib"

	"github.com/KarmaPenny/pdfparser/pdf"
	. "github.com/KarmaPenny/pdfparser/verifsym"
)

// load opens the document made with no secret contents, then exchanges it for the one with them.
func load(make func(holes bool) []byte) *pdf.Parser {
	r := &swapped{bytes.NewReader(make(false))}
	p := pdf.NewParser(r, nil)
	if err := p.Load("pw"); err != nil {
		Assert(false, "document does not open")
		panic(Skip{})
	}
	r.set(make(true))
	return p
}

var someNumbers = []int{1, 2, 255, 256, 257, 4660, 65535, 65536, 66051, 1048577, 8388607}
var someGenerations = []int{0, 1, 255, 256, 4660, 65535}

var keyed = []handler{{v: 1, r: 2, bytes: 5}, {v: 1, r: 3, bytes: 5}, {v: 2, r: 3, bytes: 10}, {v: 2, r: 3, bytes: 16}, {v: 4, r: 4, bytes: 16}, {v: 4, r: 4, bytes: 16, plain: true}}

// raw is encrypted data that may stand in a stream as it is.
func raw(holes bool, d []byte) []byte {
	if holes {
		for _, b := range d {
			Assume(b != 'e')
		}
	}
	return d
}

// secret is the secret or, while the document is opened, as much other text.
func secret(holes bool, s []byte) []byte {
	if holes {
		return s
	}
	return make([]byte, len(s))
}

// C16_key decrypts a string and a stream of an object of any number and generation.
func C16_key() {
	h := keyed[Choose(len(keyed))]
	extra := ""
	cipher := cipherRC4
	if h.v == 4 {
		if Choose(2) == 0 {
			cipher = cipherAES
			extra = "/CF<</StdCF<</CFM/AESV2/Length 16/AuthEvent/DocOpen>>>>/StmF/StdCF/StrF/StdCF"
		} else {
			extra = "/CF<</StdCF<</CFM/V2/Length 16>>>>/StmF/StdCF/StrF/StdCF"
		}
	}
	s := newSealed(h, extra)
	n := someNumbers[Choose(len(someNumbers))]
	g := someGenerations[Choose(len(someGenerations))]
	a, b := Bytes(2), Bytes(3)
	p := load(func(holes bool) []byte {
		str := s.encrypt(cipher, n, g, secret(holes, a))
		stm := raw(holes, s.encrypt(cipher, n, g, encHex(secret(holes, b))))
		return lay(s.trailer(), numbered{n, g, cat("<</S<", encHex(str), "/Filter/ASCIIHexDecode>>stream\r\n", stm, "\r\nendstream")})
	})
	if cipher == cipherNone {
		panic(Skip{})
	}
	o := p.GetObject(n)
	d, _ := o.Value.(pdf.Dictionary)
	equal(d["S"], pdf.String(a), "string of an object")
	Assert(same(o.Stream, b), "stream of an object is not decrypted")
	Assert(o.Number == n && o.Generation == g, "number of an object")
	Cover("decrypted")
}

// C16_nested decrypts strings wherever they are, however they are written.
func C16_nested() {
	h := keyed[[]int{0, 3, 4}[Choose(3)]]
	cipher, extra := cipherRC4, ""
	if h.v == 4 {
		cipher, extra = cipherAES, "/CF<</StdCF<</CFM/AESV2/Length 16>>>>/StmF/StdCF/StrF/StdCF"
	}
	s := newSealed(h, extra)
	a := Bytes(Choose(3))
	octal := cipher == cipherRC4 && Choose(2) == 0
	shape := Choose(5)
	p := load(func(holes bool) []byte {
		enc := s.encrypt(cipher, 3, 0, secret(holes, a))
		str := cat("<", encHex(enc))
		if octal {
			str = []byte{'('}
			for _, b := range enc {
				str = append(str, '\\', '0'+b>>6, '0'+b>>3&7, '0'+b&7)
			}
			str = append(str, ')')
		}
		var body []byte
		switch shape {
		case 0:
			body = str
		case 1:
			body = cat("[1 ", str, "[", str, "]]")
		case 2:
			body = cat("<</K ", str, "/L<</M", str, ">>>>")
		case 3:
			body = cat("[<</K[", str, "]>>", str, "]")
		case 4:
			body = cat("<</K<</L[(", s.encrypt(cipherNone, 3, 0, nil), ")", str, "]>>>>")
			if cipher == cipherAES {
				body = cat("<</K<</L[0 ", str, "]>>>>")
			}
		}
		return lay(s.trailer(), numbered{3, 0, body}, numbered{4, 0, []byte("null")})
	})
	want := pdf.String(a)
	var full pdf.Object
	switch shape {
	case 0:
		full = want
	case 1:
		full = pdf.Array{pdf.Number(1), want, pdf.Array{want}}
	case 2:
		full = pdf.Dictionary{"K": want, "L": pdf.Dictionary{"M": want}}
	case 3:
		full = pdf.Array{pdf.Dictionary{"K": pdf.Array{want}}, want}
	case 4:
		full = pdf.Dictionary{"K": pdf.Dictionary{"L": pdf.Array{pdf.String(""), want}}}
		if cipher == cipherAES {
			full = pdf.Dictionary{"K": pdf.Dictionary{"L": pdf.Array{pdf.Number(0), want}}}
		}
	}
	equal(p.GetObject(3).Value, full, "strings of an object")
	// by reference from another object the key is still that of the object
	equal(pdf.NewReference(p, 3, 0).Resolve(), full, "strings by reference")
	Cover("decrypted")
}

// C16_select chooses ciphers in all ways of version 4.
func C16_select() {
	type named struct {
		name   string
		cipher int
	}
	all := []named{{"", cipherNone}, {"Identity", cipherNone}, {"StdCF", cipherAES}, {"Other", cipherRC4}, {"Zero", cipherNone}}
	stm, str, eff := all[Choose(5)], all[Choose(5)], all[Choose(5)]
	kind := Choose(8)
	extra := "/CF "
	cf := "<</StdCF<</CFM/AESV2" + []string{"", "/Length 16", "/Length 128"}[Choose(3)] + ">>/Other<</Length 16/CFM/V2>>/Zero<</CFM/None>>>>"
	refs := Choose(3)
	switch refs {
	case 0:
		extra += cf
	case 1:
		extra += "8 0 R"
	case 2:
		cf = "<</StdCF 9 0 R/Other 10 0 R/Zero<</CFM/None>>>>"
		extra += cf
	}
	for _, f := range []struct {
		key string
		n   named
	}{{"/StmF/", stm}, {"/StrF/", str}, {"/EFF/", eff}} {
		if f.n.name != "" {
			extra += f.key + f.n.name
		}
	}
	s := newSealed(handler{v: 4, r: 4, bytes: 16}, extra)
	a, b := Bytes(1), Bytes(2)
	entries := ""
	cipher := stm.cipher
	file := eff.cipher
	if eff.name == "" {
		file = stm.cipher
	}
	filters, parms := "/ASCIIHexDecode", ""
	crypt := func(parms2 string) {
		filters, parms = "[/Crypt/ASCIIHexDecode]", "["+parms2+" null]"
	}
	switch kind {
	case 0:
	case 1:
		entries, cipher = "/Type/EmbeddedFile", file
	case 2:
		entries = "/Type/XObject"
	case 3:
		cipher = cipherNone
		crypt("<</Name/Identity>>")
	case 4:
		cipher = cipherAES
		crypt("<</Type/CryptFilterDecodeParms/Name/StdCF>>")
	case 5:
		cipher = cipherRC4
		crypt("<</Name/Other>>")
	case 6:
		cipher = cipherNone
		crypt("null")
	case 7:
		entries, cipher = "/Type/EmbeddedFile", cipherRC4
		crypt("<</Name/Other>>")
	}
	if parms != "" {
		entries += "/DecodeParms" + parms
	}
	p := load(func(holes bool) []byte {
		e1 := s.encrypt(str.cipher, 5, 0, secret(holes, a))
		e2 := raw(holes, s.encrypt(cipher, 5, 0, encHex(secret(holes, b))))
		objs := []numbered{{5, 0, cat("<<", entries, "/S<", encHex(e1), "/Filter", filters, ">>stream\n", e2, "\r\nendstream")}}
		switch refs {
		case 1:
			objs = append(objs, numbered{8, 0, []byte(cf)})
		case 2:
			objs = append(objs, numbered{9, 0, []byte("<</CFM/AESV2>>")}, numbered{10, 0, []byte("<</CFM/V2/Length 16>>")})
		}
		return lay(s.trailer(), objs...)
	})
	o := p.GetObject(5)
	d, _ := o.Value.(pdf.Dictionary)
	equal(d["S"], pdf.String(a), "string of an object")
	Assert(same(o.Stream, b), "stream of an object is not decrypted")
	Cover("decrypted")
}

// C16_crypt uses the Crypt filter in documents without crypt filters.
func C16_crypt() {
	s := newSealed(keyed[Choose(4)], "")
	a := Bytes(2)
	parms := []string{"", "/DecodeParms<</Name/Identity>>", "/DecodeParms[<</Name/Identity>>]"}[Choose(3)]
	filter := []string{"/Crypt", "[/Crypt]"}[Choose(2)]
	p := load(func(holes bool) []byte {
		return lay(s.trailer(), numbered{5, 0, cat("<</Filter", filter, parms, ">>stream\n", raw(holes, secret(holes, a)), "\r\nendstream")})
	})
	Assert(same(p.GetObject(5).Stream, a), "stream with its own crypt filter")
	Cover("decrypted")
}

// C16_aes decrypts AES data of any length.
func C16_aes() {
	s := newSealed(handler{v: 4, r: 4, bytes: 16}, "/CF<</StdCF<</CFM/AESV2>>>>/StmF/StdCF/StrF/StdCF")
	n := []int{0, 1, 2, 14, 15, 16, 17, 31, 32, 33, 47, 48, 64, 100}[Choose(14)]
	a := Bytes(n)
	p := load(func(holes bool) []byte {
		e := s.encrypt(cipherAES, 5, 0, secret(holes, a))
		return lay(s.trailer(), numbered{5, 0, cat("<</S<", encHex(e), ">>stream\n", raw(holes, e), "\r\nendstream")})
	})
	o := p.GetObject(5)
	d, _ := o.Value.(pdf.Dictionary)
	equal(d["S"], pdf.String(a), "string of an object")
	Assert(same(o.Stream, a), "stream of an object is not decrypted")
	Cover("decrypted")
}

// C16_never decrypts no string of the encryption dictionary and no cross-reference stream.
func C16_never() {
	h := keyed[Choose(4)]
	s := newSealed(h, "/X<4142>")
	// the cross-reference stream of this document is object 3
	data := []byte("%PDF-1.5\n")
	at1 := len(data)
	str := s.encrypt(cipherRC4, 1, 0, []byte("text"))
	data = cat(data, "1 0 obj\n<</S<", encHex(str), ">>\nendobj\n")
	at2 := len(data)
	data = cat(data, "2 0 obj\n", s.dict(), "\nendobj\n")
	at3 := len(data)
	row := func(t, a int) []byte { return []byte{byte(t), byte(a >> 8), byte(a), 0} }
	table := cat(row(0, 0), row(1, at1), row(1, at2))
	self := Choose(2) == 0
	size := 3
	if self {
		table = cat(table, row(1, at3))
		size = 4
	}
	prefix := []string{"", " ", "\n"}[Choose(3)]
	data = cat(data, prefix, "3 0 obj\n<</Type/XRef/W[1 2 1]/Size ", decimal(size), "/Root 1 0 R/Encrypt 2 0 R/ID[<", encHex(s.id), "<5051>]/Y<6162>/Filter/ASCIIHexDecode>>stream\n", encHex(table), "\nendstream\nendobj\nstartxref\n", decimal(at3), "\n%%EOF\n")
	p := open(data)
	if err := p.Load("pw"); err != nil {
		Assert(false, "document does not open")
		return
	}
	d, _ := p.GetObject(1).Value.(pdf.Dictionary)
	equal(d["S"], pdf.String("text"), "string of an object")
	d, _ = p.GetObject(2).Value.(pdf.Dictionary)
	equal(d["X"], pdf.String("AB"), "string of the encryption dictionary")
	o := p.GetObject(3)
	d, _ = o.Value.(pdf.Dictionary)
	equal(d["Y"], pdf.String("ab"), "string of the cross-reference stream")
	Assert(same(o.Stream, table), "cross-reference stream is decrypted")
	Cover("decrypted")
}

// zipped is zlib data that holds b as it is.
func zipped(b []byte) []byte {
	var z bytes.Buffer
	w, _ := zlib.NewWriterLevel(&z, 0)
	w.Write(b)
	w.Close()
	return z.Bytes()
}

// C16_chain has filters with parameters after a Crypt filter.
func C16_chain() {
	s := newSealed(handler{v: 4, r: 4, bytes: 16}, "/CF<</A<</CFM/AESV2/Length 16>>/R<</CFM/V2/Length 16>>>>/StmF/"+[]string{"A", "R", "Identity"}[Choose(3)])
	text := []byte("<41>4x")
	rows := cat(byte(2), text[:3], byte(2), byte(0), byte(0), byte(0))
	flat := cat(text[:3], text[:3])
	row := "<</Predictor 12/Columns 3>>"
	name, cipher := "R", cipherRC4
	switch Choose(3) {
	case 1:
		name, cipher = "A", cipherAES
	case 2:
		name, cipher = "Identity", cipherNone
	}
	own := "<</Name/" + name + ">>"
	var filters, parms string
	var data, want []byte
	switch Choose(8) {
	case 0:
		filters, parms, data, want = "[/Crypt/FlateDecode]", "["+own+row+"]", zipped(rows), flat
	case 1:
		filters, parms, data, want = "[/Crypt/FlateDecode]", "["+own+" null]", zipped(rows), rows
	case 2:
		filters, parms, data, want = "[/Crypt/FlateDecode]", "["+own+"]", zipped(rows), rows
	case 3:
		filters, parms, data, want = "[/Crypt/ASCIIHexDecode/FlateDecode]", "["+own+" null "+row+"]", encHex(zipped(rows)), flat
	case 4:
		filters, parms, data, want = "[/Crypt/ASCIIHexDecode/FlateDecode]", "["+own+row+"]", encHex(zipped(rows)), rows
	case 5:
		filters, parms, data, want = "[/Crypt/FlateDecode/ASCIIHexDecode]", "["+own+row+" null]", zipped(cat(byte(2), "414", byte(2), byte(0xff), byte(1), byte(0x0a))), []byte("AC ")
	case 6:
		filters, parms, data, want = "[/Crypt]", "["+own+"]", text, text
	case 7:
		filters, parms, data, want = "[/Crypt/Crypt]", "["+own+own+"]", text, text
	}
	p := load(func(holes bool) []byte {
		return lay(s.trailer(), numbered{5, 0, cat("<</Filter", filters, "/DecodeParms", parms, ">>stream\n", s.encrypt(cipher, 5, 0, data), "\r\nendstream")})
	})
	Assert(same(p.GetObject(5).Stream, want), "stream with filters after its crypt filter")
	Cover("decrypted")
}

// C16_huge decrypts long strings and streams.
func C16_huge() {
	aes := Choose(2) == 0
	extra, cipher := "", cipherRC4
	h := handler{v: 2, r: 3, bytes: 16}
	if aes {
		h.v, h.r, cipher = 4, 4, cipherAES
		extra = "/CF<</StdCF<</CFM/AESV2>>>>/StmF/StdCF/StrF/StdCF"
	}
	s := newSealed(h, extra)
	n := []int{255, 256, 257, 1023, 4079, 4095, 4096, 4097, 8191, 65535, 65536, 65537}[Choose(Bound("C16.huge", 9, 12))]
	a := make([]byte, n)
	for i := range a {
		a[i] = byte(i + i>>8)
	}
	a[0], a[n/2], a[n-1] = Byte(), Byte(), Byte()
	p := load(func(holes bool) []byte {
		e := encHex(s.encrypt(cipher, 5, 0, secret(holes, a)))
		f := s.encrypt(cipher, 6, 0, encHex([]byte("small")))
		return lay(s.trailer(), numbered{5, 0, cat("<", e)}, numbered{6, 0, cat("<</Filter/ASCIIHexDecode>>stream\r\n", f, "\r\nendstream")})
	})
	equal(p.GetObject(5).Value, pdf.String(a), "string of an object")
	Assert(same(p.GetObject(6).Stream, []byte("small")), "stream of an object is not decrypted")
	Cover("decrypted")
}
