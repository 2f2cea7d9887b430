package verifh

import (
	"os"

	"github.com/KarmaPenny/pdfparser/pdf"
	. "github.com/KarmaPenny/pdfparser/verifsym"
)

func someHandler() handler {
	h := handler{v: 1, r: 2, bytes: 5}
	switch Choose(4) {
	case 1:
		h.r = 3
	case 2:
		h = handler{v: 2, r: 3, bytes: 5 + Choose(12)}
	case 3:
		h = handler{v: 4, r: 4, bytes: 16}
	}
	// only revision 4 takes notice of it
	h.plain = Choose(2) == 0
	return h
}

func try(password []byte, trailer pdf.Dictionary) error {
	return pdf.NewSecurityHandler().Init(append([]byte{}, password...), trailer)
}

// C15_password opens a document with any password, owner entry, permissions, identifier and
// user entry.
func C15_password() {
	h := someHandler()
	h.o = Bytes(32)
	h.id = Bytes([]int{16, 0, 1}[Choose(3)])
	h.p = int32(uint32(Byte())<<24|uint32(Byte())<<16) | int32(Byte())<<8 | int32(Byte())
	u := Bytes(32)
	pw := Bytes([]int{0, 1, 2, 7, 31, 32, 33, 40}[Choose(8)])
	err := try(pw, h.trailer(u))
	want := h.user(h.key(pw))
	ok := same(want, u[:len(want)])
	Assert(err == nil || err == pdf.EncryptionPasswordError, "another error")
	Assert((err == nil) == ok, "password is not judged by the stored user entry")
	Cover("judged")
}

// C15_bits changes single bits of the user entry.
func C15_bits() {
	h := someHandler()
	h.o = padding
	h.id = []byte("0123456789abcdef")
	h.p = -44
	pw := []byte("secret")
	u := h.user(h.key(pw))
	n := len(u)
	for len(u) < 32 {
		u = append(u, 0)
	}
	i, bit := Choose(32), Byte()
	u[i] ^= bit
	err := try(pw, h.trailer(u))
	Assert((err == nil) == (i >= n || bit == 0), "password is not judged by the stored user entry")
	Cover("judged")
}

// C15_long ignores what follows the first 32 bytes of a password.
func C15_long() {
	h := someHandler()
	h.o = padding
	h.id = []byte("0123456789abcdef")
	h.p = -1
	pw := Bytes(32)
	u := h.user(h.key(pw))
	for len(u) < 32 {
		u = append(u, 0)
	}
	more := []int{0, 1, 2, 3, 15, 16, 31, 32, 33, 64, 95, 96, 97, 127, 128, 223, 224, 225, 480, 1000}
	long := cat(pw, Bytes(more[Choose(len(more))]))
	Assert(try(long, h.trailer(u)) == nil, "the end of a long password counts")
	Cover("judged")
}

// C15_padding takes a password for the same as its padded form.
func C15_padding() {
	h := someHandler()
	h.o = padding
	h.id = []byte("0123456789abcdef")
	h.p = -1
	pw := Bytes(Choose(5))
	u := h.user(h.key(cat(pw, padding)[:32]))
	for len(u) < 32 {
		u = append(u, 0)
	}
	Assert(try(pw, h.trailer(u)) == nil, "password is not padded")
	Cover("judged")
}

// C15_forms gives permissions as an unsigned number and short user entries.
func C15_forms() {
	h := someHandler()
	h.o = padding
	h.id = []byte("0123456789abcdef")
	h.p = -int32(Byte()) - 1
	pw := []byte("pw")
	u := h.user(h.key(pw))
	n := Choose(33)
	if h.r == 2 {
		n = 32 - Choose(2)
	}
	for len(u) < 32 {
		u = append(u, 0)
	}
	t := h.trailer(u[:n])
	if Choose(2) == 0 {
		t["Encrypt"].(pdf.Dictionary)["P"] = pdf.Number(uint32(h.p))
	}
	err := try(pw, t)
	if h.r == 2 && n < 32 || n < 16 {
		Assert(err != nil, "document opens without its user entry")
	} else {
		Assert(err == nil, "document does not open")
	}
	Cover("judged")
}

// C15_missing leaves out or spoils one entry.
func C15_missing() {
	h := someHandler()
	h.o = padding
	h.id = []byte("0123456789abcdef")
	h.p = -1
	pw := []byte("pw")
	u := h.user(h.key(pw))
	for len(u) < 32 {
		u = append(u, 0)
	}
	t := h.trailer(u)
	e := t["Encrypt"].(pdf.Dictionary)
	var want error
	wrong := func() pdf.Object {
		switch Choose(3) {
		case 0:
			return pdf.KEYWORD_NULL
		case 1:
			return pdf.KEYWORD_TRUE
		}
		return pdf.Array{}
	}
	spoil := func(d pdf.Dictionary, key string) {
		if Choose(2) == 0 {
			delete(d, key)
		} else {
			d[key] = wrong()
		}
	}
	switch k := Choose(12); k {
	case 0:
		want = pdf.EncryptionError
		spoil(t, "Encrypt")
	case 1, 2, 3:
		want = pdf.EncryptionError
		spoil(e, []string{"O", "U", "P"}[k-1])
	case 4:
		want = pdf.EncryptionError
		spoil(t, "ID")
	case 5:
		want = pdf.EncryptionError
		t["ID"] = pdf.Array{}
	case 6:
		want = pdf.EncryptionError
		t["ID"] = pdf.Array{wrong(), pdf.String(h.id)}
	case 7:
		want = pdf.EncryptionUnsupported
		spoil(e, []string{"Filter", "V", "R"}[Choose(3)])
	case 8:
		want = pdf.EncryptionUnsupported
		n := Bytes(8)
		name := "Standard"
		Assume(string(n) != name)
		e["Filter"] = pdf.Name(n)
	case 9:
		want = pdf.EncryptionUnsupported
		v := Int(-10, 300)
		Assume(v != 1 && v != 2 && v != 4)
		e["V"] = pdf.Number(v)
	case 10:
		want = pdf.EncryptionUnsupported
		r := Int(-10, 300)
		Assume(r < 2 || r > 4)
		e["R"] = pdf.Number(r)
	case 11:
	}
	Assert(try(pw, t) == want, "wrong error")
	Cover("refused")
}

// C15_whole opens whole documents; with another password nothing comes out of them.
func C15_whole() {
	h := someHandler()
	h.o = padding
	h.id = []byte("0123456789abcdef")
	h.p = -44
	pw := []byte("k9")
	u := h.user(h.key(pw))
	for len(u) < 32 {
		u = append(u, 0)
	}
	enc := cat("<</Filter/Standard/V ", decimal(h.v), "/R ", decimal(h.r), "/P -44/O<", encHex(h.o), "/U<", encHex(u))
	if h.v != 1 {
		enc = cat(enc, "/Length ", decimal(8*h.bytes))
	}
	if h.plain {
		enc = cat(enc, "/EncryptMetadata false")
	}
	enc = cat(enc, ">>")
	key := h.key(pw)
	url := rc4ed(objectKey(key, 1, 0, false), []byte("http://a"))
	if h.v == 4 {
		url = []byte("http://a")
	}
	bodies := [][]byte{cat("<</URI<", encHex(url), ">>")}
	id := cat("[<", encHex(h.id), "<00>]")
	at := "/Encrypt "
	switch Choose(3) {
	case 0:
		at += string(enc)
	case 1:
		at += "2 0 R"
		bodies = append(bodies, enc)
	case 2:
		at += "2 0 R"
		bodies = append(bodies, enc, id)
		id = []byte("3 0 R")
	}
	data := file(cat(at, "/ID ", id), bodies...)
	given := pw
	right := Choose(2) == 0
	if !right {
		given = [][]byte{nil, []byte("k"), []byte("k99"), []byte("K9"), padding, []byte("9k")}[Choose(6)]
	}
	if err := os.WriteFile(Path("in.pdf"), data, 0o644); err != nil {
		panic(err)
	}
	err := pdf.Parse(Path("in.pdf"), string(given), Path("out"))
	urls, _ := os.ReadFile(Path("out/urls.txt"))
	if right {
		Assert(err == nil, "document does not open")
		Assert(string(urls) == "http://a\n", "document is not decrypted")
	} else {
		Assert(err == pdf.EncryptionPasswordError, "document opens with another password")
		for _, name := range outputs {
			b, err := os.ReadFile(Path("out/" + name))
			Assert(err == nil && len(b) == 0, "something is extracted without the password")
		}
	}
	Cover("judged")
}
