package verifh

import (
	"crypto/aes"
	"crypto/md5"
	"crypto/rc4"

	"github.com/KarmaPenny/pdfparser/pdf"
)

// the padding string of the standard security handler
var padding = []byte{
	0x28, 0xBF, 0x4E, 0x5E, 0x4E, 0x75, 0x8A, 0x41, 0x64, 0x00, 0x4E, 0x56, 0xFF, 0xFA, 0x01, 0x08,
	0x2E, 0x2E, 0x00, 0xB6, 0xD0, 0x68, 0x3E, 0x80, 0x2F, 0x0C, 0xA9, 0xFE, 0x64, 0x53, 0x69, 0x7A}

// handler holds the entries of an encryption dictionary.
type handler struct {
	v, r  int
	bytes int // key length
	o, id []byte
	p     int32
	plain bool // metadata is not encrypted
}

func rc4ed(key, data []byte) []byte {
	c, err := rc4.NewCipher(key)
	if err != nil {
		panic(err)
	}
	out := make([]byte, len(data))
	c.XORKeyStream(out, data)
	return out
}

// key is algorithm 2 of ISO 32000-1.
func (h handler) key(password []byte) []byte {
	pw := cat(password, padding)[:32]
	in := cat(pw, h.o, byte(h.p), byte(h.p>>8), byte(h.p>>16), byte(h.p>>24), h.id)
	if h.r >= 4 && h.plain {
		in = cat(in, "\xff\xff\xff\xff")
	}
	sum := md5.Sum(in)
	n := h.bytes
	if h.r == 2 {
		n = 5
	}
	k := append([]byte{}, sum[:n]...)
	if h.r >= 3 {
		for i := 0; i < 50; i++ {
			sum := md5.Sum(k)
			k = append([]byte{}, sum[:n]...)
		}
	}
	return k
}

// user is what algorithm 4 or 5 computes from a key; only this much of U is compared.
func (h handler) user(key []byte) []byte {
	if h.r == 2 {
		return rc4ed(key, padding)
	}
	sum := md5.Sum(cat(padding, h.id))
	u := sum[:]
	for i := 0; i < 20; i++ {
		k := append([]byte{}, key...)
		for j := range k {
			k[j] ^= byte(i)
		}
		u = rc4ed(k, u)
	}
	return u
}

func (h handler) trailer(u []byte) pdf.Dictionary {
	e := pdf.Dictionary{
		"Filter": pdf.Name("Standard"),
		"V":      pdf.Number(h.v),
		"R":      pdf.Number(h.r),
		"O":      pdf.String(h.o),
		"U":      pdf.String(u),
		"P":      pdf.Number(h.p),
	}
	if h.v != 1 {
		e["Length"] = pdf.Number(h.bytes * 8)
	}
	if h.plain {
		e["EncryptMetadata"] = pdf.KEYWORD_FALSE
	}
	return pdf.Dictionary{"Encrypt": e, "ID": pdf.Array{pdf.String(h.id), pdf.String("second")}}
}

// objectKey is algorithm 1.
func objectKey(key []byte, n, g int, aesv2 bool) []byte {
	in := cat(key, byte(n), byte(n>>8), byte(n>>16), byte(g), byte(g>>8))
	if aesv2 {
		in = cat(in, "sAlT")
	}
	sum := md5.Sum(in)
	return append([]byte{}, sum[:min(len(key)+5, 16)]...)
}

// cbc pads and encrypts data, behind its initialisation vector.
func cbc(key, iv, data []byte) []byte {
	c, err := aes.NewCipher(key)
	if err != nil {
		panic(err)
	}
	pad := 16 - len(data)%16
	data = append([]byte{}, data...)
	for i := 0; i < pad; i++ {
		data = append(data, byte(pad))
	}
	out := append([]byte{}, iv...)
	prev := iv
	for i := 0; i < len(data); i += 16 {
		x := make([]byte, 16)
		for j := range x {
			x[j] = data[i+j] ^ prev[j]
		}
		y := make([]byte, 16)
		c.Encrypt(y, x)
		out = append(out, y...)
		prev = y
	}
	return out
}
