package verifh

import (
	"bytes"
	"io"
)

// swapped is a file whose data can be exchanged.
type swapped struct{ *bytes.Reader }

func (s *swapped) set(data []byte) { s.Reader = bytes.NewReader(data) }

var _ io.ReadSeeker = (*swapped)(nil)

// sealed is a document encrypted with a concrete key.
type sealed struct {
	handler
	extra string // entries of the encryption dictionary
	fkey  []byte
}

func newSealed(h handler, extra string) *sealed {
	h.o = padding
	h.id = []byte("0123456789abcdef")
	h.p = -44
	return &sealed{h, extra, h.key([]byte("pw"))}
}

func (s *sealed) dict() []byte {
	u := s.user(s.fkey)
	for len(u) < 32 {
		u = append(u, 0)
	}
	enc := cat("<</Filter/Standard/V ", decimal(s.v), "/R ", decimal(s.r), "/P -44/O<", encHex(s.o), "/U<", encHex(u), s.extra)
	if s.v != 1 {
		enc = cat(enc, "/Length ", decimal(8*s.bytes))
	}
	if s.plain {
		enc = cat(enc, "/EncryptMetadata false")
	}
	return cat(enc, ">>")
}

func (s *sealed) trailer() []byte {
	return cat("/Encrypt ", s.dict(), "/ID[<", encHex(s.id), "<00>]")
}

const (
	cipherNone = iota
	cipherRC4
	cipherAES
)

var iv = []byte("IVivIVivIVivIViv")

func (s *sealed) encrypt(cipher, n, g int, data []byte) []byte {
	switch cipher {
	case cipherRC4:
		return rc4ed(objectKey(s.fkey, n, g, false), data)
	case cipherAES:
		return cbc(objectKey(s.fkey, n, g, true), iv, data)
	}
	return data
}

type numbered struct {
	n, g int
	body []byte
}

// lay writes a document of numbered objects.
func lay(trailer []byte, objects ...numbered) []byte {
	data := []byte("%PDF-1.4\n")
	table := []byte("xref\n0 1\n0000000000 65535 f \n")
	size := 0
	for _, o := range objects {
		table = cat(table, decimal(o.n), " 1\n", pad10(len(data)), " ", pad10(o.g)[5:], " n \n")
		data = cat(data, decimal(o.n), " ", decimal(o.g), " obj\n", o.body, "\nendobj\n")
		size = max(size, o.n+1)
	}
	at := len(data)
	return cat(data, table, "trailer\n<</Size ", decimal(size), trailer, ">>\nstartxref\n", decimal(at), "\n%%EOF\n")
}
