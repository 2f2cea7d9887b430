package verifh

import (
	. "github.com/KarmaPenny/pdfparser/verifsym"
)

func encRun(d []byte) []byte {
	out := []byte{}
	for len(d) > 0 {
		n := min(len(d), 3)
		out = append(out, byte(n-1))
		out = append(out, d[:n]...)
		d = d[n:]
	}
	return append(out, 128)
}

// encFlate stores data uncompressed in zlib blocks.
func encFlate(d []byte, split int) []byte {
	out := []byte{0x78, 0x9c}
	a, b := uint32(1), uint32(0)
	for _, x := range d {
		a += uint32(x)
		b += a
	}
	a, b = a%65521, b%65521
	block := func(last byte, d []byte) {
		n := len(d)
		out = append(out, last, byte(n), byte(n>>8), ^byte(n), ^byte(n>>8))
		out = append(out, d...)
	}
	if split > 0 {
		block(0, d[:split])
	}
	block(1, d[split:])
	return append(out, byte(b>>8), byte(b), byte(a>>8), byte(a))
}

type bitWriter struct {
	out  []byte
	acc  uint32
	bits uint
}

func (w *bitWriter) put(code uint32, width uint) {
	w.acc = w.acc<<width | code
	w.bits += width
	for w.bits >= 8 {
		w.out = append(w.out, byte(w.acc>>(w.bits-8)))
		w.bits -= 8
	}
	w.acc &= 1<<w.bits - 1
}

// encLZW writes every byte as its own code; the table grows all the same. Codes get wider
// when the encoder's table has 511, 1023, 2047 (early) or 512, 1024, 2048 entries.
func encLZW(d []byte, early int) []byte {
	w := &bitWriter{}
	width, next := uint(9), 258
	w.put(256, width)
	for i := 0; i < len(d); i++ {
		w.put(uint32(d[i]), width)
		// the code and the byte after it become an entry
		next++
		if next+early > 1<<width {
			width++
			if width == 13 {
				panic("table full")
			}
		}
		if next >= 4090 {
			w.put(256, width)
			width, next = 9, 258
		}
	}
	w.put(257, width)
	if w.bits > 0 {
		w.put(0, 8-w.bits)
	}
	return w.out
}

type filter struct {
	name  string
	parms string
	enc   func([]byte) []byte
}

// up is the encoder of PNG rows of two bytes with the Up algorithm.
func up(d []byte) []byte {
	var out []byte
	for i := 0; i < len(d); i += 2 {
		out = append(out, 2)
		for j := i; j < i+2 && j < len(d); j++ {
			p := byte(0)
			if j >= 2 {
				p = d[j-2]
			}
			out = append(out, d[j]-p)
		}
	}
	return out
}

func sub(d []byte) []byte {
	out := append([]byte{}, d...)
	for i := 1; i < len(d); i += 2 {
		out[i] = d[i] - d[i-1]
	}
	return out
}

var filters = []filter{
	{"ASCIIHexDecode", "<</Predictor 12/Columns 2>>", encHex},
	{"RunLengthDecode", "null", encRun},
	{"FlateDecode", "null", func(d []byte) []byte { return encFlate(d, 0) }},
	{"FlateDecode", "<</Predictor 12/Columns 2>>", func(d []byte) []byte { return encFlate(up(d), 1) }},
	{"LZWDecode", "<</Predictor 2/Columns 2>>", func(d []byte) []byte { return encLZW(sub(d), 1) }},
	{"Other", "<</Predictor 12/Columns 2>>", func(d []byte) []byte { return d }},
	{"LZWDecode", "<</EarlyChange 0>>", func(d []byte) []byte { return encLZW(d, 0) }},
	{"ASCII85Decode", "<<>>", nil},
}

// C14_chain decodes a stream with up to three filters.
func C14_chain() {
	k := Choose(Bound("C14.chain", 3, 3) + 1)
	payload := []byte{'q', Byte(), 0x80, 'z'}
	data := payload
	var chain []filter
	for i := 0; i < k; i++ {
		chain = append(chain, filters[Choose(7)])
	}
	for i := k - 1; i >= 0; i-- {
		data = chain[i].enc(data)
	}
	var names, parms string
	for _, f := range chain {
		names += "/" + f.name
		parms += f.parms + " "
	}
	entries := "/Filter[" + names + "]/DecodeParms[" + parms + "]"
	if k == 0 && Choose(2) == 0 {
		entries = ""
	}
	p := objects(cat("<<", entries, ">>stream\n", data, "\r\nendstream"))
	Assert(same(p.GetObject(1).Stream, payload), "stream is not decoded by its filters")
	Cover("decoded")
}

// C14_85 has base 85 data somewhere in the chain.
func C14_85() {
	payload := []byte("abcdefg")
	payload[[]int{0, 3, 4, 6}[Choose(4)]] = Byte()
	names := "/ASCII85Decode"
	data := enc85(payload)
	switch Choose(5) {
	case 0:
		names = "/ASCIIHexDecode" + names
		data = encHex(data)
	case 1:
		names = names + "/RunLengthDecode"
		data = enc85(encRun(payload))
	case 2:
		names = "/ASCIIHexDecode/FlateDecode" + names
		data = encHex(encFlate(data, 3))
	case 3:
		names = "/LZWDecode" + names
		data = encLZW(data, 1)
	}
	p := objects(cat("<</Filter[", names, "]>>stream\n", data, "\r\nendstream"))
	Assert(same(p.GetObject(1).Stream, payload), "stream is not decoded by its filters")
	Cover("decoded")
}

// C14_forms gives the filters and parameters in all forms, directly or by reference.
func C14_forms() {
	payload := []byte{'q', Byte(), 0x80, 'z'}
	bodies := [][]byte{nil}
	// ref stores an object and returns what to write for it
	ref := func(s string) string {
		if Choose(2) == 0 {
			return s
		}
		bodies = append(bodies, []byte(s))
		return string(decimal(len(bodies))) + " 0 R"
	}
	var data []byte
	var entries string
	switch Choose(7) {
	case 0: // one filter by name, no parameters
		entries = "/Filter " + ref("/ASCIIHexDecode")
		data = encHex(payload)
	case 1: // one filter by name, one dictionary
		entries = "/DecodeParms " + ref("<</Columns "+ref("2")+"/Predictor "+ref("12")+">>") + "/Filter " + ref("/FlateDecode")
		data = encFlate(up(payload), 0)
	case 2: // one filter in an array, one dictionary
		entries = "/DecodeParms " + ref("<</Columns 2/Predictor 12>>") + "/Filter " + ref("["+ref("/FlateDecode")+"]")
		data = encFlate(up(payload), 0)
	case 3: // one filter by name, an array
		entries = "/DecodeParms " + ref("["+ref("<</Columns 2/Predictor 12>>")+"]") + "/Filter " + ref("/FlateDecode")
		data = encFlate(up(payload), 0)
	case 4: // null parameters
		entries = "/DecodeParms " + ref("null") + "/Filter " + ref("["+ref("/FlateDecode")+" "+ref("/ASCIIHexDecode")+"]")
		data = encFlate(encHex(payload), 0)
	case 5: // parameters for the second filter
		entries = "/DecodeParms " + ref("["+ref("null")+" "+ref("<</Columns 2/Predictor 12>>")+"]") + "/Filter " + ref("["+ref("/FlateDecode")+" "+ref("/FlateDecode")+"]")
		data = encFlate(encFlate(up(payload), 0), 0)
	case 6: // parameters for the first filter only
		entries = "/DecodeParms " + ref("["+ref("<</Columns 2/Predictor 12>>")+"]") + "/Filter " + ref("["+ref("/LZWDecode")+" "+ref("/FlateDecode")+"]")
		data = encLZW(up(encFlate(payload, 0)), 1)
	}
	bodies[0] = cat("<<", entries, ">>stream\n", data, "\r\nendstream")
	Assert(same(objects(bodies...).GetObject(1).Stream, payload), "stream is not decoded by its filters")
	Cover("decoded")
}

// C14_unknown passes data of filters it does not know through.
func C14_unknown() {
	n := 1 + Choose(3)
	name := Bytes(n)
	for i := range name {
		Assume(isRegular(name[i]) && name[i] != '#')
	}
	payload := Bytes(3)
	bodies := [][]byte{cat("<</Filter[/ASCIIHexDecode/", name, "/RunLengthDecode]>>stream\n", encHex(encRun(payload)), "\r\nendstream")}
	Assert(same(objects(bodies...).GetObject(1).Stream, payload), "stream is not decoded by its filters")
	Cover("decoded")
}

// C14_lzw decodes codes of all widths.
func C14_lzw() {
	early := Choose(2)
	n := []int{0, 1, 2, 250, 251, 252, 253, 254, 255, 256, 257, 511, 600, 765, 766, 767, 1022, 1023, 1024, 1790, 1791, 3830, 3831, 3832, 5000}[Choose(Bound("C14.lzw", 25, 25))]
	payload := make([]byte, n)
	for i := range payload {
		payload[i] = byte(i*31 + i>>6)
	}
	if n > 0 {
		payload[0], payload[n/2], payload[n-1] = Byte(), Byte(), Byte()
	}
	parms := "null"
	if early == 0 {
		parms = "<</EarlyChange 0>>"
	} else if Choose(2) == 0 {
		parms = "<</EarlyChange 1>>"
	}
	p := objects(cat("<</Filter[/ASCIIHexDecode/LZWDecode]/DecodeParms[null ", parms, "]>>stream\n", encHex(encLZW(payload, early)), "\r\nendstream"))
	Assert(same(p.GetObject(1).Stream, payload), "LZW data is not restored")
	Cover("decoded")
}

// C14_repeats decodes LZW codes for strings, also for the one just being defined.
func C14_repeats() {
	a, b := Byte(), Byte()
	w := &bitWriter{}
	var want []byte
	switch Choose(3) {
	case 0:
		for _, c := range []uint32{256, uint32(a), 258, 259, 258, 257} {
			w.put(c, 9)
		}
		want = []byte{a, a, a, a, a, a, a, a}
	case 1:
		for _, c := range []uint32{256, uint32(a), uint32(b), 258, 260, 259, 257} {
			w.put(c, 9)
		}
		want = []byte{a, b, a, b, a, b, a, b, a}
	case 2:
		for _, c := range []uint32{256, uint32(a), uint32(b), 258, 256, uint32(b), uint32(a), 258, 257} {
			w.put(c, 9)
		}
		want = []byte{a, b, a, b, b, a, b, a}
	}
	w.put(0, 8)
	early := Choose(2)
	p := objects(cat("<</Filter[/ASCIIHexDecode/LZWDecode]/DecodeParms[null<</EarlyChange ", decimal(early), ">>]>>stream\n", encHex(w.out), "\r\nendstream"))
	got := p.GetObject(1).Stream
	Assert(same(got, want), "LZW data is not restored")
	Cover("decoded")
}

// C14_flate decodes stored data of many sizes and a real deflate stream.
func C14_flate() {
	n := lengths[Choose(len(lengths))]
	payload := make([]byte, n)
	for i := range payload {
		payload[i] = byte(i*31 + i>>6)
	}
	if n > 0 {
		// the checksum must stay simple
		payload[n-1] = Byte()
	}
	p := objects(cat("<</Filter[/ASCIIHexDecode/FlateDecode]>>stream\n", encHex(encFlate(payload, n/3)), "\r\nendstream"))
	Assert(same(p.GetObject(1).Stream, payload), "deflated data is not restored")
	Cover("decoded")
}

// C14_bad passes data through that is no zlib data at all.
func C14_bad() {
	d := Bytes(1 + Choose(4))
	Assume(d[0]&15 != 8)
	parms := []string{"null", "<</Predictor 12>>", "<</Predictor 2/Columns 3>>"}[Choose(3)]
	p := objects(cat("<</Filter[/ASCIIHexDecode/FlateDecode]/DecodeParms[null ", parms, "]>>stream\n", encHex(d), "\r\nendstream"))
	Assert(same(p.GetObject(1).Stream, d), "data is not passed through")
	Cover("passed")
}

// C14_huge decodes a lot of data.
func C14_huge() {
	n := huge[Choose(Bound("C14.huge", 12, len(huge)))]
	payload := make([]byte, n)
	for i := range payload {
		payload[i] = byte(i*31 + i>>6)
	}
	payload[n-1] = Byte()
	var data []byte
	filter := "/FlateDecode"
	switch Choose(3) {
	case 0: // stored blocks hold up to 65535 bytes
		split := 0
		if n > 65535 {
			split = n / 2
			if split > 65535 {
				Assume(false)
			}
		}
		if n-split > 65535 {
			Assume(false)
		}
		data = encFlate(payload, split)
	case 1:
		payload[0], payload[n/2] = Byte(), Byte()
		filter = "/LZWDecode"
		data = encLZW(payload, 1)
	case 2:
		payload[0], payload[n/2] = Byte(), Byte()
		filter = "/RunLengthDecode"
		data = encRun(payload)
	}
	p := objects(cat("<</Filter[", filter, "]>>stream\n", data, "\r\nendstream"))
	Assert(same(p.GetObject(1).Stream, payload), "data is not restored")
	Cover("decoded")
}

// C14_many decodes data encoded many times over.
func C14_many() {
	n := []int{4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64}[Choose(Bound("C14.many", 11, 12))]
	payload := Bytes(3)
	data := payload
	var names, parms string
	at := Choose(2) * (n - 1)
	for i := n - 1; i >= 0; i-- {
		f := filter{"RunLengthDecode", "null", func(d []byte) []byte { return encLong(d) }}
		if i == at {
			f = filters[0]
			if Choose(2) == 0 {
				f = filter{"Other", "null", func(d []byte) []byte { return d }}
			}
		}
		data = f.enc(data)
		names = "/" + f.name + names
		parms = f.parms + " " + parms
	}
	p := objects(cat("<</Filter[", "/ASCIIHexDecode", names, "]/DecodeParms[null ", parms, "]>>stream\n", encHex(data), "\r\nendstream"))
	Assert(same(p.GetObject(1).Stream, payload), "stream is not decoded by its filters")
	Cover("decoded")
}

// encLong writes runs of up to 128 bytes.
func encLong(d []byte) []byte {
	out := []byte{}
	for len(d) > 0 {
		n := min(len(d), 128)
		out = append(out, byte(n-1))
		out = append(out, d[:n]...)
		d = d[n:]
	}
	return append(out, 128)
}
