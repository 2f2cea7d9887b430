package verifh

import (
	"github.com/KarmaPenny/pdfparser/pdf"
	. "github.com/KarmaPenny/pdfparser/verifsym"
)

type geometry struct{ predictor, colors, bits, columns int }

func (g geometry) parms() pdf.Dictionary {
	return pdf.Dictionary{
		"Predictor":        pdf.Number(g.predictor),
		"Colors":           pdf.Number(g.colors),
		"BitsPerComponent": pdf.Number(g.bits),
		"Columns":          pdf.Number(g.columns),
	}
}

func (g geometry) row() int   { return (g.colors*g.bits*g.columns + 7) / 8 }
func (g geometry) pixel() int { return (g.colors*g.bits + 7) / 8 }

func abs(a int) int {
	if a < 0 {
		return -a
	}
	return a
}

// paeth is the predictor function of the PNG specification.
func paeth(a, b, c int) int {
	p := a + b - c
	pa, pb, pc := abs(p-a), abs(p-b), abs(p-c)
	if pa <= pb && pa <= pc {
		return a
	}
	if pb <= pc {
		return b
	}
	return c
}

// predict is what the algorithm of a tag expects for byte i of row r.
func predict(tag byte, rows []byte, row, pixel, r, i int) byte {
	var a, b, c int
	if i >= pixel {
		a = int(rows[r*row+i-pixel])
	}
	if r > 0 {
		b = int(rows[(r-1)*row+i])
		if i >= pixel {
			c = int(rows[(r-1)*row+i-pixel])
		}
	}
	switch tag {
	case 1:
		return byte(a)
	case 2:
		return byte(b)
	case 3:
		return byte((a + b) / 2)
	case 4:
		return byte(paeth(a, b, c))
	}
	return 0
}

// encodePNG tags and filters rows.
func encodePNG(rows []byte, row, pixel int, tags []byte) []byte {
	var out []byte
	for r := 0; r*row < len(rows); r++ {
		out = append(out, tags[r])
		for i := 0; i < row && r*row+i < len(rows); i++ {
			out = append(out, rows[r*row+i]-predict(tags[r], rows, row, pixel, r, i))
		}
	}
	return out
}

func unpredict(data []byte, parms pdf.Dictionary) []byte {
	return pdf.ReversePredictor(append([]byte{}, data...), parms)
}

// C12_small restores every content of small images with one byte pixels.
func C12_small() {
	g := geometry{15, 1, 8, 1 + Choose(2)}
	n := 1 + Choose(2)
	rows := Bytes(n * g.row())
	tags := make([]byte, n)
	for i := range tags {
		tags[i] = byte(Choose(5))
	}
	Assert(same(unpredict(encodePNG(rows, g.row(), g.pixel(), tags), g.parms()), rows), "rows are not restored")
	Cover("restored")
}

// C12_tags names the algorithm by a symbolic byte.
func C12_tags() {
	g := geometry{10 + Choose(6), 3, 8, 2}
	tags := Bytes(2)
	Assume(tags[0] <= 4 && tags[1] <= 4)
	rows := []byte("aBc\x80\xff\x00dEf\x7f\x01\x90")
	Assert(same(unpredict(encodePNG(rows, g.row(), g.pixel(), tags), g.parms()), rows), "rows are not restored")
	Cover("restored")
}

// C12_geometry restores a pixel and its neighbours in rows of any geometry.
func C12_geometry() {
	bits := []int{1, 2, 4, 8, 16}[Choose(5)]
	g := geometry{10 + 5*Choose(2), 1 + Choose(Bound("C12.colors", 6, 9)), bits, 1 + Choose(Bound("C12.columns", 8, 17))}
	n := 3
	rows := make([]byte, n*g.row())
	for i := range rows {
		rows[i] = byte(i*97 + 31)
	}
	r, i := Choose(n), Choose(g.row())
	// the byte itself or one of its neighbours is any
	k := Choose(4)
	if y, x := r-k>>1, i-k&1*g.pixel(); y >= 0 && x >= 0 {
		rows[y*g.row()+x] = Byte()
	} else {
		return
	}
	tags := make([]byte, n)
	t := byte(Choose(5))
	for k := range tags {
		// earlier and later rows use other algorithms
		tags[k] = byte(int(t)+k+n-r) % 5
	}
	tags[r] = t
	Assert(same(unpredict(encodePNG(rows, g.row(), g.pixel(), tags), g.parms()), rows), "rows are not restored")
	Cover("restored")
}

// C12_defaults leaves out parameters with default values.
func C12_defaults() {
	g := geometry{15, 1, 8, 1}
	parms := pdf.Dictionary{"Predictor": pdf.Number(15)}
	switch Choose(4) {
	case 0:
		g.columns = 2
		parms["Columns"] = pdf.Number(2)
	case 1:
		g.colors = 2
		parms["Colors"] = pdf.Number(2)
	case 2:
		g.bits = 16
		parms["BitsPerComponent"] = pdf.Number(16)
	}
	rows := Bytes(2 * g.row())
	tags := []byte{byte(Choose(4)), byte(Choose(4))}
	Assert(same(unpredict(encodePNG(rows, g.row(), g.pixel(), tags), parms), rows), "rows are not restored")
	Cover("restored")
}

// C12_cut restores the part of the last row that is there.
func C12_cut() {
	g := geometry{12 + 3*Choose(2), 1 + Choose(3), 8, 1 + Choose(3)}
	n := 1 + Choose(3)
	rows := make([]byte, n*g.row())
	for i := range rows {
		rows[i] = byte(i*53 + 11)
	}
	have := len(rows) - Choose(g.row()+1)
	tags := make([]byte, n)
	for k := range tags {
		tags[k] = byte(Choose(5))
	}
	if have > 0 {
		rows[have-1] = Byte()
	}
	// the tag of the last row is there even if nothing else is
	enc := encodePNG(rows[:have], g.row(), g.pixel(), tags)
	if have%g.row() == 0 && have < len(rows) {
		enc = append(enc, tags[have/g.row()])
	}
	Assert(same(unpredict(enc, g.parms()), rows[:have]), "cut rows are not restored")
	Cover("restored")
}

// C12_long restores large images.
func C12_long() {
	g := geometry{15, []int{1, 3, 4}[Choose(3)], []int{1, 8}[Choose(2)], lengths[1+Choose(Bound("C12.long", 20, len(lengths)-1))]}
	n := 7
	if g.columns > 300 {
		n = 3
	}
	rows := make([]byte, n*g.row())
	for i := range rows {
		rows[i] = byte(i*i*7 + i>>3)
	}
	rows[0] = Byte()
	rows[len(rows)-1] = Byte()
	t := Choose(5)
	tags := make([]byte, n)
	for i := range tags {
		tags[i] = byte((i + t) % 5)
	}
	if tags[0] != 2 {
		// keep the symbolic byte from spreading along the first row
		tags[0] = 0
	}
	if tags[1] != 1 {
		tags[1] = 1
	}
	Assert(same(unpredict(encodePNG(rows, g.row(), g.pixel(), tags), g.parms()), rows), "long rows are not restored")
	Cover("restored")
}
