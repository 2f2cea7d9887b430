package verifh

import (
	"github.com/KarmaPenny/pdfparser/pdf"
	. "github.com/KarmaPenny/pdfparser/verifsym"
)

type tiff struct{ colors, bits, columns int }

func (g tiff) row() int { return (g.colors*g.bits*g.columns + 7) / 8 }

func (g tiff) parms() pdf.Dictionary {
	return pdf.Dictionary{
		"Predictor":        pdf.Number(2),
		"Colors":           pdf.Number(g.colors),
		"BitsPerComponent": pdf.Number(g.bits),
		"Columns":          pdf.Number(g.columns),
	}
}

// component k of a row that starts at byte off.
func (g tiff) get(d []byte, off, k int) uint16 {
	if g.bits == 16 {
		return uint16(d[off+2*k])<<8 | uint16(d[off+2*k+1])
	}
	b := d[off+k*g.bits/8]
	return uint16(b >> uint(8-g.bits-k*g.bits%8) & (1<<uint(g.bits) - 1))
}

func (g tiff) put(d []byte, off, k int, v uint16) {
	if g.bits == 16 {
		d[off+2*k], d[off+2*k+1] = byte(v>>8), byte(v)
		return
	}
	s := uint(8 - g.bits - k*g.bits%8)
	m := byte(1<<uint(g.bits)-1) << s
	p := off + k*g.bits/8
	d[p] = d[p]&^m | byte(v)<<s&m
}

// encode replaces every component but those of the first pixel of a row by the difference to
// the one to its left.
func (g tiff) encode(rows []byte) []byte {
	out := append([]byte{}, rows...)
	for off := 0; off+g.row() <= len(rows); off += g.row() {
		for k := g.colors; k < g.colors*g.columns; k++ {
			g.put(out, off, k, g.get(rows, off, k)-g.get(rows, off, k-g.colors))
		}
	}
	return out
}

func (g tiff) undo(data []byte) []byte {
	return pdf.ReversePredictor(append([]byte{}, data...), g.parms())
}

var tiffBits = []int{1, 2, 4, 8, 16}

// C13_small restores all contents of small images.
func C13_small() {
	g := tiff{1 + Choose(3), tiffBits[Choose(5)], 1 + Choose(Bound("C13.small.columns", 4, 6))}
	n := 1 + Choose(2)
	Assume(n*g.row() <= Bound("C13.small.bytes", 6, 8))
	rows := Bytes(n * g.row())
	got := g.undo(g.encode(rows))
	Assert(len(got) == len(rows), "size differs")
	for i := range rows {
		Assert(i < len(got) && got[i] == rows[i], "rows are not restored")
	}
	Cover("restored")
}

// C13_sum adds up the components of a row.
func C13_sum() {
	g := tiff{1 + Choose(2), []int{4, 8, 16}[Choose(3)], 1 + Choose(4)}
	data := Bytes(g.row())
	got := g.undo(data)
	Assert(len(got) == len(data), "size differs")
	want := append([]byte{}, data...)
	for k := g.colors; k < g.colors*g.columns; k++ {
		g.put(want, 0, k, g.get(want, 0, k-g.colors)+g.get(data, 0, k))
	}
	Assert(same(got, want), "components are not summed")
	Cover("restored")
}

// C13_geometry restores two components in rows of any geometry.
func C13_geometry() {
	g := tiff{1 + Choose(Bound("C13.colors", 6, 9)), tiffBits[Choose(5)], 1 + Choose(Bound("C13.columns", 9, 17))}
	rows := make([]byte, 3*g.row())
	for i := range rows {
		rows[i] = byte(i*89 + 17)
	}
	rows[Choose(len(rows))] = Byte()
	Assert(same(g.undo(g.encode(rows)), rows), "rows are not restored")
	Cover("restored")
}

// C13_defaults leaves out parameters with default values.
func C13_defaults() {
	g := tiff{1, 8, 1}
	parms := pdf.Dictionary{"Predictor": pdf.Number(2)}
	if Choose(2) == 0 {
		g.columns = 3
		parms["Columns"] = pdf.Number(3)
	}
	if Choose(2) == 0 {
		g.colors = 2
		parms["Colors"] = pdf.Number(2)
	}
	if Choose(2) == 0 {
		g.bits = 4
		parms["BitsPerComponent"] = pdf.Number(4)
	}
	rows := Bytes(2 * g.row())
	Assert(same(pdf.ReversePredictor(g.encode(rows), parms), rows), "rows are not restored")
	Cover("restored")
}

// C13_cut restores the components of the last row that are there.
func C13_cut() {
	g := tiff{1 + Choose(3), tiffBits[Choose(5)], 1 + Choose(6)}
	n := 1 + Choose(2)
	rows := make([]byte, n*g.row())
	for i := range rows {
		rows[i] = byte(i*61 + 7)
	}
	have := len(rows) - Choose(g.row()+1)
	if have > 0 {
		rows[Choose(have)] = Byte()
	}
	got := g.undo(g.encode(rows)[:have])
	Assert(len(got) == have, "size differs")
	whole := have / g.row() * g.row()
	if rest := have - whole; rest > 0 && len(got) == have {
		whole2 := whole + rest*8/g.bits*g.bits/8
		if g.bits == 16 {
			whole2 = whole + rest/2*2
		}
		Assert(same(got[:whole2], rows[:whole2]), "cut rows are not restored")
	} else {
		Assert(same(got, rows[:have]), "cut rows are not restored")
	}
	Cover("restored")
}

// C13_long restores large images.
func C13_long() {
	g := tiff{[]int{1, 3}[Choose(2)], tiffBits[Choose(5)], lengths[1+Choose(Bound("C13.long", 20, len(lengths)-1))]}
	n := 4
	if g.columns > 300 {
		n = 2
	}
	rows := make([]byte, n*g.row())
	for i := range rows {
		rows[i] = byte(i*i*5 + i>>3)
	}
	rows[len(rows)-1] = Byte()
	Assert(same(g.undo(g.encode(rows)), rows), "long rows are not restored")
	Cover("restored")
}
