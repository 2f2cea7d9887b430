package verifh

import (
	"errors"
	"io"

	. "github.com/KarmaPenny/pdfparser/verifsym"
)

// pieces is a file whose reads stop at the cuts.
type pieces struct {
	data []byte
	pos  int
	cuts []int
	most int  // bytes per read, 0 for any number
	void bool // a read at a cut first returns nothing
	idle bool
	last bool // the end is reported together with the last bytes
}

func (r *pieces) Read(p []byte) (int, error) {
	if r.pos >= len(r.data) {
		return 0, io.EOF
	}
	end := len(r.data)
	for _, c := range r.cuts {
		if c == r.pos && r.void && !r.idle {
			r.idle = true
			return 0, nil
		}
		if c > r.pos && c < end {
			end = c
		}
	}
	r.idle = false
	if r.most > 0 && end-r.pos > r.most {
		end = r.pos + r.most
	}
	n := copy(p, r.data[r.pos:end])
	r.pos += n
	if r.last && r.pos == len(r.data) {
		return n, io.EOF
	}
	return n, nil
}

func (r *pieces) Seek(off int64, whence int) (int64, error) {
	n := off
	switch whence {
	case io.SeekCurrent:
		n += int64(r.pos)
	case io.SeekEnd:
		n += int64(len(r.data))
	}
	if n < 0 {
		return int64(r.pos), errors.New("negative offset")
	}
	r.pos = int(n)
	r.idle = false
	return n, nil
}

// arrive is a reader over data that delivers it in one of many ways.
func arrive(data []byte, from int) *pieces {
	r := &pieces{data: data}
	switch Choose(5) {
	case 0:
		r.most = 1 + Choose(Bound("C09.most", 9, 20))
	case 1:
		r.cuts = []int{from + Choose(len(data)-from+1)}
	case 2:
		a := from + Choose(len(data)-from+1)
		r.cuts = []int{a, a + 1 + Choose(Bound("C09.gap", 10, 30))}
	case 3:
		r.cuts = []int{from + Choose(len(data)-from+1)}
		r.void = true
	case 4:
		r.last = true
		r.most = Choose(3) * 7
	}
	return r
}
