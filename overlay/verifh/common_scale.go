package verifh

import . "github.com/KarmaPenny/pdfparser/verifsym"

// The harnesses here use sizes at which a counter, index or buffer of a smaller kind would give
// out. Most of the data is fixed; bytes at both ends and in the middle are symbolic.

var huge = []int{4099, 8190, 8191, 8192, 8193, 16384, 32767, 32768, 65534, 65535, 65536, 65537, 131073}

// bulk is n bytes of the alphabet, of which the first, middle and last are any letters of it.
func bulk(n int, alphabet string) []byte {
	d := make([]byte, n)
	for i := range d {
		d[i] = alphabet[(i+i/7+i>>8)%len(alphabet)]
	}
	for _, i := range []int{0, n / 2, n - 1} {
		if i >= 0 && i < n {
			b := Bytes(1)
			within(b, alphabet)
			d[i] = b[0]
		}
	}
	return d
}

const most = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789+-*_.,;:!?'"

func enc85(d []byte) []byte {
	var out []byte
	for len(d) > 0 {
		n := min(len(d), 4)
		v := uint32(0)
		for j := 0; j < 4; j++ {
			v <<= 8
			if j < n {
				v |= uint32(d[j])
			}
		}
		div := uint32(85 * 85 * 85 * 85)
		for j := 0; j <= n; j++ {
			out = append(out, byte(v/div%85)+'!')
			div /= 85
		}
		d = d[n:]
	}
	return append(out, "~>"...)
}

const capitals = "ABCDEFGHIJKLMNOPQRSTUVWXYZ_!"
