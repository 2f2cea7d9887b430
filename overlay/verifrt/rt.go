// Package verifrt holds the environment model used when the program is executed
// symbolically: an in-memory file system, formatting, and small stand-ins for
// library code built on reflection or the operating system. It is loaded as an
// overlay and never compiled into a real binary.
package verifrt

import (
	"crypto/rc4"
	"errors"
	"io"
	"io/fs"
	"os"
	"regexp"
	"strconv"
	"sync"
	"time"
)

// RuntimeError is the dynamic type of run-time panics.
type RuntimeError string

func (e RuntimeError) Error() string { return string(e) }
func (e RuntimeError) RuntimeError() {}

// answered by the engine
func kindOf(v any) int                                  { panic("engine") } // 0 nil 1 bool 2 int 3 uint 4 float 5 string 6 bytes 7 pointer 8 slice 9 array 10 map 11 struct 12 other
func anyParts(v any) []any                              { panic("engine") }
func fieldNames(v any) []string                         { panic("engine") }
func assignAs(err error, target any) bool               { panic("engine") }
func formatFloat(f float64, verb byte, prec int) string { panic("engine") }
func asString(v any) string                             { panic("engine") }
func asInt(v any) int64                                 { panic("engine") }
func asBool(v any) bool                                 { panic("engine") }
func asFloat(v any) float64                             { panic("engine") }
func typeName(v any) string                             { panic("engine") }
func fmtFloatC(f float64) string                        { panic("engine") }
func floatParts(f float64) (n int64, neg bool, ok bool) { panic("engine") }
func runMainInit()                                      { panic("engine") }
func runMain()                                          { panic("engine") }
func anyLen(v any) int                                  { panic("engine") }
func anyAt(v any, i int) any                            { panic("engine") }
func anySwap(v any, i, j int)                           { panic("engine") }
func md5sum(b []byte) []byte                            { panic("engine") }
func rc4stream(key []byte, off, n int) []byte           { panic("engine") }
func aesblock(key, block []byte, enc bool) []byte       { panic("engine") }
func unsupported(s string)                              { panic("engine") }
func exit(code int)                                     { panic("engine") }
func reStart(re any, caps bool) any                     { panic("engine") }
func reStep(st any, b byte) any                         { panic("engine") }
func reDead(st any) bool                                { panic("engine") }
func reAfter(st any, b byte) any                        { panic("engine") }
func reInfo(re any) (string, int)                       { panic("engine") }
func reFinish(st any) []int                             { panic("engine") }
func comparable_(v any) bool                            { panic("engine") }

// ---- fmt ----

func itoa(n int64) string {
	if n < 0 {
		return "-" + utoa(uint64(-n))
	}
	return utoa(uint64(n))
}

func utoa(u uint64) string {
	var buf [24]byte
	i := len(buf)
	for u >= 10 {
		i--
		buf[i] = byte(u%10) + '0'
		u /= 10
	}
	i--
	buf[i] = byte(u) + '0'
	return string(buf[i:])
}

func fmtFloat(f float64) string {
	n, neg, ok := floatParts(f)
	if !ok {
		return fmtFloatC(f)
	}
	if neg {
		return "-" + itoa(n)
	}
	return itoa(n)
}

// printer is one formatting directive.
type printer struct {
	verb        byte
	minus, plus bool
	sharp       bool
	space, zero bool
	wid, prec   int // -1: absent
}

// str formats an operand of Print and Println.
func str(v any, verb byte) string {
	p := printer{verb: verb, wid: -1, prec: -1}
	return p.format(v, 0)
}

func hexs(s, digits string, p *printer) string {
	b := make([]byte, 0, 2*len(s))
	for i := 0; i < len(s) && (p.prec < 0 || i < p.prec); i++ {
		if p.space && i > 0 {
			b = append(b, ' ')
		}
		if p.sharp && (i == 0 || p.space) {
			b = append(b, '0', digits[16])
		}
		b = append(b, digits[s[i]>>4], digits[s[i]&15])
	}
	return string(b)
}

const lowerDigits, upperDigits = "0123456789abcdefx", "0123456789ABCDEFX"

func (p *printer) pad(s string) string {
	n := len(s)
	if n >= p.wid {
		return s
	}
	if p.zero && !p.minus {
		sign := ""
		if s != "" && (s[0] == '-' || s[0] == '+') && p.verb != 's' && p.verb != 'v' {
			sign, s = s[:1], s[1:]
		}
		for ; n < p.wid; n++ {
			s = "0" + s
		}
		return sign + s
	}
	for ; n < p.wid; n++ {
		if p.minus {
			s += " "
		} else {
			s = " " + s
		}
	}
	return s
}

func (p *printer) bad(v any) string {
	if v == nil {
		return "%!" + string(rune(p.verb)) + "(<nil>)"
	}
	return "%!" + string(rune(p.verb)) + "(" + typeName(v) + "=" + str(v, 'v') + ")"
}

func (p *printer) text(v any, s string) string {
	switch p.verb {
	case 'v':
		if p.sharp {
			return p.pad(strconv.Quote(s))
		}
		fallthrough
	case 's':
		if p.prec >= 0 && p.prec < len(s) {
			for i := 0; i < len(s); i++ {
				if s[i] >= 0x80 {
					unsupported("precision of multi-byte text")
				}
			}
			s = s[:p.prec]
		}
		return p.pad(s)
	case 'x':
		return p.pad(hexs(s, lowerDigits, p))
	case 'X':
		return p.pad(hexs(s, upperDigits, p))
	case 'q':
		return p.pad(strconv.Quote(s))
	}
	return p.bad(v)
}

func (p *printer) integer(v any, u uint64, neg bool) string {
	base, prefix := 10, ""
	switch p.verb {
	case 'v', 'd':
	case 'x':
		base, prefix = 16, "0x"
	case 'X':
		base, prefix = 16, "0X"
	case 'o':
		base, prefix = 8, "0"
	case 'b':
		base, prefix = 2, "0b"
	case 'c':
		return p.pad(string(rune(u)))
	case 'q':
		return p.pad(strconv.QuoteRune(rune(u)))
	default:
		if p.verb == 'U' {
			s := strconv.FormatUint(u, 16)
			for len(s) < 4 {
				s = "0" + s
			}
			return p.pad("U+" + upperHex(s))
		}
		return p.bad(v)
	}
	s := ""
	if base == 10 {
		s = utoa(u)
	} else {
		s = strconv.FormatUint(u, base)
	}
	if p.verb == 'X' {
		s = upperHex(s)
	}
	for len(s) < p.prec {
		s = "0" + s
	}
	if p.sharp && base != 10 {
		s = prefix + s
	}
	if neg {
		s = "-" + s
	} else if p.plus {
		s = "+" + s
	} else if p.space {
		s = " " + s
	}
	q := *p
	if p.prec >= 0 {
		q.zero = false
	}
	return q.pad(s)
}

func upperHex(s string) string {
	b := []byte(s)
	for i := range b {
		if b[i] >= 'a' && b[i] <= 'z' {
			b[i] -= 32
		}
	}
	return string(b)
}

func (p *printer) float(v any, f float64) string {
	s := ""
	switch p.verb {
	case 'v':
		s = fmtFloat(f)
	case 'g', 'G', 'e', 'E', 'f', 'F':
		prec := p.prec
		if prec < 0 && p.verb != 'g' && p.verb != 'G' {
			prec = 6
		}
		verb := p.verb
		if verb == 'F' {
			verb = 'f'
		}
		if verb == 'g' && prec < 0 {
			s = fmtFloat(f)
		} else {
			s = formatFloat(f, verb, prec)
		}
	default:
		return p.bad(v)
	}
	if p.plus && s[0] != '-' {
		s = "+" + s
	} else if p.space && s[0] != '-' {
		s = " " + s
	}
	return p.pad(s)
}

func (p *printer) format(v any, depth int) string {
	if v == nil {
		if p.verb == 'v' {
			return p.pad("<nil>")
		}
		if p.verb == 'T' {
			return p.pad("<nil>")
		}
		return p.bad(v)
	}
	if p.verb == 'T' {
		return p.pad(typeName(v))
	}
	if p.sharp && p.verb == 'v' {
		if k := kindOf(v); k == 4 || k >= 6 {
			unsupported("%#v of " + typeName(v))
		}
	} else if p.verb == 'v' || p.verb == 's' || p.verb == 'x' || p.verb == 'X' || p.verb == 'q' {
		if _, ok := v.(interface {
			Format(s interface{ Write(b []byte) (int, error) }, verb rune)
		}); ok {
			unsupported("a Formatter")
		}
		switch x := v.(type) {
		case error:
			return p.text(v, x.Error())
		case interface{ String() string }:
			return p.text(v, x.String())
		}
	}
	k := kindOf(v)
	switch k {
	case 1:
		if p.verb != 'v' && p.verb != 't' {
			return p.bad(v)
		}
		if asBool(v) {
			return p.pad("true")
		}
		return p.pad("false")
	case 2:
		n := asInt(v)
		if n < 0 {
			return p.integer(v, uint64(-n), true)
		}
		return p.integer(v, uint64(n), false)
	case 3:
		return p.integer(v, uint64(asInt(v)), false)
	case 4:
		return p.float(v, asFloat(v))
	case 5:
		return p.text(v, asString(v))
	case 6:
		if p.verb == 's' || p.verb == 'x' || p.verb == 'X' || p.verb == 'q' {
			return p.text(v, asString(v))
		}
	}
	switch k {
	case 6, 8, 9:
		parts := anyParts(v)
		if k == 9 && len(parts) > 0 && kindOf(parts[0]) == 3 && typeName(parts[0]) == "uint8" && (p.verb == 's' || p.verb == 'x' || p.verb == 'X' || p.verb == 'q') {
			b := make([]byte, len(parts))
			for i := range parts {
				b[i] = byte(asInt(parts[i]))
			}
			return p.text(v, string(b))
		}
		s := "["
		for i, e := range parts {
			if i > 0 {
				s += " "
			}
			s += p.format(e, depth+1)
		}
		return s + "]"
	case 10:
		parts := anyParts(v)
		n := len(parts) / 2
		for i := 1; i < n; i++ {
			for j := i; j > 0 && keyLess(parts[2*j], parts[2*j-2]); j-- {
				parts[2*j], parts[2*j-2] = parts[2*j-2], parts[2*j]
				parts[2*j+1], parts[2*j-1] = parts[2*j-1], parts[2*j+1]
			}
		}
		s := "map["
		for i := 0; i < n; i++ {
			if i > 0 {
				s += " "
			}
			s += p.format(parts[2*i], depth+1) + ":" + p.format(parts[2*i+1], depth+1)
		}
		return s + "]"
	case 11:
		names := fieldNames(v)
		s := "{"
		for i, e := range anyParts(v) {
			if i > 0 {
				s += " "
			}
			if p.plus {
				s += names[i] + ":"
			}
			s += p.format(e, depth+1)
		}
		return s + "}"
	case 7:
		parts := anyParts(v)
		if len(parts) == 0 {
			if p.verb == 'v' {
				return p.pad("<nil>")
			}
			return "%!" + string(rune(p.verb)) + "(" + typeName(v) + "=<nil>)"
		}
		if depth == 0 && parts[0] != nil {
			switch kindOf(parts[0]) {
			case 6, 8, 9, 10, 11:
				return "&" + p.format(parts[0], depth+1)
			}
		}
	}
	unsupported("fmt %" + string(rune(p.verb)) + " of " + typeName(v))
	return ""
}

func keyLess(a, b any) bool {
	switch {
	case kindOf(a) == 5 && kindOf(b) == 5:
		return asString(a) < asString(b)
	case kindOf(a) == 2 && kindOf(b) == 2:
		return asInt(a) < asInt(b)
	case kindOf(a) == 3 && kindOf(b) == 3:
		return uint64(asInt(a)) < uint64(asInt(b))
	case kindOf(a) == 4 && kindOf(b) == 4:
		return asFloat(a) < asFloat(b)
	}
	unsupported("formatting a map with keys of type " + typeName(a))
	return false
}

func fmtSprintf(format string, a ...any) string {
	out := ""
	n := 0
	i := 0
	reordered := false
	for i < len(format) {
		j := i
		for j < len(format) && format[j] != '%' {
			j++
		}
		out += format[i:j]
		if j >= len(format) {
			break
		}
		i = j + 1
		p := printer{wid: -1, prec: -1}
	flags:
		for ; i < len(format); i++ {
			switch format[i] {
			case '0':
				p.zero = true
			case '-':
				p.minus = true
			case '+':
				p.plus = true
			case '#':
				p.sharp = true
			case ' ':
				p.space = true
			default:
				break flags
			}
		}
		index := func() {
			if i < len(format) && format[i] == '[' {
				k := i + 1
				x := 0
				for k < len(format) && format[k] >= '0' && format[k] <= '9' {
					x = x*10 + int(format[k]-'0')
					k++
				}
				if k >= len(format) || format[k] != ']' || x < 1 || x > len(a) {
					unsupported("argument index in a format")
				}
				n, i, reordered = x-1, k+1, true
			}
		}
		number := func() int {
			if i < len(format) && format[i] == '*' {
				i++
				if n >= len(a) || kindOf(a[n]) != 2 {
					unsupported("width of a format")
				}
				n++
				return int(asInt(a[n-1]))
			}
			x := -1
			for i < len(format) && format[i] >= '0' && format[i] <= '9' {
				x = max(x, 0)*10 + int(format[i]-'0')
				i++
			}
			return x
		}
		index()
		p.wid = number()
		if p.wid < -1 {
			p.wid, p.minus = -p.wid, true
		}
		if i < len(format) && format[i] == '.' {
			i++
			index()
			p.prec = max(number(), 0)
		}
		index()
		if i >= len(format) {
			out += "%!(NOVERB)"
			break
		}
		p.verb = format[i]
		i++
		if p.verb == '%' {
			out += "%"
			continue
		}
		if n >= len(a) {
			out += "%!" + string(rune(p.verb)) + "(MISSING)"
			continue
		}
		switch p.verb {
		case 's', 'v', 'd', 'x', 'X', 'c', 'q', 't', 'f', 'F', 'g', 'G', 'e', 'E', 'T', 'o', 'b', 'U':
		default:
			unsupported("fmt verb " + string(rune(p.verb)))
		}
		out += p.format(a[n], 0)
		n++
	}
	if !reordered && n < len(a) {
		out += "%!(EXTRA "
		for k := n; k < len(a); k++ {
			if k > n {
				out += ", "
			}
			if a[k] == nil {
				out += "<nil>"
			} else {
				out += typeName(a[k]) + "=" + str(a[k], 'v')
			}
		}
		out += ")"
	}
	return out
}

func fmtAppendf(b []byte, format string, a ...any) []byte {
	return append(b, fmtSprintf(format, a...)...)
}
func fmtAppend(b []byte, a ...any) []byte   { return append(b, fmtSprint(a...)...) }
func fmtAppendln(b []byte, a ...any) []byte { return append(b, fmtSprintln(a...)...) }

func errorsAs(err error, target any) bool {
	for err != nil {
		if assignAs(err, target) {
			return true
		}
		if x, ok := err.(interface{ As(any) bool }); ok && x.As(target) {
			return true
		}
		switch x := err.(type) {
		case interface{ Unwrap() error }:
			err = x.Unwrap()
		case interface{ Unwrap() []error }:
			for _, e := range x.Unwrap() {
				if errorsAs(e, target) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
	return false
}

func isStringer(v any) bool {
	switch v.(type) {
	case error:
		return true
	case interface{ String() string }:
		return true
	}
	return false
}

func fmtSprintln(a ...any) string {
	s := ""
	for i := range a {
		if i > 0 {
			s += " "
		}
		s += str(a[i], 'v')
	}
	return s + "\n"
}

func fmtSprint(a ...any) string {
	s := ""
	prev := true
	for i := range a {
		isStr := a[i] != nil && kindOf(a[i]) == 5
		if i > 0 && !isStr && !prev {
			s += " "
		}
		s += str(a[i], 'v')
		prev = isStr
	}
	return s
}

func fmtFprintf(w io.Writer, format string, a ...any) (int, error) {
	return w.Write([]byte(fmtSprintf(format, a...)))
}
func fmtFprintln(w io.Writer, a ...any) (int, error) { return w.Write([]byte(fmtSprintln(a...))) }
func fmtFprint(w io.Writer, a ...any) (int, error)   { return w.Write([]byte(fmtSprint(a...))) }
func fmtPrintf(format string, a ...any) (int, error) { return fmtFprintf(os.Stdout, format, a...) }
func fmtPrintln(a ...any) (int, error)               { return fmtFprintln(os.Stdout, a...) }
func fmtPrint(a ...any) (int, error)                 { return fmtFprint(os.Stdout, a...) }

type wrapErr struct {
	msg string
	err error
}

func (e *wrapErr) Error() string { return e.msg }
func (e *wrapErr) Unwrap() error { return e.err }

func fmtErrorf(format string, a ...any) error {
	f := []byte(format)
	var w error
	n := 0
	for i := 0; i+1 < len(f); i++ {
		if f[i] == '%' {
			if f[i+1] == 'w' {
				f[i+1] = 'v'
				if n < len(a) {
					w, _ = a[n].(error)
				}
			}
			if f[i+1] != '%' {
				n++
			}
			i++
		}
	}
	return &wrapErr{fmtSprintf(string(f), a...), w}
}

// ---- errors ----

func errorsIs(err, target error) bool {
	if err == nil || target == nil {
		return err == target
	}
	for {
		if comparable_(target) && err == target {
			return true
		}
		if x, ok := err.(interface{ Is(error) bool }); ok && x.Is(target) {
			return true
		}
		switch x := err.(type) {
		case interface{ Unwrap() error }:
			err = x.Unwrap()
			if err == nil {
				return false
			}
		case interface{ Unwrap() []error }:
			for _, e := range x.Unwrap() {
				if errorsIs(e, target) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
}

// ---- sort ----

func sortSlice(x any, less func(i, j int) bool) {
	n := anyLen(x)
	for i := 1; i < n; i++ {
		for j := i; j > 0 && less(j, j-1); j-- {
			anySwap(x, j, j-1)
		}
	}
}

// ---- regexp ----

func reFindReaderIndex(re any, r io.RuneReader) []int {
	loc := reFindReader(re, r, false)
	if loc == nil {
		return nil
	}
	return loc[:2]
}

func reFindReaderSubmatchIndex(re any, r io.RuneReader) []int { return reFindReader(re, r, true) }
func reMatchReader(re any, r io.RuneReader) bool              { return reFindReader(re, r, false) != nil }

func reFindReader(re any, r io.RuneReader, caps bool) []int {
	st := reStart(re, caps)
	br, _ := r.(io.ByteReader)
	for !reDead(st) {
		var b byte
		if br != nil {
			x, err := br.ReadByte()
			if err != nil {
				break
			}
			b = x
		} else {
			x, n, err := r.ReadRune()
			if err != nil {
				break
			}
			if n != 1 || x >= 0x80 {
				unsupported("regexp over multi-byte runes")
			}
			b = byte(x)
		}
		st = reStep(st, b)
	}
	return reFinish(st)
}

func reMatchAt(re any, b []byte, from int) []int {
	st := reStart(re, true)
	if from > 0 {
		st = reAfter(st, b[from-1])
	}
	for i := from; i < len(b) && !reDead(st); i++ {
		st = reStep(st, b[i])
	}
	loc := reFinish(st)
	if loc == nil {
		return nil
	}
	out := make([]int, len(loc))
	for i := range loc {
		out[i] = loc[i]
		if loc[i] >= 0 {
			out[i] += from
		}
	}
	return out
}

func reAll(re any, b []byte, n int) [][]int {
	var out [][]int
	pos, prev := 0, -1
	for pos <= len(b) && (n < 0 || len(out) < n) {
		loc := reMatchAt(re, b, pos)
		if loc == nil {
			break
		}
		if loc[1] == loc[0] && loc[0] == prev {
			pos++
			continue
		}
		out = append(out, loc)
		prev = loc[1]
		if loc[1] > loc[0] {
			pos = loc[1]
		} else {
			pos = loc[1] + 1
		}
	}
	return out
}

func subs(b []byte, loc []int) [][]byte {
	r := make([][]byte, len(loc)/2)
	for i := range r {
		if loc[2*i] >= 0 {
			r[i] = b[loc[2*i]:loc[2*i+1]:loc[2*i+1]]
		}
	}
	return r
}

func reFindAllSubmatch(re any, b []byte, n int) [][][]byte {
	var r [][][]byte
	for _, loc := range reAll(re, b, n) {
		r = append(r, subs(b, loc))
	}
	return r
}

func reFindAllSubmatchIndex(re any, b []byte, n int) [][]int { return reAll(re, b, n) }
func reFindAllIndex(re any, b []byte, n int) [][]int {
	var r [][]int
	for _, loc := range reAll(re, b, n) {
		r = append(r, loc[:2])
	}
	return r
}
func reFindSubmatch(re any, b []byte) [][]byte {
	loc := reMatchAt(re, b, 0)
	if loc == nil {
		return nil
	}
	return subs(b, loc)
}
func reFindSubmatchIndex(re any, b []byte) []int { return reMatchAt(re, b, 0) }
func reFindIndex(re any, b []byte) []int {
	loc := reMatchAt(re, b, 0)
	if loc == nil {
		return nil
	}
	return loc[:2]
}
func reFind(re any, b []byte) []byte {
	loc := reMatchAt(re, b, 0)
	if loc == nil {
		return nil
	}
	return b[loc[0]:loc[1]:loc[1]]
}
func reMatch(re any, b []byte) bool            { return reMatchAt(re, b, 0) != nil }
func reMatchString(re any, s string) bool      { return reMatchAt(re, []byte(s), 0) != nil }
func reFindString(re any, s string) string     { return string(reFind(re, []byte(s))) }
func reFindStringIndex(re any, s string) []int { return reFindIndex(re, []byte(s)) }
func reFindStringSubmatch(re any, s string) []string {
	m := reFindSubmatch(re, []byte(s))
	if m == nil {
		return nil
	}
	r := make([]string, len(m))
	for i := range m {
		r[i] = string(m[i])
	}
	return r
}
func reFindAllStringSubmatch(re any, s string, n int) [][]string {
	var r [][]string
	for _, m := range reFindAllSubmatch(re, []byte(s), n) {
		t := make([]string, len(m))
		for i := range m {
			t[i] = string(m[i])
		}
		r = append(r, t)
	}
	return r
}

func reFindAllStringSubmatchIndex(re any, s string, n int) [][]int { return reAll(re, []byte(s), n) }
func reFindStringSubmatchIndex(re any, s string) []int             { return reMatchAt(re, []byte(s), 0) }
func reFindAllStringIndex(re any, s string, n int) [][]int         { return reFindAllIndex(re, []byte(s), n) }
func reFindAll(re any, b []byte, n int) [][]byte {
	var r [][]byte
	for _, loc := range reAll(re, b, n) {
		r = append(r, b[loc[0]:loc[1]:loc[1]])
	}
	return r
}
func reFindAllString(re any, s string, n int) []string {
	var r []string
	for _, loc := range reAll(re, []byte(s), n) {
		r = append(r, s[loc[0]:loc[1]])
	}
	return r
}
func reString(re any) string { s, _ := reInfo(re); return s }
func reNumSubexp(re any) int { _, n := reInfo(re); return n }
func reSplit(re any, s string, n int) []string {
	if n == 0 {
		return nil
	}
	if expr, _ := reInfo(re); expr != "" && len(s) == 0 {
		return []string{""}
	}
	var out []string
	beg, end := 0, 0
	for _, loc := range reAll(re, []byte(s), n) {
		if n > 0 && len(out) == n-1 {
			break
		}
		end = loc[0]
		if loc[1] != 0 {
			out = append(out, s[beg:end])
		}
		beg = loc[1]
	}
	if end != len(s) {
		out = append(out, s[beg:])
	}
	return out
}
func replace(re any, s string, f func(loc []int) string) string {
	out, at := "", 0
	for _, loc := range reAll(re, []byte(s), -1) {
		out += s[at:loc[0]] + f(loc)
		at = loc[1]
	}
	return out + s[at:]
}
func expand(t, s string, loc []int) string {
	out := ""
	for i := 0; i < len(t); i++ {
		if t[i] != '$' {
			out += t[i : i+1]
			continue
		}
		if i+1 < len(t) && t[i+1] == '$' {
			out += "$"
			i++
			continue
		}
		brace := i+1 < len(t) && t[i+1] == '{'
		k := i + 1
		if brace {
			k++
		}
		n, from := 0, k
		for k < len(t) && t[k] >= '0' && t[k] <= '9' {
			n = n*10 + int(t[k]-'0')
			k++
		}
		if k == from || !brace && k < len(t) && (t[k] == '_' || t[k] >= 'a' && t[k] <= 'z' || t[k] >= 'A' && t[k] <= 'Z') || brace && (k >= len(t) || t[k] != '}') {
			unsupported("regexp template")
		}
		if 2*n+1 < len(loc) && loc[2*n] >= 0 {
			out += s[loc[2*n]:loc[2*n+1]]
		}
		if brace {
			k++
		}
		i = k - 1
	}
	return out
}
func reReplaceAllString(re any, s, t string) string {
	return replace(re, s, func(loc []int) string { return expand(t, s, loc) })
}
func reReplaceAll(re any, s, t []byte) []byte {
	return []byte(reReplaceAllString(re, string(s), string(t)))
}
func reReplaceAllLiteralString(re any, s, t string) string {
	return replace(re, s, func(loc []int) string { return t })
}
func reReplaceAllStringFunc(re any, s string, f func(string) string) string {
	return replace(re, s, func(loc []int) string { return f(s[loc[0]:loc[1]]) })
}
func reReplaceAllFunc(re any, s []byte, f func([]byte) []byte) []byte {
	return []byte(replace(re, string(s), func(loc []int) string { return string(f(s[loc[0]:loc[1]])) }))
}
func regexpQuoteMeta(s string) string {
	out := ""
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '\\', '.', '+', '*', '?', '(', ')', '|', '[', ']', '{', '}', '^', '$':
			out += "\\"
		}
		out += s[i : i+1]
	}
	return out
}
func regexpMatchString(expr, s string) (bool, error) {
	re, err := regexp.Compile(expr)
	if err != nil {
		return false, err
	}
	return re.MatchString(s), nil
}
func regexpMatch(expr string, s []byte) (bool, error) { return regexpMatchString(expr, string(s)) }

// ---- scanning ----

func scanSpace(b byte) bool { return b == ' ' || b == '\t' || b == '\n' || b == '\r' }

// scanItem reads one operand from s and returns what remains.
func scanItem(s string, verb byte, wid int, to any) (string, error) {
	if verb != 'c' {
		for s != "" && scanSpace(s[0]) {
			s = s[1:]
		}
	}
	if s == "" {
		return s, io.ErrUnexpectedEOF
	}
	n := 0
	base := 10
	if verb == 'x' || verb == 'X' {
		base = 16
	}
	switch to.(type) {
	case *string, *[]byte:
		for n < len(s) && n != wid && !scanSpace(s[n]) {
			n++
		}
	case *rune, *int, *int64, *int16, *int8, *uint, *uint64, *uint32, *uint16, *uint8:
		if verb == 'c' {
			n = 1
			break
		}
		if s[0] == '-' || s[0] == '+' {
			n++
		}
		for n < len(s) && n != wid && (s[n] >= '0' && s[n] <= '9' || base == 16 && (s[n] >= 'a' && s[n] <= 'f' || s[n] >= 'A' && s[n] <= 'F')) {
			n++
		}
	default:
		unsupported("scanning into " + typeName(to))
	}
	t := s[:n]
	var i int64
	switch to.(type) {
	case *string, *[]byte:
	default:
		if verb == 'c' {
			i = int64(t[0])
		} else {
			if t == "" || t == "-" || t == "+" {
				return s, errors.New("expected integer")
			}
			if verb != 'd' && verb != 'v' && base == 10 {
				unsupported("scanning integers by %" + string(rune(verb)))
			}
			if verb == 'v' && len(t) > 1 && t[0] == '0' {
				unsupported("scanning an integer with a prefix")
			}
			var err error
			i, err = strconv.ParseInt(t, base, 64)
			if err != nil {
				return s[n:], errors.New("integer overflow on token " + t)
			}
		}
	}
	switch x := to.(type) {
	case *string:
		*x = t
	case *[]byte:
		*x = []byte(t)
	case *int:
		*x = int(i)
	case *int64:
		*x = i
	case *rune:
		*x = rune(i)
	case *uint8:
		*x = uint8(i)
	case *uint16:
		*x = uint16(i)
	case *uint32:
		*x = uint32(i)
	case *uint64:
		*x = uint64(i)
	case *uint:
		*x = uint(i)
	case *int8:
		*x = int8(i)
	case *int16:
		*x = int16(i)
	}
	return s[n:], nil
}

func fmtSscan(s string, a ...any) (int, error) {
	for i := range a {
		var err error
		s, err = scanItem(s, 'v', -1, a[i])
		if err != nil {
			return i, err
		}
	}
	return len(a), nil
}

func fmtSscanf(s, format string, a ...any) (int, error) {
	n := 0
	for i := 0; i < len(format); i++ {
		c := format[i]
		if c != '%' {
			if c == ' ' {
				for s != "" && (s[0] == ' ' || s[0] == '\t' || s[0] == '\r') {
					s = s[1:]
				}
				continue
			}
			if s == "" {
				return n, io.ErrUnexpectedEOF
			}
			if s[0] != c {
				return n, errors.New("input does not match format")
			}
			s = s[1:]
			continue
		}
		i++
		wid := -1
		for i < len(format) && format[i] >= '0' && format[i] <= '9' {
			wid = max(wid, 0)*10 + int(format[i]-'0')
			i++
		}
		if i >= len(format) || n >= len(a) {
			return n, errors.New("too few operands for format '%" + format[i:i+1] + "'")
		}
		if s != "" && s[0] == '\n' && format[i] != 'c' {
			return n, errors.New("unexpected newline")
		}
		var err error
		s, err = scanItem(s, format[i], wid, a[n])
		if err != nil {
			return n, err
		}
		n++
	}
	if n < len(a) {
		return n, errors.New("too many operands")
	}
	return n, nil
}

// ---- other library code ----

type joinError struct{ errs []error }

func errorsJoin(errs ...error) error {
	e := &joinError{}
	for _, err := range errs {
		if err != nil {
			e.errs = append(e.errs, err)
		}
	}
	if len(e.errs) == 0 {
		return nil
	}
	return e
}
func (e *joinError) Error() string {
	s := ""
	for i, err := range e.errs {
		if i > 0 {
			s += "\n"
		}
		s += err.Error()
	}
	return s
}
func (e *joinError) Unwrap() []error { return e.errs }

func poolGet(p *sync.Pool) any {
	if p.New != nil {
		return p.New()
	}
	return nil
}
func poolPut(p *sync.Pool, x any) {}

func sortSliceIsSorted(x any, less func(i, j int) bool) bool {
	for i := anyLen(x) - 1; i > 0; i-- {
		if less(i, i-1) {
			return false
		}
	}
	return true
}

// ---- crypto ----

type md5Hash struct{ data []byte }

func (h *md5Hash) Write(p []byte) (int, error) {
	h.data = append(h.data, p...)
	return len(p), nil
}
func (h *md5Hash) WriteString(s string) (int, error) { return h.Write([]byte(s)) }
func (h *md5Hash) Sum(b []byte) []byte               { return append(b, md5sum(h.data)...) }
func (h *md5Hash) Reset()                            { h.data = nil }
func (h *md5Hash) Size() int                         { return 16 }
func (h *md5Hash) BlockSize() int                    { return 64 }

type hashHash interface {
	io.Writer
	Sum(b []byte) []byte
	Reset()
	Size() int
	BlockSize() int
}

func md5New() hashHash { return &md5Hash{} }
func md5Sum(b []byte) (r [16]byte) {
	copy(r[:], md5sum(b))
	return
}

type rc4State struct {
	key []byte
	pos int
}

type keySizeErr int

func (k keySizeErr) Error() string { return "invalid key size " + strconv.Itoa(int(k)) }

var rc4s = map[*rc4.Cipher]*rc4State{}

func rc4New(key []byte) (*rc4.Cipher, error) {
	if len(key) < 1 || len(key) > 256 {
		return nil, keySizeErr(len(key))
	}
	c := new(rc4.Cipher)
	rc4s[c] = &rc4State{append([]byte{}, key...), 0}
	return c, nil
}

func rc4XOR(c *rc4.Cipher, dst, src []byte) {
	if len(src) == 0 {
		return
	}
	_ = dst[:len(src)]
	st := rc4s[c]
	if st == nil {
		var p *int
		*p = 0 // method on a nil cipher
	}
	ks := rc4stream(st.key, st.pos, len(src))
	st.pos += len(src)
	for i := range src {
		dst[i] = src[i] ^ ks[i]
	}
}

type block interface {
	BlockSize() int
	Encrypt(dst, src []byte)
	Decrypt(dst, src []byte)
}

type blockMode interface {
	BlockSize() int
	CryptBlocks(dst, src []byte)
}

type aesCipher struct{ key []byte }

func (a *aesCipher) BlockSize() int { return 16 }
func (a *aesCipher) Encrypt(dst, src []byte) {
	if len(src) < 16 {
		panic("crypto/aes: input not full block")
	}
	if len(dst) < 16 {
		panic("crypto/aes: output not full block")
	}
	copy(dst, aesblock(a.key, src[:16], true))
}
func (a *aesCipher) Decrypt(dst, src []byte) {
	if len(src) < 16 {
		panic("crypto/aes: input not full block")
	}
	if len(dst) < 16 {
		panic("crypto/aes: output not full block")
	}
	copy(dst, aesblock(a.key, src[:16], false))
}

func aesNewCipher(key []byte) (block, error) {
	if len(key) != 16 && len(key) != 24 && len(key) != 32 {
		return nil, keySizeErr(len(key))
	}
	return &aesCipher{append([]byte{}, key...)}, nil
}

type cbc struct {
	b   block
	iv  []byte
	enc bool
}

func (c *cbc) BlockSize() int { return c.b.BlockSize() }
func (c *cbc) CryptBlocks(dst, src []byte) {
	if len(src)%16 != 0 {
		panic("crypto/cipher: input not full blocks")
	}
	if len(dst) < len(src) {
		panic("crypto/cipher: output smaller than input")
	}
	tmp := make([]byte, 16)
	for i := 0; i < len(src); i += 16 {
		in := append([]byte{}, src[i:i+16]...)
		if c.enc {
			for j := range in {
				in[j] ^= c.iv[j]
			}
			c.b.Encrypt(tmp, in)
			copy(dst[i:], tmp)
			copy(c.iv, tmp)
		} else {
			c.b.Decrypt(tmp, in)
			for j := range tmp {
				dst[i+j] = tmp[j] ^ c.iv[j]
			}
			copy(c.iv, in)
		}
	}
}

func newCBC(b block, iv []byte, enc bool) blockMode {
	if b == nil {
		var p *int
		*p = 0
	}
	if len(iv) != b.BlockSize() {
		panic("cipher.NewCBC: IV length must equal block size")
	}
	return &cbc{b, append([]byte{}, iv...), enc}
}
func cbcDecrypter(b block, iv []byte) blockMode { return newCBC(b, iv, false) }
func cbcEncrypter(b block, iv []byte) blockMode { return newCBC(b, iv, true) }

// ---- sync ----

var onces = map[any]bool{}

func onceDo(o any, f func()) {
	if onces[o] {
		return
	}
	onces[o] = true
	f()
}

// ---- file system ----

type node struct {
	name string
	dir  bool
	data []byte
	kids []*node
	link string
}

type handle struct {
	n      *node
	name   string
	pos    int
	closed bool
	rd, wr bool
	app    bool
}

var root = &node{dir: true}
var handles = map[*os.File]*handle{}
var stdout, stderr *node

// FailAt makes the n-th (1-based) mutating operation fail; 0 disables.
var FailAt int
var ops int

var errInjected = errors.New("injected failure")

func fail() bool {
	if FailAt == 0 {
		return false
	}
	ops++
	return ops == FailAt
}

func Setup() {
	os.ErrInvalid = fs.ErrInvalid
	os.ErrNotExist = fs.ErrNotExist
	os.ErrExist = fs.ErrExist
	os.ErrPermission = fs.ErrPermission
	os.ErrClosed = fs.ErrClosed
	os.Args = []string{"pdfparser"}
	os.Stdin = newFile(&node{}, "stdin", true, false)
	stdout, stderr = &node{}, &node{}
	os.Stdout = newFile(stdout, "stdout", false, true)
	os.Stderr = newFile(stderr, "stderr", false, true)
	root.kids = append(root.kids, &node{name: "w", dir: true})
}

func newFile(n *node, name string, rd, wr bool) *os.File {
	f := new(os.File)
	handles[f] = &handle{n: n, name: name, rd: rd, wr: wr}
	return f
}

func split(p string) []string {
	if p == "" {
		return nil
	}
	if p[0] != '/' {
		p = "/w/" + p
	}
	var out []string
	start := 0
	for i := 0; i <= len(p); i++ {
		if i == len(p) || p[i] == '/' {
			s := p[start:i]
			start = i + 1
			if s == "" || s == "." {
				continue
			}
			if s == ".." {
				if len(out) > 0 {
					out = out[:len(out)-1]
				}
				continue
			}
			out = append(out, s)
		}
	}
	return out
}

func child(n *node, name string) *node {
	for _, k := range n.kids {
		if k.name == name {
			return k
		}
	}
	return nil
}

// find returns the node, its parent and the last component.
func find(p string) (*node, *node, string, error) { return look(p, true, 0) }

// findLink does not follow a link at the end.
func findLink(p string) (*node, *node, string, error) { return look(p, false, 0) }

func look(p string, follow bool, depth int) (*node, *node, string, error) {
	if p == "" {
		return nil, nil, "", fs.ErrNotExist
	}
	if indexNul(p) {
		return nil, nil, "", fs.ErrInvalid
	}
	slash := p[len(p)-1] == '/'
	parts := split(p)
	n := root
	var par *node
	last := ""
	at := ""
	for i, s := range parts {
		if !n.dir {
			return nil, nil, "", errNotDir
		}
		if len(s) > 255 {
			return nil, nil, "", errTooLong
		}
		par, last = n, s
		n = child(n, s)
		if n == nil {
			if i == len(parts)-1 {
				return nil, par, last, fs.ErrNotExist
			}
			return nil, nil, "", fs.ErrNotExist
		}
		if n.link != "" && (i < len(parts)-1 || follow || slash) {
			if depth > 8 {
				return nil, nil, "", errLoop
			}
			to := n.link
			if to[0] != '/' {
				to = at + "/" + to
			}
			m, mpar, mlast, err := look(to, true, depth+1)
			if err != nil {
				if i < len(parts)-1 {
					mpar = nil
				}
				return nil, mpar, mlast, err
			}
			n, par, last = m, mpar, mlast
			at = to
		} else {
			at += "/" + s
		}
	}
	if slash && !n.dir {
		return nil, nil, "", errNotDir
	}
	return n, par, last, nil
}

var errMany = errors.New("too many open files")
var errLoop = errors.New("too many levels of symbolic links")

func osSymlink(to, p string) error {
	n, par, last, err := findLink(p)
	if n != nil {
		return perr("symlink", p, fs.ErrExist)
	}
	if par == nil {
		return perr("symlink", p, err)
	}
	if fail() {
		return perr("symlink", p, errInjected)
	}
	par.kids = append(par.kids, &node{name: last, link: to})
	return nil
}

func osReadlink(p string) (string, error) {
	n, _, _, err := findLink(p)
	if err != nil {
		return "", perr("readlink", p, err)
	}
	if n.link == "" {
		return "", perr("readlink", p, fs.ErrInvalid)
	}
	return n.link, nil
}

func osLstat(p string) (fs.FileInfo, error) {
	n, _, _, err := findLink(p)
	if err != nil {
		return nil, perr("lstat", p, err)
	}
	return info{n}, nil
}

var errNotDir = errors.New("not a directory")
var errTooLong = errors.New("file name too long")
var errIsDir = errors.New("is a directory")
var errBad = errors.New("bad file descriptor")

func perr(op, p string, err error) error { return &fs.PathError{Op: op, Path: p, Err: err} }

func osOpenFile(p string, flag int, perm os.FileMode) (*os.File, error) {
	if indexNul(p) {
		return nil, perr("open", p, fs.ErrInvalid)
	}
	if most > 0 && openFiles()+1 >= most {
		return nil, perr("open", p, errMany)
	}
	n, par, last, err := find(p)
	wr := flag&(os.O_WRONLY|os.O_RDWR) != 0
	rd := flag&os.O_WRONLY == 0
	if n == nil {
		if par == nil || flag&os.O_CREATE == 0 {
			return nil, perr("open", p, err)
		}
		if fail() {
			return nil, perr("open", p, errInjected)
		}
		n = &node{name: last}
		par.kids = append(par.kids, n)
	} else {
		if flag&os.O_EXCL != 0 && flag&os.O_CREATE != 0 {
			return nil, perr("open", p, fs.ErrExist)
		}
		if n.dir && wr {
			return nil, perr("open", p, errIsDir)
		}
		if wr && fail() {
			return nil, perr("open", p, errInjected)
		}
		if flag&os.O_TRUNC != 0 {
			n.data = nil
		}
	}
	f := newFile(n, p, rd, wr)
	handles[f].app = flag&os.O_APPEND != 0
	return f, nil
}

func indexNul(p string) bool {
	for i := 0; i < len(p); i++ {
		if p[i] == 0 {
			return true
		}
	}
	return false
}

func osOpen(p string) (*os.File, error) { return osOpenFile(p, os.O_RDONLY, 0) }
func osCreate(p string) (*os.File, error) {
	return osOpenFile(p, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
}

func osReadFile(p string) ([]byte, error) {
	n, _, _, err := find(p)
	if err != nil {
		return nil, perr("open", p, err)
	}
	if n.dir {
		return nil, perr("read", p, errIsDir)
	}
	return append([]byte{}, n.data...), nil
}

func osWriteFile(p string, data []byte, perm os.FileMode) error {
	f, err := osOpenFile(p, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	f.Close()
	return err
}

func osMkdir(p string, perm os.FileMode) error {
	n, par, last, err := findLink(p)
	if n != nil {
		return perr("mkdir", p, fs.ErrExist)
	}
	if par == nil {
		return perr("mkdir", p, err)
	}
	if fail() {
		return perr("mkdir", p, errInjected)
	}
	par.kids = append(par.kids, &node{name: last, dir: true})
	return nil
}

func osMkdirAll(p string, perm os.FileMode) error {
	if p == "" {
		return perr("mkdir", p, fs.ErrNotExist)
	}
	if indexNul(p) {
		return perr("mkdir", p, fs.ErrInvalid)
	}
	at := ""
	for _, s := range split(p) {
		at += "/" + s
		n, par, last, err := find(at)
		if n == nil {
			// a link to nothing is in the way
			if m, _, _, _ := findLink(at); m != nil {
				return perr("mkdir", p, fs.ErrExist)
			}
			if par == nil || len(s) > 255 {
				return perr("mkdir", p, err)
			}
			if fail() {
				return perr("mkdir", p, errInjected)
			}
			n = &node{name: last, dir: true}
			par.kids = append(par.kids, n)
		}
		if !n.dir {
			return perr("mkdir", p, errNotDir)
		}
	}
	return nil
}

func osRemoveAll(p string) error {
	if p == "" {
		return nil
	}
	if len(p) >= 1 && p[len(p)-1] == '.' && (len(p) == 1 || p[len(p)-2] == '/') {
		return perr("RemoveAll", p, fs.ErrInvalid)
	}
	for len(p) > 1 && p[len(p)-1] == '/' {
		p = p[:len(p)-1]
	}
	n, par, _, err := findLink(p)
	if n == nil && err != fs.ErrNotExist {
		return perr("unlinkat", p, err)
	}
	if n == nil || par == nil {
		return nil
	}
	if fail() {
		return perr("unlinkat", p, errInjected)
	}
	drop(par, n)
	return nil
}

func drop(par, n *node) {
	var kids []*node
	for _, k := range par.kids {
		if k != n {
			kids = append(kids, k)
		}
	}
	par.kids = kids
}

func osRemove(p string) error {
	n, par, _, err := findLink(p)
	if n == nil {
		return perr("remove", p, err)
	}
	if n.dir && len(n.kids) > 0 {
		return perr("remove", p, errors.New("directory not empty"))
	}
	if fail() {
		return perr("remove", p, errInjected)
	}
	drop(par, n)
	return nil
}

func osRename(a, b string) error {
	n, par, _, err := findLink(a)
	if n == nil {
		return perr("rename", a, err)
	}
	m, par2, last, err := findLink(b)
	if par2 == nil {
		return perr("rename", b, err)
	}
	if m != nil {
		drop(par2, m)
	}
	drop(par, n)
	n.name = last
	par2.kids = append(par2.kids, n)
	return nil
}

type info struct{ n *node }

func (i info) Name() string { return i.n.name }
func (i info) Size() int64  { return int64(len(i.n.data)) }
func (i info) Mode() fs.FileMode {
	if i.n.dir {
		return fs.ModeDir | 0755
	}
	if i.n.link != "" {
		return fs.ModeSymlink | 0777
	}
	return 0644
}
func (i info) ModTime() time.Time         { return time.Time{} }
func (i info) IsDir() bool                { return i.n.dir }
func (i info) Sys() any                   { return nil }
func (i info) Type() fs.FileMode          { return i.Mode() & fs.ModeType }
func (i info) Info() (fs.FileInfo, error) { return i, nil }

func osStat(p string) (fs.FileInfo, error) {
	if indexNul(p) {
		return nil, perr("stat", p, fs.ErrInvalid)
	}
	n, _, _, err := find(p)
	if err != nil {
		return nil, perr("stat", p, err)
	}
	return info{n}, nil
}

func osReadDir(p string) ([]os.DirEntry, error) {
	n, _, _, err := find(p)
	if err != nil {
		return nil, perr("open", p, err)
	}
	if !n.dir {
		return nil, perr("readdir", p, errNotDir)
	}
	var out []os.DirEntry
	for _, k := range n.kids {
		i := len(out)
		out = append(out, info{k})
		for i > 0 && out[i].Name() < out[i-1].Name() {
			out[i], out[i-1] = out[i-1], out[i]
			i--
		}
	}
	return out, nil
}

func underlying(err error) error {
	switch e := err.(type) {
	case *fs.PathError:
		return e.Err
	}
	return err
}

func osIsNotExist(err error) bool   { return underlying(err) == fs.ErrNotExist }
func osIsExist(err error) bool      { return underlying(err) == fs.ErrExist }
func osIsPermission(err error) bool { return underlying(err) == fs.ErrPermission }

func hOf(f *os.File) (*handle, error) {
	if f == nil {
		return nil, fs.ErrInvalid
	}
	h := handles[f]
	if h == nil {
		return nil, fs.ErrInvalid
	}
	if h.closed {
		return nil, perr("file", h.name, fs.ErrClosed)
	}
	return h, nil
}

func fileRead(f *os.File, p []byte) (int, error) {
	h, err := hOf(f)
	if err != nil {
		return 0, err
	}
	if h.n.dir {
		return 0, perr("read", h.name, errIsDir)
	}
	if !h.rd {
		return 0, perr("read", h.name, errBad)
	}
	if len(p) == 0 {
		return 0, nil
	}
	if h.pos >= len(h.n.data) {
		return 0, io.EOF
	}
	n := copy(p, h.n.data[h.pos:])
	h.pos += n
	return n, nil
}

func fileReadAt(f *os.File, p []byte, off int64) (int, error) {
	h, err := hOf(f)
	if err != nil {
		return 0, err
	}
	if off < 0 {
		return 0, perr("readat", h.name, errors.New("negative offset"))
	}
	if off >= int64(len(h.n.data)) {
		return 0, io.EOF
	}
	n := copy(p, h.n.data[off:])
	if n < len(p) {
		return n, io.EOF
	}
	return n, nil
}

func fileWrite(f *os.File, p []byte) (int, error) {
	h, err := hOf(f)
	if err != nil {
		return 0, err
	}
	if !h.wr {
		return 0, perr("write", h.name, errBad)
	}
	if fail() {
		return 0, perr("write", h.name, errInjected)
	}
	if h.app {
		h.pos = len(h.n.data)
	}
	for len(h.n.data) < h.pos {
		h.n.data = append(h.n.data, 0)
	}
	k := copy(h.n.data[h.pos:], p)
	h.n.data = append(h.n.data, p[k:]...)
	h.pos += len(p)
	return len(p), nil
}

func fileWriteString(f *os.File, s string) (int, error) { return fileWrite(f, []byte(s)) }

func fileClose(f *os.File) error {
	h, err := hOf(f)
	if err != nil {
		return err
	}
	h.closed = true
	return nil
}

func fileSeek(f *os.File, off int64, whence int) (int64, error) {
	h, err := hOf(f)
	if err != nil {
		return 0, err
	}
	base := int64(0)
	if whence == 1 {
		base = int64(h.pos)
	} else if whence == 2 {
		base = int64(len(h.n.data))
	}
	if base+off < 0 {
		return 0, perr("seek", h.name, errors.New("invalid argument"))
	}
	h.pos = int(base + off)
	return base + off, nil
}

func fileName(f *os.File) string { return handles[f].name }
func fileStat(f *os.File) (fs.FileInfo, error) {
	h, err := hOf(f)
	if err != nil {
		return nil, err
	}
	return info{h.n}, nil
}
func fileReaddirnames(f *os.File, n int) ([]string, error) {
	h, err := hOf(f)
	if err != nil {
		return nil, err
	}
	var names []string
	for _, k := range h.n.kids {
		names = append(names, k.name)
	}
	return names, nil
}
func fileSync(f *os.File) error { return nil }
func fileTruncate(f *os.File, n int64) error {
	h, err := hOf(f)
	if err != nil {
		return err
	}
	for int64(len(h.n.data)) < n {
		h.n.data = append(h.n.data, 0)
	}
	h.n.data = h.n.data[:n]
	return nil
}

// Output returns what was written to standard output and error so far.
func Output() (string, string) { return string(stdout.data), string(stderr.data) }

var exitCode int

func osExit(code int) {
	exitCode = code
	exit(code)
}

// most is how many files may be open, if any limit is set.
var most int

func limitFiles(n int) {
	most = 0
	if n >= 0 {
		most = openFiles() + n + 1
	}
}

func openFiles() int {
	n := 0
	for _, h := range handles {
		if !h.closed {
			n++
		}
	}
	return n
}

func mainBody() {
	runMainInit()
	runMain()
}

// callMain runs the command with the given arguments.
func callMain(args []string) (string, string, int) {
	os.Args = append([]string{"pdfparser"}, args...)
	exitCode = 0
	stdout.data, stderr.data = nil, nil
	mainBody()
	o, e := Output()
	return o, e, exitCode
}

// ---- strconv ----

// hexValues maps hex digits to their values and other bytes to 255.
var hexValues = func() (t [256]byte) {
	for i := range t {
		t[i] = 255
	}
	for i := 0; i < 10; i++ {
		t['0'+i] = byte(i)
	}
	for i := 0; i < 6; i++ {
		t['a'+i], t['A'+i] = byte(10+i), byte(10+i)
	}
	return
}()

// strconvParseUint keeps pairs of hex digits symbolic.
func strconvParseUint(s string, base, bits int) (uint64, error) {
	if base == 16 && bits == 8 && len(s) == 2 {
		a, b := hexValues[s[0]], hexValues[s[1]]
		if a < 16 && b < 16 {
			return uint64(a)<<4 | uint64(b), nil
		}
	}
	fail := func(err error) error { return &strconv.NumError{Func: "ParseUint", Num: s, Err: err} }
	if s == "" {
		return 0, fail(strconv.ErrSyntax)
	}
	if base < 2 || base > 36 || bits < 0 || bits > 64 {
		unsupported("ParseUint")
	}
	if bits == 0 {
		bits = 64
	}
	cutoff := ^uint64(0)/uint64(base) + 1
	max := uint64(1)<<uint(bits) - 1
	n := uint64(0)
	for i := 0; i < len(s); i++ {
		c := s[i]
		var d byte
		switch l := c | 32; {
		case '0' <= c && c <= '9':
			d = c - '0'
		case 'a' <= l && l <= 'z':
			d = l - 'a' + 10
		default:
			return 0, fail(strconv.ErrSyntax)
		}
		if d >= byte(base) {
			return 0, fail(strconv.ErrSyntax)
		}
		if n >= cutoff {
			return max, fail(strconv.ErrRange)
		}
		n *= uint64(base)
		m := n + uint64(d)
		if m < n || m > max {
			return max, fail(strconv.ErrRange)
		}
		n = m
	}
	return n, nil
}
