package verifh

import (
	"bufio"
	"bytes"
	"container/heap"
	"container/list"
	"crypto/aes"
	"crypto/cipher"
	"crypto/md5"
	"crypto/rc4"
	"encoding/ascii85"
	"encoding/binary"
	"encoding/hex"
	"errors"
	"fmt"
	"hash/adler32"
	"io"
	"log"
	"maps"
	"math"
	"math/bits"
	"os"
	"path"
	"path/filepath"
	"regexp"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"unicode"
	"unicode/utf16"
	"unicode/utf8"

	. "github.com/KarmaPenny/pdfparser/verifsym"
)

// The harnesses of C99 state no property of the parser: they run features of the language and the
// library, each of which a rewritten parser may use, and compare with the real ones.

func obs(a ...any) { Observe("x", fmt.Sprintln(a...)) }

func C99_fmt() {
	b := Byte()
	s := "a" + string([]byte{b}) + "z"
	Assume(b < 128)
	Observe("1", fmt.Sprintf("%x", [4]byte{1, b, 200, 0}))
	Observe("2", fmt.Sprintf("%X", []byte(s)))
	Observe("3", fmt.Sprintf("%02x%02X", b, b))
	Observe("4", fmt.Sprintf("%5d|%-5d|%05d|%+d", 12, -3, -42, 7))
	Observe("5", fmt.Sprintf("%s|%v|%q|%c", s, s, "q\n", 'c'))
	Observe("6", fmt.Sprintf("%v %v %v %v", []int{1, 2}, []string{"a"}, map[string]int{"z": 1, "a": 2}, struct {
		A int
		B string
	}{1, "x"}))
	Observe("7", fmt.Sprintf("%t %v %T", true, false, 3))
	Observe("8", fmt.Sprintf("%f %.2f %g %e", 1.5, 2.345, 1e21, 12.5))
	Observe("9", fmt.Sprintf("%10s|%-10s|%.2s|%*d", "ab", "ab", "abcdef", 4, 5))
	Observe("10", fmt.Sprintf("%v %v", errors.New("e"), nil))
	Observe("11", fmt.Sprintf("%s %d", []string{"a", "b"}, []int{1, 2}))
	Observe("12", fmt.Sprintf("%o %b %#x %#o", 8, 5, 255, 8))
	Observe("13", fmt.Sprint("a", 1, 2, "b", "c", 3.5))
	Observe("14", fmt.Sprintf("%[2]d %[1]d", 1, 2))
	Observe("15", fmt.Sprintf("%v %v", &struct{ A int }{1}, []byte{1, b}))
	Observe("16", fmt.Sprintf("%s", []byte(s)))
	Observe("17", fmt.Sprintf("% x|%#v|%U", []byte("abc"), "s", 'x'))
	Observe("18", fmt.Sprintf("%6.2f|%03d|%x|%x", 3.14159, 7, -255, "hi"))
	Observe("19", string(fmt.Appendf(nil, "%d-%s", 3, "x"))+string(fmt.Append(nil, "x", 1))+string(fmt.Appendln(nil, "x", 1)))
}

func C99_scan() {
	var a, b int
	var s string
	n, err := fmt.Sscanf("12 34 abc", "%d %d %s", &a, &b, &s)
	obs(n, err, a, b, s)
	n, err = fmt.Sscan("5 6", &a, &b)
	obs(n, err, a, b)
	d := Bytes(2)
	Assume(d[0] < 128 && d[1] < 128)
	n, err = fmt.Sscanf(string(d)+" 7 obj", "%d %d obj", &a, &b)
	obs(n, err == nil, a, b)
	n, err = fmt.Sscanf(string(d), "%02x", &a)
	obs(n, err == nil, a)
}

func C99_anchors() {
	d := Bytes(3)
	for _, e := range []string{`\bobj\b`, `^\d+`, `(?m)^x|y$`, `\d+\b`, `a\Bb`, `\bx*`, `(a|ab)(c|bcd)*$`, `[^a]?$`} {
		re := regexp.MustCompile(e)
		s := "ab" + string(d) + "obj\nx 12"
		obs(e, re.FindAllStringIndex(s, -1), re.FindReaderIndex(strings.NewReader("1 objx "+string(d[:1])+"obj")))
	}
	Assume(d[0] < 128 && d[1] < 128 && d[2] < 128)
}

func C99_keys() {
	b := Byte()
	type ref struct{ n, g int }
	type deep struct {
		r ref
		s string
		p *int
		e any
	}
	m := map[ref]int{{1, 0}: 5, {0, 0}: 7}
	obs(m[ref{int(b), 0}], m[ref{int(b - b), 0}], m[ref{n: 1}], m[ref{}])
	m[ref{int(b), 0}] += 2
	obs(len(m))
	delete(m, ref{1, 0})
	obs(len(m))
	k := map[deep]int{}
	k[deep{}]++
	k[deep{ref{0, 0}, "", nil, nil}]++
	var z deep
	z.r.g = 1
	z.r.g = 0
	k[z]++
	k[deep{e: ref{}}]++
	k[deep{e: ref{0, 0}}]++
	obs(len(k), k[deep{}], k[deep{e: ref{}}])
	a := map[[3]byte]int{}
	a[[3]byte{}]++
	a[[3]byte{0, 0, 0}]++
	a[[3]byte{b}]++
	obs(len(a), a[[3]byte{}])
	i := map[any]int{ref{}: 1, 1: 2, "x": 3, nil: 4, [1]int{0}: 5}
	obs(i[ref{0, 0}], i[nil], i[int(b)], i[[1]int{}])
	f := map[bool]int{true: 1}
	f[b > 3]++
	obs(f[true], len(f), z == deep{}, any(z) == any(deep{}))
}

func C99_errors() {
	e := errors.New("a")
	w := fmt.Errorf("b: %w", e)
	obs(errors.Is(w, e), errors.Unwrap(w) == e, w, errors.Join(e, w))
	_, err := os.Open(Path("nothing"))
	var pe *os.PathError
	obs(errors.As(err, &pe), errors.Is(err, os.ErrNotExist), os.IsNotExist(err))
	_, err = strconv.Atoi("x")
	var ne *strconv.NumError
	obs(errors.As(err, &ne), ne.Func, err)
	type my struct{ error }
	obs(errors.As(fmt.Errorf("x %w", my{e}), new(my)))
}

func C99_strconv() {
	d := digits(3)
	n, err := strconv.Atoi(string(d))
	obs(n, err)
	m, err := strconv.ParseInt(string(d), 8, 64)
	obs(m, err)
	m, err = strconv.ParseInt("-"+string(d), 10, 16)
	obs(m, err)
	u, err := strconv.ParseUint(string(d), 16, 8)
	obs(u, err)
	f, err := strconv.ParseFloat("12.5", 64)
	obs(f, err)
	obs(strconv.Itoa(n), strconv.FormatInt(m, 16), strconv.FormatUint(u, 2), strconv.Quote("a\n"), strconv.FormatFloat(2.5, 'f', -1, 64), strconv.FormatFloat(2.5, 'g', 3, 32))
	Observe("a", string(strconv.AppendInt([]byte("x"), int64(n), 10)))
	b, err := strconv.ParseBool("true")
	obs(b, err)
	x, err := strconv.Unquote(`"a\x41"`)
	obs(x, err)
	obs(string(strconv.AppendQuote(nil, "h")), string(strconv.AppendUint(nil, 7, 10)), strconv.FormatBool(true), string(strconv.AppendFloat(nil, 1.25, 'f', 2, 64)))
}

func C99_strings() {
	b := Byte()
	Assume(b < 128)
	s := "ab" + string([]byte{b}) + "c,d"
	obs(strings.Contains(s, ","), strings.Index(s, "c"), strings.LastIndex(s, "a"), strings.HasPrefix(s, "ab"), strings.HasSuffix(s, "d"))
	obs(strings.Split(s, ","), strings.Fields(" a  b c "), strings.Join([]string{"x", s}, "-"), strings.Repeat("xy", 3))
	obs(strings.ToUpper(s), strings.ToLower(s), strings.TrimSpace(" x "), strings.Trim(s, "ad"), strings.TrimLeft(s, "a"), strings.TrimRight(s, "d"))
	obs(strings.TrimPrefix(s, "a"), strings.TrimSuffix(s, "d"), strings.Replace(s, "a", "b", 1), strings.ReplaceAll(s, "a", "bb"), strings.Count(s, "a"))
	x, y, ok := strings.Cut(s, ",")
	obs(x, y, ok, strings.EqualFold("aB", "Ab"), strings.ContainsRune(s, 'd'), strings.ContainsAny(s, "xyz"), strings.IndexAny(s, "d,"), strings.IndexByte(s, b))
	obs(strings.Map(func(r rune) rune { return r + 1 }, "abc"), strings.SplitN("a,b,c", ",", 2), strings.Title("ab"), strings.Compare("a", "b"))
	obs(strings.IndexFunc(s, unicode.IsDigit), strings.FieldsFunc("a1b", unicode.IsDigit), strings.TrimFunc("1a1", unicode.IsDigit), strings.LastIndexByte(s, 'c'))
	var sb strings.Builder
	sb.WriteString(s)
	sb.WriteByte(b)
	sb.WriteRune('é')
	fmt.Fprintf(&sb, "%d", 3)
	sb.Grow(10)
	obs(sb.String(), sb.Len())
	r := strings.NewReader(s)
	c, err := r.ReadByte()
	obs(c, err, r.Len())
	obs(strings.NewReplacer("a", "1", "b", "2").Replace(s))
	for w := range strings.SplitSeq("a b", " ") {
		obs(w)
	}
	obs(strings.CutPrefix(s, "ab"))
	obs(strings.Clone(s), strings.ToTitle("x"), strings.ToValidUTF8("a\xff", "?"), strings.SplitAfter("a,b", ","))
}

func C99_bytes() {
	b := Byte()
	s := []byte{'a', b, 'c', ','}
	obs(bytes.Contains(s, []byte("c")), bytes.Index(s, []byte("c,")), bytes.LastIndex(s, []byte("a")), bytes.HasPrefix(s, []byte("a")), bytes.HasSuffix(s, []byte(",")))
	obs(bytes.Equal(s, s), bytes.Compare(s, []byte("ab")), bytes.IndexAny(s, ",x"), bytes.ContainsAny(s, "xyz"), bytes.Count(s, []byte("a")), bytes.ContainsRune([]byte("abc"), 'c'))
	Observe("a", string(bytes.Repeat(s, 2))+string(bytes.Join([][]byte{s, s}, []byte("-"))))
	Observe("b", string(bytes.ReplaceAll([]byte("aXbX"), []byte("X"), s))+string(bytes.Trim(s, ",")))
	Observe("c", string(bytes.TrimRight(s, ",c"))+string(bytes.TrimLeft(s, "a"))+string(bytes.TrimSuffix(s, []byte(",")))+string(bytes.TrimPrefix(s, []byte("a"))))
	obs(len(bytes.Split([]byte("a,b"), []byte(","))), len(bytes.Fields([]byte("a b"))))
	x, y, ok := bytes.Cut(s, []byte(","))
	Observe("d", string(x)+string(y))
	obs(ok)
	var buf bytes.Buffer
	buf.Write(s)
	buf.WriteString("x")
	buf.WriteByte(b)
	buf.Truncate(4)
	n, err := buf.ReadFrom(bytes.NewReader(s))
	obs(n, err, buf.Len())
	l, err := buf.ReadBytes(',')
	Observe("e", string(l))
	Observe("f", string(buf.Next(2))+buf.String())
	buf.Reset()
	r := bytes.NewReader(s)
	r.Seek(1, io.SeekStart)
	z := make([]byte, 2)
	r.Read(z)
	Observe("g", string(z))
	w, err := r.WriteTo(&buf)
	obs(w, err, r.Size())
	Observe("h", string(bytes.ToUpper([]byte("abc")))+string(bytes.Clone(s))+string(bytes.TrimSpace([]byte(" a ")))+string(bytes.TrimFunc([]byte("1a"), unicode.IsDigit)))
	obs(bytes.IndexFunc([]byte("ab1"), unicode.IsDigit), bytes.LastIndexByte(s, ','), bytes.EqualFold([]byte("a"), []byte("A")), bytes.IndexRune([]byte("abc"), 'b'))
	Observe("i", string(bytes.Map(func(r rune) rune { return r + 1 }, []byte("abc"))))
}

func C99_slices() {
	b := Byte()
	s := []byte{3, b, 1}
	obs(slices.Contains(s, 1), slices.Index(s, 1), slices.Equal(s, s), slices.Max(s), slices.Min(s))
	t := slices.Clone(s)
	slices.Reverse(t)
	Observe("a", string(t))
	slices.Sort(t)
	Observe("b", string(t))
	x := []int{3, 1, 2}
	slices.SortFunc(x, func(a, b int) int { return a - b })
	obs(x, slices.IndexFunc(x, func(a int) bool { return a == 2 }), slices.Insert(x, 1, 9), slices.Delete([]int{1, 2, 3}, 0, 1))
	i, ok := slices.BinarySearch(x, 2)
	obs(i, ok, slices.Compact([]int{1, 1, 2}), slices.Concat(x, x), slices.Repeat(x, 2), slices.ContainsFunc(x, func(a int) bool { return a > 2 }))
	m := map[string]int{"a": 1, "b": 2}
	obs(slices.Sorted(maps.Keys(m)), len(slices.Collect(maps.Values(m))))
	n := maps.Clone(m)
	maps.Copy(n, map[string]int{"c": 3})
	maps.DeleteFunc(n, func(k string, v int) bool { return v == 1 })
	obs(len(n), maps.Equal(m, n))
	for i, v := range slices.Backward(x) {
		obs(i, v)
	}
	obs(slices.Grow(x, 10), slices.Clip(x), slices.Collect(slices.Values(x)), slices.IsSorted(x))
	for c := range slices.Chunk([]int{1, 2, 3}, 2) {
		obs(c)
	}
	slices.SortStableFunc(x, func(a, b int) int { return b - a })
	obs(x, slices.Compare(x, x), slices.Replace(x, 0, 1, 7, 8))
}

type byLen []string

func (b byLen) Len() int           { return len(b) }
func (b byLen) Less(i, j int) bool { return len(b[i]) < len(b[j]) }
func (b byLen) Swap(i, j int)      { b[i], b[j] = b[j], b[i] }

type intHeap []int

func (h intHeap) Len() int           { return len(h) }
func (h intHeap) Less(i, j int) bool { return h[i] < h[j] }
func (h intHeap) Swap(i, j int)      { h[i], h[j] = h[j], h[i] }
func (h *intHeap) Push(x any)        { *h = append(*h, x.(int)) }
func (h *intHeap) Pop() any {
	o := *h
	x := o[len(o)-1]
	*h = o[:len(o)-1]
	return x
}

func C99_sort() {
	x := []int{3, 1, 2}
	sort.Ints(x)
	s := []string{"ccc", "a", "bb"}
	sort.Sort(byLen(s))
	obs(x, s, sort.SearchInts(x, 2), sort.Search(10, func(i int) bool { return i > 4 }))
	sort.Strings(s)
	sort.Sort(sort.Reverse(sort.IntSlice(x)))
	sort.Stable(byLen(s))
	sort.SliceStable(s, func(i, j int) bool { return s[i] > s[j] })
	obs(x, s, sort.IntsAreSorted(x), sort.SliceIsSorted(x, func(i, j int) bool { return x[i] < x[j] }))
	h := &intHeap{4, 2, 8}
	heap.Init(h)
	heap.Push(h, 1)
	obs(heap.Pop(h), heap.Pop(h))
	l := list.New()
	l.PushBack(1)
	l.PushFront(0)
	for e := l.Front(); e != nil; e = e.Next() {
		obs(e.Value)
	}
}

func C99_io() {
	b := Byte()
	src := []byte{'a', b, '\n', 'c', ' ', 'd'}
	var out bytes.Buffer
	n, err := io.Copy(&out, io.LimitReader(bytes.NewReader(src), 3))
	obs(n, err)
	Observe("a", out.String())
	all, _ := io.ReadAll(io.MultiReader(bytes.NewReader(src), strings.NewReader("zz")))
	Observe("b", string(all))
	all, _ = io.ReadAll(io.TeeReader(bytes.NewReader(src), &out))
	Observe("c", string(all)+out.String())
	x := make([]byte, 4)
	k, err := io.ReadFull(bytes.NewReader(src), x)
	obs(k, err)
	k, err = io.ReadAtLeast(bytes.NewReader(src[:2]), x, 3)
	obs(k, err)
	all, _ = io.ReadAll(io.NewSectionReader(bytes.NewReader(src), 1, 3))
	Observe("d", string(all))
	k, err = io.WriteString(&out, "x")
	obs(k, err)
	n, err = io.CopyN(io.Discard, bytes.NewReader(src), 2)
	obs(n, err)
	w := bufio.NewWriter(&out)
	w.WriteString("hello")
	w.WriteByte(b)
	fmt.Fprintf(w, "%d", 1)
	w.Flush()
	Observe("e", out.String())
	Assume(b == 'k' || b == '\r')
	sc := bufio.NewScanner(bytes.NewReader(src))
	for sc.Scan() {
		Observe("f", sc.Text())
	}
	sc = bufio.NewScanner(bytes.NewReader(src))
	sc.Split(bufio.ScanWords)
	for sc.Scan() {
		Observe("g", sc.Text())
	}
	r := bufio.NewReaderSize(bytes.NewReader(src), 16)
	p, err := r.Peek(2)
	Observe("h", string(p))
	l, err := r.ReadString('\n')
	Observe("i", l)
	q, _, err := r.ReadRune()
	obs(q, r.UnreadRune(), r.Buffered(), err)
	r.Discard(1)
	s, err := r.ReadSlice(' ')
	Observe("j", string(s))
	obs(err)
	mw := io.MultiWriter(&out, io.Discard)
	mw.Write([]byte("x"))
	pr := io.NopCloser(&out)
	pr.Close()
	li, pre, err := bufio.NewReader(bytes.NewReader(src)).ReadLine()
	obs(string(li), pre, err)
}

func C99_encoding() {
	b := Byte()
	s := []byte{1, b, 250, 'x'}
	Observe("a", hex.EncodeToString(s))
	Observe("b", hex.EncodeToString(s[:1])+string(hex.AppendEncode(nil, s)))
	d, err := hex.DecodeString("0aFf")
	Observe("c", string(d))
	obs(err)
	Observe("d", string(binary.BigEndian.AppendUint32(nil, binary.LittleEndian.Uint32(s))))
	obs(binary.BigEndian.Uint16([]byte{1, 2}))
	binary.LittleEndian.PutUint64(make([]byte, 8), 5)
	h := md5.New()
	h.Write([]byte("abc"))
	Observe("e", fmt.Sprintf("%x", h.Sum(nil)))
	z := md5.Sum([]byte("abc"))
	Observe("f", hex.EncodeToString(z[:]))
	obs(adler32.Checksum([]byte("abc")))
	c, _ := rc4.NewCipher([]byte("key"))
	o := make([]byte, 4)
	c.XORKeyStream(o, []byte("data"))
	Observe("g", string(o))
	a, err := aes.NewCipher(make([]byte, 16))
	cipher.NewCBCDecrypter(a, make([]byte, 16)).CryptBlocks(o[:0], nil)
	obs(err, a.BlockSize(), aes.BlockSize, md5.Size)
	o = make([]byte, 8)
	n, m, err := ascii85.Decode(o, []byte("87cUR"), true)
	obs(n, m, err, string(o[:n]))
	n = hex.Encode(make([]byte, 8), s)
	obs(n, hex.EncodedLen(4))
	io.WriteString(h, "x")
	obs(h.Size(), h.BlockSize())
	var u uint32
	err = binary.Read(bytes.NewReader([]byte{1, 2, 3, 4}), binary.BigEndian, &u)
	obs(u, err)
}

func C99_math() {
	b := Byte()
	obs(math.Pow(2, 10), math.Floor(2.5), math.Ceil(2.5), math.Trunc(-2.5), math.Round(2.5), math.Max(1, 2), math.Min(1, 2), math.Sqrt(16), math.Mod(7, 4), math.MaxInt32, math.Inf(1) > 1, math.IsNaN(math.NaN()), math.IsInf(1, 0), math.Abs(-1), math.Signbit(-1), math.Log2(8), math.Log10(100), math.Pow10(2), math.Hypot(3, 4))
	obs(bits.OnesCount(uint(b)), bits.Len8(b), bits.TrailingZeros8(b), bits.LeadingZeros8(b), bits.Reverse8(b), bits.RotateLeft8(b, 3), bits.ReverseBytes32(uint32(b)))
	obs(math.Float64bits(1.5), math.Float32bits(1.5), math.MaxInt)
	q, f := math.Modf(2.5)
	obs(q, f)
	hi, lo := bits.Mul64(1<<40, 1<<40)
	obs(hi, lo)
}

func C99_unicode() {
	b := Byte()
	Assume(b < 128)
	obs(unicode.IsDigit(rune(b)), unicode.IsLetter(rune(b)), unicode.IsSpace(rune(b)), unicode.IsUpper(rune(b)), unicode.IsLower(rune(b)), unicode.IsPunct(rune(b)), unicode.ToUpper(rune(b)), unicode.ToLower(rune(b)), unicode.IsPrint(rune(b)), unicode.IsControl(rune(b)))
	r, n := utf8.DecodeRuneInString("éa")
	obs(r, n, utf8.RuneCountInString("éa"), utf8.ValidString("a\xff"), utf8.RuneLen('é'))
	obs(string(utf16.Decode([]uint16{0x41, 0xd83d, 0xde00})), utf8.AppendRune(nil, 'é'))
	for i, c := range "aé" {
		obs(i, c)
	}
	obs([]rune("éa"), string([]rune{'é', 'a'}))
}

func C99_paths() {
	b := Byte()
	Assume(b < 128 && b != 0)
	s := "a/" + string([]byte{b}) + "/c.txt"
	obs(path.Join("a", "b"), path.Base(s), filepath.Join("a", "..", "b"), filepath.Base(s), filepath.Ext(s), filepath.Clean("a//b/../c"), filepath.Dir(s), path.Clean(s), path.Dir(s), path.Ext(s), path.IsAbs(s), filepath.IsAbs("/x"))
	Observe("j", filepath.Join("out", string([]byte{b})))
}

func C99_files() {
	b := Bytes(3)
	d := Path("dir")
	obs(os.Mkdir(d, 0755), os.MkdirAll(filepath.Join(d, "x/y"), 0755))
	f := filepath.Join(d, "a.txt")
	obs(os.WriteFile(f, b, 0644))
	g, err := os.OpenFile(f, os.O_APPEND|os.O_WRONLY, 0644)
	obs(err)
	g.WriteString("more")
	fmt.Fprintln(g, "line")
	g.Close()
	x, err := os.ReadFile(f)
	Observe("a", string(x))
	st, err := os.Stat(f)
	obs(st.Size(), st.IsDir(), st.Name(), st.Mode().IsRegular(), err)
	es, err := os.ReadDir(d)
	for _, e := range es {
		obs(e.Name(), e.IsDir())
	}
	h, _ := os.Open(f)
	r := bufio.NewReader(h)
	l, _ := r.ReadString('e')
	Observe("b", l)
	h.Seek(0, io.SeekStart)
	y, _ := io.ReadAll(h)
	Observe("c", string(y))
	h.Close()
	obs(os.Rename(f, f+"2"), os.Remove(f+"2"), os.RemoveAll(d))
	_, err = os.Stat(d)
	obs(os.IsNotExist(err), errors.Is(err, os.ErrNotExist))
	if _, err := os.Lstat(d); err != nil {
		obs(err != nil)
	}
	c, err := os.Create(Path("q"))
	w := bufio.NewWriter(c)
	w.Write(b)
	obs(w.Flush(), c.Sync(), c.Close(), err, len(c.Name()) > 0)
}

func C99_regexp() {
	b := Byte()
	Assume(b < 128)
	s := "1 0 obj x" + string([]byte{b}) + " 22 1 obj"
	re := regexp.MustCompile(`(\d+)\s+(\d+)\s+obj`)
	obs(re.MatchString(s), re.FindStringIndex(s), re.FindStringSubmatch(s), re.FindAllStringSubmatch(s, -1), re.FindAllStringIndex(s, -1), re.FindStringSubmatchIndex(s), re.FindAllString(s, -1), re.FindAllStringSubmatchIndex(s, -1))
	obs(re.ReplaceAllString("1 0 obj", "<$1>"), re.NumSubexp(), re.String(), re.FindReaderSubmatchIndex(strings.NewReader(s)), re.FindReaderIndex(bufio.NewReader(strings.NewReader(s))))
	Observe("z", string(regexp.MustCompile(`x.`).ReplaceAll([]byte(s), nil)))
	ok, err := regexp.MatchString("a+", s)
	obs(ok, err, regexp.QuoteMeta("a.b"))
	obs(re.MatchReader(strings.NewReader(s)), re.Split("1 0 obj a 1 0 obj", -1))
	obs(re.Match([]byte(s)), re.FindAllIndex([]byte(s), -1), len(re.FindAll([]byte(s), -1)))
}

type shape interface{ area() int }
type sq struct{ s int }
type rect struct {
	sq
	h int
}

func (s sq) area() int    { return s.s * s.s }
func (r *rect) area() int { return r.s * r.h }

func gen[T any](n int, f func(int) T) func(func(int, T) bool) {
	return func(yield func(int, T) bool) {
		for i := range n {
			if !yield(i, f(i)) {
				return
			}
		}
	}
}

type num interface{ ~int | ~float64 }

func sum[T num](v ...T) (t T) {
	for _, x := range v {
		t += x
	}
	return
}

type pair[K comparable, V any] struct {
	k K
	v V
}

func (p pair[K, V]) String() string { return fmt.Sprint(p.k, p.v) }

func C99_language() {
	b := Byte()
	for i, s := range gen(5, func(i int) string { return strconv.Itoa(i * i) }) {
		if i == 3 {
			break
		}
		obs(i, s)
	}
	var sh []shape = []shape{sq{2}, &rect{sq{2}, 3}}
	for _, s := range sh {
		switch x := s.(type) {
		case sq:
			obs("sq", x.s)
		case *rect:
			obs("rect", x.area(), x.sq.area())
		}
		f := s.area
		obs(f())
	}
	obs(sum(1, 2), sum(1.5, 2), pair[string, int]{"a", 1})
	func() {
		defer func() {
			r := recover()
			_, ok := r.(error)
			obs(ok)
		}()
		var a []int
		_ = a[int(b)]
	}()
	func() (err error) {
		defer func() {
			if r := recover(); r != nil {
				err = fmt.Errorf("%v", r)
				obs(err)
			}
		}()
		panic("boom")
	}()
	m := map[[2]int]string{{1, 2}: "a"}
	obs(m[[2]int{1, 2}], len(m))
	type key struct{ a, b int }
	mk := map[key]int{{1, 2}: 3}
	mk[key{int(b), 0}]++
	obs(mk[key{1, 2}], len(mk))
	mi := map[any]int{1: 1, "a": 2}
	obs(mi[1], mi["a"])
	clear(mi)
	obs(len(mi), min(1, 2, 3), max(int(b), 4))
	arr := [...]int{5: 1}
	ar2 := arr
	ar2[0] = 9
	obs(arr == ar2, len(arr))
	x := [4]byte([]byte{1, 2, 3, b})
	obs(x[3] == b)
outer:
	for i := 0; i < 3; i++ {
		for j := 0; ; j++ {
			if j == 2 {
				continue outer
			}
			if i == 2 {
				break outer
			}
		}
	}
	i := 0
loop:
	if i < 3 {
		i++
		goto loop
	}
	obs(i)
	var once sync.Once
	once.Do(func() { obs("once") })
	var mu sync.Mutex
	mu.Lock()
	mu.Unlock()
	var rw sync.RWMutex
	rw.RLock()
	rw.RUnlock()
	var at atomic.Int64
	at.Add(3)
	obs(at.Load())
	pool := sync.Pool{New: func() any { return new(bytes.Buffer) }}
	pb := pool.Get().(*bytes.Buffer)
	pb.WriteByte(b)
	pool.Put(pb)
	fn := sync.OnceValue(func() int { return 4 })
	obs(fn(), fn())
	p := &arr[2]
	*p = 4
	obs(arr[2], b&^3, -7/2, -7%3, uint8(b)<<3, int8(b)>>1)
	const big = 1 << 40
	obs(big, 'a', "x"[0], len("é"))
	switch {
	case b > 100:
		fallthrough
	case b > 50:
		obs("big")
	default:
		obs("small")
	}
	var lg = log.New(io.Discard, "", 0)
	lg.Println("x")
	l3 := [][]int{{1}, {2, 3}}
	for _, r := range l3 {
		r = append(r, 4)
		obs(r)
	}
	s3 := l3[1][:1:1]
	s3 = append(s3, 7)
	obs(l3, s3, cap(s3) > 1)
	func(v ...string) { obs(len(v), v == nil) }()
	g := (*rect).area
	obs(g(&rect{sq{1}, 2}))
	var e1, e2 error
	obs(e1 == e2, any(3) == any(3), any("a") == any(3))
}

func C99_itoa() {
	d := digits(3)
	n, _ := strconv.Atoi(string(d))
	if n < 100 {
		return
	}
	Observe("n", strconv.Itoa(n))
}

// C99_path compares path functions on any short path.
func C99_path() {
	s := string(Bytes(1 + Choose(4)))
	Observe("clean", path.Clean(s))
	Observe("base", path.Base(s))
	Observe("ext", path.Ext(s))
	Cover("done")
}
