package vm

import (
	"bytes"
	"crypto/aes"
	"crypto/md5"
	"crypto/rc4"
	"fmt"
	"go/types"
	"math"
	"regexp"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
	"verif/engine/smt"
)

// intrinsic implements a function natively. pushed says that it pushed a frame instead.
type intrinsic func(vm *VM, fr *Frame, args []Value) (v Value, pushed bool)

const (
	modPath = "github.com/KarmaPenny/pdfparser/"
	symPkg  = modPath + "verifsym."
	rtPkg   = modPath + "verifrt."
)

// reflection names types a little differently
var byteWord, runeWord, anyWord = regexp.MustCompile(`\bbyte\b`), regexp.MustCompile(`\brune\b`), regexp.MustCompile(`\bany\b|\binterface\{\}`)

// pureIntr may be evaluated speculatively.
var pureIntr = map[string]bool{
	"bytes.IndexByte": true, "strings.IndexByte": true,
	"internal/bytealg.IndexByte": true, "internal/bytealg.IndexByteString": true,
	"math.Abs": true,
}

// redirects maps library functions to their models in verifrt.
var redirects = map[string]string{
	"fmt.Sprintf": "fmtSprintf", "fmt.Sprintln": "fmtSprintln", "fmt.Sprint": "fmtSprint",
	"fmt.Fprintf": "fmtFprintf", "fmt.Fprintln": "fmtFprintln", "fmt.Fprint": "fmtFprint",
	"fmt.Printf": "fmtPrintf", "fmt.Println": "fmtPrintln", "fmt.Print": "fmtPrint",
	"fmt.Errorf": "fmtErrorf", "errors.Is": "errorsIs", "errors.As": "errorsAs",
	"fmt.Appendf": "fmtAppendf", "fmt.Append": "fmtAppend", "fmt.Appendln": "fmtAppendln",
	"sort.Slice": "sortSlice", "sort.SliceStable": "sortSlice",
	"(*regexp.Regexp).FindReaderIndex":            "reFindReaderIndex",
	"(*regexp.Regexp).FindAllSubmatch":            "reFindAllSubmatch",
	"(*regexp.Regexp).FindAllSubmatchIndex":       "reFindAllSubmatchIndex",
	"(*regexp.Regexp).FindAllIndex":               "reFindAllIndex",
	"(*regexp.Regexp).FindSubmatch":               "reFindSubmatch",
	"(*regexp.Regexp).FindSubmatchIndex":          "reFindSubmatchIndex",
	"(*regexp.Regexp).FindIndex":                  "reFindIndex",
	"(*regexp.Regexp).Find":                       "reFind",
	"(*regexp.Regexp).Match":                      "reMatch",
	"(*regexp.Regexp).MatchString":                "reMatchString",
	"(*regexp.Regexp).FindString":                 "reFindString",
	"(*regexp.Regexp).FindStringIndex":            "reFindStringIndex",
	"(*regexp.Regexp).FindStringSubmatch":         "reFindStringSubmatch",
	"(*regexp.Regexp).FindAllStringSubmatch":      "reFindAllStringSubmatch",
	"(*regexp.Regexp).FindAllStringSubmatchIndex": "reFindAllStringSubmatchIndex",
	"(*regexp.Regexp).FindStringSubmatchIndex":    "reFindStringSubmatchIndex",
	"(*regexp.Regexp).FindAllStringIndex":         "reFindAllStringIndex",
	"(*regexp.Regexp).FindAllString":              "reFindAllString",
	"(*regexp.Regexp).FindAll":                    "reFindAll",
	"(*regexp.Regexp).FindReaderSubmatchIndex":    "reFindReaderSubmatchIndex",
	"(*regexp.Regexp).MatchReader":                "reMatchReader",
	"(*regexp.Regexp).Split":                      "reSplit",
	"(*regexp.Regexp).String":                     "reString",
	"(*regexp.Regexp).NumSubexp":                  "reNumSubexp",
	"(*regexp.Regexp).ReplaceAll":                 "reReplaceAll",
	"(*regexp.Regexp).ReplaceAllString":           "reReplaceAllString",
	"(*regexp.Regexp).ReplaceAllLiteralString":    "reReplaceAllLiteralString",
	"(*regexp.Regexp).ReplaceAllFunc":             "reReplaceAllFunc",
	"(*regexp.Regexp).ReplaceAllStringFunc":       "reReplaceAllStringFunc",
	"regexp.MatchString":                          "regexpMatchString",
	"regexp.Match":                                "regexpMatch",
	"regexp.QuoteMeta":                            "regexpQuoteMeta",
	"fmt.Sscanf":                                  "fmtSscanf",
	"fmt.Sscan":                                   "fmtSscan",
	"fmt.Sscanln":                                 "fmtSscan",
	"errors.Join":                                 "errorsJoin",
	"(*sync.Pool).Get":                            "poolGet",
	"(*sync.Pool).Put":                            "poolPut",
	"sort.SliceIsSorted":                          "sortSliceIsSorted",
	"strconv.ParseUint":                           "strconvParseUint",
	"crypto/md5.New":                              "md5New",
	"crypto/md5.Sum":                              "md5Sum",
	"crypto/rc4.NewCipher":                        "rc4New",
	"(*crypto/rc4.Cipher).XORKeyStream":           "rc4XOR",
	"crypto/aes.NewCipher":                        "aesNewCipher",
	"crypto/cipher.NewCBCDecrypter":               "cbcDecrypter",
	"crypto/cipher.NewCBCEncrypter":               "cbcEncrypter",
	"(*sync.Once).Do":                             "onceDo",
	"os.OpenFile":                                 "osOpenFile",
	"os.Open":                                     "osOpen",
	"os.Create":                                   "osCreate",
	"os.ReadFile":                                 "osReadFile",
	"os.WriteFile":                                "osWriteFile",
	"os.Mkdir":                                    "osMkdir",
	"os.MkdirAll":                                 "osMkdirAll",
	"os.RemoveAll":                                "osRemoveAll",
	"os.Remove":                                   "osRemove",
	"os.Rename":                                   "osRename",
	"os.Stat":                                     "osStat",
	"os.Lstat":                                    "osLstat",
	"os.Symlink":                                  "osSymlink",
	"os.Readlink":                                 "osReadlink",
	"os.ReadDir":                                  "osReadDir",
	"os.IsNotExist":                               "osIsNotExist",
	"os.IsExist":                                  "osIsExist",
	"os.IsPermission":                             "osIsPermission",
	"(*os.File).Read":                             "fileRead",
	"(*os.File).ReadAt":                           "fileReadAt",
	"(*os.File).Write":                            "fileWrite",
	"(*os.File).WriteString":                      "fileWriteString",
	"(*os.File).Close":                            "fileClose",
	"(*os.File).Seek":                             "fileSeek",
	"(*os.File).Name":                             "fileName",
	"(*os.File).Readdirnames":                     "fileReaddirnames",
	"(*os.File).Stat":                             "fileStat",
	"(*os.File).Sync":                             "fileSync",
	"(*os.File).Truncate":                         "fileTruncate",
	"os.Exit":                                     "osExit",
	symPkg + "CallMain":                           "callMain",
	symPkg + "OpenFiles":                          "openFiles",
	symPkg + "LimitFiles":                         "limitFiles",
}

var intrinsics map[string]intrinsic

func ret(f func(vm *VM, fr *Frame, a []Value) Value) intrinsic {
	return func(vm *VM, fr *Frame, a []Value) (Value, bool) { return f(vm, fr, a), false }
}

func nop(vm *VM, fr *Frame, a []Value) (Value, bool) { return nil, false }

func (vm *VM) bytesOf(v Value) []*smt.Term {
	switch x := v.(type) {
	case *Slice:
		return vm.sliceBytes(x)
	case *Str:
		return x.Terms(vm.c)
	case nil:
		return nil
	}
	panic(unsupported{fmt.Sprintf("bytes of %T", v)})
}

// inSet builds the condition that the byte term is in s.
func (vm *VM) inSet(t *smt.Term, s smt.Set) *smt.Term {
	c := vm.c
	if t.IsConst() {
		return c.Bool(s.Has(int(t.K)))
	}
	if s.Full() {
		return c.True
	}
	if t.Op == smt.OpVar || t.Op == smt.OpUF {
		return c.InSet(t.Atom, s)
	}
	r := c.False
	for i := 0; i < 256; {
		if !s.Has(i) {
			i++
			continue
		}
		j := i
		for j+1 < 256 && s.Has(j+1) {
			j++
		}
		x := c.And(c.Ule(c.BV(8, uint64(i)), t), c.Ule(t, c.BV(8, uint64(j))))
		r = c.Or(r, x)
		i = j + 1
	}
	return r
}

func (vm *VM) indexByte(h []*smt.Term, b *smt.Term) *smt.Term {
	c := vm.c
	r := c.Int(-1)
	for i := len(h) - 1; i >= 0; i-- {
		r = c.Ite(c.Eq(h[i], b), c.Int(int64(i)), r)
	}
	return r
}

func (vm *VM) indexBytes(h, n []*smt.Term, last bool) *smt.Term {
	c := vm.c
	r := c.Int(-1)
	at := func(i int) *smt.Term {
		m := c.True
		for j := range n {
			m = c.And(m, c.Eq(h[i+j], n[j]))
			if m.IsFalse() {
				break
			}
		}
		return m
	}
	if last {
		for i := 0; i+len(n) <= len(h); i++ {
			r = c.Ite(at(i), c.Int(int64(i)), r)
		}
	} else {
		for i := len(h) - len(n); i >= 0; i-- {
			r = c.Ite(at(i), c.Int(int64(i)), r)
		}
	}
	return r
}

func (vm *VM) count(h []*smt.Term, b *smt.Term) *smt.Term {
	c := vm.c
	r := c.Int(0)
	for _, x := range h {
		r = c.Bin(smt.OpAdd, r, c.Ite(c.Eq(x, b), c.Int(1), c.Int(0)))
	}
	return r
}

func (vm *VM) compare(x, y *Str) *smt.Term {
	c := vm.c
	return c.Ite(vm.strEq(x, y), c.Int(0), c.Ite(vm.strLess(x, y), c.Int(-1), c.Int(1)))
}

func constFloat(f func(float64) float64) intrinsic {
	return ret(func(vm *VM, fr *Frame, a []Value) Value {
		t := a[0].(*smt.Term)
		if !t.IsConst() {
			panic(unsupported{"symbolic float function"})
		}
		return vm.c.Float(f(t.Float64()))
	})
}

func constFloat2(f func(a, b float64) float64) intrinsic {
	return ret(func(vm *VM, fr *Frame, a []Value) Value {
		x, y := a[0].(*smt.Term), a[1].(*smt.Term)
		if !x.IsConst() || !y.IsConst() {
			panic(unsupported{"symbolic float function"})
		}
		return vm.c.Float(f(x.Float64(), y.Float64()))
	})
}

func concStr(v Value) string {
	s, ok := v.(*Str)
	if !ok {
		return ""
	}
	if s.b != nil {
		panic(unsupported{"symbolic string where a constant is needed"})
	}
	return s.s
}

func (vm *VM) newVar(w uint8) *smt.Term {
	t := vm.c.Var(vm.ps.nvars, w)
	vm.ps.nvars++
	return t
}

func (vm *VM) input(kind string, t *smt.Term) {
	vm.inputs = append(vm.inputs[:vm.ps.nin], Input{kind, t})
	vm.ps.nin++
}

func (vm *VM) observe(l string, v Value) {
	vm.obs = append(vm.obs[:vm.ps.nobs], Obs{l, v})
	vm.ps.nobs++
}

// assert decides a property on the current path.
func (vm *VM) assert(t *smt.Term, msg string) {
	r := vm.res
	r.Asserts++
	if t.IsConst() {
		r.AssertFold++
		if t.K == 0 {
			vm.violation("assert", msg, nil)
			panic(pathEnd{kind: EndViolated, msg: msg})
		}
		return
	}
	neg := vm.c.Not(t)
	var res smt.Result
	var m []uint64
	if vm.facts[t.ID] {
		r.AssertFold++
		return
	}
	if !neg.HasUF {
		if v, ok := vm.eval(neg); ok && v != 0 {
			res, m = smt.Sat, vm.model
		}
	}
	if res != smt.Sat {
		res, m = vm.solve(neg)
	}
	r.AssertSMT++
	switch res {
	case smt.Unsat:
		vm.fact(t)
		return
	case smt.Sat:
		vm.violation("assert", msg, m)
	default:
		r.AssertUnk++
	}
	// continue where it holds
	f, m2 := vm.feasible(t)
	if f == smt.Unsat {
		panic(pathEnd{kind: EndViolated, msg: msg})
	}
	vm.assume(t)
	if m2 != nil && vm.scriptPos >= len(vm.script) {
		vm.model = m2
	}
}

func (vm *VM) assumeCond(t *smt.Term) {
	if t.IsConst() {
		if t.K == 0 {
			panic(pathEnd{kind: EndAssume})
		}
		return
	}
	switch vm.known(t) {
	case 1:
		return
	case 0:
		panic(pathEnd{kind: EndAssume})
	}
	f, m := vm.feasible(t)
	if f == smt.Unsat {
		panic(pathEnd{kind: EndAssume})
	}
	vm.assume(t)
	if m != nil && vm.scriptPos >= len(vm.script) {
		vm.model = m
	}
}

func (vm *VM) canon(in []*smt.Term) []*smt.Term {
	out := make([]*smt.Term, len(in))
	for i, t := range in {
		out[i] = vm.c.Canon(t)
	}
	return out
}

func (vm *VM) md5(in []*smt.Term) []*smt.Term {
	c := vm.c
	in = vm.canon(in)
	out := make([]*smt.Term, 16)
	if b, ok := concBytes(in); ok {
		h := md5.Sum(b)
		for i := range out {
			out[i] = c.BV(8, uint64(h[i]))
		}
		return out
	}
	for i := range out {
		out[i] = c.UF(fmt.Sprintf("md5_%d_%d", i, len(in)), 8, in)
	}
	return out
}

func (vm *VM) rc4(key []*smt.Term, off, n int) []*smt.Term {
	c := vm.c
	key = vm.canon(key)
	out := make([]*smt.Term, n)
	if b, ok := concBytes(key); ok {
		x, err := rc4.NewCipher(b)
		if err != nil {
			panic(unsupported{err.Error()})
		}
		buf := make([]byte, off+n)
		x.XORKeyStream(buf, buf)
		for i := range out {
			out[i] = c.BV(8, uint64(buf[off+i]))
		}
		return out
	}
	for i := range out {
		out[i] = c.UF(fmt.Sprintf("rc4_%d_%d", off+i, len(key)), 8, key)
	}
	return out
}

func aesNative(key, blk []byte, enc bool) []byte {
	x, err := aes.NewCipher(key)
	if err != nil {
		return nil
	}
	out := make([]byte, 16)
	if enc {
		x.Encrypt(out, blk)
	} else {
		x.Decrypt(out, blk)
	}
	return out
}

func (vm *VM) aes(key, blk []*smt.Term, enc bool) []*smt.Term {
	c := vm.c
	out := make([]*smt.Term, 16)
	kb, ok1 := concBytes(key)
	bb, ok2 := concBytes(blk)
	if ok1 && ok2 {
		r := aesNative(kb, bb, enc)
		for i := range out {
			out[i] = c.BV(8, uint64(r[i]))
		}
		return out
	}
	dir, inv := "aesd", "aese"
	if enc {
		dir, inv = inv, dir
	}
	// the inverse of the other direction under the same key
	if blk[0].Op == smt.OpUF && strings.HasPrefix(blk[0].Name, inv+"_0_") {
		a := blk[0].Args
		ok := len(a) == len(key)+16
		for i := 0; ok && i < len(key); i++ {
			ok = a[i] == key[i]
		}
		for i := 0; ok && i < 16; i++ {
			b := blk[i]
			ok = b.Op == smt.OpUF && b.Name == fmt.Sprintf("%s_%d_%d", inv, i, len(key))
			for j := 0; ok && j < len(a); j++ {
				ok = b.Args[j] == a[j]
			}
		}
		if ok {
			copy(out, a[len(key):])
			return out
		}
	}
	args := append(append([]*smt.Term(nil), key...), blk...)
	for i := range out {
		out[i] = c.UF(fmt.Sprintf("%s_%d_%d", dir, i, len(key)), 8, args)
	}
	return out
}

// ufEval computes the real functions behind the uninterpreted symbols.
func ufEval(name string, args []uint64) (uint64, bool) {
	b := make([]byte, len(args))
	for i, a := range args {
		b[i] = byte(a)
	}
	p := strings.Split(name, "_")
	i, _ := strconv.Atoi(p[1])
	n, _ := strconv.Atoi(p[2])
	switch p[0] {
	case "md5":
		h := md5.Sum(b)
		return uint64(h[i]), true
	case "rc4":
		x, err := rc4.NewCipher(b)
		if err != nil {
			return 0, false
		}
		buf := make([]byte, i+1)
		x.XORKeyStream(buf, buf)
		return uint64(buf[i]), true
	case "aesd", "aese":
		r := aesNative(b[:n], b[n:], p[0] == "aese")
		if r == nil {
			return 0, false
		}
		return uint64(r[i]), true
	}
	return 0, false
}

// kind classifies the dynamic value of an interface for formatting.
func (vm *VM) kind(v Value) (int, Value, types.Type) {
	ifc, ok := v.(*Iface)
	if !ok {
		return 0, nil, nil
	}
	t := ifc.T
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return 1, ifc.V, t
		case u.Info()&types.IsInteger != 0:
			if u.Info()&types.IsUnsigned != 0 {
				return 3, ifc.V, t
			}
			return 2, ifc.V, t
		case u.Info()&types.IsFloat != 0:
			return 4, ifc.V, t
		case u.Info()&types.IsString != 0:
			return 5, ifc.V, t
		}
	case *types.Slice:
		if basicOf(u.Elem()).w == 8 {
			return 6, ifc.V, t
		}
	case *types.Pointer:
		return 7, ifc.V, t
	case *types.Array:
		return 9, ifc.V, t
	case *types.Map:
		return 10, ifc.V, t
	case *types.Struct:
		return 11, ifc.V, t
	}
	if _, ok := t.Underlying().(*types.Slice); ok {
		return 8, ifc.V, t
	}
	return 12, ifc.V, t
}

// box makes an interface value of a cell of the given type.
func (vm *VM) box(v Value, t types.Type) Value {
	if types.IsInterface(t) {
		return v
	}
	if v == nil {
		v = vm.zero(t)
	}
	return &Iface{T: t, V: copyVal(v)}
}

// parts lists what a composite holds: elements, fields, the value pointed to, or keys and values.
func (vm *VM) parts(v Value) []Value {
	ifc := v.(*Iface)
	var out []Value
	switch u := ifc.T.Underlying().(type) {
	case *types.Slice:
		if s, ok := ifc.V.(*Slice); ok {
			for _, e := range s.bk.c[s.off : s.off+s.n] {
				out = append(out, vm.box(e, u.Elem()))
			}
		}
	case *types.Array:
		for _, e := range ifc.V.(*Backing).c {
			out = append(out, vm.box(e, u.Elem()))
		}
	case *types.Struct:
		for i, e := range ifc.V.(*StructV).f {
			out = append(out, vm.box(e, u.Field(i).Type()))
		}
	case *types.Pointer:
		if p, ok := ifc.V.(*Value); ok {
			out = append(out, vm.box(*p, u.Elem()))
		}
	case *types.Map:
		if m, ok := ifc.V.(*MapV); ok {
			for _, e := range m.ents {
				if !e.dead {
					out = append(out, vm.box(e.key, u.Key()), vm.box(e.val, u.Elem()))
				}
			}
		}
	}
	return out
}

func init() {
	intrinsics = map[string]intrinsic{}
	for k, v := range map[string]intrinsic{
		"Symbolic": ret(func(vm *VM, fr *Frame, a []Value) Value { return vm.c.True }),
		"Byte": ret(func(vm *VM, fr *Frame, a []Value) Value {
			t := vm.newVar(8)
			vm.input("byte", t)
			return t
		}),
		"Bytes": ret(func(vm *VM, fr *Frame, a []Value) Value {
			n := int(a[0].(*smt.Term).Int64())
			ts := make([]*smt.Term, n)
			for i := range ts {
				ts[i] = vm.newVar(8)
				vm.input("byte", ts[i])
			}
			return vm.bytesSlice(ts)
		}),
		"Bool": ret(func(vm *VM, fr *Frame, a []Value) Value {
			t := vm.newVar(8)
			vm.input("bool", t)
			return vm.c.Eq(vm.c.Bin(smt.OpBAnd, t, vm.c.BV(8, 1)), vm.c.BV(8, 1))
		}),
		"Int": ret(func(vm *VM, fr *Frame, a []Value) Value {
			c := vm.c
			lo, hi := a[0].(*smt.Term).Int64(), a[1].(*smt.Term).Int64()
			if lo == hi {
				vm.input("int", c.Int(lo))
				return c.Int(lo)
			}
			if hi-lo >= 0 && hi-lo < 256 {
				t := vm.newVar(8)
				v := c.Bin(smt.OpAdd, c.ZExt(t, 64), c.Int(lo))
				vm.input("int", v)
				vm.assumeCond(c.Ule(t, c.BV(8, uint64(hi-lo))))
				return v
			}
			t := vm.newVar(64)
			vm.input("int", t)
			if lo != math.MinInt64 {
				vm.assumeCond(c.Sle(c.Int(lo), t))
			}
			if hi != math.MaxInt64 {
				vm.assumeCond(c.Sle(t, c.Int(hi)))
			}
			return t
		}),
		"Choose": ret(func(vm *VM, fr *Frame, a []Value) Value {
			n := int(a[0].(*smt.Term).Int64())
			k := vm.choose(n)
			t := vm.c.Int(int64(k))
			vm.input("choose", t)
			return t
		}),
		"Assume": ret(func(vm *VM, fr *Frame, a []Value) Value {
			vm.assumeCond(a[0].(*smt.Term))
			return nil
		}),
		"Assert": ret(func(vm *VM, fr *Frame, a []Value) Value {
			vm.assert(a[0].(*smt.Term), a[1].(*Str).show(vm))
			return nil
		}),
		"Cover": ret(func(vm *VM, fr *Frame, a []Value) Value {
			vm.cov = append(vm.cov[:vm.ps.ncov], concStr(a[0]))
			vm.ps.ncov++
			return nil
		}),
		"Observe": ret(func(vm *VM, fr *Frame, a []Value) Value {
			vm.observe(concStr(a[0]), a[1])
			return nil
		}),
		"ObserveInt": ret(func(vm *VM, fr *Frame, a []Value) Value {
			vm.observe(concStr(a[0]), a[1])
			return nil
		}),
		"Bound": ret(func(vm *VM, fr *Frame, a []Value) Value {
			return vm.c.Int(vm.E.bound(concStr(a[0]), a[1].(*smt.Term).Int64(), a[2].(*smt.Term).Int64()))
		}),
		"MapOrder": ret(func(vm *VM, fr *Frame, a []Value) Value {
			vm.ps.mapAny = a[0].(*smt.Term).K != 0
			return nil
		}),
		"Dir": ret(func(vm *VM, fr *Frame, a []Value) Value { return mkStr("/w") }),
		"Path": ret(func(vm *VM, fr *Frame, a []Value) Value {
			return strOf(append(mkStr("/w/").Terms(vm.c), a[0].(*Str).Terms(vm.c)...))
		}),
	} {
		intrinsics[symPkg+k] = v
	}
	for k, v := range map[string]intrinsic{
		"kindOf": ret(func(vm *VM, fr *Frame, a []Value) Value {
			k, _, _ := vm.kind(a[0])
			return vm.c.Int(int64(k))
		}),
		"typeName": ret(func(vm *VM, fr *Frame, a []Value) Value {
			if ifc, ok := a[0].(*Iface); ok {
				s := types.TypeString(ifc.T, func(p *types.Package) string { return p.Name() })
				s = byteWord.ReplaceAllString(s, "uint8")
				s = runeWord.ReplaceAllString(s, "int32")
				s = anyWord.ReplaceAllString(s, "interface {}")
				return mkStr(s)
			}
			return mkStr("nil")
		}),
		"anyParts": ret(func(vm *VM, fr *Frame, a []Value) Value {
			p := vm.parts(a[0])
			return &Slice{&Backing{p}, 0, len(p), len(p)}
		}),
		"fieldNames": ret(func(vm *VM, fr *Frame, a []Value) Value {
			u := a[0].(*Iface).T.Underlying().(*types.Struct)
			bk := &Backing{make([]Value, u.NumFields())}
			for i := range bk.c {
				bk.c[i] = mkStr(u.Field(i).Name())
			}
			return &Slice{bk, 0, len(bk.c), len(bk.c)}
		}),
		"assignAs": ret(func(vm *VM, fr *Frame, a []Value) Value {
			err, target := a[0].(*Iface), a[1].(*Iface)
			t := target.T.Underlying().(*types.Pointer).Elem()
			if it, ok := t.Underlying().(*types.Interface); ok {
				if !vm.implements(err.T, it, t) {
					return vm.c.False
				}
				vm.store(target.V.(*Value), err)
				return vm.c.True
			}
			if !vm.sameType(err.T, t) {
				return vm.c.False
			}
			vm.store(target.V.(*Value), err.V)
			return vm.c.True
		}),
		"formatFloat": ret(func(vm *VM, fr *Frame, a []Value) Value {
			t := a[0].(*smt.Term)
			return mkStr(strconv.FormatFloat(math.Float64frombits(vm.fixFloat(t)), byte(a[1].(*smt.Term).K), int(a[2].(*smt.Term).Int64()), 64))
		}),
		"asString": ret(func(vm *VM, fr *Frame, a []Value) Value {
			k, v, _ := vm.kind(a[0])
			switch k {
			case 5:
				if v == nil {
					return emptyStr
				}
				return v
			case 6:
				return strOf(vm.bytesOf(v))
			}
			panic(unsupported{"asString"})
		}),
		"asInt": ret(func(vm *VM, fr *Frame, a []Value) Value {
			k, v, t := vm.kind(a[0])
			if k != 2 && k != 3 {
				panic(unsupported{"asInt"})
			}
			return vm.c.Resize(v.(*smt.Term), 64, basicOf(t).signed)
		}),
		"asBool": ret(func(vm *VM, fr *Frame, a []Value) Value {
			_, v, _ := vm.kind(a[0])
			return v
		}),
		"asFloat": ret(func(vm *VM, fr *Frame, a []Value) Value {
			_, v, _ := vm.kind(a[0])
			return v
		}),
		"fmtFloatC": ret(func(vm *VM, fr *Frame, a []Value) Value {
			t := a[0].(*smt.Term)
			return mkStr(fmt.Sprint(math.Float64frombits(vm.fixFloat(t))))
		}),
		"floatParts": ret(func(vm *VM, fr *Frame, a []Value) Value {
			c := vm.c
			t := a[0].(*smt.Term)
			no := Tuple{c.Int(0), c.False, c.False}
			if t.IsConst() {
				return no
			}
			neg := false
			if t.Op == smt.OpFNeg {
				neg = true
				t = t.A
			}
			n := c.IntView(t)
			if n == nil {
				return no
			}
			lo, hi := c.SRange(n)
			if lo < 0 || hi > 1<<53 {
				return no
			}
			return Tuple{n, c.Bool(neg), c.True}
		}),
		"anyLen": ret(func(vm *VM, fr *Frame, a []Value) Value {
			ifc := a[0].(*Iface)
			return vm.c.Int(int64(vm.lenOf(ifc.V)))
		}),
		"anySwap": ret(func(vm *VM, fr *Frame, a []Value) Value {
			s := a[0].(*Iface).V.(*Slice)
			i, j := int(a[1].(*smt.Term).Int64()), int(a[2].(*smt.Term).Int64())
			p, q := &s.bk.c[s.off+i], &s.bk.c[s.off+j]
			x, y := copyVal(*p), copyVal(*q)
			vm.store(p, y)
			vm.store(q, x)
			return nil
		}),
		"md5sum": ret(func(vm *VM, fr *Frame, a []Value) Value { return vm.bytesSlice(vm.md5(vm.bytesOf(a[0]))) }),
		"rc4stream": ret(func(vm *VM, fr *Frame, a []Value) Value {
			return vm.bytesSlice(vm.rc4(vm.bytesOf(a[0]), int(a[1].(*smt.Term).Int64()), int(a[2].(*smt.Term).Int64())))
		}),
		"aesblock": ret(func(vm *VM, fr *Frame, a []Value) Value {
			return vm.bytesSlice(vm.aes(vm.bytesOf(a[0]), vm.bytesOf(a[1]), a[2].(*smt.Term).K != 0))
		}),
		"unsupported": ret(func(vm *VM, fr *Frame, a []Value) Value { panic(unsupported{a[0].(*Str).show(vm)}) }),
		"comparable_": ret(func(vm *VM, fr *Frame, a []Value) Value {
			ifc, ok := a[0].(*Iface)
			return vm.c.Bool(!ok || types.Comparable(ifc.T))
		}),
		"exit": func(vm *VM, fr *Frame, a []Value) (Value, bool) {
			for i := len(vm.stack) - 1; i >= 0; i-- {
				if vm.stack[i].f.name == rtPkg+"mainBody" {
					vm.stack = vm.stack[:i+1]
					f := vm.top()
					// continue after the last call of mainBody
					for _, b := range f.f.blocks {
						if b.ins[len(b.ins)-1].op == opReturn {
							f.blk, f.pc = b, len(b.ins)-1
						}
					}
					f.panic = nil
					f.defers = nil
					return nil, true
				}
			}
			panic(pathEnd{kind: EndExit})
		},
		"runMainInit": func(vm *VM, fr *Frame, a []Value) (Value, bool) {
			vm.pushFrame(vm.getFunc(vm.P.Main.Func("init")), nil, nil, -1)
			return nil, true
		},
		"runMain": func(vm *VM, fr *Frame, a []Value) (Value, bool) {
			vm.pushFrame(vm.getFunc(vm.P.Main.Func("main")), nil, nil, -1)
			return nil, true
		},
		"reStart": ret(func(vm *VM, fr *Frame, a []Value) Value { return vm.reStart(a[0], a[1].(*smt.Term).K != 0) }),
		"reStep":  ret(func(vm *VM, fr *Frame, a []Value) Value { return vm.reStep(a[0].(*reState), a[1].(*smt.Term)) }),
		"reDead": ret(func(vm *VM, fr *Frame, a []Value) Value {
			return vm.c.Bool(a[0].(*reState).dead())
		}),
		"reAfter": ret(func(vm *VM, fr *Frame, a []Value) Value { return vm.reAfter(a[0].(*reState), a[1].(*smt.Term)) }),
		"reInfo": ret(func(vm *VM, fr *Frame, a []Value) Value {
			p := vm.reStart(a[0], false).p
			return Tuple{mkStr(p.expr), vm.c.Int(int64(p.ncap/2 - 1))}
		}),
		"reFinish": ret(func(vm *VM, fr *Frame, a []Value) Value {
			st := a[0].(*reState).ahead(-1)
			if st.match == nil {
				return nil
			}
			bk := &Backing{make([]Value, len(st.match))}
			for i, x := range st.match {
				bk.c[i] = vm.c.Int(int64(x))
			}
			return &Slice{bk, 0, len(bk.c), len(bk.c)}
		}),
	} {
		intrinsics[rtPkg+k] = v
	}
	for k, v := range map[string]intrinsic{
		"regexp.MustCompile": ret(func(vm *VM, fr *Frame, a []Value) Value {
			p := new(Value)
			*p = newRe(concStr(a[0]))
			return p
		}),
		"regexp.Compile": ret(func(vm *VM, fr *Frame, a []Value) Value {
			p := new(Value)
			*p = newRe(concStr(a[0]))
			return Tuple{p, nil}
		}),
		"bytes.IndexByte": ret(func(vm *VM, fr *Frame, a []Value) Value {
			return vm.indexByte(vm.bytesOf(a[0]), a[1].(*smt.Term))
		}),
		"bytes.Index": ret(func(vm *VM, fr *Frame, a []Value) Value {
			return vm.indexBytes(vm.bytesOf(a[0]), vm.bytesOf(a[1]), false)
		}),
		"bytes.LastIndex": ret(func(vm *VM, fr *Frame, a []Value) Value {
			return vm.indexBytes(vm.bytesOf(a[0]), vm.bytesOf(a[1]), true)
		}),
		"bytes.Contains": ret(func(vm *VM, fr *Frame, a []Value) Value {
			return vm.c.Sle(vm.c.Int(0), vm.indexBytes(vm.bytesOf(a[0]), vm.bytesOf(a[1]), false))
		}),
		"bytes.Compare": ret(func(vm *VM, fr *Frame, a []Value) Value {
			return vm.compare(strOf(vm.bytesOf(a[0])), strOf(vm.bytesOf(a[1])))
		}),
		"bytes.Equal": ret(func(vm *VM, fr *Frame, a []Value) Value {
			return vm.strEq(strOf(vm.bytesOf(a[0])), strOf(vm.bytesOf(a[1])))
		}),
		"internal/bytealg.Count": ret(func(vm *VM, fr *Frame, a []Value) Value {
			return vm.count(vm.bytesOf(a[0]), a[1].(*smt.Term))
		}),
		"internal/bytealg.MakeNoZero": ret(func(vm *VM, fr *Frame, a []Value) Value {
			n := int(vm.concInt(a[0], true))
			if n < 0 {
				vm.goPanic("runtime error: makeslice: len out of range")
			}
			if int64(n) > vm.lim.Alloc {
				panic(pathEnd{kind: EndAlloc, msg: fmt.Sprintf("allocation of %d bytes at %s", n, vm.where())})
			}
			m := roundupsize(n, true)
			return &Slice{&Backing{make([]Value, m)}, 0, n, m}
		}),
		"internal/abi.NoEscape": ret(func(vm *VM, fr *Frame, a []Value) Value { return a[0] }),
		"internal/abi.Escape":   ret(func(vm *VM, fr *Frame, a []Value) Value { return a[0] }),
		"math.Abs":              ret(func(vm *VM, fr *Frame, a []Value) Value { return vm.c.FAbs(a[0].(*smt.Term)) }),
		"math.Floor":            constFloat(math.Floor),
		"math.Ceil":             constFloat(math.Ceil),
		"math.Trunc":            constFloat(math.Trunc),
		"math.Round":            constFloat(math.Round),
		"math.Sqrt":             constFloat(math.Sqrt),
		"math.Log10":            constFloat(math.Log10),
		"math.Pow":              constFloat2(math.Pow),
		"math.Mod":              constFloat2(math.Mod),
		"math.Max":              constFloat2(math.Max),
		"math.Min":              constFloat2(math.Min),
		"math.Hypot":            constFloat2(math.Hypot),
		"math.Atan2":            constFloat2(math.Atan2),
		"math.Log2":             constFloat(math.Log2),
		"math.Log":              constFloat(math.Log),
		"math.Exp":              constFloat(math.Exp),
		"math.Exp2":             constFloat(math.Exp2),
		"math.Cbrt":             constFloat(math.Cbrt),
		"math.RoundToEven":      constFloat(math.RoundToEven),
		"math.Copysign":         constFloat2(math.Copysign),
		"math.Modf": ret(func(vm *VM, fr *Frame, a []Value) Value {
			i, f := math.Modf(math.Float64frombits(vm.fixFloat(a[0].(*smt.Term))))
			return Tuple{vm.c.Float(i), vm.c.Float(f)}
		}),
		"math.Float32bits": ret(func(vm *VM, fr *Frame, a []Value) Value {
			return vm.c.BV(32, uint64(math.Float32bits(float32(math.Float64frombits(vm.fixFloat(a[0].(*smt.Term)))))))
		}),
		"strconv.AppendFloat": ret(func(vm *VM, fr *Frame, a []Value) Value {
			t := a[1].(*smt.Term)
			f := strconv.FormatFloat(math.Float64frombits(vm.fixFloat(t)), byte(a[2].(*smt.Term).K), int(a[3].(*smt.Term).Int64()), int(a[4].(*smt.Term).Int64()))
			return vm.bytesSlice(append(append([]*smt.Term{}, vm.bytesOf(a[0])...), mkStr(f).Terms(vm.c)...))
		}),
		"math.Pow10": ret(func(vm *VM, fr *Frame, a []Value) Value {
			return vm.c.Float(math.Pow10(int(vm.concInt(a[0], true))))
		}),
		"math.Float64bits": ret(func(vm *VM, fr *Frame, a []Value) Value {
			t := a[0].(*smt.Term)
			if !t.IsConst() {
				panic(unsupported{"bits of a symbolic float"})
			}
			return vm.c.BV(64, t.K)
		}),
		"math.Float64frombits": ret(func(vm *VM, fr *Frame, a []Value) Value {
			t := a[0].(*smt.Term)
			if !t.IsConst() {
				panic(unsupported{"float from symbolic bits"})
			}
			return vm.c.Float(math.Float64frombits(t.K))
		}),
		"strconv.FormatFloat": ret(func(vm *VM, fr *Frame, a []Value) Value {
			t := a[0].(*smt.Term)
			if !t.IsConst() {
				panic(unsupported{"formatting a symbolic float"})
			}
			return mkStr(strconv.FormatFloat(t.Float64(), byte(a[1].(*smt.Term).K), int(a[2].(*smt.Term).Int64()), int(a[3].(*smt.Term).Int64())))
		}),
		"strconv.ParseFloat": ret(func(vm *VM, fr *Frame, a []Value) Value {
			f, err := strconv.ParseFloat(concStr(a[0]), int(a[1].(*smt.Term).Int64()))
			if err != nil {
				return Tuple{vm.c.Float(f), &Iface{T: vm.rtErr, V: mkStr(err.Error())}}
			}
			return Tuple{vm.c.Float(f), nil}
		}),
		"maps.clone": ret(func(vm *VM, fr *Frame, a []Value) Value {
			ifc := a[0].(*Iface)
			m, ok := ifc.V.(*MapV)
			if !ok {
				return ifc
			}
			n := &MapV{idx: map[string]*mapEnt{}, kt: m.kt, live: m.live, nsym: m.nsym}
			for _, e := range m.ents {
				if e.dead {
					continue
				}
				c := *e
				c.val, c.seq = copyVal(e.val), len(n.ents)
				n.ents = append(n.ents, &c)
				if c.ks != "" {
					n.idx[c.ks] = &c
				}
			}
			return &Iface{T: ifc.T, V: n}
		}),
		"(*sync.Mutex).Lock": nop, "(*sync.Mutex).Unlock": nop,
		"(*sync.RWMutex).Lock": nop, "(*sync.RWMutex).Unlock": nop,
		"(*sync.RWMutex).RLock": nop, "(*sync.RWMutex).RUnlock": nop,
		"runtime.KeepAlive": nop, "runtime.SetFinalizer": nop, "runtime.GC": nop,
		"os.Chmod": nop, "(*os.File).Chmod": nop,
	} {
		intrinsics[k] = v
	}
	for _, p := range [][2]string{{"strings.", "bytes."}, {"internal/bytealg.", "bytes."}} {
		for _, f := range []string{"IndexByte", "Index", "LastIndex", "Contains", "Compare", "Equal"} {
			intrinsics[p[0]+f] = intrinsics[p[1]+f]
		}
	}
	delete(intrinsics, "strings.Equal")
	intrinsics["sync/atomic.LoadPointer"] = ret(func(vm *VM, fr *Frame, a []Value) Value { return *a[0].(*Value) })
	intrinsics["sync/atomic.StorePointer"] = ret(func(vm *VM, fr *Frame, a []Value) Value {
		vm.setCell(a[0].(*Value), a[1])
		return nil
	})
	for name, w := range map[string]uint8{"Int32": 32, "Uint32": 32, "Int64": 64, "Uint64": 64, "Uintptr": 64} {
		cell := func(vm *VM, v Value) (*Value, *smt.Term) {
			p, ok := v.(*Value)
			if !ok {
				vm.nilDeref()
			}
			t, ok := (*p).(*smt.Term)
			if !ok {
				t = vm.c.BV(w, 0)
			}
			return p, t
		}
		intrinsics["sync/atomic.Add"+name] = ret(func(vm *VM, fr *Frame, a []Value) Value {
			p, t := cell(vm, a[0])
			t = vm.c.Bin(smt.OpAdd, t, a[1].(*smt.Term))
			vm.setCell(p, t)
			return t
		})
		intrinsics["sync/atomic.Load"+name] = ret(func(vm *VM, fr *Frame, a []Value) Value {
			_, t := cell(vm, a[0])
			return t
		})
		intrinsics["sync/atomic.Store"+name] = ret(func(vm *VM, fr *Frame, a []Value) Value {
			p, _ := cell(vm, a[0])
			vm.setCell(p, a[1])
			return nil
		})
		intrinsics["sync/atomic.Swap"+name] = ret(func(vm *VM, fr *Frame, a []Value) Value {
			p, t := cell(vm, a[0])
			vm.setCell(p, a[1])
			return t
		})
		intrinsics["sync/atomic.CompareAndSwap"+name] = ret(func(vm *VM, fr *Frame, a []Value) Value {
			p, t := cell(vm, a[0])
			if vm.branch(vm.c.Eq(t, a[1].(*smt.Term))) {
				vm.setCell(p, a[2])
				return vm.c.True
			}
			return vm.c.False
		})
	}
	intrinsics["internal/bytealg.IndexByteString"] = intrinsics["bytes.IndexByte"]
	intrinsics["internal/bytealg.IndexString"] = intrinsics["bytes.Index"]
	intrinsics["internal/bytealg.CountString"] = intrinsics["internal/bytealg.Count"]
	intrinsics["internal/bytealg.CompareString"] = intrinsics["bytes.Compare"]
	intrinsics["internal/stringslite.IndexByte"] = intrinsics["bytes.IndexByte"]
	intrinsics["internal/stringslite.Index"] = intrinsics["bytes.Index"]
	for _, f := range []string{"strings.Clone", "internal/stringslite.Clone"} {
		intrinsics[f] = ret(func(vm *VM, fr *Frame, a []Value) Value { return a[0] })
	}
	intrinsics["cmp.CompareString"] = intrinsics["bytes.Compare"]
	_ = bytes.Equal
}

func (e *Explorer) bound(name string, quick, thorough int64) int64 {
	if v, ok := e.Bounds[name]; ok {
		return int64(v)
	}
	v := quick
	if e.Thorough {
		v = thorough
	}
	e.mu.Lock()
	if e.UsedBounds == nil {
		e.UsedBounds = map[string]int64{}
	}
	e.UsedBounds[name] = v
	e.mu.Unlock()
	return v
}

// skipInit lists packages whose initialisation is replaced by the model.
func skipInit(path string) bool {
	switch path {
	case "internal/oserror", "internal/strconv", "internal/stringslite", "internal/itoa", "internal/byteorder", "path/filepath", "internal/filepathlite":
		return false
	}
	if path == "errors" {
		return true
	}
	for _, p := range []string{"runtime", "os", "syscall", "reflect", "fmt", "sync", "time", "unique", "weak", "log", "regexp", "context", "iter", "crypto", "math/rand", "math/big", "net", "vendor", "hash/maphash", "hash/crc32", "io/ioutil", "path/filepath", "encoding/json", "text", "html"} {
		if path == p || strings.HasPrefix(path, p+"/") {
			return true
		}
	}
	return strings.HasPrefix(path, "internal/") || strings.HasPrefix(path, "golang.org/x/sys")
}

// NewVM makes a worker.
func NewVM(p *Program, e *Explorer, lim Limits, timeoutMs, fallbackMs int) *VM {
	vm := &VM{P: p, E: e, lim: lim}
	vm.c = smt.NewCtx()
	vm.c.UFEval = ufEval
	vm.s = smt.NewSolver(vm.c)
	if timeoutMs > 0 {
		vm.s.TimeoutMs = timeoutMs
	}
	if fallbackMs > 0 {
		vm.s.FallbackMs = fallbackMs
	}
	vm.funcs = map[*ssa.Function]*Func{}
	vm.globals = map[*ssa.Global]*Value{}
	vm.tids = map[types.Type]int{}
	vm.impl = map[asKey]bool{}
	vm.meths = map[methKey]*Func{}
	vm.facts = map[uint32]bool{}
	vm.multi = map[int32]int{}
	vm.rtErr = p.RT.Members["RuntimeError"].(*ssa.Type).Type()
	vm.res = newResult()
	return vm
}

// Init runs the package initialisers.
func (vm *VM) Init() error {
	run := func(fn *ssa.Function) error {
		vm.stack = vm.stack[:0]
		vm.ps = pathState{}
		vm.pushFrame(vm.getFunc(fn), nil, nil, -1)
		lim := vm.lim
		vm.lim.Steps = 1 << 40
		end := vm.runPath()
		vm.lim = lim
		if end.kind != EndOK {
			return fmt.Errorf("%s: %s: %s", fn, end.kind, end.msg)
		}
		return nil
	}
	if err := run(vm.P.RT.Func("init")); err != nil {
		return err
	}
	if err := run(vm.P.RT.Func("Setup")); err != nil {
		return err
	}
	if err := run(vm.E.Harness.Pkg.Func("init")); err != nil {
		return err
	}
	vm.undo = vm.undo[:0]
	for _, f := range vm.funcs {
		f.hits = 0
		for i := range f.blkHit {
			f.blkHit[i] = false
		}
	}
	return nil
}
