// Package verifsym is the interface between harnesses and the checker. Executed
// symbolically, its functions are answered by the engine; compiled natively they
// replay a recorded vector.
package verifsym

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"syscall"
)

// State of a native replay.
var (
	Vector  []uint64
	Pos     int
	Tier    string
	Obs     []string
	Covers  []string
	Failed  []string
	Scratch string
	Bin     string
	Bounds  = map[string]int{}
)

// Skip is thrown when an assumption does not hold.
type Skip struct{}

func next() uint64 {
	if Pos < len(Vector) {
		v := Vector[Pos]
		Pos++
		return v
	}
	Pos++
	return 0
}

// Symbolic reports whether the engine is running.
func Symbolic() bool { return false }

func Byte() byte { return byte(next()) }
func Bool() bool { return next()&1 != 0 }

// Int is any integer in [lo,hi].
func Int(lo, hi int) int {
	v := int(next())
	if v < lo || v > hi {
		panic(Skip{})
	}
	return v
}

// Choose is any of 0..n-1; every alternative is explored on its own.
func Choose(n int) int {
	v := int(next())
	if v < 0 || v >= n {
		panic(Skip{})
	}
	return v
}

// Bytes is any byte slice of length n.
func Bytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = Byte()
	}
	return b
}

func Assume(c bool) {
	if !c {
		panic(Skip{})
	}
}

func Assert(c bool, msg string) {
	if !c {
		Failed = append(Failed, msg)
	}
}

func Cover(label string)             { Covers = append(Covers, label) }
func Observe(label string, s string) { Obs = append(Obs, label+"="+strconv.QuoteToASCII(s)) }
func ObserveInt(label string, n int) { Obs = append(Obs, label+"="+fmt.Sprint(uint64(n))) }

// Bound is a size limit, by tier.
func Bound(name string, quick, thorough int) int {
	if v, ok := Bounds[name]; ok {
		return v
	}
	if Tier == "thorough" {
		return thorough
	}
	return quick
}

// MapOrder makes map iteration visit every order from now on.
func MapOrder(on bool) {}

// Dir is the working directory for files.
func Dir() string { return Scratch }

// CallMain runs the command.
func CallMain(args ...string) (stdout, stderr string, code int) {
	cmd := exec.Command(Bin, args...)
	cmd.Dir = Scratch
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	err := cmd.Run()
	if err != nil {
		if x, ok := err.(*exec.ExitError); ok {
			return o.String(), e.String(), x.ExitCode()
		}
		panic(err)
	}
	return o.String(), e.String(), 0
}

// Path joins the working directory and name.
func Path(name string) string { return filepath.Join(Scratch, name) }

var fileLimit uint64

// LimitFiles lets only n more files be opened at a time; any number again if n is negative.
func LimitFiles(n int) {
	var l syscall.Rlimit
	if err := syscall.Getrlimit(syscall.RLIMIT_NOFILE, &l); err != nil {
		panic(err)
	}
	if n < 0 {
		l.Cur = fileLimit
	} else {
		fileLimit = l.Cur
		var fds []int
		for i := 0; i <= n; i++ {
			fd, err := syscall.Open("/dev/null", syscall.O_RDONLY, 0)
			if err != nil {
				panic(err)
			}
			fds = append(fds, fd)
		}
		for _, fd := range fds {
			syscall.Close(fd)
		}
		l.Cur = uint64(fds[n]) // numbers below this one
	}
	if err := syscall.Setrlimit(syscall.RLIMIT_NOFILE, &l); err != nil {
		panic(err)
	}
}

// OpenFiles is the number of files that are open.
func OpenFiles() int {
	entries, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		panic(err)
	}
	return len(entries)
}

var _ = os.Args
