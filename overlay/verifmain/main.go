// Command verifmain replays recorded vectors against the real code.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"time"

	"github.com/KarmaPenny/pdfparser/verifh"
	"github.com/KarmaPenny/pdfparser/verifsym"
)

type job struct {
	Harness string
	Vectors [][]uint64
	Tier    string
	Bounds  map[string]int
	Scratch string
	Bin     string
	HangMs  int
}

type result struct {
	I      int
	Obs    []string
	Covers []string
	Failed []string
	Skip   bool
	Panic  string
	Alloc  uint64 // bytes allocated
	Ms     int64
}

func run(f func()) (skip bool, pan string) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(verifsym.Skip); ok {
				skip = true
				return
			}
			pan = fmt.Sprint(r) + "\n" + string(debug.Stack())
		}
	}()
	f()
	return
}

func main() {
	var j job
	out := os.NewFile(3, "out")
	if err := json.NewDecoder(os.Stdin).Decode(&j); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(4)
	}
	verifsym.Tier, verifsym.Bounds, verifsym.Bin = j.Tier, j.Bounds, j.Bin
	f := verifh.Registry[j.Harness]
	if f == nil {
		fmt.Fprintln(os.Stderr, "no harness", j.Harness)
		os.Exit(4)
	}
	debug.SetMaxStack(512 << 20)
	for i, v := range j.Vectors {
		fmt.Fprintf(out, "START %d\n", i)
		dir := filepath.Join(j.Scratch, fmt.Sprint(i))
		if err := os.MkdirAll(dir, 0777); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(4)
		}
		os.Chdir(dir)
		verifsym.Scratch = dir
		verifsym.Vector, verifsym.Pos = v, 0
		verifsym.Obs, verifsym.Covers, verifsym.Failed = nil, nil, nil
		t := time.AfterFunc(time.Duration(j.HangMs)*time.Millisecond, func() {
			fmt.Fprintf(out, "HANG %d\n", i)
			os.Exit(3)
		})
		var before, after runtime.MemStats
		runtime.ReadMemStats(&before)
		begin := time.Now()
		skip, pan := run(f)
		t.Stop()
		ms := time.Since(begin).Milliseconds()
		runtime.ReadMemStats(&after)
		b, _ := json.Marshal(result{i, verifsym.Obs, verifsym.Covers, verifsym.Failed, skip, pan, after.TotalAlloc - before.TotalAlloc, ms})
		fmt.Fprintf(out, "RESULT %s\n", b)
		os.Chdir("/")
		os.RemoveAll(dir)
	}
}
