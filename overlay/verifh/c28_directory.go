package verifh

import (
	"os"

	"github.com/KarmaPenny/pdfparser/pdf"
	. "github.com/KarmaPenny/pdfparser/verifsym"
)

// snapshot lists everything below a path.
func snapshot(at, name string) string {
	if to, err := os.Readlink(at); err == nil {
		return name + "->" + to + "\n"
	}
	entries, err := os.ReadDir(at)
	if err != nil {
		b, err := os.ReadFile(at)
		if err != nil {
			return ""
		}
		return name + "=" + string(b) + "\n"
	}
	out := name + "/\n"
	for _, e := range entries {
		out += snapshot(at+"/"+e.Name(), name+"/"+e.Name())
	}
	return out
}

func everything() string { return snapshot(Path("work"), "") }

func write(name string, data ...any) { os.WriteFile(Path("work/"+name), cat(data...), 0644) }

// before is what is at the output path before a run.
const (
	absent = iota
	emptyDirectory
	fullDirectory
	regularFile
	danglingLink
	directoryLink
	belowAbsent
	belowFile
	befores
)

// prepare makes the working directory and returns the output path.
func prepare(before int, x []byte) string {
	os.Mkdir(Path("work"), 0755)
	write("keep", "keep", x)
	os.Mkdir(Path("work/keeps"), 0755)
	write("keeps/raw.pdf", "kept", x)
	switch before {
	case emptyDirectory:
		os.Mkdir(Path("work/out"), 0755)
	case fullDirectory:
		os.Mkdir(Path("work/out"), 0755)
		write("out/raw.pdf", "stale", x)
		write("out/stale", x)
		os.Mkdir(Path("work/out/sub"), 0755)
		write("out/sub/urls.txt", x)
	case regularFile:
		write("out", x)
	case danglingLink:
		os.Symlink("nowhere", Path("work/out"))
	case directoryLink:
		os.Symlink("keeps", Path("work/out"))
	case belowAbsent:
		return "work/new/out"
	case belowFile:
		return "work/keep/out"
	}
	return "work/out"
}

// input is what is given as input.
const (
	good = iota
	missing
	missingBelow
	noDocument
	inputs
)

func giveInput(kind int, x []byte) (string, bool) {
	switch kind {
	case good:
		os.WriteFile(Path("in.pdf"), file(nil, cat("<</URI(u", x, ")>>")), 0644)
	case missing:
		return "in.pdf", false
	case missingBelow:
		return "nothing/in.pdf", false
	case noDocument:
		os.WriteFile(Path("in.pdf"), cat("no document ", x), 0644)
	}
	return "in.pdf", true
}

// checkReplaced asserts that the output path holds the results of this run and all else is as it was.
func checkReplaced(out string, kind int, x []byte) {
	entries, err := os.ReadDir(Path(out))
	Assert(err == nil, "output directory is missing")
	info, err := os.Lstat(Path(out))
	Assert(err == nil && info.IsDir(), "output directory is not a directory of its own")
	Assert(len(entries) == len(outputs), "output directory holds other things")
	for _, name := range outputs {
		b, err := os.ReadFile(Path(out + "/" + name))
		Assert(err == nil, name+" is missing")
		want := ""
		if kind == good && name == "urls.txt" {
			want = "u" + string(x) + "\n"
		}
		if kind == good && name == "raw.pdf" {
			want = "1 0 obj\n<</URI (u" + string(x) + ")>>\nendobj\n\n"
		}
		Assert(string(b) == want, name+" is not of this run")
	}
	b, _ := os.ReadFile(Path("work/keep"))
	Assert(string(b) == "keep"+string(x), "a file next to the output is gone")
	b, _ = os.ReadFile(Path("work/keeps/raw.pdf"))
	Assert(string(b) == "kept"+string(x), "a directory next to the output is gone")
	entries, _ = os.ReadDir(Path("work/keeps"))
	Assert(len(entries) == 1, "a directory next to the output has changed")
}

// C28_command runs the command.
func C28_command() {
	x := letters(2)
	before, kind := Choose(befores), Choose(inputs)
	out := prepare(before, x)
	in, ok := giveInput(kind, x)
	if Choose(2) == 1 {
		out += "/"
	}
	force := Choose(2) == 1
	var args []string
	if force {
		args = append(args, []string{"-f", "--f", "-f=true"}[Choose(3)])
	} else if Choose(2) == 1 {
		args = append(args, "-f=false")
	}
	switch Choose(3) {
	case 1:
		args = append(args, "-p", "pw"+string(x))
	case 2:
		args = append([]string{"-v"}, args...)
	}
	old := everything()
	_, stderr, code := CallMain(append(args, in, out)...)
	exists := before != absent && before != belowAbsent
	switch {
	case exists && !force:
		Assert(everything() == old, "an existing output path is touched")
	case !ok:
		Assert(everything() == old, "something changes without input")
		Assert(stderr != "", "missing input is not reported")
	case before == belowFile:
		Assert(everything() == old, "something is destroyed")
		Assert(stderr != "", "failure is not reported")
	default:
		checkReplaced(out, kind, x)
	}
	if kind == good && (!exists || force && before != belowFile) {
		Assert(code == 0, "exit code of a run")
	}
	Cover("run")
}

// C28_library calls the library, which always replaces the directory.
func C28_library() {
	x := letters(2)
	before, kind := Choose(befores), Choose(inputs)
	out := prepare(before, x)
	in, ok := giveInput(kind, x)
	out += []string{"", "/", "//"}[Choose(3)]
	old := everything()
	verbose, open := pdf.Verbose, OpenFiles()
	pdf.Verbose = nil
	err := pdf.Parse(Path(in), "", Path("work")+out[len("work"):])
	pdf.Verbose = verbose
	Assert(OpenFiles() == open, "a file stays open")
	switch {
	case !ok || before == belowFile:
		Assert(err != nil, "no error is returned")
		Assert(everything() == old, "something is destroyed")
	default:
		Assert(err == nil || kind != good, "a document is refused")
		checkReplaced(out, kind, x)
	}
	Cover("run")
}

// C28_usage changes nothing when the command is not called as it should be.
func C28_usage() {
	x := letters(1)
	prepare(fullDirectory, x)
	giveInput(good, x)
	old := everything()
	args := [][]string{
		{}, {"in.pdf"}, {"-f"}, {"-f", "in.pdf"}, {"-f", "in.pdf", "work/out", "more"},
		{"in.pdf", "work/out", "-f"}, {"in.pdf", "-f", "work/out"}, {"-f", "-p", "in.pdf", "work/out"},
		{"-f", "-q", "in.pdf", "work/out"}, {"-f=maybe", "in.pdf", "work/out"}, {"-h"}, {"-f", "-p"},
		{"--", "-f", "in.pdf", "work/out"}, {"-p", "-f", "in.pdf", "work/out"}, {"--", "in.pdf", "work/out"},
	}[Choose(15)]
	CallMain(args...)
	Assert(everything() == old, "a wrong call changes something")
	Cover("run")
}

// C28_failure cannot clear or create the directory or one of the files.
func C28_failure() {
	x := letters(1)
	var out string
	switch Choose(3) {
	case 0:
		prepare(fullDirectory, x)
		out = "work/out/."
	case 1:
		prepare(absent, x)
		out = "work/"
		for i := 0; i < 256; i++ {
			out += "o"
		}
	case 2:
		prepare(absent, x)
		out = "work/o\x00"
	}
	giveInput(good, x)
	open := OpenFiles()
	err := pdf.Parse(Path("in.pdf"), "", Path("work")+out[len("work"):])
	Assert(OpenFiles() == open, "a file stays open")
	if err == nil {
		checkReplaced(out, good, x)
	} else {
		b, _ := os.ReadFile(Path("work/keep"))
		Assert(string(b) == "keep"+string(x), "a file next to the output is gone")
	}
	Cover("run")
}

// C28_limit runs out of files to open.
func C28_limit() {
	x := letters(1)
	before := []int{absent, emptyDirectory, belowAbsent, regularFile}[Choose(4)]
	out := prepare(before, x)
	giveInput(good, x)
	old, open := everything(), OpenFiles()
	n := Choose(10)
	LimitFiles(n)
	err := pdf.Parse(Path("in.pdf"), "", Path(out))
	LimitFiles(-1)
	Assert(OpenFiles() == open, "a file stays open")
	switch {
	case n == 0:
		Assert(err != nil, "no error without input")
		Assert(everything() == old, "something changes without input")
	case n <= len(outputs):
		Assert(err != nil, "no error without an output file")
	default:
		Assert(err == nil, "a document is refused")
		checkReplaced(out, good, x)
	}
	Cover("run")
}

// C28_flag gives any short first argument.
func C28_flag() {
	x := letters(1)
	out := prepare(fullDirectory, x)
	in, _ := giveInput(good, x)
	arg := Bytes(Bound("flag", 3, 4))
	arg = arg[:Choose(len(arg)+1)]
	for _, b := range arg {
		Assume(b != 0 && b < 0x80)
	}
	a := string(arg)
	old := everything()
	CallMain(a, in, out)
	switch a {
	case "-f", "--f", "-f=1", "-f=t", "-f=T":
		checkReplaced(out, good, x)
	default:
		Assert(everything() == old, "an existing output path is touched")
	}
	Cover("run")
}
