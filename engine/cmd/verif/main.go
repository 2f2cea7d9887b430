// Command verif checks properties of the repository by symbolic execution.
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"verif/engine/smt"
	"verif/engine/vm"
)

const repo = "/repo"
const modPath = "github.com/KarmaPenny/pdfparser"

func fatal(code int, f string, a ...any) {
	fmt.Fprintf(os.Stderr, f+"\n", a...)
	os.Exit(code)
}

func main() {
	if len(os.Args) < 2 {
		fatal(2, "usage: verif check|replay ...")
	}
	switch os.Args[1] {
	case "check":
		check(os.Args[2:])
	case "replay":
		replayCmd(os.Args[2:])
	default:
		fatal(2, "unknown command %s", os.Args[1])
	}
}

type config struct {
	root    string // /verif
	prop    string
	tier    string
	seed    uint64
	only    string
	work    int
	scratch string // private directory outside the repository
	sources map[string][]byte
	names   []string
	overlay string
	replay  string
	bin     string
	bounds  map[string]int
}

var harnessRe = regexp.MustCompile(`(?m)^func ((C\d\d)_\w+)\(\)`)

// collect gathers the harness sources of one property.
func (c *config) collect() {
	c.sources = map[string][]byte{}
	add := func(pkg, file string) []byte {
		b, err := os.ReadFile(file)
		if err != nil {
			fatal(2, "%v", err)
		}
		c.sources[filepath.Join(repo, pkg, filepath.Base(file))] = b
		return b
	}
	ov := filepath.Join(c.root, "overlay")
	for _, pkg := range []string{"verifsym", "verifrt", "verifmain", "verifh"} {
		fs, _ := filepath.Glob(filepath.Join(ov, pkg, "*.go"))
		for _, f := range fs {
			if pkg == "verifh" {
				n := filepath.Base(f)
				if regexp.MustCompile(`^c\d\d`).MatchString(n) && !strings.HasPrefix(n, strings.ToLower(c.prop)) {
					continue
				}
			}
			b := add(pkg, f)
			if pkg == "verifh" {
				for _, m := range harnessRe.FindAllStringSubmatch(string(b), -1) {
					if m[2] == c.prop {
						c.names = append(c.names, m[1])
					}
				}
			}
		}
	}
	sort.Strings(c.names)
	var reg bytes.Buffer
	reg.WriteString("package verifh\n\n// Registry lists the harnesses.\nvar Registry = map[string]func(){\n")
	for _, n := range c.names {
		fmt.Fprintf(&reg, "\t%q: %s,\n", n, n)
	}
	reg.WriteString("}\n")
	c.sources[filepath.Join(repo, "verifh/registry.go")] = reg.Bytes()
}

func (c *config) env() []string {
	return os.Environ()
}

// build compiles the native replay and the command.
func (c *config) build() error {
	rep := map[string]string{}
	dir := filepath.Join(c.scratch, "src")
	for virt, b := range c.sources {
		rel, _ := filepath.Rel(repo, virt)
		if strings.HasPrefix(rel, "verifrt/") {
			continue
		}
		real := filepath.Join(dir, rel)
		os.MkdirAll(filepath.Dir(real), 0755)
		if err := os.WriteFile(real, b, 0644); err != nil {
			return err
		}
		rep[virt] = real
	}
	b, _ := json.Marshal(map[string]any{"Replace": rep})
	c.overlay = filepath.Join(c.scratch, "overlay.json")
	if err := os.WriteFile(c.overlay, b, 0644); err != nil {
		return err
	}
	c.replay = filepath.Join(c.scratch, "replay")
	c.bin = filepath.Join(c.scratch, "pdfparser")
	for _, x := range [][]string{
		{"build", "-overlay", c.overlay, "-o", c.replay, "./verifmain"},
		{"build", "-o", c.bin, "."},
	} {
		cmd := exec.Command("go", x...)
		cmd.Dir = repo
		cmd.Env = c.env()
		if out, err := cmd.CombinedOutput(); err != nil {
			return fmt.Errorf("%s: %v\n%s", strings.Join(x, " "), err, out)
		}
	}
	return nil
}

type natResult struct {
	I      int
	Obs    []string
	Covers []string
	Failed []string
	Skip   bool
	Panic  string
	Alloc  uint64
	Ms     int64
	Crash  string // abnormal end of the process
	Hang   bool
	Ran    bool
}

// run replays vectors natively.
func (c *config) run(h string, vecs [][]uint64, hangMs int) []natResult {
	out := make([]natResult, len(vecs))
	base := 0
	crashes := 0
	for base < len(vecs) {
		scratch, err := os.MkdirTemp(c.scratch, "run")
		if err != nil {
			fatal(2, "%v", err)
		}
		os.Chmod(scratch, 0777)
		os.Chown(scratch, 65534, 65534)
		job, _ := json.Marshal(map[string]any{"Harness": h, "Vectors": vecs[base:], "Tier": c.tier, "Bounds": c.bounds, "Scratch": scratch, "Bin": c.bin, "HangMs": hangMs})
		r, w, _ := os.Pipe()
		cmd := exec.Command("/bin/sh", "-c", "ulimit -v 8388608; exec "+c.replay)
		cmd.Stdin = bytes.NewReader(job)
		var stderr bytes.Buffer
		cmd.Stdout = nil
		cmd.Stderr = &limited{w: &stderr, n: 1 << 16}
		cmd.ExtraFiles = []*os.File{w}
		cmd.Dir = "/"
		cmd.Env = []string{"PATH=/usr/bin:/bin", "HOME=" + scratch, "TMPDIR=" + scratch}
		cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Credential: &syscall.Credential{Uid: 65534, Gid: 65534}}
		if err := cmd.Start(); err != nil {
			fatal(2, "%v", err)
		}
		w.Close()
		cur := -1
		killer := time.AfterFunc(time.Duration(hangMs)*time.Millisecond+20*time.Second, func() {})
		killer.Stop()
		arm := func() {
			killer.Stop()
			killer = time.AfterFunc(time.Duration(hangMs)*time.Millisecond+20*time.Second, func() {
				syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
			})
		}
		arm()
		sc := bufio.NewReader(r)
		done := -1
		for {
			line, err := sc.ReadString('\n')
			if err != nil {
				break
			}
			arm()
			switch {
			case strings.HasPrefix(line, "START "):
				cur, _ = strconv.Atoi(strings.TrimSpace(line[6:]))
			case strings.HasPrefix(line, "HANG "):
				out[base+cur].Hang = true
			case strings.HasPrefix(line, "RESULT "):
				var x natResult
				if json.Unmarshal([]byte(line[7:]), &x) == nil {
					x.Ran = true
					out[base+cur] = x
					done = cur
				}
			}
		}
		r.Close()
		err = cmd.Wait()
		killer.Stop()
		syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		os.RemoveAll(scratch)
		if done == len(vecs)-base-1 {
			break
		}
		if cur < 0 {
			fatal(2, "replay failed: %v %s", err, stderr.String())
		}
		o := &out[base+cur]
		o.Ran = true
		if !o.Hang {
			s := stderr.String()
			if len(s) > 600 {
				s = s[:600]
			}
			o.Crash = fmt.Sprintf("%v: %s", err, s)
		}
		base += cur + 1
		crashes++
		if o.Hang {
			crashes += 6
		}
		if crashes > 20 {
			break
		}
	}
	return out
}

type limited struct {
	w *bytes.Buffer
	n int
}

func (l *limited) Write(p []byte) (int, error) {
	if l.w.Len() < l.n {
		l.w.Write(p)
	}
	return len(p), nil
}

type known struct {
	Property string `json:"property"`
	Harness  string `json:"harness"`
	Assert   string `json:"assert"`
	What     string `json:"what"`
	Status   string `json:"status"` // "open" or "fixed"
	Commit   string `json:"commit,omitempty"`
}

func (c *config) findings() []known {
	var ks []known
	b, err := os.ReadFile(filepath.Join(c.root, "known_findings.json"))
	if err != nil {
		return nil
	}
	var f struct {
		Findings []known `json:"findings"`
	}
	if err := json.Unmarshal(b, &f); err != nil {
		fatal(2, "known_findings.json: %v", err)
	}
	for _, k := range f.Findings {
		if k.Property == c.prop && k.Status == "open" {
			ks = append(ks, k)
		}
	}
	return ks
}

type replayFile struct {
	Property string         `json:"property"`
	Harness  string         `json:"harness"`
	Kind     string         `json:"kind"`
	Message  string         `json:"message"`
	Tier     string         `json:"tier"`
	Bounds   map[string]int `json:"bounds,omitempty"`
	Vector   []uint64       `json:"vector"`
	Native   string         `json:"native"`
	Trace    []string       `json:"trace,omitempty"`
	How      string         `json:"how"`
}

type harnessRep struct {
	Name      string           `json:"name"`
	Paths     int64            `json:"paths"`
	Ends      map[string]int64 `json:"ends"`
	Asserts   int64            `json:"assertions"`
	Folded    int64            `json:"assertions_settled_by_rewriting"`
	SMT       int64            `json:"assertions_settled_by_solver"`
	Unknown   int64            `json:"assertions_unknown"`
	FeasUnk   int64            `json:"branches_unknown"`
	Decisions int64            `json:"decisions"`
	Steps     int64            `json:"instructions"`
	Queries   int64            `json:"solver_queries"`
	SolverS   float64          `json:"solver_s"`
	WallS     float64          `json:"wall_s"`
	Covers    map[string]int64 `json:"covers"`
	Bounds    map[string]int64 `json:"bounds"`
	Replayed  int              `json:"paths_replayed_natively"`
	Mismatch  int              `json:"replay_mismatches"`
	Cands     int              `json:"candidates"`
	Confirmed int              `json:"confirmed"`
	Unconf    []string         `json:"unconfirmed,omitempty"`
	Unsupp    map[string]int64 `json:"unsupported,omitempty"`
	Complete  bool             `json:"complete"`
}

func envUint(n string, d uint64) uint64 {
	if v, err := strconv.ParseUint(os.Getenv(n), 10, 64); err == nil {
		return v
	}
	return d
}

func setup(args []string, name string) (*config, *flag.FlagSet, func()) {
	c := &config{}
	fs := flag.NewFlagSet(name, flag.ExitOnError)
	fs.StringVar(&c.root, "root", "/verif", "")
	fs.StringVar(&c.prop, "prop", "", "property id")
	fs.StringVar(&c.tier, "tier", "", "quick or thorough")
	fs.StringVar(&c.only, "only", "", "only harnesses matching this regexp")
	fs.IntVar(&c.work, "j", 8, "workers")
	bounds := fs.String("bounds", "", "name=value,...")
	return c, fs, func() {
		if c.tier == "" {
			c.tier = "quick"
			if os.Getenv("VERIF_TIER") == "thorough" {
				c.tier = "thorough"
			}
		}
		c.seed = envUint("VERIF_SEED", 1)
		c.bounds = map[string]int{}
		for _, kv := range strings.Split(*bounds, ",") {
			if k, v, ok := strings.Cut(kv, "="); ok {
				c.bounds[k], _ = strconv.Atoi(v)
			}
		}
		d, err := os.MkdirTemp("", "verif-"+c.prop+"-")
		if err != nil {
			fatal(2, "%v", err)
		}
		os.Chmod(d, 0755)
		c.scratch = d
	}
}

func check(args []string) {
	c, fs, fin := setup(args, "check")
	maxS := fs.Int("max", 0, "time limit in seconds")
	verbose := fs.Bool("v", false, "print details")
	nsamp := fs.Int("samples", 0, "paths to replay natively per harness")
	timeout := fs.Int("timeout", 0, "solver timeout in ms")
	fs.Parse(args)
	fin()
	code := 2
	defer func() {
		os.RemoveAll(c.scratch)
		os.Exit(code)
	}()
	code = c.check(*maxS, *verbose, *nsamp, *timeout)
}

func (c *config) check(maxS int, verbose bool, nsamp, timeoutMs int) int {
	start := time.Now()
	thorough := c.tier == "thorough"
	if maxS == 0 {
		maxS = 700
		if thorough {
			maxS = 780
		}
	}
	if nsamp == 0 {
		nsamp = 48
		if thorough {
			nsamp = 160
		}
	}
	if timeoutMs == 0 {
		timeoutMs = 10000
		if thorough {
			timeoutMs = 30000
		}
	}
	c.collect()
	var names []string
	for _, n := range c.names {
		if c.only == "" || regexp.MustCompile(c.only).MatchString(n) {
			names = append(names, n)
		}
	}
	if len(names) == 0 {
		fmt.Fprintf(os.Stderr, "no harness for %s\n", c.prop)
		return 2
	}
	debug.SetMemoryLimit(14 << 30)
	buildErr := make(chan error, 1)
	go func() { buildErr <- c.build() }()
	prog, err := vm.Load(repo, c.sources, []string{modPath, modPath + "/verifh", modPath + "/verifrt"}, c.env())
	if err != nil {
		<-buildErr
		fmt.Fprintf(os.Stderr, "load: %v\n", err)
		return 2
	}
	if err := <-buildErr; err != nil {
		fmt.Fprintf(os.Stderr, "build: %v\n", err)
		return 2
	}
	loadS := time.Since(start).Seconds()
	ks := c.findings()
	knownHit := map[int]bool{}
	var reps []harnessRep
	funcs := map[string]int64{}
	blocks := map[string][2]int{}
	type viol struct {
		v    vm.Violation
		nat  string
		path string
	}
	var viols []viol
	inconclusive := []string{}
	deadline := start.Add(time.Duration(maxS) * time.Second)
	var samplesOut []any
	var tot vm.Result
	for i, name := range names {
		hs := time.Now()
		left := time.Until(deadline)
		share := left
		if n := len(names) - i; n > 1 {
			share = left * 2 / time.Duration(n+1)
		}
		e := &vm.Explorer{P: prog, Harness: prog.Pkgs[modPath+"/verifh"].Func(name), Workers: c.work, Bounds: c.bounds,
			Thorough: thorough, Seed: c.seed, SampleMax: nsamp, TimeoutMs: timeoutMs, FallbkMs: timeoutMs, Deadline: hs.Add(share),
			Lim: vm.Limits{Steps: 30000000, Depth: 4000, Alloc: allocLimit, Terms: 1500000}}
		e.Ignore = func(msg string) bool {
			for _, kf := range ks {
				if kf.Harness == name && kf.Assert == msg {
					return true
				}
			}
			return false
		}
		if len(viols) > 0 {
			if time.Since(start) > 150*time.Second {
				fmt.Printf("%s: skipped, violations already found\n", name)
				continue
			}
			e.Deadline = hs.Add(min(share, 30*time.Second))
		}
		res := e.Run()
		h := harnessRep{Name: name, Paths: res.Paths, Ends: map[string]int64{}, Asserts: res.Asserts, Folded: res.AssertFold,
			SMT: res.AssertSMT, Unknown: res.AssertUnk, FeasUnk: res.FeasUnk, Decisions: res.Decisions, Steps: res.Steps, Covers: res.Covers,
			Bounds: e.UsedBounds, Unsupp: res.Unsupp, Complete: !res.Incomplete, Queries: res.Stats.Queries, SolverS: res.Stats.Time.Seconds()}
		for k := vm.EndOK; k <= vm.EndViolated; k++ {
			if n := res.Ends[k]; n > 0 {
				h.Ends[k.String()] = n
			}
		}
		for k, v := range res.Funcs {
			funcs[k] += v
		}
		for k, v := range res.Blocks {
			b := blocks[k]
			blocks[k] = [2]int{max(b[0], v[0]), v[1]}
		}
		tot.Stats.Add(&res.Stats)
		if res.Incomplete && !e.Early {
			inconclusive = append(inconclusive, fmt.Sprintf("%s: time limit, %d subtrees left", name, res.Pending))
		}
		if res.OutOfMemory {
			inconclusive = append(inconclusive, name+": memory limit")
		}
		for m, n := range res.Unsupp {
			inconclusive = append(inconclusive, fmt.Sprintf("%s: %d paths outside the model: %s", name, n, m))
		}
		if res.AssertUnk > 0 {
			inconclusive = append(inconclusive, fmt.Sprintf("%s: %d assertions without verdict", name, res.AssertUnk))
		}
		// native replay: candidates, then sampled paths
		var vecs [][]uint64
		for _, v := range res.Viol {
			vecs = append(vecs, v.Vector)
		}
		nc := len(vecs)
		for _, s := range res.Samples {
			vecs = append(vecs, s.Vector)
		}
		nat := c.run(name, vecs, 10000)
		seen := map[string]bool{}
		h.Cands = nc
		add := func(v vm.Violation, what string) {
			for k, kf := range ks {
				if kf.Harness == name && kf.Assert == v.Msg {
					knownHit[k] = true
					return
				}
			}
			key := v.Kind + v.Msg
			h.Confirmed++
			if seen[key] {
				return
			}
			seen[key] = true
			v.Harness = name
			viols = append(viols, viol{v: v, nat: what})
		}
		unconf := map[string]int{}
		confd := map[string]bool{}
		for i, v := range res.Viol {
			x := nat[i]
			key := v.Kind + ": " + v.Msg
			switch {
			case !x.Ran || x.Skip:
				unconf[key]++
			case x.Panic != "" || x.Crash != "" || x.Hang:
				confd[key] = true
				add(v, describe(x))
			case v.Kind == "alloc" && x.Alloc > allocLimit:
				confd[key] = true
				add(v, fmt.Sprintf("allocates %d bytes", x.Alloc))
			case v.Kind == "steps" && x.Ms > 1500:
				confd[key] = true
				add(v, fmt.Sprintf("takes %d ms", x.Ms))
			case len(x.Failed) > 0:
				v.Msg = x.Failed[0]
				confd[key] = true
				v.Kind = "assert"
				add(v, describe(x))
			default:
				unconf[key]++
			}
		}
		for k := range unconf {
			if !confd[k] {
				h.Unconf = append(h.Unconf, k)
				inconclusive = append(inconclusive, name+": not reproduced natively: "+k)
			}
		}
		for i, s := range res.Samples {
			x := nat[nc+i]
			if !x.Ran {
				continue
			}
			h.Replayed++
			bad := ""
			switch {
			case x.Panic != "" || x.Crash != "" || x.Hang:
				add(vm.Violation{Kind: "panic", Msg: "real code failed on a path the model completed", Vector: s.Vector}, describe(x))
			case len(x.Failed) > 0:
				add(vm.Violation{Kind: "assert", Msg: x.Failed[0], Vector: s.Vector}, describe(x))
			case x.Skip:
				bad = "native run skipped"
			default:
				if !eq(s.Covers, x.Covers) {
					bad = fmt.Sprintf("covers %q vs native %q", s.Covers, x.Covers)
				} else if !eq(s.Obs, x.Obs) {
					bad = fmt.Sprintf("observed %q vs native %q", s.Obs, x.Obs)
				}
			}
			if bad != "" {
				h.Mismatch++
				if h.Mismatch < 4 {
					inconclusive = append(inconclusive, fmt.Sprintf("%s: model and real run differ: %s (vector %v)", name, bad, s.Vector))
				}
			}
			if len(samplesOut) < 12 && i < 2 {
				samplesOut = append(samplesOut, map[string]any{"harness": name, "vector": s.Vector, "observed": trunc(s.Obs), "covers": s.Covers, "end": s.Kind})
			}
		}
		// labels every harness must reach
		for _, l := range c.labels(name) {
			if res.Covers[l] == 0 && !res.Incomplete {
				inconclusive = append(inconclusive, fmt.Sprintf("%s: label %q never reached", name, l))
			}
		}
		h.WallS = round(time.Since(hs).Seconds())
		h.SolverS = round(h.SolverS)
		reps = append(reps, h)
		fmt.Printf("%s: paths=%d ends=%v asserts=%d (rewriting %d, solver %d) queries=%d solver=%.1fs replayed=%d mismatches=%d candidates=%d confirmed=%d wall=%.1fs\n",
			name, h.Paths, h.Ends, h.Asserts, h.Folded, h.SMT, h.Queries, h.SolverS, h.Replayed, h.Mismatch, h.Cands, h.Confirmed, h.WallS)
		if verbose {
			fmt.Printf("   covers=%v bounds=%v steps=%d decisions=%d terms=%d\n", h.Covers, h.Bounds, h.Steps, h.Decisions, res.Terms)
			if res.Volume > 0 {
				fmt.Printf("   volume=%.0f (%d paths not counted)\n", res.Volume, res.NoVolume)
			}
			for _, v := range res.Viol {
				fmt.Printf("   candidate %s: %s %v %v\n", v.Kind, v.Msg, v.Vector, v.Trace)
			}
		}
		tot.Paths += res.Paths
		tot.Decisions += res.Decisions
		tot.Audits += res.Audits
	}
	for i := range viols {
		v := &viols[i]
		os.MkdirAll(filepath.Join(c.root, "replays"), 0755)
		v.path = filepath.Join(c.root, "replays", fmt.Sprintf("%s-%d.json", v.v.Harness, i))
		b, _ := json.MarshalIndent(replayFile{c.prop, v.v.Harness, v.v.Kind, v.v.Msg, c.tier, c.bounds, v.v.Vector, v.nat, v.v.Trace,
			"bash /verif/engine/verif.sh replay " + v.path}, "", " ")
		os.WriteFile(v.path, b, 0644)
	}
	for _, s := range inconclusive {
		fmt.Println("INCONCLUSIVE:", s)
	}
	for k, kf := range ks {
		if knownHit[k] {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.prop, kf.What)
		}
	}
	for _, v := range viols {
		fmt.Printf("  %s in %s: %s\n", v.v.Kind, v.v.Harness, firstLine(v.v.Msg+" | "+v.nat))
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.prop, v.path)
	}
	c.evidence(start, loadS, reps, funcs, blocks, &tot, inconclusive, len(viols), samplesOut, prog)
	if len(viols) > 0 {
		return 1
	}
	return 0
}

// allocLimit is how much a single run may allocate at once.
const allocLimit = 1 << 24

func (c *config) labels(name string) []string {
	// Cover("x") literals inside the harness function marked as required with a trailing comment
	for _, b := range c.sources {
		s := string(b)
		i := strings.Index(s, "func "+name+"()")
		if i < 0 {
			continue
		}
		body := s[i:]
		if j := strings.Index(body, "\n}\n"); j >= 0 {
			body = body[:j]
		}
		var out []string
		for _, m := range regexp.MustCompile(`Cover\("([^"]+)"\)`).FindAllStringSubmatch(body, -1) {
			out = append(out, m[1])
		}
		return out
	}
	return nil
}

func describe(x natResult) string {
	switch {
	case x.Hang:
		return "hang: no result within 10 s"
	case x.Crash != "":
		return "crash: " + x.Crash
	case x.Panic != "":
		return "panic: " + x.Panic
	}
	return "failed: " + strings.Join(x.Failed, "; ") + " observed: " + strings.Join(trunc(x.Obs), " ")
}

func trunc(s []string) []string {
	var out []string
	for _, x := range s {
		if len(x) > 200 {
			x = x[:200] + "..."
		}
		out = append(out, strconv.Quote(x))
	}
	return out
}

func firstLine(s string) string {
	s, _, _ = strings.Cut(s, "\n")
	if len(s) > 400 {
		s = s[:400]
	}
	return s
}

func eq(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] && !strings.HasSuffix(a[i], "=?") {
			return false
		}
	}
	return true
}

func round(f float64) float64 { return float64(int(f*1000)) / 1000 }

var _ = smt.OpConst

func replayCmd(args []string) {
	if len(args) < 1 {
		fatal(2, "usage: verif replay FILE")
	}
	b, err := os.ReadFile(args[len(args)-1])
	if err != nil {
		fatal(2, "%v", err)
	}
	var r replayFile
	if err := json.Unmarshal(b, &r); err != nil {
		fatal(2, "%v", err)
	}
	c := &config{root: "/verif", prop: r.Property, tier: r.Tier, bounds: r.Bounds}
	d, _ := os.MkdirTemp("", "verif-replay-")
	os.Chmod(d, 0755)
	c.scratch = d
	defer os.RemoveAll(d)
	c.collect()
	if err := c.build(); err != nil {
		fatal(2, "%v", err)
	}
	x := c.run(r.Harness, [][]uint64{r.Vector}, 10000)[0]
	fmt.Println(describe(x))
	for _, o := range x.Obs {
		fmt.Printf("  %q\n", o)
	}
	if r.Kind == "alloc" && x.Alloc > allocLimit || r.Kind == "steps" && x.Ms > 1500 {
		fmt.Printf("allocates %d bytes, takes %d ms\n", x.Alloc, x.Ms)
		os.RemoveAll(d)
		os.Exit(1)
	}
	if x.Panic != "" || x.Crash != "" || x.Hang || len(x.Failed) > 0 {
		os.RemoveAll(d)
		os.Exit(1)
	}
}
