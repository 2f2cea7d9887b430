package smt

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Result of a satisfiability query.
type Result int

const (
	Unknown Result = iota
	Sat
	Unsat
)

func (r Result) String() string { return [...]string{"unknown", "sat", "unsat"}[r] }

// Stats counts what the solver did.
type Stats struct {
	Queries  int64
	Sat      int64
	Unsat    int64
	Unknown  int64
	Cached   int64
	Fallback int64
	Restarts int64
	Reals    int64
	Time     time.Duration
	MaxTime  time.Duration
}

func (s *Stats) Add(o *Stats) {
	s.Queries += o.Queries
	s.Sat += o.Sat
	s.Unsat += o.Unsat
	s.Unknown += o.Unknown
	s.Cached += o.Cached
	s.Fallback += o.Fallback
	s.Restarts += o.Restarts
	s.Reals += o.Reals
	s.Time += o.Time
	if o.MaxTime > s.MaxTime {
		s.MaxTime = o.MaxTime
	}
}

type cacheEnt struct {
	res   Result
	model map[int]uint64
}

// Solver drives one incremental z3 process.
type Solver struct {
	c     *Ctx
	cmd   *exec.Cmd
	in    *bufio.Writer
	inC   io.WriteCloser
	out   *bufio.Reader
	gen   uint32
	ndef  int
	decl  map[string]bool
	cache map[string]cacheEnt
	Stats Stats
	// limits
	TimeoutMs  int
	FallbackMs int
	Deadline   time.Time
	LastErr    string
}

func NewSolver(c *Ctx) *Solver {
	return &Solver{c: c, cache: map[string]cacheEnt{}, TimeoutMs: 4000, FallbackMs: 20000}
}

func (s *Solver) start() error {
	s.cmd = exec.Command("z3-new", "-in", "-smt2")
	in, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.inC = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.gen++
	s.ndef = 0
	s.decl = map[string]bool{}
	fmt.Fprintf(s.in, "(set-option :print-success false)\n(set-option :timeout %d)\n(set-logic ALL)\n", s.TimeoutMs)
	return nil
}

// Close ends the solver process.
func (s *Solver) Close() {
	if s.cmd != nil {
		s.inC.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func sortName(w uint8) string {
	switch w {
	case 0:
		return "Bool"
	case WFloat:
		return "(_ FloatingPoint 11 53)"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

type printer struct {
	w     io.Writer
	done  func(t *Term) bool
	mark  func(t *Term)
	decls map[string]bool
	n     int
}

func constStr(w uint8, k uint64) string {
	switch {
	case w == 0:
		if k != 0 {
			return "true"
		}
		return "false"
	case w == WFloat:
		return fmt.Sprintf("((_ to_fp 11 53) #x%016x)", k)
	case w%4 == 0:
		return fmt.Sprintf("#x%0*x", int(w)/4, k)
	}
	return fmt.Sprintf("#b%0*b", int(w), k)
}

func ref(t *Term) string {
	switch t.Op {
	case OpConst:
		return constStr(t.W, t.K)
	case OpVar:
		return t.Name
	}
	return "t" + strconv.Itoa(int(t.ID))
}

func (p *printer) declUF(t *Term) {
	if p.decls[t.Name] {
		return
	}
	p.decls[t.Name] = true
	var sb strings.Builder
	for i, a := range t.Args {
		if i > 0 {
			sb.WriteByte(' ')
		}
		sb.WriteString(sortName(a.W))
	}
	fmt.Fprintf(p.w, "(declare-fun |%s| (%s) %s)\n", t.Name, sb.String(), sortName(t.W))
}

// define emits definitions for t and everything below it.
func (p *printer) define(t *Term) {
	if t.Op == OpConst || p.done(t) {
		return
	}
	// iterative post-order to survive deep terms
	type ent struct {
		t *Term
		i int
	}
	stack := []ent{{t, 0}}
	for len(stack) > 0 {
		e := &stack[len(stack)-1]
		var kid *Term
		for kid == nil {
			if e.t.Op == OpUF {
				if e.i >= len(e.t.Args) {
					break
				}
				kid = e.t.Args[e.i]
			} else {
				if e.i >= 3 {
					break
				}
				kid = [3]*Term{e.t.A, e.t.B, e.t.C}[e.i]
			}
			e.i++
			if kid != nil && (kid.Op == OpConst || p.done(kid)) {
				kid = nil
			}
		}
		if kid != nil {
			stack = append(stack, ent{kid, 0})
			continue
		}
		x := e.t
		stack = stack[:len(stack)-1]
		if p.done(x) {
			continue
		}
		p.mark(x)
		p.n++
		if x.Op == OpVar {
			fmt.Fprintf(p.w, "(declare-const %s %s)\n", x.Name, sortName(x.W))
			continue
		}
		if x.Op == OpUF {
			p.declUF(x)
		}
		fmt.Fprintf(p.w, "(define-fun t%d () %s %s)\n", x.ID, sortName(x.W), body(x))
	}
}

var opNames = map[Op]string{
	OpNot: "not", OpAnd: "and", OpOr: "or", OpIte: "ite", OpEq: "=", OpUlt: "bvult", OpUle: "bvule", OpSlt: "bvslt", OpSle: "bvsle",
	OpAdd: "bvadd", OpSub: "bvsub", OpMul: "bvmul", OpUDiv: "bvudiv", OpURem: "bvurem", OpSDiv: "bvsdiv", OpSRem: "bvsrem",
	OpBAnd: "bvand", OpBOr: "bvor", OpBXor: "bvxor", OpBNot: "bvnot", OpShl: "bvshl", OpLShr: "bvlshr", OpAShr: "bvashr", OpConcat: "concat",
	OpFAdd: "fp.add RNE", OpFSub: "fp.sub RNE", OpFMul: "fp.mul RNE", OpFDiv: "fp.div RNE", OpFNeg: "fp.neg", OpFAbs: "fp.abs",
	OpFEq: "fp.eq", OpFLt: "fp.lt", OpFLe: "fp.leq",
	OpFofS: "(_ to_fp 11 53) RNE", OpFofU: "(_ to_fp_unsigned 11 53) RNE",
}

func setStr(a string, s *Set) string {
	var parts []string
	for i := 0; i < 256; {
		if !s.Has(i) {
			i++
			continue
		}
		j := i
		for j < 255 && s.Has(j+1) {
			j++
		}
		switch {
		case i == j:
			parts = append(parts, fmt.Sprintf("(= %s #x%02x)", a, i))
		case i == 0:
			parts = append(parts, fmt.Sprintf("(bvule %s #x%02x)", a, j))
		case j == 255:
			parts = append(parts, fmt.Sprintf("(bvuge %s #x%02x)", a, i))
		default:
			parts = append(parts, fmt.Sprintf("(and (bvuge %s #x%02x) (bvule %s #x%02x))", a, i, a, j))
		}
		i = j + 1
	}
	if len(parts) == 1 {
		return parts[0]
	}
	return "(or " + strings.Join(parts, " ") + ")"
}

func tabStr(a string, iw, w uint8, v []uint64, lo int) string {
	same := true
	for _, x := range v {
		if x != v[0] {
			same = false
			break
		}
	}
	if same {
		return constStr(w, v[0])
	}
	m := len(v) / 2
	return fmt.Sprintf("(ite (bvult %s %s) %s %s)", a, constStr(iw, uint64(lo+m)), tabStr(a, iw, w, v[:m], lo), tabStr(a, iw, w, v[m:], lo+m))
}

func body(x *Term) string {
	switch x.Op {
	case OpInSet:
		return setStr(ref(x.A), x.Set)
	case OpExtract:
		return fmt.Sprintf("((_ extract %d %d) %s)", int(x.K)+int(x.W)-1, x.K, ref(x.A))
	case OpZExt:
		return fmt.Sprintf("((_ zero_extend %d) %s)", x.W-x.A.W, ref(x.A))
	case OpSExt:
		return fmt.Sprintf("((_ sign_extend %d) %s)", x.W-x.A.W, ref(x.A))
	case OpTable:
		n := len(x.Tab.v)
		if x.A.W < 64 && n > 1<<x.A.W {
			n = 1 << x.A.W
		}
		return tabStr(ref(x.A), x.A.W, x.W, x.Tab.v[:n], 0)
	case OpUF:
		if len(x.Args) == 0 {
			return "|" + x.Name + "|"
		}
		var sb strings.Builder
		fmt.Fprintf(&sb, "(|%s|", x.Name)
		for _, a := range x.Args {
			sb.WriteByte(' ')
			sb.WriteString(ref(a))
		}
		sb.WriteByte(')')
		return sb.String()
	case OpFtoS:
		a := ref(x.A)
		return fmt.Sprintf("(ite (and (fp.lt %s ((_ to_fp 11 53) #x43e0000000000000)) (fp.geq %s ((_ to_fp 11 53) #xc3e0000000000000))) ((_ fp.to_sbv 64) RTZ %s) #x8000000000000000)", a, a, a)
	}
	name, ok := opNames[x.Op]
	if !ok {
		panic(fmt.Sprintf("smt: cannot print op %d", x.Op))
	}
	var sb strings.Builder
	sb.WriteByte('(')
	sb.WriteString(name)
	for _, a := range [3]*Term{x.A, x.B, x.C} {
		if a != nil {
			sb.WriteByte(' ')
			sb.WriteString(ref(a))
		}
	}
	sb.WriteByte(')')
	return sb.String()
}

// Check decides the conjunction. On Sat the model assigns every path variable occurring in it.
func (s *Solver) Check(conj []*Term) (Result, map[int]uint64) {
	var ids []int
	seen := map[uint32]bool{}
	var cs []*Term
	for _, t := range conj {
		if t.IsTrue() {
			continue
		}
		if t.IsFalse() {
			return Unsat, nil
		}
		if !seen[t.ID] {
			seen[t.ID] = true
			ids = append(ids, int(t.ID))
			cs = append(cs, t)
		}
	}
	if len(cs) == 0 {
		return Sat, map[int]uint64{}
	}
	sort.Ints(ids)
	var kb strings.Builder
	for _, i := range ids {
		kb.WriteString(strconv.Itoa(i))
		kb.WriteByte(',')
	}
	key := kb.String()
	if e, ok := s.cache[key]; ok {
		s.Stats.Cached++
		return e.res, e.model
	}
	t0 := time.Now()
	res := Unknown
	var model map[int]uint64
	fl, uf := false, false
	for _, t := range cs {
		fl = fl || t.HasF
		uf = uf || t.HasUF
	}
	if fl && !uf {
		if res, model = s.single(cs); res != Unknown {
		} else if m, ok := s.guess(cs); ok {
			res, model = Sat, m
		} else {
			res, model = s.reals(cs)
		}
	}
	if res == Unknown {
		res, model = s.run(cs)
	}
	if res == Unknown && !fl && !uf {
		res, model = s.reals(cs)
	}
	if res == Unknown {
		res, model = s.fallback(cs)
	}
	d := time.Since(t0)
	s.Stats.Queries++
	s.Stats.Time += d
	if d > s.Stats.MaxTime {
		s.Stats.MaxTime = d
	}
	switch res {
	case Sat:
		s.Stats.Sat++
	case Unsat:
		s.Stats.Unsat++
	default:
		s.Stats.Unknown++
	}
	if len(s.cache) > 200000 {
		s.cache = map[string]cacheEnt{}
	}
	s.cache[key] = cacheEnt{res, model}
	return res, model
}

func (s *Solver) varsOf(cs []*Term) []*Term {
	seen := map[int32]bool{}
	var vs []*Term
	for _, t := range cs {
		for _, a := range s.c.Vars(t) {
			if a >= 0 && !seen[a] && !s.c.Atoms[a].IsUF {
				seen[a] = true
				vs = append(vs, s.c.Atoms[a].T)
			}
		}
	}
	return vs
}

func (s *Solver) run(cs []*Term) (Result, map[int]uint64) {
	if s.cmd != nil && s.ndef > 150000 {
		s.Close()
		s.Stats.Restarts++
	}
	if s.cmd == nil {
		if err := s.start(); err != nil {
			s.LastErr = err.Error()
			return Unknown, nil
		}
	}
	p := &printer{w: s.in, done: func(t *Term) bool { return t.def == s.gen }, mark: func(t *Term) { t.def = s.gen }, decls: s.decl}
	for _, t := range cs {
		p.define(t)
	}
	s.ndef += p.n
	fmt.Fprintf(s.in, "(push 1)\n")
	for _, t := range cs {
		fmt.Fprintf(s.in, "(assert %s)\n", ref(t))
	}
	fmt.Fprintf(s.in, "(check-sat)\n")
	if err := s.in.Flush(); err != nil {
		s.LastErr = err.Error()
		s.Close()
		return Unknown, nil
	}
	// guard against a solver that ignores its timeout
	cmd := s.cmd
	timer := time.AfterFunc(time.Duration(s.TimeoutMs)*time.Millisecond*3+5*time.Second, func() { cmd.Process.Kill() })
	line, err := s.out.ReadString('\n')
	for err == nil && strings.TrimSpace(line) == "" { // rest of an earlier answer's line
		line, err = s.out.ReadString('\n')
	}
	timer.Stop()
	if err != nil {
		s.LastErr = "solver: " + err.Error()
		s.Close()
		return Unknown, nil
	}
	line = strings.TrimSpace(line)
	switch line {
	case "unsat":
		fmt.Fprintf(s.in, "(pop 1)\n")
		return Unsat, nil
	case "sat":
		vs := s.varsOf(cs)
		model := map[int]uint64{}
		if len(vs) > 0 {
			fmt.Fprintf(s.in, "(get-value (")
			for _, v := range vs {
				fmt.Fprintf(s.in, " %s", v.Name)
			}
			fmt.Fprintf(s.in, "))\n(pop 1)\n")
			s.in.Flush()
			txt, err := readSexp(s.out)
			if err != nil || !parseModel(txt, model) {
				s.LastErr = "solver: bad model " + txt
				s.Close()
				return Unknown, nil
			}
		} else {
			fmt.Fprintf(s.in, "(pop 1)\n")
		}
		return Sat, model
	case "unknown", "timeout":
		fmt.Fprintf(s.in, "(pop 1)\n")
		return Unknown, nil
	}
	s.LastErr = "solver: " + line
	s.Close()
	return Unknown, nil
}

func readSexp(r *bufio.Reader) (string, error) {
	var sb strings.Builder
	depth := 0
	started := false
	for {
		b, err := r.ReadByte()
		if err != nil {
			return sb.String(), err
		}
		if !started && (b == '\n' || b == ' ') {
			continue
		}
		sb.WriteByte(b)
		if b == '(' {
			depth++
			started = true
		} else if b == ')' {
			depth--
		} else if !started {
			// not an s-expression
			rest, _ := r.ReadString('\n')
			return sb.String() + rest, fmt.Errorf("unexpected output")
		}
		if started && depth == 0 {
			return sb.String(), nil
		}
	}
}

func parseModel(txt string, model map[int]uint64) bool {
	txt = strings.NewReplacer("(", " ", ")", " ").Replace(txt)
	f := strings.Fields(txt)
	for i := 0; i < len(f); {
		if f[i] == "error" {
			return false
		}
		if f[i][0] != 'v' || i+1 >= len(f) {
			return false
		}
		us := strings.IndexByte(f[i], '_')
		if us < 0 {
			return false
		}
		idx, err := strconv.Atoi(f[i][1:us])
		if err != nil {
			return false
		}
		v := f[i+1]
		var k uint64
		switch {
		case strings.HasPrefix(v, "#x"):
			k, err = strconv.ParseUint(v[2:], 16, 64)
		case strings.HasPrefix(v, "#b"):
			k, err = strconv.ParseUint(v[2:], 2, 64)
		case v == "_" && i+3 < len(f) && strings.HasPrefix(f[i+2], "bv"):
			k, err = strconv.ParseUint(f[i+2][2:], 10, 64)
			i += 2
		case v == "true":
			k = 1
		case v == "false":
			k = 0
		default:
			return false
		}
		if err != nil {
			return false
		}
		model[idx] = k
		i += 2
	}
	return true
}

// Script renders the conjunction as a standalone SMT-LIB file.
func (s *Solver) Script(cs []*Term, withModel bool) string {
	var sb strings.Builder
	sb.WriteString("(set-logic ALL)\n")
	done := map[uint32]bool{}
	p := &printer{w: &sb, done: func(t *Term) bool { return done[t.ID] }, mark: func(t *Term) { done[t.ID] = true }, decls: map[string]bool{}}
	for _, t := range cs {
		p.define(t)
	}
	for _, t := range cs {
		fmt.Fprintf(&sb, "(assert %s)\n", ref(t))
	}
	sb.WriteString("(check-sat)\n")
	if withModel {
		vs := s.varsOf(cs)
		if len(vs) > 0 {
			sb.WriteString("(get-value (")
			for _, v := range vs {
				sb.WriteString(" " + v.Name)
			}
			sb.WriteString("))\n")
		}
	}
	return sb.String()
}

func (s *Solver) fallback(cs []*Term) (Result, map[int]uint64) {
	s.Stats.Fallback++
	if s.FallbackMs <= 0 {
		return Unknown, nil
	}
	limit := time.Duration(s.FallbackMs) * time.Millisecond
	if !s.Deadline.IsZero() {
		if r := time.Until(s.Deadline); r < limit {
			limit = r
		}
	}
	if limit < 100*time.Millisecond {
		return Unknown, nil
	}
	script := "(set-option :produce-models true)\n" + s.Script(cs, true)
	if d := os.Getenv("VERIF_DUMP"); d != "" {
		os.WriteFile(fmt.Sprintf("%s/q%d-%d.smt2", d, os.Getpid(), s.Stats.Fallback), []byte(script), 0o644)
	}
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	type answer struct {
		r Result
		m map[int]uint64
	}
	ch := make(chan answer, 2)
	run := func(name string, args ...string) {
		cmd := exec.CommandContext(ctx, name, args...)
		cmd.Stdin = strings.NewReader(script)
		out, _ := cmd.Output()
		txt := string(out)
		line, rest, _ := strings.Cut(txt, "\n")
		switch strings.TrimSpace(line) {
		case "unsat":
			ch <- answer{Unsat, nil}
		case "sat":
			m := map[int]uint64{}
			if len(s.varsOf(cs)) > 0 && !parseModel(rest, m) {
				ch <- answer{}
				return
			}
			ch <- answer{Sat, m}
		default:
			ch <- answer{}
		}
	}
	go run("z3-new", "-in", "-smt2")
	go run("cvc5", "--lang=smt2", "-")
	for i := 0; i < 2; i++ {
		a := <-ch
		if a.r != Unknown {
			return a.r, a.m
		}
	}
	return Unknown, nil
}
