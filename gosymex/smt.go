package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type Solver struct {
	bin      string
	cmd      *exec.Cmd
	in       io.WriteCloser
	w        *bufio.Writer
	r        *bufio.Reader
	epoch    uint32
	ndef     int
	stack    []*Term
	timeout  int
	Queries  int
	Sat      int
	Unsat    int
	Unknown  int
	Time     time.Duration
	Slowest  time.Duration
	restarts int
}

var solverEpoch uint32

type SatRes int

const (
	SAT SatRes = iota
	UNSAT
	UNKNOWN
)

func solverBin() string {
	if p := os.Getenv("GOSYMEX_Z3"); p != "" {
		return p
	}
	if p, err := exec.LookPath("z3-new"); err == nil {
		return p
	}
	return "z3"
}

func NewSolver(timeoutMs int) *Solver {
	s := &Solver{bin: solverBin(), timeout: timeoutMs}
	s.start()
	return s
}

func (s *Solver) start() {
	solverEpochMu.Lock()
	solverEpoch++
	s.epoch = solverEpoch
	solverEpochMu.Unlock()
	s.cmd = exec.Command(s.bin, "-in", "-smt2")
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.cmd.Stderr = os.Stderr
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.in = in
	s.w = bufio.NewWriterSize(in, 1<<16)
	s.r = bufio.NewReaderSize(out, 1<<16)
	s.stack = s.stack[:0]
	s.ndef = 0
	fmt.Fprintf(s.w, "(set-option :print-success false)\n(set-option :global-declarations true)\n(set-option :timeout %d)\n(set-option :produce-models true)\n(set-logic ALL)\n", s.timeout)
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) restart() {
	s.Close()
	s.restarts++
	s.start()
}

func (s *Solver) ref(t *Term) string {
	switch t.op {
	case OConst:
		if t.w == 0 {
			if t.k == 1 {
				return "true"
			}
			return "false"
		}
		return "(_ bv" + strconv.FormatUint(t.k, 10) + " " + strconv.Itoa(int(t.w)) + ")"
	}
	s.define(t)
	return "t" + strconv.Itoa(int(t.id))
}

func sortOf(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return "(_ BitVec " + strconv.Itoa(int(w)) + ")"
}

func fsort(w uint8) string {
	if w == 32 {
		return "(_ to_fp 8 24)"
	}
	return "(_ to_fp 11 53)"
}

var opNames = map[Op]string{OAnd: "and", OOr: "or", OEq: "=", OIte: "ite", OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUDiv: "bvudiv", OSDiv: "bvsdiv", OURem: "bvurem", OSRem: "bvsrem", OShl: "bvshl", OLShr: "bvlshr", OAShr: "bvashr", OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor", OBNot: "bvnot", OULt: "bvult", OULe: "bvule", OSLt: "bvslt", OSLe: "bvsle", ONot: "not", OConcat: "concat"}

func (s *Solver) define(t *Term) {
	if t.smtEp == s.epoch {
		return
	}
	if t.op == OVar {
		t.smtEp = s.epoch
		fmt.Fprintf(s.w, "(declare-const t%d %s)\n", t.id, sortOf(t.w))
		return
	}
	var a, b, c string
	if t.a != nil {
		a = s.ref(t.a)
	}
	if t.b != nil {
		b = s.ref(t.b)
	}
	if t.c != nil {
		c = s.ref(t.c)
	}
	t.smtEp = s.epoch
	s.ndef++
	var e string
	fa := func(x string, w uint8) string { return "(" + fsort(w) + " " + x + ")" }
	switch t.op {
	case OZext:
		e = fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.a.w, a)
	case OSext:
		e = fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a.w, a)
	case OExtract:
		e = fmt.Sprintf("((_ extract %d %d) %s)", int(t.k)+int(t.w)-1, t.k, a)
	case OIte:
		e = "(ite " + a + " " + b + " " + c + ")"
	case OFAdd, OFSub, OFMul, OFDiv:
		n := map[Op]string{OFAdd: "fp.add", OFSub: "fp.sub", OFMul: "fp.mul", OFDiv: "fp.div"}[t.op]
		e = "(fp.to_ieee_bv (" + n + " RNE " + fa(a, t.a.w) + " " + fa(b, t.b.w) + "))"
	case OFLt:
		e = "(fp.lt " + fa(a, t.a.w) + " " + fa(b, t.b.w) + ")"
	case OFLe:
		e = "(fp.leq " + fa(a, t.a.w) + " " + fa(b, t.b.w) + ")"
	case OFEq:
		e = "(fp.eq " + fa(a, t.a.w) + " " + fa(b, t.b.w) + ")"
	case OFNaN:
		e = "(fp.isNaN " + fa(a, t.a.w) + ")"
	case OFInf:
		e = "(fp.isInfinite " + fa(a, t.a.w) + ")"
	case OFFromS:
		e = "(fp.to_ieee_bv (" + fsort(t.w) + " RNE " + a + "))"
	case OFFromU:
		n := "(_ to_fp_unsigned 11 53)"
		if t.w == 32 {
			n = "(_ to_fp_unsigned 8 24)"
		}
		e = "(fp.to_ieee_bv (" + n + " RNE " + a + "))"
	case OFToS:
		e = fmt.Sprintf("((_ fp.to_sbv %d) RTZ %s)", t.w, fa(a, t.a.w))
	case OFToF:
		e = "(fp.to_ieee_bv (" + fsort(t.w) + " RNE " + fa(a, t.a.w) + "))"
	default:
		n, ok := opNames[t.op]
		if !ok {
			panic(fmt.Sprint("smt op ", t.op))
		}
		e = "(" + n + " " + a
		if t.b != nil {
			e += " " + b
		}
		e += ")"
	}
	fmt.Fprintf(s.w, "(define-fun t%d () %s %s)\n", t.id, sortOf(t.w), e)
}

// Check decides pc /\ extra. On SAT, the values of vars are returned.
func (s *Solver) Check(pc []*Term, extra *Term, vars []*Term, wantModel bool) (SatRes, Model) {
	if s.ndef > 300000 {
		s.restart()
	}
	t0 := time.Now()
	defer func() {
		d := time.Since(t0)
		s.Time += d
		if d > s.Slowest {
			s.Slowest = d
		}
	}()
	// sync the stack
	n := 0
	for n < len(s.stack) && n < len(pc) && s.stack[n] == pc[n] {
		n++
	}
	if d := len(s.stack) - n; d > 0 {
		fmt.Fprintf(s.w, "(pop %d)\n", d)
		s.stack = s.stack[:n]
	}
	for _, t := range pc[n:] {
		r := s.ref(t)
		fmt.Fprintf(s.w, "(push 1)\n(assert %s)\n", r)
		s.stack = append(s.stack, t)
	}
	if extra != nil {
		r := s.ref(extra)
		fmt.Fprintf(s.w, "(push 1)\n(assert %s)\n", r)
	}
	fmt.Fprintf(s.w, "(check-sat)\n")
	s.w.Flush()
	line, err := s.r.ReadString('\n')
	s.Queries++
	res := UNKNOWN
	if err != nil {
		s.Unknown++
		s.restart()
		return UNKNOWN, nil
	}
	var m Model
	switch strings.TrimSpace(line) {
	case "sat":
		res = SAT
		s.Sat++
		if wantModel {
			m = s.model(vars)
		}
	case "unsat":
		res = UNSAT
		s.Unsat++
	default:
		s.Unknown++
		if strings.HasPrefix(line, "(error") {
			fmt.Fprintln(os.Stderr, "solver error:", line)
			s.restart()
			return UNKNOWN, nil
		}
	}
	if extra != nil {
		fmt.Fprintf(s.w, "(pop 1)\n")
	}
	return res, m
}

func (s *Solver) model(vars []*Term) Model {
	m := Model{}
	var sb strings.Builder
	var vs []*Term
	for _, v := range vars {
		if v.smtEp == s.epoch {
			vs = append(vs, v)
		}
	}
	if len(vs) == 0 {
		return m
	}
	sb.WriteString("(get-value (")
	for _, v := range vs {
		fmt.Fprintf(&sb, " t%d", v.id)
	}
	sb.WriteString("))\n")
	s.w.WriteString(sb.String())
	s.w.Flush()
	// read balanced parens
	depth, started := 0, false
	var out []byte
	for {
		c, err := s.r.ReadByte()
		if err != nil {
			return nil
		}
		out = append(out, c)
		if c == '(' {
			depth++
			started = true
		} else if c == ')' {
			depth--
		}
		if started && depth == 0 {
			break
		}
	}
	s.r.ReadString('\n')
	txt := strings.ReplaceAll(strings.ReplaceAll(string(out), "(", " "), ")", " ")
	f := strings.Fields(txt)
	vals := map[string]uint64{}
	for i := 0; i+1 < len(f); i += 2 {
		v := f[i+1]
		var n uint64
		switch {
		case v == "true":
			n = 1
		case v == "false":
			n = 0
		case strings.HasPrefix(v, "#x"):
			n, _ = strconv.ParseUint(v[2:], 16, 64)
		case strings.HasPrefix(v, "#b"):
			n, _ = strconv.ParseUint(v[2:], 2, 64)
		case v == "_": // (_ bvN w)
			n, _ = strconv.ParseUint(strings.TrimPrefix(f[i+2], "bv"), 10, 64)
			vals[f[i]] = n
			i += 2
			continue
		}
		vals[f[i]] = n
	}
	for _, v := range vs {
		m[v.name] = vals["t"+strconv.Itoa(int(v.id))]
	}
	return m
}
