package main

// SMT-LIB output and the portfolio of solvers.

import (
	"bytes"
	"context"
	"crypto/sha256"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

type smtBuf struct {
	decl   map[string]string
	dts    []*Sort
	dtSeen map[*Sort]bool
	body   bytes.Buffer
	names  map[*Term]string
	refs   map[*Term]int
	side   []*Term // range side conditions
	sideIn map[*Term]bool
	fps    bool
	seqs   bool
	n      int
}

func smtInt(n *big.Int) string {
	if n.Sign() < 0 {
		return "(- " + new(big.Int).Neg(n).String() + ")"
	}
	return n.String()
}

func (b *smtBuf) useSort(s *Sort) {
	switch s.Kind {
	case SSeq, SArr:
		if s.Kind == SSeq {
			b.seqs = true
		}
		b.useSort(s.Elem)
		if s.Key != nil {
			b.useSort(s.Key)
		}
	case SDT:
		if b.dtSeen[s] {
			return
		}
		b.dtSeen[s] = true
		for _, f := range s.Fields {
			b.useSort(f.Sort)
		}
		b.dts = append(b.dts, s)
	case SF32, SF64:
		b.fps = true
	}
}

func q(n string) string { return "|" + n + "|" }

func (b *smtBuf) count(t *Term) {
	b.refs[t]++
	if b.refs[t] > 1 {
		return
	}
	for _, a := range t.Args {
		b.count(a)
	}
}

// text returns the SMT form of t, naming the shared subterms.
func (b *smtBuf) text(t *Term) string {
	if n, ok := b.names[t]; ok {
		return n
	}
	s := b.expr(t)
	if len(t.Args) > 0 && b.refs[t] > 1 {
		b.n++
		n := fmt.Sprintf("t%d", b.n)
		fmt.Fprintf(&b.body, "(define-fun %s () %s %s)\n", n, t.Sort.Name, s)
		s = n
		b.names[t] = s
	} else if len(t.Args) == 0 {
		b.names[t] = s
	}
	return s
}

func (b *smtBuf) args(t *Term) string {
	r := make([]string, len(t.Args))
	for i, a := range t.Args {
		r[i] = b.text(a)
	}
	return strings.Join(r, " ")
}

func (b *smtBuf) expr(t *Term) string {
	b.useSort(t.Sort)
	if t.Sort == Int && (t.lo != nil || t.hi != nil) {
		switch t.Op {
		case OApp, ONth, OSel, OLen:
			if !b.sideIn[t] {
				b.sideIn[t] = true
				b.side = append(b.side, t)
			}
		}
	}
	switch t.Op {
	case OInt:
		return smtInt(t.N)
	case OTrue:
		return "true"
	case OFalse:
		return "false"
	case OApp:
		if _, ok := b.decl[t.Name]; !ok {
			as := make([]string, len(t.Args))
			for i, a := range t.Args {
				b.useSort(a.Sort)
				as[i] = a.Sort.Name
			}
			b.decl[t.Name] = fmt.Sprintf("(declare-fun %s (%s) %s)\n", q(t.Name), strings.Join(as, " "), t.Sort.Name)
		}
		if len(t.Args) == 0 {
			return q(t.Name)
		}
		return "(" + q(t.Name) + " " + b.args(t) + ")"
	case OAdd:
		var ps []string
		for i, a := range t.Args {
			s := b.text(a)
			if t.Coefs[i].Cmp(bone) != 0 {
				s = "(* " + smtInt(t.Coefs[i]) + " " + s + ")"
			}
			ps = append(ps, s)
		}
		if t.N.Sign() != 0 {
			ps = append(ps, smtInt(t.N))
		}
		if len(ps) == 1 {
			return ps[0]
		}
		return "(+ " + strings.Join(ps, " ") + ")"
	case OMul:
		return "(* " + b.args(t) + ")"
	case ODiv:
		return "(div " + b.args(t) + ")"
	case OMod:
		return "(mod " + b.args(t) + ")"
	case OIte:
		return "(ite " + b.args(t) + ")"
	case OEq:
		return "(= " + b.args(t) + ")"
	case OLe0:
		// print as a <= b, for readability and speed
		a := t.Args[0]
		if a.Op == OAdd {
			p, n := newLin(), newLin()
			for i, x := range a.Args {
				if a.Coefs[i].Sign() > 0 {
					p.add1(x, a.Coefs[i])
				} else {
					n.add1(x, new(big.Int).Neg(a.Coefs[i]))
				}
			}
			if a.N.Sign() > 0 {
				p.c.Set(a.N)
			} else {
				n.c.Neg(a.N)
			}
			return "(<= " + b.linText(p) + " " + b.linText(n) + ")"
		}
		return "(<= " + b.args(t) + " 0)"
	case ONot:
		return "(not " + b.args(t) + ")"
	case OAnd:
		return "(and " + b.args(t) + ")"
	case OOr:
		return "(or " + b.args(t) + ")"
	case OEmpty:
		return "(as seq.empty " + t.Sort.Name + ")"
	case OUnit:
		return "(seq.unit " + b.args(t) + ")"
	case OCat:
		return "(seq.++ " + b.args(t) + ")"
	case OLen:
		return "(seq.len " + b.args(t) + ")"
	case ONth:
		return "(seq.nth " + b.args(t) + ")"
	case OExt:
		return "(seq.extract " + b.args(t) + ")"
	case OMk:
		if len(t.Args) == 0 {
			return q("mk_" + t.Sort.Name)
		}
		return "(" + q("mk_"+t.Sort.Name) + " " + b.args(t) + ")"
	case OSel:
		return "(" + q(t.Name) + " " + b.args(t) + ")"
	case ORead:
		return "(select " + b.args(t) + ")"
	case OWrite:
		return "(store " + b.args(t) + ")"
	case OConstArr:
		return "((as const " + t.Sort.Name + ") " + b.args(t) + ")"
	case OFP:
		b.fps = true
		switch {
		case strings.HasPrefix(t.Name, "c64:"):
			return "((_ to_fp 11 53) #x" + t.Name[4:] + ")"
		case strings.HasPrefix(t.Name, "c32:"):
			return "((_ to_fp 8 24) #x" + t.Name[4:] + ")"
		case t.Name == "to32":
			return "((_ to_fp 8 24) RNE " + b.args(t) + ")"
		case t.Name == "to64":
			return "((_ to_fp 11 53) RNE " + b.args(t) + ")"
		case t.Name == "fp.add" || t.Name == "fp.sub" || t.Name == "fp.mul" || t.Name == "fp.div":
			return "(" + t.Name + " RNE " + b.args(t) + ")"
		}
		return "(" + t.Name + " " + b.args(t) + ")"
	}
	panic("smt expr")
}

func (b *smtBuf) linText(l *lin) string {
	var ps []string
	for _, x := range l.sorted() {
		s := b.text(x)
		if c := l.m[x]; c.Cmp(bone) != 0 {
			s = "(* " + smtInt(c) + " " + s + ")"
		}
		ps = append(ps, s)
	}
	if l.c.Sign() != 0 || len(ps) == 0 {
		ps = append(ps, smtInt(l.c))
	}
	if len(ps) == 1 {
		return ps[0]
	}
	return "(+ " + strings.Join(ps, " ") + ")"
}

// smtQuery builds the text that is unsatisfiable iff the
// hypotheses imply the goal.
func smtQuery(hyps []*Term, goal *Term) (string, bool, bool) {
	b := &smtBuf{decl: map[string]string{}, dtSeen: map[*Sort]bool{}, names: map[*Term]string{}, refs: map[*Term]int{}, sideIn: map[*Term]bool{}}
	for _, h := range hyps {
		b.count(h)
	}
	b.count(goal)
	for _, h := range hyps {
		s := b.text(h)
		fmt.Fprintf(&b.body, "(assert %s)\n", s)
	}
	s := b.text(goal)
	fmt.Fprintf(&b.body, "(assert (not %s))\n", s)
	for i := 0; i < len(b.side); i++ {
		t := b.side[i]
		s := b.text(t)
		if t.lo != nil && t.hi != nil {
			fmt.Fprintf(&b.body, "(assert (<= %s %s %s))\n", smtInt(t.lo), s, smtInt(t.hi))
		} else if t.lo != nil {
			fmt.Fprintf(&b.body, "(assert (<= %s %s))\n", smtInt(t.lo), s)
		} else {
			fmt.Fprintf(&b.body, "(assert (<= %s %s))\n", s, smtInt(t.hi))
		}
	}
	var h bytes.Buffer
	h.WriteString("(set-logic ALL)\n")
	for _, d := range b.dts {
		fmt.Fprintf(&h, "(declare-datatypes ((%s 0)) (((%s", d.Name, q("mk_"+d.Name))
		for _, f := range d.Fields {
			fmt.Fprintf(&h, " (%s %s)", q(d.Name+"."+f.Name), f.Sort.Name)
		}
		h.WriteString("))))\n")
	}
	var ns []string
	for n := range b.decl {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	for _, n := range ns {
		h.WriteString(b.decl[n])
	}
	h.Write(b.body.Bytes())
	h.WriteString("(check-sat)\n")
	return h.String(), b.seqs, b.fps
}

// ---- solvers

type Result struct {
	Status string // "unsat" (proved), "sat", "unknown"
	By     string
	Time   float64
	Text   string
	limit  time.Duration
}

type solver struct {
	name string
	args []string
}

var (
	cvc5s  = solver{"cvc5", []string{"cvc5", "--strings-exp", "--lang=smt2"}}
	z3s    = solver{"z3", []string{"z3-new", "-in"}}
	z3olds = solver{"z3-4.8", []string{"z3", "-in"}}
)

var cacheMu sync.Mutex
var qcache = map[[32]byte]Result{}
var solverTime = map[string]float64{}
var nQueries, nHits int64

var suffixRE = regexp.MustCompile("![0-9]+")

// canonical numbers the variables of a query by their order.
func canonical(text string) string {
	m := map[string]string{}
	return suffixRE.ReplaceAllStringFunc(text, func(s string) string {
		r, ok := m[s]
		if !ok {
			r = "!" + strconv.Itoa(len(m))
			m[s] = r
		}
		return r
	})
}

func runSolver(ctx context.Context, s solver, text string, limit time.Duration) (string, string) {
	args := append([]string{}, s.args...)
	switch s.name {
	case "cvc5":
		args = append(args, fmt.Sprintf("--tlimit=%d", limit.Milliseconds()))
	default:
		args = append(args, fmt.Sprintf("-t:%d", limit.Milliseconds()))
	}
	cctx, cancel := context.WithTimeout(ctx, limit+2*time.Second)
	defer cancel()
	cmd := exec.CommandContext(cctx, args[0], args[1:]...)
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	cmd.Stdin = strings.NewReader(text)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	_ = cmd.Run()
	o := strings.TrimSpace(out.String())
	line := o
	if i := strings.IndexByte(o, '\n'); i >= 0 {
		line = o[:i]
	}
	switch line {
	case "sat", "unsat":
		return line, o
	}
	if strings.Contains(o, "error") {
		return "error", o
	}
	return "unknown", o
}

// solve decides the query with a race between the solvers. The
// query lean, if any, has fewer hypotheses.
func solve(text, lean string, seqs, fps bool, limit time.Duration) Result {
	h := sha256.Sum256([]byte(canonical(text)))
	cacheMu.Lock()
	if r, ok := qcache[h]; ok && (r.Status != "unknown" || r.limit >= limit) {
		nHits++
		cacheMu.Unlock()
		return r
	}
	cacheMu.Unlock()
	atomic.AddInt64(&nQueries, 1)
	t0 := time.Now()
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	type ans struct {
		st, by, out string
		lean        bool
	}
	type job struct {
		s    solver
		lean bool
		at   time.Duration
	}
	ch := make(chan ans, 8)
	ms := time.Millisecond
	order := []job{{z3s, false, 0}, {cvc5s, false, 1500 * ms}}
	if seqs && !fps {
		order = []job{{cvc5s, false, 0}, {z3olds, false, 250 * ms}, {cvc5s, true, 400 * ms}, {z3s, false, 1500 * ms}}
	}
	if lean == "" || lean == text {
		var o []job
		for _, j := range order {
			if !j.lean {
				o = append(o, j)
			}
		}
		order = o
	}
	launched := 0
	launch := func() {
		j := order[launched]
		launched++
		q := text
		if j.lean {
			q = lean
		}
		go func() {
			st, out := runSolver(ctx, j.s, q, limit)
			if j.lean && st == "sat" {
				st = "unknown"
			}
			ch <- ans{st, j.s.name, out, j.lean}
		}()
	}
	launch()
	res := Result{Status: "unknown"}
	got := 0
loop:
	for got < launched || launched < len(order) {
		var next <-chan time.Time
		if launched < len(order) {
			d := order[launched].at - time.Since(t0)
			if d < 0 {
				d = 0
			}
			next = time.After(d)
		}
		select {
		case a := <-ch:
			got++
			if a.st == "unsat" || a.st == "sat" {
				res.Status, res.By = a.st, a.by
				res.Text = a.out
				break loop
			}
			res.Text += a.by + ": " + a.st + " " + trunc(a.out, 300) + "\n"
			if launched < len(order) && got == launched {
				launch()
			}
		case <-next:
			if launched < len(order) {
				launch()
			}
		}
	}
	res.Time = time.Since(t0).Seconds()
	if os.Getenv("JV_SLOW") != "" && res.Time > 0.8 {
		fmt.Fprintf(os.Stderr, "slow %.1fs %s %s %x\n", res.Time, res.Status, res.By, h[:4])
		_ = os.WriteFile(fmt.Sprintf("/tmp/dump/s%x.smt2", h[:4]), []byte(text), 0o644)
	}
	cacheMu.Lock()
	res.limit = limit
	qcache[h] = res
	solverTime[res.By] += res.Time
	cacheMu.Unlock()
	if os.Getenv("JV_DUMP") != "" && res.Status != "unsat" {
		_ = os.WriteFile(fmt.Sprintf("%s/q%x.smt2", os.Getenv("JV_DUMP"), h[:4]), []byte(text), 0o644)
	}
	return res
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}
