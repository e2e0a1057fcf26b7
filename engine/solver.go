package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"slices"
	"strconv"
	"strings"
	"time"
)

type SolverStats struct {
	Queries, Sat, Unsat, Unknown int
	Domain, Model, Simplified    int // decided by byte-domain / model reuse / simplifier
	Time                         time.Duration
	Cross, CrossBad              int
	IntQ, Cached                 int
}

func (a *SolverStats) add(b *SolverStats) {
	a.Queries += b.Queries
	a.Sat += b.Sat
	a.Unsat += b.Unsat
	a.Unknown += b.Unknown
	a.Domain += b.Domain
	a.Model += b.Model
	a.Simplified += b.Simplified
	a.Time += b.Time
	a.Cross += b.Cross
	a.CrossBad += b.CrossBad
	a.IntQ += b.IntQ
	a.Cached += b.Cached
}

type Solver struct {
	T     *Terms
	cmd   *exec.Cmd
	in    *bufio.Writer
	inRaw io.WriteCloser
	out   *bufio.Reader
	epoch uint32
	divs  map[*Term][]string // definitional side constraints of a term
	tmo   int                // ms
	st    SolverStats
	log   *os.File
	cache map[string]*qres
	errs  []string
	isol  *ISolver
}

type qres struct {
	res   int // 1 sat, 0 unsat, -1 unknown
	model map[int32]uint64
}

func NewSolver(T *Terms, tmo int) *Solver {
	s := &Solver{T: T, tmo: tmo, cache: map[string]*qres{}}
	if p := os.Getenv("GOSYM_SMTLOG"); p != "" {
		s.log, _ = os.CreateTemp(p, "q*.smt2")
	}
	s.start()
	return s
}

var solverEpoch uint32

func (s *Solver) start() {
	s.epoch++
	s.divs = map[*Term][]string{}
	s.cmd = exec.Command("z3-new", "-in", "-smt2")
	in, _ := s.cmd.StdinPipe()
	out, _ := s.cmd.StdoutPipe()
	s.cmd.Stderr = os.Stderr
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.inRaw = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.send("(set-option :global-declarations true)\n(set-option :produce-models true)\n")
	s.send(fmt.Sprintf("(set-option :timeout %d)\n", s.tmo))
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.inRaw.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
	if s.log != nil {
		s.log.Close()
	}
	if s.isol != nil {
		s.isol.Close()
		s.isol = nil
	}
}

func (s *Solver) send(x string) {
	s.in.WriteString(x)
	if s.log != nil {
		s.log.WriteString(x)
	}
}

// define makes sure every sub-term of t has a definition in the solver.
// Division by a constant is introduced as a fresh quotient with its defining
// inequalities, which are collected in deps.
func (s *Solver) define(t *Term, deps map[string]bool) {
	if t.op == OConst {
		return
	}
	if t.defd != s.epoch {
		for _, a := range t.args {
			s.define(a, nil)
		}
		t.defd = s.epoch
		if t.op == OVar {
			s.send(fmt.Sprintf("(declare-const v%d %s)\n", t.k, sortName(t.w)))
			if t.w > 0 && t.w <= 64 && t.hi < mask(t.w) {
				s.send(fmt.Sprintf("(assert (bvule v%d %s))\n", t.k, smtConst(t.w, t.hi)))
			}
		} else if t.op == OUDiv && t.args[1].op == OConst && t.args[1].k != 0 {
			c, x, w := t.args[1].k, t.args[0].ref(), t.w
			s.send(fmt.Sprintf("(declare-const t%d %s)\n", t.id, sortName(w)))
			q := t.ref()
			cs := smtConst(w, c)
			s.divs[t] = []string{
				fmt.Sprintf("(and (bvule %s %s) (bvule (bvmul %s %s) %s) (bvult (bvsub %s (bvmul %s %s)) %s))",
					q, smtConst(w, mask(w)/c), cs, q, x, x, cs, q, cs)}
		} else {
			s.send(fmt.Sprintf("(define-fun t%d () %s %s)\n", t.id, sortName(t.w), t.body()))
		}
	}
	if deps != nil {
		s.collect(t, deps, map[*Term]bool{})
	}
}

func (s *Solver) collect(t *Term, deps map[string]bool, seen map[*Term]bool) {
	if len(t.vars) == 0 || t.op == OVar || seen[t] {
		return
	}
	seen[t] = true
	for _, d := range s.divs[t] {
		deps[d] = true
	}
	for _, a := range t.args {
		s.collect(a, deps, seen)
	}
}

func domConstraint(v *Term, d ByteSet) string {
	n := 1 << max(v.w, 1)
	if v.w == 0 {
		n = 2
	}
	var parts []string
	for i := 0; i < n; {
		if !d.has(uint64(i)) {
			i++
			continue
		}
		j := i
		for j+1 < n && d.has(uint64(j+1)) {
			j++
		}
		if v.w == 0 {
			if i == j {
				if i == 0 {
					return "(not " + v.ref() + ")"
				}
				return v.ref()
			}
			return "true"
		}
		if i == j {
			parts = append(parts, "(= "+v.ref()+" "+smtConst(v.w, uint64(i))+")")
		} else {
			parts = append(parts, "(and (bvule "+smtConst(v.w, uint64(i))+" "+v.ref()+") (bvule "+v.ref()+" "+smtConst(v.w, uint64(j))+"))")
		}
		i = j + 1
	}
	if len(parts) == 0 {
		return "false"
	}
	if len(parts) == 1 {
		return parts[0]
	}
	return "(or " + strings.Join(parts, " ") + ")"
}

// Check decides the conjunction of cs under the variable domains dom.
func (s *Solver) Check(cs []*Term, dom []ByteSet, need []int32) *qres {
	T := s.T
	vs := map[int32]bool{}
	for _, c := range cs {
		for _, v := range c.vars {
			vs[v] = true
		}
	}
	var vars []int32
	for v := range vs {
		vars = append(vars, v)
	}
	slices.Sort(vars)
	ids := make([]int, len(cs))
	for i, c := range cs {
		ids[i] = int(c.id)
	}
	slices.Sort(ids)
	var kb strings.Builder
	for _, i := range ids {
		fmt.Fprintf(&kb, "%x,", i)
	}
	for _, v := range vars {
		x := T.vars[v]
		if x.w <= 8 && dom[v] != T.dom0[v] {
			fmt.Fprintf(&kb, ";%x:%x", v, dom[v])
		}
	}
	key := kb.String()
	if r := s.cache[key]; r != nil {
		s.st.Cached++
		return r
	}
	r := s.decide(cs, vars, dom)
	s.cache[key] = r
	return r
}

func (s *Solver) decide(cs []*Term, vars []int32, dom []ByteSet) *qres {
	seen := map[*Term]bool{}
	wants, can := false, true
	if s.isol == nil {
		s.isol = newISolver(s)
	}
	for _, c := range cs {
		wants = wants || wantsInt(c, seen)
		can = can && s.isol.p.encodable(c)
	}
	if wants && can {
		if r := s.idecide(cs, vars, dom); r.res != -1 {
			return r
		}
		return s.bvdecide(cs, vars, dom)
	}
	r := s.bvdecide(cs, vars, dom)
	if r.res == -1 && can {
		r = s.idecide(cs, vars, dom)
	}
	return r
}

func (s *Solver) idecide(cs []*Term, vars []int32, dom []ByteSet) *qres {
	x := s.isol
	x.st = SolverStats{}
	r := x.check(cs, vars, dom)
	s.st.add(&x.st)
	s.st.IntQ += x.st.Queries
	s.errs = append(s.errs, x.errs...)
	x.errs = nil
	return r
}

func (s *Solver) bvdecide(cs []*Term, vars []int32, dom []ByteSet) *qres {
	T := s.T
	if s.cmd == nil {
		s.start()
	}
	var body strings.Builder
	deps := map[string]bool{}
	for _, c := range cs {
		s.define(c, deps)
	}
	body.WriteString("(push 1)\n")
	for _, v := range vars {
		x := T.vars[v]
		if x.w <= 8 && dom[v] != T.dom0[v] {
			body.WriteString("(assert " + domConstraint(x, dom[v]) + ")\n")
		}
	}
	dl := make([]string, 0, len(deps))
	for d := range deps {
		dl = append(dl, d)
	}
	slices.Sort(dl)
	for _, d := range dl {
		body.WriteString("(assert " + d + ")\n")
	}
	for _, c := range cs {
		body.WriteString("(assert " + c.ref() + ")\n")
	}
	s.send(body.String())
	return s.run(vars)
}

func (s *Solver) run(vars []int32) *qres {
	t0 := time.Now()
	s.send("(check-sat)\n(echo \"@\")\n")
	s.in.Flush()
	s.st.Queries++
	r := &qres{res: -1}
	bad := false
	for {
		line, err := s.out.ReadString('\n')
		if err != nil {
			s.errs = append(s.errs, "solver died: "+err.Error())
			s.inRaw.Close()
			s.cmd.Process.Kill()
			s.cmd.Wait()
			s.cmd = nil
			s.st.Unknown++
			s.st.Time += time.Since(t0)
			return r
		}
		line = strings.TrimSpace(line)
		if line == "@" {
			break
		}
		switch {
		case line == "sat":
			r.res = 1
		case line == "unsat":
			r.res = 0
		case strings.HasPrefix(line, "(error"):
			bad = true
			if len(s.errs) < 20 {
				s.errs = append(s.errs, line)
			}
		}
	}
	if bad {
		r.res = -1
	}
	if r.res == 1 && len(vars) > 0 {
		var q strings.Builder
		q.WriteString("(get-value (")
		for _, v := range vars {
			fmt.Fprintf(&q, "v%d ", v)
		}
		q.WriteString("))\n(echo \"@\")\n")
		s.send(q.String())
		s.in.Flush()
		var sb strings.Builder
		for {
			line, err := s.out.ReadString('\n')
			if err != nil || strings.TrimSpace(line) == "@" {
				break
			}
			sb.WriteString(line)
		}
		r.model = s.parseModel(sb.String())
	}
	s.send("(pop 1)\n")
	if s.log != nil {
		fmt.Fprintf(s.log, "; %v %d\n", time.Since(t0), r.res)
	}
	s.st.Time += time.Since(t0)
	switch r.res {
	case 1:
		s.st.Sat++
	case 0:
		s.st.Unsat++
	default:
		s.st.Unknown++
	}
	return r
}

func (s *Solver) parseModel(x string) map[int32]uint64 {
	m := map[int32]uint64{}
	x = strings.NewReplacer("(", " ( ", ")", " ) ").Replace(x)
	f := strings.Fields(x)
	for i := 0; i < len(f); i++ {
		if len(f[i]) > 1 && f[i][0] == 'v' && i+1 < len(f) {
			id, err := strconv.Atoi(f[i][1:])
			if err != nil {
				continue
			}
			v := f[i+1]
			switch {
			case v == "true":
				m[int32(id)] = 1
			case v == "false":
				m[int32(id)] = 0
			case strings.HasPrefix(v, "#x"):
				u, _ := strconv.ParseUint(v[2:], 16, 64)
				m[int32(id)] = u
			case strings.HasPrefix(v, "#b"):
				u, _ := strconv.ParseUint(v[2:], 2, 64)
				m[int32(id)] = u
			case v[0] >= '0' && v[0] <= '9':
				u, _ := strconv.ParseUint(v, 10, 64)
				m[int32(id)] = u
			}
		}
	}
	return m
}
