package main

import (
	"bufio"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"strings"
)

// Integer encoding: bit-vector terms made of linear forms, divisions by
// constants, extractions and comparisons are stated over mathematical integers
// with explicit wrap-around (a fresh quotient per wrapping sum), which keeps
// the mod-2^w meaning and spares bit-blasting of multiplications.

type iproc struct {
	defd map[*Term]bool
	side map[*Term][]string
	can  map[*Term]int8 // 1 yes 2 no
	nq   int
}

func big2(w uint8) *big.Int  { return new(big.Int).Lsh(big.NewInt(1), uint(w)) }
func bigU(u uint64) *big.Int { return new(big.Int).SetUint64(u) }

// encodable tells whether t has an integer encoding.
func (p *iproc) encodable(t *Term) bool {
	if t.op == OConst {
		return t.w <= 64
	}
	if r := p.can[t]; r != 0 {
		return r == 1
	}
	ok := t.w <= 64
	switch t.op {
	case OVar, OLin, OZext, OSext, OExtract, OIte, OEq, OUlt, OUle, OSlt, OSle, ONot, OBAnd, OBOr:
	case OUDiv:
		ok = ok && t.args[1].op == OConst && t.args[1].k != 0
	case OTable:
		ok = ok && len(t.tbl) <= 256
	default:
		ok = false
	}
	for _, a := range t.args {
		ok = ok && a.w <= 64 && p.encodable(a)
	}
	if ok {
		p.can[t] = 1
	} else {
		p.can[t] = 2
	}
	return ok
}

// wants tells whether t contains arithmetic that gains from the encoding.
func wantsInt(t *Term, seen map[*Term]bool) bool {
	if t.op == OConst || t.op == OVar || seen[t] {
		return false
	}
	seen[t] = true
	if t.op == OUDiv {
		return true
	}
	if t.op == OLin && t.w >= 16 {
		for _, c := range t.coef {
			if c != 1 && c != mask(t.w) && c&(c-1) != 0 {
				return true
			}
		}
	}
	for _, a := range t.args {
		if wantsInt(a, seen) {
			return true
		}
	}
	return false
}

func iref(t *Term) string {
	if t.op == OConst {
		if t.w == 0 {
			if t.k != 0 {
				return "true"
			}
			return "false"
		}
		return fmt.Sprint(t.k)
	}
	if t.op == OVar {
		return fmt.Sprintf("v%d", t.k)
	}
	return fmt.Sprintf("t%d", t.id)
}

func ibig(b *big.Int) string {
	if b.Sign() < 0 {
		return "(- " + new(big.Int).Neg(b).String() + ")"
	}
	return b.String()
}

func isgn(t *Term) string {
	if t.op == OConst {
		return ibig(big.NewInt(sext(t.k, t.w)))
	}
	h := new(big.Int).Lsh(big.NewInt(1), uint(t.w-1))
	if bigU(t.hi).Cmp(h) < 0 {
		return iref(t)
	}
	return fmt.Sprintf("(ite (>= %s %s) (- %s %s) %s)", iref(t), h, iref(t), big2(t.w), iref(t))
}

func (s *ISolver) idefine(t *Term) {
	if t.op == OConst || s.p.defd[t] {
		return
	}
	for _, a := range t.args {
		s.idefine(a)
	}
	s.p.defd[t] = true
	r := iref(t)
	var side []string
	rng := func() {
		side = append(side, fmt.Sprintf("(<= %d %s %d)", t.lo, r, t.hi))
	}
	decl := func() { s.send(fmt.Sprintf("(declare-const %s Int)\n", r)) }
	def := func(x string) {
		so := "Int"
		if t.w == 0 {
			so = "Bool"
		}
		s.send(fmt.Sprintf("(define-fun %s () %s %s)\n", r, so, x))
	}
	a := func(i int) string { return iref(t.args[i]) }
	switch t.op {
	case OVar:
		if t.w == 0 {
			s.send(fmt.Sprintf("(declare-const %s Bool)\n", r))
		} else {
			decl()
			side = append(side, fmt.Sprintf("(<= 0 %s %d)", r, t.hi))
		}
	case OLin:
		m := big2(t.w)
		half := new(big.Int).Rsh(m, 1)
		sum := []string{}
		lo, hi := new(big.Int), new(big.Int)
		put := func(c *big.Int, x *Term) {
			if c.Cmp(half) >= 0 {
				c = new(big.Int).Sub(c, m)
			}
			if x == nil {
				lo.Add(lo, c)
				hi.Add(hi, c)
				if c.Sign() != 0 {
					sum = append(sum, ibig(c))
				}
				return
			}
			l, h := new(big.Int).Mul(c, bigU(x.lo)), new(big.Int).Mul(c, bigU(x.hi))
			if c.Sign() < 0 {
				l, h = h, l
			}
			lo.Add(lo, l)
			hi.Add(hi, h)
			sum = append(sum, fmt.Sprintf("(* %s %s)", ibig(c), iref(x)))
		}
		put(bigU(t.k), nil)
		for i, x := range t.args {
			put(bigU(t.coef[i]), x)
		}
		e := "(+ 0 " + strings.Join(sum, " ") + ")"
		qlo, qhi := new(big.Int).Div(lo, m), new(big.Int).Div(hi, m)
		if qlo.Sign() == 0 && qhi.Sign() == 0 {
			def(e)
			rng()
		} else {
			decl()
			rng()
			if qlo.Cmp(qhi) == 0 {
				side = append(side, fmt.Sprintf("(= %s (- %s %s))", r, e, ibig(new(big.Int).Mul(qlo, m))))
			} else {
				q := fmt.Sprintf("q%d", s.p.nq)
				s.p.nq++
				s.send(fmt.Sprintf("(declare-const %s Int)\n", q))
				side = append(side, fmt.Sprintf("(<= %s %s %s)", ibig(qlo), q, ibig(qhi)),
					fmt.Sprintf("(= (+ %s (* %s %s)) %s)", r, m, q, e))
			}
		}
	case OUDiv:
		decl()
		c := t.args[1].k
		side = append(side, fmt.Sprintf("(<= (* %d %s) %s (+ (* %d %s) %d))", c, r, a(0), c, r, c-1))
		rng()
	case OZext:
		def(a(0))
	case OSext:
		x := t.args[0]
		h := new(big.Int).Lsh(big.NewInt(1), uint(x.w-1))
		d := new(big.Int).Sub(big2(t.w), big2(x.w))
		def(fmt.Sprintf("(ite (>= %s %s) (+ %s %s) %s)", a(0), h, a(0), d, a(0)))
	case OExtract:
		x := t.args[0]
		cur := a(0)
		if t.k > 0 {
			q := fmt.Sprintf("q%d", s.p.nq)
			s.p.nq++
			s.send(fmt.Sprintf("(declare-const %s Int)\n", q))
			c := big2(uint8(t.k))
			side = append(side, fmt.Sprintf("(<= (* %s %s) %s (+ (* %s %s) %s))", c, q, cur, c, q, new(big.Int).Sub(c, big.NewInt(1))))
			cur = q
		}
		if x.hi>>t.k <= mask(t.w) {
			def(cur)
			rng()
			break
		}
		q := fmt.Sprintf("q%d", s.p.nq)
		s.p.nq++
		s.send(fmt.Sprintf("(declare-const %s Int)\n", q))
		decl()
		side = append(side, fmt.Sprintf("(= %s (+ (* %s %s) %s))", cur, big2(t.w), q, r), fmt.Sprintf("(>= %s 0)", q))
		rng()
	case OIte:
		def(fmt.Sprintf("(ite %s %s %s)", a(0), a(1), a(2)))
	case OEq:
		def(fmt.Sprintf("(= %s %s)", a(0), a(1)))
	case OUlt:
		def(fmt.Sprintf("(< %s %s)", a(0), a(1)))
	case OUle:
		def(fmt.Sprintf("(<= %s %s)", a(0), a(1)))
	case OSlt:
		def(fmt.Sprintf("(< %s %s)", isgn(t.args[0]), isgn(t.args[1])))
	case OSle:
		def(fmt.Sprintf("(<= %s %s)", isgn(t.args[0]), isgn(t.args[1])))
	case ONot:
		def("(not " + a(0) + ")")
	case OBAnd:
		def("(and " + a(0) + " " + a(1) + ")")
	case OBOr:
		def("(or " + a(0) + " " + a(1) + ")")
	case OTable:
		var sb strings.Builder
		n := 0
		for i := 0; i < len(t.tbl)-1; i++ {
			if t.w == 0 {
				fmt.Fprintf(&sb, "(ite (= %s %d) %v ", a(0), i, t.tbl[i] != 0)
			} else {
				fmt.Fprintf(&sb, "(ite (= %s %d) %d ", a(0), i, t.tbl[i])
			}
			n++
		}
		if t.w == 0 {
			fmt.Fprintf(&sb, "%v", t.tbl[len(t.tbl)-1] != 0)
		} else {
			fmt.Fprintf(&sb, "%d", t.tbl[len(t.tbl)-1])
		}
		sb.WriteString(strings.Repeat(")", n))
		def(sb.String())
	}
	if side != nil {
		s.p.side[t] = side
	}
}

// ISolver is a z3 process used with the integer encoding.
type ISolver struct {
	*Solver
	p iproc
}

func newISolver(s *Solver) *ISolver {
	x := &ISolver{Solver: &Solver{T: s.T, tmo: s.tmo}}
	if p := os.Getenv("GOSYM_SMTLOG"); p != "" {
		x.log, _ = os.CreateTemp(p, "i*.smt2")
	}
	x.reset()
	return x
}

func (x *ISolver) reset() {
	x.p = iproc{defd: map[*Term]bool{}, side: map[*Term][]string{}, can: map[*Term]int8{}}
	x.cmd = exec.Command("z3-new", "-in", "-smt2")
	in, _ := x.cmd.StdinPipe()
	out, _ := x.cmd.StdoutPipe()
	if err := x.cmd.Start(); err != nil {
		panic(err)
	}
	x.inRaw = in
	x.in = bufio.NewWriterSize(in, 1<<16)
	x.out = bufio.NewReaderSize(out, 1<<16)
	x.send("(set-option :global-declarations true)\n(set-option :produce-models true)\n")
	x.send(fmt.Sprintf("(set-option :timeout %d)\n", x.tmo))
}

func (x *ISolver) check(cs []*Term, vars []int32, dom []ByteSet) *qres {
	if x.cmd == nil {
		x.reset()
	}
	for _, c := range cs {
		x.idefine(c)
	}
	var body strings.Builder
	body.WriteString("(push 1)\n")
	for _, v := range vars {
		t := x.T.vars[v]
		x.idefine(t)
		if t.w <= 8 && dom[v] != x.T.dom0[v] {
			body.WriteString("(assert " + idom(t, dom[v]) + ")\n")
		}
	}
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] || t.op == OConst {
			return
		}
		seen[t] = true
		for _, a := range t.args {
			walk(a)
		}
		for _, d := range x.p.side[t] {
			body.WriteString("(assert " + d + ")\n")
		}
	}
	for _, c := range cs {
		walk(c)
	}
	for _, c := range cs {
		body.WriteString("(assert " + iref(c) + ")\n")
	}
	x.send(body.String())
	return x.run(vars)
}

func idom(v *Term, d ByteSet) string {
	n := 1 << max(v.w, 1)
	var parts []string
	for i := 0; i < n; {
		if !d.has(uint64(i)) {
			i++
			continue
		}
		j := i
		for j+1 < n && d.has(uint64(j+1)) {
			j++
		}
		if v.w == 0 {
			if i == j {
				if i == 0 {
					return "(not " + iref(v) + ")"
				}
				return iref(v)
			}
			return "true"
		}
		parts = append(parts, fmt.Sprintf("(<= %d %s %d)", i, iref(v), j))
		i = j + 1
	}
	if len(parts) == 0 {
		return "false"
	}
	return "(or " + strings.Join(parts, " ") + ")"
}
