package main

import (
	"fmt"
	"math"
	"math/bits"
	"sort"
	"strings"
)

// Terms: hash-consed SMT expressions over booleans (w==0), bit-vectors (w in
// 1..64) and IEEE doubles (w==wF64).

type Op uint8

const (
	OConst Op = iota
	OVar
	OLin // k + sum coef[i]*args[i]  (mod 2^w)
	OMul
	OUDiv
	OURem
	OSDiv
	OSRem
	OAnd
	OOr
	OXor
	OShl
	OLshr
	OAshr
	OExtract // bits [k, k+w) of arg
	OZext
	OSext
	OIte
	OTable // tbl[arg]; arg guaranteed in range by construction site
	OEq
	OUlt
	OSlt
	OUle
	OSle
	ONot
	OBAnd
	OBOr
	// floats
	OFAdd
	OFSub
	OFMul
	OFDiv
	OFNeg
	OFAbs
	OFLt
	OFLe
	OFEq
	OFRnd   // k = mode
	OFFromS // signed bv -> f64
	OFFromU
	OFToS // f64 -> signed bv64 (Go amd64 semantics)
	OFToU
	OFFromBits
	OFToBits
	OFIsNaN
	OF32 // round to float32 and back
)

var opNames = map[Op]string{OAnd: "bvand", OOr: "bvor", OXor: "bvxor", OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr", OMul: "bvmul", OUDiv: "bvudiv", OURem: "bvurem", OSDiv: "bvsdiv", OSRem: "bvsrem", OEq: "=", OUlt: "bvult", OSlt: "bvslt", OUle: "bvule", OSle: "bvsle", OBAnd: "and", OBOr: "or"}

const wF64 = 100

type ByteSet [4]uint64

func (s *ByteSet) has(b uint64) bool { return s[b>>6&3]>>(b&63)&1 == 1 }
func (s *ByteSet) add(b uint64)      { s[b>>6&3] |= 1 << (b & 63) }
func (s ByteSet) and(t ByteSet) ByteSet {
	return ByteSet{s[0] & t[0], s[1] & t[1], s[2] & t[2], s[3] & t[3]}
}
func (s ByteSet) andNot(t ByteSet) ByteSet {
	return ByteSet{s[0] &^ t[0], s[1] &^ t[1], s[2] &^ t[2], s[3] &^ t[3]}
}
func (s ByteSet) empty() bool { return s[0]|s[1]|s[2]|s[3] == 0 }
func (s ByteSet) count() int {
	return bits.OnesCount64(s[0]) + bits.OnesCount64(s[1]) + bits.OnesCount64(s[2]) + bits.OnesCount64(s[3])
}
func (s ByteSet) first() uint64 {
	for i := 0; i < 4; i++ {
		if s[i] != 0 {
			return uint64(i*64 + bits.TrailingZeros64(s[i]))
		}
	}
	return 0
}

type Term struct {
	op     Op
	w      uint8
	id     uint32
	k      uint64
	args   []*Term
	coef   []uint64
	tbl    []uint64
	vars   []int32 // sorted variable indices
	hi     uint64  // unsigned upper bound (bit-vectors)
	lo     uint64
	vec    *[256]uint64 // values over the single <=8-bit variable
	set    *ByteSet
	evEp   uint32
	evVal  uint64
	name   string
	defd   uint32 // solver epoch in which it is defined
	signed bool   // for vars: display
	remd   bool
}

type tkey struct {
	op      Op
	w       uint8
	k       uint64
	a, b, c uint32
}

type Terms struct {
	tab    map[tkey]*Term
	tabN   map[string]*Term
	n      uint32
	vars   []*Term
	dom0   []ByteSet // full domains for <=8-bit vars
	True   *Term
	False  *Term
	ep     uint32
	smallK [9][257]*Term
	mono   map[*Term]*Term
}

func NewTerms() *Terms {
	T := &Terms{tab: map[tkey]*Term{}, tabN: map[string]*Term{}}
	T.True = T.intern(&Term{op: OConst, w: 0, k: 1})
	T.False = T.intern(&Term{op: OConst, w: 0, k: 0})
	return T
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return 1<<w - 1
}

func mergeVars(args []*Term) []int32 {
	switch len(args) {
	case 0:
		return nil
	case 1:
		return args[0].vars
	}
	cur := args[0].vars
	for _, a := range args[1:] {
		cur = mergeVars2(cur, a.vars)
	}
	return cur
}

func mergeVars2(a, b []int32) []int32 {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	if len(a) == len(b) && &a[0] == &b[0] {
		return a
	}
	// subset checks
	i, j, extraA, extraB := 0, 0, false, false
	for i < len(a) && j < len(b) {
		switch {
		case a[i] == b[j]:
			i++
			j++
		case a[i] < b[j]:
			extraA = true
			i++
		default:
			extraB = true
			j++
		}
	}
	if i < len(a) {
		extraA = true
	}
	if j < len(b) {
		extraB = true
	}
	if !extraB {
		return a
	}
	if !extraA {
		return b
	}
	out := make([]int32, 0, len(a)+len(b))
	i, j = 0, 0
	for i < len(a) || j < len(b) {
		switch {
		case j >= len(b) || i < len(a) && a[i] < b[j]:
			out = append(out, a[i])
			i++
		case i >= len(a) || b[j] < a[i]:
			out = append(out, b[j])
			j++
		default:
			out = append(out, a[i])
			i++
			j++
		}
	}
	return out
}

func (T *Terms) intern(t *Term) *Term {
	if len(t.args) <= 3 && t.op != OLin && t.op != OTable && t.op != OVar {
		k := tkey{op: t.op, w: t.w, k: t.k}
		switch len(t.args) {
		case 3:
			k.c = t.args[2].id + 1
			fallthrough
		case 2:
			k.b = t.args[1].id + 1
			fallthrough
		case 1:
			k.a = t.args[0].id + 1
		}
		if x := T.tab[k]; x != nil {
			return x
		}
		T.finish(t)
		T.tab[k] = t
		return t
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "%d.%d.%d", t.op, t.w, t.k)
	for i, a := range t.args {
		if t.coef != nil {
			fmt.Fprintf(&sb, "+%x*%x", t.coef[i], a.id)
		} else {
			fmt.Fprintf(&sb, ",%x", a.id)
		}
	}
	if t.tbl != nil {
		for _, v := range t.tbl {
			fmt.Fprintf(&sb, "|%x", v)
		}
	}
	key := sb.String()
	if x := T.tabN[key]; x != nil {
		return x
	}
	T.finish(t)
	T.tabN[key] = t
	return t
}

func (T *Terms) finish(t *Term) {
	t.id = T.n
	T.n++
	if t.op != OVar {
		t.vars = mergeVars(t.args)
	}
	if t.w > 0 && t.w <= 64 && t.hi == 0 {
		T.bounds(t)
	}
}

func (T *Terms) bounds(t *Term) {
	m := mask(t.w)
	t.lo, t.hi = 0, m
	switch t.op {
	case OConst:
		t.lo, t.hi = t.k, t.k
	case OZext:
		t.lo, t.hi = t.args[0].lo, t.args[0].hi
	case OExtract:
		a := t.args[0]
		h := a.hi >> t.k
		if h <= m {
			t.hi = h
			t.lo = a.lo >> t.k
		}
	case OAnd:
		t.hi = min(t.args[0].hi, t.args[1].hi)
	case OUDiv:
		if c := t.args[1]; c.op == OConst && c.k != 0 {
			t.lo, t.hi = t.args[0].lo/c.k, t.args[0].hi/c.k
		}
	case OURem:
		if c := t.args[1]; c.op == OConst && c.k != 0 {
			t.hi = min(c.k-1, t.args[0].hi)
		}
	case OIte:
		t.lo = min(t.args[1].lo, t.args[2].lo)
		t.hi = max(t.args[1].hi, t.args[2].hi)
	case OTable:
		t.lo, t.hi = m, 0
		for _, v := range t.tbl {
			t.lo = min(t.lo, v)
			t.hi = max(t.hi, v)
		}
	case OLin:
		// sum without wrap, allowing a negative constant
		var hi, lo uint64
		ok := true
		for i, a := range t.args {
			c := t.coef[i]
			h, l := bits.Mul64(c, a.hi)
			if h != 0 || l > m {
				ok = false
				break
			}
			s, cr := bits.Add64(hi, l, 0)
			if cr != 0 || s > m {
				ok = false
				break
			}
			hi = s
			lo += c * a.lo
		}
		if !ok {
			if l, h, fits := linRange(t.w, t.k, t.args, t.coef); fits && (l >= 0) == (h >= 0) && (t.w == 64 || uint64(h-l) <= m) {
				a, b := uint64(l)&m, uint64(h)&m
				if a <= b && (t.w == 64 || l >= -int64(m) && h <= int64(m)) {
					t.lo, t.hi = a, b
				}
			}
		}
		if ok {
			if s, cr := bits.Add64(hi, t.k, 0); cr == 0 && s <= m {
				t.hi, t.lo = s, lo+t.k
			} else {
				neg := (-t.k) & m // k = -neg
				if lo >= neg || hi < neg {
					t.hi, t.lo = (hi-neg)&m, (lo-neg)&m
				}
			}
		}
	}
	if t.hi == 0 {
		t.lo = 0
	}
}

// linRange is the range of a sum over the integers, with coefficients and the
// constant taken as signed.
func linRange(w uint8, k uint64, ts []*Term, cs []uint64) (lo, hi int64, ok bool) {
	const lim = 1 << 61
	lo = sext(k, w)
	hi = lo
	if lo > lim || lo < -lim {
		return 0, 0, false
	}
	for i, a := range ts {
		c := sext(cs[i], w)
		if a.hi > lim {
			return 0, 0, false
		}
		u := uint64(c)
		if c < 0 {
			u = -u
		}
		if h, l := bits.Mul64(u, a.hi); h != 0 || l > lim {
			return 0, 0, false
		}
		x, y := c*int64(a.lo), c*int64(a.hi)
		if c < 0 {
			x, y = y, x
		}
		lo += x
		hi += y
		if lo < -lim || hi > lim {
			return 0, 0, false
		}
	}
	return lo, hi, true
}

// splitLin writes a, which must be the integer sum it looks like, as b*q + r
// with r in a range [0,rhi].
func (T *Terms) splitLin(a *Term, b uint64) (q, r *Term, ok bool) {
	if a.op != OLin || b >= 1<<61 {
		return
	}
	lo, hi, fits := linRange(a.w, a.k, a.args, a.coef)
	if !fits || lo < 0 || a.w < 64 && uint64(hi) > mask(a.w) {
		return
	}
	n := int64(b)
	floor := func(x int64) int64 {
		d := x / n
		if x%n < 0 {
			d--
		}
		return d
	}
	var ql, rl linAcc
	any := false
	for i, t := range a.args {
		c := sext(a.coef[i], a.w)
		d := floor(c) // c = d*n + rest, rest in [0,n)
		if rest := c - d*n; rest > n/2 && n-rest < rest {
			d++
		}
		if d != 0 {
			ql.add(t, uint64(d))
			any = true
		}
		if rest := c - d*n; rest != 0 {
			rl.add(t, uint64(rest))
		}
	}
	k := sext(a.k, a.w)
	d := floor(k)
	rl.k = uint64(k - d*n)
	rlo, _, fits := linRange(a.w, rl.k&mask(a.w), rl.ts, rl.cs)
	if !fits {
		return
	}
	e := floor(rlo) // make the rest at least 0
	rl.k += uint64(-e * n)
	ql.k = uint64(d + e)
	if !any && ql.k == 0 {
		return
	}
	return T.lin(a.w, &ql), T.lin(a.w, &rl), true
}

func (T *Terms) Const(w uint8, k uint64) *Term {
	if w == 0 {
		if k != 0 {
			return T.True
		}
		return T.False
	}
	if w <= 64 {
		k &= mask(w)
	}
	return T.intern(&Term{op: OConst, w: w, k: k})
}

func (T *Terms) Bool(b bool) *Term {
	if b {
		return T.True
	}
	return T.False
}

// Var is a new variable, at most top.
func (T *Terms) Var(w uint8, top uint64, name string) *Term {
	idx := len(T.vars)
	t := &Term{op: OVar, w: w, k: uint64(idx), name: name, vars: []int32{int32(idx)}, hi: 0}
	t.id = T.n
	T.n++
	if w > 0 && w <= 64 {
		t.hi = min(top, mask(w))
	}
	T.vars = append(T.vars, t)
	var d ByteSet
	if w <= 8 {
		n := uint64(1) << max(w, 1)
		for i := uint64(0); i < n && i <= top; i++ {
			d.add(i)
		}
	}
	T.dom0 = append(T.dom0, d)
	return t
}

func (t *Term) isK() bool { return t.op == OConst }

func sext(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	s := 64 - uint(w)
	return int64(v<<s) >> s
}

// ---------- linear forms

type linAcc struct {
	k  uint64
	ts []*Term
	cs []uint64
}

func (l *linAcc) add(t *Term, c uint64) {
	switch t.op {
	case OConst:
		l.k += c * t.k
	case OLin:
		l.k += c * t.k
		for i, a := range t.args {
			l.addAtom(a, c*t.coef[i])
		}
	default:
		l.addAtom(t, c)
	}
}
func (l *linAcc) addAtom(t *Term, c uint64) {
	for i, x := range l.ts {
		if x == t {
			l.cs[i] += c
			return
		}
	}
	l.ts = append(l.ts, t)
	l.cs = append(l.cs, c)
}

func (T *Terms) lin(w uint8, l *linAcc) *Term {
	m := mask(w)
	l.k &= m
	n := 0
	for i := range l.ts {
		l.cs[i] &= m
		if l.cs[i] != 0 {
			l.ts[n], l.cs[n] = l.ts[i], l.cs[i]
			n++
		}
	}
	l.ts, l.cs = l.ts[:n], l.cs[:n]
	if n == 0 {
		return T.Const(w, l.k)
	}
	if n == 1 && l.k == 0 && l.cs[0] == 1 {
		return l.ts[0]
	}
	// insertion sort by id
	for i := 1; i < n; i++ {
		for j := i; j > 0 && l.ts[j-1].id > l.ts[j].id; j-- {
			l.ts[j-1], l.ts[j] = l.ts[j], l.ts[j-1]
			l.cs[j-1], l.cs[j] = l.cs[j], l.cs[j-1]
		}
	}
	t := T.intern(&Term{op: OLin, w: w, k: l.k, args: l.ts, coef: l.cs})
	T.remBounds(t)
	return t
}

// remBounds bounds sums that contain x - c*(x/c), which lies in [0,c-1].
func (T *Terms) remBounds(t *Term) {
	if t.remd || len(t.args) < 2 {
		return
	}
	t.remd = true
	m := mask(t.w)
	for i, q := range t.args {
		if q.op != OUDiv || !q.args[1].isK() {
			continue
		}
		c := q.args[1].k
		neg := -t.coef[i] & m
		if neg == 0 || neg%c != 0 || neg/c > 1<<20 {
			continue
		}
		j := neg / c
		x := q.args[0]
		var r linAcc // t - j*(x - c*q)
		r.k = t.k
		for k, a := range t.args {
			if k != i {
				r.addAtom(a, t.coef[k])
			}
		}
		n := len(r.ts)
		r.add(x, -j)
		if len(r.ts) > n {
			continue
		}
		o := T.lin(t.w, &r)
		if len(o.args) >= len(t.args)-1 && o.op == OLin && len(o.args) > n-1 {
			continue
		}
		h, l := bits.Mul64(j, c-1)
		s, cr := bits.Add64(l, o.hi, 0)
		if h == 0 && cr == 0 && s <= m && s-o.lo < t.hi-t.lo {
			t.lo, t.hi = o.lo, s
		}
	}
}

func (T *Terms) Add(a, b *Term) *Term {
	if a.isK() && b.isK() {
		return T.Const(a.w, a.k+b.k)
	}
	var l linAcc
	l.add(a, 1)
	l.add(b, 1)
	return T.lin(a.w, &l)
}
func (T *Terms) Sub(a, b *Term) *Term {
	if a.isK() && b.isK() {
		return T.Const(a.w, a.k-b.k)
	}
	var l linAcc
	l.add(a, 1)
	l.add(b, ^uint64(0))
	return T.lin(a.w, &l)
}
func (T *Terms) Neg(a *Term) *Term  { return T.Sub(T.Const(a.w, 0), a) }
func (T *Terms) BNot(a *Term) *Term { return T.Sub(T.Const(a.w, ^uint64(0)), a) }
func (T *Terms) MulK(a *Term, c uint64) *Term {
	var l linAcc
	l.add(a, c)
	return T.lin(a.w, &l)
}
func (T *Terms) Mul(a, b *Term) *Term {
	if a.isK() {
		return T.MulK(b, a.k)
	}
	if b.isK() {
		return T.MulK(a, b.k)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return T.intern(&Term{op: OMul, w: a.w, args: []*Term{a, b}})
}

func (T *Terms) UDiv(a, b *Term) *Term {
	if b.isK() && b.k != 0 {
		if a.isK() {
			return T.Const(a.w, a.k/b.k)
		}
		if b.k == 1 {
			return a
		}
		if a.hi < b.k {
			return T.Const(a.w, 0)
		}
		if a.op == OUDiv && a.args[1].isK() {
			h, l := bits.Mul64(a.args[1].k, b.k)
			if h == 0 && l <= mask(a.w) {
				return T.UDiv(a.args[0], T.Const(a.w, l))
			}
		}
		if a.op == OZext { // narrow
			x := a.args[0]
			if b.k <= mask(x.w) {
				return T.Zext(T.UDiv(x, T.Const(x.w, b.k)), a.w)
			}
		}
		// (c*b*t + r) / b with no wrap
		if a.op == OLin && T.noWrap(a) {
			var q, r linAcc
			q.k = a.k / b.k
			r.k = a.k % b.k
			any := q.k != 0
			for i, t := range a.args {
				if d := a.coef[i] / b.k; d != 0 {
					q.add(t, d)
					any = true
				}
				if d := a.coef[i] % b.k; d != 0 {
					r.add(t, d)
				}
			}
			if any {
				rt := T.lin(a.w, &r)
				if rt.hi < b.k {
					return T.lin(a.w, &q)
				}
				return T.Add(T.lin(a.w, &q), T.UDiv(rt, b))
			}
		}
		if q, r, ok := T.splitLin(a, b.k); ok {
			return T.Add(q, T.UDiv(r, b))
		}
	}
	return T.intern(&Term{op: OUDiv, w: a.w, args: []*Term{a, b}})
}

// noWrap: the linear form with all-positive small coefficients cannot wrap.
func (T *Terms) noWrap(a *Term) bool {
	m := mask(a.w)
	s := a.k
	for i, t := range a.args {
		h, l := bits.Mul64(a.coef[i], t.hi)
		if h != 0 || l > m {
			return false
		}
		x, c := bits.Add64(s, l, 0)
		if c != 0 || x > m {
			return false
		}
		s = x
	}
	return true
}

func (T *Terms) URem(a, b *Term) *Term {
	if b.isK() && b.k != 0 {
		if a.isK() {
			return T.Const(a.w, a.k%b.k)
		}
		if b.k&(b.k-1) == 0 {
			n := uint8(bits.TrailingZeros64(b.k))
			if n == 0 {
				return T.Const(a.w, 0)
			}
			return T.Zext(T.Extract(a, 0, n), a.w)
		}
		if a.hi < b.k {
			return a
		}
		if a.op == OZext && b.k <= mask(a.args[0].w) {
			x := a.args[0]
			return T.Zext(T.URem(x, T.Const(x.w, b.k)), a.w)
		}
		if a.op == OLin && T.noWrap(a) {
			var r linAcc
			r.k = a.k % b.k
			ch := a.k >= b.k
			for i, t := range a.args {
				if a.coef[i]%b.k != 0 {
					r.add(t, a.coef[i]%b.k)
					ch = ch || a.coef[i] >= b.k
				} else {
					ch = true
				}
			}
			if ch {
				return T.URem(T.lin(a.w, &r), b)
			}
		}
		// a - b*(a/b), remembering the bound
		q := T.UDiv(a, b)
		r := T.Sub(a, T.MulK(q, b.k))
		if r.hi > b.k-1 {
			r.hi = b.k - 1
			r.lo = 0
		}
		return r
	}
	return T.intern(&Term{op: OURem, w: a.w, args: []*Term{a, b}})
}

func (T *Terms) SDiv(a, b *Term) *Term {
	if b.isK() && b.k != 0 {
		if a.isK() {
			x, y := sext(a.k, a.w), sext(b.k, b.w)
			if y == -1 {
				return T.Const(a.w, -a.k)
			}
			return T.Const(a.w, uint64(x/y))
		}
		y := sext(b.k, b.w)
		half := mask(a.w) >> 1
		if y > 0 {
			if a.hi <= half {
				return T.UDiv(a, b)
			}
			return T.Ite(T.Slt(a, T.Const(a.w, 0)), T.Neg(T.UDiv(T.Neg(a), b)), T.UDiv(a, b))
		}
	}
	return T.intern(&Term{op: OSDiv, w: a.w, args: []*Term{a, b}})
}
func (T *Terms) SRem(a, b *Term) *Term {
	if b.isK() && b.k != 0 {
		if a.isK() {
			x, y := sext(a.k, a.w), sext(b.k, b.w)
			if y == -1 {
				return T.Const(a.w, 0)
			}
			return T.Const(a.w, uint64(x%y))
		}
		y := sext(b.k, b.w)
		half := mask(a.w) >> 1
		if y > 0 {
			if a.hi <= half {
				return T.URem(a, b)
			}
			return T.Ite(T.Slt(a, T.Const(a.w, 0)), T.Neg(T.URem(T.Neg(a), b)), T.URem(a, b))
		}
	}
	return T.intern(&Term{op: OSRem, w: a.w, args: []*Term{a, b}})
}

func (T *Terms) Extract(a *Term, lo uint64, w uint8) *Term {
	if lo == 0 && w == a.w {
		return a
	}
	switch a.op {
	case OConst:
		return T.Const(w, a.k>>lo)
	case OExtract:
		return T.Extract(a.args[0], lo+a.k, w)
	case OZext:
		x := a.args[0]
		if lo >= uint64(x.w) {
			return T.Const(w, 0)
		}
		if lo+uint64(w) <= uint64(x.w) {
			return T.Extract(x, lo, w)
		}
		return T.Zext(T.Extract(x, lo, x.w-uint8(lo)), w)
	case OSext:
		x := a.args[0]
		if lo+uint64(w) <= uint64(x.w) {
			return T.Extract(x, lo, w)
		}
	case OIte:
		if a.args[1].isK() || a.args[2].isK() {
			return T.Ite(a.args[0], T.Extract(a.args[1], lo, w), T.Extract(a.args[2], lo, w))
		}
	case OLin:
		if lo == 0 && a.hi > mask(w) {
			var l linAcc
			l.k = a.k
			for i, t := range a.args {
				if a.coef[i]&mask(w) == 0 {
					continue
				}
				l.add(T.Extract(t, 0, w), a.coef[i])
			}
			r := T.lin(w, &l)
			if a.hi <= mask(w) && (a.hi < r.hi) {
				r.hi, r.lo = a.hi, a.lo
			}
			return r
		}
	case OTable:
		tb := make([]uint64, len(a.tbl))
		for i, v := range a.tbl {
			tb[i] = v >> lo & mask(w)
		}
		return T.Table(a.args[0], tb, w)
	case OAnd, OOr, OXor:
		return T.bitop(a.op, T.Extract(a.args[0], lo, w), T.Extract(a.args[1], lo, w))
	}
	if a.hi>>lo == 0 {
		return T.Const(w, 0)
	}
	return T.intern(&Term{op: OExtract, w: w, k: lo, args: []*Term{a}})
}

func (T *Terms) Zext(a *Term, w uint8) *Term {
	if w == a.w {
		return a
	}
	switch a.op {
	case OConst:
		return T.Const(w, a.k)
	case OZext:
		return T.Zext(a.args[0], w)
	case OExtract:
		x := a.args[0]
		if a.k == 0 && x.hi <= mask(a.w) {
			if x.w == w {
				return x
			}
			if x.w > w {
				return T.Extract(x, 0, w)
			}
			return T.Zext(x, w)
		}
	case OIte:
		return T.Ite(a.args[0], T.Zext(a.args[1], w), T.Zext(a.args[2], w))
	case OTable:
		return T.Table(a.args[0], a.tbl, w)
	case OLin:
		// distribute when no wrap occurs in the narrow width
		if T.noWrap(a) {
			var l linAcc
			l.k = a.k
			for i, t := range a.args {
				l.add(T.Zext(t, w), a.coef[i])
			}
			return T.lin(w, &l)
		}
		// truncated form of a wide bounded remainder: Lin8 whose atoms are
		// extracts of wide terms; rebuild it wide if the wide one is in range.
		if a.hi < mask(a.w) {
			var l linAcc
			ok := true
			l.k = uint64(sext(a.k, a.w))
			for i, t := range a.args {
				if t.op == OExtract && t.k == 0 && t.args[0].w >= w {
					l.add(T.Extract(t.args[0], 0, w), uint64(sext(a.coef[i], a.w)))
				} else {
					ok = false
					break
				}
			}
			if ok {
				r := T.lin(w, &l)
				if r.hi <= mask(a.w) {
					return r
				}
			}
		}
	}
	return T.intern(&Term{op: OZext, w: w, args: []*Term{a}})
}

func (T *Terms) Sext(a *Term, w uint8) *Term {
	if w == a.w {
		return a
	}
	if a.isK() {
		return T.Const(w, uint64(sext(a.k, a.w)))
	}
	if a.hi <= mask(a.w)>>1 {
		return T.Zext(a, w)
	}
	if a.op == OIte {
		return T.Ite(a.args[0], T.Sext(a.args[1], w), T.Sext(a.args[2], w))
	}
	if a.op == OSext {
		return T.Sext(a.args[0], w)
	}
	return T.intern(&Term{op: OSext, w: w, args: []*Term{a}})
}

func (T *Terms) bitop(op Op, a, b *Term) *Term {
	w := a.w
	if a.isK() && b.isK() {
		switch op {
		case OAnd:
			return T.Const(w, a.k&b.k)
		case OOr:
			return T.Const(w, a.k|b.k)
		default:
			return T.Const(w, a.k^b.k)
		}
	}
	if a == b {
		switch op {
		case OXor:
			return T.Const(w, 0)
		default:
			return a
		}
	}
	if a.isK() {
		a, b = b, a
	}
	if b.isK() {
		switch op {
		case OAnd:
			if b.k == 0 {
				return b
			}
			if b.k == mask(w) {
				return a
			}
			if r := mask(uint8(bits.Len64(a.hi))); w <= 64 && a.hi != 0 && r < mask(w) { // the bits that a can have
				if b.k&r == r {
					return a
				}
				if b.k&r != b.k {
					return T.bitop(op, a, T.Const(w, b.k&r))
				}
			}
			if b.k&(b.k+1) == 0 {
				return T.Zext(T.Extract(a, 0, uint8(bits.Len64(b.k))), w)
			}
			if a.op == OZext && b.k > mask(a.args[0].w) {
				return T.bitop(op, a, T.Const(w, b.k&mask(a.args[0].w)))
			}
		case OOr:
			if b.k == 0 {
				return a
			}
			if b.k == mask(w) {
				return b
			}
		case OXor:
			if b.k == 0 {
				return a
			}
			if b.k == mask(w) {
				return T.BNot(a)
			}
		}
	}
	if op != OAnd {
		// disjoint bits: or/xor is addition
		if T.disjoint(a, b) || T.disjoint(b, a) {
			return T.Add(a, b)
		}
	}
	if a.op == OZext && b.op == OZext && a.args[0].w == b.args[0].w {
		return T.Zext(T.bitop(op, a.args[0], b.args[0]), w)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return T.intern(&Term{op: op, w: w, args: []*Term{a, b}})
}

// low bits of a known zero up to bit length of b
func (T *Terms) disjoint(a, b *Term) bool {
	n := bits.Len64(b.hi)
	return T.tz(a) >= n
}
func (T *Terms) tz(a *Term) int {
	switch a.op {
	case OConst:
		if a.k == 0 {
			return 64
		}
		return bits.TrailingZeros64(a.k)
	case OLin:
		n := 64
		if a.k != 0 {
			n = bits.TrailingZeros64(a.k)
		}
		for i, t := range a.args {
			n = min(n, bits.TrailingZeros64(a.coef[i])+T.tz(t))
		}
		return n
	case OZext:
		return T.tz(a.args[0])
	}
	return 0
}

func (T *Terms) Shl(a, b *Term) *Term {
	if b.isK() {
		if b.k >= uint64(a.w) {
			return T.Const(a.w, 0)
		}
		return T.MulK(a, 1<<b.k)
	}
	return T.intern(&Term{op: OShl, w: a.w, args: []*Term{a, b}})
}
func (T *Terms) Lshr(a, b *Term) *Term {
	if b.isK() {
		if b.k >= uint64(a.w) {
			return T.Const(a.w, 0)
		}
		if b.k == 0 {
			return a
		}
		return T.Zext(T.Extract(a, b.k, a.w-uint8(b.k)), a.w)
	}
	return T.intern(&Term{op: OLshr, w: a.w, args: []*Term{a, b}})
}
func (T *Terms) Ashr(a, b *Term) *Term {
	if a.hi <= mask(a.w)>>1 {
		return T.Lshr(a, b)
	}
	if b.isK() {
		k := min(b.k, uint64(a.w-1))
		if a.isK() {
			return T.Const(a.w, uint64(sext(a.k, a.w)>>k))
		}
		if k == 0 {
			return a
		}
		return T.Sext(T.Extract(a, k, a.w-uint8(k)), a.w)
	}
	return T.intern(&Term{op: OAshr, w: a.w, args: []*Term{a, b}})
}

func (T *Terms) Table(a *Term, tbl []uint64, w uint8) *Term {
	if a.isK() {
		return T.Const(w, tbl[a.k])
	}
	n := len(tbl)
	if a.hi < uint64(n) {
		n = int(a.hi) + 1
	}
	same := true
	for i := 1; i < n; i++ {
		if tbl[i] != tbl[0] {
			same = false
			break
		}
	}
	if same {
		return T.Const(w, tbl[0])
	}
	return T.intern(&Term{op: OTable, w: w, args: []*Term{a}, tbl: tbl[:n]})
}

// ---------- booleans

func (T *Terms) Not(a *Term) *Term {
	switch a.op {
	case OConst:
		return T.Bool(a.k == 0)
	case ONot:
		return a.args[0]
	case OUlt:
		return T.Ule(a.args[1], a.args[0])
	case OUle:
		return T.Ult(a.args[1], a.args[0])
	case OSlt:
		return T.Sle(a.args[1], a.args[0])
	case OSle:
		return T.Slt(a.args[1], a.args[0])
	}
	return T.intern(&Term{op: ONot, args: []*Term{a}})
}
func (T *Terms) And(a, b *Term) *Term {
	if a == b {
		return a
	}
	if a.isK() {
		if a.k == 0 {
			return a
		}
		return b
	}
	if b.isK() {
		if b.k == 0 {
			return b
		}
		return a
	}
	if T.Not(a) == b {
		return T.False
	}
	if a.id > b.id {
		a, b = b, a
	}
	return T.intern(&Term{op: OBAnd, args: []*Term{a, b}})
}
func (T *Terms) Or(a, b *Term) *Term {
	if a == b {
		return a
	}
	if a.isK() {
		if a.k != 0 {
			return a
		}
		return b
	}
	if b.isK() {
		if b.k != 0 {
			return b
		}
		return a
	}
	if T.Not(a) == b {
		return T.True
	}
	if a.id > b.id {
		a, b = b, a
	}
	return T.intern(&Term{op: OBOr, args: []*Term{a, b}})
}

func (T *Terms) Ite(c, a, b *Term) *Term {
	if c.isK() {
		if c.k != 0 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if c.op == ONot {
		return T.Ite(c.args[0], b, a)
	}
	if a.w == 0 {
		if a.isK() {
			if a.k != 0 {
				return T.Or(c, b)
			}
			return T.And(T.Not(c), b)
		}
		if b.isK() {
			if b.k != 0 {
				return T.Or(T.Not(c), a)
			}
			return T.And(c, a)
		}
	}
	if a.op == OIte && a.args[0] == c {
		a = a.args[1]
	}
	if b.op == OIte && b.args[0] == c {
		b = b.args[2]
	}
	return T.intern(&Term{op: OIte, w: a.w, args: []*Term{c, a, b}})
}

func (T *Terms) Eq(a, b *Term) *Term {
	if a == b {
		return T.True
	}
	if a.w == 0 {
		if a.isK() {
			a, b = b, a
		}
		if b.isK() {
			if b.k != 0 {
				return a
			}
			return T.Not(a)
		}
		if a.id > b.id {
			a, b = b, a
		}
		return T.intern(&Term{op: OEq, args: []*Term{a, b}})
	}
	if a.w == wF64 {
		panic("Eq on float")
	}
	if a.isK() && b.isK() {
		return T.Bool(a.k == b.k)
	}
	if a.hi < b.lo || b.hi < a.lo {
		return T.False
	}
	if a.isK() {
		a, b = b, a
	}
	if b.isK() {
		switch a.op {
		case OZext:
			x := a.args[0]
			if b.k > mask(x.w) {
				return T.False
			}
			return T.Eq(x, T.Const(x.w, b.k))
		case OSext:
			x := a.args[0]
			if uint64(sext(b.k, x.w))&mask(a.w) != b.k {
				return T.False
			}
			return T.Eq(x, T.Const(x.w, b.k))
		case OIte:
			x, y := a.args[1], a.args[2]
			if x.isK() || y.isK() {
				return T.Ite(a.args[0], T.Eq(x, b), T.Eq(y, b))
			}
		case OLin:
			if len(a.args) == 1 && a.coef[0] == 1 {
				return T.Eq(a.args[0], T.Const(a.w, b.k-a.k))
			}
			if len(a.args) == 1 && a.coef[0] == mask(a.w) {
				return T.Eq(a.args[0], T.Const(a.w, a.k-b.k))
			}
		}
	} else {
		if a.op == OZext && b.op == OZext && a.args[0].w == b.args[0].w {
			return T.Eq(a.args[0], b.args[0])
		}
		if a.op == OLin || b.op == OLin {
			d := T.Sub(a, b)
			if d.isK() {
				return T.Bool(d.k == 0)
			}
			// normalise: d == 0 as  positive side
			if d.op != OLin {
				return T.Eq(d, T.Const(d.w, 0))
			}
			if d.hi < mask(d.w) && d.lo > 0 {
				return T.False
			}
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return T.intern(&Term{op: OEq, args: []*Term{a, b}})
}

func (T *Terms) Ult(a, b *Term) *Term {
	if a == b || a.lo >= b.hi && a.w > 0 {
		return T.False
	}
	if a.hi < b.lo {
		return T.True
	}
	if b.isK() && b.k == 1 {
		return T.Eq(a, T.Const(a.w, 0))
	}
	if r := T.narrowCmp(a, b, OUlt); r != nil {
		return r
	}
	return T.intern(&Term{op: OUlt, args: []*Term{a, b}})
}
func (T *Terms) Ule(a, b *Term) *Term {
	if a == b || a.hi <= b.lo {
		return T.True
	}
	if a.lo > b.hi {
		return T.False
	}
	if b.isK() {
		return T.Ult(a, T.Const(a.w, b.k+1)) // b.k<mask since a.hi>b.lo
	}
	if a.isK() { // k <= b  <=> k-1 < b (k>0 since a.lo>... )
		if a.k == 0 {
			return T.True
		}
		return T.Ult(T.Const(a.w, a.k-1), b)
	}
	if r := T.narrowCmp(a, b, OUle); r != nil {
		return r
	}
	return T.intern(&Term{op: OUle, args: []*Term{a, b}})
}

// drop common zero extension
func (T *Terms) narrowCmp(a, b *Term, op Op) *Term {
	if a.op == OZext && (b.op == OZext && a.args[0].w == b.args[0].w) {
		x, y := a.args[0], b.args[0]
		if op == OUlt {
			return T.Ult(x, y)
		}
		return T.Ule(x, y)
	}
	if a.op == OZext && b.isK() && b.k <= mask(a.args[0].w) {
		x := a.args[0]
		if op == OUlt {
			return T.Ult(x, T.Const(x.w, b.k))
		}
		return T.Ule(x, T.Const(x.w, b.k))
	}
	if b.op == OZext && a.isK() && a.k <= mask(b.args[0].w) {
		y := b.args[0]
		if op == OUlt {
			return T.Ult(T.Const(y.w, a.k), y)
		}
		return T.Ule(T.Const(y.w, a.k), y)
	}
	if op == OUlt && a.op == OIte && b.isK() && (a.args[1].isK() || a.args[2].isK()) {
		return T.Ite(a.args[0], T.Ult(a.args[1], b), T.Ult(a.args[2], b))
	}
	if op == OUlt && b.op == OIte && a.isK() && (b.args[1].isK() || b.args[2].isK()) {
		return T.Ite(b.args[0], T.Ult(a, b.args[1]), T.Ult(a, b.args[2]))
	}
	return nil
}

func (T *Terms) sbounds(a *Term) (int64, int64) {
	h := mask(a.w) >> 1
	if a.isK() {
		v := sext(a.k, a.w)
		return v, v
	}
	if a.hi <= h {
		return int64(a.lo), int64(a.hi)
	}
	if a.op == OSext {
		return T.sbounds(a.args[0])
	}
	if a.lo > h {
		return sext(a.lo, a.w), sext(a.hi, a.w)
	}
	// Lin with negative constant and small positives
	if a.op == OLin {
		k := sext(a.k, a.w)
		var lo, hi int64 = k, k
		if k > 1<<61 || k < -(1<<61) {
			return sext(h+1, a.w), int64(h)
		}
		for i, t := range a.args {
			c := sext(a.coef[i], a.w)
			tl, th := T.sbounds(t)
			if c > 1<<31 || c < -(1<<31) || tl < -(1<<30) || th > 1<<30 {
				return sext(h+1, a.w), int64(h)
			}
			x, y := c*tl, c*th
			if x > y {
				x, y = y, x
			}
			lo += x
			hi += y
			if lo < -(1<<62) || hi > 1<<62 || hi < -(1<<62) || lo > 1<<62 {
				return sext(h+1, a.w), int64(h)
			}
		}
		if hi <= int64(h) && lo >= sext(h+1, a.w) {
			return lo, hi
		}
	}
	if a.op == OIte {
		l1, h1 := T.sbounds(a.args[1])
		l2, h2 := T.sbounds(a.args[2])
		return min(l1, l2), max(h1, h2)
	}
	return sext(h+1, a.w), int64(h)
}

func (T *Terms) Slt(a, b *Term) *Term {
	if a == b {
		return T.False
	}
	if a.isK() && b.isK() {
		return T.Bool(sext(a.k, a.w) < sext(b.k, b.w))
	}
	al, ah := T.sbounds(a)
	bl, bh := T.sbounds(b)
	if ah < bl {
		return T.True
	}
	if al >= bh {
		return T.False
	}
	h := mask(a.w) >> 1
	if a.hi <= h && b.hi <= h {
		return T.Ult(a, b)
	}
	if a.op == OSext && b.op == OSext && a.args[0].w == b.args[0].w {
		return T.Slt(a.args[0], b.args[0])
	}
	if a.op == OIte && b.isK() && (a.args[1].isK() || a.args[2].isK()) {
		return T.Ite(a.args[0], T.Slt(a.args[1], b), T.Slt(a.args[2], b))
	}
	return T.intern(&Term{op: OSlt, args: []*Term{a, b}})
}
func (T *Terms) Sle(a, b *Term) *Term {
	if a == b {
		return T.True
	}
	if a.isK() && b.isK() {
		return T.Bool(sext(a.k, a.w) <= sext(b.k, b.w))
	}
	al, ah := T.sbounds(a)
	bl, bh := T.sbounds(b)
	if ah <= bl {
		return T.True
	}
	if al > bh {
		return T.False
	}
	h := mask(a.w) >> 1
	if a.hi <= h && b.hi <= h {
		return T.Ule(a, b)
	}
	if b.isK() { // a <= k -> a < k+1 (k < max since al..)
		return T.Slt(a, T.Const(a.w, b.k+1))
	}
	if a.isK() {
		return T.Slt(T.Const(a.w, a.k-1), b)
	}
	return T.intern(&Term{op: OSle, args: []*Term{a, b}})
}

// ---------- floats

func (T *Terms) FConst(f float64) *Term { return T.Const(wF64, math.Float64bits(f)) }
func (t *Term) f() float64              { return math.Float64frombits(t.k) }

func (T *Terms) fop(op Op, w uint8, k uint64, args ...*Term) *Term {
	all := true
	for _, a := range args {
		if !a.isK() {
			all = false
		}
	}
	t := &Term{op: op, w: w, k: k, args: args}
	if all {
		v := evalOp(t, func(x *Term) uint64 { return x.k })
		return T.Const(w, v)
	}
	if x := T.tab[tkey{op: op, w: w, k: k, a: args[0].id + 1, b: argID(args, 1)}]; x != nil && len(args) <= 2 {
		return x
	}
	switch op {
	case OFAdd, OFSub, OFMul, OFDiv, OFLt, OFLe, OFEq:
		if r := T.exactOp(op, args[0], args[1]); r != nil {
			return r
		}
	}
	switch op {
	case OFLt, OFLe, OFEq:
		if r := T.monoCmp(op, args[0], args[1]); r != nil {
			return r
		}
	case OFToS, OFToU:
		if x, n, lo, _, ok := T.exact(args[0]); ok && w == 64 && (op == OFToS || lo >= 0) {
			return T.SDiv(x, T.Const(64, 1<<n))
		}
		if r := T.monoMemo(op, args[0]); r != nil {
			return r
		}
	}
	return T.intern(t)
}

// exactInt gives the integer a float term stands for when it is known to be one
// of at most 2^53 in magnitude, and not negative zero.
func (T *Terms) exactInt(t *Term) (x *Term, lo, hi int64, ok bool) {
	const m = 1 << 53
	switch {
	case t.isK():
		f := t.f()
		if f != math.Trunc(f) || math.Abs(f) > m || f == 0 && math.Signbit(f) {
			return
		}
		return T.Const(64, uint64(int64(f))), int64(f), int64(f), true
	case t.op == OFFromS:
		x = t.args[0]
		lo, hi = T.sbounds(x)
		if x.w < 64 {
			x = T.Sext(x, 64)
		}
	case t.op == OFFromU:
		x = t.args[0]
		if x.hi > m {
			return
		}
		lo, hi = int64(x.lo), int64(x.hi)
		if x.w < 64 {
			x = T.Zext(x, 64)
		}
	default:
		return
	}
	return x, lo, hi, lo >= -m && hi <= m
}

// exact gives the fraction x/2^k a float term stands for when it is known to be
// one with x of at most 2^53 in magnitude, and not negative zero.
func (T *Terms) exact(t *Term) (x *Term, k uint8, lo, hi int64, ok bool) {
	const m = 1 << 53
	if x, lo, hi, ok = T.exactInt(t); ok {
		return
	}
	if t.isK() {
		f := t.f()
		for k = 1; k <= 24; k++ {
			f *= 2
			if f == math.Trunc(f) && math.Abs(f) <= m && f != 0 {
				return T.Const(64, uint64(int64(f))), k, int64(f), int64(f), true
			}
		}
		return
	}
	if t.op == OFMul && t.args[1].isK() {
		if x, lo, hi, ok = T.exactInt(t.args[0]); ok {
			for k = 1; k <= 48; k++ {
				if t.args[1].f() == math.Ldexp(1, -int(k)) {
					return
				}
			}
			ok = false
		}
	}
	return
}

// scaled is the term for x/2^k.
func (T *Terms) scaled(x *Term, k uint8) *Term {
	f := T.fop(OFFromS, wF64, 0, x)
	if k == 0 {
		return f
	}
	c := T.FConst(math.Ldexp(1, -int(k)))
	if f.isK() {
		return T.fop(OFMul, wF64, 0, f, c)
	}
	return T.intern(&Term{op: OFMul, w: wF64, args: []*Term{f, c}})
}

// exactOp computes on integers what is exact there.
func (T *Terms) exactOp(op Op, a, b *Term) *Term {
	const m = 1 << 53
	if op == OFSub && a == b && a.op != OVar { // 0, unless infinite or not a number
		if T.finite(a, 0) {
			return T.FConst(0)
		}
	}
	x, xk, xl, xh, ok := T.exact(a)
	if !ok {
		return nil
	}
	y, yk, yl, yh, ok := T.exact(b)
	if !ok {
		return nil
	}
	if op == OFMul {
		if k := xk + yk; k <= 48 && xl >= 0 && yl >= 0 {
			if h, l := bits.Mul64(uint64(xh), uint64(yh)); h == 0 && l <= m {
				z := T.Mul(x, y)
				for k > 0 { // lowest terms where that is plain to see
					q, ok := T.halved(z)
					if !ok {
						break
					}
					z, k = q, k-1
				}
				if k > 0 && xk == 0 && yk > 0 && z == x {
					return nil // that is the term itself
				}
				return T.scaled(z, k)
			}
		}
		return nil
	}
	if op == OFDiv {
		if xk == 0 && yk == 0 && y.isK() && yl > 0 && xl >= 0 {
			if r := T.URem(x, y); r.isK() && r.k == 0 {
				return T.fop(OFFromS, wF64, 0, T.UDiv(x, y))
			}
		}
		return nil
	}
	k := max(xk, yk)
	up := func(x *Term, l, h int64, d uint8) (*Term, int64, int64, bool) {
		const top = 1 << 60
		if d > 48 || l < -(top>>d) || h > top>>d {
			return nil, 0, 0, false
		}
		return T.MulK(x, 1<<d), l << d, h << d, true
	}
	if x, xl, xh, ok = up(x, xl, xh, k-xk); !ok {
		return nil
	}
	if y, yl, yh, ok = up(y, yl, yh, k-yk); !ok {
		return nil
	}
	switch op {
	case OFAdd:
		if xl+yl >= -m && xh+yh <= m {
			return T.scaled(T.Add(x, y), k)
		}
	case OFSub:
		if xl-yh >= -m && xh-yl <= m {
			return T.scaled(T.Sub(x, y), k)
		}
	case OFLt:
		return T.Slt(x, y)
	case OFLe:
		return T.Sle(x, y)
	case OFEq:
		return T.Eq(x, y)
	}
	return nil
}

// halved is t/2 if t is a sum of even parts.
func (T *Terms) halved(t *Term) (*Term, bool) {
	if t.isK() {
		if t.k%2 != 0 {
			return nil, false
		}
		return T.Const(t.w, uint64(sext(t.k, t.w)>>1)), true
	}
	if t.op != OLin || t.k%2 != 0 {
		return nil, false
	}
	var l linAcc
	l.k = uint64(sext(t.k, t.w) >> 1)
	for i, a := range t.args {
		if t.coef[i]%2 != 0 {
			return nil, false
		}
		l.add(a, uint64(sext(t.coef[i], t.w)>>1))
	}
	if _, _, ok := linRange(t.w, t.k, t.args, t.coef); !ok {
		return nil, false
	}
	return T.lin(t.w, &l), true
}

// finite tells that t is a sum or product of few bounded terms.
func (T *Terms) finite(t *Term, depth int) bool {
	switch t.op {
	case OConst:
		return math.Abs(t.f()) < 1e30
	case OFFromS, OFFromU:
		return true
	case OFAdd, OFSub, OFMul:
		return depth < 3 && T.finite(t.args[0], depth+1) && T.finite(t.args[1], depth+1)
	}
	return false
}

func argID(a []*Term, i int) uint32 {
	if i < len(a) {
		return a[i].id + 1
	}
	return 0
}

func (T *Terms) monoMemo(op Op, a *Term) *Term {
	if T.mono == nil {
		T.mono = map[*Term]*Term{}
	}
	r, ok := T.mono[a]
	if !ok {
		r = T.monoInt(a)
		T.mono[a] = r
	}
	return r
}

// ---------- evaluation

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func f2s(f float64) uint64 {
	if f != f || f >= 9223372036854775808.0 || f < -9223372036854775808.0 {
		return 1 << 63
	}
	return uint64(int64(f))
}

func evalOp(t *Term, ev func(*Term) uint64) uint64 {
	m := mask(t.w)
	switch t.op {
	case OConst:
		return t.k
	case OLin:
		s := t.k
		for i, a := range t.args {
			s += t.coef[i] * ev(a)
		}
		return s & m
	case OIte:
		if ev(t.args[0]) != 0 {
			return ev(t.args[1])
		}
		return ev(t.args[2])
	case OBAnd:
		return b2u(ev(t.args[0]) != 0 && ev(t.args[1]) != 0)
	case OBOr:
		return b2u(ev(t.args[0]) != 0 || ev(t.args[1]) != 0)
	}
	a := ev(t.args[0])
	var aw uint8 = t.args[0].w
	fa := math.Float64frombits(a)
	switch t.op {
	case ONot:
		return 1 - a
	case OExtract:
		return a >> t.k & m
	case OZext:
		return a
	case OSext:
		return uint64(sext(a, aw)) & m
	case OTable:
		if a < uint64(len(t.tbl)) {
			return t.tbl[a]
		}
		return t.tbl[len(t.tbl)-1]
	case OFNeg:
		return math.Float64bits(-fa)
	case OFAbs:
		return math.Float64bits(math.Abs(fa))
	case OFIsNaN:
		return b2u(fa != fa)
	case OF32:
		return math.Float64bits(float64(float32(fa)))
	case OFFromS:
		return math.Float64bits(float64(sext(a, aw)))
	case OFFromU:
		return math.Float64bits(float64(a))
	case OFToS:
		return f2s(fa) & m
	case OFToU:
		return uint64(fa) & m
	case OFFromBits, OFToBits:
		return a
	case OFRnd:
		switch t.k {
		case 0:
			return math.Float64bits(math.Round(fa))
		case 1:
			return math.Float64bits(math.Trunc(fa))
		case 2:
			return math.Float64bits(math.Floor(fa))
		case 3:
			return math.Float64bits(math.Ceil(fa))
		default:
			return math.Float64bits(math.RoundToEven(fa))
		}
	}
	b := ev(t.args[1])
	fb := math.Float64frombits(b)
	switch t.op {
	case OMul:
		return a * b & m
	case OUDiv:
		if b == 0 {
			return m
		}
		return a / b
	case OURem:
		if b == 0 {
			return a
		}
		return a % b
	case OSDiv:
		x, y := sext(a, aw), sext(b, aw)
		if y == 0 {
			if x < 0 {
				return 1
			}
			return m
		}
		if y == -1 {
			return -a & m
		}
		return uint64(x/y) & m
	case OSRem:
		x, y := sext(a, aw), sext(b, aw)
		if y == 0 {
			return a
		}
		if y == -1 {
			return 0
		}
		return uint64(x%y) & m
	case OAnd:
		return a & b
	case OOr:
		return a | b
	case OXor:
		return a ^ b
	case OShl:
		if b >= uint64(t.w) {
			return 0
		}
		return a << b & m
	case OLshr:
		if b >= uint64(t.w) {
			return 0
		}
		return a >> b
	case OAshr:
		return uint64(sext(a, aw)>>min(b, 63)) & m
	case OEq:
		return b2u(a == b)
	case OUlt:
		return b2u(a < b)
	case OUle:
		return b2u(a <= b)
	case OSlt:
		return b2u(sext(a, aw) < sext(b, aw))
	case OSle:
		return b2u(sext(a, aw) <= sext(b, aw))
	case OFAdd:
		return math.Float64bits(fa + fb)
	case OFSub:
		return math.Float64bits(fa - fb)
	case OFMul:
		return math.Float64bits(fa * fb)
	case OFDiv:
		return math.Float64bits(fa / fb)
	case OFLt:
		return b2u(fa < fb)
	case OFLe:
		return b2u(fa <= fb)
	case OFEq:
		return b2u(fa == fb)
	}
	panic(fmt.Sprint("evalOp ", t.op))
}

// Eval under a model (indexed by variable).
func (T *Terms) Eval(t *Term, model []uint64) uint64 {
	T.ep++
	if T.ep == 0 {
		T.ep = 1
	}
	var ev func(*Term) uint64
	ev = func(t *Term) uint64 {
		switch t.op {
		case OConst:
			return t.k
		case OVar:
			if int(t.k) < len(model) {
				return model[t.k]
			}
			return 0
		}
		if t.evEp == T.ep {
			return t.evVal
		}
		v := evalOp(t, ev)
		t.evEp, t.evVal = T.ep, v
		return v
	}
	return ev(t)
}

// byteVar: index of the single <=8-bit variable t depends on, or -1.
func (T *Terms) byteVar(t *Term) int {
	if len(t.vars) == 1 && T.vars[t.vars[0]].w <= 8 {
		return int(t.vars[0])
	}
	return -1
}

func (T *Terms) vecOf(t *Term) *[256]uint64 {
	if t.vec != nil {
		return t.vec
	}
	v := new([256]uint64)
	switch t.op {
	case OConst:
		for i := range v {
			v[i] = t.k
		}
		return v
	case OVar:
		for i := range v {
			v[i] = uint64(i)
		}
		t.vec = v
		return v
	}
	var av [3]*[256]uint64
	if len(t.args) <= 3 {
		for i, a := range t.args {
			av[i] = T.vecOf(a)
		}
		for i := range v {
			v[i] = evalOp(t, func(x *Term) uint64 {
				for j, a := range t.args {
					if a == x {
						return av[j][i]
					}
				}
				panic("vec")
			})
		}
	} else {
		vs := make([]*[256]uint64, len(t.args))
		for i, a := range t.args {
			vs[i] = T.vecOf(a)
		}
		for i := range v {
			v[i] = evalOp(t, func(x *Term) uint64 {
				for j, a := range t.args {
					if a == x {
						return vs[j][i]
					}
				}
				panic("vec")
			})
		}
	}
	t.vec = v
	return v
}

// setOf: for a Bool term over one <=8-bit var, the set of satisfying values.
func (T *Terms) setOf(t *Term) *ByteSet {
	if t.set != nil {
		return t.set
	}
	var s ByteSet
	switch t.op {
	case ONot:
		x := T.setOf(t.args[0])
		for i := range s {
			s[i] = ^x[i]
		}
	case OBAnd:
		s = T.setOf(t.args[0]).and(*T.setOf(t.args[1]))
	case OBOr:
		x, y := T.setOf(t.args[0]), T.setOf(t.args[1])
		for i := range s {
			s[i] = x[i] | y[i]
		}
	default:
		v := T.vecOf(t)
		for i := range v {
			if v[i] != 0 {
				s.add(uint64(i))
			}
		}
	}
	t.set = &s
	return t.set
}

// ---------- SMT-LIB printing

func sortName(w uint8) string {
	switch {
	case w == 0:
		return "Bool"
	case w == wF64:
		return "(_ FloatingPoint 11 53)"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func smtConst(w uint8, k uint64) string {
	switch {
	case w == 0:
		if k != 0 {
			return "true"
		}
		return "false"
	case w == wF64:
		return fmt.Sprintf("((_ to_fp 11 53) #x%016x)", k)
	case w%4 == 0:
		return fmt.Sprintf("#x%0*x", w/4, k)
	}
	return fmt.Sprintf("#b%0*b", w, k)
}

func (t *Term) ref() string {
	switch t.op {
	case OConst:
		return smtConst(t.w, t.k)
	case OVar:
		return fmt.Sprintf("v%d", t.k)
	}
	return fmt.Sprintf("t%d", t.id)
}

var rndNames = []string{"RNA", "RTZ", "RTN", "RTP", "RNE"}

func (t *Term) body() string {
	a := make([]string, len(t.args))
	for i, x := range t.args {
		a[i] = x.ref()
	}
	switch t.op {
	case OLin:
		var parts []string
		if t.k != 0 {
			parts = append(parts, smtConst(t.w, t.k))
		}
		for i := range t.args {
			if t.coef[i] == 1 {
				parts = append(parts, a[i])
			} else if t.coef[i] == mask(t.w) {
				parts = append(parts, "(bvneg "+a[i]+")")
			} else {
				parts = append(parts, "(bvmul "+smtConst(t.w, t.coef[i])+" "+a[i]+")")
			}
		}
		if len(parts) == 1 {
			return parts[0]
		}
		return "(bvadd " + strings.Join(parts, " ") + ")"
	case OExtract:
		return fmt.Sprintf("((_ extract %d %d) %s)", t.k+uint64(t.w)-1, t.k, a[0])
	case OZext:
		return fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.args[0].w, a[0])
	case OSext:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.args[0].w, a[0])
	case OIte:
		return "(ite " + a[0] + " " + a[1] + " " + a[2] + ")"
	case ONot:
		return "(not " + a[0] + ")"
	case OTable:
		// runs of equal values
		x := t.args[0]
		var sb strings.Builder
		n := 0
		for i := 0; i < len(t.tbl); {
			j := i
			for j < len(t.tbl) && t.tbl[j] == t.tbl[i] {
				j++
			}
			if j == len(t.tbl) {
				sb.WriteString(smtConst(t.w, t.tbl[i]))
				break
			}
			fmt.Fprintf(&sb, "(ite (bvult %s %s) %s ", a[0], smtConst(x.w, uint64(j)), smtConst(t.w, t.tbl[i]))
			n++
			i = j
		}
		sb.WriteString(strings.Repeat(")", n))
		return sb.String()
	case OFAdd:
		return "(fp.add RNE " + a[0] + " " + a[1] + ")"
	case OFSub:
		return "(fp.sub RNE " + a[0] + " " + a[1] + ")"
	case OFMul:
		return "(fp.mul RNE " + a[0] + " " + a[1] + ")"
	case OFDiv:
		return "(fp.div RNE " + a[0] + " " + a[1] + ")"
	case OFNeg:
		return "(fp.neg " + a[0] + ")"
	case OFAbs:
		return "(fp.abs " + a[0] + ")"
	case OFLt:
		return "(fp.lt " + a[0] + " " + a[1] + ")"
	case OFLe:
		return "(fp.leq " + a[0] + " " + a[1] + ")"
	case OFEq:
		return "(fp.eq " + a[0] + " " + a[1] + ")"
	case OFIsNaN:
		return "(fp.isNaN " + a[0] + ")"
	case OFRnd:
		return "(fp.roundToIntegral " + rndNames[t.k] + " " + a[0] + ")"
	case OFFromS:
		return "((_ to_fp 11 53) RNE " + a[0] + ")"
	case OFFromU:
		return "((_ to_fp_unsigned 11 53) RNE " + a[0] + ")"
	case OF32:
		return "((_ to_fp 11 53) RNE ((_ to_fp 8 24) RNE " + a[0] + "))"
	case OFToS:
		return fmt.Sprintf("(ite (and (fp.lt %s ((_ to_fp 11 53) #x43e0000000000000)) (fp.geq %s ((_ to_fp 11 53) #xc3e0000000000000))) ((_ fp.to_sbv 64) RTZ %s) #x8000000000000000)", a[0], a[0], a[0])
	case OFToU:
		return fmt.Sprintf("((_ fp.to_ubv 64) RTZ %s)", a[0])
	case OFFromBits:
		return "((_ to_fp 11 53) " + a[0] + ")"
	case OFToBits:
		return "(fp.to_ieee_bv " + a[0] + ")"
	}
	return "(" + opNames[t.op] + " " + strings.Join(a, " ") + ")"
}

func (t *Term) String() string {
	switch t.op {
	case OConst:
		if t.w == wF64 {
			return fmt.Sprint(t.f())
		}
		return fmt.Sprint(t.k)
	case OVar:
		return t.name
	}
	s := t.body()
	for _, a := range t.args {
		if a.op != OConst {
			s = strings.ReplaceAll(s, a.ref(), a.String())
		}
	}
	if len(s) > 400 {
		s = s[:400] + "…"
	}
	return s
}

func sortedIDs(ts []*Term) {
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
}
