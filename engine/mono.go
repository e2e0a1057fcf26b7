package main

import "math"

var hole = &Term{op: OVar, w: wF64}

// Monotone float chains: a float made from one integer by conversion,
// multiplication or division by a positive constant, addition or subtraction
// of a constant and rounding is a monotone (non-decreasing) function of that
// integer, each step being a correctly rounded monotone operation. Converting
// it back to an integer, or comparing it with a constant, is then decided by
// the exact thresholds, which are found by bisection on the real operations.

type mono struct {
	x      *Term
	signed bool
	steps  []*Term // outermost last
}

func (T *Terms) monoOf(t *Term) *mono {
	var st []*Term
	for {
		switch t.op {
		case OFFromS, OFFromU:
			x := t.args[0]
			for i, j := 0, len(st)-1; i < j; i, j = i+1, j-1 {
				st[i], st[j] = st[j], st[i]
			}
			return &mono{x: x, signed: t.op == OFFromS && x.hi > mask(x.w)>>1, steps: st}
		case OFMul:
			a, b := t.args[0], t.args[1]
			if a.isK() {
				a, b = b, a
			}
			if !b.isK() || !(b.f() > 0) || math.IsInf(b.f(), 0) {
				return nil
			}
			st = append(st, &Term{op: OFMul, w: wF64, args: []*Term{hole, b}})
			t = a
		case OFDiv, OFSub:
			a, b := t.args[0], t.args[1]
			if !b.isK() || math.IsInf(b.f(), 0) || b.f() != b.f() || t.op == OFDiv && !(b.f() > 0) {
				return nil
			}
			st = append(st, &Term{op: t.op, w: wF64, args: []*Term{hole, b}})
			t = a
		case OFAdd:
			a, b := t.args[0], t.args[1]
			if a.isK() {
				a, b = b, a
			}
			if !b.isK() || math.IsInf(b.f(), 0) || b.f() != b.f() {
				return nil
			}
			st = append(st, &Term{op: OFAdd, w: wF64, args: []*Term{hole, b}})
			t = a
		case OFRnd, OF32:
			st = append(st, &Term{op: t.op, w: wF64, k: t.k, args: []*Term{hole}})
			t = t.args[0]
		default:
			return nil
		}
	}
}

func (m *mono) at(v uint64) float64 {
	var f float64
	if m.signed {
		f = float64(sext(v, m.x.w))
	} else {
		f = float64(v)
	}
	cur := math.Float64bits(f)
	for _, s := range m.steps {
		cur = evalOp(s, func(a *Term) uint64 {
			if a == hole {
				return cur
			}
			return a.k
		})
	}
	return math.Float64frombits(cur)
}

// span gives the ordered range of x as offsets from its least value.
func (T *Terms) monoSpan(m *mono) (base, n uint64) {
	if m.signed {
		lo, hi := T.sbounds(m.x)
		return uint64(lo), uint64(hi) - uint64(lo)
	}
	return m.x.lo, m.x.hi - m.x.lo
}

// least offset o in [0,n] with p true (p monotone), n+1 (ok=false) if none.
func leastOff(n uint64, p func(o uint64) bool) (uint64, bool) {
	if !p(n) {
		return 0, false
	}
	lo, hi := uint64(0), n
	for lo < hi {
		mid := lo + (hi-lo)/2
		if p(mid) {
			hi = mid
		} else {
			lo = mid + 1
		}
	}
	return lo, true
}

func (T *Terms) atLeast(m *mono, v uint64) *Term {
	k := T.Const(m.x.w, v)
	if m.signed {
		return T.Sle(k, m.x)
	}
	return T.Ule(k, m.x)
}

// monoCmp rewrites a comparison of a chain with a constant.
func (T *Terms) monoCmp(op Op, a, b *Term) *Term {
	c, rev := b, false
	if a.isK() {
		a, c, rev = b, a, true
	}
	if !c.isK() || a.isK() || c.f() != c.f() {
		return nil
	}
	m := T.monoOf(a)
	if m == nil {
		return nil
	}
	base, n := T.monoSpan(m)
	if f := m.at(base); f != f {
		return nil
	}
	if f := m.at(base + n); f != f {
		return nil
	}
	k := c.f()
	w := mask(m.x.w)
	ge := func(strict bool) *Term { // a >= k or a > k
		o, ok := leastOff(n, func(o uint64) bool {
			f := m.at((base + o) & w)
			return f > k || !strict && f == k
		})
		if !ok {
			return T.False
		}
		return T.atLeast(m, (base+o)&w)
	}
	switch {
	case op == OFEq:
		return T.And(ge(false), T.Not(ge(true)))
	case op == OFLt && !rev: // a < k
		return T.Not(ge(false))
	case op == OFLe && !rev:
		return T.Not(ge(true))
	case op == OFLt: // k < a
		return ge(true)
	case op == OFLe:
		return ge(false)
	}
	return nil
}

// monoInt rewrites the integer value of a chain as an integer division.
func (T *Terms) monoInt(a *Term) *Term {
	m := T.monoOf(a)
	if m == nil || m.signed {
		return nil
	}
	base, n := T.monoSpan(m)
	f0, f1 := m.at(base), m.at(base+n)
	if !(f0 >= 0) || !(f1 < 1<<62) {
		return nil
	}
	k0, k1 := uint64(f0), uint64(f1)
	if k1-k0 > 5000 {
		return nil
	}
	x := T.Zext(m.x, 64)
	if k0 == k1 {
		return T.Const(64, k0)
	}
	thr := make([]uint64, k1-k0)
	for i := range thr {
		o, _ := leastOff(n, func(o uint64) bool { return uint64(m.at(base+o)) >= k0+uint64(i)+1 })
		thr[i] = base + o
	}
	if len(thr) == 1 {
		return T.Ite(T.Ule(T.Const(64, thr[0]), x), T.Const(64, k1), T.Const(64, k0))
	}
	s := thr[1] - thr[0]
	if s == 0 {
		return nil
	}
	for i := 1; i < len(thr); i++ {
		if thr[i]-thr[i-1] != s {
			return nil
		}
	}
	if thr[0] > s+base || base > 1<<62 {
		// below the first threshold the quotient form would be negative
		return T.Ite(T.Ult(x, T.Const(64, thr[0])), T.Const(64, k0),
			T.Add(T.UDiv(T.Sub(x, T.Const(64, thr[0])), T.Const(64, s)), T.Const(64, k0+1)))
	}
	return T.Add(T.UDiv(T.Add(x, T.Const(64, s-thr[0])), T.Const(64, s)), T.Const(64, k0))
}
