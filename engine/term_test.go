package main

import (
	"math"
	"math/rand"
	"testing"
)

// Random terms: the simplified term, its bounds and both solver encodings
// must agree with plain evaluation.
type rnode struct {
	f func(in []uint64) uint64
	t *Term
}

func TestTerms(t *testing.T) {
	for seed := int64(0); seed < 4000; seed++ {
		r := rand.New(rand.NewSource(seed))
		T := NewTerms()
		ws := []uint8{8, 16, 32, 64}
		var pool []rnode
		in := []*Term{}
		for i := 0; i < 3; i++ {
			w := ws[r.Intn(4)]
			if i == 0 {
				w = 8
			}
			v := T.Var(w, mask(w), "x")
			i := i
			in = append(in, v)
			pool = append(pool, rnode{func(in []uint64) uint64 { return in[i] }, v})
		}
		konst := func(w uint8) uint64 {
			switch r.Intn(6) {
			case 0:
				return mask(w) >> 1
			case 1:
				return mask(w)
			case 2:
				return (mask(w)>>1 + 1) & mask(w)
			case 3:
				return uint64(1+r.Intn(12)) & mask(w)
			case 4:
				return uint64([]int{10, 48, 1000, 1000000000, 60, 3600}[r.Intn(6)]) & mask(w)
			}
			return r.Uint64() & mask(w)
		}
		pick := func(w uint8) rnode {
			for k := 0; k < 20; k++ {
				n := pool[r.Intn(len(pool))]
				if n.t.w == w {
					return n
				}
			}
			k := konst(w)
			return rnode{func([]uint64) uint64 { return k }, T.Const(w, k)}
		}
		for step := 0; step < 14; step++ {
			w := ws[r.Intn(4)]
			a, b := pick(w), pick(w)
			if r.Intn(3) == 0 {
				k := konst(w)
				b = rnode{func([]uint64) uint64 { return k }, T.Const(w, k)}
			}
			if r.Intn(6) == 0 {
				a, b = b, a
			}
			m := mask(w)
			sx := func(v uint64) int64 { return sext(v, w) }
			var n rnode
			switch r.Intn(19) {
			case 0:
				n = rnode{func(i []uint64) uint64 { return (a.f(i) + b.f(i)) & m }, T.Add(a.t, b.t)}
			case 1:
				n = rnode{func(i []uint64) uint64 { return (a.f(i) - b.f(i)) & m }, T.Sub(a.t, b.t)}
			case 2:
				if !b.t.isK() {
					continue
				}
				n = rnode{func(i []uint64) uint64 { return (a.f(i) * b.f(i)) & m }, T.Mul(a.t, b.t)}
			case 3:
				if !b.t.isK() || b.t.k == 0 {
					continue
				}
				n = rnode{func(i []uint64) uint64 { return a.f(i) / b.f(i) }, T.UDiv(a.t, b.t)}
			case 4:
				if !b.t.isK() || b.t.k == 0 {
					continue
				}
				n = rnode{func(i []uint64) uint64 { return a.f(i) % b.f(i) }, T.URem(a.t, b.t)}
			case 5:
				if !b.t.isK() || sx(b.t.k) <= 0 {
					continue
				}
				n = rnode{func(i []uint64) uint64 { return uint64(sx(a.f(i))/sx(b.f(i))) & m }, T.SDiv(a.t, b.t)}
			case 6:
				if !b.t.isK() || sx(b.t.k) <= 0 {
					continue
				}
				n = rnode{func(i []uint64) uint64 { return uint64(sx(a.f(i))%sx(b.f(i))) & m }, T.SRem(a.t, b.t)}
			case 7:
				w2 := ws[r.Intn(4)]
				if w2 < w {
					n = rnode{func(i []uint64) uint64 { return a.f(i) & mask(w2) }, T.Extract(a.t, 0, w2)}
				} else {
					n = rnode{a.f, T.Zext(a.t, w2)}
				}
			case 8:
				w2 := ws[r.Intn(4)]
				if w2 <= w {
					continue
				}
				n = rnode{func(i []uint64) uint64 { return uint64(sx(a.f(i))) & mask(w2) }, T.Sext(a.t, w2)}
			case 9:
				n = rnode{func(i []uint64) uint64 { return a.f(i) & b.f(i) }, T.bitop(OAnd, a.t, b.t)}
			case 10:
				n = rnode{func(i []uint64) uint64 { return a.f(i) | b.f(i) }, T.bitop(OOr, a.t, b.t)}
			case 11:
				n = rnode{func(i []uint64) uint64 { return a.f(i) ^ b.f(i) }, T.bitop(OXor, a.t, b.t)}
			case 12:
				k := T.Const(w, uint64(r.Intn(int(w))))
				n = rnode{func(i []uint64) uint64 { return a.f(i) << k.k & m }, T.Shl(a.t, k)}
			case 13:
				k := T.Const(w, uint64(r.Intn(int(w))))
				n = rnode{func(i []uint64) uint64 { return a.f(i) >> k.k }, T.Lshr(a.t, k)}
			case 14:
				n = rnode{func(i []uint64) uint64 { return b2u(a.f(i) < b.f(i)) }, T.Ult(a.t, b.t)}
			case 15:
				n = rnode{func(i []uint64) uint64 { return b2u(sx(a.f(i)) < sx(b.f(i))) }, T.Slt(a.t, b.t)}
			case 16:
				n = rnode{func(i []uint64) uint64 { return b2u(sx(a.f(i)) <= sx(b.f(i))) }, T.Sle(a.t, b.t)}
			case 17:
				n = rnode{func(i []uint64) uint64 { return b2u(a.f(i) == b.f(i)) }, T.Eq(a.t, b.t)}
			case 18:
				c := pick(0)
				n = rnode{func(i []uint64) uint64 {
					if c.f(i) != 0 {
						return a.f(i)
					}
					return b.f(i)
				}, T.Ite(c.t, a.t, b.t)}
			}
			pool = append(pool, n)
		}
		for k := 0; k < 60; k++ {
			iv := make([]uint64, 3)
			for i := range iv {
				iv[i] = konst(in[i].w)
			}
			for _, n := range pool {
				want := n.f(iv)
				got := T.Eval(n.t, iv)
				if got != want {
					t.Fatalf("seed %d: %s in=%x got %x want %x", seed, n.t, iv, got, want)
				}
				if n.t.w > 0 && (got < n.t.lo || got > n.t.hi) {
					t.Fatalf("seed %d: bounds %s in=%x got %x not in [%x,%x]", seed, n.t, iv, got, n.t.lo, n.t.hi)
				}
				if n.t.w > 0 {
					l, h := T.sbounds(n.t)
					if s := sext(got, n.t.w); s < l || s > h {
						t.Fatalf("seed %d: sbounds %s", seed, n.t)
					}
				}
			}
		}
	}
}

// Both encodings give the value plain evaluation gives.
func TestSolvers(t *testing.T) {
	T := NewTerms()
	s := NewSolver(T, 500)
	defer s.Close()
	r := rand.New(rand.NewSource(1))
	x := T.Var(64, mask(64), "x")
	y := T.Var(8, 255, "y")
	terms := []*Term{}
	pool := []*Term{x, T.Zext(y, 64)}
	for len(terms) < 150 {
		a := pool[r.Intn(len(pool))]
		b := pool[r.Intn(len(pool))]
		var n *Term
		switch r.Intn(8) {
		case 0:
			n = T.Add(a, b)
		case 1:
			n = T.Sub(a, b)
		case 2:
			n = T.MulK(a, uint64(r.Intn(1000)))
		case 3:
			n = T.UDiv(a, T.Const(64, uint64(1+r.Intn(1000))))
		case 4:
			n = T.URem(a, T.Const(64, uint64(1+r.Intn(1000))))
		case 5:
			n = T.Ite(T.Slt(a, b), a, T.Const(64, r.Uint64()))
		case 6:
			n = T.Sext(T.Extract(a, 0, 32), 64)
		case 7:
			n = T.Zext(T.Extract(a, 8, 16), 64)
		}
		if n.isK() {
			continue
		}
		pool = append(pool, n)
		if len(pool) > 12 {
			pool = append(pool[:2], pool[len(pool)-6:]...)
		}
		terms = append(terms, n)
	}
	dom := append([]ByteSet(nil), T.dom0...)
	for _, n := range terms {
		xv, yv := r.Uint64(), uint64(r.Intn(256))
		if r.Intn(2) == 0 {
			xv = uint64(r.Intn(100000))
		}
		want := T.Eval(n, []uint64{xv, yv})
		cs := []*Term{T.Eq(x, T.Const(64, xv)), T.Eq(y, T.Const(8, yv)), T.Not(T.Eq(n, T.Const(64, want)))}
		if q := s.bvdecide(cs, []int32{0, 1}, dom); q.res == 1 {
			t.Fatalf("bv: %s x=%x y=%x want %x: %d", n, xv, yv, want, q.res)
		}
		if s.isol == nil {
			s.isol = newISolver(s)
		}
		if !s.isol.p.encodable(n) {
			continue
		}
		if q := s.idecide(cs, []int32{0, 1}, dom); q.res == 1 {
			t.Fatalf("int: %s x=%x y=%x want %x: %d", n, xv, yv, want, q.res)
		}
	}
}

func TestMono(t *testing.T) {
	T := NewTerms()
	x := T.Var(32, mask(32), "x")
	for _, c := range []float64{1e-6, 1e-3, 0.5, 3} {
		for mode := uint64(0); mode < 5; mode++ {
			f := T.fop(OFFromU, wF64, 0, T.Zext(T.URem(x, T.Const(32, 100000)), 64))
			f = T.fop(OFRnd, wF64, mode, T.fop(OFMul, wF64, 0, f, T.FConst(c)))
			g := T.fop(OFToU, 64, 0, f)
			lt := T.fop(OFLt, 0, 0, f, T.FConst(7))
			for v := uint64(0); v < 100000; v += 7 {
				w := T.Eval(f, []uint64{v})
				if T.Eval(g, []uint64{v}) != uint64(math.Float64frombits(w)) || T.Eval(lt, []uint64{v}) != b2u(math.Float64frombits(w) < 7) {
					t.Fatal(c, mode, v)
				}
			}
		}
	}
}

// Rules for fractions with a power of two below give what plain evaluation gives.
func TestExactFloats(t *testing.T) {
	for seed := int64(0); seed < 3000; seed++ {
		r := rand.New(rand.NewSource(seed))
		T := NewTerms()
		x := T.Var(16, 65535, "x")
		y := T.Var(64, 999, "y")
		type fnode struct {
			f func(x, y uint64) float64
			t *Term
		}
		base := int64(r.Intn(1<<40) - 1<<39)
		a := T.Add(T.MulK(T.Zext(x, 64), uint64(1+r.Intn(100))), T.Const(64, uint64(base)))
		ca := int64(1)
		if a.op == OLin {
			ca = int64(a.coef[0])
		}
		pool := []fnode{
			{func(x, y uint64) float64 { return float64(int64(x)*ca + base) }, T.fop(OFFromS, wF64, 0, a)},
			{func(x, y uint64) float64 { return float64(int64(y)) }, T.fop(OFFromS, wF64, 0, y)},
		}
		for _, c := range []float64{0, 1, -1, 0.5, 0.25, -0.125, 1000, 1e9, 0.1, 1.0 / 128} {
			pool = append(pool, fnode{func(x, y uint64) float64 { return c }, T.FConst(c)})
		}
		type inode struct {
			f func(x, y uint64) uint64
			t *Term
		}
		var ints []inode
		for k := 0; k < 12; k++ {
			p, q := pool[r.Intn(len(pool))], pool[r.Intn(len(pool))]
			switch r.Intn(8) {
			case 0:
				pool = append(pool, fnode{func(x, y uint64) float64 { return p.f(x, y) + q.f(x, y) }, T.fop(OFAdd, wF64, 0, p.t, q.t)})
			case 1, 2:
				pool = append(pool, fnode{func(x, y uint64) float64 { return p.f(x, y) - q.f(x, y) }, T.fop(OFSub, wF64, 0, p.t, q.t)})
			case 3:
				pool = append(pool, fnode{func(x, y uint64) float64 { return p.f(x, y) * q.f(x, y) }, T.fop(OFMul, wF64, 0, p.t, q.t)})
			case 4:
				pool = append(pool, fnode{func(x, y uint64) float64 { return p.f(x, y) / q.f(x, y) }, T.fop(OFDiv, wF64, 0, p.t, q.t)})
			case 5:
				ints = append(ints, inode{func(x, y uint64) uint64 { return b2u(p.f(x, y) < q.f(x, y)) }, T.fop(OFLt, 0, 0, p.t, q.t)})
			case 6:
				ints = append(ints, inode{func(x, y uint64) uint64 { return b2u(p.f(x, y) == q.f(x, y)) }, T.fop(OFEq, 0, 0, p.t, q.t)})
			case 7:
				ints = append(ints, inode{func(x, y uint64) uint64 { return f2s(p.f(x, y)) }, T.fop(OFToS, 64, 0, p.t)})
				n := ints[len(ints)-1]
				pool = append(pool, fnode{func(x, y uint64) float64 { return float64(int64(n.f(x, y))) }, T.fop(OFFromS, wF64, 0, n.t)})
			}
		}
		for k := 0; k < 20; k++ {
			xv, yv := uint64(r.Intn(65536)), uint64(r.Intn(1000))
			if k == 0 {
				xv, yv = 0, 0
			}
			for _, n := range pool {
				want := n.f(xv, yv)
				got := math.Float64frombits(T.Eval(n.t, []uint64{xv, yv}))
				if got != want && (got == got || want == want) || want == 0 && math.Signbit(got) != math.Signbit(want) {
					t.Fatalf("seed %d: %s x=%d y=%d got %v want %v", seed, n.t, xv, yv, got, want)
				}
			}
			for _, n := range ints {
				if want, got := n.f(xv, yv), T.Eval(n.t, []uint64{xv, yv}); want != got {
					t.Fatalf("seed %d: %s x=%d y=%d got %v want %v", seed, n.t, xv, yv, got, want)
				}
			}
		}
	}
}
