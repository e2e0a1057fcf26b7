package main

import (
	"fmt"
	"math"
	"os"
	"strconv"
)

const vsymPkg = "vharness/vsym."

type assumeFail struct{}

func (m *M) addInput(name, kind string, t *Term, bs []Value, k uint64) {
	m.inputs = append(m.inputs, Input{Name: name, Kind: kind, t: t, bs: bs, k: k})
}

func (m *M) cname(v Value) string {
	s, ok := concStr(v)
	if !ok {
		panic(unsup("symbolic name in vsym call"))
	}
	return s
}

func addVsym(t map[string]Intrinsic) {
	R := func(n string, f func(m *M, a []Value) (Value, bool)) { t[vsymPkg+n] = f }
	scalar := func(n string, w uint8) {
		R(n, func(m *M, a []Value) (Value, bool) {
			nm := m.cname(a[0])
			x := m.newVar(w, nm)
			m.addInput(nm, n, x, nil, 0)
			return Value{r: x}, true
		})
	}
	scalar("Byte", 8)
	scalar("Int64", 64)
	scalar("Uint64", 64)
	scalar("Uint32", 32)
	scalar("Uint16", 16)
	scalar("Int32", 32)
	R("Upto", func(m *M, a []Value) (Value, bool) {
		nm := m.cname(a[0])
		x := m.newVarTo(64, m.cint(a[1]), nm)
		m.addInput(nm, "Upto", x, nil, 0)
		return Value{r: x}, true
	})
	R("Bool", func(m *M, a []Value) (Value, bool) {
		nm := m.cname(a[0])
		x := m.newVar(1, nm)
		m.addInput(nm, "Bool", x, nil, 0)
		return tv(m.T.Eq(x, m.T.Const(1, 1))), true
	})
	R("Float64", func(m *M, a []Value) (Value, bool) {
		nm := m.cname(a[0])
		x := m.newVar(64, nm)
		m.addInput(nm, "Float64", x, nil, 0)
		return tv(m.T.fop(OFFromBits, wF64, 0, x)), true
	})
	str := func(m *M, a []Value, kind string) []Value {
		nm := m.cname(a[0])
		n := int(int64(m.cint(a[1])))
		b := make([]Value, n)
		for i := range b {
			b[i] = Value{r: m.newVar(8, fmt.Sprintf("%s[%d]", nm, i))}
		}
		m.addInput(nm, kind, nil, b, 0)
		return b
	}
	R("String", func(m *M, a []Value) (Value, bool) {
		return mkStr(str(m, a, "String")), true
	})
	R("Bytes", func(m *M, a []Value) (Value, bool) {
		return m.bytesSlice(str(m, a, "Bytes")), true
	})
	R("Choose", func(m *M, a []Value) (Value, bool) {
		nm := m.cname(a[0])
		n := m.cint(a[1])
		if n == 0 {
			panic(pathEnd{"empty choice"})
		}
		if n > 1 {
			x := m.newVar(16, nm)
			if !m.decide(m.T.Ult(x, m.T.Const(16, n))) {
				panic(pathEnd{"range"})
			}
			m.addInput(nm, "Choose", x, nil, 0)
			return Value{n: m.concretize(x)}, true
		}
		m.addInput(nm, "Choose", nil, nil, 0)
		return Value{}, true
	})
	// Pin turns a symbolic integer into one concrete value per path.
	R("Pin", func(m *M, a []Value) (Value, bool) { return Value{n: m.cint(a[0])}, true })
	R("Assume", func(m *M, a []Value) (Value, bool) {
		if !m.assume(a[0]) {
			panic(pathEnd{"assume"})
		}
		return Value{}, true
	})
	R("Assert", func(m *M, a []Value) (Value, bool) {
		m.assert(a[0], m.cname(a[1]))
		return Value{}, true
	})
	R("Reach", func(m *M, a []Value) (Value, bool) {
		m.reach(m.cname(a[0]))
		return Value{}, true
	})
	R("Observe", func(m *M, a []Value) (Value, bool) {
		m.obs = append(m.obs, Obs{Label: m.cname(a[0]), V: a[1]})
		return Value{}, true
	})
	R("ObserveInt", func(m *M, a []Value) (Value, bool) {
		m.obs = append(m.obs, Obs{Label: m.cname(a[0]), V: a[1], ti: m.p.int64TI})
		return Value{}, true
	})
	R("Thorough", func(m *M, a []Value) (Value, bool) { return bv(m.job.Thorough), true })
	R("Symbolic", func(m *M, a []Value) (Value, bool) { return bv(true), true })
	// And/Or/Not/Ite without control flow
	R("And", func(m *M, a []Value) (Value, bool) {
		return tv(m.T.And(m.toTerm(m.p.boolTI, a[0]), m.toTerm(m.p.boolTI, a[1]))), true
	})
	R("Or", func(m *M, a []Value) (Value, bool) {
		return tv(m.T.Or(m.toTerm(m.p.boolTI, a[0]), m.toTerm(m.p.boolTI, a[1]))), true
	})
	R("IteInt64", func(m *M, a []Value) (Value, bool) {
		return tv(m.T.Ite(m.toTerm(m.p.boolTI, a[0]), m.toTerm(m.p.int64TI, a[1]), m.toTerm(m.p.int64TI, a[2]))), true
	})
	R("IteByte", func(m *M, a []Value) (Value, bool) {
		return tv(m.T.Ite(m.toTerm(m.p.boolTI, a[0]), m.toTerm(m.p.byteTI, a[1]), m.toTerm(m.p.byteTI, a[2]))), true
	})
	R("EqString", func(m *M, a []Value) (Value, bool) { return tv(m.strEq(a[0], a[1])), true })
	R("EqBytes", func(m *M, a []Value) (Value, bool) {
		return tv(m.strEq(mkStr(m.sliceVals(a[0], 1)), mkStr(m.sliceVals(a[1], 1)))), true
	})
	// DeepEqual without control flow
	R("DeepEqual", func(m *M, a []Value) (Value, bool) {
		return tv(m.deepEq(m.p.anyTI, a[0], a[1], map[[2]any]bool{})), true
	})
	// monitor control
	R("MonitorStart", func(m *M, a []Value) (Value, bool) { m.monStart(); return Value{}, true })
	R("MonitorStop", func(m *M, a []Value) (Value, bool) { m.monStop(); return Value{}, true })
	R("MonitorOp", func(m *M, a []Value) (Value, bool) { m.monOp(); return Value{}, true })
	// SameObject tells whether two pointers are identical (no forking)
	R("Log", func(m *M, a []Value) (Value, bool) {
		s, _ := concStr(a[0])
		m.logs = append(m.logs, s)
		return Value{}, true
	})
}

func (m *M) assume(v Value) bool {
	t, ok := v.r.(*Term)
	if !ok {
		return v.n != 0
	}
	// a forced decision: only the true side is kept
	if m.tpos < len(m.trace) {
		d := m.trace[m.tpos]
		m.tpos++
		if d.add {
			m.addPC(t)
		}
		return d.v
	}
	r, mod := m.sat(t)
	if r != 1 {
		if r < 0 {
			m.res.undecided("assume")
		}
		m.trace = append(m.trace, Dec{v: false})
		m.tpos++
		return false
	}
	m.model = mod
	m.trace = append(m.trace, Dec{v: true, add: true})
	m.tpos++
	m.addPC(t)
	return true
}

// assert checks the condition for every input of the current path.
func (m *M) assert(v Value, label string) {
	m.res.Asserts++
	t, ok := v.r.(*Term)
	if !ok {
		m.countLabel(label)
		if v.n == 0 {
			m.violation(label, m.model)
			panic(pathEnd{"violation"})
		}
		return
	}
	m.countLabel(label)
	if m.tpos < len(m.trace) {
		d := m.trace[m.tpos]
		m.tpos++
		if d.add {
			m.addPC(t)
		}
		if !d.v {
			panic(pathEnd{"violation"})
		}
		return
	}
	if m.known[t] { // already assumed on this path
	}
	r, mod := m.sat(m.T.Not(t))
	if r < 0 {
		if os.Getenv("GOSYM_DBG") != "" {
			println(t.String())
		}
		m.res.undecided("assert " + label)
	}
	add := false
	if r == 1 {
		m.violation(label, mod)
		r2, mod2 := m.sat(t)
		if r2 != 1 {
			m.trace = append(m.trace, Dec{v: false})
			m.tpos++
			panic(pathEnd{"violation"})
		}
		m.model = mod2
		add = true
	}
	m.trace = append(m.trace, Dec{v: true, add: add})
	m.tpos++
	if add {
		m.addPC(t)
	}
}

func (m *M) countLabel(l string) { m.res.Labels[l]++ }

func (m *M) reach(l string) {
	if m.res.Reach[l] == 0 {
		m.res.Reach[l] = 1
		return
	}
	m.res.Reach[l]++
}

// report records a violation found by a monitor on the current path.
func (m *M) report(label string) { m.violation(label, m.model) }

type InVal struct {
	Name string `json:"name"`
	Kind string `json:"kind"`
	Val  string `json:"val"`
}

func (m *M) inputVals(mod []uint64) []InVal {
	out := []InVal{}
	for _, in := range m.inputs {
		iv := InVal{Name: in.Name, Kind: in.Kind}
		switch {
		case in.bs != nil || in.Kind == "String" || in.Kind == "Bytes":
			b := make([]byte, len(in.bs))
			for i := range b {
				b[i] = byte(m.valueUnder(in.bs[i], mod))
			}
			iv.Val = strconv.QuoteToASCII(string(b))
		case in.t != nil:
			iv.Val = strconv.FormatUint(m.T.Eval(in.t, mod), 10)
		default:
			iv.Val = strconv.FormatUint(in.k, 10)
		}
		out = append(out, iv)
	}
	return out
}

func (m *M) valueUnder(v Value, mod []uint64) uint64 {
	if t, ok := v.r.(*Term); ok {
		return m.T.Eval(t, mod)
	}
	return v.n
}

// obsVals renders observations under a model; ok=false if one is opaque.
func (m *M) obsVals(mod []uint64) ([][2]string, bool) {
	out := [][2]string{}
	ok := true
	for _, o := range m.obs {
		var s string
		if o.ti != nil {
			s = strconv.FormatInt(int64(m.valueUnder(o.V, mod)), 10)
		} else {
			b := strBytes(o.V)
			x := make([]byte, len(b))
			for i := range b {
				x[i] = byte(m.valueUnder(b[i], mod))
			}
			s = string(x)
			for k := range m.ftok {
				if len(k) > 0 && containsStr(s, k) {
					ok = false
				}
			}
		}
		out = append(out, [2]string{o.Label, s})
	}
	return out, ok
}

func containsStr(s, k string) bool {
	for i := 0; i+len(k) <= len(s); i++ {
		if s[i:i+len(k)] == k {
			return true
		}
	}
	return false
}

var _ = math.Inf
