package main

import (
	"fmt"
	"strings"
)

// Monitor watches which operation touches which memory. Operations run one
// after the other; what they may touch in any interleaving is deduced: two
// accesses of different operations to the same place, one of them a plain write
// or mixed with an atomic one, are reported when no common lock protects both.
// Memory an operation gives away in a synchronised way (sync.Map, atomics,
// pools) counts as untouched until then. Reports are confirmed by running the
// operations at once under the race detector.
type Monitor struct {
	start uint32 // objects up to this id existed before
	op    int
	locks []lockHeld
	hist  map[slotKey][]access
	done  bool
}

type lockHeld struct {
	o    *Obj
	i    int
	excl bool
	n    int
}

type slotKey struct {
	o any
	i int32
}

type access struct {
	op            int
	write, atomic bool
	locks         []lockHeld
}

func (m *M) monStart() {
	m.mon = &Monitor{start: m.nobj, hist: map[slotKey][]access{}}
}

func (m *M) monStop() { m.mon = nil }

func (m *M) monOp() {
	mo := m.mon
	if mo == nil {
		return
	}
	old, ol := mo.op, mo.locks
	m.undoFn(func() { mo.op, mo.locks = old, ol })
	for _, l := range mo.locks {
		if l.i >= 0 {
			m.report("monitor: operation ends with a lock held")
			break
		}
	}
	mo.op++
	mo.locks = nil
}

func (mo *Monitor) tracks(o *Obj) bool     { return o.shared || o.id <= mo.start }
func (mo *Monitor) tracksM(o *MapObj) bool { return o.shared || o.id <= mo.start }

func common(a, b []lockHeld) bool {
	for _, x := range a {
		for _, y := range b {
			if x.o == y.o && x.i == y.i && (x.excl || y.excl) {
				return true
			}
		}
	}
	return false
}

func sameLocks(a, b []lockHeld) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].o != b[i].o || a[i].i != b[i].i || a[i].excl != b[i].excl {
			return false
		}
	}
	return true
}

func (mo *Monitor) access(m *M, o any, i int, write, atomic bool, name func() string) {
	if mo.op == 0 {
		return
	}
	k := slotKey{o, int32(i)}
	l := mo.hist[k]
	for x := range l {
		a := &l[x]
		if a.op == mo.op && a.write == write && a.atomic == atomic && sameLocks(a.locks, mo.locks) {
			return
		}
	}
	for x := range l {
		a := &l[x]
		if a.op == mo.op || !a.write && !write || a.atomic && atomic || common(a.locks, mo.locks) {
			continue
		}
		m.report("monitor: unsynchronised access to " + name())
		break
	}
	n := append(l[:len(l):len(l)], access{mo.op, write, atomic, mo.locks})
	mo.hist[k] = n
	m.undoFn(func() {
		if l == nil {
			delete(mo.hist, k)
		} else {
			mo.hist[k] = l
		}
	})
}

func objName(o *Obj) func() string {
	return func() string {
		if o.name != "" {
			return o.name
		}
		return "memory of type " + monName(o.ti)
	}
}

func monName(t *TI) string {
	if t == nil {
		return "?"
	}
	return strings.ReplaceAll(fmt.Sprint(t.t), "github.com/Eyevinn/dash-mpd/", "")
}

func (mo *Monitor) write(m *M, o *Obj, i int, v Value) {
	mo.access(m, o, i, true, false, objName(o))
	mo.share(m, v)
}

func (mo *Monitor) read(m *M, o *Obj, i, n int) {
	if mo.op == 0 {
		return
	}
	f := objName(o)
	for k := i; k < i+n; k++ {
		mo.access(m, o, k, false, false, f)
	}
}

func (mo *Monitor) atomic(m *M, o *Obj, i int, write bool) {
	if mo.tracks(o) {
		mo.access(m, o, i, write, true, objName(o))
	}
}

func (mo *Monitor) readMap(m *M, o *MapObj) {
	mo.access(m, o, 0, false, false, func() string { return "map " + monName(o.ti) })
}

func (mo *Monitor) writeMap(m *M, o *MapObj, k, v Value) {
	mo.access(m, o, 0, true, false, func() string { return "map " + monName(o.ti) })
	mo.share(m, k)
	mo.share(m, v)
}

// lock records that the current operation holds (n>0) or releases a lock.
func (mo *Monitor) lock(m *M, o *Obj, i int, on, excl bool) {
	old := mo.locks
	m.undoFn(func() { mo.locks = old })
	n := append([]lockHeld(nil), old...)
	for x := range n {
		if h := &n[x]; h.o == o && h.i == i && h.excl == excl {
			if on {
				h.n++
			} else if h.n--; h.n == 0 {
				n = append(n[:x], n[x+1:]...)
			}
			mo.locks = n
			return
		}
	}
	if on {
		n = append(n, lockHeld{o, i, excl, 1})
	}
	mo.locks = n
}

// onced treats what a sync.Once runs as done under an exclusive lock and what
// follows its Do as done under the same lock, shared, until the operation ends.
func (mo *Monitor) onced(m *M, o *Obj, i int, excl, on bool) {
	if mo != nil {
		mo.lock(m, o, -1-i, on, excl)
	}
}

// share marks everything reachable from v as reachable by other operations.
func (mo *Monitor) share(m *M, v Value) {
	walk(v, func(o *Obj) bool {
		if mo.tracks(o) {
			return false
		}
		o.shared = true
		m.undoFn(func() { o.shared = false })
		return true
	}, func(o *MapObj) bool {
		if mo.tracksM(o) {
			return false
		}
		o.shared = true
		m.undoFn(func() { o.shared = false })
		return true
	})
}

// publish hands v over in a synchronised way: earlier accesses happen before
// everything the receiver does.
func (mo *Monitor) publish(m *M, v Value) {
	if mo == nil {
		return
	}
	seen := map[any]bool{}
	drop := func(o any, n int) {
		for i := 0; i < n; i++ {
			k := slotKey{o, int32(i)}
			if l, ok := mo.hist[k]; ok {
				delete(mo.hist, k)
				m.undoFn(func() { mo.hist[k] = l })
			}
		}
	}
	walk(v, func(o *Obj) bool {
		if seen[o] || o.name != "" {
			return false
		}
		seen[o] = true
		drop(o, len(o.slots))
		return true
	}, func(o *MapObj) bool {
		if seen[o] {
			return false
		}
		seen[o] = true
		drop(o, 1)
		return true
	})
	mo.share(m, v)
}

func (mo *Monitor) publishPool(m *M, v Value) { mo.publish(m, v) }

// walk visits the objects reachable from v.
func walk(v Value, fo func(*Obj) bool, fm func(*MapObj) bool) {
	todo := []Value{v}
	for len(todo) > 0 {
		v := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		switch x := v.r.(type) {
		case *Obj:
			if x != nil && fo(x) {
				for _, s := range x.slots {
					if s.r != nil {
						todo = append(todo, s)
					}
				}
			}
		case *MapObj:
			if x != nil && fm(x) {
				for i, e := range x.ents {
					if !x.dead[i] {
						todo = append(todo, e.k, e.v)
					}
				}
			}
		case *Iface:
			if x != nil {
				todo = append(todo, x.v)
			}
		case *Agg:
			if x != nil {
				todo = append(todo, x.s...)
			}
		case []Value:
			todo = append(todo, x...)
		case *Closure:
			if x != nil {
				todo = append(todo, x.free...)
				if x.meth != nil {
					todo = append(todo, x.meth.recv)
				}
			}
		case *RV:
			if x != nil {
				if x.o != nil {
					todo = append(todo, Value{r: x.o})
				}
				todo = append(todo, x.v)
			}
		}
	}
}
