// Package vsym is the interface between harnesses and the symbolic engine.
// The engine intercepts every function below; the bodies here are the native
// replay: inputs come from a recorded case.
package vsym

import (
	"fmt"
	"math"
	"os"
	"reflect"
	"strconv"
	"sync"
)

type In struct {
	Name string `json:"name"`
	Kind string `json:"kind"`
	Val  string `json:"val"`
}

type Case struct {
	Harness  string `json:"harness"`
	Inputs   []In   `json:"inputs"`
	Thorough bool   `json:"thorough"`
}

type Result struct {
	Failed []string    `json:"failed"`
	Panic  string      `json:"panic"`
	Assume bool        `json:"assume"`
	Obs    [][2]string `json:"obs"`
	Err    string      `json:"err"`
}

type stop struct{ why string }

var (
	cur *Case
	pos int
	res *Result
)

// Run executes f natively on the recorded case.
func Run(c *Case, f func()) (r *Result) {
	cur, pos = c, 0
	res = &Result{Failed: []string{}, Obs: [][2]string{}}
	r = res
	defer func() {
		if p := recover(); p != nil {
			if s, ok := p.(stop); ok {
				if s.why == "assume" {
					r.Assume = true
				} else {
					r.Err = s.why
				}
				return
			}
			r.Panic = fmt.Sprint(p)
		}
	}()
	f()
	return
}

func next(name, kind string) string {
	if pos >= len(cur.Inputs) {
		panic(stop{"no more inputs at " + name})
	}
	in := cur.Inputs[pos]
	pos++
	if in.Name != name || in.Kind != kind {
		panic(stop{"input mismatch: want " + name + "/" + kind + " have " + in.Name + "/" + in.Kind})
	}
	return in.Val
}

func num(name, kind string) uint64 {
	u, err := strconv.ParseUint(next(name, kind), 10, 64)
	if err != nil {
		panic(stop{err.Error()})
	}
	return u
}

func Byte(name string) byte       { return byte(num(name, "Byte")) }
func Bool(name string) bool       { return num(name, "Bool") != 0 }
func Int64(name string) int64     { return int64(num(name, "Int64")) }
func Int32(name string) int32     { return int32(num(name, "Int32")) }
func Uint64(name string) uint64   { return num(name, "Uint64") }
func Uint32(name string) uint32   { return uint32(num(name, "Uint32")) }
func Uint16(name string) uint16   { return uint16(num(name, "Uint16")) }
func Float64(name string) float64 { return math.Float64frombits(num(name, "Float64")) }

// Upto is any of 0..max, all on one path.
func Upto(name string, max uint64) uint64 { return num(name, "Upto") }

// String is any string of exactly n bytes.
func String(name string, n int) string {
	s, err := strconv.Unquote(next(name, "String"))
	if err != nil || len(s) != n {
		panic(stop{"bad string input"})
	}
	return s
}

func Bytes(name string, n int) []byte {
	s, err := strconv.Unquote(next(name, "Bytes"))
	if err != nil || len(s) != n {
		panic(stop{"bad bytes input"})
	}
	return []byte(s)
}

// Choose is any of 0..n-1, one path each.
func Choose(name string, n int) int {
	if n <= 0 {
		panic(stop{"assume"})
	}
	return int(num(name, "Choose"))
}

// Pin splits the path on the value of x.
func Pin(x int) int { return x }

func Assume(c bool) {
	if !c {
		panic(stop{"assume"})
	}
}

func Assert(c bool, label string) {
	if !c {
		res.Failed = append(res.Failed, label)
	}
}

func Reach(label string)             {}
func Observe(label, s string)        { res.Obs = append(res.Obs, [2]string{label, s}) }
func ObserveInt(label string, i int) { res.Obs = append(res.Obs, [2]string{label, strconv.Itoa(i)}) }
func Thorough() bool                 { return cur.Thorough }
func Symbolic() bool                 { return false }
func And(a, b bool) bool             { return a && b }
func Or(a, b bool) bool              { return a || b }
func IteInt64(c bool, a, b int64) int64 {
	if c {
		return a
	}
	return b
}
func IteByte(c bool, a, b byte) byte {
	if c {
		return a
	}
	return b
}
func EqString(a, b string) bool { return a == b }
func EqBytes(a, b []byte) bool  { return string(a) == string(b) }
func DeepEqual(a, b any) bool   { return reflect.DeepEqual(a, b) }
func MonitorStart()             {}
func MonitorStop()              {}
func MonitorOp()                {}

// Parallel runs operations that may run at once. The engine runs them one after
// the other and follows what each touches; the native replay of a finding
// (VSYM_RACE set, built with -race) runs them at once, repeatedly.
func Parallel(ops ...func()) {
	if Symbolic() {
		MonitorStart()
		for _, f := range ops {
			MonitorOp()
			f()
		}
		MonitorOp()
		MonitorStop()
		return
	}
	if os.Getenv("VSYM_RACE") == "" {
		for _, f := range ops {
			f()
		}
		return
	}
	var wg sync.WaitGroup
	start := make(chan bool)
	pan := make([]string, len(ops))
	for i, f := range ops {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if p := recover(); p != nil {
					pan[i] = fmt.Sprint(p)
				}
			}()
			<-start
			for range 30 {
				f()
			}
		}()
	}
	close(start)
	wg.Wait()
	for _, p := range pan {
		if p != "" {
			panic(p)
		}
	}
}

func Log(s string) {}
