package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

var loadTimes []string

// Packages whose initialisers are not run (no effect on the modelled code).
var skipInit = map[string]bool{
	"runtime": true, "os": true, "syscall": true, "internal/poll": true, "reflect": true, "sync": true,
	"internal/cpu": true, "internal/godebug": true, "internal/godebugs": true, "internal/reflectlite": true,
	"internal/bytealg": true, "internal/syscall/unix": true, "internal/testlog": true, "internal/oserror": false,
	"sync/atomic": true, "internal/runtime/atomic": true, "internal/abi": true, "internal/race": true,
	"internal/chacha8rand": true, "internal/syscall/execenv": true, "log": true, "flag": true, "context": true,
	"internal/sync": true, "internal/runtime/maps": true, "iter": true, "unique": true, "weak": true, "os/signal": true,
	"bufio": false, "path/filepath": false, "internal/filepathlite": true, "encoding/json": true, "os/exec": true,
	"internal/bisect": true, "crypto": true, "math/rand": true, "hash": true,
	"encoding/binary": false,
}

func Load(dir string, env []string) (*Prog, error) {
	t0 := time.Now()
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir, Env: env}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	n := 0
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			if n < 10 {
				fmt.Fprintln(os.Stderr, "load:", e)
			}
			n++
		}
	})
	if n > 0 {
		return nil, fmt.Errorf("%d load errors", n)
	}
	t1 := time.Now()
	sp, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	sp.Build()
	t2 := time.Now()
	loadTimes = append(loadTimes, fmt.Sprintf("load %.1fs ssa %.1fs", t1.Sub(t0).Seconds(), t2.Sub(t1).Seconds()))
	p := &Prog{ssa: sp, tt: NewTypeTab(sp), funcs: map[*ssa.Function]*CFunc{}, globs: map[*ssa.Global]int{}, intr: intrinsics(), solverMS: 10000}
	p.nopFunc = &CFunc{name: "nop", intr: nop}
	p.sizes = types.SizesFor("gc", "amd64")
	p.repo = func(fn *ssa.Function) bool {
		f := fn
		for f.Parent() != nil {
			f = f.Parent()
		}
		if o := f.Origin(); o != nil {
			f = o
		}
		if f.Pkg != nil {
			return strings.HasPrefix(f.Pkg.Pkg.Path(), "github.com/Eyevinn/dash-mpd")
		}
		if f.Object() != nil && f.Object().Pkg() != nil {
			return strings.HasPrefix(f.Object().Pkg().Path(), "github.com/Eyevinn/dash-mpd")
		}
		return false
	}
	tt := p.tt
	B := func(k types.BasicKind) *TI { return tt.Of(types.Typ[k]) }
	p.byteTI, p.boolTI, p.int64TI, p.uint64TI, p.floatTI = B(types.Uint8), B(types.Bool), B(types.Int64), B(types.Uint64), B(types.Float64)
	p.anyTI = tt.Of(types.NewInterfaceType(nil, nil))
	p.errStrTI = p.lookupType("errors", "errorString")
	p.errStrPtrTI = tt.PtrTo(p.errStrTI)
	if w := p.lookupType("fmt", "wrapError"); w != nil {
		p.wrapErrTI = w
		p.wrapErrPtrTI = tt.PtrTo(w)
	}
	p.poolTI = p.lookupType("sync", "Pool")
	p.anyMapTI = tt.Of(types.NewMap(p.anyTI.t, p.anyTI.t))
	p.rangeTabTI = p.lookupType("unicode", "RangeTable")
	p.rvalTI = p.lookupType("reflect", "Value")
	p.sfieldTI = p.lookupType("reflect", "StructField")
	p.rtypePtrTI = tt.PtrTo(p.lookupType("reflect", "rtype"))
	return p, nil
}

// initAll runs package initialisers in dependency order on m.
func (m *M) initAll() []string {
	var errs []string
	m.initing = true
	done := map[*types.Package]bool{}
	var visit func(p *types.Package)
	visit = func(p *types.Package) {
		if done[p] {
			return
		}
		done[p] = true
		for _, i := range p.Imports() {
			visit(i)
		}
		if skipInit[p.Path()] || strings.HasPrefix(p.Path(), "internal/runtime") || strings.HasPrefix(p.Path(), "crypto/") || strings.HasPrefix(p.Path(), "vendor/") || strings.HasPrefix(p.Path(), "net") {
			return
		}
		sp := m.p.ssa.Package(p)
		if sp == nil {
			return
		}
		f := sp.Func("init")
		if f == nil {
			return
		}
		if err := m.runConcrete(m.p.Func(f), nil); err != nil {
			errs = append(errs, p.Path()+": "+err.Error())
		}
	}
	for _, sp := range m.p.ssa.AllPackages() {
		if strings.HasPrefix(sp.Pkg.Path(), "vharness") {
			visit(sp.Pkg)
		}
	}
	m.initing = false
	return errs
}
