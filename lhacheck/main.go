package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"time"

	"go/types"
	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

var repoDir = "/repo"

type Program struct {
	prog   *ssa.Program
	repo   map[*ssa.Package]bool
	lib    *ssa.Package
	main   *ssa.Package
	live   map[*ssa.Function]*liveness
	stored map[*ssa.Global]bool
	pkgs   []*packages.Package
}

func loadProgram() (*Program, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax&^packages.NeedDeps | packages.NeedExportFile, Dir: repoDir,
		Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local")}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	p := &Program{repo: map[*ssa.Package]bool{}, live: map[*ssa.Function]*liveness{}, pkgs: pkgs}
	for _, k := range pkgs {
		for _, er := range k.Errors {
			return nil, fmt.Errorf("%s", er)
		}
	}
	prog, sp := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p.prog = prog
	for _, s := range sp {
		if s == nil {
			continue
		}
		p.repo[s] = true
		if s.Pkg.Name() == "main" {
			p.main = s
		} else if p.lib == nil || s.Func("NewLzHeader") != nil || s.Type("Lha") != nil {
			p.lib = s
		}
	}
	if p.lib == nil {
		return nil, fmt.Errorf("library package not found")
	}
	p.stored = mutatedGlobals(p)
	return p, nil
}

// globals written outside package initialisation
func mutatedGlobals(p *Program) map[*ssa.Global]bool {
	r := map[*ssa.Global]bool{}
	for fn := range ssautil.AllFunctions(p.prog) {
		if fn.Blocks == nil || fn.Name() == "init" && fn.Synthetic != "" {
			continue
		}
		root := map[ssa.Value]*ssa.Global{}
		var of func(v ssa.Value) *ssa.Global
		of = func(v ssa.Value) *ssa.Global {
			if g, ok := v.(*ssa.Global); ok {
				return g
			}
			return root[v]
		}
		for ch := true; ch; {
			ch = false
			for _, b := range fn.Blocks {
				for _, i := range b.Instrs {
					v, ok := i.(ssa.Value)
					if !ok || root[v] != nil {
						continue
					}
					var g *ssa.Global
					switch x := i.(type) {
					case *ssa.FieldAddr:
						g = of(x.X)
					case *ssa.IndexAddr:
						g = of(x.X)
					case *ssa.Slice:
						g = of(x.X)
					case *ssa.UnOp:
						if isRef(x.Type()) {
							g = of(x.X)
						}
					case *ssa.ChangeType:
						g = of(x.X)
					case *ssa.Phi:
						for _, e := range x.Edges {
							if y := of(e); y != nil {
								g = y
							}
						}
					}
					if g != nil {
						root[v] = g
						ch = true
					}
				}
			}
		}
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				switch x := i.(type) {
				case *ssa.Store:
					if g := of(x.Addr); g != nil {
						r[g] = true
					}
					if g := of(x.Val); g != nil {
						r[g] = true
					}
				case *ssa.MapUpdate:
					if g := of(x.Map); g != nil {
						r[g] = true
					}
				case ssa.CallInstruction:
					if bl, ok := x.Common().Value.(*ssa.Builtin); ok {
						switch bl.Name() {
						case "len", "cap":
							continue
						case "append":
							continue
						case "copy":
							if g := of(x.Common().Args[0]); g != nil {
								r[g] = true
							}
							continue
						}
					}
					for _, a := range x.Common().Args {
						if g := of(a); g != nil && isRef(a.Type()) {
							r[g] = true
						}
					}
				}
			}
		}
	}
	return r
}

func main() {
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(16 << 30)
	if len(os.Args) < 2 {
		fmt.Println("usage: lhacheck <property> [thorough]")
		os.Exit(2)
	}
	if f := os.Getenv("LHACPU"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		go func() { time.Sleep(60 * time.Second); pprof.StopCPUProfile(); w.Close(); os.Exit(0) }()
	}
	if d := os.Getenv("LHA_REPO"); d != "" {
		repoDir = d
	}
	if os.Args[1] == "smoke" {
		p, err := loadProgram()
		if err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		os.Args = os.Args[1:]
		smoke(p, os.Args[1:])
		return
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	os.Exit(runCheck(os.Args[1], tier))
}

func isRef(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map:
		return true
	}
	return false
}
