package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

// initGlobals evaluates the initialisers of package variables. Those that are
// assigned elsewhere too keep no known value.
func (E *Engine) initGlobals() { E.initGlobalsWith(false) }

// initGlobalsWith also keeps, if all is set, what only init functions assign.
func (E *Engine) initGlobalsWith(all bool) {
	stored := map[*ssa.Global]bool{}
	for _, f := range E.prog.funcs {
		if f.Synthetic != "" || all && f.Parent() == nil && strings.HasPrefix(f.Name(), "init#") {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if g := rootGlobal(s.Addr); g != nil {
						stored[g] = true
					}
				}
				// passing the address on
				if c, ok := in.(ssa.CallInstruction); ok {
					for _, a := range c.Common().Args {
						if g := rootGlobal(a); g != nil {
							stored[g] = true
						}
					}
				}
			}
		}
	}
	E.globalsRun, E.allInit = true, all
	for _, path := range []string{modPath + "/bytewriter", modPath, modPath + "/mmvdump"} {
		sp := E.prog.byP[path]
		if sp == nil {
			continue
		}
		init := sp.Func("init")
		if init == nil || len(init.Blocks) == 0 {
			continue
		}
		if gd := sp.Var("init$guard"); gd != nil {
			E.Store(E.Global(gd), E.Bool(False), True)
		}
		E.CallFn(init, nil, nil, True, nil, nil)
	}
	E.globalsRun = false
	// only what is never assigned again is known
	var keep []*memEntry
	for _, e := range E.mem {
		r := locRoot(e.loc)
		if r.op == "global" && stored[E.globalOf[r]] {
			continue
		}
		keep = append(keep, e)
	}
	E.mem = keep
	E.events = nil
	E.undecided = nil
	E.funcs = map[*ssa.Function]bool{}
}

func rootGlobal(v ssa.Value) *ssa.Global {
	for {
		switch x := v.(type) {
		case *ssa.Global:
			return x
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		default:
			return nil
		}
	}
}
