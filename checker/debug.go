package main

import (
	"fmt"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// symArgs makes symbolic arguments for a function.
func (E *Engine) symArgs(fn *ssa.Function) []*Term {
	var a []*Term
	for i, p := range fn.Params {
		n := p.Name()
		if n == "" || n == "_" {
			n = fmt.Sprintf("p%d", i)
		}
		a = append(a, E.Sym(n, p.Type()))
	}
	return a
}

func debugEval(P *Program, name string) {
	pkg := modPath
	if i := strings.Index(name, ":"); i >= 0 {
		pkg, name = modPath+"/"+name[:i], name[i+1:]
	}
	fn := P.fn(pkg, name)
	if fn == nil {
		fmt.Println("no such function", name)
		os.Exit(1)
	}
	var E *Engine
	if pkg == modPath {
		E = newWorld(P).Engine
	} else {
		E = newEngine(P)
		E.initGlobals()
	}
	g := True
	args := []*Term(nil)
	if debugScen != "" {
		has := func(x string) bool { return strings.Contains(debugScen, x) }
		sc := Scenario{v2: has("v"), indoms: has("d"), insts: has("i"), metrics: has("m"), strings: has("s")}
		if i := strings.Index(debugScen, ":"); i >= 0 {
			sc.mtype = debugScen[i+1:]
		}
		cw, err := newClientWorld(P, sc)
		if err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		E = cw.Engine
		g = cw.g
		args = []*Term{cw.c}
	}
	E.obligations = true
	E.assumeWrites = debugAssume
	m0 := len(E.mem)
	e0 := len(E.events)
	if args == nil {
		args = E.symArgs(fn)
	}
	rs, rg := E.CallFn(fn, args, nil, g, nil, nil)
	fmt.Println("returns under", E.BStr(rg))
	for i, r := range rs {
		fmt.Printf("  result %d: %s\n", i, r)
	}
	for _, e := range E.events[e0:] {
		if e.kind == "load" || e.kind == "mapload" {
			continue
		}
		var args []string
		for _, a := range e.args {
			args = append(args, a.String())
		}
		loc, val := "", ""
		if e.loc != nil {
			loc = e.loc.String()
		}
		if e.val != nil {
			val = e.val.String()
		}
		ls := ""
		for _, l := range e.loops {
			ls += " in " + l.key
			if l.trip != nil {
				ls += " x " + l.trip.String()
			}
		}
		fmt.Printf("event %d t%d %s %s %s (%s) = %s {%s} ok {%s} %s%s\n", e.id, e.thread, e.kind, e.name, loc, strings.Join(args, ", "), val, E.BStr(e.g), E.BStr(e.ok), P.pos(e.pos), ls)
	}
	for _, m := range E.mem[m0:] {
		fmt.Printf("mem %s {%s}\n", m, E.BStr(m.g))
	}
	fmt.Println("undecided:", E.undecided)
	fmt.Println("atoms", len(E.atoms), "terms", len(E.termList), "bdd", len(E.bdd.nodes))
}

var debugAssume bool
var debugScen string
