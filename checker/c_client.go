package main

import (
	"fmt"
	"runtime"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// clientRun is the evaluation of a method of a client whose registry is any one of a scenario.
type clientRun struct {
	*clientWorld
	name string
	fn   *ssa.Function
	rs   []*Term
	rg   B
	ok   B // it returns, without an error
	fail B
	ev   []*Event
	m0   int
}

func (k *clientRun) what() string { return "(*PCPClient)." + k.name }

// startScenarios is the case split: every registry is of one of these, and every
// metric of a registry of one of the types.
func startScenarios() []Scenario {
	var r []Scenario
	for _, v2 := range []bool{false, true} {
		for di := 0; di < 3; di++ {
			for _, s := range []bool{false, true} {
				sc := Scenario{v2: v2, indoms: di > 0, insts: di > 1, strings: s, mtype: "PCPCounter"}
				r = append(r, sc)
				for _, mt := range metricTypes {
					sc.metrics, sc.mtype = true, mt
					r = append(r, sc)
				}
			}
		}
	}
	return r
}

// eachClientRun evaluates a method in all scenarios and calls f for each. The
// arguments are any.
func eachClientRun(P *Program, R *Report, name string, scs []Scenario, prep func(cw *clientWorld), f func(k *clientRun)) {
	fn := P.exportedMethods(modPath, "PCPClient")[name]
	if fn == nil {
		R.Undecided("(*PCPClient)."+name, "the method does not exist")
		return
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	sem := make(chan bool, runtime.NumCPU())
	n := 0
	for _, sc := range scs {
		wg.Add(1)
		go func() {
			sem <- true
			defer func() { <-sem; wg.Done() }()
			what := fmt.Sprintf("(*PCPClient).%s with %s", name, sc)
			protect(R, what, func() {
				cw, err := newClientWorld(P, sc)
				if err != nil {
					R.Undecided(what, "%v", err)
					return
				}
				E := cw.Engine
				E.assumeWrites = true
				if prep != nil {
					prep(cw)
				}
				k := &clientRun{clientWorld: cw, name: name, fn: fn}
				args := []*Term{cw.c}
				for j := 0; j < fn.Signature.Params().Len(); j++ {
					args = append(args, E.Sym("a"+string(rune('0'+j)), fn.Signature.Params().At(j).Type()))
				}
				k.m0 = len(E.mem)
				e0 := len(E.events)
				k.rs, k.rg = E.CallFn(fn, args, nil, cw.g, nil, nil)
				k.ev = E.events[e0:]
				k.ok = k.rg
				if n := len(k.rs); n > 0 {
					k.ok = E.bdd.And(k.rg, E.Eq(k.rs[n-1], E.Nil(), k.rg))
				}
				k.fail = E.bdd.And(cw.g, E.bdd.Not(k.ok))
				mu.Lock()
				R.took(E, what)
				n++
				mu.Unlock()
				f(k)
			})
		}()
	}
	wg.Wait()
	R.Count("scenarios of "+name, n)
	R.AtLeast("scenarios of "+name, len(scs))
}
