package main

import (
	"fmt"
	"go/constant"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// call is the evaluation of one of a sequence of operations of one object.
type call struct {
	name   string
	rs     []*Term
	rg     B // it returns
	ok     B // without an error
	fail   B
	ev     []*Event
	m0, m1 int
}

// step evaluates a method on the receiver of o, in the state that the ones before left.
func (o *opRun) step(tag, name string, fn *ssa.Function, g B, args ...*Term) *call {
	E := o.W.Engine
	old := E.runTag
	E.runTag = old + tag
	e0, n := len(E.events), len(E.undecided)
	c := &call{name: name, m0: len(E.mem)}
	c.rs, c.rg = E.CallFn(fn, append([]*Term{o.recv}, args...), nil, g, nil, nil)
	c.ev = E.events[e0:]
	c.m1 = len(E.mem)
	for _, u := range E.undecided[n:] {
		o.R.Undecided(o.what(), "%s", u)
	}
	E.undecided = E.undecided[:n]
	c.ok = c.rg
	res := fn.Signature.Results()
	if k := res.Len(); k > 0 && types.Identical(res.At(k-1).Type(), errType) {
		c.ok = E.bdd.And(c.rg, E.Eq(c.rs[k-1], E.Nil(), c.rg))
	}
	c.fail = E.bdd.And(g, E.bdd.Not(c.ok))
	E.runTag = old
	for f := range E.funcs {
		o.R.mu.Lock()
		o.R.funcs[f.String()] = true
		o.R.mu.Unlock()
	}
	return c
}

// would gives whether an operation would fail in the state reached.
func (o *opRun) would(tag, name string, fn *ssa.Function, g B, args ...*Term) B {
	st := o.W.saveState()
	c := o.step(tag, name, fn, g, args...)
	o.W.restoreState(st)
	return c.fail
}

var timerUnits = []struct {
	name string
	ns   float64
}{{"NanosecondUnit", 1}, {"MicrosecondUnit", 1e3}, {"MillisecondUnit", 1e6}, {"SecondUnit", 1e9}, {"MinuteUnit", 60e9}, {"HourUnit", 3600e9}}

func checkC13(P *Program, R *Report) {
	const T = "PCPTimer"
	ms := P.exportedMethods(modPath, T)
	for _, n := range []string{"Start", "Stop", "Reset"} {
		if ms[n] == nil {
			R.Undecided(T+"."+n, "the method does not exist")
			return
		}
	}
	R.Assume("no write of a timer's value fails: its slot lies within the file (C04)")
	fresh := func(name string) *opRun {
		o := newOp(P, R, T, name, ms[name])
		o.W.assumeWrites = true
		return o
	}
	// running: starting it is an error
	running := func(o *opRun, tag string, g B) B { return o.would(tag, "Start", ms["Start"], g) }
	cellOf := func(o *opRun) *Term { l, _ := o.W.cell(o.recv, T, nil); return l }
	for _, name := range []string{"Start", "Stop", "Reset"} {
		what := "(*" + T + ")." + name
		protect(R, what, func() {
			o := fresh(name)
			E := o.W.Engine
			pos := P.pos(ms[name].Pos())
			was := running(o, "before:", True)
			loc := cellOf(o)
			pre := E.Read(loc, True)
			c := o.step("", name, ms[name], True)
			post := E.Read(loc, True)
			is := running(o, "after:", True)
			not := E.bdd.Not
			same := func(a, b B) bool { return E.never(E.bdd.Xor(a, b)) }
			R.Ob("the operation returns", what, E.never(not(c.rg)), pos, "it panics")
			switch name {
			case "Start":
				// by definition it fails if it is running, and starting what was
				// just started fails too
				R.Ob("starting makes it run", what, E.never(E.bdd.And(c.rg, not(is))), pos, "a timer that was started can be started again")
				R.Ob("a timer that is not running can be started", what, !E.never(c.ok), pos, "it always fails")
				R.Ob("starting leaves the value", what, E.never(not(E.sameVal(pre, post, True))), pos, "the value becomes %s", post)
			case "Stop":
				R.Ob("stopping fails exactly if it is not running", what, same(c.fail, not(was)), pos, "it fails if %s, and runs if %s", E.BStr(c.fail), E.BStr(was))
				R.Ob("a timer that was stopped can be started", what, E.never(E.bdd.And(c.ok, is)), pos, "it cannot be started again")
				R.Ob("stopping returns the new value", what, E.never(E.bdd.And(c.ok, not(E.sameVal(c.rs[0], E.Tassert(post, types.Typ[types.Float64]), c.ok)))), pos, "it returns %s, the value is %s", c.rs[0], post)
			case "Reset":
				R.Ob("resetting fails exactly if it is running", what, same(c.fail, was), pos, "it fails if %s, and runs if %s", E.BStr(c.fail), E.BStr(was))
				z := E.Iface(types.Typ[types.Float64], E.Float(constant.MakeFloat64(0)))
				R.Ob("resetting sets the value to zero", what, E.never(E.bdd.And(c.ok, not(E.sameVal(post, z, c.ok)))), pos, "the value becomes %s", post)
				R.Ob("resetting does not start it", what, E.never(E.bdd.And(c.ok, is)), pos, "it runs")
			}
			R.Ob("an error does not change whether it runs", what, E.never(E.bdd.And(c.fail, E.bdd.Xor(was, is))), pos, "it does")
			for _, e := range c.ev {
				switch {
				case e.kind == "store" && e.loc != nil && E.contains(e.loc, o.recv):
					ch := E.bdd.AndAll(e.g, c.fail, not(E.sameVal(e.val, E.readBefore(e.loc, e.g, e), e.g)))
					R.Ob("an error changes nothing", what, E.never(ch), P.pos(e.pos), "%s becomes %s", e.loc, e.val)
				case e.kind == "W":
					R.Ob("an error changes nothing", what, E.never(E.bdd.And(e.g, c.fail)), P.pos(e.pos), "%s is written", e.val)
				}
			}
			R.Count("transitions", 1)
		})
	}
	// one run in each of the units
	ut := P.named(modPath, "TimeUnit")
	if ut == nil {
		R.Undecided("TimeUnit", "the type does not exist")
		return
	}
	for _, u := range timerUnits {
		what := "a run of a timer of " + u.name
		protect(R, what, func() {
			cv := P.constVal(modPath, u.name)
			if cv == nil {
				R.Undecided(what, "the unit does not exist")
				return
			}
			o := fresh("Stop")
			E := o.W.Engine
			f64 := types.Typ[types.Float64]
			d := o.W.field(E.Read(o.W.field(E.Read(o.W.field(o.recv, T, "pcpSingletonMetric"), True), "pcpSingletonMetric", "pcpMetricDesc"), True), "pcpMetricDesc", "u")
			E.Store(d, E.Iface(ut, E.BigInt(cv)), True)
			pre := E.Read(cellOf(o), True)
			st := o.step("start:", "Start", ms["Start"], True)
			sp := o.step("stop:", "Stop", ms["Stop"], st.ok)
			post := E.Read(cellOf(o), sp.ok)
			var now []*Term
			for _, e := range st.ev {
				if e.kind == "ext" && e.name == "time.Now" {
					now = append(now, e.res[0])
				}
			}
			n := 0
			for _, e := range sp.ev {
				if e.kind != "ext" || e.name != "time.Since" && e.name != "(time.Time).Sub" {
					continue
				}
				n++
				since := e.args[0]
				if e.name != "time.Since" {
					since = e.args[1]
					fromNow := false
					for _, x := range sp.ev {
						fromNow = fromNow || x.kind == "ext" && x.name == "time.Now" && x.res[0] == e.args[0]
					}
					R.Ob("the time that counts ends with the stop", what, fromNow, P.pos(e.pos), "it ends at %s", e.args[0])
				}
				ok := False
				for _, w := range now {
					ok = E.bdd.Or(ok, E.Eq(E.Simp(since, sp.ok), w, sp.ok))
				}
				R.Ob("the time that counts is that since the matching start", what, E.never(E.bdd.And(sp.ok, E.bdd.Not(ok))), P.pos(e.pos), "it is that since %s", since)
				inc := E.Conv(e.res[0], f64, sp.ok)
				inc = E.fscale(inc, constant.BinaryOp(constant.MakeFloat64(1), tokenQUO, constant.MakeFloat64(u.ns)), f64)
				want := E.Iface(f64, E.floatOp(tokenADD, E.Tassert(pre, f64), inc, f64))
				R.Ob("stopping adds the time in the unit of the timer", what, E.never(E.bdd.And(sp.ok, E.bdd.Not(E.sameVal(post, want, sp.ok)))), P.pos(e.pos), "the value becomes %s and should be %s", E.Simp(post, sp.ok), want)
			}
			R.Ob("the time is measured once", what, n == 1, P.pos(ms["Stop"].Pos()), "%d measurements", n)
			R.Count("units", 1)
		})
	}
	// a new timer
	protect(R, "NewPCPTimer", func() {
		W := newWorld(P)
		E := W.Engine
		fn := P.fn(modPath, "NewPCPTimer")
		if fn == nil {
			R.Undecided("NewPCPTimer", "does not exist")
			return
		}
		o := &opRun{W: W, R: R, P: P, owner: T, name: "new", fn: fn}
		c := newCtor(o, fn)
		o.recv = E.Simp(c.rs[0], c.ok)
		run := o.would("first:", "Start", ms["Start"], c.ok)
		R.Ob("a new timer can be started", "NewPCPTimer", E.never(E.bdd.And(c.ok, run)), P.pos(fn.Pos()), "it cannot")
		l, _ := W.cell(o.recv, T, nil)
		z := E.Iface(types.Typ[types.Float64], E.Float(constant.MakeFloat64(0)))
		v := E.Read(l, c.ok)
		R.Ob("the value of a new timer is zero", "NewPCPTimer", E.never(E.bdd.And(c.ok, E.bdd.Not(E.sameVal(v, z, c.ok)))), P.pos(fn.Pos()), "it is %s", v)
	})
	// nothing else changes the value or the state of a timer
	for _, n := range sortedKeys(ms) {
		if n == "Start" || n == "Stop" || n == "Reset" {
			continue
		}
		protect(R, "(*"+T+")."+n, func() {
			o := runOp(P, R, T, n, ms[n])
			ok := true
			for _, e := range o.ev {
				if e.kind == "W" || e.kind == "store" && e.loc != nil && o.W.contains(e.loc, o.recv) && o.W.feasible(e.g) {
					ok = false
				}
			}
			R.Ob("no other operation changes a timer", o.what(), ok, o.pos(), "it stores")
			R.Count("other operations", 1)
		})
	}
	R.AtLeast("transitions", 3)
	R.AtLeast("units", 6)
}

// newCtor evaluates a constructor on unknown arguments.
func newCtor(o *opRun, fn *ssa.Function) *call {
	E := o.W.Engine
	o.args = nil
	for i := 0; i < fn.Signature.Params().Len(); i++ {
		p := fn.Signature.Params().At(i)
		o.args = append(o.args, E.Sym(fmt.Sprintf("p%d", i), p.Type()))
	}
	e0, n := len(E.events), len(E.undecided)
	c := &call{name: fn.Name(), m0: len(E.mem)}
	c.rs, c.rg = E.CallFn(fn, o.args, nil, True, nil, nil)
	c.ev = E.events[e0:]
	for _, u := range E.undecided[n:] {
		o.R.Undecided(fn.Name(), "%s", u)
	}
	E.undecided = E.undecided[:n]
	c.ok = c.rg
	if k := len(c.rs); k > 0 && types.Identical(fn.Signature.Results().At(k-1).Type(), errType) {
		c.ok = E.bdd.And(c.rg, E.Eq(c.rs[k-1], E.Nil(), c.rg))
	}
	c.fail = E.bdd.Not(c.ok)
	for f := range E.funcs {
		o.R.mu.Lock()
		o.R.funcs[f.String()] = true
		o.R.mu.Unlock()
	}
	return c
}
