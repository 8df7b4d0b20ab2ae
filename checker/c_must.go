package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// trace is what a method does, in terms of the methods and functions it calls.
type trace struct {
	rs    []*Term
	rg    B // it returns
	calls []*Event
	other []*Event // effects of its own
	ok    B        // without an error
}

func returnsErr(fn *ssa.Function) bool {
	res := fn.Signature.Results()
	return res.Len() > 0 && types.Identical(res.At(res.Len()-1).Type(), errType)
}

// baseOf gives the method that a Must method is named after.
func baseOf(ms map[string]*ssa.Function, fn *ssa.Function) *ssa.Function {
	for n, f := range ms {
		if f == fn && strings.HasPrefix(n, "Must") {
			return ms[strings.TrimPrefix(n, "Must")]
		}
	}
	return nil
}

// opaqueCall is a call of a method that is looked at elsewhere.
func (E *Engine) opaqueCall(fn *ssa.Function, args []*Term, g B, fr *frame, in ssa.Instruction) ([]*Term, B) {
	e := E.event(fr, "opcall", g, in.Pos())
	e.fn, e.args, e.name = fn, args, fn.String()
	rs := make([]*Term, fn.Signature.Results().Len())
	for i := range rs {
		rs[i] = E.App("call", fmt.Sprintf("%s/%d", fn, i), fn.Signature.Results().At(i).Type(), args...)
	}
	e.res = rs
	return rs, g
}

// traceOf evaluates a method; calls for which stop holds are not followed.
func traceOf(R *Report, W *World, fn *ssa.Function, args []*Term, ms map[string]*ssa.Function, stop func(f *ssa.Function) bool) *trace {
	E := W.Engine
	st := W.saveState()
	e0, n := len(E.events), len(E.undecided)
	bad := ""
	E.custom = func(f *ssa.Function, a []*Term, g B, fr *frame, in ssa.Instruction) ([]*Term, B, bool) {
		if fr == nil || f == fn {
			return nil, g, false
		}
		// a promoted method and the one it stands for
		if b := baseOf(ms, f); b != nil && returnsErr(b) && stop(b) {
			rs, rg := E.opaqueCall(b, a, g, fr, in)
			k := len(rs) - 1
			return rs[:k], E.bdd.And(rg, E.Eq(rs[k], E.Nil(), g)), true
		}
		if stop(f) {
			rs, rg := E.opaqueCall(f, a, g, fr, in)
			return rs, rg, true
		}
		return nil, g, false
	}
	// the body itself, though custom is asked first
	t := &trace{}
	t.rs, t.rg = E.CallFn(fn, args, nil, True, nil, nil)
	E.custom = nil
	for _, u := range E.undecided[n:] {
		bad = u
	}
	E.undecided = E.undecided[:n]
	if bad != "" {
		R.Note("%s: %s", fn, bad)
		W.restoreState(st)
		return nil
	}
	for _, e := range E.events[e0:] {
		if E.never(e.g) {
			continue
		}
		switch e.kind {
		case "opcall":
			t.calls = append(t.calls, e)
		case "store", "mapstore":
			if e.loc != nil && isFreshOp(locRoot(e.loc).op) {
				continue
			}
			t.other = append(t.other, e)
		case "W", "send", "recv", "go", "wgadd", "wgdone", "wgwait", "lock", "unlock", "rlock", "runlock", "ext", "invoke", "dyncall":
			t.other = append(t.other, e)
		}
	}
	t.ok = t.rg
	if returnsErr(fn) {
		k := len(t.rs) - 1
		t.ok = E.bdd.And(t.rg, E.Eq(t.rs[k], E.Nil(), t.rg))
	}
	W.restoreState(st)
	for f := range E.funcs {
		R.mu.Lock()
		R.funcs[f.String()] = true
		R.mu.Unlock()
	}
	return t
}

func (E *Engine) sameEvents(a, b []*Event) (bool, string) {
	if len(a) != len(b) {
		return false, fmt.Sprintf("%d effects in place of %d", len(a), len(b))
	}
	for i, x := range a {
		y := b[i]
		if x.kind != y.kind || len(x.args) != len(y.args) || x.name != y.name || !E.never(E.bdd.Xor(x.g, y.g)) || x.loc != y.loc {
			return false, fmt.Sprintf("%s %s where it should be %s %s, or under another condition", x.kind, x.name, y.kind, y.name)
		}
		for j := range x.args {
			if !E.never(E.bdd.And(x.g, E.bdd.Not(E.sameVal(x.args[j], y.args[j], x.g)))) {
				return false, fmt.Sprintf("%s %s with %s in place of %s", x.kind, x.name, x.args[j], y.args[j])
			}
		}
		if x.val != nil && y.val != nil && !E.never(E.bdd.And(x.g, E.bdd.Not(E.sameVal(x.val, y.val, x.g)))) {
			return false, fmt.Sprintf("%s of %s in place of %s", x.kind, x.val, y.val)
		}
	}
	return true, ""
}

// sameAsMust: t does what b does, and panics where b fails.
func (E *Engine) sameAsMust(t, b *trace) (bool, string) {
	if ok, why := E.sameEvents(append(append([]*Event(nil), t.calls...), t.other...), append(append([]*Event(nil), b.calls...), b.other...)); !ok {
		return false, why
	}
	if !E.never(E.bdd.Xor(t.rg, b.ok)) {
		return false, "it returns if " + E.BStr(t.rg) + " and should if " + E.BStr(b.ok)
	}
	for i := range t.rs {
		if !E.never(E.bdd.And(t.rg, E.bdd.Not(E.sameVal(t.rs[i], b.rs[i], t.rg)))) {
			return false, fmt.Sprintf("it returns %s in place of %s", t.rs[i], b.rs[i])
		}
	}
	return true, ""
}

// selfTrace is a method as one call of itself.
func selfTrace(E *Engine, fn *ssa.Function, args []*Term) *trace {
	e := &Event{kind: "opcall", g: True, fn: fn, args: args, name: fn.String(), ok: True}
	t := &trace{rg: True, calls: []*Event{e}}
	for i := 0; i < fn.Signature.Results().Len(); i++ {
		t.rs = append(t.rs, E.App("call", fmt.Sprintf("%s/%d", fn, i), fn.Signature.Results().At(i).Type(), args...))
	}
	e.res = t.rs
	t.ok = True
	if returnsErr(fn) {
		t.ok = E.Eq(t.rs[len(t.rs)-1], E.Nil(), True)
	}
	return t
}

type convenience struct {
	typ, name, base string
	args            func(o *opRun) []*Term
}

var conveniences = []convenience{
	{"PCPCounter", "Up", "Inc", func(o *opRun) []*Term { return []*Term{o.W.Int(1)} }},
	{"PCPCounterVector", "Up", "Inc", func(o *opRun) []*Term { return []*Term{o.W.Int(1), o.args[0]} }},
	{"PCPGauge", "Dec", "Inc", func(o *opRun) []*Term { return []*Term{o.neg(0)} }},
	{"PCPGaugeVector", "Dec", "Inc", func(o *opRun) []*Term { return []*Term{o.neg(0), o.args[1]} }},
}

var conveniencesAll = []convenience{
	{"PCPCounterVector", "SetAll", "Set", func(o *opRun) []*Term { return []*Term{o.args[0]} }},
	{"PCPCounterVector", "IncAll", "Inc", func(o *opRun) []*Term { return []*Term{o.args[0]} }},
	{"PCPCounterVector", "UpAll", "Inc", func(o *opRun) []*Term { return []*Term{o.W.Int(1)} }},
	{"PCPGaugeVector", "SetAll", "Set", func(o *opRun) []*Term { return []*Term{o.args[0]} }},
	{"PCPGaugeVector", "IncAll", "Inc", func(o *opRun) []*Term { return []*Term{o.args[0]} }},
	{"PCPGaugeVector", "DecAll", "Inc", func(o *opRun) []*Term { return []*Term{o.neg(0)} }},
}

func (o *opRun) neg(i int) *Term {
	return o.W.fscale(o.args[i], constMinusOne, types.Typ[types.Float64])
}

// sameMethod: the methods are the same, also if one of them is promoted.
func sameObj(f, g *ssa.Function) bool {
	return f == g || f.Object() != nil && f.Object() == g.Object()
}

func checkC15(P *Program, R *Report) {
	for _, pkg := range []string{modPath, bwPath} {
		p := P.pkg(pkg)
		if p == nil {
			R.Undecided(pkg, "the package does not exist")
			continue
		}
		for _, tn := range p.Pkg.Scope().Names() {
			obj, ok := p.Pkg.Scope().Lookup(tn).(*types.TypeName)
			if !ok || !obj.Exported() {
				continue
			}
			if _, ok := obj.Type().Underlying().(*types.Struct); !ok {
				continue
			}
			ms := P.exportedMethods(pkg, tn)
			for _, n := range sortedKeys(ms) {
				base := ms[strings.TrimPrefix(n, "Must")]
				if !strings.HasPrefix(n, "Must") {
					continue
				}
				what := "(*" + tn + ")." + n
				if base == nil || !returnsErr(base) {
					R.Note("%s is not named after a method that returns an error", what)
					continue
				}
				if ms[n].Synthetic != "" && ms[n].Object() != nil && pkg == modPath {
					continue // promoted: decided for the type that declares it
				}
				protect(R, what, func() { mustIs(P, R, pkg, tn, what, ms, ms[n], base, nil) })
				R.Count("Must methods", 1)
			}
		}
	}
	for _, c := range conveniences {
		c := c
		what := "(*" + c.typ + ")." + c.name
		ms := P.exportedMethods(modPath, c.typ)
		if ms[c.name] == nil || ms[c.base] == nil {
			R.Undecided(what, "the method does not exist")
			continue
		}
		protect(R, what, func() { mustIs(P, R, modPath, c.typ, what, ms, ms[c.name], ms[c.base], c.args) })
		R.Count("convenience operations", 1)
	}
	for _, c := range conveniencesAll {
		c := c
		what := "(*" + c.typ + ")." + c.name
		ms := P.exportedMethods(modPath, c.typ)
		if ms[c.name] == nil || ms[c.base] == nil {
			R.Undecided(what, "the method does not exist")
			continue
		}
		protect(R, what, func() { allIs(P, R, c, what, ms) })
		R.Count("convenience operations", 1)
	}
	R.AtLeast("Must methods", 27)
	R.AtLeast("convenience operations", 10)
}

// mustIs compares a Must or convenience method with the one it is named after.
func mustIs(P *Program, R *Report, pkg, tn, what string, ms map[string]*ssa.Function, fn, base *ssa.Function, margs func(o *opRun) []*Term) {
	W := newWorld(P)
	W.clientMode = pkg == modPath
	E := W.Engine
	o := &opRun{W: W, R: R, P: P, owner: tn, fn: fn}
	o.recv = E.Sym("m", types.NewPointer(P.named(pkg, tn)))
	for i := 0; i < fn.Signature.Params().Len(); i++ {
		o.args = append(o.args, E.Sym("a"+string(rune('0'+i)), fn.Signature.Params().At(i).Type()))
	}
	args := append([]*Term{o.recv}, o.args...)
	bargs := args
	if margs != nil {
		bargs = append([]*Term{o.recv}, margs(o)...)
	}
	must := !returnsErr(fn)
	// it is a call of the method
	own := func(f *ssa.Function) bool {
		for _, m := range ms {
			if f == m && returnsErr(f) {
				return true
			}
		}
		return false
	}
	compare := func(t, b *trace) (bool, string) {
		if must {
			return E.sameAsMust(t, b)
		}
		if ok, why := E.sameEvents(append(append([]*Event(nil), t.calls...), t.other...), append(append([]*Event(nil), b.calls...), b.other...)); !ok {
			return false, why
		}
		if !E.never(E.bdd.Xor(t.ok, b.ok)) {
			return false, "it succeeds if " + E.BStr(t.ok)
		}
		return true, ""
	}
	var why string
	good := false
	if t := traceOf(R, W, fn, args, ms, own); t != nil {
		good, why = compare(t, selfTrace(E, base, bargs))
		if !good {
			// the method it is named after may itself be a call of another
			if b := traceOf(R, W, base, bargs, ms, own2(own, base)); b != nil {
				good, _ = compare(t, b)
			}
		}
	}
	if !good {
		// both may share what they call
		all := func(f *ssa.Function) bool { return inModule(f) && f.Parent() == nil && f.Synthetic == "" }
		t, b := traceOf(R, W, fn, args, ms, all), traceOf(R, W, base, bargs, ms, own2(all, base))
		if t != nil && b != nil {
			good, _ = compare(t, b)
		}
	}
	rule := "it does what the method it is named after does, and panics exactly where that returns an error"
	if !must {
		rule = "it does what the method it is defined by does"
	}
	if !good && (pkg == bwPath || isMetricType(tn)) {
		E.flat = true
		none := func(*ssa.Function) bool { return false }
		t, b := traceOf(R, W, fn, args, ms, none), traceOf(R, W, base, bargs, ms, none)
		E.flat = false
		if t != nil && b != nil {
			good, why = compare(t, b)
		}
	}
	R.Ob(rule, what, good, P.pos(fn.Pos()), "%s", why)
}

func isMetricType(tn string) bool {
	for _, m := range metricTypes {
		if m == tn {
			return true
		}
	}
	return false
}

func own2(f func(*ssa.Function) bool, not *ssa.Function) func(*ssa.Function) bool {
	return func(x *ssa.Function) bool { return x != not && f(x) }
}

// allIs: an operation on all instances panics exactly where the one on an instance fails.
func allIs(P *Program, R *Report, c convenience, what string, ms map[string]*ssa.Function) {
	o := newOp(P, R, c.typ, c.name, ms[c.name])
	E := o.W.Engine
	// the error of the operation on one instance, from the initial state
	q := E.Sym("q", types.Typ[types.String])
	_, has := o.W.cell(o.recv, c.typ, q)
	st := o.W.saveState()
	one := o.step("one:", c.base, ms[c.base], has, append(c.args(o), q)...)
	o.W.restoreState(st)
	o.run(True)
	good := o.checkEffect(R)
	if !good {
		R.Undecided(what, "the effect of the operation is not known")
	}
	miss := E.instances(E.bdd.AndAll(o.rg, has, one.fail))
	R.Ob("it panics if the operation fails for an instance", what, E.never(miss), o.pos(), "it returns if %s", E.BStr(miss))
	// where it panics it is because of an instance
	for _, e := range o.ev {
		if e.kind != "panic" || E.never(e.g) {
			continue
		}
		R.Count("panics", 1)
		var keys []*Term
		E.subterms(nil, []B{e.g}, func(t *Term) {
			if t.op == "key" && t.typ != nil && isString(t.typ) {
				keys = append(keys, t)
			}
		})
		just := False
		for _, k := range keys {
			just = E.bdd.Or(just, E.SubstB(E.bdd.Restrict(one.fail, has), map[*Term]*Term{q: k}))
		}
		R.Ob("it panics only if the operation fails for an instance", what, E.never(E.bdd.And(e.g, E.bdd.Not(just))), P.pos(e.pos), "it panics if %s", E.BStr(E.bdd.And(e.g, E.bdd.Not(just))))
	}
}
