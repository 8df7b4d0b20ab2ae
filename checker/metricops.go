package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// opRun is the evaluation of one operation of a metric, on a metric in any state.
type opRun struct {
	W     *World
	R     *Report
	P     *Program
	owner string
	name  string
	fn    *ssa.Function
	recv  *Term
	args  []*Term
	rs    []*Term
	rg    B // it returns
	ok    B // it returns, without an error
	fail  B // it panics or returns an error
	ev    []*Event
	m0    int
}

func (o *opRun) what() string { return "(*" + o.owner + ")." + o.name }
func (o *opRun) pos() string  { return o.P.pos(o.fn.Pos()) }

// exportedMethods of a type of the library.
func (P *Program) exportedMethods(pkg, typ string) map[string]*ssa.Function {
	r := map[string]*ssa.Function{}
	n := P.named(pkg, typ)
	if n == nil {
		return r
	}
	T := types.NewPointer(n)
	ms := types.NewMethodSet(T)
	for i := 0; i < ms.Len(); i++ {
		if s := ms.At(i); s.Obj().Exported() {
			if f := P.ssa.MethodValue(s); f != nil {
				r[s.Obj().Name()] = f
			}
		}
	}
	return r
}

func sortedKeys[V any](m map[string]V) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// newOp prepares the receiver and the arguments of a method.
func newOp(P *Program, R *Report, owner, name string, fn *ssa.Function) *opRun {
	o := &opRun{W: newWorld(P), R: R, P: P, owner: owner, name: name, fn: fn}
	E := o.W.Engine
	o.recv = E.Sym("m", types.NewPointer(P.named(modPath, owner)))
	sig := fn.Signature
	for i := 0; i < sig.Params().Len(); i++ {
		o.args = append(o.args, E.Sym("a"+string(rune('0'+i)), sig.Params().At(i).Type()))
	}
	return o
}

// opaqueCtors leaves out what the constructors do: they only write to the new object,
// which is an obligation of its own.
func (o *opRun) opaqueCtors() {
	cs := map[*ssa.Function]bool{}
	for _, f := range o.P.constructors() {
		cs[f] = true
	}
	o.W.opaque = func(fn *ssa.Function) bool { return cs[fn] && fn != o.fn }
}

// run evaluates it where g holds.
func (o *opRun) run(g B) *opRun {
	E := o.W.Engine
	e0, n := len(E.events), len(E.undecided)
	o.m0 = len(E.mem)
	o.rs, o.rg = E.CallFn(o.fn, append([]*Term{o.recv}, o.args...), nil, g, nil, nil)
	o.ev = E.events[e0:]
	for _, u := range E.undecided[n:] {
		o.R.Undecided(o.what(), "%s", u)
	}
	o.ok = o.rg
	res := o.fn.Signature.Results()
	if k := res.Len(); k > 0 && types.Identical(res.At(k-1).Type(), errType) {
		o.ok = E.bdd.And(o.rg, E.Eq(o.rs[k-1], E.Nil(), o.rg))
	}
	o.fail = E.bdd.And(g, E.bdd.Not(o.ok))
	for f := range E.funcs {
		o.R.mu.Lock()
		o.R.funcs[f.String()] = true
		o.R.mu.Unlock()
	}
	return o
}

func runOp(P *Program, R *Report, owner, name string, fn *ssa.Function) *opRun {
	return newOp(P, R, owner, name, fn).run(True)
}

// isCell: the location of the value of a metric or of an instance of one.
func isCell(loc *Term) bool {
	return loc != nil && (fieldIs(loc, "pcpSingletonMetric", "val") || fieldIs(loc, "instanceValue", "val"))
}

// cell is the location of the value of a metric, or of an instance of it.
func (W *World) cell(recv *Term, owner string, inst *Term) (*Term, B) {
	if l := W.field(recv, owner, "pcpSingletonMetric"); l != nil {
		return W.field(W.Read(l, True), "pcpSingletonMetric", "val"), True
	}
	l := W.field(recv, owner, "pcpInstanceMetric")
	if l == nil {
		return nil, False
	}
	vl := W.field(W.Read(l, True), "pcpInstanceMetric", "vals")
	if vl == nil || inst == nil {
		return nil, False
	}
	m := W.Read(vl, True)
	el := W.elemOf("pcpInstanceMetric", "vals")
	has := W.Formula(W.Read(W.HasAddr(m, inst, el), True))
	return W.field(W.Read(W.MapAddr(m, inst, el), has), "instanceValue", "val"), has
}

// effect is a change of the value of a metric or a write to its slot.
type effect struct {
	e   *Event
	obj *Term // the object that holds the value
	val *Term
	g   B // where it takes effect
	old *Term
	raw bool // clears the slot
}

// stores of values, writes to the file.
func (o *opRun) effects() (ss, ws []*effect) {
	E := o.W.Engine
	for _, e := range o.ev {
		switch {
		case e.kind == "store" && e.loc != nil && e.loc.op != "phi" && isCell(e.loc):
			ss = append(ss, &effect{e: e, obj: e.loc.args[0], val: e.val, g: e.g, old: E.readBefore(e.loc, e.g, e)})
		case e.kind == "store" && e.loc != nil && e.loc.op == "phi":
			for _, l := range leavesOf(e.loc) {
				if isCell(l.t) {
					g := E.bdd.And(e.g, l.g)
					ss = append(ss, &effect{e: e, obj: l.t.args[0], val: e.val, g: g, old: E.readBefore(l.t, g, e)})
				}
			}
		case e.kind == "W":
			for _, l := range leavesOf(e.args[0]) {
				g := E.bdd.AndAll(e.g, e.ok, l.g)
				if g == False || !E.feasible(g) {
					continue
				}
				ws = append(ws, &effect{e: e, obj: slotOwner(l.t), val: e.val, g: g, raw: strings.TrimPrefix(e.name, "Must") == "Write"})
			}
		}
	}
	return
}

// slotOwner is the object that the offset of a write comes from.
func slotOwner(t *Term) *Term {
	if t == nil {
		return nil
	}
	if l := loadOf(t); l != nil && l.op == "fieldaddr" && (strings.HasPrefix(l.aux, modPath+".pcpSingletonMetric#") || strings.HasPrefix(l.aux, modPath+".instanceValue#")) {
		return l.args[0]
	}
	for _, a := range t.args {
		if x := slotOwner(a); x != nil {
			return x
		}
	}
	return nil
}

// connected: the object is connected to a file.
func (W *World) connected(obj *Term, e *Event) (B, bool) {
	E := W.Engine
	n := namedOf(obj.typ)
	if n == nil {
		return False, false
	}
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return False, false
	}
	r, found := False, false
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		switch f.Type().Underlying().(type) {
		case *types.Signature:
		case *types.Interface:
			if f.Name() == "val" || !types.IsInterface(f.Type()) || isEmptyIface(f.Type()) {
				continue
			}
		default:
			continue
		}
		found = true
		v := E.readBefore(E.FieldAddr(obj, n, i), True, e)
		r = E.bdd.Or(r, E.bdd.Not(E.Eq(v, E.Nil(), True)))
	}
	return r, found
}

func isEmptyIface(t types.Type) bool {
	i, ok := t.Underlying().(*types.Interface)
	return ok && i.NumMethods() == 0
}

// sameVal: two values are the same, also if they are not a number.
func (E *Engine) sameVal(a, b *Term, g B) B {
	r := False
	for _, la := range leavesOf(a) {
		for _, lb := range leavesOf(b) {
			gg := E.bdd.AndAll(g, la.g, lb.g)
			if gg == False {
				continue
			}
			c := True
			x, y := la.t, lb.t
			if x != y {
				if x.op == "iface" && y.op == "iface" && types.Identical(x.typ, y.typ) {
					c = E.sameVal(x.args[0], y.args[0], gg)
				} else if x.op == "conv" && y.op == "conv" && types.Identical(x.typ, y.typ) {
					c = E.bdd.Or(E.Eq(x, y, gg), E.sameVal(x.args[0], y.args[0], gg))
				} else {
					c = E.Eq(x, y, gg)
				}
			}
			r = E.bdd.Or(r, E.bdd.And(E.bdd.And(la.g, lb.g), c))
		}
	}
	return r
}

// never: a condition cannot hold.
func (E *Engine) never(b B) bool { return b == False || !E.feasible(b) || !E.sat(b) }

// held gives the locks held at an event, of one kind or all.
func (E *Engine) heldAt(e *Event, write bool) []heldLock {
	var r []heldLock
	for _, h := range e.held {
		if write && !h.write {
			continue
		}
		if E.implies(e.g, h.g) {
			r = append(r, h)
		}
	}
	return r
}

// subterms calls f for the subterms of the conditions and values given.
func (E *Engine) subterms(ts []*Term, bs []B, f func(t *Term)) {
	seen, seenB := map[*Term]bool{}, map[int32]bool{}
	var rec func(t *Term)
	recB := func(b B) {
		for _, v := range E.bdd.Support(b) {
			if seenB[v] {
				continue
			}
			seenB[v] = true
			a := E.atoms[v]
			for _, t := range append([]*Term{a.x, a.y}, a.lin.at...) {
				if t != nil {
					rec(t)
				}
			}
		}
	}
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		f(t)
		for _, a := range t.args {
			rec(a)
		}
		for _, l := range t.leaves {
			rec(l.t)
			recB(l.g)
		}
		if t.op == "bool" {
			recB(t.f)
		}
		for _, b := range t.bits {
			recB(b)
		}
	}
	for _, t := range ts {
		rec(t)
	}
	for _, b := range bs {
		recB(b)
	}
}

// instances adds what it means for the iterations that are looked at that a
// condition holds in no iteration of a loop.
func (E *Engine) instances(b B, ts ...*Term) B {
	var idx, anys, has []*Term
	E.subterms(ts, []B{b}, func(t *Term) {
		switch t.op {
		case "keyidx":
			idx = append(idx, t)
		case "any":
			if E.closed(t) {
				anys = append(anys, t)
			}
		case "haddr":
			has = append(has, t)
		}
	})
	for _, a := range anys {
		is := E.atomB(&atom{kind: "b", x: a})
		for _, i := range idx {
			in := E.bdd.And(E.cmpInt("<=", E.Int(0), i, True), E.cmpInt("<", i, a.args[0], True))
			c := E.Formula(E.Subst(a.args[1], map[*Term]*Term{a.args[2]: i}))
			b = E.bdd.And(b, E.bdd.Or(is, E.bdd.Not(E.bdd.And(in, c))))
		}
		// the keys of the map that the loop is over
		var keys []*Term
		E.subterms(a.args[1:2], nil, func(t *Term) {
			if t.op == "key" && t.args[1] == a.args[2] {
				keys = append(keys, t)
			}
		})
		for _, p := range keys {
			for _, h := range has {
				in := E.Formula(E.Read(E.HasAddr(p.args[0], h.args[1], mapElem(p)), True))
				c := E.Formula(E.Subst(a.args[1], map[*Term]*Term{a.args[2]: E.KeyIdx(p, h.args[1])}))
				b = E.bdd.And(b, E.bdd.Or(is, E.bdd.Not(E.bdd.And(in, c))))
			}
		}
	}
	return b
}

// instancesAt adds what it means for one iteration that a condition holds in none.
func (E *Engine) instancesAt(b B, i *Term) B {
	var anys []*Term
	E.subterms(nil, []B{b}, func(t *Term) {
		if t.op == "any" && E.closed(t) {
			anys = append(anys, t)
		}
	})
	for _, a := range anys {
		in := E.bdd.And(E.cmpInt("<=", E.Int(0), i, True), E.cmpInt("<", i, a.args[0], True))
		c := E.Formula(E.Subst(a.args[1], map[*Term]*Term{a.args[2]: i}))
		b = E.bdd.And(b, E.bdd.Or(E.atomB(&atom{kind: "b", x: a}), E.bdd.Not(E.bdd.And(in, c))))
	}
	return b
}

// closed: a term is not within the body of an operator over the iterations of a loop.
func (E *Engine) closed(t *Term) bool { return len(E.freeBound(t)) == 0 }

// freeBound: the variables of operators that a term is within.
func (E *Engine) freeBound(t *Term) map[*Term]bool {
	memo := map[*Term]map[*Term]bool{}
	var free func(t *Term) map[*Term]bool
	var freeB func(b B, r map[*Term]bool)
	add := func(r, x map[*Term]bool) {
		for v := range x {
			r[v] = true
		}
	}
	freeB = func(b B, r map[*Term]bool) {
		for _, v := range E.bdd.Support(b) {
			a := E.atoms[v]
			for _, x := range append([]*Term{a.x, a.y}, a.lin.at...) {
				if x != nil {
					add(r, free(x))
				}
			}
		}
	}
	free = func(t *Term) map[*Term]bool {
		if r, ok := memo[t]; ok {
			return r
		}
		r := map[*Term]bool{}
		memo[t] = r
		if t.op == "it" && t.aux != "" && t.aux[0] == '#' {
			r[t] = true
		}
		if isBinder(t) {
			add(r, free(t.args[1]))
			delete(r, t.args[2])
			add(r, free(t.args[0]))
			return r
		}
		for _, a := range t.args {
			add(r, free(a))
		}
		for _, l := range t.leaves {
			add(r, free(l.t))
			freeB(l.g, r)
		}
		if t.op == "bool" {
			freeB(t.f, r)
		}
		return r
	}
	return free(t)
}
