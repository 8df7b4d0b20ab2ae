package main

import (
	"fmt"
	"go/types"
	"runtime"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Registering: the operations of registries and clients that change what is registered.

// regRun is the evaluation of an operation on a registry in any state, with one kind
// of argument.
type regRun struct {
	*opRun
	r    *Term // the registry
	kind string
	arg  *Term // the metric or instance domain that is passed, if it is of a type of the library
	M, D *Term
	mEl  types.Type
	dEl  types.Type
	acq  []*regAcq
	ins  []*Event // insertions
	last []*regPart
}

// regAcq is an acquisition of the lock of the registry. Before the first one the
// state of the registry is any; at each later one others may have changed it.
type regAcq struct {
	g  B
	at int // index in memory after it
	ev int
}

// regPart are the runs whose last acquisition is the same.
type regPart struct {
	g    B
	from int // memory when the lock was acquired
	ev   int
}

func (r *regRun) what() string {
	if r.kind == "" {
		return r.opRun.what()
	}
	return r.opRun.what() + " of " + r.kind
}

// registerable are the types of the library that implement the interface of metrics
// of a registry.
func (P *Program) registerable() []types.Type {
	it := P.named(modPath, "PCPMetric")
	pkg := P.named(modPath, "PCPClient").Obj().Pkg()
	var r []types.Type
	if it == nil {
		return nil
	}
	for _, n := range pkg.Scope().Names() {
		tn, ok := pkg.Scope().Lookup(n).(*types.TypeName)
		if !ok || tn.IsAlias() || types.IsInterface(tn.Type()) {
			continue
		}
		for _, T := range []types.Type{tn.Type(), types.NewPointer(tn.Type())} {
			if types.Implements(T, it.Underlying().(*types.Interface)) {
				r = append(r, T)
			}
		}
	}
	return r
}

// writtenType: starting a client writes metrics of the type, which C02 decides.
func writtenType(T types.Type) bool {
	n := namedOf(T)
	return n != nil && isPtr(T) && isMetricType(n.Obj().Name())
}

// registrations are the operations that register a metric or an instance domain.
var registrations = map[string]map[string]string{
	"PCPRegistry": {"AddInstanceDomain": "indom", "AddInstanceDomainByName": "indom", "AddMetric": "metric", "AddMetricByString": "metric"},
	"PCPClient": {"Register": "metric", "RegisterIndom": "indom", "RegisterString": "metric",
		"MustRegister": "metric", "MustRegisterIndom": "indom", "MustRegisterString": "metric"},
}

// eachRegOp evaluates the operations that register something.
func eachRegOp(P *Program, R *Report, f func(r *regRun)) {
	var wg sync.WaitGroup
	sem := make(chan bool, runtime.NumCPU())
	var mu sync.Mutex
	n := 0
	run := func(ow, name, kind string, T types.Type, unknown bool) {
		wg.Add(1)
		go func() {
			sem <- true
			defer func() { <-sem; wg.Done() }()
			protect(R, "(*"+ow+")."+name+" of "+kind, func() {
				fn := P.exportedMethods(modPath, ow)[name]
				if fn == nil {
					R.Undecided("(*"+ow+")."+name, "the method does not exist")
					return
				}
				r := &regRun{opRun: newOp(P, R, ow, name, fn), kind: kind}
				r.opaqueCtors()
				W := r.W
				r.r = r.recv
				if ow == "PCPClient" {
					l := W.field(r.recv, ow, "r")
					if l == nil {
						R.Undecided(r.what(), "no field PCPClient.r")
						return
					}
					r.r = W.Read(l, True)
				}
				if kind != "" {
					for i := range r.args {
						if !isRegIface(P, r.args[i].typ) {
							continue
						}
						switch {
						case T != nil:
							r.arg = W.Sym("x", T)
							r.args[i] = W.Iface(T, r.arg)
						case unknown:
							a := r.args[i]
							W.typeHook = func(t *Term, U types.Type) (bool, bool) {
								if t != a {
									return W.holds(t, U)
								}
								return types.IsInterface(U), true
							}
						}
					}
				}
				if !r.prepare() {
					return
				}
				r.evaluate()
				mu.Lock()
				n++
				mu.Unlock()
				f(r)
			})
		}()
	}
	for _, ow := range []string{"PCPRegistry", "PCPClient"} {
		ms := P.exportedMethods(modPath, ow)
		names := map[string]bool{}
		for m := range registrations[ow] {
			names[m] = true
		}
		for m := range ms {
			if ow != "PCPClient" || !strings.HasSuffix(m, "Start") && !strings.HasSuffix(m, "Stop") {
				names[m] = true
			}
		}
		for _, m := range sortedKeys(names) {
			fn := ms[m]
			which := ""
			if fn != nil {
				for i := 0; i < fn.Signature.Params().Len(); i++ {
					if t := fn.Signature.Params().At(i).Type(); isRegIface(P, t) {
						which = namedOf(t).Obj().Name()
					}
				}
			}
			switch which {
			case "":
				run(ow, m, "", nil, false)
			case "InstanceDomain":
				run(ow, m, "*PCPInstanceDomain", types.NewPointer(P.named(modPath, "PCPInstanceDomain")), false)
				run(ow, m, "any other type", nil, true)
			default:
				for _, T := range P.registerable() {
					run(ow, m, types.TypeString(T, func(*types.Package) string { return "" }), T, false)
				}
				run(ow, m, "any other type", nil, true)
			}
		}
	}
	wg.Wait()
	R.Count("ways to register", n)
	R.AtLeast("ways to register", 40)
}

func isRegIface(P *Program, t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != modPath {
		return false
	}
	return n.Obj().Name() == "Metric" || n.Obj().Name() == "PCPMetric" || n.Obj().Name() == "InstanceDomain"
}

// prepare finds the maps of the registry, and makes every acquisition of its lock
// after the first one on a path forget what is known of it.
func (r *regRun) prepare() bool {
	W := r.W
	E := W.Engine
	rt := r.P.named(modPath, "PCPRegistry")
	st := rt.Underlying().(*types.Struct)
	ml, dl := W.field(r.r, "PCPRegistry", "metrics"), W.field(r.r, "PCPRegistry", "instanceDomains")
	if ml == nil || dl == nil {
		r.R.Undecided(r.what(), "the maps of the registry are not found")
		return false
	}
	r.M, r.D = E.Read(ml, True), E.Read(dl, True)
	r.mEl, r.dEl = W.elemOf("PCPRegistry", "metrics"), W.elemOf("PCPRegistry", "instanceDomains")
	E.onLock = func(loc *Term, g B) {
		if E.quiet > 0 || loc.op != "fieldaddr" || loc.args[0] != r.r {
			return
		}
		prev := False
		for _, a := range r.acq {
			prev = E.bdd.Or(prev, a.g)
		}
		if h := E.bdd.And(prev, g); h != False && E.feasible(h) {
			ver := fmt.Sprintf("lock%d", len(r.acq))
			E.otherVer[ver] = true
			hv := func(loc *Term) {
				E.mem = append(E.mem, &memEntry{kind: "havoc", g: h, loc: loc, cls: class(loc), root: locRoot(loc), ver: ver})
			}
			for i := 0; i < st.NumFields(); i++ {
				if !isMap(st.Field(i).Type()) {
					if _, isS := st.Field(i).Type().Underlying().(*types.Struct); !isS {
						hv(E.FieldAddr(r.r, rt, i))
					}
					continue
				}
				m := E.Read(E.FieldAddr(r.r, rt, i), True)
				el := st.Field(i).Type().Underlying().(*types.Map).Elem()
				k := E.Sym("k", types.Typ[types.String])
				hv(E.MapAddr(m, k, el))
				hv(E.HasAddr(m, k, el))
				hv(E.MlenAddr(m))
			}
		}
		r.acq = append(r.acq, &regAcq{g: g, at: len(E.mem), ev: len(E.events)})
	}
	return true
}

// evaluate runs the operation and finds what it changes, and when.
func (r *regRun) evaluate() {
	E := r.W.Engine
	r.run(True)
	E.onLock = nil
	for _, e := range r.ev {
		if r.mutates(e) {
			r.ins = append(r.ins, e)
		}
	}
	later := False
	for i := len(r.acq) - 1; i >= 0; i-- {
		a := r.acq[i]
		g := E.bdd.And(a.g, E.bdd.Not(later))
		later = E.bdd.Or(later, a.g)
		if !E.never(g) {
			r.last = append(r.last, &regPart{g: g, from: a.at, ev: a.ev})
		}
	}
	if g := E.bdd.Not(later); !E.never(g) {
		r.last = append(r.last, &regPart{g: g, from: r.m0})
	}
}

// mutates: the event changes the state of the registry.
func (r *regRun) mutates(e *Event) bool {
	E := r.W.Engine
	if e.g == False || E.never(e.g) {
		return false
	}
	switch e.kind {
	case "store":
		for _, l := range leavesOf(e.loc) {
			if l.t.op == "fieldaddr" && strings.HasPrefix(l.t.aux, modPath+".PCPRegistry#") && !isFresh(l.t) {
				return true
			}
		}
	case "mapstore", "mapdelete":
		for _, l := range leavesOf(e.loc) {
			if l.t == r.M || l.t == r.D {
				return true
			}
		}
	}
	return false
}

// atMem evaluates something in the memory of an earlier time.
func (E *Engine) atMem(at int, f func()) {
	m := E.mem
	at = min(at, len(m))
	E.mem = m[:at:at]
	defer func() { E.mem = m }()
	f()
}

// atEvent evaluates something in the memory in which an event happens.
func (E *Engine) atEvent(e *Event, f func()) {
	m := E.mem
	E.mem = e.mem
	defer func() { E.mem = m }()
	f()
}

// readBefore is the value of a location when an event happens.
func (E *Engine) readBefore(loc *Term, g B, e *Event) (r *Term) {
	E.atEvent(e, func() { r = E.Read(loc, g) })
	return r
}

// added is a metric or an instance domain that is inserted.
type added struct {
	e   *Event
	g   B
	key *Term
	val *Term // a pointer to the object
	T   types.Type
}

// insertions into one of the maps, in the runs of a part.
func (r *regRun) insertions(m *Term, g B) []*added {
	E := r.W.Engine
	var out []*added
	for _, e := range r.ins {
		if e.kind != "mapstore" {
			continue
		}
		for _, l := range leavesOf(e.loc) {
			if l.t != m {
				continue
			}
			for _, v := range leavesOf(e.val) {
				vg := E.bdd.AndAll(g, e.g, l.g, v.g)
				if E.never(vg) {
					continue
				}
				a := &added{e: e, g: vg, key: e.args[0], val: v.t, T: v.t.typ}
				if v.t.op == "iface" {
					a.val, a.T = v.t.args[0], v.t.typ
				}
				for _, w := range leavesOf(a.val) {
					if wg := E.bdd.And(vg, w.g); !E.never(wg) {
						b := *a
						b.g, b.val = wg, w.t
						out = append(out, &b)
					}
				}
			}
		}
	}
	return out
}

// attr evaluates a method without arguments of an object.
func (r *regRun) attr(a *added, name string) *Term {
	T := a.T
	if T == nil || types.IsInterface(T) {
		r.R.Undecided(r.what(), "%s, whose type is not known, is registered", a.val)
		return nil
	}
	fn := r.P.ssa.LookupMethod(T, r.P.named(modPath, "PCPClient").Obj().Pkg(), name)
	if fn == nil {
		r.R.Undecided(r.what(), "no method %s of %s", name, T)
		return nil
	}
	E := r.W.Engine
	st := E.saveState()
	n := len(E.undecided)
	rs, rg := E.CallFn(fn, []*Term{a.val}, nil, a.g, nil, nil)
	E.restoreState(st)
	if len(E.undecided) > n || len(rs) != 1 || !E.implies(a.g, rg) {
		r.R.Undecided(r.what(), "%s cannot be evaluated", fn)
		return nil
	}
	return E.Simp(rs[0], a.g)
}

// count evaluates a count of the registry in the memory of a time, with the flag for
// version 2 of the format set to v.
func (r *regRun) count(name string, at int, v bool, g B) *Term {
	E := r.W.Engine
	var t *Term
	E.atMem(at, func() {
		fl := r.W.field(r.r, "PCPRegistry", "version2")
		if fl == nil {
			r.R.Undecided(r.what(), "no field PCPRegistry.version2")
			return
		}
		f := False
		if v {
			f = True
		}
		E.Store(fl, E.Bool(f), True)
		rs, err := r.W.pure("(*PCPRegistry)."+name, g, r.r)
		if err != nil {
			r.R.Undecided(r.what(), "%v", err)
			return
		}
		t = E.Simp(rs[0], g)
	})
	return t
}

// nonEmpty is 1 if a string is not empty.
func (r *regRun) nonEmpty(s *Term, g B) *Term {
	E := r.W.Engine
	return E.Ite(E.cmpInt("==", E.Len(s), E.Int(0), g), E.Int(0), E.Int(1))
}

// numInstances of an instance domain.
func (r *regRun) numInstances(d *Term, g B) *Term {
	E := r.W.Engine
	l := r.W.field(d, "PCPInstanceDomain", "instances")
	if l == nil {
		r.R.Undecided(r.what(), "no field PCPInstanceDomain.instances")
		return E.Int(0)
	}
	return E.Read(E.MlenAddr(E.Read(l, g)), g)
}

// contribution of what is inserted to each of the counts.
func (r *regRun) contribution(a *added, metric, v2 bool) map[string]*Term {
	E := r.W.Engine
	c := map[string]*Term{"MetricCount": E.Int(0), "ValuesCount": E.Int(0), "InstanceDomainCount": E.Int(0), "InstanceCount": E.Int(0), "StringCount": E.Int(0)}
	plus := func(n string, t *Term) { c[n] = E.Add(c[n], t, k64) }
	if !metric {
		n := r.numInstances(a.val, a.g)
		plus("InstanceDomainCount", E.Int(1))
		plus("InstanceCount", n)
		for _, f := range []string{"shortDescription", "longDescription"} {
			l := r.W.field(a.val, "PCPInstanceDomain", f)
			if l == nil {
				r.R.Undecided(r.what(), "no field PCPInstanceDomain.%s", f)
				return nil
			}
			plus("StringCount", r.nonEmpty(E.Read(l, a.g), a.g))
		}
		if v2 {
			plus("StringCount", n)
		}
		return c
	}
	d, t, sd, ld := r.attr(a, "Indom"), r.attr(a, "Type"), r.attr(a, "ShortDescription"), r.attr(a, "LongDescription")
	sc := r.P.constVal(modPath, "StringType")
	if d == nil || t == nil || sd == nil || ld == nil || sc == nil {
		return nil
	}
	vals := E.Int(1)
	var parts []Leaf
	for _, l := range leavesOf(d) {
		n := E.Int(1)
		if l.t.op != "nil" {
			isNil := E.Eq(l.t, E.Nil(), a.g)
			n = E.Ite(isNil, E.Int(1), r.numInstances(l.t, E.bdd.And(a.g, l.g)))
		}
		parts = append(parts, Leaf{l.g, n})
	}
	vals = E.Phi(parts)
	plus("MetricCount", E.Int(1))
	plus("ValuesCount", vals)
	plus("StringCount", E.Ite(E.Eq(t, E.BigInt(sc), a.g), vals, E.Int(0)))
	plus("StringCount", r.nonEmpty(sd, a.g))
	plus("StringCount", r.nonEmpty(ld, a.g))
	if v2 {
		plus("StringCount", E.Int(1))
	}
	return c
}

func (r *regRun) isRegistration() string { return registrations[r.owner][r.name] }

var counts = []string{"MetricCount", "ValuesCount", "InstanceDomainCount", "InstanceCount", "StringCount"}

// countsC04: every registration changes each count by what it adds.
func (r *regRun) countsC04() {
	E := r.W.Engine
	const rule = "a registration increases every count by the number of records of what it adds"
	for _, p := range r.last {
		g := E.bdd.And(p.g, r.ok)
		if E.never(g) {
			continue
		}
		ms, ds := r.insertions(r.M, g), r.insertions(r.D, g)
		for _, v2 := range []bool{false, true} {
			sum := map[string]*Term{}
			for _, n := range counts {
				sum[n] = E.Int(0)
			}
			for i, a := range append(append([]*added(nil), ms...), ds...) {
				c := r.contribution(a, i < len(ms), v2)
				if c == nil {
					return
				}
				for _, n := range counts {
					sum[n] = E.Add(sum[n], E.Ite(a.g, c[n], E.Int(0)), k64)
				}
			}
			for _, n := range counts {
				b, a := r.count(n, p.from, v2, g), r.count(n, len(E.mem), v2, g)
				if a == nil || b == nil {
					return
				}
				d := E.Simp(E.Sub(a, b, k64), g)
				want := E.Simp(sum[n], g)
				ok := a == E.Add(b, want, k64) || E.implies(g, E.Eq(d, want, g))
				r.R.Ob(rule, r.what()+": "+n, ok, r.pos(), "it changes by %s, and should by %s (version 2: %v)", d, want, v2)
				r.R.Count("changes of counts", 1)
			}
		}
	}
}

// unchanged: an operation that adds nothing changes no count.
func (r *regRun) otherCounts() {
	E := r.W.Engine
	const rule = "what registers nothing changes no count"
	for _, p := range r.last {
		g := E.bdd.And(p.g, E.bdd.Not(r.ok))
		for _, e := range r.ins {
			if x := E.bdd.And(g, e.g); !E.never(x) {
				r.R.Ob(rule, r.what(), false, r.P.pos(e.pos), "it fails after it changed the registry, if %s", E.BStr(x))
			}
		}
		r.R.Ob(rule, r.what(), true, r.pos(), "")
	}
}

// versions: version 2 has a string for the name of each metric and instance.
func stringsOfVersions(P *Program, R *Report) {
	what := "(*PCPRegistry).StringCount"
	fn := P.exportedMethods(modPath, "PCPRegistry")["StringCount"]
	if fn == nil {
		R.Undecided(what, "the method does not exist")
		return
	}
	r := &regRun{opRun: newOp(P, R, "PCPRegistry", "StringCount", fn)}
	r.r = r.recv
	E := r.W.Engine
	a, b := r.count("StringCount", 0, true, True), r.count("StringCount", 0, false, True)
	m, i := r.count("MetricCount", 0, true, True), r.count("InstanceCount", 0, true, True)
	if a == nil || b == nil || m == nil || i == nil {
		return
	}
	d, want := E.Sub(a, b, k64), E.Add(m, i, k64)
	R.Ob("version 2 has one string more for each metric and each instance", what, E.implies(True, E.Eq(d, want, True)), P.pos(fn.Pos()), "it has %s more and should have %s", d, want)
	for _, n := range []string{"MetricCount", "ValuesCount", "InstanceDomainCount", "InstanceCount"} {
		x, y := r.count(n, 0, true, True), r.count(n, 0, false, True)
		if x != nil && y != nil {
			R.Ob("the other counts do not depend on the version", n, E.implies(True, E.Eq(x, y, True)), P.pos(fn.Pos()), "%s and %s", x, y)
		}
	}
	R.Ob("a count is the number of things in the registry", "MetricCount", E.implies(True, E.Eq(m, E.Read(E.MlenAddr(E.Read(r.W.field(r.r, "PCPRegistry", "metrics"), True)), True), True)), P.pos(fn.Pos()), "it is %s", m)
	if n := r.count("InstanceDomainCount", 0, true, True); n != nil {
		R.Ob("a count is the number of things in the registry", "InstanceDomainCount", E.implies(True, E.Eq(n, E.Read(E.MlenAddr(E.Read(r.W.field(r.r, "PCPRegistry", "instanceDomains"), True)), True), True)), P.pos(fn.Pos()), "it is %s", n)
	}
}

// newRegistries: a new registry has nothing and counts nothing.
func newRegistries(P *Program, R *Report) {
	const rule = "a new registry is empty, and so are its counts"
	rt := types.NewPointer(P.named(modPath, "PCPRegistry"))
	n := 0
	for _, fn := range P.funcs {
		sig := fn.Signature
		if fn.Blocks == nil || fn.Parent() != nil || sig.Recv() != nil || sig.Results().Len() == 0 || !types.Identical(sig.Results().At(0).Type(), rt) || fn.Pkg == nil || fn.Pkg.Pkg.Path() != modPath {
			continue
		}
		n++
		W := newWorld(P)
		E := W.Engine
		var args []*Term
		for i := 0; i < sig.Params().Len(); i++ {
			args = append(args, E.Sym(fmt.Sprint("a", i), sig.Params().At(i).Type()))
		}
		rs, rg := E.CallFn(fn, args, nil, True, nil, nil)
		for _, u := range E.undecided {
			R.Undecided(fn.Name(), "%s", u)
		}
		if E.never(rg) {
			continue
		}
		r := &regRun{opRun: &opRun{W: W, R: R, P: P, owner: "PCPRegistry", name: fn.Name(), fn: fn}, r: rs[0]}
		for _, c := range counts {
			for _, v2 := range []bool{false, true} {
				if t := r.count(c, len(E.mem), v2, rg); t != nil {
					R.Ob(rule, fn.Name()+": "+c, E.implies(rg, E.Eq(t, E.Int(0), rg)), P.pos(fn.Pos()), "it is %s", t)
				}
			}
		}
		v := E.Formula(E.Read(W.field(rs[0], "PCPRegistry", "version2"), rg))
		R.Ob("a new registry needs version 1 only", fn.Name(), E.never(E.bdd.And(rg, v)), P.pos(fn.Pos()), "it starts with version 2")
	}
	R.Count("ways to make a registry", n)
	R.AtLeast("ways to make a registry", 1)
}

// writers: nothing else in the library changes what the counts depend on.
func registryWriters(P *Program, R *Report, seen map[*ssa.Function]bool) {
	const rule = "the state of a registry is only changed by what registers, and by starting and stopping"
	for _, fn := range P.funcs {
		if fn.Blocks == nil {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var to ssa.Value
				switch x := in.(type) {
				case *ssa.Store:
					to = x.Addr
				case *ssa.MapUpdate:
					to = x.Map
				case *ssa.Call:
					if bi, ok := x.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "delete" || bi.Name() == "clear") {
						to = x.Call.Args[0]
					}
				}
				f, obj := registryField(to)
				if f == "" || P.freshObject(obj) {
					continue
				}
				top := fn
				for top.Parent() != nil {
					top = top.Parent()
				}
				R.Ob(rule, top.RelString(nil)+" changes "+f, seen[top], P.pos(in.Pos()), "no registration that was evaluated reaches it")
				R.Count("changes of the state of registries", 1)
			}
		}
	}
}

// registryField names the field of a registry that an address is of, or a map is in.
func registryField(v ssa.Value) (string, ssa.Value) {
	for i := 0; i < 20 && v != nil; i++ {
		switch x := v.(type) {
		case *ssa.UnOp:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		case *ssa.FieldAddr:
			if n := namedOf(x.X.Type()); n != nil && n.Obj().Name() == "PCPRegistry" && n.Obj().Pkg().Path() == modPath {
				return n.Underlying().(*types.Struct).Field(x.Field).Name(), x.X
			}
			v = x.X
		default:
			return "", nil
		}
	}
	return "", nil
}

func (P *Program) freshObject(v ssa.Value) bool {
	return P.fresh(v, map[ssa.Value]bool{})
}

func (P *Program) fresh(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Alloc:
		return true
	case *ssa.FieldAddr:
		return P.fresh(x.X, seen) // a struct in a new one
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !P.fresh(e, seen) {
				return false
			}
		}
		return true
	case *ssa.Const:
		return x.IsNil()
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return P.freshResult(c, x.Index, seen)
		}
	case *ssa.Call:
		return P.freshResult(x, 0, seen)
	case *ssa.Parameter:
		// of a helper that is only called with new objects
		fn := x.Parent()
		o := fn.Object()
		if o == nil || o.Exported() || fn.Pkg == nil {
			return false
		}
		k := -1
		for i, p := range fn.Params {
			if p == x {
				k = i
			}
		}
		n := 0
		for _, f := range P.funcs {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					c, isCall := in.(ssa.CallInstruction)
					if isCall && c.Common().StaticCallee() == fn {
						n++
						if _, ok := in.(*ssa.Call); !ok || !P.fresh(c.Common().Args[k], seen) {
							return false
						}
						continue
					}
					// its value is used
					for _, op := range in.Operands(nil) {
						if *op == ssa.Value(fn) {
							return false
						}
					}
				}
			}
		}
		return n > 0
	}
	return false
}

// freshResult: a function of the package returns an object it made.
func (P *Program) freshResult(c *ssa.Call, i int, seen map[ssa.Value]bool) bool {
	fn := c.Common().StaticCallee()
	if fn == nil || fn.Blocks == nil || fn.Object() == nil || fn.Object().Exported() || fn.Pkg == nil || fn.Pkg.Pkg.Path() != modPath {
		return false
	}
	n := 0
	for _, b := range fn.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			n++
			if i >= len(r.Results) || !P.fresh(r.Results[i], seen) {
				return false
			}
		}
	}
	return n > 0
}

// consumption of records by starting a client.
func (s *startRun) consumption() {
	const rule = "for everything that is registered as many records of each kind are allocated as it counts for"
	E := s.Engine
	// the loops over what is registered
	M, _ := s.mapField(s.r, "PCPRegistry", "metrics")
	D, _ := s.mapField(s.r, "PCPRegistry", "instanceDomains")
	if M == nil || D == nil {
		return
	}
	mt, dt := M.typ.Underlying().(*types.Map), D.typ.Underlying().(*types.Map)
	mLen, dLen := E.Read(E.MlenAddr(M), s.g), E.Read(E.MlenAddr(D), s.g)
	ms, ds := map[string]*Term{}, map[string]*Term{}
	for _, k := range sections {
		ms[k], ds[k] = E.Int(0), E.Int(0)
	}
	normal := func(t *Term, l *Loop) *Term {
		// all loops over the same map, at one iteration
		n := "metric"
		if l.trip == dLen {
			n = "indom"
		}
		return E.Subst(t, map[*Term]*Term{l.it: E.Sym("i-"+n, tInt)})
	}
	mi, di := E.Sym("i-metric", tInt), E.Sym("i-indom", tInt)
	for _, sl := range s.slots {
		if sl.kind == "" || s.never(sl.rcv.g) {
			continue
		}
		lps := sl.rcv.loops
		ok := len(lps) > 0 && (lps[0].trip == mLen || lps[0].trip == dLen) && mLen != dLen
		if !s.ob(rule, s.at(sl.rcv)+" of "+sl.kind+"s is for something that is registered", ok, sl.rcv, "it is in no loop over what is registered") {
			continue
		}
		n := sl.n
		g := sl.rcv.g
		good := true
		for i := len(lps) - 1; i > 0; i-- {
			l := lps[i]
			if l.trip == nil || s.contains(l.trip, l.it) {
				good = false
				break
			}
			in := E.bdd.And(E.cmpInt("<=", E.Int(0), l.it, True), E.cmpInt("<", l.it, l.trip, True))
			out := E.without(g, l.it)
			if !s.implies(E.bdd.And(out, in), g) || s.contains(n, l.it) {
				good = false
				break
			}
			g = out
			n = E.Mul(n, l.trip, k64)
		}
		if !s.ob(rule, s.at(sl.rcv)+" of "+sl.kind+"s is made in every iteration", good, sl.rcv, "it is not") {
			continue
		}
		// not earlier iterations' errors: those do not happen where it succeeds
		t := normal(E.Ite(g, n, E.Int(0)), lps[0])
		if lps[0].trip == mLen {
			ms[sl.kind] = E.Add(ms[sl.kind], t, k64)
		} else {
			ds[sl.kind] = E.Add(ds[sl.kind], t, k64)
		}
	}
	one := func(of string, n, it *Term, got map[string]*Term, g B, want map[string]*Term) {
		g = E.bdd.AndAll(g, s.g, E.cmpInt("<=", E.Int(0), it, True), E.cmpInt("<", it, n, True))
		if s.never(g) {
			return
		}
		for _, k := range sections {
			if !s.has(k) || k == "instance" && !s.sc.insts {
				continue
			}
			w := want[k]
			if w == nil {
				w = E.Int(0)
			}
			a, b := s.Simp(got[k], g), s.Simp(w, g)
			s.ob(rule, k+"s of "+of, a == b || s.implies(g, E.Eq(a, b, g)), nil, "%s are allocated, it counts for %s", a, b)
			s.R.Count("kinds of records compared", 1)
		}
	}
	some := func(t *Term) *Term { return E.Ite(E.cmpInt("==", E.Len(t), E.Int(0), s.g), E.Int(0), E.Int(1)) }
	numI := func(d *Term) *Term {
		I, _ := s.mapField(d, "PCPInstanceDomain", "instances")
		if I == nil {
			return E.Int(0)
		}
		return E.Read(E.MlenAddr(I), s.g)
	}
	if s.sc.metrics {
		k := E.Key(M, mt, "", mi, types.Typ[types.String])
		m := s.Tassert(s.Read(s.MapAddr(M, k, mt.Elem()), s.g), types.NewPointer(s.P.named(modPath, s.sc.mtype)))
		o := &object{m: m}
		sd, ld := s.method(m, m.typ, "ShortDescription"), s.method(m, m.typ, "LongDescription")
		vals, inv := E.Int(1), True
		if s.isInstanceMetric() {
			d := s.method(m, m.typ, "Indom")
			if d == nil {
				return
			}
			name := s.method(d, d.typ, "Name")
			if name == nil {
				return
			}
			inv = s.Formula(s.Read(s.HasAddr(D, name, dt.Elem()), s.g))
			vals = numI(d)
		}
		if sd == nil || ld == nil {
			return
		}
		str := E.Add(some(sd), some(ld), k64)
		str = E.Add(str, E.Ite(s.isString(o), vals, E.Int(0)), k64)
		if s.sc.v2 {
			str = E.Add(str, E.Int(1), k64)
		}
		one("a "+s.sc.mtype, mLen, mi, ms, inv, map[string]*Term{"metric": E.Int(1), "value": vals, "string": str})
	}
	if s.sc.indoms {
		k := E.Key(D, dt, "", di, types.Typ[types.String])
		d := s.Read(s.MapAddr(D, k, dt.Elem()), s.g)
		sd, ld := s.readField(d, "PCPInstanceDomain", "shortDescription"), s.readField(d, "PCPInstanceDomain", "longDescription")
		if sd == nil || ld == nil {
			return
		}
		str := E.Add(some(sd), some(ld), k64)
		if s.sc.v2 {
			str = E.Add(str, numI(d), k64)
		}
		one("an instance domain", dLen, di, ds, True, map[string]*Term{"indom": E.Int(1), "instance": numI(d), "string": str})
	}
}

// countsKept: starting or stopping changes no count.
func countsKept(k *clientRun, R *Report) {
	E := k.Engine
	r := &regRun{opRun: &opRun{W: k.World, R: R, P: k.P, owner: "PCPClient", name: k.name, fn: k.fn}, r: k.r}
	for _, n := range counts {
		a, b := r.count(n, k.m0, k.sc.v2, k.clientWorld.g), r.count(n, len(E.mem), k.sc.v2, k.clientWorld.g)
		if a != nil && b != nil {
			R.Ob("starting and stopping change no count", k.what()+": "+n, k.implies(k.clientWorld.g, E.Eq(a, b, k.clientWorld.g)), k.P.pos(k.fn.Pos()), "it is %s before and %s after", a, b)
		}
	}
}

// without leaves out what a condition says of a term.
func (E *Engine) without(g B, t *Term) B {
	for _, v := range E.bdd.Support(g) {
		a := E.atoms[v]
		for _, x := range append([]*Term{a.x, a.y}, a.lin.at...) {
			if x != nil && E.contains(x, t) {
				g = E.bdd.Exists(g, v)
				break
			}
		}
	}
	return g
}

func checkC04(P *Program, R *Report) {
	seen := map[*ssa.Function]bool{}
	var mu sync.Mutex
	eachRegOp(P, R, func(r *regRun) {
		r.countsC04()
		r.otherCounts()
		if r.isRegistration() != "" {
			mu.Lock()
			for f := range r.W.funcs {
				seen[f] = true
			}
			mu.Unlock()
		}
	})
	protect(R, "the versions", func() { stringsOfVersions(P, R) })
	protect(R, "new registries", func() { newRegistries(P, R) })
	eachStart(P, R, func(s *startRun) {
		if s.header() {
			s.kinds()
			s.consumption()
		}
		countsKept(s.clientRun, R)
		mu.Lock()
		for f := range s.funcs {
			seen[f] = true
		}
		mu.Unlock()
	})
	eachClientRun(P, R, "Stop", startScenarios(), nil, func(k *clientRun) {
		countsKept(k, R)
		mu.Lock()
		for f := range k.funcs {
			seen[f] = true
		}
		mu.Unlock()
	})
	registryWriters(P, R, seen)
	R.AtLeast("changes of counts", 400)
	R.AtLeast("kinds of records compared", 100)
	R.AtLeast("changes of the state of registries", 5)
}

func init() {
	checks["C04"] = check{"every registration, evaluated for all types of metrics in any state of the registry, increases each count by the records of what it inserts into the registry; starting a client allocates in every iteration over what is registered exactly these; nothing else changes the state of a registry", checkC04}
}
