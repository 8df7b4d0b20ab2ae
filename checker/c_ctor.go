package main

import (
	"fmt"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C18"] = check{"Every exported constructor of metrics and instance domains is evaluated for all arguments: when it succeeds the conditions on the arguments hold, and what the accessors of the new object then return are the arguments.", checkC18}
}

// ctor is an exported constructor, evaluated for all arguments.
type ctor struct {
	*opRun
	c   *call
	obj *Term
	own string
}

// constructors gives the exported functions that make metrics or instance domains.
func (P *Program) constructors() map[string]*ssa.Function {
	r := map[string]*ssa.Function{}
	pk := P.pkg(modPath)
	for _, n := range pk.Pkg.Scope().Names() {
		f, ok := pk.Members[n].(*ssa.Function)
		if !ok || !f.Object().Exported() {
			continue
		}
		res := f.Signature.Results()
		if res.Len() == 0 {
			continue
		}
		if o := ctorOwner(res.At(0).Type()); o != "" {
			r[n] = f
		}
	}
	return r
}

func ctorOwner(t types.Type) string {
	p, ok := t.(*types.Pointer)
	if !ok {
		return ""
	}
	n, ok := p.Elem().(*types.Named)
	if !ok || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != modPath {
		return ""
	}
	for _, m := range append([]string{"PCPInstanceDomain"}, metricTypes...) {
		if n.Obj().Name() == m {
			return m
		}
	}
	return ""
}

// newCtorRun evaluates a constructor.
func newCtorRun(P *Program, R *Report, name string, fn *ssa.Function) *ctor {
	W := newWorld(P)
	o := &opRun{W: W, R: R, P: P, owner: ctorOwner(fn.Signature.Results().At(0).Type()), name: name, fn: fn}
	k := &ctor{opRun: o, own: o.owner}
	k.c = newCtor(o, fn)
	k.ok, k.fail, k.ev = k.c.ok, k.c.fail, k.c.ev
	k.obj = W.Simp(k.c.rs[0], k.c.ok)
	o.recv = k.obj
	return k
}

// arg gives the argument whose type a function accepts.
func (k *ctor) arg(is func(t types.Type, variadic bool) bool) *Term {
	ps := k.fn.Signature.Params()
	for i := 0; i < ps.Len(); i++ {
		if is(ps.At(i).Type(), k.fn.Signature.Variadic() && i == ps.Len()-1) {
			return k.args[i]
		}
	}
	return nil
}

func (k *ctor) argNamed(n string) *Term {
	return k.arg(func(t types.Type, _ bool) bool {
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		x, ok := t.(*types.Named)
		return ok && x.Obj().Name() == n
	})
}

// get calls an accessor of the new object.
func (k *ctor) get(m string, g B, args ...*Term) (*Term, B) {
	ms := k.P.exportedMethods(modPath, k.own)
	if ms[m] == nil {
		k.R.Undecided("(*"+k.own+")."+m, "the method does not exist")
		return nil, False
	}
	r := k.step("then "+m+":", m, ms[m], g, args...)
	return r.rs[0], r.ok
}

// is: an accessor of the new object returns a value.
func (k *ctor) is(m string, want *Term) {
	E := k.W.Engine
	got, ok := k.get(m, k.c.ok)
	if got == nil {
		return
	}
	bad := E.bdd.And(k.c.ok, E.bdd.Not(E.bdd.And(ok, E.sameVal(got, want, k.c.ok))))
	k.R.Ob("the object has what its constructor was given", k.name+", "+m, E.never(bad), k.P.pos(k.fn.Pos()), "it is %s and should be %s", got, want)
	k.R.Count("attributes", 1)
}

// descs: the descriptions of an object.
func (k *ctor) descs(obj *Term, typ string) {
	E := k.W.Engine
	desc := k.arg(func(t types.Type, v bool) bool { return v })
	if desc == nil {
		k.R.Undecided(k.name, "it takes no descriptions")
		return
	}
	n := E.Len(desc)
	str := types.Typ[types.String]
	k.R.Ob("there are at most two descriptions", k.name, E.never(E.bdd.And(k.c.ok, E.cmpInt("<", E.Int(2), n, True))), k.pos(), "it succeeds with more")
	for i, f := range []string{"shortDescription", "longDescription"} {
		has := E.cmpInt("<", E.Int(int64(i)), n, True)
		want := E.Phi([]Leaf{{has, E.Read(E.IndexAddr(desc, E.Int(int64(i)), str), has)}, {E.bdd.Not(has), E.Str("")}})
		l := k.W.field(obj, typ, f)
		if l == nil {
			k.R.Undecided(k.name, "the %s is not found", f)
			continue
		}
		got := E.Read(l, k.c.ok)
		k.R.Ob("the object has what its constructor was given", k.name+", "+f, E.never(E.bdd.And(k.c.ok, E.bdd.Not(E.sameVal(got, want, k.c.ok)))), k.pos(), "it is %s and should be %s", got, want)
		k.R.Count("attributes", 1)
	}
}

// compatible: IsCompatible of a type accepts a value (C09 decides what that is).
func (k *ctor) compatible(t, v *Term, g B) B {
	E := k.W.Engine
	fn := k.P.fn(modPath, "(MetricType).IsCompatible")
	if fn == nil {
		k.R.Undecided(k.name, "IsCompatible does not exist")
		return False
	}
	st := k.W.saveState()
	rs, rg := E.CallFn(fn, []*Term{t, v}, nil, g, nil, nil)
	k.W.restoreState(st)
	return E.bdd.And(rg, E.Formula(rs[0]))
}

// converted: a value is another one, converted to the Go type of a metric type.
func (k *ctor) converted(what string, t, in, got *Term, g B) {
	E := k.W.Engine
	for _, mt := range tMetricTypes {
		c := k.P.constVal(modPath, mt)
		if c == nil {
			k.R.Undecided(k.name, "%s does not exist", mt)
			continue
		}
		gt := goTypeOf(mt)
		tg := E.bdd.And(g, E.Eq(t, E.BigInt(c), True))
		for _, T := range []types.Type{gt, types.Typ[types.Int], types.Typ[types.Uint], types.Typ[types.Float64]} {
			is := E.bdd.And(tg, E.IsType(in, T))
			if E.never(is) {
				continue
			}
			want := E.Iface(gt, E.Conv(E.Tassert(in, T), gt, is))
			gs := E.Simp(got, is)
			k.R.Ob("the initial value is the one that was given", fmt.Sprintf("%s, %s of a %s from a %s", k.name, what, mt, typeStrShort(T)),
				E.never(E.bdd.And(is, E.bdd.Not(E.sameVal(gs, want, is)))), k.pos(), "it is %s and should be %s", gs, want)
			k.R.Count("initial values", 1)
		}
	}
}

// ofKind gives the type and semantics of the metrics of a kind.
var ofKind = map[string][2]string{
	"PCPCounter": {"Int64Type", "CounterSemantics"}, "PCPCounterVector": {"Int64Type", "CounterSemantics"},
	"PCPGauge": {"DoubleType", "InstantSemantics"}, "PCPGaugeVector": {"DoubleType", "InstantSemantics"},
	"PCPTimer": {"DoubleType", "DiscreteSemantics"}, "PCPHistogram": {"DoubleType", "InstantSemantics"},
}

func isStrSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isString(s.Elem())
}

func isStrMap(t types.Type) bool {
	m, ok := t.Underlying().(*types.Map)
	return ok && isString(m.Key())
}

func checkC18(P *Program, R *Report) {
	cs := P.constructors()
	for _, name := range sortedKeys(cs) {
		protect(R, name, func() { ctorC18(newCtorRun(P, R, name, cs[name])) })
		R.Count("constructors", 1)
	}
	protect(R, "the instance domain of histograms", func() { histogramDomain(P, R) })
	R.AtLeast("constructors", 9)
	R.AtLeast("attributes", 50)
	R.AtLeast("initial values", 14)
}

func ctorC18(k *ctor) {
	E, R, c := k.W.Engine, k.R, k.c
	str := types.Typ[types.String]
	R.Ob("it can succeed", k.name, !E.never(c.ok), k.pos(), "it always fails")
	name := k.arg(func(t types.Type, _ bool) bool { return isString(t) })
	if name == nil {
		R.Undecided(k.name, "it takes no name")
		return
	}
	R.Ob("the name is not empty", k.name, E.never(E.bdd.And(c.ok, E.Eq(name, E.Str(""), True))), k.pos(), "it succeeds with an empty name")
	R.Ob("the object is new", k.name, E.never(E.bdd.And(c.ok, E.Eq(c.rs[0], E.Nil(), True))), k.pos(), "it succeeds with nil")
	k.is("Name", name)
	q := E.Sym("q", str)
	if k.own == "PCPInstanceDomain" {
		k.descs(k.obj, k.own)
		ins := k.arg(func(t types.Type, v bool) bool { return !v && isStrSlice(t) })
		if ins == nil {
			R.Undecided(k.name, "it takes no instances")
			return
		}
		// each name passed is an instance
		i := E.Sym("i", types.Typ[types.Int])
		in := E.bdd.AndAll(c.ok, E.cmpInt("<=", E.Int(0), i, True), E.cmpInt("<", i, E.Len(ins), True))
		ni := E.Read(E.IndexAddr(ins, i, str), in)
		has, hg := k.get("HasInstance", in, ni)
		R.Ob("each instance passed is one of the instance domain", k.name, E.never(E.instancesAt(E.bdd.And(in, E.bdd.Not(E.bdd.And(hg, E.Formula(has)))), i)), k.pos(), "HasInstance is %s", has)
		// and only those
		mt := k.W.field(k.obj, k.own, "instances")
		m := E.Read(mt, c.ok)
		n := 0
		for _, e := range c.ev {
			if e.kind != "mapstore" || e.loc == nil {
				continue
			}
			if !E.feasible(E.bdd.And(c.ok, E.Eq(e.loc, m, True))) {
				continue
			}
			n++
			from := false
			key := e.args[0]
			if l := loadOf(key); l != nil && l.op == "indexaddr" {
				from = l.args[0] == ins
			} else {
				for _, lf := range leavesOf(key) {
					from = elementOf(lf.t, ins)
					if !from {
						break
					}
				}
			}
			R.Ob("only the instances passed are instances", k.name, from, k.P.pos(e.pos), "%s becomes one", key)
			nl := k.W.field(E.Simp(e.val, e.g), "pcpInstance", "name")
			good := nl != nil
			if good {
				good = false
				for _, st := range c.ev {
					if st.kind == "store" && st.loc == nl {
						good = E.never(E.bdd.And(e.g, E.bdd.Not(E.bdd.And(st.g, E.Eq(st.val, key, e.g)))))
					}
				}
			}
			R.Ob("an instance has the name it is found by", k.name, good, k.P.pos(e.pos), "%s is stored as %s", e.val, key)
			R.Count("instances stored", 1)
		}
		R.Ob("the instances are stored", k.name, n > 0, k.pos(), "no instance is")
		return
	}
	d := k.desc()
	if d == nil {
		R.Undecided(k.name, "the description of the metric is not found")
		return
	}
	k.descs(d, "pcpMetricDesc")
	// type, semantics, unit
	var t *Term
	if kind, ok := ofKind[k.own]; ok {
		t = E.BigInt(bigConst(k.P, kind[0]))
		k.is("Type", t)
		k.is("Semantics", E.BigInt(bigConst(k.P, kind[1])))
	} else {
		t = k.argNamed("MetricType")
		s := k.argNamed("MetricSemantics")
		if t == nil || s == nil {
			R.Undecided(k.name, "it takes no type and semantics")
			return
		}
		k.is("Type", t)
		k.is("Semantics", s)
	}
	u := k.argNamed("MetricUnit")
	if tu := k.argNamed("TimeUnit"); tu != nil {
		u = E.Iface(k.P.named(modPath, "TimeUnit"), tu)
	}
	if u == nil {
		// without dimension, in ones
		one := k.P.constVal(modPath, "OneUnit")
		n := k.P.named(modPath, "CountUnit")
		if one == nil || n == nil {
			R.Undecided(k.name, "OneUnit is not found")
			return
		}
		u = E.Iface(n, E.BigInt(one))
	}
	k.is("Unit", u)
	// the values
	vals := k.arg(func(t types.Type, v bool) bool { return isStrMap(t) })
	if !isVector(k.own) {
		var in *Term
		if kd := valKind(k.own); kd != nil {
			in = k.arg(func(t types.Type, _ bool) bool { return types.Identical(t, kd) })
			if in == nil {
				in = E.Zero(kd)
			}
			in = E.Iface(kd, in)
			loc, _ := k.W.cell(k.obj, k.own, nil)
			got := E.Read(loc, c.ok)
			R.Ob("the initial value is the one that was given", k.name, E.never(E.bdd.And(c.ok, E.bdd.Not(E.sameVal(got, in, c.ok)))), k.pos(), "it is %s and should be %s", got, in)
			R.Count("initial values", 1)
			return
		}
		in = k.arg(func(t types.Type, _ bool) bool { return isEmptyIface(t) })
		if in == nil {
			R.Undecided(k.name, "it takes no value")
			return
		}
		R.Ob("the value is compatible with the type", k.name, E.never(E.bdd.And(c.ok, E.bdd.Not(k.compatible(t, in, c.ok)))), k.pos(), "it succeeds with another value")
		got, _ := k.get("Val", c.ok)
		k.converted("the value", t, in, got, c.ok)
		return
	}
	idl := k.W.field(E.Read(k.W.field(k.obj, k.own, "pcpInstanceMetric"), c.ok), "pcpInstanceMetric", "indom")
	if idl == nil {
		R.Undecided(k.name, "the instance domain of the metric is not found")
		return
	}
	id := E.Read(idl, c.ok)
	inD := func(q *Term) B {
		return E.Formula(E.Read(E.HasAddr(E.Read(k.W.field(E.Simp(id, c.ok), "PCPInstanceDomain", "instances"), c.ok), q, k.W.elemOf("PCPInstanceDomain", "instances")), c.ok))
	}
	if k.own == "PCPHistogram" {
		for _, n := range histNames {
			_, has := k.W.cell(k.obj, k.own, E.Str(n))
			has = E.bdd.Or(has, E.bdd.Not(inD(E.Str(n))))
			R.Ob("a histogram has an instance for each statistic", k.name+", "+n, E.never(E.bdd.And(c.ok, E.bdd.Not(has))), k.pos(), "it does not")
		}
		_, has := k.W.cell(k.obj, k.own, q)
		other := c.ok
		for _, n := range histNames {
			other = E.bdd.And(other, E.bdd.Not(E.Eq(q, E.Str(n), True)))
		}
		has = E.bdd.And(has, inD(q))
		R.Ob("a histogram has an instance for each statistic", k.name+", others", E.never(E.instances(E.bdd.And(other, has))), k.pos(), "it has other instances")
		return
	}
	if vals == nil {
		R.Undecided(k.name, "it takes no values")
		return
	}
	vel := vals.typ.Underlying().(*types.Map).Elem()
	hasV := E.Formula(E.Read(E.HasAddr(vals, q, vel), True))
	loc, has := k.W.cell(k.obj, k.own, q)
	val := E.Read(E.MapAddr(vals, q, vel), hasV)
	if dom := k.argNamed("PCPInstanceDomain"); dom != nil {
		R.Ob("the object has what its constructor was given", k.name+", the instance domain", E.never(E.bdd.And(c.ok, E.bdd.Not(E.Eq(id, dom, c.ok)))), k.pos(), "it is %s", id)
	} else {
		bad := E.instances(E.bdd.And(c.ok, E.bdd.Xor(inD(q), hasV)), loc)
		R.Ob("the instances are those that have a value", k.name, E.never(bad), k.pos(), "they differ, if %s", E.BStr(bad))
	}
	bad := E.instances(E.bdd.AndAll(c.ok, has, E.bdd.Not(hasV)), loc)
	R.Ob("every instance has the value passed for it", k.name, E.never(bad), k.pos(), "an instance without one is accepted, if %s", E.BStr(bad))
	bad = E.instances(E.bdd.And(c.ok, E.bdd.Xor(has, inD(q))), loc)
	R.Ob("exactly the instances of the instance domain have values", k.name, E.never(bad), k.pos(), "they do not, if %s", E.BStr(bad))
	// no value without an instance: there are as many
	n := E.Read(E.MlenAddr(vals), True)
	if dom := k.argNamed("PCPInstanceDomain"); dom != nil {
		dm := E.Read(k.W.field(dom, "PCPInstanceDomain", "instances"), True)
		R.Ob("there are as many values as instances", k.name, E.never(E.bdd.And(c.ok, E.bdd.Not(E.Eq(n, E.Read(E.MlenAddr(dm), True), c.ok)))), k.pos(), "it succeeds with more or fewer")
	}
	got := E.Read(loc, E.bdd.And(c.ok, has))
	g := E.bdd.AndAll(c.ok, has, hasV)
	if kd := valKind(k.own); kd != nil {
		in := E.Iface(kd, val)
		R.Ob("the initial value is the one that was given", k.name, E.never(E.bdd.And(g, E.bdd.Not(E.sameVal(got, in, g)))), k.pos(), "it is %s and should be %s", got, in)
		R.Count("initial values", 1)
		return
	}
	bad = E.instances(E.bdd.And(g, E.bdd.Not(k.compatible(t, val, g))), loc)
	R.Ob("the value is compatible with the type", k.name, E.never(bad), k.pos(), "it succeeds with another value, if %s", E.BStr(bad))
	k.converted("an instance", t, val, got, g)
}

// elementOf: a value is an element of a slice.
func elementOf(t, s *Term) bool {
	if l := loadOf(t); l != nil && len(l.args) > 0 && l.args[0] == s {
		return true
	}
	return len(t.args) > 0 && t.args[0] == s && (t.op == "index" || t.op == "elem")
}

// desc is the description of the new metric.
func (k *ctor) desc() *Term {
	E := k.W.Engine
	for _, f := range []string{"pcpSingletonMetric", "pcpInstanceMetric"} {
		if l := k.W.field(k.obj, k.own, f); l != nil {
			if d := k.W.field(E.Simp(E.Read(l, k.c.ok), k.c.ok), f, "pcpMetricDesc"); d != nil {
				return E.Simp(E.Read(d, k.c.ok), k.c.ok)
			}
		}
	}
	return nil
}

// ---------------------------------------------------------------- C10

func checkC10(P *Program, R *Report) {
	evaluated := map[*ssa.Function]bool{}
	took := func(E *Engine) {
		for f := range E.funcs {
			evaluated[f] = true
		}
	}
	// stored: the value that is stored has the Go type of a metric type
	stored := func(E *Engine, what, pos string, t, v *Term, g B, kind types.Type) {
		if kind != nil {
			bad := E.bdd.And(g, E.bdd.Not(E.IsType(v, kind)))
			R.Ob("the value has the Go type of the metric's type", what, E.never(bad), pos, "%s is stored, not an %s", v, kind)
			R.Count("values stored", 1)
			return
		}
		if t == nil {
			R.Undecided(what, "the type of the metric is not known")
			return
		}
		rest := g
		for _, mt := range tMetricTypes {
			c := P.constVal(modPath, mt)
			if c == nil {
				R.Undecided(what, "%s does not exist", mt)
				continue
			}
			is := E.Eq(t, E.BigInt(c), True)
			bad := E.bdd.AndAll(g, is, E.bdd.Not(E.IsType(v, goTypeOf(mt))))
			R.Ob("the value has the Go type of the metric's type", what+" of a "+mt, E.never(bad), pos, "%s is stored, if %s", v, E.BStr(bad))
			R.Count("values stored", 1)
			rest = E.bdd.And(rest, E.bdd.Not(is))
		}
		R.Ob("a metric of no known type holds no value", what, E.never(rest), pos, "%s is stored, if %s", v, E.BStr(rest))
	}
	metricOps(P, R, metricTypes, func(o *opRun) {
		o.run(True)
		took(o.W.Engine)
		ss, _ := o.effects()
		for _, s := range ss {
			stored(o.W.Engine, o.what(), P.pos(s.e.pos), o.metricType(), s.val, s.g, valKind(o.owner))
		}
		R.Count("operations", 1)
	})
	cs := P.constructors()
	for _, name := range sortedKeys(cs) {
		protect(R, name, func() {
			k := newCtorRun(P, R, name, cs[name])
			took(k.W.Engine)
			if k.own == "PCPInstanceDomain" {
				return
			}
			E := k.W.Engine
			t := k.metricType()
			kind := valKind(k.own)
			loc, has := k.W.cell(k.obj, k.own, E.Sym("q", types.Typ[types.String]))
			if loc == nil {
				R.Undecided(name, "the value of the metric is not found")
				return
			}
			g := E.bdd.And(k.c.ok, has)
			stored(E, name, k.pos(), t, E.Read(loc, g), g, kind)
			if kind != nil {
				// its type is that of its kind
				want := "Int64Type"
				if isFloat(kind) {
					want = "DoubleType"
				}
				R.Ob("a metric of a kind has the type of the kind", name, t != nil && E.never(E.bdd.And(k.c.ok, E.bdd.Not(E.Eq(t, E.BigInt(bigConst(P, want)), True)))), k.pos(), "its type is %s", t)
			}
			R.Count("constructors", 1)
		})
	}
	// nothing else stores values
	for _, st := range P.fieldStores(modPath, func(typ, f string) bool {
		return (typ == "pcpSingletonMetric" || typ == "instanceValue") && f == "val" || typ == "pcpMetricDesc" && f == "t"
	}) {
		if P.unused(st.Parent()) {
			continue
		}
		R.Ob("values are only stored by what was evaluated", P.where(st.Parent()), evaluated[st.Parent()], P.pos(st.Pos()), "it stores a value or a type, but is not part of an exported method or constructor of a metric")
		R.Count("assignments to values and types", 1)
	}
	R.AtLeast("values stored", 60)
	R.AtLeast("constructors", 8)
	R.AtLeast("assignments to values and types", 4)
}

// bigConst is the value of a constant of the library, -1 if there is none.
func bigConst(P *Program, n string) *big.Int {
	if c := P.constVal(modPath, n); c != nil {
		return c
	}
	return big.NewInt(-1)
}

// histogramDomain: the instance domain that all histograms share has an instance for
// each statistic.
func histogramDomain(P *Program, R *Report) {
	E := newEngine(P)
	E.clientMode = true
	W := &World{E, P}
	E.initGlobalsWith(true)
	E.invariants, E.nonNilHook, E.injective, E.rangeHook, E.typeHook = W.invariant, W.nonNil, W.isInjective, W.ranges, W.holds
	fn := P.fn(modPath, "NewPCPHistogram")
	if fn == nil {
		R.Undecided("NewPCPHistogram", "does not exist")
		return
	}
	o := &opRun{W: W, R: R, P: P, owner: "PCPHistogram", name: fn.Name(), fn: fn}
	c := newCtor(o, fn)
	o.recv = E.Simp(c.rs[0], c.ok)
	ms := P.exportedMethods(modPath, "PCPHistogram")
	if ms["Indom"] == nil {
		R.Undecided("(*PCPHistogram).Indom", "the method does not exist")
		return
	}
	dom := o.step("indom:", "Indom", ms["Indom"], c.ok)
	h := P.fn(modPath, "(*PCPInstanceDomain).HasInstance")
	if h == nil {
		R.Undecided("(*PCPInstanceDomain).HasInstance", "the method does not exist")
		return
	}
	pos := P.pos(fn.Pos())
	for _, n := range histNames {
		rs, rg := E.CallFn(h, []*Term{dom.rs[0], E.Str(n)}, nil, c.ok, nil, nil)
		R.Ob("the instance domain of histograms has an instance for each statistic", n, E.never(E.bdd.And(c.ok, E.bdd.Not(E.bdd.And(rg, E.Formula(rs[0]))))), pos, "it has not: %s", rs[0])
	}
	n := P.fn(modPath, "(*PCPInstanceDomain).InstanceCount")
	if n != nil {
		rs, _ := E.CallFn(n, []*Term{dom.rs[0]}, nil, c.ok, nil, nil)
		R.Ob("the instance domain of histograms has an instance for each statistic", "and no other", E.never(E.bdd.And(c.ok, E.bdd.Not(E.Eq(rs[0], E.Int(int64(len(histNames))), c.ok)))), pos, "it has %s", rs[0])
	}
}
