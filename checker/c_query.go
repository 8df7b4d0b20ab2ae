package main

import (
	"go/types"
	"strings"
	"sync"
)

// C42: what is asked for is answered from the current state, and asking changes nothing.

func init() {
	checks["C42"] = check{"all operations that only ask for something: their effects, and their results as functions of the state", checkC42}
}

const (
	r42pure = "asking changes nothing"
	r42ret  = "asking returns"
	r42val  = "the answer is what the object holds"
)

// queries are the operations that only ask, of any type.
var queries = map[string]bool{}

func init() {
	for _, n := range strings.Fields(`HasMetric HasInstanceDomain MetricCount InstanceDomainCount InstanceCount ValuesCount StringCount
		HasInstance Instances MatchInstances Name ID Description ShortDescription LongDescription Type Unit Semantics Indom
		Val ValInstance String Registry Length High Low Min Max Mean StandardDeviation Variance Percentile Buckets`) {
		queries[n] = true
	}
}

func checkC42(P *Program, R *Report) {
	R.Assume("what recordings do to a histogram is decided by C14, the counts of what a file has to hold by C04, the values of metrics by C11, the statistics that a histogram publishes by C14")
	var wg sync.WaitGroup
	sem := make(chan bool, 8)
	for _, ow := range append([]string{"PCPInstanceDomain", "PCPRegistry", "PCPClient"}, metricTypes...) {
		ms := P.exportedMethods(modPath, ow)
		for _, n := range sortedKeys(ms) {
			if !queries[n] {
				continue
			}
			wg.Add(1)
			go func(ow, n string) {
				sem <- true
				defer func() { <-sem; wg.Done() }()
				protect(R, "(*"+ow+")."+n, func() {
					o := newOp(P, R, ow, n, ms[n])
					o.run(True)
					o.queryC42()
				})
			}(ow, n)
			R.Count("queries", 1)
		}
	}
	wg.Wait()
	protect(R, "NewPCPRegistry", func() { newRegistryC42(P, R) })
	R.AtLeast("queries", 100)
	R.AtLeast("answers compared", 80)
}

// descOf is the description that a metric has.
func (o *opRun) descOf() *Term {
	E := o.W.Engine
	for _, f := range []string{"pcpSingletonMetric", "pcpInstanceMetric"} {
		if l := o.W.field(o.recv, o.owner, f); l != nil {
			if d := o.W.field(E.Read(l, True), f, "pcpMetricDesc"); d != nil {
				return E.Read(d, True)
			}
		}
	}
	return nil
}

func (o *opRun) queryC42() {
	E, R, b := o.W.Engine, o.R, o.W.Engine.bdd
	W := o.W
	for _, e := range o.ev {
		if e.g == False {
			continue
		}
		bad := ""
		switch e.kind {
		case "store", "mapstore", "mapdelete":
			for _, l := range leavesOf(e.loc) {
				if l.t.op != "collect" && !isFreshRoot(l.t) && !E.never(b.And(e.g, l.g)) {
					bad = "it changes " + l.t.String()
				}
			}
		case "W", "go", "send", "close":
			if !E.never(e.g) {
				bad = "it has another effect: " + e.kind + " " + e.name
			}
		case "ext", "invoke":
			if e.fn != nil && e.fn.Pkg != nil && pureFn(e.fn.Pkg.Pkg.Path(), e.fn.Name()) {
				continue
			}
			if !E.never(e.g) {
				bad = "it calls " + e.name
			}
		}
		R.Ob(r42pure, o.what(), bad == "", o.P.pos(e.pos), "%.200s", bad)
	}
	R.Ob(r42pure, o.what(), true, o.pos(), "")
	R.Ob(r42ret, o.what(), E.never(b.Not(o.rg)), o.pos(), "it does not, if %s", E.BStr(b.Not(o.rg)))
	if len(o.rs) == 0 {
		return
	}
	got := o.rs[0]
	is := func(want *Term) {
		if want == nil {
			R.Undecided(o.what(), "what it has to return is not found")
			return
		}
		R.Count("answers compared", 1)
		R.Ob(r42val, o.what(), E.never(b.And(o.rg, b.Not(E.sameVal(got, want, o.rg)))), o.pos(), "it is %.200s instead of %.200s", got, want)
	}
	iff := func(want B) {
		R.Count("answers compared", 1)
		x := b.And(o.rg, b.Xor(E.Formula(got), want))
		R.Ob(r42val, o.what(), E.never(x), o.pos(), "it is wrong, if %s", E.BStr(x))
	}
	read := func(base *Term, typ, f string) *Term {
		if base == nil {
			return nil
		}
		l := W.field(base, typ, f)
		if l == nil {
			return nil
		}
		return E.Read(l, True)
	}
	// two texts in one
	both := func(base *Term, typ string) {
		s, l := read(base, typ, "shortDescription"), read(base, typ, "longDescription")
		if s == nil || l == nil {
			R.Undecided(o.what(), "the descriptions are not found")
			return
		}
		R.Count("answers compared", 1)
		for _, x := range leavesOf(got) {
			if g := b.And(o.rg, x.g); !E.never(g) {
				for _, d := range []*Term{s, l} {
					R.Ob(r42val, o.what(), E.contains(x.t, d) || E.implies(g, E.Eq(d, E.Str(""), g)), o.pos(), "%s is missing", d)
				}
			}
		}
	}
	switch o.owner {
	case "PCPRegistry":
		M, D := read(o.recv, "PCPRegistry", "metrics"), read(o.recv, "PCPRegistry", "instanceDomains")
		if M == nil || D == nil {
			R.Undecided(o.what(), "the maps of the registry are not found")
			return
		}
		mEl, dEl := W.elemOf("PCPRegistry", "metrics"), W.elemOf("PCPRegistry", "instanceDomains")
		switch o.name {
		case "HasMetric":
			iff(E.Formula(E.Read(E.HasAddr(M, o.args[0], mEl), True)))
		case "HasInstanceDomain":
			iff(E.Formula(E.Read(E.HasAddr(D, o.args[0], dEl), True)))
		case "MetricCount":
			is(E.Read(E.MlenAddr(M), True))
		case "InstanceDomainCount":
			is(E.Read(E.MlenAddr(D), True))
		}
		return
	case "PCPClient":
		if o.name == "Registry" {
			r := read(o.recv, "PCPClient", "r")
			t := got
			if t.op == "iface" {
				t = t.args[0]
			}
			got = t
			is(r)
		}
		return
	case "PCPInstanceDomain":
		I := read(o.recv, "PCPInstanceDomain", "instances")
		if I == nil {
			R.Undecided(o.what(), "the instances are not found")
			return
		}
		iel := W.elemOf("PCPInstanceDomain", "instances")
		switch o.name {
		case "HasInstance":
			iff(E.Formula(E.Read(E.HasAddr(I, o.args[0], iel), True)))
		case "InstanceCount":
			is(E.Read(E.MlenAddr(I), True))
		case "Instances":
			o.keysC42(got, I)
		case "Name", "ID":
			is(read(o.recv, "PCPInstanceDomain", strings.ToLower(o.name)))
		case "Description":
			both(o.recv, "PCPInstanceDomain")
		}
		return
	}
	// metrics
	d := o.descOf()
	if d == nil {
		R.Undecided(o.what(), "the description of the metric is not found")
		return
	}
	if f := map[string]string{"Name": "name", "ID": "id", "Type": "t", "Semantics": "sem", "Unit": "u", "ShortDescription": "shortDescription", "LongDescription": "longDescription"}[o.name]; f != "" {
		is(read(d, "pcpMetricDesc", f))
		return
	}
	var dom *Term
	if l := W.field(o.recv, o.owner, "pcpInstanceMetric"); l != nil {
		dom = read(E.Read(l, True), "pcpInstanceMetric", "indom")
	}
	h := (*Term)(nil)
	if o.owner == "PCPHistogram" {
		if h = W.histOf(o.recv, True); h == nil {
			R.Undecided(o.what(), "the histogram of the library is not found")
			return
		}
	}
	switch o.name {
	case "Description":
		both(d, "pcpMetricDesc")
	case "Indom":
		if dom == nil {
			is(E.Nil())
		} else {
			is(dom)
		}
	case "Instances":
		o.keysC42(got, read(dom, "PCPInstanceDomain", "instances"))
	case "High", "Low":
		is(E.App("hist", map[string]string{"High": "HighestTrackableValue", "Low": "LowestTrackableValue"}[o.name], types.Typ[types.Int64], h))
	case "Percentile", "Buckets": // C14 decides the others
		o.histC42(h, got, is)
	}
}

// pureFn: functions of the standard library that at most order what they are given.
func pureFn(pkg, name string) bool {
	switch pkg {
	case "sort", "slices", "maps", "strings", "strconv", "math", "unicode", "unicode/utf8", "errors":
		return true
	case "fmt":
		return strings.HasPrefix(name, "Sprint") || name == "Errorf"
	}
	return false
}

// keysC42: a list has each key of a map once.
func (o *opRun) keysC42(got, m *Term) {
	E, R := o.W.Engine, o.R
	if m == nil {
		R.Undecided(o.what(), "the instances are not found")
		return
	}
	R.Count("answers compared", 1)
	n := E.Read(E.MlenAddr(m), True)
	R.Ob(r42val, o.what(), E.implies(o.rg, E.Eq(E.Len(got), n, o.rg)), o.pos(), "it has %s elements", E.Len(got))
	i := E.Sym("q", types.Typ[types.Int])
	in := E.bdd.AndAll(o.rg, E.cmpInt("<=", E.Int(0), i, True), E.cmpInt("<", i, n, True))
	v := E.Simp(E.Read(E.IndexAddr(got, i, types.Typ[types.String]), in), in)
	R.Ob(r42val, o.what(), v.op == "key" && v.args[0] == m && v.args[1] == i, o.pos(), "the elements are %s", v)
}

func (o *opRun) histC42(h, got *Term, is func(*Term)) {
	E, R, b := o.W.Engine, o.R, o.W.Engine.bdd
	st := E.Read(E.Ghost(h, "hist", types.Typ[types.Int]), True)
	i64 := types.Typ[types.Int64]
	switch o.name {
	case "Percentile":
		is(E.App("hist", "ValueAtQuantile", i64, h, o.args[0], st))
	case "Buckets":
		var dist *Term
		E.subterms([]*Term{E.Len(got)}, nil, func(t *Term) {
			if t.op == "hist" && t.aux == "Distribution" {
				dist = t
			}
		})
		if dist == nil || dist.args[0] != h || dist.args[1] != st {
			R.Ob(r42val, o.what(), false, o.pos(), "there are %s buckets", E.Len(got))
			return
		}
		R.Count("answers compared", 1)
		n := E.Len(dist)
		R.Ob(r42val, o.what(), E.implies(o.rg, E.Eq(E.Len(got), n, o.rg)), o.pos(), "there are %s", E.Len(got))
		bt, ok := o.fn.Signature.Results().At(0).Type().Underlying().(*types.Slice)
		dt, ok2 := dist.typ.Underlying().(*types.Slice)
		if !ok || !ok2 {
			R.Undecided(o.what(), "the types of the buckets are not known")
			return
		}
		i := E.Sym("q", types.Typ[types.Int])
		in := b.AndAll(o.rg, E.cmpInt("<=", E.Int(0), i, True), E.cmpInt("<", i, n, True))
		x := E.Simp(E.Read(E.IndexAddr(got, i, bt.Elem()), in), in)
		xs, xt := namedOf(bt.Elem()), namedOf(dt.Elem())
		if xs == nil || xt == nil {
			R.Undecided(o.what(), "the types of the buckets are not known")
			return
		}
		for _, f := range []string{"From", "To", "Count"} {
			k, j := fieldIndex(xs, f), fieldIndex(xt, f)
			if k < 0 || j < 0 {
				R.Undecided(o.what(), "no field %s", f)
				continue
			}
			v := E.Simp(E.Read(E.FieldAddr(x, xs, k), in), in)
			var w *Term
			E.atMem(o.m0, func() { w = E.Simp(E.Read(E.FieldAddr(E.IndexAddr(dist, i, dt.Elem()), xt, j), in), in) })
			R.Ob(r42val, o.what(), E.never(b.And(in, b.Not(E.sameVal(v, w, in)))), o.pos(), "%s of a bucket is %s instead of %s", f, v, w)
		}
	}
}

// newRegistryC42: a new registry is empty, and a client has the one that it is given.
func newRegistryC42(P *Program, R *Report) {
	W := newWorld(P)
	E := W.Engine
	p := P.pkg(modPath)
	fn := p.Func("NewPCPRegistry")
	if fn == nil {
		R.Undecided("NewPCPRegistry", "the function does not exist")
		return
	}
	rs, rg := E.CallFn(fn, nil, nil, True, nil, nil)
	R.took(E, "NewPCPRegistry")
	ms := P.exportedMethods(modPath, "PCPRegistry")
	for _, n := range []string{"HasMetric", "HasInstanceDomain", "MetricCount", "InstanceDomainCount", "InstanceCount", "ValuesCount", "StringCount"} {
		if ms[n] == nil {
			R.Undecided("NewPCPRegistry", "no method %s", n)
			continue
		}
		args := []*Term{rs[0]}
		if ms[n].Signature.Params().Len() > 0 {
			args = append(args, E.Sym("name", types.Typ[types.String]))
		}
		vs, vg := E.CallFn(ms[n], args, nil, rg, nil, nil)
		R.took(E, "NewPCPRegistry")
		R.Count("answers compared", 1)
		empty := False
		if isBool(ms[n].Signature.Results().At(0).Type()) {
			empty = E.bdd.Not(E.Formula(vs[0]))
		} else {
			empty = E.Eq(vs[0], E.Int(0), vg)
		}
		R.Ob("a new registry is empty", "NewPCPRegistry, "+n, E.implies(vg, empty) && E.never(E.bdd.Not(vg)), P.pos(fn.Pos()), "it is %s", vs[0])
	}
}
