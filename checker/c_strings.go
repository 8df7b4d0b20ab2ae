package main

import (
	"go/types"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Strings fit in the blocks and records they are written to.

const (
	r07bound = "strings that do not fit in a block are rejected"
	r07keep  = "strings that are written to the file do not change"
	r07write = "only strings that were checked are written to the file"
	r07block = "a string block has room for 255 bytes and a NUL"
)

// fits: a string is at most n bytes long.
func (E *Engine) tooLong(s *Term, n int64, g B) B {
	bad := False
	for _, l := range leavesOf(s) {
		lg := E.bdd.And(g, l.g)
		if lg == False || l.t.op == "nil" {
			continue
		}
		bad = E.bdd.Or(bad, E.bdd.And(lg, E.cmpInt("<", E.Int(n), E.Len(l.t), lg)))
	}
	return bad
}

// tooLongValue: an interface value is a string that is longer than n bytes.
func (E *Engine) tooLongValue(v *Term, n int64, g B) B {
	str := types.Typ[types.String]
	is := E.bdd.And(g, E.IsType(v, str))
	if E.never(is) {
		return False
	}
	return E.tooLong(E.Simp(E.Tassert(v, str), is), n, is)
}

func checkC07(P *Program, R *Report) {
	for n, want := range map[string]int64{"StringLength": 256, "MaxV1NameLength": 63} {
		c := P.constVal(modPath, n)
		R.Ob(r07block, n, c != nil && c.Int64() == want, "", "it is %v", c)
	}
	var wg sync.WaitGroup
	cs := P.constructors()
	for name, fn := range cs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			protect(R, name, func() { ctorC07(newCtorRun(P, R, name, fn)) })
		}()
	}
	wg.Wait()
	R.AtLeast("strings of new objects", 30)
	metricOps(P, R, metricTypes, func(o *opRun) {
		E := o.W.Engine
		o.run(True)
		ss, ws := o.effects()
		for _, x := range append(ss, ws...) {
			if x.raw || x.val == nil {
				continue
			}
			bad := E.instances(E.tooLongValue(x.val, 255, x.g))
			R.Ob(r07bound, o.what(), E.never(bad), P.pos(x.e.pos), "a longer value is accepted, if %s", E.BStr(bad))
			R.Count("values of operations", 1)
		}
	})
	R.AtLeast("values of operations", 40)
	keepC07(P, R)
	eachStart(P, R, func(s *startRun) { s.stringsC07() })
	R.AtLeast("strings written", 100)
	eachRegOp(P, R, func(r *regRun) { r.versionC05() })
	R.AtLeast("insertions", 40)
}

func ctorC07(k *ctor) {
	E, R := k.W.Engine, k.R
	short := func(what string, bad B, loc *Term, idx ...*Term) {
		for _, i := range append(idx, E.Int(0), E.Int(1)) {
			bad = E.instancesAt(bad, i)
		}
		if loc != nil {
			bad = E.instances(bad, loc)
		}
		R.Ob(r07bound, k.name+", "+what, E.never(bad), k.pos(), "a longer one is accepted, if %s", E.BStr(bad))
		R.Count("strings of new objects", 1)
	}
	R.Ob("it can succeed", k.name, !E.never(k.c.ok), k.pos(), "it always fails")
	own, obj := "pcpMetricDesc", k.obj
	fields := []string{"shortDescription", "longDescription", "name"}
	if k.own == "PCPInstanceDomain" {
		own, fields = k.own, fields[:2]
	} else if obj = k.desc(); obj == nil {
		R.Undecided(k.name, "the description of the metric is not found")
		return
	}
	for _, f := range fields {
		l := k.W.field(obj, own, f)
		if l == nil {
			R.Undecided(k.name, "no field %s.%s", own, f)
			continue
		}
		short(f, E.tooLong(E.Read(l, k.c.ok), 255, k.c.ok), nil)
	}
	// instances of a domain that is made here
	dom, q := k.obj, E.Sym("q", types.Typ[types.String])
	if k.own != "PCPInstanceDomain" {
		dom = nil
		if l := k.W.field(k.obj, k.own, "pcpInstanceMetric"); l != nil && k.argNamed("PCPInstanceDomain") == nil {
			if il := k.W.field(E.Read(l, k.c.ok), "pcpInstanceMetric", "indom"); il != nil {
				dom = E.Simp(E.Read(il, k.c.ok), k.c.ok)
			}
			if dom == nil {
				R.Undecided(k.name, "the instance domain of the metric is not found")
			}
		}
	}
	if dom != nil && k.own != "PCPHistogram" {
		il := k.W.field(dom, "PCPInstanceDomain", "instances")
		if il == nil {
			R.Undecided(k.name, "no field PCPInstanceDomain.instances")
			return
		}
		I := E.Read(il, k.c.ok)
		n := 0
		for _, e := range E.mem {
			if e.loc == nil || e.loc.op != "mapaddr" || e.loc.args[0] != I || e.kind == "havoc" || e.val == nil {
				continue
			}
			for _, l := range leavesOf(e.val) {
				lg := E.bdd.AndAll(k.c.ok, e.g, l.g)
				var idx []*Term
				for _, v := range e.vars {
					lg = E.bdd.AndAll(lg, E.cmpInt("<=", E.Int(0), v.v, True), E.cmpInt("<", v.v, v.n, True))
					idx = append(idx, v.v)
				}
				if l.t.op == "nil" || E.never(lg) {
					continue
				}
				nl := k.W.field(l.t, "pcpInstance", "name")
				if nl == nil {
					R.Undecided(k.name, "no field pcpInstance.name")
					return
				}
				n++
				short("instances", E.tooLong(E.Read(nl, lg), 255, lg), nil, idx...)
				key := e.loc.args[1]
				short("keys of instances", E.tooLong(key, 255, lg), nil, idx...)
			}
		}
		R.Ob("instances are found", k.name, n > 0, k.pos(), "none is put into the map")
	}
	if k.own == "PCPInstanceDomain" || valKind(k.own) != nil || k.own == "PCPHistogram" {
		return // no strings
	}
	if !isVector(k.own) {
		loc, _ := k.W.cell(k.obj, k.own, nil)
		short("the value", E.tooLongValue(E.Read(loc, k.c.ok), 255, k.c.ok), nil)
		return
	}
	loc, has := k.W.cell(k.obj, k.own, q)
	g := E.bdd.And(k.c.ok, has)
	short("the values", E.tooLongValue(E.Read(loc, g), 255, g), loc)
}

// keepC07: what is checked when an object is made is not set elsewhere.
func keepC07(P *Program, R *Report) {
	fs := map[string]map[string]bool{
		"pcpMetricDesc":     {"name": true, "shortDescription": true, "longDescription": true},
		"PCPInstanceDomain": {"shortDescription": true, "longDescription": true, "instances": true},
		"pcpInstance":       {"name": true},
	}
	n := keepFields(P, R, r07keep, fs)
	R.Count("places where strings are set", n)
	R.AtLeast("places where strings are set", 6)
}

// keepFields: some fields are only set in objects that were just made.
func keepFields(P *Program, R *Report, rule string, fs map[string]map[string]bool) int {
	n := 0
	for _, fn := range P.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				what, fresh := "", false
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
					nt := namedOf(fa.X.Type())
					if nt == nil || nt.Obj().Pkg() == nil || nt.Obj().Pkg().Path() != modPath {
						continue
					}
					f := nt.Underlying().(*types.Struct).Field(fa.Field).Name()
					if !fs[nt.Obj().Name()][f] {
						continue
					}
					what, fresh = nt.Obj().Name()+"."+f, P.freshObject(fa.X)
				} else if nt := namedOf(st.Val.Type()); nt != nil && nt.Obj().Pkg() != nil && nt.Obj().Pkg().Path() == modPath && fs[nt.Obj().Name()] != nil {
					if _, ptr := st.Val.Type().(*types.Pointer); ptr {
						continue
					}
					// a whole object
					what, fresh = nt.Obj().Name(), P.freshObject(st.Addr)
				} else {
					continue
				}
				n++
				R.Ob(rule, fn.RelString(nil)+", "+what, fresh, P.pos(in.Pos()), "it is changed in an object that exists")
			}
		}
	}
	return n
}

// stringsC07: what is written when a client is started.
func (s *startRun) stringsC07() {
	if !s.header() {
		return
	}
	ok := map[string]bool{
		"pcpMetricDesc.name": true, "pcpMetricDesc.shortDescription": true, "pcpMetricDesc.longDescription": true,
		"PCPInstanceDomain.shortDescription": true, "PCPInstanceDomain.longDescription": true, "pcpInstance.name": true,
	}
	str := types.Typ[types.String]
	for _, e := range s.ev {
		if e.kind != "W" || e.g == False || e.val == nil {
			continue
		}
		for _, l := range leavesOf(e.val) {
			g := s.bdd.And(e.g, l.g)
			if g == False || s.never(g) {
				continue
			}
			v := s.Simp(l.t, g)
			if v.op == "raw" {
				continue
			}
			if v.op == "iface" {
				if b, is := v.typ.Underlying().(*types.Basic); is && b.Kind() != types.String {
					continue
				}
			}
			if s.never(s.bdd.And(g, s.IsType(v, str))) {
				continue
			}
			x := unconv(v)
			if x.op == "str" {
				s.ob(r07write, s.at(e), len(x.aux) <= 255, e, "a string of %d bytes is written", len(x.aux))
				s.R.Count("strings written", 1)
				continue
			}
			good := x.op == "key"
			for x.op == "tassert" {
				x = x.args[0]
			}
			if ld := loadOf(x); ld != nil {
				good = isCell(ld) || ld.op == "fieldaddr" && ok[ownerField(ld)]
			}
			s.ob(r07write, s.at(e), good, e, "%s is written", v)
			s.R.Count("strings written", 1)
		}
	}
}

// ownerField names the field an address is of.
func ownerField(l *Term) string {
	a, f, _ := strings.Cut(l.aux, "#")
	return a[strings.LastIndex(a, ".")+1:] + "." + f
}

func init() {
	checks["C07"] = check{"lengths of all names, descriptions and values that constructors, operations and registrations accept, as terms; every string that is written is one of them", checkC07}
}
