package main

import (
	"go/types"
	"strings"
)

// Uniqueness of names, failing registrations, the version of the format.

// lockOfRegistry: the lock of the registry is held for writing.
func (r *regRun) lockHeld(e *Event) bool {
	for _, h := range r.W.heldAt(e, true) {
		if h.loc.op == "fieldaddr" && h.loc.args[0] == r.r {
			return true
		}
	}
	return false
}

func (r *regRun) hasAt(m, key *Term, el types.Type, at int, g B) B {
	E := r.W.Engine
	return E.Formula(E.ReadAt(E.HasAddr(m, key, el), g, at))
}

func (r *regRun) writable() bool {
	if r.kind == "" {
		return true
	}
	if r.arg == nil {
		return false
	}
	return r.kind == "*PCPInstanceDomain" || writtenType(r.arg.typ)
}

func (r *regRun) uniqueC19() {
	E, R := r.W.Engine, r.R
	const (
		atomic = "what is registered changes in one critical section of the lock of the registry, in which the names were looked up"
		key    = "a metric or instance domain is registered under its name"
		unique = "nothing is registered under a name that is registered already"
		indom  = "the instance domain of a registered metric is registered with the same instances"
		second = "a registration that succeeds registers what it is for"
		known  = "only metrics and instance domains that can be written are registered"
	)
	if reg := r.isRegistration(); reg != "" {
		if r.writable() {
			R.Ob(known, r.what(), !E.never(r.ok), r.pos(), "registering it always fails")
		} else {
			R.Ob(known, r.what(), E.never(r.ok) && len(r.ins) == 0, r.pos(), "it can be registered")
		}
	}
	for _, e := range r.ins {
		what := r.what() + ", " + describe(r, e)
		R.Ob(atomic, what, r.lockHeld(e), r.P.pos(e.pos), "the lock of the registry is not held for writing")
		if e.kind == "mapdelete" {
			R.Ob(atomic, what, false, r.P.pos(e.pos), "something registered is deleted")
		}
	}
	for _, e := range r.ev {
		if e.g == False || e.kind != "load" && e.kind != "mapload" && e.kind != "maprange" {
			continue
		}
		what := ""
		for _, l := range leavesOf(e.loc) {
			switch {
			case e.kind != "load" && l.t == r.M:
				what = "the metrics"
			case e.kind != "load" && l.t == r.D:
				what = "the instance domains"
			case e.kind == "load" && l.t.op == "fieldaddr" && l.t.args[0] == r.r && strings.HasPrefix(l.t.aux, modPath+".PCPRegistry#") && !isMap(l.t.typ):
				what = "the field " + l.t.aux[strings.Index(l.t.aux, "#")+1:]
			}
		}
		if what == "" || E.never(e.g) {
			continue
		}
		held := False
		for _, h := range e.held {
			if h.loc.op == "fieldaddr" && h.loc.args[0] == r.r {
				held = E.bdd.Or(held, h.g)
			}
		}
		R.Ob("what is registered is read with the lock of the registry held", r.what()+", "+what, E.implies(e.g, held), r.P.pos(e.pos), "it is read without the lock")
		R.Count("reads", 1)
	}
	for _, p := range r.last {
		for _, e := range r.ins {
			if e.memAt < p.from {
				x := E.bdd.And(e.g, p.g)
				R.Ob(atomic, r.what()+", "+describe(r, e), E.never(x), r.P.pos(e.pos), "the lock is taken again after it, if %s", E.BStr(x))
			}
		}
		ms, ds := r.insertions(r.M, p.g), r.insertions(r.D, p.g)
		if reg := r.isRegistration(); reg != "" {
			main, u := ms, False
			if reg == "indom" {
				main = ds
			}
			for _, a := range main {
				u = E.bdd.Or(u, a.g)
			}
			g := E.bdd.And(p.g, r.ok)
			R.Ob(second, r.what(), E.implies(g, u), r.pos(), "it succeeds without registering anything")
		}
		for i, a := range append(append([]*added(nil), ms...), ds...) {
			what, m, el := "a metric", r.M, r.mEl
			if i >= len(ms) {
				what, m, el = "an instance domain", r.D, r.dEl
			}
			what = r.what() + ", " + what
			R.Count("insertions", 1)
			n := r.attr(a, "Name")
			if n == nil {
				return
			}
			R.Ob(key, what, n == a.key || E.implies(a.g, E.Eq(n, a.key, a.g)), r.P.pos(a.e.pos), "%s is registered as %s", n, a.key)
			has := r.hasAt(m, a.key, el, p.from, a.g)
			R.Ob(unique, what, E.never(E.bdd.And(a.g, has)), r.P.pos(a.e.pos), "it can replace another one")
			for _, b := range ms {
				if i < len(ms) && b != a && b.e != a.e {
					R.Ob(unique, what, E.never(E.bdd.AndAll(a.g, b.g, E.Eq(a.key, b.key, a.g))), r.P.pos(a.e.pos), "two are registered under the same name")
				}
			}
			if i < len(ms) {
				d := r.attr(a, "Indom")
				if d == nil {
					return
				}
				for _, l := range leavesOf(d) {
					g := E.bdd.AndAll(a.g, l.g, r.ok)
					if l.t.op == "nil" || E.never(g) {
						continue
					}
					g = E.bdd.And(g, E.bdd.Not(E.Eq(l.t, E.Nil(), g)))
					if E.never(g) {
						continue
					}
					name := E.Read(r.W.field(l.t, "PCPInstanceDomain", "name"), g)
					present := r.hasAt(r.D, name, r.dEl, p.from, g)
					// not there: inserted with it
					u := False
					for _, b := range ds {
						u = E.bdd.Or(u, E.bdd.AndAll(b.g, E.Eq(b.key, name, b.g), E.Eq(b.val, l.t, b.g)))
					}
					R.Ob(indom, what, E.never(E.bdd.AndAll(g, E.bdd.Not(present), E.bdd.Not(u))), r.P.pos(a.e.pos), "its instance domain is not registered")
					// there: with these instances
					g = E.bdd.And(g, present)
					if E.never(g) {
						continue
					}
					var reg *Term
					E.atMem(p.from, func() { reg = E.Simp(E.Read(E.MapAddr(r.D, name, r.dEl), g), g) })
					// itself, or another one
					g = E.bdd.And(g, E.bdd.Not(E.Eq(l.t, reg, g)))
					R.Count("instance domains compared", 1)
					if E.never(g) {
						continue
					}
					q := E.Sym("q", types.Typ[types.String])
					il, rl := r.W.field(l.t, "PCPInstanceDomain", "instances"), r.W.field(reg, "PCPInstanceDomain", "instances")
					if il == nil || rl == nil {
						R.Undecided(r.what(), "no field PCPInstanceDomain.instances")
						return
					}
					iel := r.W.elemOf("PCPInstanceDomain", "instances")
					I, J := E.Read(il, g), E.Read(rl, g)
					inI, inJ := E.Formula(E.Read(E.HasAddr(I, q, iel), g)), E.Formula(E.Read(E.HasAddr(J, q, iel), g))
					bad := E.instances(E.bdd.AndAll(g, inI, E.bdd.Not(inJ)), E.HasAddr(I, q, iel))
					same := E.implies(g, E.Eq(E.Read(E.MlenAddr(I), g), E.Read(E.MlenAddr(J), g), g))
					R.Ob(indom, what, E.never(bad) && same, r.P.pos(a.e.pos), "the one that is registered may have other instances, as many: %v, if %s", same, E.BStr(bad))
				}
			}
		}
	}
}

func describe(r *regRun, e *Event) string {
	for _, l := range leavesOf(e.loc) {
		switch {
		case l.t == r.M:
			return "the metrics"
		case l.t == r.D:
			return "the instance domains"
		case l.t.op == "fieldaddr":
			return "the field " + l.t.aux[strings.Index(l.t.aux, "#")+1:]
		}
	}
	return "the registry"
}

func (r *regRun) atomicC20() {
	E, R := r.W.Engine, r.R
	const (
		fails = "what fails changes nothing of the registry"
		adds  = "a registration adds what it is for"
		only  = "a registration adds nothing else"
	)
	for _, e := range r.ins {
		x := E.bdd.And(r.fail, e.g)
		R.Ob(fails, r.what()+", "+describe(r, e), E.never(x), r.P.pos(e.pos), "it is changed, if %s", E.BStr(x))
	}
	reg := r.isRegistration()
	if reg == "" {
		R.Ob("only registrations change a registry", r.what(), len(r.ins) == 0, r.pos(), "it changes it")
		return
	}
	R.Ob(fails, r.what(), true, r.pos(), "")
	if E.never(r.ok) {
		return
	}
	// what it is for: the argument, or what is returned
	var want *Term
	if r.arg != nil {
		want = r.arg
	} else if len(r.rs) > 0 && !types.Identical(r.fn.Signature.Results().At(0).Type(), errType) {
		want = r.rs[0]
	}
	for _, p := range r.last {
		g := E.bdd.And(p.g, r.ok)
		if E.never(g) {
			continue
		}
		ms, ds := r.insertions(r.M, g), r.insertions(r.D, g)
		main := ms
		if reg == "indom" {
			main = ds
		}
		u := False
		for _, a := range main {
			u = E.bdd.Or(u, a.g)
			if want != nil {
				is := False
				for _, l := range leavesOf(want) {
					t := l.t
					if t.op == "iface" {
						t = t.args[0]
					}
					is = E.bdd.Or(is, E.bdd.And(l.g, E.Eq(t, a.val, a.g)))
				}
				R.Ob(adds, r.what(), E.implies(a.g, is), r.P.pos(a.e.pos), "%s is added, not %s", a.val, want)
			}
		}
		R.Ob(adds, r.what(), E.implies(g, u), r.pos(), "it succeeds without adding it")
		if reg == "indom" {
			R.Ob(only, r.what(), len(ms) == 0, r.pos(), "it adds a metric")
		}
		for i, a := range main {
			for _, b := range main[i+1:] {
				if a.e != b.e {
					R.Ob(only, r.what(), E.never(E.bdd.AndAll(a.g, b.g)), r.P.pos(b.e.pos), "it adds two")
				}
			}
		}
		if reg == "metric" {
			for _, b := range ds {
				is := False
				for _, a := range ms {
					d := r.attr(a, "Indom")
					if d == nil {
						return
					}
					for _, l := range leavesOf(d) {
						if l.t.op != "nil" {
							is = E.bdd.Or(is, E.bdd.AndAll(a.g, l.g, E.Eq(l.t, b.val, b.g)))
						}
					}
				}
				R.Ob(only, r.what(), E.implies(b.g, is), r.P.pos(b.e.pos), "it adds an instance domain that is not that of the metric")
			}
		}
		R.Count("successful registrations", 1)
	}
}

// long: some name is too long for version 1.
func (r *regRun) versionC05() {
	E, R := r.W.Engine, r.R
	const (
		kept   = "a registry that needs version 2 never goes back"
		metric = "a metric with a long name needs version 2"
		inst   = "an instance with a long name needs version 2"
		only   = "nothing but a long name needs version 2"
	)
	fl := r.W.field(r.r, "PCPRegistry", "version2")
	if fl == nil {
		R.Undecided(r.what(), "no field PCPRegistry.version2")
		return
	}
	mc := r.P.constVal(modPath, "MaxV1NameLength")
	R.Ob("names in records of version 1 have 63 bytes", "MaxV1NameLength", mc != nil && mc.Int64() == 63, "", "it is %v", mc)
	for _, p := range r.last {
		g := E.bdd.And(p.g, r.ok)
		if E.never(g) {
			continue
		}
		old := E.Formula(E.ReadAt(fl, g, p.from))
		now := E.Formula(E.Read(fl, g))
		R.Ob(kept, r.what(), E.never(E.bdd.AndAll(g, old, E.bdd.Not(now))), r.pos(), "it does")
		iel := r.W.elemOf("PCPInstanceDomain", "instances")
		need := old
		q := E.Sym("q", types.Typ[types.String])
		for _, a := range r.insertions(r.M, g) {
			n := r.attr(a, "Name")
			if n == nil {
				return
			}
			long := E.cmpInt("<", E.Int(63), E.Len(n), a.g)
			need = E.bdd.Or(need, E.bdd.And(a.g, long))
			R.Ob(metric, r.what(), E.never(E.bdd.AndAll(a.g, long, E.bdd.Not(now))), r.P.pos(a.e.pos), "it does not")
			R.Count("insertions", 1)
		}
		// what loops find
		var keys []*Term
		E.subterms(nil, []B{now}, func(t *Term) {
			if t.op == "key" {
				keys = append(keys, t)
			}
		})
		var anys []*Term
		E.subterms(nil, []B{now}, func(t *Term) {
			if t.op == "any" {
				anys = append(anys, t)
			}
		})
		found := map[*Term]bool{}
		for _, a := range r.insertions(r.D, g) {
			il := r.W.field(a.val, "PCPInstanceDomain", "instances")
			if il == nil {
				R.Undecided(r.what(), "no field PCPInstanceDomain.instances")
				return
			}
			I := E.Read(il, a.g)
			has := E.Formula(E.Read(E.HasAddr(I, q, iel), a.g))
			long := E.cmpInt("<", E.Int(63), E.Len(q), a.g)
			bad := E.instances(E.bdd.AndAll(a.g, has, long, E.bdd.Not(now)), E.HasAddr(I, q, iel))
			R.Ob(inst, r.what(), E.never(bad), r.P.pos(a.e.pos), "it does not, if %s", E.BStr(bad))
			R.Count("insertions", 1)
			// and only those
			mt := I.typ.Underlying().(*types.Map)
			n := E.Read(E.MlenAddr(I), a.g)
			for _, k := range keys {
				if k.args[0] == I {
					in := E.bdd.And(E.cmpInt("<=", E.Int(0), k.args[1], True), E.cmpInt("<", k.args[1], n, True))
					need = E.bdd.Or(need, E.bdd.AndAll(a.g, in, E.cmpInt("<", E.Int(63), E.Len(k), a.g)))
				}
			}
			for _, y := range anys {
				i := E.Sym("i", tInt)
				c := E.Formula(E.Subst(y.args[1], map[*Term]*Term{y.args[2]: i}))
				k := E.Key(I, mt, "", i, types.Typ[types.String])
				in := E.bdd.And(E.cmpInt("<=", E.Int(0), i, True), E.cmpInt("<", i, y.args[0], True))
				sh := E.cmpInt("<=", E.Len(k), E.Int(63), True)
				if E.never(E.bdd.AndAll(a.g, in, c, sh)) && E.implies(a.g, E.cmpInt("<=", y.args[0], E.Read(E.MlenAddr(I), a.g), a.g)) {
					found[y] = true
				}
			}
		}
		rest := E.bdd.AndAll(g, now, E.bdd.Not(need))
		for _, y := range anys {
			if found[y] {
				for _, v := range E.bdd.Support(rest) {
					if E.atoms[v].kind == "b" && E.atoms[v].x == y {
						rest = E.bdd.SetVar(rest, v, false)
					}
				}
			}
		}
		R.Ob(only, r.what(), E.never(rest), r.pos(), "it needs version 2 if %s", E.BStr(rest))
	}
}

func checkC19(P *Program, R *Report) {
	eachRegOp(P, R, func(r *regRun) { r.uniqueC19() })
	R.AtLeast("insertions", 40)
	R.AtLeast("instance domains compared", 10)
	R.AtLeast("reads", 100)
}

func checkC20(P *Program, R *Report) {
	eachRegOp(P, R, func(r *regRun) { r.atomicC20() })
	R.AtLeast("successful registrations", 20)
}

func checkC05(P *Program, R *Report) {
	eachRegOp(P, R, func(r *regRun) { r.versionC05() })
	R.AtLeast("insertions", 40)
	eachStart(P, R, func(s *startRun) {
		if s.header() {
			s.kinds()
		}
	})
}

func init() {
	checks["C19"] = check{"every registration, evaluated for all types of metrics in any state of the registry, inserts under the name, which was absent when the lock was acquired last, with the lock held for writing; the instance domain of a metric is inserted with it or registered with the same instances", checkC19}
	checks["C20"] = check{"no path of a registration that fails or panics changes the registry; a path that succeeds inserts exactly the argument or result and its instance domain", checkC20}
	checks["C05"] = check{"every registration sets the flag for version 2 exactly if a name it inserts is longer than 63 bytes; the version in the header and the strides of all sections depend on that flag alone", checkC05}
}
