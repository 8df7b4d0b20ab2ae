package main

import (
	"fmt"

	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The reader of dumps.

const dumpPath = modPath + "/mmvdump"

type dumpRun struct {
	*World
	R    *Report
	fn   *ssa.Function
	data *Term
	rs   []*Term
	rg   B
	ev   []*Event
}

func newDumpRun(P *Program, R *Report) *dumpRun {
	fn := P.fn(dumpPath, "Dump")
	if fn == nil || len(fn.Params) != 1 {
		R.Undecided("Dump", "it is not found")
		return nil
	}
	d := &dumpRun{World: newWorld(P), R: R, fn: fn}
	d.Engine.obligations = true
	d.data = d.Sym("data", fn.Params[0].Type())
	d.rs, d.rg = d.CallFn(fn, []*Term{d.data}, nil, True, nil, nil)
	d.ev = d.events
	R.took(d.Engine, "Dump")
	return d
}

// at names an event by the functions it is in.
func (d *dumpRun) at(e *Event) string {
	var ns []string
	for i := len(e.ctx) - 1; i >= 0; i-- {
		n := e.ctx[i].fn.RelString(nil)
		ns = append(ns, strings.ReplaceAll(n, dumpPath+".", ""))
	}
	return strings.Join(ns, " > ")
}

// bad is a condition of an event with what is known of the iterations it is in.
func (d *dumpRun) bad(b B, loops []*Loop, ts ...*Term) B {
	if b == False {
		return b
	}
	for _, L := range loops {
		b = d.instancesAt(b, L.it)
	}
	return d.instances(b, ts...)
}

func (E *Engine) sizeof(t types.Type) int64 {
	return types.SizesFor("gc", "amd64").Sizeof(t)
}

const (
	r30panic = "no access panics"
	r30cast  = "records lie within the data"
	r30loop  = "there is room for all records"
	r30ret   = "it returns"
)

func checkC30(P *Program, R *Report) {
	d := newDumpRun(P, R)
	if d == nil {
		return
	}
	n := d.bdd.Not(d.rg)
	R.Ob(r30ret, "Dump", d.never(n), P.pos(d.fn.Pos()), "it does not, if %s", d.BStr(n))
	h := newHB(d.Engine, d.ev)
	goes := 0
	for _, e := range d.ev {
		if d.never(e.g) {
			continue
		}
		switch e.kind {
		case "oblig":
			d.obligation(r30panic, e)
			if e.name == "makeslice length" {
				d.room(e, d.at(e), e.args[0], e.loops)
			}
		case "makemap":
			d.room(e, d.at(e), e.val, e.loops)
		case "panic":
			R.Ob(r30panic, d.at(e), false, P.pos(e.pos), "it panics, if %s", d.BStr(e.g))
		case "cast":
			d.cast(e)
		case "wgwait":
			R.Ob(r30ret, d.at(e), h.waits(e), P.pos(e.pos), "%s completions are missing, or announced too late", e.val)
			R.Count("waits", 1)
		case "wgdone":
			R.Ob(r30ret, d.at(e), d.implies(e.g, d.cmpInt("<=", d.Int(0), e.val, e.g)), P.pos(e.pos), "more are done than announced: %s", e.val)
		case "go":
			goes++
		case "goend":
			held := False
			for _, l := range e.held {
				held = d.bdd.Or(held, d.bdd.And(e.g, l.g))
			}
			R.Ob(r30ret, d.at(e), d.never(held), P.pos(e.pos), "it ends with a lock, if %s", d.BStr(held))
		case "send", "recv":
			R.Ob(r30ret, d.at(e), false, P.pos(e.pos), "it may block")
		}
	}
	for _, L := range d.loopIdx {
		if L.trip == nil || L.domain != nil || L.unrolled || L.trip.op == "int" {
			continue // over the keys of a map
		}
		b := d.bdd.And(L.g0, d.cmpInt("<", d.Len(d.data), L.trip, L.g0))
		pos := P.pos(headPos(L.head))
		R.Ob(r30loop, "a loop of "+L.fr.fn.Name(), d.never(d.bad(b, nil)), pos, "there are %s iterations", L.trip)
		R.Count("loops", 1)
	}
	R.AtLeast("loops", 4)
	R.AtLeast("casts", 9)
	if goes > 0 {
		R.AtLeast("waits", 1)
	}
	R.AtLeast("checked accesses", 15)
}

// obligation decides that an access does not panic.
func (d *dumpRun) obligation(rule string, e *Event) {
	d.R.Count("checked accesses", 1)
	bad := d.bdd.And(e.g, d.bdd.Not(e.ok))
	if bad = d.bad(bad, e.loops, e.args...); d.never(bad) {
		d.R.Ob(rule, d.at(e)+", "+e.name, true, "", "")
		return
	}
	ok, what := false, "it does"
	if e.name == "type assertion" {
		ok = true
		// what is iterated over is in the map
		for _, l := range leavesOf(e.args[0]) {
			if m, k := elementIn(l.t); m != nil {
				d.atEvent(e, func() {
					bad = d.bdd.And(bad, d.Formula(d.Read(d.HasAddr(m, k, l.t.typ), bad)))
				})
			}
		}
		for _, l := range leavesOf(e.args[0]) {
			lg := d.bad(d.bdd.And(bad, l.g), e.loops, e.args...)
			if d.never(lg) || d.elementOf(l.t, e.typ) {
				continue
			}
			ok, what = false, fmt.Sprintf("the value %s does", l.t)
		}
	}
	d.R.Ob(rule, d.at(e)+", "+e.name, ok, d.P.pos(e.pos), "%s, if %s", what, d.BStr(bad))
}

// elementIn: the new map and the key in it whose value this is.
func elementIn(v *Term) (m, k *Term) {
	if v.op == "load" && v.args[0].op == "mapaddr" {
		m, k = v.args[0].args[0], v.args[0].args[1]
		if m.op == "makemap" && k.op == "key" && k.args[0] == m {
			return m, k
		}
	}
	return nil, nil
}

// elementOf: a value is one of the elements of a new map, and all that is put into
// that has a type.
func (d *dumpRun) elementOf(v *Term, typ types.Type) bool {
	m, _ := elementIn(v)
	if m == nil {
		return false
	}
	n := 0
	for _, e := range d.ev {
		if e.kind != "mapstore" {
			continue
		}
		for _, x := range leavesOf(e.loc) {
			if x.t != m || d.never(d.bdd.And(x.g, e.g)) {
				continue
			}
			n++
			if !d.implies(d.bdd.And(x.g, e.g), d.IsType(e.val, typ)) {
				return false
			}
		}
	}
	return n > 0
}

func (d *dumpRun) cast(e *Event) {
	E, R := d.Engine, d.R
	R.Count("casts", 1)
	size := d.sizeof(e.val.typ)
	what := d.at(e) + ", " + types.TypeString(e.val.typ, func(*types.Package) string { return "" })
	pos := d.P.pos(e.pos)
	if e.loc.op != "indexaddr" || e.loc.args[0] != d.data {
		R.Ob(r30cast, what, false, pos, "it is made of %s", e.loc)
		return
	}
	off := e.loc.args[1]
	last := E.Sub(E.Len(d.data), E.Int(size), ikind{})
	ok := E.bdd.And(E.cmpInt("<=", E.Int(0), off, e.g), E.cmpInt("<=", off, last, e.g))
	bad := d.bad(E.bdd.And(e.g, E.bdd.Not(ok)), e.loops, off)
	R.Ob(r30cast, what, d.never(bad), pos, "it does not, if %s", E.BStr(bad))
	if n := len(e.loops); n > 0 && e.loops[n-1].trip != nil && e.loops[n-1].domain == nil {
		L := e.loops[n-1]
		all := E.Mul(L.trip, E.Int(size), ikind{})
		bad := d.bad(E.bdd.AndAll(L.g0, e.g, E.cmpInt("<", E.Len(d.data), all, L.g0)), e.loops)
		R.Ob(r30loop, what, d.never(bad), pos, "%s records of %d bytes are read, if %s", L.trip, size, E.BStr(bad))
	}
}

// room: what is allocated is not larger than the data.
func (d *dumpRun) room(e *Event, what string, n *Term, loops []*Loop) {
	bad := d.bad(d.bdd.And(e.g, d.cmpInt("<", d.Len(d.data), n, e.g)), loops, n)
	d.R.Ob(r30loop, what, d.never(bad), d.P.pos(e.pos), "%s are allocated, if %s", n, d.BStr(bad))
	d.R.Count("allocations", 1)
}

func init() {
	checks["C30"] = check{"checked accesses and records within the data, over the evaluation of Dump on symbolic bytes", checkC30}
	checks["C31"] = check{"conditions and tables of a successful Dump on symbolic bytes, per section and version", checkC31}
}

// ---------------------------------------------------------------- what is accepted

const (
	r31head = "only committed files of a known version are accepted"
	r31toc  = "the table of contents is as it is in the data, each type once"
	r31tab  = "a table has the records of its section"
	r31all  = "every record of a section is read, or there is an error"
)

// rec is the record of a type at an offset of the data.
func (d *dumpRun) rec(T types.Type, off *Term) *Term {
	E := d.Engine
	p := E.IndexAddr(d.data, off, d.data.typ.Underlying().(*types.Slice).Elem())
	return E.dist([]*Term{p}, func(a []*Term) *Term {
		return E.intern(&Term{op: "cast", aux: typeStr(T), args: a[:1], typ: T})
	})
}

func (d *dumpRun) typ(name string) types.Type {
	if T := d.P.named(dumpPath, name); T != nil {
		return T
	}
	return nil
}

// get reads a field of a record.
func (d *dumpRun) get(T types.Type, off *Term, field string) *Term {
	st := T.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == field {
			return d.ReadAt(d.FieldAddr(d.rec(T, off), T, i), True, 0)
		}
	}
	panic("no field " + field)
}

func (d *dumpRun) toc(i *Term, field string) *Term {
	return d.get(d.typ("Toc"), d.tocAt(i), field)
}

func (d *dumpRun) tocAt(i *Term) *Term {
	u := ikind{64, false}
	return d.Add(d.Mul(i, d.Int(16), u), d.Int(40), u)
}

func checkC31(P *Program, R *Report) {
	d := newDumpRun(P, R)
	if d == nil {
		return
	}
	E := d.Engine
	for _, n := range []string{"Header", "Toc", "Instance1", "Instance2", "InstanceDomain", "Metric1", "Metric2", "Value", "String"} {
		if d.typ(n) == nil {
			R.Undecided(n, "there is no such type")
			return
		}
	}
	if len(d.rs) != 8 {
		R.Undecided("Dump", "it has %d results", len(d.rs))
		return
	}
	ok := E.bdd.And(d.rg, E.Eq(d.rs[7], E.Nil(), d.rg))
	pos := P.pos(d.fn.Pos())
	R.Ob("it can succeed", "Dump", !d.never(ok), pos, "it always fails")
	holds := func(rule, what string, c B, why string) {
		bad := d.bad(E.bdd.And(ok, E.bdd.Not(c)), nil)
		R.Ob(rule, what, d.never(bad), pos, "%s is accepted, if %s", why, E.BStr(bad))
	}
	H := d.typ("Header")
	head := func(f string) *Term { return d.get(H, E.Int(0), f) }
	holds(r31head, "length", E.cmpInt("<=", E.Int(40), E.Len(d.data), ok), "data without a header")
	holds(r31head, "version", E.bdd.Or(E.Eq(head("Version"), E.Int(1), ok), E.Eq(head("Version"), E.Int(2), ok)), "another version")
	holds(r31head, "generations", E.Eq(head("G1"), head("G2"), ok), "an uncommitted file")
	magic := d.magic(ok)
	R.Ob(r31head, "tag", magic, pos, "data without the tag is accepted")
	R.Ob(r31head, "the header", E.Simp(d.rs[0], ok) == d.rec(H, E.Int(0)), pos, "it is %s", E.Simp(d.rs[0], ok))

	// the table of contents
	n := head("Toc")
	tocs := E.Simp(d.rs[1], ok)
	holds(r31toc, "number", E.Eq(E.Len(tocs), n, ok), "another number of entries")
	i, j := E.Sym("i", tInt), E.Sym("j", tInt)
	in := func(i *Term) B { return E.bdd.And(E.cmpInt("<=", E.Int(0), i, True), E.cmpInt("<", i, n, True)) }
	T := d.typ("Toc")
	ent := E.Read(E.IndexAddr(tocs, i, types.NewPointer(T)), E.bdd.And(ok, in(i)))
	want := d.rec(T, d.tocAt(i))
	bad := d.bad(E.bdd.AndAll(ok, in(i), E.bdd.Not(E.Eq(ent, want, True))), nil)
	bad = d.instancesAt(bad, i)
	R.Ob(r31toc, "entries", d.never(bad), pos, "they are %s", ent)
	ti, tj := d.toc(i, "Type"), d.toc(j, "Type")
	bad = d.instancesAt(E.bdd.AndAll(ok, in(i), E.bdd.Not(E.bdd.And(E.cmpInt("<=", E.Int(1), ti, True), E.cmpInt("<=", ti, E.Int(5), True)))), i)
	R.Ob(r31toc, "types", d.never(bad), pos, "other types are accepted, if %s", E.BStr(bad))
	bad = E.bdd.AndAll(ok, in(i), in(j), E.cmpInt("<", j, i, True), E.Eq(ti, tj, True))
	bad = d.instancesAt(d.instancesAt(bad, i), j)
	R.Ob(r31toc, "each type once", d.never(bad), pos, "types that occur twice are accepted, if %s", E.BStr(bad))

	// the tables
	for k, t := range []struct {
		toc    int64
		t1, t2 string
	}{{3, "Metric1", "Metric2"}, {4, "Value", "Value"}, {2, "Instance1", "Instance2"}, {1, "InstanceDomain", "InstanceDomain"}, {5, "String", "String"}} {
		s := &section{dumpRun: d, ok: ok, name: d.fn.Signature.Results().At(k + 2).Name(), toc: t.toc, i: i, n: n}
		s.typ[0], s.typ[1] = d.typ(t.t1), d.typ(t.t2)
		s.ver = head("Version")
		s.table(d.rs[k+2], in)
	}
	R.AtLeast("tables", 5)
	R.AtLeast("records put into a table", 5)
}

// magic: under ok the data starts with the tag.
func (d *dumpRun) magic(ok B) bool {
	E := d.Engine
	H := d.typ("Header")
	str := types.Typ[types.String]
	p := E.FieldAddr(d.rec(H, E.Int(0)), H, 0)
	arr := E.intern(&Term{op: "arrayslice", args: []*Term{p}, typ: types.NewSlice(types.Typ[types.Byte])})
	for _, b := range []*Term{arr, d.data} {
		all := True
		for i, c := range "MMV" {
			x := E.ReadAt(E.IndexAddr(b, E.Int(int64(i)), types.Typ[types.Byte]), ok, 0)
			all = E.bdd.And(all, E.Eq(x, E.Int(int64(c)), ok))
		}
		if d.never(E.bdd.And(ok, E.bdd.Not(all))) {
			return true
		}
		for _, n := range []int64{3, 4} {
			sl := E.App("slice", "", b.typ, b, E.Int(0), E.Int(n))
			for _, x := range E.withOp("strof", ok) {
				if a := x.args[0]; a.op == sl.op && a.args[0] == b && a.args[1] == E.Int(0) && a.args[2] == E.Int(n) {
					if d.never(E.bdd.And(ok, E.bdd.Not(E.Eq(x, E.Str("MMV\x00"[:n]), ok)))) {
						return true
					}
				}
			}
		}
	}
	_ = str
	return false
}

// withOp finds the terms of a kind in a condition.
func (E *Engine) withOp(op string, b B) []*Term {
	var r []*Term
	E.subterms(nil, []B{b}, func(t *Term) {
		if t.op == op {
			r = append(r, t)
		}
	})
	return r
}

// section is one section of the file and its table.
type section struct {
	*dumpRun
	ok   B
	name string
	toc  int64
	typ  [2]types.Type // by version
	ver  *Term
	i, n *Term
}

func (s *section) table(t *Term, in func(*Term) B) {
	E, R := s.Engine, s.R
	pos := s.P.pos(s.fn.Pos())
	R.Count("tables", 1)
	for _, l := range leavesOf(t) {
		lg := E.bdd.And(l.g, s.ok)
		if s.never(lg) {
			continue
		}
		switch l.t.op {
		case "nil":
			// only without a section
			bad := E.bdd.AndAll(lg, in(s.i), E.Eq(s.toc0(s.i), E.Int(s.toc), True))
			bad = s.instancesAt(bad, s.i)
			R.Ob(r31tab, s.name, s.never(bad), pos, "there is none, if %s", E.BStr(bad))
		case "makemap":
			s.filled(l.t, lg, in, nil)
		default:
			R.Ob(r31tab, s.name, false, pos, "it is %s", l.t)
		}
	}
}

func (s *section) toc0(i *Term) *Term { return s.dumpRun.toc(i, "Type") }

// filled decides what a map holds under g.
func (s *section) filled(m *Term, g B, in func(*Term) B, seen []*Term) {
	E, R := s.Engine, s.R
	for _, x := range seen {
		if x == m {
			R.Undecided(s.name, "the table is filled from itself")
			return
		}
	}
	n := 0
	for _, e := range s.ev {
		switch e.kind {
		case "mapstore", "mapdelete":
		default:
			continue
		}
		for _, l := range leavesOf(e.loc) {
			sub, ok := s.match(l.t, m)
			if !ok {
				continue
			}
			eg := E.SubstB(E.bdd.And(e.g, l.g), sub)
			if s.never(E.bdd.And(eg, g)) {
				continue
			}
			pos := s.P.pos(e.pos)
			what := s.name + ", " + s.at(e)
			if e.kind == "mapdelete" {
				R.Ob(r31tab, what, false, pos, "a record is removed")
				continue
			}
			n++
			s.entry(e, m, sub, g, eg, in, append(seen, m))
		}
	}
	R.Ob(r31tab, s.name+" has records", n > 0, s.P.pos(s.fn.Pos()), "nothing is put into the table")
}

// match finds the iterations that a map of an event is one of.
func (s *section) match(t, m *Term) (map[*Term]*Term, bool) {
	if t.op != m.op || t.aux != m.aux || len(t.args) != len(m.args) {
		return nil, false
	}
	sub := map[*Term]*Term{}
	for i, a := range t.args {
		if a == m.args[i] {
			continue
		}
		if a.op != "it" {
			return nil, false
		}
		sub[a] = m.args[i]
	}
	return sub, true
}

func (s *section) entry(e *Event, m *Term, sub map[*Term]*Term, g, eg B, in func(*Term) B, seen []*Term) {
	E, R := s.Engine, s.R
	pos := s.P.pos(e.pos)
	what := s.name + ", " + s.at(e)
	if len(e.loops) == 0 {
		R.Ob(r31tab, what, false, pos, "it is not put there for each record")
		return
	}
	L := e.loops[len(e.loops)-1]
	if L.trip == nil {
		R.Undecided(what, "the number of records is not known")
		return
	}
	trip, at := E.Subst(L.trip, sub), E.Subst(L.it, sub)
	key, val := E.Subst(e.args[0], sub), E.Subst(e.val, sub)
	it := E.bdd.And(E.cmpInt("<=", E.Int(0), at, True), E.cmpInt("<", at, trip, True))
	all := func(rule, what string, b B, why string, a ...interface{}) {
		for _, x := range []*Term{at} {
			b = s.instancesAt(b, x)
		}
		for _, x := range sub {
			b = s.instancesAt(b, x)
		}
		b = s.instances(b, key, val)
		R.Ob(rule, what, s.never(b), pos, "%s, if %s", fmt.Sprintf(why, a...), E.BStr(b))
	}
	g = E.bdd.And(g, it)
	// it is put there
	all(r31all, what, E.bdd.And(g, E.bdd.Not(eg)), "it is left out")
	if k := E.Simp(key, g); k.op == "key" && k.args[1] == at && k.args[0].op == "makemap" {
		// what is in another map
		from := k.args[0]
		for _, l := range leavesOf(val) {
			v := l.t
			if v.op == "tassert" {
				v = v.args[0]
			}
			if fm, fk := elementIn(v); fm == from && fk == k {
				continue
			}
			b := E.bdd.AndAll(g, l.g)
			E.atEvent(e, func() {
				b = E.bdd.And(b, E.SubstB(E.Formula(E.Read(E.HasAddr(from, k, mapElem(k)), True)), sub))
			})
			all(r31tab, what, b, "it is %s instead", l.t)
		}
		s.filled(from, g, in, seen)
		return
	}
	R.Count("records put into a table", 1)
	// which section it is of
	var idx *Term
	T := s.dumpRun.typ("Toc")
	E.subterms([]*Term{key}, nil, func(t *Term) {
		if t.op == "cast" && t.typ == T && idx == nil {
			if a := t.args[0]; a.op == "indexaddr" && a.args[0] == s.data {
				l := asLin(E.Sub(a.args[1], E.Int(40), ikind{}))
				if len(l.at) == 1 && l.co[0].Int64() == 16 && l.k.Sign() == 0 {
					idx = l.at[0]
				} else if len(l.at) == 0 && l.k.Int64()%16 == 0 {
					idx = E.Int(l.k.Int64() / 16)
				}
			}
		}
	})
	if idx == nil {
		R.Ob(r31tab, what, false, pos, "the offset is %s", key)
		return
	}
	all(r31tab, what+", section", E.bdd.And(g, E.bdd.Not(E.bdd.And(in(idx), E.Eq(s.toc0(idx), E.Int(s.toc), True)))), "it is of another section")
	all(r31tab, what+", number", E.bdd.And(g, E.bdd.Not(E.Eq(trip, s.dumpRun.toc(idx, "Count"), True))), "%s records are read", trip)
	for v := range s.typ {
		gv := E.bdd.And(g, E.Eq(s.ver, E.Int(int64(v+1)), g))
		if s.never(gv) {
			R.Undecided(what, "version %d cannot be accepted", v+1)
			continue
		}
		size := s.sizeof(s.typ[v])
		off := E.Add(s.dumpRun.toc(idx, "Offset"), E.Mul(at, E.Int(size), ikind{64, false}), ikind{64, false})
		vw := fmt.Sprintf("%s, version %d", what, v+1)
		all(r31tab, vw+", offset", E.bdd.And(gv, E.bdd.Not(E.Eq(key, off, gv))), "it is at %s", E.Simp(key, gv))
		rec := E.Simp(s.rec(s.typ[v], E.Simp(key, gv)), gv)
		for _, l := range leavesOf(E.Simp(val, gv)) {
			x := l.t
			if x.op == "iface" {
				x = x.args[0]
			}
			if x == rec {
				continue
			}
			b := E.bdd.And(gv, l.g)
			if x.op == "cast" && x.typ == s.typ[v] && x.args[0].op == "indexaddr" && x.args[0].args[0] == s.data {
				b = E.bdd.And(b, E.bdd.Not(E.Eq(x.args[0].args[1], key, b)))
			}
			all(r31tab, vw+", record", b, "it is %s", l.t)
		}
	}
}
