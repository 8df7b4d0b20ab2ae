package main

import (
	"fmt"
	"go/types"
	"strings"
)

// The printer of dumps.

func init() {
	checks["C32"] = check{"every record is printed, and what fails or dangles is an error, for symbolic tables of a dump", checkC32}
}

const (
	r32panic = "no access panics"
	r32fail  = "a failing write is reported"
	r32dang  = "a dangling reference is reported"
	r32print = "every record is printed"
)

type printRun struct {
	*dumpRun
	head, tocs, w *Term
	tables        map[string]*Term // by the name of what they hold
	ver           *Term
	ok            B // it succeeds
}

// record is a kind of record: its section, and its types by version.
type record struct {
	name string
	toc  int64
	typ  [2]string
}

var records = []record{
	{"indom", 1, [2]string{"InstanceDomain", "InstanceDomain"}},
	{"instance", 2, [2]string{"Instance1", "Instance2"}},
	{"metric", 3, [2]string{"Metric1", "Metric2"}},
	{"value", 4, [2]string{"Value", "Value"}},
	{"string", 5, [2]string{"String", "String"}},
}

func (d *printRun) size(r record, v int) int64 { return d.sizeof(d.typ(r.typ[v])) }

func newPrintRun(P *Program, R *Report) *printRun {
	fn := P.fn(dumpPath, "Write")
	if fn == nil {
		R.Undecided("Write", "it is not found")
		return nil
	}
	d := &printRun{dumpRun: &dumpRun{World: newWorld(P), R: R, fn: fn}, tables: map[string]*Term{}}
	E := d.Engine
	E.obligations = true
	var args []*Term
	for _, p := range fn.Params {
		a := E.Sym(p.Name(), p.Type())
		args = append(args, a)
		switch t := p.Type().Underlying().(type) {
		case *types.Pointer:
			if n := namedOf(t.Elem()); n != nil && n.Obj().Name() == "Header" {
				d.head = a
			}
		case *types.Slice:
			if n := namedOf(deref(t.Elem())); n != nil && n.Obj().Name() == "Toc" {
				d.tocs = a
			}
		case *types.Map:
			n := namedOf(t.Elem())
			if n == nil {
				n = namedOf(deref(t.Elem()))
			}
			if n == nil {
				break
			}
			for _, r := range records {
				if n.Obj().Name() == r.typ[0] || n.Obj().Name()+"1" == r.typ[0] {
					d.tables[r.name] = a
				}
			}
		case *types.Interface:
			d.w = a
		}
	}
	if d.head == nil || d.tocs == nil || d.w == nil || len(d.tables) != len(records) || fn.Signature.Results().Len() != 1 {
		R.Undecided("Write", "its parameters are not recognised")
		return nil
	}
	for _, r := range records {
		if d.typ(r.typ[0]) == nil || d.typ(r.typ[1]) == nil {
			R.Undecided(r.name, "there is no such type")
			return nil
		}
	}
	nonNil, inv := E.nonNilHook, E.invariants
	E.nonNilHook = func(t *Term) bool {
		if t == d.head || t == d.w {
			return true
		}
		if l := loadOf(t); l != nil && t.aux == "" && (l.op == "indexaddr" && l.args[0] == d.tocs || l.op == "mapaddr" && d.isTable(l.args[0])) {
			return true
		}
		return nonNil(t)
	}
	H := d.typ("Header")
	st := H.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == "Version" {
			d.ver = E.Read(E.FieldAddr(d.head, H, i), True)
		}
	}
	if d.ver == nil {
		R.Undecided("Write", "the header has no version")
		return nil
	}
	v1, v2 := E.Eq(d.ver, E.Int(1), True), E.Eq(d.ver, E.Int(2), True)
	// what the tables of a dump hold
	E.invariants = func(E *Engine, loc, v *Term) *Term {
		if loc.op == "mapaddr" && isIface(loc.typ) {
			for _, r := range records {
				if d.tables[r.name] == loc.args[0] {
					p1, p2 := types.NewPointer(d.typ(r.typ[0])), types.NewPointer(d.typ(r.typ[1]))
					return E.Phi([]Leaf{{v1, E.Iface(p1, d.recPtr(loc, p1))}, {E.bdd.Not(v1), E.Iface(p2, d.recPtr(loc, p2))}})
				}
			}
		}
		if inv != nil {
			return inv(E, loc, v)
		}
		return nil
	}
	E.nonNilHook = func(old func(t *Term) bool) func(t *Term) bool {
		return func(t *Term) bool { return t.op == "call" && strings.HasPrefix(t.aux, "record") || old(t) }
	}(E.nonNilHook)
	g := E.bdd.Or(v1, v2)
	d.rs, d.rg = d.CallFn(fn, args, nil, g, nil, nil)
	d.ev = d.events
	d.ok = E.bdd.AndAll(d.rg, E.Eq(d.rs[0], E.Nil(), d.rg))
	R.took(E, "Write")
	return d
}

// recPtr is the record of a version that an entry of a table is.
func (d *printRun) recPtr(loc *Term, p types.Type) *Term {
	return d.App("call", "record", p, loc)
}

func (d *printRun) isTable(t *Term) bool {
	for _, x := range d.tables {
		if x == t {
			return true
		}
	}
	return false
}

// has is the condition that a table has an entry at an offset.
func (d *printRun) has(table string, off *Term, g B) B {
	m := d.tables[table]
	el := m.typ.Underlying().(*types.Map).Elem()
	return d.Formula(d.ReadAt(d.HasAddr(m, off, el), g, 0))
}

// entry is the record of a table at an offset.
func (d *printRun) entry(r record, off *Term, v int) *Term {
	m := d.tables[r.name]
	el := m.typ.Underlying().(*types.Map).Elem()
	p := types.NewPointer(d.typ(r.typ[v]))
	loc := d.MapAddr(m, off, el)
	return d.dist([]*Term{loc}, func(a []*Term) *Term {
		if isIface(el) {
			return d.recPtr(a[0], p)
		}
		return d.ReadAt(a[0], True, 0)
	})
}

// at reads the field of a record that is at an offset within it.
func (d *printRun) field(r record, v int, p *Term, off int64) *Term {
	T := d.typ(r.typ[v])
	loc := d.fieldAt(T, p, off)
	if loc == nil {
		panic(fmt.Sprintf("no field of %s at %d", T, off))
	}
	return d.ReadAt(loc, True, 0)
}

func (d *printRun) fieldAt(T types.Type, p *Term, off int64) *Term {
	st := T.Underlying().(*types.Struct)
	var fs []*types.Var
	for i := 0; i < st.NumFields(); i++ {
		fs = append(fs, st.Field(i))
	}
	for i, o := range types.SizesFor("gc", "amd64").Offsetsof(fs) {
		f := fs[i].Type()
		if off < o || off >= o+d.sizeof(f) {
			continue
		}
		if _, ok := f.Underlying().(*types.Struct); ok {
			return d.fieldAt(f, d.FieldAddr(p, T, i), off-o)
		}
		if o == off {
			return d.FieldAddr(p, T, i)
		}
	}
	return nil
}

// tocField reads a field of an entry of the table of contents.
func (d *printRun) tocField(i *Term, name string) *Term {
	T := d.typ("Toc")
	st := T.Underlying().(*types.Struct)
	p := d.ReadAt(d.IndexAddr(d.tocs, i, types.NewPointer(T)), True, 0)
	for k := 0; k < st.NumFields(); k++ {
		if st.Field(k).Name() == name {
			return d.ReadAt(d.FieldAddr(p, T, k), True, 0)
		}
	}
	panic("no field " + name)
}

func checkC32(P *Program, R *Report) {
	d := newPrintRun(P, R)
	if d == nil {
		return
	}
	E := d.Engine
	R.Ob("it can succeed", "Write", !d.never(d.ok), P.pos(d.fn.Pos()), "it always fails")
	for _, e := range d.ev {
		if d.never(e.g) {
			continue
		}
		switch e.kind {
		case "oblig":
			bad := d.bad(E.bdd.And(e.g, E.bdd.Not(e.ok)), e.loops, e.args...)
			R.Ob(r32panic, d.at(e), d.never(bad), P.pos(e.pos), "%s, if %s", e.name, E.BStr(bad))
			R.Count("checked accesses", 1)
		case "panic":
			R.Ob(r32panic, d.at(e), false, P.pos(e.pos), "it panics, if %s", E.BStr(e.g))
		case "ext", "invoke":
			if len(e.res) == 0 || !d.reports(e) {
				continue
			}
			err := e.res[len(e.res)-1]
			bad := d.bad(E.bdd.AndAll(e.g, d.ok, E.bdd.Not(E.Eq(err, E.Nil(), e.g))), e.loops)
			R.Ob(r32fail, d.at(e), d.never(bad), P.pos(e.pos), "the error of %s is lost, if %s", e.name, E.BStr(bad))
			R.Count("writes", 1)
		}
	}
	d.flushed()
	R.AtLeast("writes", 1)
	R.AtLeast("printed fields", 38)
	d.loops()

	i, j := E.Sym("i", tInt), E.Sym("j", tInt)
	for _, r := range records {
		for v := 0; v < 2; v++ {
			d.record(r, v, i, j)
		}
	}
	R.AtLeast("references", 22)
	R.AtLeast("kinds of records", 10)
}

// reports: the last result of a call is an error of writing.
func (d *printRun) reports(e *Event) bool {
	if !types.Identical(e.res[len(e.res)-1].typ, errType) {
		return false
	}
	if e.fn != nil {
		switch e.fn.String() {
		case "github.com/pkg/errors.Wrap", "github.com/pkg/errors.Wrapf", "github.com/pkg/errors.New", "github.com/pkg/errors.Errorf", "fmt.Errorf", "errors.New":
			return false
		}
		if len(e.args) > 0 && !strings.HasSuffix(e.fn.String(), ".Flush") && d.buffered(e.args[0]) {
			return false // it is reported by Flush
		}
	}
	return true
}

// prints: a call writes its arguments.
func (d *printRun) prints(e *Event) bool {
	if e.kind == "invoke" {
		return len(e.args) > 0 && d.toWriter(e.args[0])
	}
	if e.fn == nil {
		return false
	}
	switch e.fn.Pkg.Pkg.Path() {
	case "fmt", "io", "bufio":
		return len(e.args) > 0 && d.toWriter(e.args[0])
	}
	return false
}

// toWriter: something writes to the writer that Write is given.
func (d *printRun) toWriter(t *Term) bool {
	for _, l := range leavesOf(t) {
		if !d.Engine.contains(l.t, d.w) && !d.buffered(l.t) {
			return false
		}
	}
	return true
}

// buffered: a writer keeps its first error.
func (d *printRun) buffered(t *Term) bool {
	for _, l := range leavesOf(t) {
		x := l.t
		if x.op == "iface" {
			x = x.args[0]
		}
		if x.typ == nil || types.TypeString(x.typ, nil) != "*bufio.Writer" {
			return false
		}
	}
	return true
}

// flushed: what is kept in a buffer is written.
func (d *printRun) flushed() {
	E, done := d.Engine, False
	var kept *Event
	for _, e := range d.ev {
		if e.kind != "ext" || len(e.args) == 0 || !d.buffered(e.args[0]) || e.fn == nil {
			continue
		}
		switch {
		case !strings.HasSuffix(e.fn.String(), ".Flush"):
			kept = e
			done = False
		case len(e.loops) == 0:
			done = E.bdd.Or(done, e.g)
		}
	}
	if kept != nil {
		bad := E.bdd.And(d.ok, E.bdd.Not(done))
		d.R.Ob(r32fail, "the buffer", d.never(bad), d.P.pos(kept.pos), "it is not flushed, if %s", E.BStr(bad))
	}
}

// loops: all loops end.
func (d *printRun) loops() {
	for _, L := range d.loopIdx {
		if L.unrolled {
			continue
		}
		d.R.Ob("it returns", "a loop of "+L.fr.fn.Name(), L.trip != nil && L.trip.op != "trip", d.P.pos(headPos(L.head)), "the number of iterations is not known")
		d.R.Count("loops", 1)
	}
}

// record decides what holds of the j-th record of the i-th section.
func (d *printRun) record(r record, v int, i, j *Term) {
	E, R := d.Engine, d.R
	R.Count("kinds of records", 1)
	u := ikind{64, false}
	pos := d.P.pos(d.fn.Pos())
	what := fmt.Sprintf("%s, version %d", r.name, v+1)
	n := d.tocField(i, "Count")
	off := E.Add(d.tocField(i, "Offset"), E.Mul(j, E.Int(d.size(r, v)), u), u)
	g := E.bdd.AndAll(d.ok, E.Eq(d.ver, E.Int(int64(v+1)), True),
		E.cmpInt("<=", E.Int(0), i, True), E.cmpInt("<", i, E.Len(d.tocs), True), E.Eq(d.tocField(i, "Type"), E.Int(r.toc), True),
		E.cmpInt("<=", E.Int(0), j, True), E.cmpInt("<", j, n, True))
	known := func(b B) B {
		b = E.instancesAt(b, i)
		b = E.instancesAt(b, j)
		return b
	}
	need := func(name string, c B) {
		bad := known(E.bdd.And(g, E.bdd.Not(c)))
		R.Ob(r32dang, what+": "+name, d.never(bad), pos, "it is printed although there is none, if %s", E.BStr(bad))
		R.Count("references", 1)
	}
	imp := func(a, b B) B { return E.bdd.Or(E.bdd.Not(a), b) }
	str := func(name string, off *Term, optional bool) {
		c := d.has("string", off, True)
		if optional {
			c = imp(E.bdd.Not(E.Eq(off, E.Int(0), True)), c)
		}
		need(name, c)
	}
	need("the record", d.has(r.name, off, True))
	p := d.entry(r, off, v)
	f := func(o int64) *Term { return d.field(r, v, p, o) }
	switch r.name {
	case "instance":
		need("its instance domain", d.has("indom", f(0), True))
		if v == 1 {
			str("its name", f(16), false)
		}
	case "indom":
		str("its short text", f(16), true)
		str("its long text", f(24), true)
	case "metric":
		if v == 1 {
			str("its name", f(0), false)
			str("its short text", f(32), true)
			str("its long text", f(40), true)
		} else {
			str("its short text", f(88), true)
			str("its long text", f(96), true)
		}
	case "value":
		need("its metric", d.has("metric", f(16), True))
		mr := records[2]
		m := d.entry(mr, f(16), v)
		typ, indom := int64(68), int64(80)
		if v == 1 {
			str("the name of its metric", d.field(mr, v, m, 0), false)
			typ, indom = 12, 24
		}
		isStr := E.Eq(d.field(mr, v, m, typ), E.Int(6), True)
		need("its string", imp(isStr, d.has("string", E.Conv(f(8), types.Typ[types.Uint64], True), True)))
		in := d.field(mr, v, m, indom)
		none := E.bdd.Or(E.Eq(in, E.Int(0), True), E.Eq(E.Conv(in, types.Typ[types.Int32], True), E.Int(-1), True))
		need("its instance", E.bdd.Or(none, d.has("instance", f(24), True)))
		if v == 1 {
			ir := records[1]
			need("the name of its instance", E.bdd.Or(none, d.has("string", d.field(ir, v, d.entry(ir, f(24), v), 16), True)))
		}
	}
	// it is printed, with what it holds
	var outs []printed
	for _, e := range d.ev {
		if e.kind != "ext" && e.kind != "invoke" || len(e.loops) < 2 || E.never(E.bdd.And(e.g, d.ok)) || !d.prints(e) {
			continue
		}
		a, b := e.loops[len(e.loops)-2], e.loops[len(e.loops)-1]
		if a.trip == nil || b.trip == nil {
			continue
		}
		sub := map[*Term]*Term{a.it: i}
		bi := E.Subst(b.it, sub)
		s2 := map[*Term]*Term{bi: j}
		do := func(t *Term) *Term { return E.Subst(E.Subst(t, sub), s2) }
		all := E.bdd.And(E.cmpInt("<", i, E.Subst(a.trip, sub), True), E.cmpInt("<", j, do(b.trip), True))
		eg := E.bdd.And(all, E.SubstB(E.SubstB(e.g, sub), s2))
		if E.bdd.And(eg, g) == False {
			continue
		}
		for k, x := range e.args {
			if k == 0 {
				continue
			}
			outs = append(outs, printed{eg, do(x)})
		}
	}
	shown := func(name string, when B, is func(t *Term) bool) {
		c, n := False, 0
		for _, o := range outs {
			for _, l := range leavesOf(o.t) {
				f := False
				E.subterms([]*Term{l.t}, nil, func(t *Term) {
					if is(t) {
						f = True
					}
				})
				if f != False {
					c = E.bdd.Or(c, E.bdd.And(o.g, l.g))
					n++
				}
			}
		}
		bad := known(E.bdd.AndAll(g, when, E.bdd.Not(c)))
		R.Ob(r32print, what+": "+name, n > 0 && d.never(bad), pos, "it is not printed (%d places), if %s", n, E.BStr(bad))
		R.Count("printed fields", 1)
	}
	fld := func(r record, p *Term, o int64) func(t *Term) bool {
		var locs []*Term
		for _, l := range leavesOf(p) {
			locs = append(locs, d.fieldAt(d.typ(r.typ[v]), l.t, o))
		}
		return func(t *Term) bool {
			for _, l := range locs {
				if t == l {
					return true
				}
			}
			return false
		}
	}
	strs := func(off *Term) func(t *Term) bool {
		sr := records[4]
		return fld(sr, d.entry(sr, off, v), 0)
	}
	text := func(name string, off *Term) {
		shown(name, E.bdd.Not(E.Eq(off, E.Int(0), True)), strs(off))
	}
	name := func(what string, when B, r record, p *Term, o int64) {
		if v == 0 {
			shown(what, when, fld(r, p, o))
		} else {
			shown(what, when, strs(d.field(r, v, p, o)))
		}
	}
	switch r.name {
	case "instance":
		shown("its number", True, fld(r, p, 12))
		name("its name", True, r, p, 16)
	case "indom":
		shown("its number", True, fld(r, p, 0))
		shown("its count", True, fld(r, p, 4))
		text("its short text", f(16))
		text("its long text", f(24))
	case "metric":
		m := int64(64)
		if v == 1 {
			m = 8
		}
		name("its name", True, r, p, 0)
		shown("its number", True, fld(r, p, m))
		shown("its type", True, fld(r, p, m+4))
		shown("its semantics", True, fld(r, p, m+8))
		shown("its unit", True, fld(r, p, m+12))
		none := E.bdd.Or(E.Eq(f(m+16), E.Int(0), True), E.Eq(E.Conv(f(m+16), types.Typ[types.Int32], True), E.Int(-1), True))
		shown("its instance domain", E.bdd.Not(none), fld(r, p, m+16))
		text("its short text", f(m+24))
		text("its long text", f(m+32))
	case "value":
		mr, ir := records[2], records[1]
		m := d.entry(mr, f(16), v)
		typ, indom := int64(68), int64(80)
		if v == 1 {
			typ, indom = 12, 24
		}
		name("the name of its metric", True, mr, m, 0)
		isStr := E.Eq(d.field(mr, v, m, typ), E.Int(6), True)
		shown("its value", E.bdd.Not(isStr), fld(r, p, 0))
		shown("its string", isStr, strs(E.Conv(f(8), types.Typ[types.Uint64], True)))
		in := d.field(mr, v, m, indom)
		none := E.bdd.Or(E.Eq(in, E.Int(0), True), E.Eq(E.Conv(in, types.Typ[types.Int32], True), E.Int(-1), True))
		name("the name of its instance", E.bdd.Not(none), ir, d.entry(ir, f(24), v), 16)
	case "string":
		shown("its text", True, fld(r, p, 0))
	}
}

type printed struct {
	g B
	t *Term
}
