package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The fields of the records, and what they have to hold.

// object is what a record describes.
type object struct {
	indom *Term // key of the instance domain
	d     *Term // the instance domain
	inst  *Term // name of the instance
	i     *Term // the instance
	mkey  *Term
	m     *Term // the metric, a pointer to its type
	inv   B     // what holds of it since it was made and registered
}

// method evaluates a method of an object.
func (s *startRun) method(recv *Term, T types.Type, name string) *Term {
	fn := s.P.ssa.LookupMethod(T, s.P.named(modPath, "PCPClient").Obj().Pkg(), name)
	if fn == nil {
		s.R.Undecided(s.what(), "no method %s of %s", name, T)
		return nil
	}
	return s.call1(fn, recv)
}

func (s *startRun) call1(fn *ssa.Function, args ...*Term) *Term {
	st := s.saveState()
	n := len(s.undecided)
	rs, rg := s.CallFn(fn, args, nil, s.g, nil, nil)
	s.restoreState(st)
	if len(s.undecided) > n || len(rs) != 1 || !s.implies(s.g, rg) {
		s.R.Undecided(s.what(), "%s cannot be evaluated", fn)
		return nil
	}
	return rs[0]
}

// keysOf are the keys of a map at iterations of a slot or write that its writes refer to.
func (s *startRun) keysOf(sl *slot, m *Term) []*Term {
	var r []*Term
	seen := map[*Term]bool{}
	for _, a := range sl.acc {
		its := map[*Term]bool{}
		for _, l := range a.e.loops {
			its[l.it] = true
		}
		s.subterms([]*Term{a.off, a.e.val}, []B{a.g}, func(t *Term) {
			if t.op == "key" && t.args[0] == m && its[t.args[1]] && !seen[t] {
				seen[t] = true
				r = append(r, t)
			}
		})
	}
	return r
}

func (s *startRun) mapField(base *Term, typ, f string) (*Term, types.Type) {
	l := s.field(base, typ, f)
	if l == nil {
		s.R.Undecided(s.what(), "no field %s.%s", typ, f)
		return nil, nil
	}
	n := s.P.named(modPath, typ).Underlying().(*types.Struct)
	mt, ok := n.Field(fieldIndex(s.P.named(modPath, typ), f)).Type().Underlying().(*types.Map)
	if !ok {
		s.R.Undecided(s.what(), "%s.%s is no map", typ, f)
		return nil, nil
	}
	return s.Simp(s.Read(l, s.g), s.g), mt.Elem()
}

func (s *startRun) isInstanceMetric() bool {
	return s.field(s.c, s.sc.mtype, "pcpInstanceMetric") != nil || s.sc.mtype == "PCPInstanceMetric"
}

// objectOf finds the object a slot is for.
func (s *startRun) objectOf(sl *slot) *object {
	const rule = "every record is written for an object of the registry"
	o := &object{inv: True}
	switch sl.kind {
	case "indom", "instance":
		D, el := s.mapField(s.r, "PCPRegistry", "instanceDomains")
		if D == nil {
			return nil
		}
		ks := s.keysOf(sl, D)
		if !s.ob(rule, s.at(sl.rcv)+" for "+sl.kind, len(ks) == 1, sl.rcv, "it is for %d objects", len(ks)) {
			return nil
		}
		o.indom = ks[0]
		o.d = s.Read(s.MapAddr(D, ks[0], el), s.g)
		if sl.kind == "instance" {
			I, iel := s.mapField(o.d, "PCPInstanceDomain", "instances")
			if I == nil {
				return nil
			}
			is := s.keysOf(sl, I)
			if !s.ob(rule, s.at(sl.rcv)+" for "+sl.kind, len(is) == 1, sl.rcv, "it is for %d objects", len(is)) {
				return nil
			}
			o.inst = is[0]
			o.i = s.Read(s.MapAddr(I, is[0], iel), s.g)
		}
	case "metric", "value":
		M, el := s.mapField(s.r, "PCPRegistry", "metrics")
		if M == nil {
			return nil
		}
		ks := s.keysOf(sl, M)
		if !s.ob(rule, s.at(sl.rcv)+" for "+sl.kind, len(ks) == 1, sl.rcv, "it is for %d objects", len(ks)) {
			return nil
		}
		o.mkey = ks[0]
		o.m = s.Tassert(s.Read(s.MapAddr(M, ks[0], el), s.g), types.NewPointer(s.P.named(modPath, s.sc.mtype)))
		if sl.kind == "value" && s.isInstanceMetric() {
			if !s.sc.insts {
				return nil // its instance domain has none
			}
			d := s.method(o.m, o.m.typ, "Indom")
			if d == nil {
				return nil
			}
			name := s.method(d, d.typ, "Name")
			D, del := s.mapField(s.r, "PCPRegistry", "instanceDomains")
			if name == nil || D == nil {
				return nil
			}
			o.indom = name
			o.d = s.Read(s.MapAddr(D, name, del), s.g)
			o.inv = s.Formula(s.Read(s.HasAddr(D, name, del), s.g))
			if s.never(s.bdd.And(sl.rcv.g, o.inv)) {
				return nil
			}
			var is []*Term
			for _, d := range []*Term{o.d, d} {
				if I, _ := s.mapField(d, "PCPInstanceDomain", "instances"); I != nil {
					is = append(is, s.keysOf(sl, I)...)
				}
			}
			if !s.ob(rule, s.at(sl.rcv)+" for "+sl.kind, len(is) >= 1 && allSame(is), sl.rcv, "it is for %d objects", len(is)) {
				return nil
			}
			o.inst = is[0]
		}
		if sl.kind == "value" {
			o.inv = s.bdd.And(o.inv, s.typed1(o))
		}
	}
	return o
}

// isString: the metric has the type of strings.
func (s *startRun) isString(o *object) B {
	t := s.method(o.m, o.m.typ, "Type")
	c := s.P.constVal(modPath, "StringType")
	if t == nil || c == nil {
		s.R.Undecided(s.what(), "no type of strings")
		return False
	}
	return s.Eq(t, s.BigInt(c), s.g)
}

// typed1: a value has the type of its metric, which C09, C10 and C16 decide.
func (s *startRun) typed1(o *object) B {
	cell, has := s.cell(o.m, s.sc.mtype, o.inst)
	t := s.method(o.m, o.m.typ, "Type")
	if cell == nil || t == nil {
		s.R.Undecided(s.what(), "no value of %s", s.sc.mtype)
		return True
	}
	val := s.Read(cell, s.g)
	r, some := has, False
	for _, mt := range tMetricTypes {
		is := s.Eq(t, s.BigInt(s.P.constVal(modPath, mt)), s.g)
		r = s.bdd.And(r, s.bdd.Imp(is, s.IsType(val, goTypeOf(mt))))
		some = s.bdd.Or(some, is)
	}
	return s.bdd.And(r, some)
}

func allSame(ts []*Term) bool {
	for _, t := range ts {
		if t != ts[0] {
			return false
		}
	}
	return true
}

type recField struct {
	c, width int64 // width 0: a string
	name     string
	check    func(a *wacc) (bool, string)
	pad      bool
}

// ref: the field is the offset of the slot, and of the record in it.
func (s *startRun) ref(a *wacc, width int64, f func(sl *slot, d *Term, g B) (bool, string), none func(g B) (bool, string)) (bool, string) {
	for _, l := range s.boxed(a.e.val, a.g) {
		if l.t.op != "iface" || s.P.sizeOf(l.t.typ) != width {
			return false, fmt.Sprintf("%s is written, which is no offset of %d bytes", l.t, width)
		}
		v := l.t.args[0]
		ts := s.tokensIn(v)
		if len(ts) == 0 && v.op == "int" && v.k.Sign() == 0 && none != nil {
			if ok, d := none(l.g); !ok {
				return false, d
			}
			continue
		}
		if len(ts) != 1 {
			return false, fmt.Sprintf("%s is written, which is not the offset of one record", v)
		}
		if ts[0].snd == nil {
			continue // no such section
		}
		for v.op == "conv" {
			v = v.args[0]
		}
		if ok, d := f(ts[0], s.Sub(v, ts[0].base, k64), l.g); !ok {
			return false, d
		}
	}
	return true, ""
}

func isZero(t *Term) bool { return t.op == "int" && t.k.Sign() == 0 }

// strRef: the field is the offset of a block with this string, or 0 if it is empty.
func (s *startRun) strRef(want *Term, empty bool) func(a *wacc) (bool, string) {
	return func(a *wacc) (bool, string) {
		if want == nil {
			return false, "unknown"
		}
		isEmpty := s.cmpInt("==", s.Len(want), s.Int(0), a.g)
		var none func(g B) (bool, string)
		if empty {
			none = func(g B) (bool, string) {
				return s.implies(g, isEmpty), fmt.Sprintf("0 is written though %s may not be empty", want)
			}
		}
		return s.ref(a, 8, func(sl *slot, d *Term, g B) (bool, string) {
			if sl.kind != "string" || !isZero(d) {
				return false, fmt.Sprintf("%s+%s is not the offset of a string block", sl.base, d)
			}
			if empty && !s.never(s.bdd.And(g, isEmpty)) {
				return false, fmt.Sprintf("there is a block for %s even if it is empty", want)
			}
			return s.blockIs(sl, s.Iface(types.Typ[types.String], want), g)
		}, none)
	}
}

// blockIs: a string block has the string.
func (s *startRun) blockIs(sl *slot, want *Term, g B) (bool, string) {
	u := False
	for _, b := range sl.acc {
		if b.e.val.op == "raw" || allRaw(b.e.val) {
			continue
		}
		bg := s.bdd.And(b.g, g)
		if s.never(bg) {
			continue
		}
		if !s.implies(bg, s.Eq(b.e.val, want, bg)) {
			return false, fmt.Sprintf("the string block has %s, not %s", b.e.val, want)
		}
		u = s.bdd.Or(u, b.g)
	}
	return s.implies(g, u), "nothing is written to the string block"
}

func allRaw(v *Term) bool {
	for _, l := range leavesOf(v) {
		if l.t.op != "raw" {
			return false
		}
	}
	return true
}

func (s *startRun) isNum(want *Term, width int64) func(a *wacc) (bool, string) {
	return func(a *wacc) (bool, string) {
		if want == nil {
			return false, "unknown"
		}
		return s.num(a, want, width)
	}
}

func (s *startRun) isStr(want *Term) func(a *wacc) (bool, string) {
	return func(a *wacc) (bool, string) {
		if want == nil {
			return false, "unknown"
		}
		w := s.Iface(types.Typ[types.String], want)
		return s.implies(a.g, s.Eq(a.e.val, w, a.g)), fmt.Sprintf("%s is written, not %s", a.e.val, w)
	}
}

// uintField: the value of the only field of a type in a structure.
func (s *startRun) fieldOfType(base *Term, typ string, T types.Type) *Term {
	n := s.P.named(modPath, typ)
	if n == nil {
		return nil
	}
	st := n.Underlying().(*types.Struct)
	var r *Term
	for i := 0; i < st.NumFields(); i++ {
		if types.Identical(st.Field(i).Type(), T) {
			if r != nil {
				return nil
			}
			r = s.Read(s.FieldAddr(base, n, i), s.g)
		}
	}
	return r
}

func (s *startRun) readField(base *Term, typ, f string) *Term {
	l := s.field(base, typ, f)
	if l == nil {
		s.R.Undecided(s.what(), "no field %s.%s", typ, f)
		return nil
	}
	return s.Read(l, s.g)
}

// fields are those of the record of a slot.
func (s *startRun) fields(sl *slot, o *object, objs map[*slot]*object) []recField {
	zero := s.Int(0)
	switch sl.kind {
	case "indom":
		return []recField{
			{c: 0, width: 4, name: "id", check: s.isNum(s.method(o.d, o.d.typ, "ID"), 4)},
			{c: 4, width: 4, name: "number of instances", check: s.isNum(s.method(o.d, o.d.typ, "InstanceCount"), 4)},
			{c: 8, width: 8, name: "offset of the instances", check: func(a *wacc) (bool, string) {
				return s.ref(a, 8, func(sl *slot, d *Term, g B) (bool, string) {
					p := objs[sl]
					if sl.kind == "instance" && p == nil && !s.sc.insts {
						return true, ""
					}
					return sl.kind == "instance" && isZero(d) && p != nil && p.indom == o.indom && s.nInstances(sl, o), fmt.Sprintf("%s+%s is not the offset of its instances", sl.base, d)
				}, nil)
			}},
			{c: 16, width: 8, name: "short description", check: s.strRef(s.readField(o.d, "PCPInstanceDomain", "shortDescription"), true)},
			{c: 24, width: 8, name: "long description", check: s.strRef(s.readField(o.d, "PCPInstanceDomain", "longDescription"), true)},
		}
	case "instance":
		id := s.fieldOfType(o.i, "pcpInstance", types.Typ[types.Uint32])
		r := []recField{
			{c: 0, width: 8, name: "offset of the instance domain", check: func(a *wacc) (bool, string) {
				return s.ref(a, 8, func(sl *slot, d *Term, g B) (bool, string) {
					p := objs[sl]
					return sl.kind == "indom" && isZero(d) && p != nil && p.indom == o.indom, fmt.Sprintf("%s+%s is not the offset of its instance domain", sl.base, d)
				}, nil)
			}},
			{c: 8, width: 4, name: "padding", check: s.isNum(zero, 4), pad: true},
			{c: 12, width: 4, name: "id", check: s.isNum(id, 4)},
		}
		if s.sc.v2 {
			return append(r, recField{c: 16, width: 8, name: "name", check: s.strRef(o.inst, false)})
		}
		return append(r, recField{c: 16, name: "name", check: s.isStr(o.inst)})
	case "metric":
		T := o.m.typ
		var r []recField
		c := int64(64)
		if s.sc.v2 {
			c = 8
			r = append(r, recField{c: 0, width: 8, name: "name", check: s.strRef(o.mkey, false)})
		} else {
			r = append(r, recField{c: 0, name: "name", check: s.isStr(o.mkey)})
		}
		ind := s.Int(-1)
		if s.isInstanceMetric() {
			ind = nil
			if d := s.method(o.m, T, "Indom"); d != nil {
				ind = s.method(d, d.typ, "ID")
			}
		}
		return append(r,
			recField{c: c, width: 4, name: "id", check: s.isNum(s.method(o.m, T, "ID"), 4)},
			recField{c: c + 4, width: 4, name: "type", check: s.isNum(s.method(o.m, T, "Type"), 4)},
			recField{c: c + 8, width: 4, name: "semantics", check: s.isNum(s.method(o.m, T, "Semantics"), 4)},
			recField{c: c + 12, width: 4, name: "unit", check: s.isNum(s.unit(o.m), 4)},
			recField{c: c + 16, width: 4, name: "instance domain", check: s.isNum(ind, 4)},
			recField{c: c + 20, width: 4, name: "padding", check: s.isNum(zero, 4), pad: true},
			recField{c: c + 24, width: 8, name: "short description", check: s.strRef(s.method(o.m, T, "ShortDescription"), true)},
			recField{c: c + 32, width: 8, name: "long description", check: s.strRef(s.method(o.m, T, "LongDescription"), true)})
	case "value":
		cell, _ := s.cell(o.m, s.sc.mtype, o.inst)
		if cell == nil {
			s.R.Undecided(s.what(), "no value of %s", s.sc.mtype)
			return nil
		}
		val := s.Read(cell, s.g)
		isS := s.isString(o)
		return []recField{
			{c: 0, width: 8, name: "value", check: func(a *wacc) (bool, string) {
				// the length of the block of a string, or the value
				sg, ng := s.bdd.And(a.g, isS), s.bdd.And(a.g, s.bdd.Not(isS))
				if !s.never(sg) {
					b := *a
					b.g = sg
					if ok, d := s.num(&b, s.Int(255), 8); !ok {
						return false, d
					}
				}
				if s.never(ng) {
					return true, ""
				}
				return s.implies(ng, s.Eq(a.e.val, val, ng)), fmt.Sprintf("%s is written, not %s", a.e.val, val)
			}},
			{c: 8, width: 8, name: "offset of the string", pad: true, check: func(a *wacc) (bool, string) {
				if !s.implies(a.g, isS) {
					return false, "the value is no string"
				}
				return s.ref(a, 8, func(sl *slot, d *Term, g B) (bool, string) {
					if sl.kind != "string" || !isZero(d) {
						return false, fmt.Sprintf("%s+%s is not the offset of a string block", sl.base, d)
					}
					return s.blockIs(sl, val, g)
				}, nil)
			}},
			{c: 16, width: 8, name: "offset of the metric", check: func(a *wacc) (bool, string) {
				return s.ref(a, 8, func(sl *slot, d *Term, g B) (bool, string) {
					p := objs[sl]
					return sl.kind == "metric" && isZero(d) && p != nil && p.mkey == o.mkey, fmt.Sprintf("%s+%s is not the offset of its metric", sl.base, d)
				}, nil)
			}},
			{c: 24, width: 8, name: "offset of the instance", check: func(a *wacc) (bool, string) {
				if o.inst == nil {
					return s.num(a, zero, 8)
				}
				want := s.instanceOffset(o, objs)
				if want == nil {
					return false, "there are no instance records"
				}
				return s.num(a, want, 8)
			}},
		}
	}
	return nil
}

// nInstances: the slot has room for all instances of the domain.
func (s *startRun) nInstances(sl *slot, o *object) bool {
	I, _ := s.mapField(o.d, "PCPInstanceDomain", "instances")
	return sl.n != nil && I != nil && s.eqIn(sl.n, s.Read(s.MlenAddr(I), s.g), s.bdd.And(s.g, sl.rcv.g))
}

// instanceOffset is the offset of the record of an instance.
func (s *startRun) instanceOffset(o *object, objs map[*slot]*object) *Term {
	for _, sl := range s.slots {
		p := objs[sl]
		if sl.kind != "instance" || p == nil {
			continue
		}
		var it *Term
		for _, a := range sl.acc {
			it = a.it
		}
		sub := map[*Term]*Term{p.indom.args[1]: s.KeyIdx(p.indom, o.indom)}
		inst := s.Subst(p.inst, map[*Term]*Term{p.indom.args[1]: sub[p.indom.args[1]], p.inst.args[1]: p.inst.args[1]})
		sub[p.inst.args[1]] = s.KeyIdx(inst, o.inst)
		off := sl.base
		if it != nil {
			off = s.Add(off, s.Mul(s.Int(sl.length), it, k64), k64)
		}
		return s.Subst(off, sub)
	}
	return nil
}

func (s *startRun) unit(m *Term) *Term {
	u := s.method(m, m.typ, "Unit")
	n := s.P.named(modPath, "MetricUnit")
	if u == nil || n == nil {
		return nil
	}
	it := n.Underlying().(*types.Interface)
	for i := 0; i < it.NumMethods(); i++ {
		if it.Method(i).Name() == "PMAPI" {
			st := s.saveState()
			rs, rg := s.invoke(nil, u, it.Method(i), nil, s.fn.Blocks[0].Instrs[0], s.g)
			s.restoreState(st)
			if len(rs) == 1 && s.implies(s.g, rg) {
				return rs[0]
			}
		}
	}
	return nil
}

func (s *startRun) records(R *Report) {
	objs := map[*slot]*object{}
	for _, sl := range s.slots {
		switch sl.kind {
		case "indom", "instance", "metric", "value":
			if sl.kind == "instance" && !s.sc.insts {
				continue
			}
			if s.never(sl.rcv.g) {
				continue
			}
			if o := s.objectOf(sl); o != nil {
				objs[sl] = o
			}
		}
	}
	inv := s.g
	for _, o := range objs {
		inv = s.bdd.And(inv, o.inv)
	}
	for _, sl := range s.slots {
		for _, a := range sl.acc {
			a.g = s.bdd.And(a.g, inv)
		}
	}
	for _, sl := range s.slots {
		o := objs[sl]
		if sl.kind == "string" {
			for _, a := range sl.acc {
				if !s.sc.insts && s.isInstanceMetric() && strings.HasSuffix(a.e.name, "WriteVal") {
					continue // there are no such values
				}
				is := s.implies(a.g, s.IsType(a.e.val, types.Typ[types.String]))
				s.ob(ruleLayout, s.at(a.e)+" of a string block", a.c == 0 && a.it == nil && (is || allRaw(a.e.val)), a.e, "%s is written at offset %d of a string block", a.e.val, a.c)
			}
			continue
		}
		if o == nil {
			continue
		}
		used := map[*wacc]bool{}
		for _, f := range s.fields(sl, o, objs) {
			what := sl.kind + " record: " + f.name
			u := False
			for _, a := range fieldAt(sl.acc, f.c) {
				used[a] = true
				ok := true
				if f.width > 0 && a.e.name != "WriteVal" && a.e.name != "MustWriteVal" {
					ok = s.eqIn(a.w, s.Int(f.width), a.g)
					s.ob(ruleLayout, what, ok, a.e, "%s bytes are written, the field is %d bytes long", a.w, f.width)
				}
				if ok {
					ok, d := f.check(a)
					s.ob(ruleLayout, what, ok, a.e, "%s", d)
				}
				u = s.bdd.Or(u, a.g)
				if len(a.e.loops) > len(sl.rcv.loops) {
					// in every iteration for the records of the slot
					for _, l := range a.e.loops[len(sl.rcv.loops):] {
						if a.it == l.it {
							dom := s.bdd.And(s.cmpInt("<=", s.Int(0), l.it, True), s.cmpInt("<", l.it, l.trip, True))
							u = s.bdd.Or(u, s.bdd.Not(dom))
						}
					}
				}
			}
			g := s.bdd.And(sl.rcv.g, inv)
			if !f.pad {
				s.ob(ruleLayout, what, s.implies(g, u), sl.rcv, "it is not written in all cases")
			} else if f.name == "offset of the string" {
				// written where the value is the length of the block
				isS := s.isString(o)
				s.ob(ruleLayout, what, s.implies(s.bdd.And(g, isS), u), sl.rcv, "it is not written for every string")
			}
		}
		for _, a := range sl.acc {
			if !used[a] {
				s.ob(ruleLayout, s.at(a.e)+" of "+sl.kind, false, a.e, "%s writes at offset %d of a %s record, where there is no field", a.e.name, a.c, sl.kind)
			}
		}
		R.Count(sl.kind+" records", 1)
	}
}

func checkC02(P *Program, R *Report) {
	eachStart(P, R, func(s *startRun) {
		if s.header() {
			s.kinds()
			s.records(R)
		}
	})
	for _, k := range []string{"indom", "instance", "metric", "value"} {
		R.AtLeast(k+" records", 10)
	}
}

func init() {
	checks["C02"] = check{"every write of starting a client is matched with a field of the record of the object whose iteration it is in, and has its width and value; references are the offsets of the records they refer to", checkC02}
}
