package main

import (
	"go/types"
	"sort"
)

// C43: units print what they hold.

func init() {
	checks["C43"] = check{"the String methods of the units of both packages, for a symbolic unit: the condition under which each text results is compared with the one of the scales and dimensions; the String methods of the types of mmvdump, for each constant", checkC43}
}

const r43 = "the text names each dimension with its scale and power"

// a text under a condition.
type piece struct {
	g    B
	t    *Term
	sign int
}

// texts43 collects the condition of every text.
func texts43(E *Engine, m map[*Term]B, t *Term, g B) {
	for _, l := range leavesOf(t) {
		if x := E.bdd.And(g, l.g); x != False {
			if l.t.op == "concat" {
				// parts that depend on conditions
				part := -1
				for i, a := range l.t.args {
					if a.op == "phi" {
						part = i
					}
				}
				if part >= 0 {
					for _, p := range leavesOf(l.t.args[part]) {
						c := E.Str("")
						for i, a := range l.t.args {
							if i == part {
								a = p.t
							}
							c = E.Concat(c, a)
						}
						texts43(E, m, c, E.bdd.And(x, p.g))
					}
					continue
				}
			}
			old, ok := m[l.t]
			if !ok {
				old = False
			}
			m[l.t] = E.bdd.Or(old, x)
		}
	}
}

// cross43 puts together one piece of each list.
func cross43(E *Engine, g B, alts [][]piece, done func(g B, ps []piece)) {
	var rec func(i int, g B, ps []piece)
	rec = func(i int, g B, ps []piece) {
		if g == False {
			return
		}
		if i == len(alts) {
			done(g, ps)
			return
		}
		for _, p := range alts[i] {
			rec(i+1, E.bdd.And(g, p.g), append(ps[:i:i], p))
		}
	}
	rec(0, g, nil)
}

// same43 compares the conditions of the texts.
func same43(R *Report, E *Engine, what, pos string, got, want map[*Term]B) {
	var ts []*Term
	for t := range got {
		ts = append(ts, t)
	}
	for t := range want {
		if _, ok := got[t]; !ok {
			ts = append(ts, t)
		}
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	bad := 0
	for _, t := range ts {
		g, w := False, False
		if x, ok := got[t]; ok {
			g = x
		}
		if x, ok := want[t]; ok {
			w = x
		}
		R.Count("texts", 1)
		x := E.bdd.Xor(g, w)
		if !E.never(x) {
			if bad++; bad <= 5 {
				R.Ob(r43, what, false, pos, "%.80s is not printed exactly when it should be, it is wrong if %.200s", t, E.BStr(x))
			}
		}
	}
	R.Ob(r43, what, bad == 0, pos, "%d texts are wrong", bad)
}

func checkC43(P *Program, R *Report) {
	protect(R, "mmvdump.Unit", func() { dumpUnitC43(P, R) })
	protect(R, "metricUnit", func() { unitC43(P, R) })
	for _, e := range []enum{
		{modPath + "/mmvdump", "Type", map[string]int64{"NoSupportType": -1, "Int32Type": 0, "Uint32Type": 1, "Int64Type": 2, "Uint64Type": 3, "FloatType": 4, "DoubleType": 5, "StringType": 6, "UnknownType": 255}},
		{modPath + "/mmvdump", "TocType", map[string]int64{"TocIndoms": 1, "TocInstances": 2, "TocMetrics": 3, "TocValues": 4, "TocStrings": 5}},
	} {
		e := e
		protect(R, e.typ, func() {
			if T := P.named(e.pkg, e.typ); T != nil {
				checkStringer(P, R, e, T)
			} else {
				R.Undecided(e.typ, "the type does not exist")
			}
		})
	}
	R.AtLeast("printed constants", 14)
	R.AtLeast("texts", 2500)
}

func dumpUnitC43(P *Program, R *Report) {
	E := newWorld(P).Engine
	b := E.bdd
	T := P.named(modPath+"/mmvdump", "Unit")
	if T == nil {
		R.Undecided("mmvdump.Unit", "the type does not exist")
		return
	}
	u := E.Sym("u", T)
	call := func(m string) *Term {
		fn := P.ssa.LookupMethod(T, T.Obj().Pkg(), m)
		if fn == nil {
			R.Undecided("mmvdump.Unit."+m, "the method does not exist")
			return nil
		}
		rs, rg := E.CallFn(fn, []*Term{u}, nil, True, nil, nil)
		R.took(E, "mmvdump.Unit."+m)
		R.Ob("printing returns", "mmvdump.Unit."+m, E.never(b.Not(rg)), P.pos(fn.Pos()), "it does not, if %s", E.BStr(b.Not(rg)))
		return rs[0]
	}
	cat := func(ts ...*Term) *Term {
		r := E.Str("")
		for _, t := range ts {
			r = E.Concat(r, t)
		}
		return r
	}
	var alts [][]piece
	for _, k := range []struct {
		name  string
		texts []string
	}{
		{"Space", []string{"B", "KiB", "MiB", "GiB", "TiB", "PiB", "EiB"}},
		{"Time", []string{"nsec", "usec", "msec", "sec", "min", "hr"}},
		{"Count", []string{"count"}},
	} {
		d, s := call(k.name+"Dim"), call(k.name+"Scale")
		if d == nil || s == nil {
			return
		}
		zero := E.Eq(d, E.Int(0), True)
		ps := []piece{{zero, E.Str(""), 0}}
		for _, sg := range []int{1, -1} {
			one := E.Eq(d, E.Int(int64(sg)), True)
			more := E.cmpInt("<", E.Int(1), d, True)
			if sg < 0 {
				more = E.cmpInt("<", d, E.Int(-1), True)
			}
			rest := b.Or(one, more)
			for i, n := range k.texts {
				is := E.Eq(s, E.Int(int64(i)), True)
				ps = append(ps, piece{b.AndAll(rest, is, one), E.Str(n), sg}, piece{b.AndAll(rest, is, more), cat(E.Str(n+"^"), E.Dec(d)), sg})
				rest = b.And(rest, b.Not(is))
			}
			ps = append(ps, piece{rest, E.Str("<invalid>"), sg})
		}
		alts = append(alts, ps)
	}
	got, want := map[*Term]B{}, map[*Term]B{}
	fn := P.ssa.LookupMethod(T, T.Obj().Pkg(), "String")
	if fn == nil {
		R.Undecided("mmvdump.Unit.String", "the method does not exist")
		return
	}
	x := call("String")
	texts43(E, got, x, True)
	cross43(E, True, alts, func(g B, ps []piece) {
		var a, z []*Term
		for _, p := range ps {
			switch {
			case p.sign > 0:
				a = append(a, p.t)
			case p.sign < 0:
				z = append(z, p.t)
			}
		}
		if len(z) > 0 {
			a = append(append(a, E.Str(" / ")), z...)
		}
		texts43(E, want, cat(a...), g)
	})
	same43(R, E, "mmvdump.Unit.String", P.pos(fn.Pos()), got, want)
}

func unitC43(P *Program, R *Report) {
	E := newWorld(P).Engine
	b := E.bdd
	T := compositeUnit(P)
	if T == nil {
		R.Undecided("composite units", "the type does not exist")
		return
	}
	pt := types.NewPointer(T)
	u := E.Sym("m", pt)
	get := func(m string, g B) (*Term, string) {
		fn := P.ssa.LookupMethod(pt, T.Obj().Pkg(), m)
		if fn == nil {
			R.Undecided("metricUnit."+m, "the method does not exist")
			return nil, ""
		}
		rs, rg := E.CallFn(fn, []*Term{u}, nil, g, nil, nil)
		R.took(E, "metricUnit."+m)
		R.Ob("printing returns", "metricUnit."+m, E.implies(g, rg), P.pos(fn.Pos()), "it does not, if %s", E.BStr(b.And(g, b.Not(rg))))
		return rs[0], P.pos(fn.Pos())
	}
	consts := unitConsts()
	valid := E.bdd.Not(E.Eq(u, E.Nil(), True))
	var alts [][]piece
	for _, k := range []string{"Space", "Time", "Count"} {
		d, _ := get(k+"Dim", valid)
		if d == nil {
			return
		}
		zero := E.Eq(d, E.Int(0), valid)
		s, _ := get(k+"Scale", b.And(valid, b.Not(zero)))
		if s == nil {
			return
		}
		ps := []piece{{zero, E.Str(""), 0}}
		known := zero
		for _, n := range sortedKeys(consts[k+"Unit"]) {
			is := b.And(b.Not(zero), E.Eq(s, E.Int(consts[k+"Unit"][n]), valid))
			known = b.Or(known, is)
			ps = append(ps, piece{is, E.Concat(E.Str(n+"^"), E.Dec(d)), 1})
		}
		alts = append(alts, ps)
		valid = b.And(valid, known)
	}
	x, pos := get("String", valid)
	if x == nil {
		return
	}
	got, want := map[*Term]B{}, map[*Term]B{}
	texts43(E, got, x, valid)
	cross43(E, valid, alts, func(g B, ps []piece) {
		t := E.Str("")
		for _, p := range ps {
			t = E.Concat(t, p.t)
		}
		texts43(E, want, t, g)
	})
	same43(R, E, "metricUnit.String", pos, got, want)
}
