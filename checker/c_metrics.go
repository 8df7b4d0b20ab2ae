package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"
)

func init() {
	checks["C08"] = check{"Every exported method of every metric type is evaluated on a metric in any state. Each change of a value is paired with a write of the same value to the slot of the same object under the same condition, failing paths have neither, and after a success the value is the one that the operation asks for.", checkC08}
	checks["C10"] = check{"The dynamic type of every value that a method or a constructor stores in a metric is compared with the Go type of the type of the metric; all assignments in the program to the fields that hold values are among those evaluated.", checkC10}
	checks["C11"] = check{"Every exported method of counters and counter vectors is evaluated for all states and arguments: each assignment to a value is at least the value before it, increments are exact, and errors are returned exactly for the documented reasons and leave the value.", checkC11}
	checks["C13"] = check{"Sequences of operations of a timer are evaluated from any state, and their errors, results and effects are compared with the state machine.", checkC13}
	checks["C14"] = check{"Recording is evaluated on a histogram in any state: what the instances hold and what the accessors return afterwards are compared, as terms, with the statistics of the distribution after the recording.", checkC14}
	checks["C15"] = check{"Every Must method and convenience operation is evaluated and its effects, results and panics are compared with those of the method it is named after.", checkC15}
}

// metricOps calls f for every exported method of every metric type.
func metricOps(P *Program, R *Report, owners []string, f func(o *opRun)) {
	for _, ow := range owners {
		ms := P.exportedMethods(modPath, ow)
		if len(ms) == 0 {
			R.Undecided(ow, "the type does not exist")
			continue
		}
		for _, n := range sortedKeys(ms) {
			protect(R, "(*"+ow+")."+n, func() {
				f(newOp(P, R, ow, n, ms[n]))
			})
			R.Count("operations", 1)
		}
	}
}

// instArg is the argument that names an instance.
func (o *opRun) instArg() *Term {
	ps := o.fn.Signature.Params()
	if k := ps.Len(); k > 0 && isString(ps.At(k-1).Type()) {
		return o.args[k-1]
	}
	return nil
}

func isVector(owner string) bool {
	return owner == "PCPInstanceMetric" || owner == "PCPCounterVector" || owner == "PCPGaugeVector" || owner == "PCPHistogram"
}

// expected gives the value that an operation asks for, given the one before, and
// whether it may leave the value if the change is zero.
func (o *opRun) expected(pre *Term, g B) (want *Term, zero B, is bool) {
	E := o.W.Engine
	base := strings.TrimPrefix(o.name, "Must")
	k := valKind(o.owner)
	if o.owner == "PCPTimer" || o.owner == "PCPHistogram" {
		return nil, False, false
	}
	arith := func(neg bool, d *Term) (*Term, B, bool) {
		if k == nil {
			return nil, False, false
		}
		v := E.Tassert(pre, k)
		if ik, ok := intKind(k); ok {
			_ = ik
			if neg {
				return E.Iface(k, E.Sub(v, d, ikind{})), E.Eq(d, E.Int(0), g), true
			}
			return E.Iface(k, E.Add(v, d, ikind{})), E.Eq(d, E.Int(0), g), true
		}
		zero := E.Eq(d, E.Zero(k), g)
		if neg {
			d = E.fscale(d, constMinusOne, k)
		}
		return E.Iface(k, E.floatOp(tokenADD, v, d, k)), zero, true
	}
	switch base {
	case "Set", "SetAll", "SetInstance":
		v := o.args[0]
		if k != nil {
			return E.Iface(k, v), False, true
		}
		return nil, False, false
	case "Inc", "IncAll":
		return arith(false, o.args[0])
	case "Dec", "DecAll":
		return arith(true, o.args[0])
	case "Up", "UpAll":
		return arith(false, E.Int(1))
	}
	return nil, False, false
}

// checkEffect: after a success the value is the one asked for.
func (o *opRun) checkEffect(R *Report) bool {
	E := o.W.Engine
	inst := o.instArg()
	all := strings.HasSuffix(o.name, "All")
	if isVector(o.owner) && inst == nil {
		inst = E.Sym("q", types.Typ[types.String])
	}
	loc, has := o.W.cell(o.recv, o.owner, inst)
	if loc == nil {
		return false
	}
	pre := E.ReadAt(loc, has, o.m0)
	post := E.Read(loc, E.bdd.And(has, o.ok))
	base := strings.TrimPrefix(o.name, "Must")
	if want, zero, ok := o.expected(pre, o.ok); ok {
		g := E.bdd.And(o.ok, has)
		good := E.sameVal(post, want, g)
		if zero != False {
			good = E.bdd.Or(good, E.bdd.And(zero, E.sameVal(post, pre, E.bdd.And(g, zero))))
		}
		bad := E.instances(E.bdd.And(g, E.bdd.Not(good)), post)
		R.Ob("afterwards the value is the one the operation asks for", o.what(), E.never(bad), o.pos(), "it is %s and should be %s, if %s", post, want, E.BStr(bad))
		if isVector(o.owner) && !all {
			R.Ob("it fails for what is not an instance", o.what(), E.never(E.bdd.And(o.ok, E.bdd.Not(has))) || zeroOnly(E, o, has, zero), o.pos(), "it succeeds without an instance")
		}
		R.Count("operations with an exact effect", 1)
		return true
	}
	if (base == "Set" || base == "SetInstance") && valKind(o.owner) == nil {
		// the value is converted to the Go type of the metric's type
		t := o.metricType()
		for _, mt := range tMetricTypes {
			c := o.P.constVal(modPath, mt)
			if c == nil || t == nil {
				R.Undecided(o.what(), "the type of the metric is not known")
				return true
			}
			gt := goTypeOf(mt)
			g := E.bdd.AndAll(o.ok, has, E.Eq(t, E.BigInt(c), True))
			in := o.args[0]
			for _, T := range []types.Type{gt, types.Typ[types.Int], types.Typ[types.Uint], types.Typ[types.Float64]} {
				is := E.bdd.And(g, E.IsType(in, T))
				if E.never(is) {
					continue
				}
				want := E.Iface(gt, E.Conv(E.Tassert(in, T), gt, is))
				R.Ob("afterwards the value is the one the operation asks for", fmt.Sprintf("%s of a %s with a %s", o.what(), mt, typeStrShort(T)),
					E.never(E.bdd.And(is, E.bdd.Not(E.sameVal(E.Simp(post, is), want, is)))), o.pos(), "it is %s and should be %s", E.Simp(post, is), want)
				R.Count("operations with an exact effect", 1)
			}
		}
		if isVector(o.owner) {
			R.Ob("it fails for what is not an instance", o.what(), E.never(E.bdd.And(o.ok, E.bdd.Not(has))), o.pos(), "it succeeds without an instance")
		}
		return true
	}
	if (base == "Val" || base == "ValInstance") && o.fn.Signature.Results().Len() > 0 {
		got := o.rs[0]
		g := E.bdd.And(o.ok, has)
		want := pre
		if k := valKind(o.owner); k != nil {
			want = E.Tassert(pre, k)
		}
		R.Ob("reading returns the value", o.what(), E.never(E.bdd.And(g, E.bdd.Not(E.sameVal(got, want, g)))), o.pos(), "returns %s", got)
		R.Count("readers", 1)
		if isVector(o.owner) {
			R.Ob("it fails for what is not an instance", o.what(), E.never(E.bdd.And(o.ok, E.bdd.Not(has))), o.pos(), "it succeeds without an instance")
			R.Ob("reading an instance succeeds", o.what(), E.never(E.bdd.And(has, o.fail)), o.pos(), "it fails for an instance")
		} else {
			R.Ob("reading succeeds", o.what(), E.never(o.fail), o.pos(), "it fails")
		}
		return true
	}
	return false
}

// zeroOnly: an operation that changes nothing may succeed on what is not an instance.
func zeroOnly(E *Engine, o *opRun, has, zero B) bool {
	return zero != False && E.never(E.bdd.AndAll(o.ok, E.bdd.Not(has), E.bdd.Not(zero)))
}

// metricType is the type of the metric of the receiver.
func (o *opRun) metricType() *Term {
	E := o.W.Engine
	for _, f := range []string{"pcpSingletonMetric", "pcpInstanceMetric"} {
		if l := o.W.field(o.recv, o.owner, f); l != nil {
			if d := o.W.field(E.Read(l, True), f, "pcpMetricDesc"); d != nil {
				if t := o.W.field(E.Read(d, True), "pcpMetricDesc", "t"); t != nil {
					return E.Read(t, True)
				}
			}
		}
	}
	return nil
}

func checkC08(P *Program, R *Report) {
	metricOps(P, R, metricTypes, func(o *opRun) {
		E := o.W.Engine
		o.run(True)
		o.checkEffect(R)
		ss, ws := o.effects()
		hist := o.owner == "PCPHistogram"
		for _, s := range ss {
			changed := E.bdd.And(s.g, E.bdd.Not(E.sameVal(s.val, s.old, s.g)))
			conn, ok := o.W.connected(s.obj, s.e)
			if !ok {
				R.Undecided(o.what(), "the connection of a metric to the file is not found")
				return
			}
			cover := False
			for _, w := range ws {
				if w.obj == s.obj && !w.raw {
					g := E.bdd.And(w.g, s.g)
					cover = E.bdd.Or(cover, E.bdd.And(w.g, E.sameVal(w.val, s.val, g)))
				}
			}
			miss := E.bdd.AndAll(changed, conn, E.bdd.Not(cover))
			if os_debug && E.feasible(miss) {
				fmt.Println("MISS", o.what(), E.BStr(miss))
			}
			R.Ob("a new value is also written to the file", o.what(), E.never(miss), P.pos(s.e.pos), "%s changes to %s in memory only", s.e.loc, s.val)
			if len(s.e.loops) == 0 && !hist {
				R.Ob("a failure leaves the value in memory", o.what(), E.never(E.bdd.And(changed, o.fail)), P.pos(s.e.pos), "%s changes to %s but the operation fails", s.e.loc, s.val)
			}
			R.Count("changes of values", 1)
		}
		for i, w := range ws {
			if w.obj == nil {
				R.Ob("only the slot of the metric is written", o.what(), false, P.pos(w.e.pos), "a write to an offset that is not that of the metric: %s", w.e.args[0])
				continue
			}
			cover := False
			if w.raw {
				for _, x := range ws[i+1:] {
					if x.obj == w.obj && !x.raw {
						cover = E.bdd.Or(cover, x.g)
					}
				}
				R.Ob("a cleared slot gets a value", o.what(), E.never(E.bdd.And(w.g, E.bdd.Not(cover))), P.pos(w.e.pos), "the slot is cleared and stays so")
				continue
			}
			for _, s := range ss {
				if s.obj == w.obj {
					cover = E.bdd.Or(cover, E.bdd.And(s.g, E.sameVal(w.val, s.val, E.bdd.And(s.g, w.g))))
				}
			}
			cur := E.readBefore(E.cellOf(w.obj), w.g, w.e)
			cover = E.bdd.Or(cover, E.sameVal(w.val, cur, w.g))
			R.Ob("what is written to the file is also the value in memory", o.what(), E.never(E.bdd.And(w.g, E.bdd.Not(cover))), P.pos(w.e.pos), "%s is written to the file only", w.val)
			if len(w.e.loops) == 0 && !hist {
				R.Ob("a failure leaves the file", o.what(), E.never(E.bdd.And(w.g, o.fail)), P.pos(w.e.pos), "%s is written but the operation fails", w.val)
			}
			R.Count("writes to slots", 1)
		}
	})
	R.AtLeast("changes of values", 25)
	R.AtLeast("writes to slots", 25)
	R.AtLeast("operations with an exact effect", 40)
	R.AtLeast("readers", 6)
}

var os_debug = os.Getenv("SPEED_DEBUG") != ""

func (E *Engine) cellOf(obj *Term) *Term {
	n := namedOf(obj.typ)
	return E.FieldAddr(obj, n, fieldIndex(n, "val"))
}

// ---------------------------------------------------------------- C11

func checkC11(P *Program, R *Report) {
	i64 := types.Typ[types.Int64]
	metricOps(P, R, []string{"PCPCounter", "PCPCounterVector"}, func(o *opRun) {
		E := o.W.Engine
		o.run(True)
		exact := o.checkEffect(R)
		ss, _ := o.effects()
		for _, s := range ss {
			back := E.cmpInt("<", E.Tassert(s.val, i64), E.Tassert(s.old, i64), s.g)
			R.Ob("the new value is not smaller", o.what(), E.never(E.bdd.And(s.g, back)), P.pos(s.e.pos), "%s becomes %s", s.old, s.val)
			if len(s.e.loops) == 0 {
				changed := E.bdd.And(s.g, E.bdd.Not(E.sameVal(s.val, s.old, s.g)))
				R.Ob("a failure leaves the value", o.what(), E.never(E.bdd.And(changed, o.fail)), P.pos(s.e.pos), "it changes to %s", s.val)
			}
			R.Count("changes of counters", 1)
		}
		// the reasons to fail, of a counter that is not connected to a file
		base := strings.TrimPrefix(o.name, "Must")
		if !exact || strings.HasPrefix(base, "Val") || strings.HasSuffix(base, "All") {
			return
		}
		loc, has := o.W.cell(o.recv, o.owner, o.instArg())
		pre := E.Tassert(E.ReadAt(loc, has, o.m0), i64)
		conn, _ := o.W.connected(loc.args[0], &Event{mem: E.mem[:o.m0:o.m0]})
		var bad B
		d := E.Int(1)
		if base != "Up" {
			d = o.args[0]
		}
		switch base {
		case "Set":
			bad = E.cmpInt("<", d, pre, True)
		default:
			max := ikind{64, true}.max()
			bad = E.bdd.Or(E.cmpInt("<", d, E.Int(0), True), E.cmpInt("<", E.BigInt(max), E.Add(pre, d, ikind{}), True))
		}
		why := E.bdd.Or(bad, E.bdd.Not(has))
		R.Ob("what would make the counter smaller is an error", o.what(), E.never(E.bdd.AndAll(bad, has, o.ok)), o.pos(), "it succeeds")
		R.Ob("it fails for no other reason", o.what(), E.never(E.bdd.AndAll(o.fail, E.bdd.Not(why), E.bdd.Not(conn))), o.pos(), "it also fails if %s", E.BStr(E.bdd.AndAll(o.fail, E.bdd.Not(why), E.bdd.Not(conn))))
		R.Count("conditions of failure", 1)
	})
	R.AtLeast("changes of counters", 10)
	R.AtLeast("conditions of failure", 9)
	R.AtLeast("operations with an exact effect", 12)
}
