package main

import (
	"go/types"
	"strings"
)

const histPath = "github.com/HdrHistogram/hdrhistogram-go"

// histOf is the histogram of the library that a histogram metric wraps.
func (W *World) histOf(recv *Term, g B) *Term {
	n := W.P.named(modPath, "PCPHistogram")
	if n == nil {
		return nil
	}
	st := n.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if p, ok := st.Field(i).Type().(*types.Pointer); ok {
			if x, ok := p.Elem().(*types.Named); ok && x.Obj().Name() == "Histogram" && x.Obj().Pkg().Path() == histPath {
				return W.Read(W.FieldAddr(recv, n, i), g)
			}
		}
	}
	return nil
}

// histStats gives the statistics of a histogram in its present state.
func (W *World) histStats(h *Term, g B) map[string]*Term {
	E := W.Engine
	i64, f64 := types.Typ[types.Int64], types.Typ[types.Float64]
	st := E.Read(E.Ghost(h, "hist", types.Typ[types.Int]), g)
	sd := E.App("hist", "StdDev", f64, h, st)
	mul := E.dist([]*Term{sd}, func(a []*Term) *Term { return E.floatOp(tokenMUL, a[0], a[0], f64) })
	return map[string]*Term{
		"min":                E.Conv(E.App("hist", "Min", i64, h, st), f64, g),
		"max":                E.Conv(E.App("hist", "Max", i64, h, st), f64, g),
		"mean":               E.App("hist", "Mean", f64, h, st),
		"standard_deviation": sd,
		"variance":           mul,
	}
}

func checkC14(P *Program, R *Report) {
	const T = "PCPHistogram"
	ms := P.exportedMethods(modPath, T)
	R.Assume("no write of a histogram's values fails: their slots lie within the file (C04)")
	R.Assume("the histogram library records what it is given, and changes nothing when recording fails")
	acc := map[string]string{"Min": "min", "Max": "max", "Mean": "mean", "Variance": "variance", "StandardDeviation": "standard_deviation"}
	for _, name := range []string{"Record", "MustRecord", "RecordN", "MustRecordN"} {
		what := "(*" + T + ")." + name
		if ms[name] == nil {
			R.Undecided(what, "the method does not exist")
			continue
		}
		protect(R, what, func() {
			o := newOp(P, R, T, name, ms[name])
			o.W.assumeWrites = true
			E := o.W.Engine
			f64, i64 := types.Typ[types.Float64], types.Typ[types.Int64]
			h := o.W.histOf(o.recv, True)
			if h == nil {
				R.Undecided(what, "the histogram of the library is not found")
				return
			}
			st0 := E.Read(E.Ghost(h, "hist", types.Typ[types.Int]), True)
			c := o.step("", name, ms[name], True, o.args...)
			pos := o.pos()
			R.Ob("recording can succeed", what, !E.never(c.ok), pos, "it always fails")
			st1 := E.Read(E.Ghost(h, "hist", types.Typ[types.Int]), c.ok)
			// what is recorded
			for _, l := range leavesOf(st1) {
				if E.never(E.bdd.And(l.g, c.ok)) {
					continue
				}
				n := E.Int(1)
				if strings.HasSuffix(name, "N") {
					n = o.args[1]
				}
				good := l.t.op == "app" || l.t.op == "recorded"
				t := l.t
				good = good && len(t.args) >= 3 && t.args[0] == st0 && t.args[1] == h &&
					E.never(E.bdd.And(c.ok, E.bdd.Not(E.Eq(t.args[2], o.args[0], c.ok))))
				if good {
					switch {
					case strings.HasSuffix(t.aux, "RecordValue"):
						good = E.never(E.bdd.AndAll(c.ok, l.g, E.bdd.Not(E.Eq(n, E.Int(1), True))))
					case strings.HasSuffix(t.aux, "RecordValues"):
						good = E.never(E.bdd.AndAll(c.ok, l.g, E.bdd.Not(E.Eq(n, t.args[3], True))))
					default:
						good = false
					}
				}
				R.Ob("exactly what is passed is recorded", what, good, pos, "the distribution becomes %s", l.t)
			}
			want := o.W.histStats(h, c.ok)
			for _, n := range histNames {
				loc, has := o.W.cell(o.recv, T, E.Str(n))
				post := E.Read(loc, E.bdd.And(has, c.ok))
				w := E.Iface(f64, want[n])
				R.Ob("after recording the instance holds the statistic of its name", what+" of "+n,
					E.never(E.bdd.AndAll(c.ok, has, E.bdd.Not(E.sameVal(post, w, c.ok)))), pos, "it is %s and should be %s", post, w)
				R.Count("statistics", 1)
			}
			for a, n := range acc {
				fn := ms[a]
				if fn == nil {
					R.Undecided("(*"+T+")."+a, "the method does not exist")
					continue
				}
				r := o.step("then "+a+":", a, fn, c.ok)
				w := want[n]
				alt := w
				if !isFloat(fn.Signature.Results().At(0).Type()) {
					alt = E.App("hist", a, i64, h, st1)
					w = E.Conv(w, i64, c.ok)
				}
				same := E.bdd.Or(E.sameVal(r.rs[0], w, c.ok), E.sameVal(r.rs[0], alt, c.ok))
				R.Ob("the accessor returns the statistic of its name", "(*"+T+")."+a+" after "+name, E.never(E.bdd.And(c.ok, E.bdd.Not(E.bdd.And(r.rg, same)))), P.pos(fn.Pos()), "it returns %s and should return %s", r.rs[0], w)
				R.Count("accessors", 1)
			}
			// failures
			for _, e := range c.ev {
				if e.kind == "store" && e.loc != nil && E.contains(e.loc, o.recv) {
					old := E.readBefore(e.loc, e.g, e)
					if e.loc.op == "ghost" {
						// the library leaves the distribution if it returns an error
						if k := len(e.res); k > 0 {
							R.Ob("a recording that succeeds is reported so", what, E.never(E.bdd.AndAll(e.g, E.Eq(e.res[k-1], E.Nil(), e.g), c.fail)), P.pos(e.pos), "it is recorded, but fails")
							R.Ob("a recording that fails is reported so", what, E.never(E.bdd.AndAll(e.g, E.bdd.Not(E.Eq(e.res[k-1], E.Nil(), e.g)), c.ok)), P.pos(e.pos), "it fails, but succeeds")
							R.Count("recordings", 1)
						}
						continue
					}
					ch := E.bdd.AndAll(e.g, c.fail, E.bdd.Not(E.sameVal(e.val, old, e.g)))
					R.Ob("a failure changes nothing", what, E.never(ch), P.pos(e.pos), "%s becomes %s", e.loc, e.val)
				}
				if e.kind == "W" {
					R.Ob("a failure changes nothing", what, E.never(E.bdd.And(e.g, c.fail)), P.pos(e.pos), "%s is written", e.val)
				}
			}
		})
	}
	// the bounds
	protect(R, "NewPCPHistogram", func() {
		fn := P.fn(modPath, "NewPCPHistogram")
		if fn == nil {
			R.Undecided("NewPCPHistogram", "does not exist")
			return
		}
		W := newWorld(P)
		E := W.Engine
		o := &opRun{W: W, R: R, P: P, owner: T, name: "new", fn: fn}
		c := newCtor(o, fn)
		pos := P.pos(fn.Pos())
		var ints []*Term
		for i, a := range o.args {
			if b, ok := fn.Signature.Params().At(i).Type().Underlying().(*types.Basic); ok && b.Kind() == types.Int64 {
				ints = append(ints, a)
			}
		}
		min, max := P.constVal(modPath, "HistogramMin"), P.constVal(modPath, "HistogramMax")
		if len(ints) != 2 || min == nil || max == nil {
			R.Undecided("NewPCPHistogram", "the bounds are not found")
			return
		}
		R.Ob("the supported range is 0 to 3600000000", "HistogramMin, HistogramMax", min.Sign() == 0 && max.Int64() == 3600000000, pos, "it is %v to %v", min, max)
		low, high := ints[0], ints[1]
		R.Ob("the low bound has to be below the high one", "NewPCPHistogram", E.never(E.bdd.And(c.ok, E.cmpInt("<", high, low, True))), pos, "it succeeds with a low bound above the high one")
		clamp := func(x *Term) *Term {
			lo, hi := E.cmpInt("<", x, E.BigInt(min), True), E.cmpInt("<", E.BigInt(max), x, True)
			return E.Phi([]Leaf{{lo, E.BigInt(min)}, {hi, E.BigInt(max)}, {E.bdd.Not(E.bdd.Or(lo, hi)), x}})
		}
		obj := E.Simp(c.rs[0], c.ok)
		h := E.Simp(W.histOf(obj, c.ok), c.ok)
		n := 0
		for _, e := range c.ev {
			if e.kind != "ext" || e.name != histPath+".New" {
				continue
			}
			n++
			R.Ob("the histogram has the bounds passed, limited to the range", "the low bound of NewPCPHistogram", E.never(E.bdd.And(c.ok, E.bdd.Not(E.Eq(e.args[0], clamp(low), True)))), P.pos(e.pos), "it is %s", e.args[0])
			R.Ob("the histogram has the bounds passed, limited to the range", "the high bound of NewPCPHistogram", E.never(E.bdd.And(c.ok, E.bdd.Not(E.Eq(e.args[1], clamp(high), True)))), P.pos(e.pos), "it is %s", e.args[1])
			d := E.args3(e)
			R.Ob("the significant figures are 1 to 5", "NewPCPHistogram", E.never(E.bdd.And(c.ok, E.bdd.Or(E.cmpInt("<", d, E.Int(1), True), E.cmpInt("<", E.Int(5), d, True)))), P.pos(e.pos), "they are %s", d)
			R.Ob("the metric wraps the histogram with these bounds", "NewPCPHistogram", E.never(E.bdd.AndAll(c.ok, E.bdd.Not(E.Eq(h, e.res[0], c.ok)))), P.pos(e.pos), "it wraps %s", h)
		}
		R.Ob("there is one histogram", "NewPCPHistogram", n == 1, pos, "%d are made", n)
		o.recv = obj
		for a, lib := range map[string]string{"High": "HighestTrackableValue", "Low": "LowestTrackableValue"} {
			fn := ms[a]
			if fn == nil {
				R.Undecided("(*"+T+")."+a, "the method does not exist")
				continue
			}
			r := o.step("then:", a, fn, c.ok)
			w := E.App("hist", lib, types.Typ[types.Int64], h)
			cl := clamp(low)
			if a == "High" {
				cl = clamp(high)
			}
			same := E.bdd.Or(E.sameVal(r.rs[0], w, c.ok), E.sameVal(r.rs[0], cl, c.ok))
			R.Ob("the accessor returns the bound", "(*"+T+")."+a, E.never(E.bdd.And(c.ok, E.bdd.Not(same))), P.pos(fn.Pos()), "it returns %s", r.rs[0])
			R.Count("bounds", 1)
		}
	})
	R.AtLeast("statistics", 20)
	R.AtLeast("accessors", 20)
	R.AtLeast("bounds", 2)
	R.AtLeast("recordings", 4)
}

func (E *Engine) args3(e *Event) *Term { return e.args[2] }
