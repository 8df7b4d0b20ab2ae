package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C09"] = check{"IsCompatible and the conversion that follows it are evaluated for every dynamic type of the value, symbolically in the value, and compared with the documented table for every metric type; every comparison is a condition over the value that has to be equivalent.", checkC09}
	checks["C16"] = check{"The methods that build and read units are evaluated on bit vectors, symbolic in the previous unit, the scale and the dimension, and compared bit by bit with the layout of PCP's pmUnits.", checkC16}
	checks["C17"] = check{"The constants of the enumerations of both packages, as the type checker evaluates them, are compared with the values of the PCP ABI; the String methods are evaluated on each constant.", checkC17}
	checks["C33"] = check{"The sizes and offsets that the compiler gives the fields of the types that mmvdump maps onto the file, their accessors, and the decoding of values are compared with the MMV format.", checkC33}
}

// sameUnder: two values are the same wherever g holds.
func (E *Engine) sameUnder(g B, a, b *Term) bool {
	if g == False || !E.feasible(g) {
		return true
	}
	a, b = E.Simp(a, g), E.Simp(b, g)
	if a == b {
		return true
	}
	return !E.feasible(E.bdd.And(g, E.bdd.Not(E.Eq(a, b, g))))
}

// equiv: two conditions are the same wherever g holds.
func (E *Engine) equiv(g, a, b B) bool {
	return !E.feasible(E.bdd.And(g, E.bdd.Xor(a, b)))
}

// call evaluates a function of the library that has to exist.
func (E *Engine) call(P *Program, R *Report, pkg, name string, g B, args ...*Term) ([]*Term, B, bool) {
	fn := P.fn(pkg, name)
	if fn == nil {
		R.Undecided(name, "the function does not exist")
		return nil, False, false
	}
	n := len(E.undecided)
	rs, rg := E.CallFn(fn, args, nil, g, nil, nil)
	for _, u := range E.undecided[n:] {
		R.Undecided(name, "%s", u)
	}
	return rs, rg, len(E.undecided) == n
}

func (P *Program) posOf(pkg, name string) string {
	if fn := P.fn(pkg, name); fn != nil {
		return P.pos(fn.Pos())
	}
	return ""
}

// ---------------------------------------------------------------- C09

var tMetricTypes = []string{"Int32Type", "Uint32Type", "Int64Type", "Uint64Type", "FloatType", "DoubleType", "StringType"}

func goTypeOf(mt string) types.Type {
	return map[string]types.Type{"Int32Type": types.Typ[types.Int32], "Uint32Type": types.Typ[types.Uint32],
		"Int64Type": types.Typ[types.Int64], "Uint64Type": types.Typ[types.Uint64],
		"FloatType": types.Typ[types.Float32], "DoubleType": types.Typ[types.Float64], "StringType": types.Typ[types.String]}[mt]
}

// compatible is the documented condition for a value x of Go type T.
func (E *Engine) compatible(mt string, x *Term, T types.Type) B {
	b, _ := T.(*types.Basic)
	in := func(lo, hi *big.Int) B {
		return E.bdd.And(E.cmpInt("<=", E.BigInt(lo), x, True), E.cmpInt("<=", x, E.BigInt(hi), True))
	}
	want := goTypeOf(mt)
	if mt == "StringType" {
		if b != nil && b.Kind() == types.String {
			return E.cmpInt("<=", E.Len(x), E.Int(255), True)
		}
		return False
	}
	if b != nil && types.Identical(T, want) {
		return True
	}
	if b == nil {
		return False
	}
	switch b.Kind() {
	case types.Int:
		if k, ok := intKind(want); ok {
			return in(k.min(), k.max())
		}
	case types.Uint:
		if k, ok := intKind(want); ok && !k.signed {
			return in(k.min(), k.max())
		}
	case types.Float64:
		if mt == "FloatType" {
			hi := E.Float(constant.MakeFloat64(math.MaxFloat32))
			lo := E.Float(constant.MakeFloat64(-math.MaxFloat32))
			return E.bdd.AndAll(E.flt2("<=", lo, x), E.flt2("<=", x, hi))
		}
	}
	return False
}

// flt2 is a comparison of floats as Go makes it.
func (E *Engine) flt2(op string, a, b *Term) B {
	if op == "<" {
		return E.flt(a, b)
	}
	return E.bdd.AndAll(E.bdd.Not(E.flt(b, a)), E.bdd.Not(E.nan(a)), E.bdd.Not(E.nan(b)))
}

func checkC09(P *Program, R *Report) {
	W := newWorld(P)
	E := W.Engine
	mtT := P.named(modPath, "MetricType")
	if mtT == nil {
		R.Undecided("MetricType", "the type does not exist")
		return
	}
	kinds := []types.Type{types.Typ[types.Int], types.Typ[types.Int32], types.Typ[types.Int64], types.Typ[types.Uint], types.Typ[types.Uint32],
		types.Typ[types.Uint64], types.Typ[types.Float32], types.Typ[types.Float64], types.Typ[types.String]}
	others := []types.Type{types.Typ[types.Bool], types.Typ[types.Int8], types.Typ[types.Int16], types.Typ[types.Uint8], types.Typ[types.Uint16],
		types.Typ[types.Uintptr], types.Typ[types.Complex64], types.Typ[types.Complex128], mtT, types.NewSlice(types.Typ[types.Byte])}
	pos := P.posOf(modPath, "(MetricType).IsCompatible")
	rpos := P.posOf(modPath, "(MetricType).resolve")
	for _, mt := range tMetricTypes {
		c := P.constVal(modPath, mt)
		if c == nil {
			R.Undecided(mt, "the constant does not exist")
			continue
		}
		m := E.BigInt(c)
		for i, T := range append(append([]types.Type(nil), kinds...), others...) {
			x := E.Sym("v", T)
			v := E.Iface(T, x)
			rs, rg, ok := E.call(P, R, modPath, "(MetricType).IsCompatible", True, m, v)
			if !ok {
				continue
			}
			got := E.Formula(rs[0])
			want := E.compatible(mt, x, T)
			what := fmt.Sprintf("%s of a %s", mt, typeStrShort(T))
			R.Ob("compatible exactly as documented", what, rg == True && E.equiv(True, got, want), pos,
				"compatible if %s, and should be if %s", E.BStr(got), E.BStr(want))
			R.Count("pairs of metric type and Go type", 1)
			if i >= len(kinds) || want == False || !E.feasible(want) {
				continue
			}
			rs, rg, ok = E.call(P, R, modPath, "(MetricType).resolve", want, m, v)
			if !ok {
				continue
			}
			gt := goTypeOf(mt)
			exp := E.Iface(gt, E.Conv(x, gt, want))
			if types.Identical(gt, T) {
				exp = v
			}
			R.Ob("converted to the Go type of the metric type with the same value", what, E.implies(want, rg) && E.sameUnder(want, rs[0], exp), rpos,
				"gives %s, and should give %s", rs[0], exp)
			R.Count("conversions", 1)
		}
		rs, rg, ok := E.call(P, R, modPath, "(MetricType).IsCompatible", True, m, E.Nil())
		if ok {
			R.Ob("compatible exactly as documented", mt+" of nil", rg == True && E.equiv(True, E.Formula(rs[0]), False), pos, "nil is compatible")
		}
	}
	// metric types that do not exist are compatible with nothing
	m := E.Sym("m", mtT)
	g := E.bdd.Not(E.bdd.And(E.cmpInt("<=", E.Int(0), m, True), E.cmpInt("<=", m, E.Int(6), True)))
	for _, T := range append(append([]types.Type(nil), kinds...), others...) {
		rs, rg, ok := E.call(P, R, modPath, "(MetricType).IsCompatible", g, m, E.Iface(T, E.Sym("v", T)))
		if ok {
			R.Ob("compatible exactly as documented", "no metric type of a "+typeStrShort(T), E.implies(g, rg) && E.equiv(g, E.Formula(rs[0]), False), pos, "a value is compatible with an invalid metric type")
		}
	}
	R.AtLeast("pairs of metric type and Go type", 7*19)
	R.AtLeast("conversions", 14)
	R.took(E, "metric types")
}

// ---------------------------------------------------------------- C16

func (E *Engine) bits32(t *Term) []B { return E.asBits(t, ikind{32, false}) }

// sameBits compares two vectors of bits.
func (E *Engine) sameBits(g B, a, b []B) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !E.equiv(g, a[i], b[i]) {
			return false
		}
	}
	return true
}

type unitKind struct {
	name, typ, method string
	dim, scale        int // lowest bits
	scales            int // number of scales
}

var unitKinds = []unitKind{{"space", "SpaceUnit", "Space", 28, 16, 7}, {"time", "TimeUnit", "Time", 24, 12, 6}, {"count", "CountUnit", "Count", 20, 8, 1}}

// compositeUnit is the type of the units that are put together.
func compositeUnit(P *Program) *types.Named {
	mu := P.named(modPath, "metricUnit")
	if mu == nil {
		// the representation is what NewMetricUnit returns
		if fn := P.fn(modPath, "NewMetricUnit"); fn != nil {
			for _, T := range P.implementers(fn.Signature.Results().At(0).Type()) {
				if n := namedOf(T); n != nil && isPtr(T) {
					mu = n
				}
			}
		}
	}
	return mu
}

func checkC16(P *Program, R *Report) {
	mu := compositeUnit(P)
	if mu == nil {
		R.Undecided("composite units", "no type implements them")
		return
	}
	mname := "(*" + mu.Obj().Name() + ")."
	for _, k := range unitKinds {
		ut := P.named(modPath, k.typ)
		if ut == nil {
			R.Undecided(k.typ, "the type does not exist")
			return
		}
		// building on a composite unit
		E := newWorld(P).Engine
		m := E.Sym("m", types.NewPointer(mu))
		before, _, ok := E.call(P, R, modPath, mname+"PMAPI", True, m)
		if !ok {
			continue
		}
		s, d := E.Sym("scale", ut), E.Sym("dim", types.Typ[types.Int8])
		in := E.bdd.And(E.cmpInt("<=", E.Int(-8), d, True), E.cmpInt("<=", d, E.Int(7), True))
		rs, rg, ok := E.call(P, R, modPath, mname+k.method, True, m, s, d)
		if !ok {
			continue
		}
		pos := P.posOf(modPath, mname+k.method)
		R.Ob("a dimension outside of -8..7 panics, others do not", mname+k.method, E.equiv(True, rg, in), pos, "returns if %s", E.BStr(rg))
		want := append([]B(nil), E.bits32(before[0])...)
		sb, db := E.asBits(E.Conv(s, types.Typ[types.Uint32], True), ikind{32, false}), E.asBits(d, ikind{8, true})
		copy(want[k.scale:k.scale+4], sb[k.scale:k.scale+4])
		copy(want[k.dim:k.dim+4], db[:4])
		after, ag, ok := E.call(P, R, modPath, mname+"PMAPI", in, m)
		if ok {
			R.Ob("sets the scale and dimension it was given and nothing else", mname+k.method, E.implies(in, ag) && E.sameBits(in, E.bits32(after[0]), want), pos, "the representation afterwards is not that of the unit built")
		}
		E.unitResult(P, R, mname+k.method+" result", in, rs[0], want, pos)
		// the accessors
		E = newWorld(P).Engine
		m = E.Sym("m", types.NewPointer(mu))
		before, _, ok = E.call(P, R, modPath, mname+"PMAPI", True, m)
		if !ok {
			continue
		}
		b := E.bits32(before[0])
		name := strings.Title(k.name)
		dn, sn := mname+name+"Dim", mname+name+"Scale"
		rs, rg, ok = E.call(P, R, modPath, dn, True, m)
		nz := False
		for i := 0; i < 4; i++ {
			nz = E.bdd.Or(nz, b[k.dim+i])
		}
		if ok {
			want := make([]B, 8)
			for i := range want {
				want[i] = b[k.dim+min(i, 3)]
			}
			R.Ob("returns the dimension", dn, rg == True && E.sameBits(True, E.asBits(rs[0], ikind{8, true}), want), P.posOf(modPath, dn), "the result is not the sign extended dimension")
		}
		rs, rg, ok = E.call(P, R, modPath, sn, True, m)
		if ok {
			want := make([]B, 32)
			for i := range want {
				want[i] = False
			}
			copy(want[k.scale:k.scale+4], b[k.scale:k.scale+4])
			want[k.dim] = True
			R.Ob("returns the scale", sn, E.equiv(True, rg, nz) && E.sameBits(nz, E.asBits(rs[0], ikind{32, false}), want), P.posOf(modPath, sn), "the result is not the unit of the scale, or it does not panic exactly without one")
		}
		// building on a simple unit
		for _, o := range unitKinds {
			if o.name == k.name {
				continue
			}
			E := newWorld(P).Engine
			u := E.Sym("u", ut)
			ot := P.named(modPath, o.typ)
			s, d := E.Sym("scale", ot), E.Sym("dim", types.Typ[types.Int8])
			in := E.bdd.And(E.cmpInt("<=", E.Int(-8), d, True), E.cmpInt("<=", d, E.Int(7), True))
			name := "(" + k.typ + ")." + o.method
			rs, rg, ok := E.call(P, R, modPath, name, True, u, s, d)
			if !ok {
				continue
			}
			pos := P.posOf(modPath, name)
			R.Ob("a dimension outside of -8..7 panics, others do not", name, E.equiv(True, rg, in), pos, "returns if %s", E.BStr(rg))
			want := append([]B(nil), E.asBits(E.Conv(u, types.Typ[types.Uint32], True), ikind{32, false})...)
			sb, db := E.asBits(E.Conv(s, types.Typ[types.Uint32], True), ikind{32, false}), E.asBits(d, ikind{8, true})
			copy(want[o.scale:o.scale+4], sb[o.scale:o.scale+4])
			copy(want[o.dim:o.dim+4], db[:4])
			E.unitResult(P, R, name, in, rs[0], want, pos)
			R.took(E, name)
		}
		// a simple unit
		E = newWorld(P).Engine
		u := E.Sym("u", ut)
		pm := "(" + k.typ + ").PMAPI"
		rs, rg, ok = E.call(P, R, modPath, pm, True, u)
		if ok {
			R.Ob("is the value of the constant", pm, rg == True && E.sameBits(True, E.bits32(rs[0]), E.asBits(E.Conv(u, types.Typ[types.Uint32], True), ikind{32, false})), P.posOf(modPath, pm), "the representation is not the constant")
		}
		R.Count("kinds of units", 1)
		R.took(E, k.name)
	}
	// a new unit is empty
	E := newWorld(P).Engine
	rs, rg, ok := E.call(P, R, modPath, "NewMetricUnit", True)
	if ok {
		zero := make([]B, 32)
		for i := range zero {
			zero[i] = False
		}
		E.unitResult(P, R, "NewMetricUnit", rg, rs[0], zero, P.posOf(modPath, "NewMetricUnit"))
	}
	R.took(E, "NewMetricUnit")
	R.AtLeast("kinds of units", 3)
}

// unitResult: the PMAPI representation of a returned unit.
func (E *Engine) unitResult(P *Program, R *Report, what string, g B, u *Term, want []B, pos string) {
	u = E.Simp(u, g)
	good := E.feasible(g)
	for _, l := range leavesOf(u) {
		lg := E.bdd.And(g, l.g)
		if lg == False || !E.feasible(lg) {
			continue
		}
		if l.t.op != "iface" {
			good = false
			continue
		}
		fn := P.ssa.LookupMethod(l.t.typ, nil, "PMAPI")
		if fn == nil {
			good = false
			continue
		}
		rs, rg := E.CallFn(fn, []*Term{l.t.args[0]}, nil, lg, nil, nil)
		if !E.implies(lg, rg) || !E.sameBits(lg, E.bits32(rs[0]), want) {
			good = false
		}
	}
	R.Ob("the unit returned has exactly the scales and dimensions given", what, good, pos, "the representation of the returned unit is wrong: %s", u)
	R.Count("units built", 1)
}

// ---------------------------------------------------------------- C17

type enum struct {
	pkg, typ string
	names    map[string]int64
}

func unitConsts() map[string]map[string]int64 {
	r := map[string]map[string]int64{"SpaceUnit": {}, "TimeUnit": {}, "CountUnit": {"OneUnit": 1 << 20}}
	for i, n := range []string{"ByteUnit", "KilobyteUnit", "MegabyteUnit", "GigabyteUnit", "TerabyteUnit", "PetabyteUnit", "ExabyteUnit"} {
		r["SpaceUnit"][n] = 1<<28 | int64(i)<<16
	}
	for i, n := range []string{"NanosecondUnit", "MicrosecondUnit", "MillisecondUnit", "SecondUnit", "MinuteUnit", "HourUnit"} {
		r["TimeUnit"][n] = 1<<24 | int64(i)<<12
	}
	return r
}

func enums() []enum {
	mt := map[string]int64{"Int32Type": 0, "Uint32Type": 1, "Int64Type": 2, "Uint64Type": 3, "FloatType": 4, "DoubleType": 5, "StringType": 6}
	dt := map[string]int64{"NoSupportType": -1, "UnknownType": 255}
	for k, v := range mt {
		dt[k] = v
	}
	sem := map[string]int64{"NoSemantics": 0, "CounterSemantics": 1, "InstantSemantics": 3, "DiscreteSemantics": 4}
	u := unitConsts()
	all := map[string]int64{}
	for _, m := range u {
		for k, v := range m {
			all[k] = v
		}
	}
	d := modPath + "/mmvdump"
	return []enum{
		{modPath, "MetricType", mt}, {d, "Type", dt},
		{modPath, "MetricSemantics", sem}, {d, "Semantics", sem},
		{modPath, "SpaceUnit", u["SpaceUnit"]}, {modPath, "TimeUnit", u["TimeUnit"]}, {modPath, "CountUnit", u["CountUnit"]}, {d, "Unit", all},
		{modPath, "MMVFlag", map[string]int64{"NoPrefixFlag": 1, "ProcessFlag": 2, "SentinelFlag": 4}},
		{d, "TocType", map[string]int64{"TocIndoms": 1, "TocInstances": 2, "TocMetrics": 3, "TocValues": 4, "TocStrings": 5}},
	}
}

var recordLens = map[string]int64{"HeaderLength": 40, "TocLength": 16, "Metric1Length": 104, "Metric2Length": 48, "ValueLength": 32,
	"Instance1Length": 80, "Instance2Length": 24, "InstanceDomainLength": 32, "StringLength": 256}

func checkC17(P *Program, R *Report) {
	for _, e := range enums() {
		T := P.named(e.pkg, e.typ)
		short := strings.TrimPrefix(strings.TrimPrefix(e.pkg, modPath), "/")
		if short == "" {
			short = "speed"
		}
		if T == nil {
			R.Undecided(short+"."+e.typ, "the type does not exist")
			continue
		}
		scope := P.tpkgs[e.pkg].Types.Scope()
		seen := map[string]bool{}
		for _, n := range scope.Names() {
			c, ok := scope.Lookup(n).(*types.Const)
			if !ok || !types.Identical(c.Type(), T) {
				continue
			}
			seen[n] = true
			v, exact := constant.Int64Val(c.Val())
			w, known := e.names[n]
			if !known {
				// a further name must not contradict the others
				for o, ov := range e.names {
					if exact && ov == v {
						R.Ob("a value has one name", short+"."+n, false, P.pos(c.Pos()), "has the value of %s", o)
					}
				}
				continue
			}
			R.Ob("has the value of the PCP ABI", short+"."+n, exact && v == w, P.pos(c.Pos()), "is %v and should be %d", c.Val(), w)
			R.Count("constants of enumerations", 1)
		}
		for n := range e.names {
			R.Ob("the constant exists with its type", short+"."+n, seen[n], P.pos(T.Obj().Pos()), "there is no constant %s of type %s", n, e.typ)
		}
		if e.pkg == modPath {
			checkStringer(P, R, e, T)
		}
	}
	for _, pkg := range []string{modPath, modPath + "/mmvdump"} {
		for n, w := range recordLens {
			v := P.constVal(pkg, n)
			R.Ob("has the length of the MMV format", pkg[len(modPath):]+"."+n, v != nil && v.Cmp(big.NewInt(w)) == 0, "", "is %v and should be %d", v, w)
			R.Count("record lengths", 1)
		}
	}
	R.AtLeast("constants of enumerations", 7+9+4+4+14+14+3+5)
	R.AtLeast("record lengths", 18)
	R.AtLeast("printed constants", 7+4+14+3)
}

func checkStringer(P *Program, R *Report, e enum, T *types.Named) {
	fn := P.fn(e.pkg, "("+e.typ+").String")
	if fn == nil {
		R.Undecided("("+e.typ+").String", "the method does not exist")
		return
	}
	var ns []string
	for n := range e.names {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	for _, n := range ns {
		c := P.constVal(e.pkg, n)
		if c == nil {
			continue
		}
		E := newWorld(P).Engine
		rs, rg := E.CallFn(fn, []*Term{E.BigInt(c)}, nil, True, nil, nil)
		R.Ob("prints as its own name", e.typ+"."+n, rg == True && rs[0] == E.Str(n), P.pos(fn.Pos()), "prints as %s", rs[0])
		R.Count("printed constants", 1)
		R.took(E, "("+e.typ+").String")
	}
}

// ---------------------------------------------------------------- C33

type fieldSpec struct {
	name      string
	off, size int64
}

func checkC33(P *Program, R *Report) {
	d := modPath + "/mmvdump"
	tp := P.tpkgs[d]
	if tp == nil {
		R.Undecided("mmvdump", "the package does not exist")
		return
	}
	specs := map[string]struct {
		size   int64
		fields []fieldSpec
	}{
		"Header":         {40, []fieldSpec{{"Magic", 0, 4}, {"Version", 4, 4}, {"G1", 8, 8}, {"G2", 16, 8}, {"Toc", 24, 4}, {"Flag", 28, 4}, {"Process", 32, 4}, {"Cluster", 36, 4}}},
		"Toc":            {16, []fieldSpec{{"Type", 0, 4}, {"Count", 4, 4}, {"Offset", 8, 8}}},
		"InstanceDomain": {32, []fieldSpec{{"Serial", 0, 4}, {"Count", 4, 4}, {"Offset", 8, 8}, {"Shorttext", 16, 8}, {"Longtext", 24, 8}}},
		"Instance1":      {80, []fieldSpec{{"Indom()", 0, 8}, {"Padding()", 8, 4}, {"Internal()", 12, 4}, {"External", 16, 64}}},
		"Instance2":      {24, []fieldSpec{{"Indom()", 0, 8}, {"Padding()", 8, 4}, {"Internal()", 12, 4}, {"External", 16, 8}}},
		"Metric1": {104, []fieldSpec{{"Name", 0, 64}, {"Item()", 64, 4}, {"Typ()", 68, 4}, {"Sem()", 72, 4}, {"Unit()", 76, 4}, {"Indom()", 80, 4},
			{"Padding()", 84, 4}, {"ShortText()", 88, 8}, {"LongText()", 96, 8}}},
		"Metric2": {48, []fieldSpec{{"Name", 0, 8}, {"Item()", 8, 4}, {"Typ()", 12, 4}, {"Sem()", 16, 4}, {"Unit()", 20, 4}, {"Indom()", 24, 4},
			{"Padding()", 28, 4}, {"ShortText()", 32, 8}, {"LongText()", 40, 8}}},
		"Value":  {32, []fieldSpec{{"Val", 0, 8}, {"Extra", 8, 8}, {"Metric", 16, 8}, {"Instance", 24, 8}}},
		"String": {256, []fieldSpec{{"Payload", 0, 256}}},
	}
	var names []string
	for n := range specs {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, arch := range []string{"amd64", "386", "arm64", "arm"} {
		sizes := types.SizesFor("gc", arch)
		if arch == "amd64" {
			sizes = tp.TypesSizes
		}
		for _, n := range names {
			sp := specs[n]
			T := P.named(d, n)
			if T == nil {
				R.Undecided("mmvdump."+n, "the type does not exist")
				continue
			}
			pos := P.pos(T.Obj().Pos())
			what := "mmvdump." + n + " on " + arch
			R.Ob("has the size of the record", what, sizes.Sizeof(T) == sp.size, pos, "has %d bytes and should have %d", sizes.Sizeof(T), sp.size)
			covered := int64(0)
			for _, f := range sp.fields {
				off, size, ok := fieldOffset(P, T, f.name, sizes)
				R.Ob("the field is at its offset with its size", what+" "+f.name, ok && off == f.off && size == f.size, pos,
					"is %d bytes at %d, and should be %d bytes at %d", size, off, f.size, f.off)
				R.Count("fields", 1)
				covered += size
			}
			R.Ob("the fields cover the record, without padding", what, covered == sp.size, pos, "they cover %d of %d bytes", covered, sp.size)
			R.Count("record types", 1)
		}
	}
	checkFixedVal(P, R)
	checkUnitAccessors(P, R)
	R.AtLeast("record types", 36)
	R.AtLeast("fields", 4*(8+3+5+4+4+9+9+4+1))
}

// fieldOffset finds a field, or the one an accessor returns.
func fieldOffset(P *Program, T *types.Named, name string, sizes types.Sizes) (off, size int64, ok bool) {
	var index []int
	if strings.HasSuffix(name, "()") {
		index, ok = accessorPath(P, T, strings.TrimSuffix(name, "()"))
		if !ok {
			return 0, 0, false
		}
	} else {
		o, ix, _ := types.LookupFieldOrMethod(T, true, T.Obj().Pkg(), name)
		if v, isVar := o.(*types.Var); !isVar || !v.IsField() {
			return 0, 0, false
		}
		index = ix
	}
	var t types.Type = T
	for _, i := range index {
		s, isS := t.Underlying().(*types.Struct)
		if !isS {
			return 0, 0, false
		}
		var fs []*types.Var
		for j := 0; j < s.NumFields(); j++ {
			fs = append(fs, s.Field(j))
		}
		off += sizes.Offsetsof(fs)[i]
		t = s.Field(i).Type()
	}
	return off, sizes.Sizeof(t), true
}

// accessorPath gives the path of fields to what a method returns of its receiver.
func accessorPath(P *Program, T *types.Named, method string) ([]int, bool) {
	E := newEngine(P)
	fn := P.ssa.LookupMethod(types.NewPointer(T), T.Obj().Pkg(), method)
	if fn == nil {
		return nil, false
	}
	x := E.Sym("x", types.NewPointer(T))
	rs, rg := E.CallFn(fn, []*Term{x}, nil, True, nil, nil)
	if rg != True || len(rs) != 1 || rs[0].op != "load" || len(E.undecided) > 0 {
		return nil, false
	}
	var path []int
	l := rs[0].args[0]
	for l != x {
		if l.op != "fieldaddr" {
			return nil, false
		}
		fi := l.aux[strings.Index(l.aux, "#")+1:]
		var st types.Type = T
		if l.args[0] != x {
			st = l.args[0].typ
		}
		i := fieldIndex(st, fi)
		if i < 0 {
			return nil, false
		}
		path = append([]int{i}, path...)
		l = l.args[0]
	}
	return path, true
}

func checkFixedVal(P *Program, R *Report) {
	d := modPath + "/mmvdump"
	fn := P.fn(d, "FixedVal")
	if fn == nil || len(fn.Params) != 2 {
		R.Undecided("mmvdump.FixedVal", "the function does not exist as expected")
		return
	}
	pos := P.pos(fn.Pos())
	mk := func() (*Engine, *Term, []*Term, B) {
		E := newEngine(P)
		E.initGlobals()
		v := E.Sym("v", fn.Params[0].Type())
		t := E.Sym("t", fn.Params[1].Type())
		rs, rg := E.CallFn(fn, []*Term{v, t}, nil, True, nil, nil)
		R.took(E, "mmvdump.FixedVal")
		return E, v, append(rs, t), rg
	}
	for _, n := range []string{"Int32Type", "Uint32Type", "Int64Type", "Uint64Type", "FloatType", "DoubleType"} {
		E, v, rs, rg := mk()
		t := rs[2]
		c := P.constVal(d, n)
		if c == nil {
			continue
		}
		g := E.cmpInt("==", t, E.BigInt(c), True)
		gt := goTypeOf(n)
		var want *Term
		switch n {
		case "FloatType":
			want = E.App("call", "math.Float32frombits", gt, E.Conv(v, types.Typ[types.Uint32], g))
		case "DoubleType":
			want = E.App("call", "math.Float64frombits", gt, v)
		default:
			want = E.Conv(v, gt, g)
		}
		want = E.Iface(gt, want)
		R.Ob("decodes a value as the Go type of its metric type", "mmvdump.FixedVal of "+n, E.implies(g, rg) && E.sameUnder(g, rs[0], want) && E.sameUnder(g, rs[1], E.Nil()), pos, "gives %s, and should give %s", E.Simp(rs[0], g), want)
		R.Count("decoded types", 1)
	}
	E, _, rs, rg := mk()
	t := rs[2]
	g := E.bdd.Or(E.cmpInt("<=", t, E.Int(-1), True), E.cmpInt("<=", E.Int(6), t, True))
	R.Ob("rejects types without a fixed size", "mmvdump.FixedVal", E.implies(g, rg) && !E.feasible(E.bdd.And(g, E.Eq(rs[1], E.Nil(), g))), pos, "returns no error for a type it cannot decode")
	R.AtLeast("decoded types", 6)
}

func checkUnitAccessors(P *Program, R *Report) {
	d := modPath + "/mmvdump"
	ut := P.named(d, "Unit")
	if ut == nil {
		R.Undecided("mmvdump.Unit", "the type does not exist")
		return
	}
	for _, k := range unitKinds {
		for _, part := range []string{"Dim", "Scale"} {
			E := newEngine(P)
			u := E.Sym("u", ut)
			b := E.asBits(u, ikind{32, false})
			name := "(Unit)." + strings.Title(k.name) + part
			rs, rg, ok := E.call(P, R, d, name, True, u)
			if !ok {
				continue
			}
			want := make([]B, 8)
			for i := range want {
				if part == "Dim" {
					want[i] = b[k.dim+min(i, 3)]
				} else {
					want[i] = False
					if i < 4 {
						want[i] = b[k.scale+i]
					}
				}
			}
			R.Ob("returns the field of the unit it is named after", "mmvdump."+name, rg == True && E.sameBits(True, E.asBits(rs[0], ikind{8, part == "Dim"}), want), P.posOf(d, name), "the result is not the %s of the %s", strings.ToLower(part), k.name)
			R.Count("unit accessors", 1)
			R.took(E, name)
		}
	}
	R.AtLeast("unit accessors", 6)
}

var _ = ssa.NaiveForm

var constMinusOne = constant.MakeFloat64(-1)

const tokenADD, tokenQUO, tokenMUL = token.ADD, token.QUO, token.MUL
