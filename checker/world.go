package main

import (
	"go/types"
	"math/big"
	"strings"
)

// The names of the types whose state the type invariants are about.
var metricTypes = []string{"PCPSingletonMetric", "PCPCounter", "PCPGauge", "PCPTimer",
	"PCPInstanceMetric", "PCPCounterVector", "PCPGaugeVector", "PCPHistogram"}

var histNames = []string{"min", "max", "mean", "variance", "standard_deviation"}

// valKind is the Go type a metric type always holds, nil if it depends.
func valKind(owner string) types.Type {
	switch owner {
	case "PCPCounter", "PCPCounterVector":
		return types.Typ[types.Int64]
	case "PCPGauge", "PCPGaugeVector", "PCPTimer", "PCPHistogram":
		return types.Typ[types.Float64]
	}
	return nil
}

// ownerOf finds the metric type an object belongs to: the struct at the start of
// the chain of loads that leads to it.
func ownerOf(t *Term) (string, *Term) {
	for t != nil {
		if t.op == "fieldaddr" {
			st := t.aux[:strings.Index(t.aux, "#")]
			for _, n := range metricTypes {
				if st == modPath+"."+n {
					return n, t.args[0]
				}
			}
		}
		switch t.op {
		case "fieldaddr", "load", "mapaddr", "indexaddr", "haddr", "mlenaddr", "tassert":
			t = t.args[0]
			continue
		}
		return "", nil
	}
	return "", nil
}

func fieldIs(t *Term, st, f string) bool {
	return t.op == "fieldaddr" && t.aux == modPath+"."+st+"#"+f
}

func loadOf(t *Term) *Term {
	if t.op == "load" {
		return t.args[0]
	}
	return nil
}

// World is an engine set up with what always holds of the objects of the library.
// Each of these invariants is itself an obligation of a check: that the
// constructors establish it and no store of the library breaks it.
type World struct {
	*Engine
	P *Program
}

func newWorld(P *Program) *World {
	E := newEngine(P)
	E.clientMode = true
	W := &World{E, P}
	E.initGlobals()
	E.invariants = W.invariant
	E.nonNilHook = W.nonNil
	E.injective = W.isInjective
	E.rangeHook = W.ranges
	E.typeHook = W.holds
	return W
}

// holds: the type of the values that metrics of most kinds hold.
func (W *World) holds(t *Term, T types.Type) (is, known bool) {
	l := loadOf(t)
	if l == nil || !isCell(l) {
		return false, false
	}
	o, _ := ownerOf(l.args[0])
	k := valKind(o)
	if k == nil {
		return false, false
	}
	if it, ok := T.Underlying().(*types.Interface); ok {
		return types.Implements(k, it), true
	}
	return types.Identical(k, T), true
}

func (W *World) invariant(E *Engine, loc, v *Term) *Term {
	switch {
	case fieldIs(loc, "pcpMetricDesc", "t"):
		o, _ := ownerOf(loc.args[0])
		if k := valKind(o); k != nil {
			name := "Int64Type"
			if isFloat(k) {
				name = "DoubleType"
			}
			if c := W.P.constVal(modPath, name); c != nil {
				return E.BigInt(c)
			}
		}
	case fieldIs(loc, "pcpSingletonMetric", "val"), fieldIs(loc, "instanceValue", "val"):
		o, _ := ownerOf(loc.args[0])
		if k := valKind(o); k != nil {
			return E.Iface(k, E.Tassert(v, k))
		}
	case fieldIs(loc, "pcpMetricDesc", "name"):
		if k := registryKey(loc, "metrics"); k != nil {
			return k
		}
	case fieldIs(loc, "PCPInstanceDomain", "name"):
		if k := mapKeyOf(loc.args[0], "PCPRegistry", "instanceDomains"); k != nil {
			return k
		}
	case fieldIs(loc, "pcpInstance", "name"):
		if k := mapKeyOf(loc.args[0], "PCPInstanceDomain", "instances"); k != nil {
			return k
		}
	case loc.op == "haddr":
		if m := loadOf(loc.args[0]); m != nil {
			if d := W.registeredIndomOf(loc.args[1]); d != nil && fieldIs(m, "PCPRegistry", "instanceDomains") {
				return E.Bool(True)
			}
			if d := W.sameInstances(m); d != nil {
				return E.initial(E.HasAddr(d, loc.args[1], W.elemOf("PCPInstanceDomain", "instances")), d)
			}
		}
		// a metric has exactly the instances of its instance domain
		m := loadOf(loc.args[0])
		if m == nil {
			return nil
		}
		o, _ := ownerOf(m)
		if o == "PCPHistogram" && (fieldIs(m, "pcpInstanceMetric", "vals") || fieldIs(m, "PCPInstanceDomain", "instances")) {
			r := False
			for _, n := range histNames {
				r = E.bdd.Or(r, E.Eq(loc.args[1], E.Str(n), True))
			}
			return E.Bool(r)
		}
		if fieldIs(m, "pcpInstanceMetric", "vals") {
			if ins := W.instancesOf(m.args[0]); ins != nil {
				h := E.HasAddr(ins, loc.args[1], W.elemOf("PCPInstanceDomain", "instances"))
				return E.initial(h, locRoot(h))
			}
		}
	case loc.op == "mlenaddr":
		m := loadOf(loc.args[0])
		if m == nil {
			return nil
		}
		if d := W.sameInstances(m); d != nil {
			h := E.MlenAddr(d)
			return E.initial(h, locRoot(h))
		}
		o, _ := ownerOf(m)
		if o == "PCPHistogram" && (fieldIs(m, "pcpInstanceMetric", "vals") || fieldIs(m, "PCPInstanceDomain", "instances")) {
			return E.Int(int64(len(histNames)))
		}
		if fieldIs(m, "pcpInstanceMetric", "vals") {
			if ins := W.instancesOf(m.args[0]); ins != nil {
				h := E.MlenAddr(ins)
				return E.initial(h, locRoot(h))
			}
		}
	}
	return nil
}

// mapKeyOf gives k for an object that is known as the element k of a map.
func mapKeyOf(obj *Term, st, f string) *Term {
	l := loadOf(obj)
	if l == nil || obj.aux != "" || l.op != "mapaddr" {
		return nil
	}
	if m := loadOf(l.args[0]); m != nil && l.args[0].aux == "" && fieldIs(m, st, f) {
		return l.args[1]
	}
	return nil
}

// registryKey gives the key of the metric of a registry that a location is part of.
func registryKey(loc *Term, f string) *Term {
	_, o := ownerOf(loc)
	if o == nil {
		return nil
	}
	if o.op == "tassert" {
		o = o.args[0]
	}
	return mapKeyOf(o, "PCPRegistry", f)
}

// registeredIndomOf gives the instance domain of a registered metric that a name is that of.
func (W *World) registeredIndomOf(name *Term) *Term {
	l := loadOf(name)
	if l == nil || name.aux != "" || !fieldIs(l, "PCPInstanceDomain", "name") {
		return nil
	}
	d := l.args[0]
	if dl := loadOf(d); dl == nil || !fieldIs(dl, "pcpInstanceMetric", "indom") || registryKey(dl, "metrics") == nil {
		return nil
	}
	return d
}

// sameInstances: the registered instance domain of the name of that of a registered
// metric has the instances of that.
func (W *World) sameInstances(m *Term) *Term {
	if !fieldIs(m, "PCPInstanceDomain", "instances") {
		return nil
	}
	k := mapKeyOf(m.args[0], "PCPRegistry", "instanceDomains")
	if k == nil {
		return nil
	}
	d := W.registeredIndomOf(k)
	if d == nil {
		return nil
	}
	dt := W.P.named(modPath, "PCPInstanceDomain")
	return W.initial(W.FieldAddr(d, dt, fieldIndex(dt, "instances")), d)
}

// instancesOf is the map of instances of the instance domain of an instance metric.
func (W *World) instancesOf(im *Term) *Term {
	mt, dt := W.P.named(modPath, "pcpInstanceMetric"), W.P.named(modPath, "PCPInstanceDomain")
	if mt == nil || dt == nil {
		return nil
	}
	i, j := fieldIndex(mt, "indom"), fieldIndex(dt, "instances")
	if i < 0 || j < 0 {
		return nil
	}
	dom := W.initial(W.FieldAddr(im, mt, i), im)
	return W.initial(W.FieldAddr(dom, dt, j), dom)
}

func (W *World) elemOf(st, f string) types.Type {
	n := W.P.named(modPath, st)
	s := n.Underlying().(*types.Struct)
	return s.Field(fieldIndex(n, f)).Type().Underlying().(*types.Map).Elem()
}

func fieldIndex(t types.Type, name string) int {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return -1
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return i
		}
	}
	// under another name: the only field of its type
	if n := namedOf(t); n != nil {
		if typ := soleField[n.Obj().Name()+"."+name]; typ != "" {
			found := -1
			for i := 0; i < s.NumFields(); i++ {
				if types.TypeString(s.Field(i).Type(), func(*types.Package) string { return "" }) == typ {
					if found >= 0 {
						return -1
					}
					found = i
				}
			}
			return found
		}
	}
	return -1
}

// soleField: fields that no other field has the type of.
var soleField = map[string]string{"PCPClient.flag": "MMVFlag", "PCPClient.clusterID": "uint32"}

// nonNil: values that constructors always set.
func (W *World) nonNil(t *Term) bool {
	l := loadOf(t)
	if l == nil || t.aux != "" {
		return false
	}
	switch l.op {
	case "fieldaddr":
		i := strings.Index(l.aux, "#")
		st, f := l.aux[:i], l.aux[i+1:]
		if !strings.HasPrefix(st, modPath+".") {
			return false
		}
		switch strings.TrimPrefix(st, modPath+".") {
		case "PCPSingletonMetric", "PCPCounter", "PCPGauge", "PCPTimer":
			return f == "pcpSingletonMetric"
		case "PCPInstanceMetric", "PCPCounterVector", "PCPGaugeVector":
			return f == "pcpInstanceMetric"
		case "PCPHistogram":
			return f == "pcpInstanceMetric" || isPtr(l.typ)
		case "pcpSingletonMetric":
			return f == "pcpMetricDesc"
		case "pcpInstanceMetric":
			return f == "pcpMetricDesc" || f == "indom" || f == "vals"
		case "PCPInstanceDomain":
			return f == "instances"
		case "PCPRegistry":
			return isMap(l.typ)
		case "PCPClient":
			return f == "r"
		}
	case "mapaddr":
		m := loadOf(l.args[0])
		return m != nil && (fieldIs(m, "pcpInstanceMetric", "vals") || fieldIs(m, "PCPInstanceDomain", "instances") ||
			m.op == "fieldaddr" && strings.HasPrefix(m.aux, modPath+".PCPRegistry#"))
	}
	return false
}

func isPtr(t types.Type) bool { _, ok := t.Underlying().(*types.Pointer); return ok }
func isMap(t types.Type) bool { _, ok := t.Underlying().(*types.Map); return ok }

// ranges: no count of things in memory exceeds what fits in memory.
func (W *World) ranges(t *Term) (lo, hi *big.Int, ok bool) {
	if t.op == "maplen" || t.op == "load" && t.args[0].op == "mlenaddr" {
		return big.NewInt(0), new(big.Int).Lsh(big.NewInt(1), 40), true
	}
	if t.op == "load" && t.aux == "" && t.args[0].op == "fieldaddr" && strings.HasPrefix(t.args[0].aux, modPath+".PCPRegistry#") {
		if ik, isI := intKind(t.typ); isI && ik.bits == 64 {
			return big.NewInt(0), new(big.Int).Lsh(big.NewInt(1), 40), true
		}
	}
	return nil, nil, false
}

// isInjective: two of these locations never hold the same object.
func (W *World) isInjective(p *Term) bool {
	l := loadOf(p)
	if l == nil || p.aux != "" {
		return false
	}
	if l.op == "mapaddr" {
		m := loadOf(l.args[0])
		return m != nil && (fieldIs(m, "pcpInstanceMetric", "vals") || fieldIs(m, "PCPInstanceDomain", "instances") ||
			m.op == "fieldaddr" && strings.HasPrefix(m.aux, modPath+".PCPRegistry#"))
	}
	if l.op == "fieldaddr" {
		for _, o := range metricTypes {
			if fieldIs(l, o, "pcpSingletonMetric") || fieldIs(l, o, "pcpInstanceMetric") {
				return true
			}
		}
		return fieldIs(l, "pcpInstanceMetric", "vals") || fieldIs(l, "PCPInstanceDomain", "instances")
	}
	return false
}
