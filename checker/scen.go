package main

import (
	"fmt"
	"go/types"
	"strings"
)

// Scenario is a case of the case split in which starting a client is analysed.
// Counts are zero, positive, or anything.
type Scenario struct {
	v2      bool
	indoms  bool // there are instance domains
	insts   bool // with instances
	metrics bool
	strings bool
	mtype   string // type of the metric of an iteration
}

func (s Scenario) String() string {
	b := func(n string, v bool) string {
		if v {
			return n + ">0"
		}
		return n + "=0"
	}
	v := "v1"
	if s.v2 {
		v = "v2"
	}
	return strings.Join([]string{v, b("indoms", s.indoms), b("instances", s.insts), b("metrics", s.metrics), b("strings", s.strings), s.mtype}, " ")
}

// clientWorld is a world with a client whose registry satisfies a scenario.
type clientWorld struct {
	*World
	c  *Term            // the client
	r  *Term            // its registry
	g  B                // the condition of the scenario
	n  map[string]*Term // what the count methods return initially
	sc Scenario

	fileLen *Term // of the file that is mapped
}

func (W *World) field(base *Term, st, f string) *Term {
	n := W.P.named(modPath, st)
	if n == nil {
		return nil
	}
	i := fieldIndex(n, f)
	if i < 0 {
		return nil
	}
	return W.FieldAddr(base, n, i)
}

// pure evaluates a method without recording what it does.
func (W *World) pure(name string, g B, args ...*Term) ([]*Term, error) {
	fn := W.P.fn(modPath, name)
	if fn == nil {
		return nil, fmt.Errorf("%s does not exist", name)
	}
	st := W.saveState()
	n := len(W.undecided)
	rs, rg := W.CallFn(fn, args, nil, g, nil, nil)
	W.restoreState(st)
	if len(W.undecided) > n {
		return nil, fmt.Errorf("%s: %s", name, W.undecided[n])
	}
	if W.feasible(W.bdd.And(g, W.bdd.Not(rg))) {
		return nil, fmt.Errorf("%s can panic", name)
	}
	return rs, nil
}

func newClientWorld(P *Program, sc Scenario) (*clientWorld, error) {
	W := newWorld(P)
	cw := &clientWorld{World: W, sc: sc, n: map[string]*Term{}}
	ct := P.named(modPath, "PCPClient")
	if ct == nil {
		return nil, fmt.Errorf("no type PCPClient")
	}
	cw.c = W.Sym("c", types.NewPointer(ct))
	rl := W.field(cw.c, "PCPClient", "r")
	if rl == nil {
		return nil, fmt.Errorf("no field PCPClient.r")
	}
	cw.r = W.Read(rl, True)
	if sc.mtype != "" {
		W.typeHook = func(t *Term, T types.Type) (bool, bool) {
			if is, known := W.holds(t, T); known {
				return is, known
			}
			l := loadOf(t)
			if l == nil || l.op != "mapaddr" {
				return false, false
			}
			m := loadOf(l.args[0])
			if m == nil || !fieldIs(m, "PCPRegistry", "metrics") {
				return false, false
			}
			if it, ok := T.Underlying().(*types.Interface); ok {
				mt := types.NewPointer(P.named(modPath, sc.mtype))
				return types.Implements(mt, it), true
			}
			n := namedOf(T)
			return n != nil && isPtr(T) && n.Obj().Name() == sc.mtype && n.Obj().Pkg().Path() == modPath, true
		}
	}
	g := True
	for _, c := range []struct {
		m   string
		pos bool
	}{{"InstanceDomainCount", sc.indoms}, {"InstanceCount", sc.insts}, {"MetricCount", sc.metrics}, {"StringCount", sc.strings}} {
		rs, err := W.pure("(*PCPRegistry)."+c.m, True, cw.r)
		if err != nil {
			return nil, err
		}
		cw.n[c.m] = rs[0]
		z := W.cmpInt("==", rs[0], W.Int(0), True)
		if c.pos {
			z = W.cmpInt("<", W.Int(0), rs[0], True)
		}
		g = W.bdd.And(g, z)
	}
	if rs, err := W.pure("(*PCPRegistry).ValuesCount", True, cw.r); err != nil {
		return nil, err
	} else if !sc.metrics {
		g = W.bdd.And(g, W.cmpInt("==", rs[0], W.Int(0), True))
	} else {
		g = W.bdd.And(g, W.cmpInt("<=", W.Int(0), rs[0], True))
	}
	v2 := W.field(cw.r, "PCPRegistry", "version2")
	if v2 == nil {
		return nil, fmt.Errorf("no field PCPRegistry.version2")
	}
	f := W.Formula(W.Read(v2, True))
	if !sc.v2 {
		f = W.bdd.Not(f)
	}
	cw.g = W.bdd.And(g, f)
	return cw, nil
}
