package main

import (
	"fmt"
	"go/types"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Identifiers are a function of names.

const (
	r27is    = "the identifier is the FNV-1a hash of the name, reduced to the bits PCP has for it"
	r27keep  = "an identifier does not change"
	r27write = "the identifier of a client in its file is the one it was made with"
)

// fnv1a is the 32 bit hash of a string, of its lower bits only if bits > 0.
func (E *Engine) fnv1a(s *Term, bits uint) *Term {
	h := E.App("hash", "Sum32", types.Typ[types.Uint32], E.App("hashed", "write", types.Typ[types.Int], E.App("hashed", "New32a", types.Typ[types.Int]), s))
	if bits == 0 {
		return h
	}
	return E.bitOp("&", h, E.Int(1<<bits-1), types.Typ[types.Uint32])
}

// equalInts: two numbers are the same bit by bit, for all values of what they are made of.
func (E *Engine) equalInts(a, b *Term, g B) bool {
	for _, x := range leavesOf(a) {
		for _, y := range leavesOf(b) {
			h := E.bdd.AndAll(g, x.g, y.g)
			if x.t == y.t || E.never(h) {
				continue
			}
			ik, ok := E.kindOf(x.t)
			jk, ok2 := E.kindOf(y.t)
			if !ok || !ok2 || ik != jk {
				return false
			}
			p, q := E.asBits(x.t, ik), E.asBits(y.t, ik)
			if p == nil || len(p) != len(q) {
				return false
			}
			for i := range p {
				if p[i] != q[i] {
					return false
				}
			}
		}
	}
	return true
}

func checkC27(P *Program, R *Report) {
	var wg sync.WaitGroup
	cs := P.constructors()
	for name, fn := range cs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			protect(R, name, func() { ctorC27(P, R, name, fn) })
		}()
	}
	wg.Wait()
	R.AtLeast("identifiers", 10)
	clientC27(P, R)
	keepC27(P, R)
}

func ctorC27(P *Program, R *Report, name string, fn *ssa.Function) {
	k := newCtorRun(P, R, name, fn)
	E := k.W.Engine
	for f := range E.funcs {
		R.mu.Lock()
		R.funcs[f.String()] = true
		R.mu.Unlock()
	}
	if E.never(k.ok) {
		R.Ob(r27is, name, false, P.pos(fn.Pos()), "it always fails")
		return
	}
	idName, bits := "ID", uint(10)
	if k.own == "PCPInstanceDomain" {
		bits = 22
	}
	id, ok1 := k.get(idName, k.ok)
	nm, ok2 := k.get("Name", k.ok)
	if id == nil || nm == nil {
		return
	}
	g := E.bdd.AndAll(k.ok, ok1, ok2)
	k.id(name, id, nm, bits, g)
	if k.own != "PCPInstanceDomain" {
		return
	}
	// the instances
	il := k.W.field(k.obj, "PCPInstanceDomain", "instances")
	if il == nil {
		R.Undecided(name, "no field PCPInstanceDomain.instances")
		return
	}
	I := E.Read(il, g)
	n := 0
	for _, e := range E.mem {
		if e.loc == nil || e.loc.op != "mapaddr" || e.loc.args[0] != I || e.kind == "havoc" || e.val == nil {
			continue
		}
		// whatever is put into the map, in any iteration
		for _, l := range leavesOf(e.val) {
			lg := E.bdd.AndAll(g, e.g, l.g)
			for _, v := range e.vars {
				lg = E.bdd.AndAll(lg, E.cmpInt("<=", E.Int(0), v.v, True), E.cmpInt("<", v.v, v.n, True))
			}
			if l.t.op == "nil" || E.never(lg) {
				continue
			}
			idl, nl := k.W.field(l.t, "pcpInstance", "id"), k.W.field(l.t, "pcpInstance", "name")
			if idl == nil || nl == nil {
				R.Undecided(name, "no fields pcpInstance.id and pcpInstance.name")
				return
			}
			n++
			k.id(name+", instance", E.Read(idl, lg), E.Read(nl, lg), 0, lg)
		}
	}
	R.Ob("instances are found", name, n > 0, P.pos(fn.Pos()), "none is put into the map")
}

func (k *ctor) id(what string, id, name *Term, bits uint, g B) {
	E := k.W.Engine
	want := E.fnv1a(name, bits)
	a, b := E.Simp(id, g), E.Simp(want, g)
	k.R.Ob(r27is, what, E.equalInts(a, b, g), k.P.pos(k.fn.Pos()), "it is %s, not %s", a, b)
	k.R.Count("identifiers", 1)
}

// clientC27: the constructors of clients, and what starting one writes.
func clientC27(P *Program, R *Report) {
	ct := types.NewPointer(P.named(modPath, "PCPClient"))
	// the field that starting writes as the cluster
	fields := map[string]bool{}
	var mu sync.Mutex
	eachClientRun(P, R, "Start", startScenarios()[:1], nil, func(k *clientRun) {
		E := k.Engine
		for _, e := range k.ev {
			if e.kind != "W" || e.g == False || E.never(e.g) {
				continue
			}
			off := E.Simp(e.args[0], e.g)
			if off != E.Int(36) {
				continue
			}
			v := E.Simp(e.val, e.g)
			l := loadOf(unconv(v))
			ok := l != nil && l.op == "fieldaddr" && l.args[0] == k.c
			R.Ob(r27write, k.what(), ok, P.pos(e.pos), "it is %s", v)
			if ok {
				mu.Lock()
				fields[l.aux] = true
				mu.Unlock()
			}
		}
	})
	R.Count("fields with the identifier of a client", len(fields))
	R.AtLeast("fields with the identifier of a client", 1)
	n := 0
	for _, fn := range P.funcs {
		sig := fn.Signature
		if fn.Blocks == nil || fn.Parent() != nil || sig.Recv() != nil || sig.Results().Len() == 0 || fn.Pkg == nil || fn.Pkg.Pkg.Path() != modPath || !types.Identical(sig.Results().At(0).Type(), ct) {
			continue
		}
		n++
		protect(R, fn.Name(), func() {
			W := newWorld(P)
			E := W.Engine
			var args []*Term
			var name *Term
			for i := 0; i < sig.Params().Len(); i++ {
				a := E.Sym(fmt.Sprint("a", i), sig.Params().At(i).Type())
				if b, ok := a.typ.Underlying().(*types.Basic); ok && b.Kind() == types.String {
					name = a
				}
				args = append(args, a)
			}
			rs, rg := E.CallFn(fn, args, nil, True, nil, nil)
			for _, u := range E.undecided {
				R.Undecided(fn.Name(), "%s", u)
			}
			if name == nil {
				R.Undecided(fn.Name(), "it takes no name")
				return
			}
			g := rg
			if len(rs) > 1 {
				g = E.bdd.And(g, E.Eq(rs[1], E.Nil(), g))
			}
			nt := P.named(modPath, "PCPClient")
			st := nt.Underlying().(*types.Struct)
			for _, l := range leavesOf(rs[0]) {
				lg := E.bdd.And(g, l.g)
				if l.t.op == "nil" || E.never(lg) {
					continue
				}
				for i := 0; i < st.NumFields(); i++ {
					fa := E.FieldAddr(l.t, nt, i)
					if !fields[fa.aux] {
						continue
					}
					a, b := E.Simp(E.Read(fa, lg), lg), E.Simp(E.fnv1a(name, 12), lg)
					R.Ob(r27is, fn.Name(), E.equalInts(a, b, lg), P.pos(fn.Pos()), "it is %s, not %s", a, b)
					R.Count("identifiers", 1)
				}
			}
		})
	}
	R.Count("constructors of clients", n)
	R.AtLeast("constructors of clients", 2)
}

func unconv(t *Term) *Term {
	for t != nil && (t.op == "conv" || t.op == "iface") {
		t = t.args[0]
	}
	return t
}

// keepC27: identifiers are only written into new objects.
func keepC27(P *Program, R *Report) {
	ids := map[string]map[string]bool{"pcpMetricDesc": {"id": true, "name": true}, "PCPInstanceDomain": {"id": true, "name": true}, "pcpInstance": {"id": true, "name": true}, "PCPClient": {"clusterID": true}}
	if c := P.named(modPath, "PCPClient"); c != nil {
		if i := fieldIndex(c, "clusterID"); i >= 0 {
			ids["PCPClient"][c.Underlying().(*types.Struct).Field(i).Name()] = true
		}
	}
	n := keepFields(P, R, r27keep, ids)
	R.Count("places where names and identifiers are set", n)
	R.AtLeast("places where names and identifiers are set", 4)
}

func init() {
	checks["C27"] = check{"identifiers of everything that constructors make, as terms over names", checkC27}
}
