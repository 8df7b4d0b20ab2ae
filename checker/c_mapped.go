package main

import (
	"fmt"
	"go/types"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// A client maps at most one file at a time, and its registry is frozen meanwhile.
//
// Frozen is what it means to a user: an instance domain whose name is not taken
// cannot be registered. Nothing here depends on how the registry knows.

type frz struct {
	*clientRun
	R     *Report
	z     *Term // an instance domain
	zname *Term
	m, d  *Term
	del   types.Type
	cache map[int]B
	bad   bool
}

func newFrz(k *clientRun, R *Report) *frz {
	f := &frz{clientRun: k, R: R, cache: map[int]B{}}
	f.z = k.Sym("z", types.NewPointer(k.P.named(modPath, "PCPInstanceDomain")))
	nl := k.field(f.z, "PCPInstanceDomain", "name")
	ml, dl := k.field(k.r, "PCPRegistry", "metrics"), k.field(k.r, "PCPRegistry", "instanceDomains")
	if nl == nil || ml == nil || dl == nil {
		R.Undecided(k.what(), "names and maps of the registry are not found")
		return nil
	}
	f.zname = k.Read(nl, True)
	f.atMem(k.m0, func() { f.m, f.d = k.Read(ml, True), k.Read(dl, True) })
	f.del = k.elemOf("PCPRegistry", "instanceDomains")
	return f
}

// ofRegistry names the field of the registry a location is of.
func (f *frz) ofRegistry(loc *Term) string {
	for _, l := range leavesOf(loc) {
		if l.t.op == "fieldaddr" && strings.HasPrefix(l.t.aux, modPath+".PCPRegistry#") && !isFresh(l.t) {
			return l.t.aux[strings.Index(l.t.aux, "#")+1:]
		}
	}
	return ""
}

// frozen: an instance domain cannot be added at a time, although its name is not taken.
func (f *frz) frozen(at int) B {
	E := f.Engine
	last := 0
	for i := f.m0; i < at && i < len(E.mem); i++ {
		if e := E.mem[i]; e.kind == "havoc" || e.loc != nil && f.ofRegistry(e.loc) != "" {
			last = i + 1
		}
	}
	if b, ok := f.cache[last]; ok {
		return b
	}
	hook := E.onLock
	E.onLock = nil
	defer func() { E.onLock = hook }()
	r := False
	f.atMem(at, func() {
		free := E.bdd.Not(E.Formula(E.Read(E.HasAddr(f.d, f.zname, f.del), True)))
		fn := f.P.exportedMethods(modPath, "PCPRegistry")["AddInstanceDomain"]
		if fn == nil {
			f.bad = true
			f.R.Undecided(f.what(), "no method (*PCPRegistry).AddInstanceDomain")
			return
		}
		rs, err := f.pure("(*PCPRegistry).AddInstanceDomain", E.bdd.And(f.clientWorld.g, free), f.r, E.Iface(f.z.typ, f.z))
		if err != nil {
			f.bad = true
			f.R.Undecided(f.what(), "registering an instance domain: %v", err)
			return
		}
		r = E.bdd.Not(E.Eq(rs[0], E.Nil(), True))
		r = E.bdd.And(r, free)
	})
	f.cache[last] = r
	return r
}

// free: the name of the instance domain is not taken.
func (f *frz) free(at int) B {
	r := False
	f.atMem(at, func() { r = f.bdd.Not(f.Formula(f.Read(f.HasAddr(f.d, f.zname, f.del), True))) })
	return r
}

func (f *frz) writer(at int) B {
	l := f.field(f.c, "PCPClient", "writer")
	if l == nil {
		f.bad = true
		f.R.Undecided(f.what(), "no field PCPClient.writer")
		return False
	}
	r := False
	f.atMem(at, func() { r = f.bdd.Not(f.Eq(f.Read(l, True), f.Nil(), True)) })
	return r
}

// effect: the event has an effect somebody else can see.
func (f *frz) effect(e *Event) string {
	switch e.kind {
	case "store", "mapstore", "mapdelete":
		if !isFresh(e.loc) {
			return "it changes " + short(e.loc.String())
		}
	case "W", "wbytes":
		return "it writes to the file"
	case "go":
		return "it starts a goroutine"
	case "ext":
		if effectful(e.name) {
			return "it calls " + e.name
		}
	}
	return ""
}

func effectful(name string) bool {
	for _, s := range []string{"(*os.File)", "os.Open", "os.Create", "os.Remove", "os.Rename", "os.Mkdir", "os.Write", "os.Truncate", "mmap-go"} {
		if strings.Contains(name, s) {
			return true
		}
	}
	return false
}

func (f *frz) ob(rule string, ok bool, e *Event, detail string, args ...interface{}) bool {
	pos := f.P.pos(f.fn.Pos())
	what := f.what()
	if e != nil {
		pos = f.P.pos(e.pos)
		if e.loc != nil && f.ofRegistry(e.loc) != "" {
			what += ", " + f.ofRegistry(e.loc)
		}
	}
	return f.R.Ob(rule, what, ok, pos, detail, args...)
}

const (
	r21once   = "starting fails without effect if the registry is mapped"
	r21len    = "what is registered is read by starting only while the registry is frozen"
	r21on     = "after starting, the client has a mapping and its registry is frozen"
	r21fail   = "a failed start leaves the client and its registry as they were"
	r21atomic = "the registry is frozen in the critical section in which it was found not to be"
	r21stop   = "stopping a client without mapping fails without effect"
	r21gone   = "the registry stays frozen until the mapping is gone"
	r21off    = "after stopping, the client has no mapping and its registry is not frozen"
	r21both   = "failing or not, stopping leaves both the mapping and a frozen registry, or neither"
	r21flag   = "the flag cannot be changed while the client has a mapping"
	r21set    = "otherwise it is set to what is passed"
	r21add    = "nothing is registered while the registry is frozen"
	r21new    = "a new client has no mapping, and a new registry is not frozen"
	r21keep   = "a client keeps its registry"
)

func some(R *Report, what string, ok bool) {
	if ok {
		R.Count(what, 1)
	}
	R.AtLeast(what, 30)
}

func (f *frz) noEffect(rule string, g B, what string) {
	E := f.Engine
	f.ob(rule, E.never(E.bdd.And(f.ok, g)), nil, "it can succeed although %s, if %s", what, E.BStr(E.bdd.And(f.ok, g)))
	for _, e := range f.ev {
		if e.g == False {
			continue
		}
		if s := f.effect(e); s != "" {
			x := E.bdd.And(e.g, g)
			f.ob(rule, E.never(x), e, "%s although %s, if %s", s, what, E.BStr(x))
		}
	}
}

// changes: what registrations change, fields and maps of the registry.
func checkC21Start(k *clientRun, R *Report, changed map[string]bool) {
	E := k.Engine
	f := newFrz(k, R)
	if f == nil {
		return
	}
	g := k.clientWorld.g
	was := f.frozen(k.m0)
	if f.bad {
		return
	}
	some(R, "scenarios in which the registry can be frozen", !E.never(E.bdd.And(g, was)))
	some(R, "scenarios in which the registry can be not frozen", !E.never(E.bdd.AndAll(g, f.free(k.m0), E.bdd.Not(was))))
	some(R, "scenarios in which starting can succeed", !E.never(k.ok))
	f.noEffect(r21once, E.bdd.AndAll(g, was), "the registry is mapped")
	end := len(E.mem)
	f.ob(r21on, E.implies(E.bdd.AndAll(k.ok, f.free(end)), f.frozen(end)), nil, "the registry can be left unfrozen")
	f.ob(r21on, E.implies(k.ok, f.writer(end)), nil, "it can be left without a mapping")
	x := E.bdd.AndAll(k.fail, f.free(end), E.bdd.Xor(f.frozen(end), was))
	f.ob(r21fail, E.never(x), nil, "the registry is left frozen, or unfrozen, if %s", E.BStr(x))
	x = E.bdd.AndAll(k.fail, E.bdd.Xor(f.writer(end), f.writer(k.m0)))
	f.ob(r21fail, E.never(x), nil, "it gains or loses its mapping, if %s", E.BStr(x))
	for _, e := range k.ev {
		if e.g == False {
			continue
		}
		if e.loc == nil && e.kind != "ext" {
			continue
		}
		what := ""
		var ls []Leaf
		if e.loc != nil {
			ls = leavesOf(e.loc)
		}
		for _, l := range ls {
			switch {
			case (e.kind == "mapload" || e.kind == "maprange" || e.kind == "load") && (l.t == f.m || l.t == f.d):
				what = "maps"
			case e.kind == "load" && l.t.op == "fieldaddr" && l.t.args[0] == k.r:
				if n := f.ofRegistry(l.t); changed[n] {
					what = n
				}
			case e.kind == "load" && l.t.op == "maplen" && (l.t.args[0] == f.m || l.t.args[0] == f.d):
				what = "the sizes of the maps"
			}
		}
		if what != "" {
			h := E.bdd.AndAll(e.g, k.ok, f.free(e.memAt))
			if !E.never(h) {
				f.ob(r21len, E.implies(h, f.frozen(e.memAt)), e, "%s is read when the registry may not be frozen", what)
				R.Count("reads of what is registered", 1)
			}
		}
		if e.kind == "ext" && strings.Contains(e.name, "mmap-go.Map") {
			h := E.bdd.AndAll(e.g, f.free(e.memAt))
			f.ob("a file is mapped only while the registry is frozen", E.implies(h, f.frozen(e.memAt)), e, "it is mapped when the registry may not be frozen")
			R.Count("mappings", 1)
		}
	}
}

// checkC21Atomic: evaluated with a registry that others use when its lock is not held.
func checkC21Atomic(k *clientRun, R *Report, acqs *[]*regAcq) {
	E := k.Engine
	f := newFrz(k, R)
	if f == nil || f.frozen(k.m0) == False && f.bad {
		return
	}
	n := 0
	for _, e := range k.ev {
		if e.kind != "store" || e.g == False || f.ofRegistry(e.loc) == "" {
			continue
		}
		h := E.bdd.AndAll(e.g, f.free(e.memAt))
		before := f.frozen(e.memAt)
		at := e.memAt
		// the memory after the store
		for at < len(E.mem) && E.mem[at].loc != e.loc {
			at++
		}
		if at == len(E.mem) {
			continue
		}
		after := f.frozen(at + 1)
		if E.never(E.bdd.AndAll(h, E.bdd.Not(before), after)) {
			continue
		}
		n++
		held := False
		for _, l := range k.heldAt(e, true) {
			if l.loc.op == "fieldaddr" && l.loc.args[0] == k.r {
				held = E.bdd.Or(held, l.g)
			}
		}
		f.ob(r21atomic, E.implies(E.bdd.And(h, E.bdd.Not(before)), held), e, "the lock of the registry is not held")
		// when the lock was last taken
		later := False
		for i := len(*acqs) - 1; i >= 0; i-- {
			a := (*acqs)[i]
			if a.at > e.memAt {
				continue
			}
			p := E.bdd.AndAll(a.g, E.bdd.Not(later), e.g)
			later = E.bdd.Or(later, a.g)
			x := E.bdd.AndAll(p, f.frozen(a.at))
			f.ob(r21atomic, E.never(x), e, "it may be frozen already when the lock is taken, if %s", E.BStr(x))
		}
	}
	R.Ob("starting freezes the registry", k.what(), n > 0, k.P.pos(k.fn.Pos()), "nothing that freezes it is found")
	R.Count("freezing stores", n)
}

// othersFreeze makes every acquisition of the lock of the registry, after the first one
// and before it was frozen, find it frozen or not.
func othersFreeze(cw *clientWorld, acqs *[]*regAcq) {
	E := cw.Engine
	rt := cw.P.named(modPath, "PCPRegistry")
	st := rt.Underlying().(*types.Struct)
	m0 := len(E.mem)
	E.onLock = func(loc *Term, g B) {
		if E.quiet > 0 || loc.op != "fieldaddr" || loc.args[0] != cw.r {
			return
		}
		prev, mine := False, False
		for _, a := range *acqs {
			prev = E.bdd.Or(prev, a.g)
		}
		for i := m0; i < len(E.mem); i++ {
			e := E.mem[i]
			if e.kind != "havoc" && e.loc != nil && e.loc.op == "fieldaddr" && e.loc.args[0] == cw.r {
				mine = E.bdd.Or(mine, e.g)
			}
		}
		if h := E.bdd.AndAll(prev, g, E.bdd.Not(mine)); h != False && E.feasible(h) {
			ver := fmt.Sprintf("lock%d", len(*acqs))
			E.otherVer[ver] = true
			for i := 0; i < st.NumFields(); i++ {
				switch u := st.Field(i).Type().Underlying().(type) {
				case *types.Basic:
					if u.Info()&types.IsBoolean == 0 && u.Info()&types.IsInteger == 0 || st.Field(i).Name() == "version2" {
						continue
					}
				default:
					continue
				}
				l := E.FieldAddr(cw.r, rt, i)
				E.mem = append(E.mem, &memEntry{kind: "havoc", g: h, loc: l, cls: class(l), root: locRoot(l), ver: ver})
			}
		}
		*acqs = append(*acqs, &regAcq{g: g, at: len(E.mem), ev: len(E.events)})
	}
}

func checkC21Stop(k *clientRun, R *Report) {
	E := k.Engine
	f := newFrz(k, R)
	if f == nil {
		return
	}
	g := k.clientWorld.g
	was, wr := f.frozen(k.m0), f.writer(k.m0)
	if f.bad {
		return
	}
	f.noEffect(r21stop, E.bdd.And(g, E.bdd.Not(wr)), "it has no mapping")
	// the registry of a client with a mapping is frozen
	run := E.bdd.AndAll(g, wr, was)
	end := len(E.mem)
	ok := E.bdd.And(k.ok, run)
	some(R, "scenarios in which stopping can succeed", !E.never(ok))
	f.ob(r21off, E.never(E.bdd.And(ok, f.writer(end))), nil, "it can keep its mapping")
	f.ob(r21off, E.never(E.bdd.And(ok, f.frozen(end))), nil, "the registry can be left frozen, if %s", E.BStr(E.bdd.And(ok, f.frozen(end))))
	un := False
	for _, e := range k.ev {
		if e.kind == "ext" && strings.HasSuffix(e.name, "mmap-go.MMap).Unmap") {
			h := E.bdd.And(e.g, run)
			if E.never(h) {
				continue
			}
			un = E.bdd.Or(un, e.g)
			f.ob(r21gone, E.implies(h, f.frozen(e.memAt)), e, "it can be unfrozen already")
			R.Count("unmappings", 1)
		}
	}
	f.ob(r21off, E.implies(ok, un), nil, "it can succeed without unmapping the file")
	// without an unmapping, nothing is lost
	x := E.bdd.AndAll(run, k.fail, E.bdd.Not(un), E.bdd.Or(E.bdd.Not(f.frozen(end)), E.bdd.Not(f.writer(end))))
	f.ob(r21gone, E.never(x), nil, "the registry is unfrozen, or the mapping forgotten, without unmapping the file, if %s", E.BStr(x))
	// failing or not, it can be stopped again exactly if the registry is still its own
	x = E.bdd.AndAll(run, f.writer(end), E.bdd.Not(f.frozen(end)))
	f.ob(r21both, E.never(x), nil, "it keeps the mapping of a registry that is not frozen any more, if %s", E.BStr(x))
	x = E.bdd.AndAll(run, E.bdd.Not(f.writer(end)), f.frozen(end))
	f.ob(r21both, E.never(x), nil, "it leaves the registry frozen without a mapping to stop, if %s", E.BStr(x))
}

func checkC21Flag(k *clientRun, R *Report) {
	E := k.Engine
	f := newFrz(k, R)
	if f == nil {
		return
	}
	g := k.clientWorld.g
	was, wr := f.frozen(k.m0), f.writer(k.m0)
	if f.bad {
		return
	}
	run := E.bdd.AndAll(g, was, wr)
	f.noEffect(r21flag, run, "the client has a mapping")
	idle := E.bdd.AndAll(g, E.bdd.Not(wr), f.free(k.m0), E.bdd.Not(was))
	f.ob(r21set, E.implies(idle, k.ok), nil, "it can fail")
	l := k.field(k.c, "PCPClient", "flag")
	if l == nil {
		R.Undecided(k.what(), "no field PCPClient.flag")
		return
	}
	arg := E.Sym("a0", k.fn.Signature.Params().At(0).Type())
	v := E.Read(l, k.ok)
	f.ob(r21set, v == arg || E.implies(k.ok, E.Eq(v, arg, k.ok)), nil, "it is %s", v)
	for _, e := range k.ev {
		if e.g != False && f.effect(e) != "" && !(e.kind == "store" && e.loc == l) {
			f.ob(r21set, E.never(e.g), e, "%s", f.effect(e))
		}
	}
}

// checkC21New: what constructors of clients make.
func checkC21New(P *Program, R *Report) {
	ct := types.NewPointer(P.named(modPath, "PCPClient"))
	rt := types.NewPointer(P.named(modPath, "PCPRegistry"))
	n := 0
	for _, fn := range P.funcs {
		sig := fn.Signature
		if fn.Blocks == nil || fn.Parent() != nil || sig.Recv() != nil || sig.Results().Len() == 0 || fn.Pkg == nil || fn.Pkg.Pkg.Path() != modPath {
			continue
		}
		T := sig.Results().At(0).Type()
		if !types.Identical(T, ct) && !types.Identical(T, rt) {
			continue
		}
		protect(R, fn.Name(), func() {
			n++
			W := newWorld(P)
			E := W.Engine
			var args []*Term
			var reg *Term
			for i := 0; i < sig.Params().Len(); i++ {
				a := E.Sym(fmt.Sprint("a", i), sig.Params().At(i).Type())
				if types.Identical(a.typ, rt) {
					reg = a
				}
				args = append(args, a)
			}
			rs, rg := E.CallFn(fn, args, nil, True, nil, nil)
			ev := E.events
			for _, u := range E.undecided {
				R.Undecided(fn.Name(), "%s", u)
			}
			ok := rg
			if len(rs) > 1 {
				ok = E.bdd.And(ok, E.Eq(rs[1], E.Nil(), ok))
			}
			R.Ob(r21new, fn.Name(), !E.never(ok), P.pos(fn.Pos()), "it always fails")
			for _, l := range leavesOf(rs[0]) {
				g := E.bdd.And(ok, l.g)
				if l.t.op == "nil" || E.never(g) {
					continue
				}
				r := l.t
				if types.Identical(T, ct) {
					wl, rl := W.field(l.t, "PCPClient", "writer"), W.field(l.t, "PCPClient", "r")
					if wl == nil || rl == nil {
						R.Undecided(fn.Name(), "no fields PCPClient.writer and PCPClient.r")
						return
					}
					w := E.Read(wl, g)
					R.Ob(r21new, fn.Name(), E.implies(g, E.Eq(w, E.Nil(), g)), P.pos(fn.Pos()), "it has a mapping, %s", w)
					r = E.Read(rl, g)
					if reg != nil {
						R.Ob(r21new, fn.Name(), r == reg || E.implies(g, E.Eq(r, reg, g)), P.pos(fn.Pos()), "its registry is %s, not the one that is passed", r)
						for _, e := range ev {
							if e.kind == "store" && e.g != False && !isFresh(e.loc) && strings.Contains(e.loc.String(), "PCPRegistry#") {
								R.Ob(r21new, fn.Name(), false, P.pos(e.pos), "it changes the registry")
							}
						}
						continue
					}
				}
				// a new registry
				z := E.Sym("z", types.NewPointer(P.named(modPath, "PCPInstanceDomain")))
				as, err := W.pure("(*PCPRegistry).AddInstanceDomain", g, r, E.Iface(z.typ, z))
				if err != nil {
					R.Undecided(fn.Name(), "registering an instance domain: %v", err)
					return
				}
				R.Ob(r21new, fn.Name(), E.implies(g, E.Eq(as[0], E.Nil(), g)), P.pos(fn.Pos()), "the new registry can be frozen")
			}
		})
	}
	R.Count("constructors of clients and registries", n)
	R.AtLeast("constructors of clients and registries", 3)
}

// clientWriters: nothing but what was evaluated changes the mapping, or the registry, of a client.
func clientWriters(P *Program, R *Report, seen map[*ssa.Function]bool) {
	for _, fn := range P.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				n := namedOf(fa.X.Type())
				if n == nil || n.Obj().Name() != "PCPClient" || n.Obj().Pkg().Path() != modPath || P.freshObject(fa.X) {
					continue
				}
				name := n.Underlying().(*types.Struct).Field(fa.Field).Name()
				top := fn
				for top.Parent() != nil {
					top = top.Parent()
				}
				switch name {
				case "r":
					R.Ob(r21keep, top.RelString(nil), false, P.pos(in.Pos()), "its registry is changed")
				case "writer":
					R.Ob("only starting and stopping change the mapping of a client", top.RelString(nil), seen[top], P.pos(in.Pos()), "neither reaches it")
					R.Count("changes of the mapping of a client", 1)
				}
			}
		}
	}
	R.Ob(r21keep, "PCPClient", true, "", "")
	R.AtLeast("changes of the mapping of a client", 1)
}

func checkC21(P *Program, R *Report) {
	seen := map[*ssa.Function]bool{}
	changed := map[string]bool{}
	var mu sync.Mutex
	eachRegOp(P, R, func(r *regRun) {
		E := r.W.Engine
		mu.Lock()
		for _, e := range r.ins {
			if e.kind == "store" {
				for _, l := range leavesOf(e.loc) {
					if i := strings.Index(l.t.aux, "#"); i >= 0 && l.t.op == "fieldaddr" {
						changed[l.t.aux[i+1:]] = true
					}
				}
			}
		}
		mu.Unlock()
		if r.isRegistration() == "" || len(r.ins) == 0 {
			return
		}
		// frozen, when the lock was last taken
		z := E.Sym("z", types.NewPointer(P.named(modPath, "PCPInstanceDomain")))
		zn := E.Read(r.W.field(z, "PCPInstanceDomain", "name"), True)
		for _, p := range r.last {
			var fr B
			bad := false
			E.atMem(p.from, func() {
				free := E.bdd.Not(E.Formula(E.Read(E.HasAddr(r.D, zn, r.dEl), True)))
				rs, err := r.W.pure("(*PCPRegistry).AddInstanceDomain", E.bdd.And(p.g, free), r.r, E.Iface(z.typ, z))
				if err != nil {
					R.Undecided(r.what(), "registering an instance domain: %v", err)
					bad = true
					return
				}
				fr = E.bdd.AndAll(p.g, free, E.bdd.Not(E.Eq(rs[0], E.Nil(), True)))
			})
			if bad {
				return
			}
			R.Ob("registries can be frozen and not frozen", r.what(), !E.never(fr), r.pos(), "this one is never")
			for _, e := range r.ins {
				x := E.bdd.And(e.g, fr)
				R.Ob(r21add, r.what(), E.never(x), P.pos(e.pos), "%s change although the registry was frozen, if %s", describe(r, e), E.BStr(x))
				R.Count("changes of registries", 1)
			}
			x := E.bdd.And(r.ok, fr)
			R.Ob(r21add, r.what(), E.never(x), r.pos(), "it succeeds although the registry was frozen, if %s", E.BStr(x))
		}
	})
	see := func(k *clientRun) {
		mu.Lock()
		for f := range k.funcs {
			seen[f] = true
		}
		mu.Unlock()
	}
	eachClientRun(P, R, "Start", startScenarios(), nil, func(k *clientRun) {
		see(k)
		checkC21Start(k, R, changed)
	})
	var amu sync.Mutex
	acqs := map[*clientWorld]*[]*regAcq{}
	eachClientRun(P, R, "Start", startScenarios()[:1], func(cw *clientWorld) {
		a := new([]*regAcq)
		amu.Lock()
		acqs[cw] = a
		amu.Unlock()
		othersFreeze(cw, a)
	}, func(k *clientRun) {
		amu.Lock()
		a := acqs[k.clientWorld]
		amu.Unlock()
		k.onLock = nil
		checkC21Atomic(k, R, a)
	})
	eachClientRun(P, R, "Stop", startScenarios(), nil, func(k *clientRun) {
		see(k)
		checkC21Stop(k, R)
	})
	eachClientRun(P, R, "SetFlag", startScenarios()[:1], nil, func(k *clientRun) { checkC21Flag(k, R) })
	checkC21New(P, R)
	clientWriters(P, R, seen)
	R.AtLeast("reads of what is registered", 100)
	R.AtLeast("freezing stores", 1)
	R.AtLeast("unmappings", 50)
	R.AtLeast("mappings", 50)
	R.AtLeast("changes of registries", 10)
}

func init() {
	checks["C21"] = check{"frozen registries: whether something can be registered, evaluated at every step of Start, Stop and SetFlag, and of every registration", checkC21}
}
