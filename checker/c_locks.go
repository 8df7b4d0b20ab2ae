package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C12"] = check{"Every read and write of the mutable state of a metric, and every write to its slot, that an exported method of a metric, registry or client can do is one event of the abstract evaluation of that method, with the set of locks held there. A lock of the same metric is held at each, exclusively for writes, the same one everywhere, and not given up between a read and a write of one operation.", checkC12}
	checks["C24"] = check{"Every lock event of the abstract evaluation of every exported method is checked: what is released was held, nothing is held at a return or panic, no lock is taken that may be held already, and the order in which kinds of locks are nested, also across a wait for other goroutines, has no cycle.", checkC24}
}

// opRunOf is anything whose events are looked at.
type evRun struct {
	*Engine
	what  string
	pos   string
	ev    []*Event
	root  bool
	world *World
	run   *clientRun
	ok    B // it succeeds
	fn    *ssa.Function
}

// allOps evaluates every exported method of metrics, instance domains, registries and
// clients, and calls f for each. The client's start and stop are evaluated per scenario.
func allOps(P *Program, R *Report, f func(r *evRun)) {
	var wg sync.WaitGroup
	sem := make(chan bool, 8)
	for _, ow := range append([]string{"PCPInstanceDomain", "PCPRegistry", "PCPClient"}, metricTypes...) {
		ms := P.exportedMethods(modPath, ow)
		if len(ms) == 0 {
			R.Undecided(ow, "the type does not exist")
		}
		for _, n := range sortedKeys(ms) {
			if ow == "PCPClient" && (n == "Start" || n == "Stop" || n == "MustStart" || n == "MustStop") {
				continue
			}
			wg.Add(1)
			go func() {
				sem <- true
				defer func() { <-sem; wg.Done() }()
				protect(R, "(*"+ow+")."+n, func() {
					o := newOp(P, R, ow, n, ms[n])
					if !isMetricType(ow) {
						o.opaqueCtors()
					}
					o.run(True)
					f(&evRun{o.W.Engine, o.what(), o.pos(), o.ev, false, o.W, nil, o.ok, o.fn})
				})
			}()
			R.Count("operations", 1)
		}
	}
	wg.Wait()
	for _, n := range []string{"Start", "Stop"} {
		eachClientRun(P, R, n, startScenarios(), nil, func(k *clientRun) {
			f(&evRun{k.Engine, k.what(), P.pos(k.fn.Pos()), k.ev, true, k.World, k, k.ok, k.fn})
		})
	}
}

// access is a read or a write of state.
type access struct {
	e     *Event
	loc   *Term
	g     B
	write bool
}

// accesses of an event to memory, or to a slot.
func (E *Engine) accesses(e *Event) []access {
	var r []access
	add := func(loc *Term, write bool) {
		if loc == nil {
			return
		}
		for _, l := range leavesOf(loc) {
			g := E.bdd.And(e.g, l.g)
			if g != False && E.feasible(g) {
				r = append(r, access{e, l.t, g, write})
			}
		}
	}
	switch e.kind {
	case "load":
		add(e.loc, false)
	case "store":
		add(e.loc, true)
	case "mapload", "maprange", "mapstore", "mapdelete":
		for _, l := range leavesOf(e.loc) {
			if m := loadOf(l.t); m != nil {
				add(E.Ghost(m, "elements", types.Typ[types.Int]), e.kind == "mapstore" || e.kind == "mapdelete")
			}
		}
	}
	return r
}

// stateClass names the state a location is: type and field, or what a library keeps in
// an object a field points to.
func stateClass(loc *Term) string {
	pre := ""
	for loc != nil {
		switch loc.op {
		case "ghost":
			pre += loc.aux + " of "
			loc = loc.args[0]
			if l := loadOf(loc); l != nil {
				loc = l
			}
		case "fieldaddr":
			return pre + strings.TrimPrefix(loc.aux, modPath+".")
		case "indexaddr", "mapaddr", "haddr", "mlenaddr":
			pre += "element of "
			loc = loc.args[0]
			if l := loadOf(loc); l != nil {
				loc = l
			}
		case "global":
			return pre + loc.String()
		default:
			return ""
		}
	}
	return ""
}

// ownerOfLoc is the metric that state belongs to.
func ownerOfLoc(loc *Term) (string, *Term) {
	for loc != nil && loc.op == "ghost" {
		loc = loc.args[0]
	}
	return ownerOf(loc)
}

// lockClass names a lock by the type and field it is kept in.
func lockClass(loc *Term) string {
	s := stateClass(loc)
	if s == "" && loc != nil {
		s = loc.String()
	}
	return s
}

// fresh: the object was made by the evaluated operation.
func isFresh(loc *Term) bool {
	for loc != nil {
		if isFreshOp(loc.op) {
			return true
		}
		if len(loc.args) == 0 {
			return false
		}
		switch loc.op {
		case "ghost", "fieldaddr", "indexaddr", "mapaddr", "haddr", "mlenaddr":
			loc = loc.args[0]
		default:
			return false
		}
	}
	return false
}

// accessRec is what is remembered of an access.
type accessRec struct {
	run, owner, class, how, pos, detail string
	held                                map[string]bool
	split                               map[string]string // what was read in an earlier section, and where
	hasLock                             bool
}

func (P *Program) accessRecs(r *evRun) []*accessRec {
	E := r.Engine
	section := map[*Term]int{}
	type sa struct {
		access
		sec map[*Term]int
		obj *Term
		cl  string
	}
	var loads []sa
	var recs []*accessRec
	for _, e := range r.ev {
		if e.kind == "lock" || e.kind == "rlock" {
			for _, l := range leavesOf(e.loc) {
				section[l.t]++
			}
			continue
		}
		as := E.accesses(e)
		if e.kind == "W" {
			for _, l := range leavesOf(e.args[0]) {
				if o := slotOwner(l.t); o != nil {
					as = append(as, access{e, E.cellOf(o), E.bdd.AndAll(e.g, e.ok, l.g), true})
				}
			}
		}
		for _, a := range as {
			ow, obj := ownerOfLoc(a.loc)
			cl := stateClass(a.loc)
			if ow == "" || cl == "" || isFresh(a.loc) || !E.feasible(a.g) {
				continue
			}
			x := &accessRec{run: r.what, owner: ow, class: cl, how: "read", pos: P.pos(e.pos), held: map[string]bool{}, split: map[string]string{}}
			if a.write {
				x.how = "written"
			}
			if e.kind == "W" {
				x.how = "written to the file"
			}
			sec := map[*Term]int{}
			for _, h := range e.held {
				if a.write && !h.write || !E.implies(a.g, h.g) {
					continue
				}
				if ho, hobj := ownerOf(h.loc); ho == ow && hobj == obj {
					x.held[lockClass(h.loc)] = true
					sec[h.loc] = section[h.loc]
				}
			}
			if len(x.held) == 0 {
				x.detail = E.BStr(a.g)
			}
			recs = append(recs, x)
			if !a.write {
				loads = append(loads, sa{a, sec, obj, cl})
				continue
			}
			for _, l := range loads {
				if l.obj != obj || l.e.thread != e.thread || x.split[l.cl] != "" || len(sec) == 0 {
					continue
				}
				same := false
				for lk, s := range sec {
					if l.sec[lk] == s {
						same = true
					}
				}
				if !same && E.feasible(E.bdd.And(l.g, a.g)) {
					x.split[l.cl] = P.pos(l.e.pos)
				}
			}
		}
	}
	return recs
}

func checkC12(P *Program, R *Report) {
	var mu sync.Mutex
	var recs []*accessRec
	mutable := map[string]bool{}
	seen := map[*ssa.Function]bool{}
	allOps(P, R, func(r *evRun) {
		rs := P.accessRecs(r)
		mu.Lock()
		defer mu.Unlock()
		recs = append(recs, rs...)
		for _, x := range rs {
			if x.how != "read" {
				mutable[x.class] = true
			}
		}
		for fn := range r.funcs {
			seen[fn] = true
		}
	})
	for _, c := range sortedKeys(mutable) {
		R.Note("mutable state: %s", c)
	}
	R.Count("kinds of mutable state", len(mutable))
	R.AtLeast("kinds of mutable state", 7)
	common := map[string]map[string]bool{} // the locks held at every access
	n := 0
	for _, x := range recs {
		if !mutable[x.class] {
			continue
		}
		n++
		R.Ob("mutable state of a metric is accessed with its lock", fmt.Sprintf("%s, %s is %s", x.run, x.class, x.how), len(x.held) > 0, x.pos, "no lock of the metric is held if %s", x.detail)
		key := x.owner + " " + x.class
		if common[key] == nil {
			common[key] = x.held
		} else {
			both := map[string]bool{}
			for c := range x.held {
				if common[key][c] {
					both[c] = true
				}
			}
			common[key] = both
		}
		if x.how == "read" {
			continue
		}
		bad := ""
		for _, c := range sortedKeys(x.split) {
			if mutable[c] {
				bad += c + ", which was read at " + x.split[c] + "; "
			}
		}
		R.Ob("the lock is kept from reading to writing", fmt.Sprintf("%s, %s", x.run, x.class), bad == "", x.pos, "the lock was released since: %s", bad)
	}
	for _, k := range sortedKeys(common) {
		R.Ob("one lock guards all accesses", k, len(common[k]) > 0, "", "there is no lock that is held at all of them")
	}
	R.Count("accesses", n)
	R.AtLeast("accesses", 500)
	P.coverage(R, "all code that touches mutable state is analysed", mutable, seen, P.ctorFuncs(R))
}

// coverage decides that no code that touches mutable state is left out.
func (P *Program) coverage(R *Report, rule string, mutable map[string]bool, seen, ctors map[*ssa.Function]bool) {
	for _, fn := range P.funcs {
		top := fn
		for top.Parent() != nil {
			top = top.Parent()
		}
		if top.Pkg == nil || top.Pkg.Pkg.Path() != modPath || seen[top] || ctors[top] {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				nt := namedOf(fa.X.Type())
				if nt == nil || nt.Obj().Pkg() == nil || nt.Obj().Pkg().Path() != modPath {
					continue
				}
				st, ok := nt.Underlying().(*types.Struct)
				if !ok {
					continue
				}
				cl := nt.Obj().Name() + "#" + st.Field(fa.Field).Name()
				if mutable[cl] && reachableFn(P, top) && !P.freshObject(fa.X) {
					R.Ob(rule, fn.String()+", "+cl, false, P.pos(in.Pos()), "it is not part of an exported operation")
				}
			}
		}
	}
	R.Ob(rule, "package speed", true, "", "")
}

// reachableFn: something in the program refers to a function.
func reachableFn(P *Program, fn *ssa.Function) bool {
	if fn.Object() != nil && fn.Object().Exported() {
		return true
	}
	P.mu.Lock()
	defer P.mu.Unlock()
	if P.refs == nil {
		P.refs = map[*ssa.Function]bool{}
		for _, f := range P.funcs {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					for _, op := range in.Operands(nil) {
						if g, ok := (*op).(*ssa.Function); ok {
							P.refs[g] = true
						}
					}
				}
			}
		}
	}
	return P.refs[fn]
}

// ctorFuncs are the functions that make objects nobody else knows yet.
func (P *Program) ctorFuncs(R *Report) map[*ssa.Function]bool {
	r := map[*ssa.Function]bool{}
	cs := P.constructors()
	for _, n := range sortedKeys(cs) {
		protect(R, n, func() {
			k := newCtorRun(P, R, n, cs[n])
			for fn := range k.W.funcs {
				r[fn] = true
			}
			for _, e := range k.ev {
				for _, a := range k.W.accesses(e) {
					if o, _ := ownerOfLoc(a.loc); o != "" && a.write && !isFresh(a.loc) {
						R.Ob("constructors only write to their new object", n+", "+stateClass(a.loc), false, P.pos(e.pos), "it writes to %s", a.loc)
					}
				}
			}
		})
		R.Ob("constructors only write to their new object", n, true, P.pos(cs[n].Pos()), "")
	}
	return r
}

// ---------------------------------------------------------------- C24

func checkC24(P *Program, R *Report) {
	type edge struct{ a, b string }
	edges := map[edge]string{}
	var mu sync.Mutex
	n := 0
	allOps(P, R, func(r *evRun) {
		E := r.Engine
		mu.Lock()
		defer mu.Unlock()
		for _, th := range E.threads {
			for _, h := range th.held {
				R.Ob("nothing is held at the end", r.what+", "+lockClass(h.loc), E.never(h.g), r.pos, "it is still held if %s", E.BStr(h.g))
			}
		}
		var waits, takes []*Event
		for _, e := range r.ev {
			switch e.kind {
			case "unlock", "runlock":
				n++
				bad := E.bdd.And(e.g, E.bdd.Not(e.ok))
				R.Ob("what is released is held", r.what+", "+lockClass(e.loc), E.never(bad), P.pos(e.pos), "it is not held if %s", E.BStr(bad))
			case "lock", "rlock":
				n++
				takes = append(takes, e)
				for _, l := range leavesOf(e.loc) {
					lg := E.bdd.And(e.g, l.g)
					for _, h := range e.held {
						g := E.bdd.And(lg, h.g)
						if g == False || !E.feasible(g) {
							continue
						}
						a, b := lockClass(h.loc), lockClass(l.t)
						if a == b {
							R.Ob("no lock is taken twice", r.what+", "+b, false, P.pos(e.pos), "it may be held already")
							continue
						}
						if edges[edge{a, b}] == "" {
							edges[edge{a, b}] = fmt.Sprintf("%s at %s", r.what, P.pos(e.pos))
						}
					}
					R.Ob("no lock is taken twice", r.what+", "+lockClass(l.t), true, P.pos(e.pos), "")
				}
			case "wgwait", "recv", "send":
				if len(e.held) > 0 {
					waits = append(waits, e)
				}
			}
		}
		// waiting for a goroutine is waiting for all locks it takes
		for _, w := range waits {
			for _, t := range takes {
				if !E.below(t.thread, w.thread) || !E.feasible(E.bdd.And(w.g, t.g)) {
					continue
				}
				for _, h := range w.held {
					if !E.feasible(E.bdd.And(w.g, h.g)) {
						continue
					}
					for _, l := range leavesOf(t.loc) {
						a, b := lockClass(h.loc), lockClass(l.t)
						if a == b {
							R.Ob("no lock is held while waiting for a goroutine that takes it", r.what+", "+a, false, P.pos(w.pos), "a goroutine takes it at %s", P.pos(t.pos))
						} else if edges[edge{a, b}] == "" {
							edges[edge{a, b}] = fmt.Sprintf("%s, waiting at %s for %s", r.what, P.pos(w.pos), P.pos(t.pos))
						}
					}
				}
			}
			R.Ob("no lock is held while waiting for a goroutine that takes it", r.what, true, P.pos(w.pos), "")
		}
	})
	// the order has no cycle
	next := map[string][]string{}
	for e := range edges {
		next[e.a] = append(next[e.a], e.b)
	}
	reach := func(from, to string) bool {
		seen := map[string]bool{}
		var rec func(x string) bool
		rec = func(x string) bool {
			for _, y := range next[x] {
				if y == to {
					return true
				}
				if !seen[y] {
					seen[y] = true
					if rec(y) {
						return true
					}
				}
			}
			return false
		}
		return rec(from)
	}
	var es []edge
	for e := range edges {
		es = append(es, e)
	}
	sort.Slice(es, func(i, j int) bool { return es[i].a+" "+es[i].b < es[j].a+" "+es[j].b })
	for _, e := range es {
		R.Ob("locks are nested in one order", e.a+" before "+e.b, !reach(e.b, e.a), "", "%s, but they are also nested the other way round: %s", edges[e], edges[edge{e.b, e.a}])
		R.Note("%s is held while %s is taken: %s", e.a, e.b, edges[e])
	}
	R.Count("lock events", n)
	R.Count("nested kinds of locks", len(es))
	R.AtLeast("lock events", 300)
	R.AtLeast("nested kinds of locks", 3)
}

// below: thread t was started by a or one that a started.
func (E *Engine) below(t, a int) bool {
	for t > 0 {
		t = E.threads[t].parent
		if t == a {
			return true
		}
	}
	return false
}
