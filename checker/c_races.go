package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Data races: what goroutines share is accessed in some order.

func init() {
	checks["C23"] = check{"for every pair of conflicting accesses, a lock that both hold, an order that joins and channels give them, or locations that differ", checkC23}
}

const (
	r23lock = "shared state is accessed under a common lock, or while the registry is frozen"
	r23all  = "all code that touches shared state is analysed"
	r23go   = "conflicting accesses of goroutines are ordered, exclusive or to different locations"
)

// races decides that the goroutines of one evaluation do not race.
type races struct {
	*Engine
	P    *Program
	R    *Report
	what string
	h    *hb
	at   func(e *Event) string
	n    int
}

// sharedAccesses are the accesses to memory of an evaluation.
func (r *races) accesses(ev []*Event) []access {
	var out []access
	for _, e := range ev {
		if r.never(e.g) {
			continue
		}
		switch e.kind {
		case "mapload", "maprange", "mapstore", "mapdelete":
			if e.loc == nil {
				continue
			}
			for _, l := range leavesOf(e.loc) {
				g := r.bdd.And(e.g, l.g)
				if l.t.op != "nil" && !r.never(g) {
					// by the map, wherever it is kept
					out = append(out, access{e, r.Ghost(l.t, "elements", types.Typ[types.Int]), g, e.kind == "mapstore" || e.kind == "mapdelete"})
				}
			}
		case "copy":
			for _, l := range leavesOf(e.loc) {
				g := r.bdd.And(e.g, l.g)
				if l.t.op != "nil" && !r.never(g) {
					out = append(out, access{e, r.Ghost(locRoot(l.t), "elements", types.Typ[types.Int]), g, true})
				}
			}
		default:
			for _, a := range r.Engine.accesses(e) {
				if locRoot(a.loc).op != "nil" {
					out = append(out, a)
				}
			}
		}
	}
	return out
}

// spawnLoops are the loops that the goroutine of a thread, or one that it descends
// from, is started in.
func (r *races) spawnLoops(t int) []*Loop {
	if t == 0 || r.threads[t].spawn == nil {
		return nil
	}
	return r.threads[t].spawn.loops
}

func (r *races) run(ev []*Event) {
	if len(r.threads) < 2 {
		return
	}
	r.h = newHB(r.Engine, ev)
	as := r.accesses(ev)
	byClass := map[string][]access{}
	for _, a := range as {
		c := a.loc.op + " " + a.loc.aux
		if a.loc.op == "indexaddr" || a.loc.op == "mapaddr" || a.loc.op == "haddr" {
			c = a.loc.op + " " + typeStr(a.loc.typ)
		}
		byClass[c] = append(byClass[c], a)
	}
	for _, c := range sortedKeys(byClass) {
		for i, w := range byClass[c] {
			if !w.write {
				continue
			}
			for j, a := range byClass[c] {
				if a.write && j < i {
					continue // the other way round
				}
				r.pair(w, a)
			}
		}
	}
}

// pair decides a write and another access.
func (r *races) pair(w, a access) {
	tw, ta := w.e.thread, a.e.thread
	lw, la := r.spawnLoops(tw), r.spawnLoops(ta)
	if tw == ta && len(lw) == 0 {
		return // one goroutine
	}
	r.n++
	b := r.bdd
	// the loops that both are in, and one of them is started in
	var common []*Loop
	for i := 0; i < len(w.e.loops) && i < len(a.e.loops) && w.e.loops[i] == a.e.loops[i]; i++ {
		if L := w.e.loops[i]; hasLoop(lw, L) || hasLoop(la, L) {
			common = append(common, L)
		}
	}
	bad := False
	if tw != ta {
		x := b.AndAll(w.g, a.g, r.locEq(w.loc, a.loc))
		if x != False && !r.h.before(w.e, a.e) && !r.h.before(a.e, w.e) {
			bad = r.unlocked(x, w, a, nil)
		}
	}
	for d := 0; d < len(common) && r.never(bad); d++ {
		// in different iterations of a loop, and the same of those around it
		sub := map[*Term]*Term{}
		for _, L := range a.e.loops[d:] {
			sub[L.it] = r.Sym(L.it.String()+"'", L.it.typ)
		}
		it := common[d].it
		x := b.Not(r.Eq(it, sub[it], True))
		for _, L := range a.e.loops[d:] {
			if L.trip != nil {
				x = b.AndAll(x, r.cmpInt("<=", r.Int(0), sub[L.it], True), r.cmpInt("<", sub[L.it], r.Subst(L.trip, sub), True))
			}
		}
		x = b.AndAll(x, w.g, r.SubstB(a.g, sub), r.locEq(w.loc, r.Subst(a.loc, sub)))
		if x != False {
			bad = r.unlocked(x, w, a, sub)
		}
	}
	bad = r.known(bad, w, a)
	if r.never(bad) {
		return
	}
	how := "read"
	if a.write {
		how = "written"
	}
	r.R.Ob(r23go, r.what+", "+r.at(w.e), false, r.P.pos(w.e.pos), "%s is written here and %s at %s, if %s", w.loc.str(6), how, r.at(a.e), r.BStr(bad))
}

// known adds what is known of the iterations of loops.
func (r *races) known(b B, w, a access) B {
	if b == False {
		return b
	}
	for _, L := range append(append([]*Loop(nil), w.e.loops...), a.e.loops...) {
		b = r.instancesAt(b, L.it)
	}
	return b
}

func hasLoop(ls []*Loop, L *Loop) bool {
	for _, x := range ls {
		if x == L {
			return true
		}
	}
	return false
}

// unlocked is the part of a condition in which no lock excludes the accesses.
func (r *races) unlocked(x B, w, a access, sub map[*Term]*Term) B {
	b := r.bdd
	for _, hw := range w.e.held {
		if !hw.write {
			continue
		}
		for _, ha := range a.e.held {
			if a.write && !ha.write {
				continue
			}
			l, g := ha.loc, ha.g
			if sub != nil {
				l, g = r.Subst(l, sub), r.SubstB(g, sub)
			}
			if hw.loc.op != l.op || hw.loc.aux != l.aux {
				continue
			}
			x = b.And(x, b.Not(b.AndAll(hw.g, g, r.locEq(hw.loc, l))))
			if x == False {
				return x
			}
		}
	}
	return x
}

// ---------------------------------------------------------------- registries and clients

// sharedAccess is an access to state of a registry, client or instance domain.
type sharedAccess struct {
	run, class, pos string
	write           bool
	locks           map[string]bool // true if exclusive
	frozen          bool
}

func (a *sharedAccess) key() string {
	return fmt.Sprint(a.run, a.class, a.write, a.locks, a.frozen, a.pos)
}

// registryLock: a lock of the registry is held.
func (a *sharedAccess) registryLock() bool {
	for l := range a.locks {
		if strings.HasPrefix(l, "PCPRegistry#") {
			return true
		}
	}
	return false
}

// holder is the object that a location or a lock is in.
func holder(loc *Term) *Term {
	for loc != nil && loc.op == "ghost" {
		loc = loc.args[0]
		if l := loadOf(loc); l != nil {
			loc = l
		}
	}
	for loc != nil {
		switch loc.op {
		case "indexaddr", "mapaddr", "haddr", "mlenaddr":
			loc = loc.args[0]
			if l := loadOf(loc); l != nil {
				loc = l
			}
			continue
		case "fieldaddr":
			for loc.op == "fieldaddr" {
				loc = loc.args[0]
			}
			return loc
		}
		return loc
	}
	return nil
}

// heldAt: the locks that exclude others during an access, by name, relative to the
// object that is accessed; those of the goroutines that wait for this one included.
func heldAt(E *Engine, h *hb, a access, ev []*Event) map[string]bool {
	obj := holder(a.loc)
	r := map[string]bool{}
	add := func(l heldLock) {
		name := ""
		switch root := locRoot(l.loc); {
		case root.op == "global":
			name = lockClass(l.loc)
		case holder(l.loc) == obj:
			name = lockClass(l.loc)
		}
		if name != "" {
			r[name] = r[name] || l.write
		}
	}
	for _, l := range a.e.held {
		if E.implies(a.g, l.g) {
			add(l)
		}
	}
	for t := a.e.thread; t > 0; t = E.threads[t].parent {
		sp := E.threads[t].spawn
		if sp == nil {
			break
		}
		for _, l := range sp.held {
			if !E.implies(a.g, l.g) {
				continue
			}
			kept := true
			for _, u := range ev {
				if u.kind != "unlock" && u.kind != "runlock" || u.id < sp.id || u.thread != sp.thread && !E.below(sp.thread, u.thread) {
					continue
				}
				x := False
				for _, ul := range leavesOf(u.loc) {
					if ul.t == l.loc {
						x = E.bdd.Or(x, ul.g)
					}
				}
				if x = E.bdd.AndAll(x, u.g, a.g); x != False && !E.never(x) && !h.before(a.e, u) {
					kept = false
				}
			}
			if kept {
				add(l)
			}
		}
	}
	return r
}

func checkC23(P *Program, R *Report) {
	var mu sync.Mutex
	var recs []*sharedAccess
	keys := map[string]bool{}
	mutable := map[string]bool{}
	seen := map[*ssa.Function]bool{}
	pairs := 0
	one := func(E *Engine, what string, ev []*Event, k *clientRun) {
		h := newHB(E, ev)
		var f *frz
		if k != nil {
			f = newFrz(k, R)
		}
		var out []*sharedAccess
		for _, e := range ev {
			for _, a := range E.accesses(e) {
				if locRoot(a.loc).op == "nil" || isFresh(a.loc) || !E.feasible(a.g) {
					continue
				}
				if ow, _ := ownerOfLoc(a.loc); ow != "" {
					continue // decided by C12
				}
				cl := stateClass(a.loc)
				if cl == "" || strings.Contains(cl, "bytewriter.") {
					continue // decided by C22
				}
				x := &sharedAccess{run: what, class: cl, pos: P.pos(e.pos), write: a.write, locks: heldAt(E, h, a, ev)}
				if f != nil && strings.Contains(cl, "PCPRegistry#") && !x.registryLock() {
					// the client that has a mapping has frozen its registry
					g := E.bdd.And(a.g, f.free(e.memAt))
					g = E.bdd.And(g, E.bdd.Or(E.bdd.Not(f.writer(f.m0)), E.bdd.Or(E.bdd.Not(f.free(f.m0)), f.frozen(f.m0))))
					x.frozen = E.implies(g, f.frozen(e.memAt)) && f.stays(h, e, ev)
				}
				out = append(out, x)
			}
		}
		mu.Lock()
		defer mu.Unlock()
		for _, x := range out {
			if x.write {
				mutable[x.class] = true
			}
			if q := x.key(); !keys[q] {
				keys[q] = true
				recs = append(recs, x)
			}
		}
		for fn := range E.funcs {
			seen[fn] = true
		}
	}
	goroutines := func(k *clientRun, ev []*Event) {
		r := &races{Engine: k.Engine, P: P, R: R, what: k.what(), at: func(e *Event) string { return e.where() }}
		r.run(ev)
		mu.Lock()
		pairs += r.n
		mu.Unlock()
	}
	allOps(P, R, func(r *evRun) {
		one(r.Engine, r.what, r.ev, r.run)
		if r.run != nil {
			goroutines(r.run, r.ev)
		}
	})
	sort.Slice(recs, func(i, j int) bool { return recs[i].key() < recs[j].key() })
	byClass := map[string][]*sharedAccess{}
	for _, x := range recs {
		if mutable[x.class] {
			byClass[x.class] = append(byClass[x.class], x)
		}
	}
	n := 0
	for _, c := range sortedKeys(byClass) {
		R.Note("shared state: %s", c)
		for i, w := range byClass[c] {
			if !w.write {
				continue
			}
			for j, a := range byClass[c] {
				if a.write && j < i {
					continue
				}
				n++
				how := "read"
				if a.write {
					how = "written"
				}
				R.Ob(r23lock, fmt.Sprintf("%s: %s, %s", c, w.run, a.run), exclusive(w, a), w.pos, "it is written with %s, and %s at %s with %s", lockStr(w), how, a.pos, lockStr(a))
			}
		}
	}
	R.Count("kinds of shared state", len(byClass))
	R.AtLeast("kinds of shared state", 8)
	R.Count("pairs of accesses", n)
	R.AtLeast("pairs of accesses", 100)
	R.Count("pairs of accesses of goroutines", pairs)
	R.Assume("the registry of a client that has a mapping is frozen (C21)")
	R.Assume("nothing is registered while a registry is frozen (C21)")
	R.Assume("no metric updates a client's mapped file when it is unmapped (C22)")
	ctors := P.ctorFuncs(R)
	P.coverage(R, r23all, mutable, seen, ctors)
	// the dump reader
	if d := newDumpRun(P, R); d != nil {
		r := &races{Engine: d.Engine, P: P, R: R, what: "Dump", at: d.at}
		r.run(d.ev)
		R.Count("pairs of accesses of the dump reader", r.n)
		R.Count("goroutines of the dump reader", len(d.threads)-1)
	}
	R.Ob(r23go, "all", true, "", "")
}

func lockStr(a *sharedAccess) string {
	var s []string
	for _, l := range sortedKeys(a.locks) {
		if !a.locks[l] {
			l += " (shared)"
		}
		s = append(s, l)
	}
	if a.frozen {
		s = append(s, "a frozen registry")
	}
	if len(s) == 0 {
		return "no lock"
	}
	return strings.Join(s, ", ")
}

// exclusive: a write and another access exclude each other.
func exclusive(w, a *sharedAccess) bool {
	for l, x := range w.locks {
		if y, ok := a.locks[l]; ok && x && (y || !a.write) {
			return true
		}
		// registering happens with the lock of the registry, and not while it is frozen
		if a.frozen && x && strings.HasPrefix(l, "PCPRegistry#") && !w.frozen {
			return true
		}
	}
	return false
}

// stays: the registry is not changed until what a goroutine does is done.
func (f *frz) stays(h *hb, e *Event, ev []*Event) bool {
	if e.thread == 0 {
		return true
	}
	t := e.thread
	for f.threads[t].parent > 0 {
		t = f.threads[t].parent
	}
	sp := f.threads[t].spawn
	for _, u := range ev {
		if u.kind == "store" && u.id > sp.id && f.ofRegistry(u.loc) != "" && len(u.held) > 0 && u.thread == sp.thread && !f.never(f.bdd.And(u.g, e.g)) && !h.before(e, u) {
			return false
		}
	}
	return true
}

// where names an event by the functions it is in.
func (e *Event) where() string {
	var ns []string
	for i := len(e.ctx) - 1; i >= 0; i-- {
		n := e.ctx[i].fn.RelString(nil)
		ns = append(ns, strings.ReplaceAll(n, modPath+".", ""))
	}
	return strings.Join(ns, " > ")
}
