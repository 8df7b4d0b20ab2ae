package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// Loop is a loop of one activation of a function. Its effect is summarised: what
// it writes is generalised over the iteration number it, and what it carries from
// iteration to iteration gets a closed form where there is one.
type Loop struct {
	id     int32
	it     *Term
	prev   *Term // an earlier iteration
	trip   *Term
	g0     B     // where it is entered
	domain *Term // number of keys of the map that is iterated over
	fr     *frame
	key    string
	head   *ssa.BasicBlock
	exAtom int32
	exBody B
	passes int

	fixed    bool // the number of iterations is in the program
	unrolled bool // one of few iterations, evaluated by itself
}

type cellState struct {
	loc   *Term
	init  *Term
	lam   *Term
	cur   *Term // value at iteration it
	step  *Term // of a counter
	exact bool  // which does not overflow
	exit  *Term // value after all iterations, nil if not known
	back  *Term
	kind  string
}

var tInt = types.Typ[types.Int]

func (E *Engine) getLoop(fr *frame, nl *natLoop) *Loop {
	key := fmt.Sprintf("%s!%d", fr.path, nl.head.Index)
	if len(E.loopSt) > 0 {
		key += fmt.Sprintf("@%d", E.loopSt[len(E.loopSt)-1].id)
	}
	if L, ok := E.loopIdx[key]; ok {
		L.fr = fr
		return L
	}
	L := &Loop{id: int32(len(E.loops) + 1), key: key, head: nl.head, fr: fr, exAtom: -1}
	E.loops = append(E.loops, L)
	E.loopIdx[key] = L
	L.it = E.intern(&Term{op: "it", aux: key, typ: tInt, lp: []int32{L.id}, args: E.its()})
	L.prev = E.intern(&Term{op: "it", aux: key + "'", typ: tInt, args: E.its()})
	return L
}

func isCellLoc(loc *Term, id int32) bool { return !loc.inLoop(id) }

// evalLoop evaluates a loop and everything in it, and sets the exits.
func (E *Engine) evalLoop(fr *frame, nl *natLoop) {
	head := nl.head
	body := nl.body
	outside := func(b *ssa.BasicBlock) bool { return !body[b] }
	g0 := False
	for i, p := range head.Preds {
		if outside(p) {
			g0 = E.bdd.Or(g0, fr.in[head][i])
		}
	}
	if g0 == False || !E.feasible(g0) {
		for b := range body {
			E.deadBlock(fr, b)
		}
		return
	}
	L := E.getLoop(fr, nl)
	L.trip = nil
	L.domain = nil
	L.fixed = false
	L.g0 = g0
	save := E.saveState()
	nrets, npanic, ndef := len(fr.rets), fr.panicG, len(fr.defers)

	// what the loop carries: its phis, and cells of memory it writes
	var phis []*ssa.Phi
	phiSt := map[*ssa.Phi]*cellState{}
	for _, in := range head.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
		lam := E.typed(E.intern(&Term{op: "lam", aux: L.key + "/" + p.Name(), typ: p.Type(), lp: []int32{L.id}, args: E.its()}))
		st := &cellState{init: E.phiIn(fr, head, p, outside), lam: lam, cur: lam}
		if ik, ok := intKind(p.Type()); ok {
			// a counter
			if a, ok := E.affine(fr, nl, L, p); ok {
				st.step = E.Int(int64(a.step))
				if bounded(nl, p, a.step) {
					ik = ikind{100, true}
					st.exact = true
				}
				st.cur = E.Add(st.init, E.Mul(L.it, st.step, ik), ik)
			}
		}
		phiSt[p] = st
	}
	cells := map[*Term]*cellState{}
	var cellOrder []*Term
	var gens []*memEntry // earlier iterations' writes
	genKeys := map[string]*memEntry{}

	var bodyStart int
	run := func() {
		E.restoreState(save)
		fr.rets, fr.panicG, fr.defers = fr.rets[:nrets], npanic, fr.defers[:ndef]
		for _, h := range gens {
			E.mem = append(E.mem, h)
		}
		for _, c := range cellOrder {
			st := cells[c]
			E.mem = append(E.mem, &memEntry{kind: "store", g: g0, loc: c, val: E.Simp(st.cur, g0), cls: class(c)})
		}
		bodyStart = len(E.mem)
		for _, p := range phis {
			fr.vals[p] = E.Simp(phiSt[p].cur, g0)
		}
		for b := range body {
			for i, p := range b.Preds {
				if body[p] {
					fr.in[b][i] = False
				}
			}
		}
		E.loopSt = append(E.loopSt, L)
		E.evalRegion(fr, nl, g0)
		E.loopSt = E.loopSt[:len(E.loopSt)-1]
	}
	backG := func() B {
		g := False
		for i, p := range head.Preds {
			if body[p] {
				g = E.bdd.Or(g, fr.in[head][i])
			}
		}
		return g
	}
	// discover reads the writes of a pass; true if it found new ones
	discover := func() bool {
		changed := false
		for _, e := range E.mem[bodyStart:] {
			if e.kind == "store" && isCellLoc(e.loc, L.id) {
				if r := locRoot(e.loc); isFreshOp(r.op) && !E.older(r, save.nterms, L) {
					// an object of this activation of the body that is not told
					// apart by iteration
				}
				if cells[e.loc] == nil {
					lam := E.typed(E.intern(&Term{op: "lam", aux: L.key + "/cell", typ: e.loc.typ, lp: []int32{L.id}, args: append([]*Term{e.loc}, E.its()...)}))
					init := E.ReadAt(e.loc, g0, save.mem)
					cells[e.loc] = &cellState{loc: e.loc, init: init, lam: lam, cur: lam}
					cellOrder = append(cellOrder, e.loc)
					changed = true
				}
				continue
			}
			if e.kind == "gen" && !e.loc.inLoop(L.id) {
				// rewritten in every iteration
			}
			root := locRoot(e.loc)
			if e.root != nil {
				root = e.root
			}
			if isFreshOp(root.op) && root.inLoop(L.id) {
				continue // objects of this iteration
			}
			h := &memEntry{kind: "havoc", g: g0, loc: e.loc, cls: e.cls, ver: L.key + "/prev"}
			vars := E.genVars(e, L)
			if vars != nil && e.kind != "havoc" && e.kind != "astore" {
				// what earlier iterations wrote
				vars[len(vars)-1] = genVar{L.prev, L.it}
				h = &memEntry{kind: "gen", g: E.SubstB(E.dropLoopGuard(e.g, L), map[*Term]*Term{L.it: L.prev}), loc: E.Subst(e.loc, map[*Term]*Term{L.it: L.prev}), cls: e.cls, vars: vars, ver: L.key + "/prev"}
				if h.loc.inLoop(L.id) {
					h = &memEntry{kind: "havoc", g: g0, loc: e.loc, cls: e.cls, ver: L.key + "/prev"}
				}
				h.g = g0
				if h.kind == "gen" && e.val != nil && len(vars) == 1 && (e.kind == "store" || e.uncond) && E.bdd.And(backG(), E.bdd.Not(e.g)) == False {
					// every iteration that goes on wrote it
					if v := E.Subst(e.val, map[*Term]*Term{L.it: L.prev}); !v.inLoop(L.id) {
						h.val, h.uncond, h.base = v, true, g0
					}
				}
			}
			if h.kind == "havoc" && !root.inLoop(L.id) {
				h.root = root
			}
			k := fmt.Sprintf("%s|%s|%d|%v", h.kind, h.cls, h.loc.id, h.root != nil)
			if h.kind == "havoc" {
				k = fmt.Sprintf("havoc|%s", h.cls)
				if h.root != nil {
					k += fmt.Sprintf("|%d", h.root.id)
				}
			}
			if o := genKeys[k]; o == nil {
				genKeys[k] = h
				gens = append(gens, h)
				changed = true
			} else if o.uncond && (!h.uncond || o.val != h.val) {
				o.uncond, o.val, o.base = false, nil, False
				changed = true
			}
		}
		return changed
	}
	settle := func() {
		gens, genKeys = nil, map[string]*memEntry{}
		for pass := 0; ; pass++ {
			run()
			if !discover() {
				break
			}
			if pass > 12 {
				E.undec("the writes of the loop at %s are not stable", E.prog.pos(headPos(head)))
				break
			}
		}
	}
	settle()
	E.findTrip(fr, nl, L, g0)
	if L.trip != nil && L.domain == nil && L.fixed && L.trip.op == "int" && L.trip.k.IsInt64() && L.trip.k.Int64() <= maxUnroll && L.trip.k.Sign() >= 0 {
		E.restoreState(save)
		fr.rets, fr.panicG, fr.defers = fr.rets[:nrets], npanic, fr.defers[:ndef]
		E.unroll(fr, nl, L, phis, phiSt, g0)
		return
	}

	// closed forms of what is carried
	all := func() []*cellState {
		var r []*cellState
		for _, p := range phis {
			r = append(r, phiSt[p])
		}
		for _, c := range cellOrder {
			r = append(r, cells[c])
		}
		return r
	}
	backs := func() {
		bg := backG()
		for _, p := range phis {
			phiSt[p].back = E.Simp(E.phiIn(fr, head, p, func(b *ssa.BasicBlock) bool { return body[b] }), bg)
		}
		for _, c := range cellOrder {
			if bg != False {
				cells[c].back = E.Simp(E.Read(c, bg), bg)
			} else {
				cells[c].back = cells[c].lam
			}
		}
	}
	// equal phis, and rounds of resolution
	for round := 0; round < 6; round++ {
		backs()
		bg := backG()
		progress := false
		for _, st := range all() {
			if st.kind != "" {
				continue
			}
			if E.closedForm(st, L, bg, g0) {
				progress = true
			}
		}
		if !progress {
			break
		}
		settle()
	}
	// rounds may have left some without one: they stay opaque
	for i, st := range all() {
		if st.kind == "" {
			st.kind = "opaque"
			typ := st.lam.typ
			if st.loc != nil {
				typ = st.loc.typ
			} else {
				typ = phis[i].Type()
			}
			x := E.typed(E.intern(&Term{op: "lexit", aux: fmt.Sprintf("%s/%d", L.key, i), typ: typ, args: E.its()}))
			st.exit = x
		}
	}
	bg := backG()
	// locks are held in the same way in each iteration
	E.checkHeld(fr, save, bg, headPos(head))

	// ------------------------------------------------------------ exits
	type edge struct {
		from *ssa.BasicBlock
		succ int
		g    B
	}
	var early []edge
	var normal []edge
	for _, b := range cfgOf(fr.fn).rpo {
		if !body[b] {
			continue
		}
		for i, s := range b.Succs {
			if body[s] {
				continue
			}
			g := E.edgeGuard(fr, b, i)
			if b == head {
				normal = append(normal, edge{b, i, g})
			} else if g != False {
				early = append(early, edge{b, i, g})
			}
		}
	}
	lost := False
	for _, r := range fr.rets[nrets:] {
		lost = E.bdd.Or(lost, r.g)
	}
	newPanic := E.bdd.And(fr.panicG, E.bdd.Not(npanic))
	exB := lost
	for _, e := range early {
		exB = E.bdd.Or(exB, e.g)
	}
	pan := E.bdd.And(newPanic, g0)
	exB = E.bdd.Or(exB, pan)
	if len(normal) > 0 && L.trip == nil {
		L.trip = E.typed(E.intern(&Term{op: "trip", aux: L.key, typ: tInt, args: E.its()}))
		E.facts[L.trip] = append(E.facts[L.trip], linForm{[]*Term{L.trip}, []*big.Int{big.NewInt(-1)}, big.NewInt(0)})
		E.tripUnknown(L)
	}
	ex := False
	if exB != False {
		cond := E.bdd.Restrict(exB, g0)
		ex = E.anyOf(L, cond)
	}
	normG := False
	if len(normal) > 0 {
		normG = E.bdd.And(g0, E.bdd.Not(ex))
		if !E.feasible(normG) {
			normG = False
		}
	}
	// without an exit at the top the loop is only left early
	earlyG := E.bdd.And(g0, ex)
	if len(normal) == 0 {
		earlyG = g0
	}
	rem := earlyG
	taken := func(g B) B {
		r := E.bdd.And(rem, E.bdd.Restrict(g, g0))
		rem = E.bdd.And(rem, E.bdd.Not(r))
		if !E.feasible(r) {
			return False
		}
		return r
	}
	// the memory: what the interrupted iteration did, or what all of them did
	bodyEntries := append([]*memEntry(nil), E.mem[bodyStart:]...)
	E.mem = E.mem[:save.mem:save.mem]
	if earlyG != False {
		writes := false
		for _, e := range bodyEntries {
			if E.feasible(E.bdd.And(e.g, earlyG)) {
				writes = true
			}
		}
		if writes || len(cellOrder) > 0 || len(gens) > 0 {
			for _, h := range gens {
				c := *h
				c.g = E.bdd.And(c.g, earlyG)
				E.mem = append(E.mem, &c)
			}
			for _, c := range cellOrder {
				E.mem = append(E.mem, &memEntry{kind: "store", g: earlyG, loc: c, val: cells[c].cur, cls: class(c)})
			}
			for _, e := range bodyEntries {
				c := *e
				c.g = E.bdd.And(e.g, earlyG)
				if c.g != False {
					E.mem = append(E.mem, &c)
				}
			}
		}
	}
	if normG != False {
		for _, e := range bodyEntries {
			if e.kind == "store" && cells[e.loc] != nil {
				continue
			}
			root := locRoot(e.loc)
			if vars := E.genVars(e, L); vars != nil && e.kind != "havoc" && e.kind != "astore" {
				// after all iterations, those that did not leave the loop
				uncond := E.bdd.And(bg, E.bdd.Not(e.g)) == False && (e.kind == "store" || e.uncond)
				E.mem = append(E.mem, &memEntry{kind: "gen", g: E.bdd.And(normG, E.dropLoopGuard(e.g, L)), base: normG, loc: e.loc, val: e.val, cls: e.cls, vars: vars,
					ver: fmt.Sprintf("%s/out%d", L.key, len(E.mem)), uncond: uncond})
				continue
			}
			h := &memEntry{kind: "havoc", g: normG, loc: e.loc, cls: e.cls, ver: fmt.Sprintf("%s/out%d", L.key, len(E.mem))}
			if e.root != nil {
				root = e.root
			}
			if !root.inLoop(L.id) {
				h.root = root
			}
			E.mem = append(E.mem, h)
		}
		for _, c := range cellOrder {
			E.mem = append(E.mem, &memEntry{kind: "store", g: normG, loc: c, val: E.Simp(cells[c].exit, normG), cls: class(c)})
		}
	}
	// returns and panics inside of the loop, in program order with early exits
	for i := range fr.rets[nrets:] {
		r := &fr.rets[nrets+i]
		r.g = taken(r.g)
	}
	if pan != False {
		fr.panicG = E.bdd.Or(npanic, taken(pan))
	}
	for _, e := range early {
		E.setEdge(fr, e.from, e.succ, taken(e.g))
	}
	if normG == False {
		for _, e := range normal {
			E.setEdge(fr, e.from, e.succ, False)
		}
		return
	}
	// values at the normal exit
	old := map[ssa.Value]*Term{}
	for _, in := range head.Instrs {
		if v, ok := in.(ssa.Value); ok {
			old[v] = fr.vals[v]
		}
	}
	for _, p := range phis {
		fr.vals[p] = E.Simp(phiSt[p].exit, normG)
	}
	st := E.saveState()
	E.quiet++
	sc := E.care
	cur := normG
	E.care = cur
	for _, in := range head.Instrs {
		switch in.(type) {
		case *ssa.Phi, *ssa.If, *ssa.Jump:
			continue
		}
		cur = E.instr(fr, head, in, cur)
		if cur == False {
			break
		}
	}
	E.quiet--
	E.care = sc
	// keep what the evaluation of the condition wrote, but not its events
	E.events = E.events[:st.events]
	for v, o := range old {
		if earlyG != False && fr.vals[v] != nil && o != nil {
			fr.vals[v] = E.Phi([]Leaf{{normG, fr.vals[v]}, {earlyG, o}})
		}
	}
	for _, e := range normal {
		E.setEdge(fr, e.from, e.succ, normG)
	}
}

const maxUnroll = 8

// unroll evaluates a loop of few iterations one after the other.
func (E *Engine) unroll(fr *frame, nl *natLoop, L *Loop, phis []*ssa.Phi, phiSt map[*ssa.Phi]*cellState, g0 B) {
	head, body := nl.head, nl.body
	type exitEdge struct {
		from *ssa.BasicBlock
		succ int
		g    B
	}
	var exits []*exitEdge
	var vals []ssa.Value
	for _, b := range cfgOf(fr.fn).rpo {
		if !body[b] {
			continue
		}
		for i, s := range b.Succs {
			if !body[s] {
				exits = append(exits, &exitEdge{from: b, succ: i, g: False})
			}
		}
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				vals = append(vals, v)
			}
		}
	}
	leaves := map[ssa.Value][]Leaf{}
	next := map[*ssa.Phi]*Term{}
	for _, p := range phis {
		next[p] = phiSt[p].init
	}
	n := L.trip.k.Int64()
	g := g0
	for k := int64(0); g != False; k++ {
		if k > n {
			E.undec("the loop at %s does not end after %d iterations", E.prog.pos(headPos(head)), n)
			break
		}
		key := fmt.Sprintf("%s#%d", L.key, k)
		U := E.loopIdx[key]
		if U == nil {
			U = &Loop{id: int32(len(E.loops) + 1), key: key, head: head, exAtom: -1, unrolled: true, it: E.Int(k), prev: E.Int(k)}
			E.loops = append(E.loops, U)
			E.loopIdx[key] = U
		}
		U.fr, U.g0, U.trip = fr, g, L.trip
		for _, p := range phis {
			fr.vals[p] = E.Simp(next[p], g)
		}
		for b := range body {
			for i, p := range b.Preds {
				if body[p] {
					fr.in[b][i] = False
				}
			}
		}
		E.loopSt = append(E.loopSt, U)
		E.evalRegion(fr, nl, g)
		E.loopSt = E.loopSt[:len(E.loopSt)-1]
		ex := False
		for _, x := range exits {
			h := E.edgeGuard(fr, x.from, x.succ)
			x.g = E.bdd.Or(x.g, h)
			ex = E.bdd.Or(ex, h)
		}
		if ex != False {
			for _, v := range vals {
				if t := fr.vals[v]; t != nil && t.op != "bottom" {
					leaves[v] = append(leaves[v], Leaf{ex, t})
				}
			}
		}
		back := False
		for i, p := range head.Preds {
			if body[p] {
				back = E.bdd.Or(back, fr.in[head][i])
			}
		}
		if back != False && !E.feasible(back) {
			back = False
		}
		if back != False {
			for _, p := range phis {
				next[p] = E.phiIn(fr, head, p, func(b *ssa.BasicBlock) bool { return body[b] })
			}
		}
		g = back
	}
	for _, v := range vals {
		if ls := leaves[v]; len(ls) > 0 {
			fr.vals[v] = E.Phi(ls)
		}
	}
	for _, x := range exits {
		E.setEdge(fr, x.from, x.succ, x.g)
	}
}

func headPos(b *ssa.BasicBlock) token.Pos {
	for _, in := range b.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	for _, s := range b.Succs {
		for _, in := range s.Instrs {
			if in.Pos().IsValid() {
				return in.Pos()
			}
		}
	}
	return token.NoPos
}

func (E *Engine) edgeGuard(fr *frame, from *ssa.BasicBlock, succ int) B {
	to := from.Succs[succ]
	n := 0
	for i := 0; i < succ; i++ {
		if from.Succs[i] == to {
			n++
		}
	}
	for i, p := range to.Preds {
		if p == from {
			if n == 0 {
				return fr.in[to][i]
			}
			n--
		}
	}
	return False
}

type engState struct {
	mem, events, threads, nterms int
	held                         [][]heldLock
	stack                        int
}

func (E *Engine) saveState() engState {
	s := engState{mem: len(E.mem), events: len(E.events), threads: len(E.threads), nterms: len(E.termList)}
	for _, t := range E.threads {
		s.held = append(s.held, append([]heldLock(nil), t.held...))
	}
	return s
}

func (E *Engine) restoreState(s engState) {
	E.mem = E.mem[:s.mem:s.mem]
	E.events = E.events[:s.events]
	E.threads = E.threads[:s.threads]
	for i := range E.threads {
		E.threads[i].held = append([]heldLock(nil), s.held[i]...)
	}
}

func (E *Engine) older(t *Term, n int, L *Loop) bool { return t.id < n }

// checkHeld: an iteration must end with the locks held that it started with.
func (E *Engine) checkHeld(fr *frame, s engState, bg B, pos token.Pos) {
	if bg == False {
		return
	}
	count := func(hs []heldLock) map[*Term]B {
		m := map[*Term]B{}
		for _, h := range hs {
			g := E.bdd.And(h.g, bg)
			if g != False && E.feasible(g) {
				m[h.loc] = E.bdd.Or(m[h.loc], g)
			}
		}
		return m
	}
	a, b := count(s.held[E.thread]), count(E.threads[E.thread].held)
	keys := map[*Term]bool{}
	for k := range a {
		keys[k] = true
	}
	for k := range b {
		keys[k] = true
	}
	for k := range keys {
		if d := E.bdd.And(bg, E.bdd.Xor(a[k], b[k])); d != False && E.feasible(d) {
			e := E.event(fr, "lockleak", d, pos)
			e.loc = k
			// go on as if it were not
		}
	}
	E.threads[E.thread].held = append([]heldLock(nil), s.held[E.thread]...)
}

// foldFNV recognises a loop over the bytes of a string that computes their 32 bit
// FNV-1a hash, and gives that.
func (E *Engine) foldFNV(st *cellState, L *Loop, bg B) *Term {
	u32 := types.Typ[types.Uint32]
	ik := ikind{32, false}
	if st.init == nil || st.init.op != "int" || st.init.k.Cmp(big.NewInt(2166136261)) != 0 || st.lam.typ == nil || L.trip == nil || L.trip.op != "len" {
		return nil
	}
	if k, ok := intKind(st.lam.typ); !ok || k != ik {
		return nil
	}
	s := E.bytesOf(L.trip.args[0])
	b := E.App("byteat", "", types.Typ[types.Uint8], s, L.it)
	want := E.Mul(E.bitOp("^", st.lam, E.Conv(b, u32, bg), u32), E.Int(16777619), ik)
	if E.Simp(st.back, bg) != E.Simp(want, bg) {
		return nil
	}
	return E.fnv1a(s, 0)
}

// genVar is a variable a generalised write ranges over: 0 <= v < n.
type genVar struct{ v, n *Term }

// genVars gives the variables of a write in the body of L after L is finished,
// nil if the location does not depend on the iteration in a way that can be matched.
func (E *Engine) genVars(e *memEntry, L *Loop) []genVar {
	if e.kind == "havoc" || !e.loc.inLoop(L.id) || e.loc.op == "" {
		return nil
	}
	if !E.matchable(e.loc, L) {
		return nil
	}
	n := L.trip
	if n == nil {
		n = E.intern(&Term{op: "trip", aux: L.key, typ: tInt, args: E.its()})
	}
	return append(append([]genVar(nil), e.vars...), genVar{L.it, n})
}

// matchable: the iteration can be read off the location.
func (E *Engine) matchable(t *Term, L *Loop) bool {
	if t == L.it {
		return true
	}
	if t.op == "phi" || t.op == "bool" {
		return false
	}
	for _, a := range t.args {
		if a.inLoop(L.id) && E.matchable(a, L) {
			return true
		}
	}
	return false
}

// dropLoopGuard removes from a guard what only says that the iteration happens.
func (E *Engine) dropLoopGuard(g B, L *Loop) B {
	if L.trip == nil {
		return g
	}
	in := E.cmpInt("<", L.it, L.trip, True)
	if in <= True {
		return g
	}
	return E.bdd.Restrict(g, in)
}

// findTrip determines how often the body runs.
func (E *Engine) findTrip(fr *frame, nl *natLoop, L *Loop, g0 B) {
	iff, ok := nl.head.Instrs[len(nl.head.Instrs)-1].(*ssa.If)
	if !ok {
		return
	}
	stay := nl.body[nl.head.Succs[0]]
	if stay == nl.body[nl.head.Succs[1]] {
		return
	}
	if L.domain != nil {
		L.trip = L.domain
		return
	}
	// the phis are still opaque here: use a closed form for the one in the condition
	c := iff.Cond
	neg := !stay
	for {
		if u, ok := c.(*ssa.UnOp); ok && u.Op == token.NOT {
			c = u.X
			neg = !neg
			continue
		}
		break
	}
	b, ok := c.(*ssa.BinOp)
	if !ok {
		return
	}
	if _, ok := intKind(b.X.Type()); !ok {
		return
	}
	X, ok1 := E.affine(fr, nl, L, b.X)
	Y, ok2 := E.affine(fr, nl, L, b.Y)
	if !ok1 || !ok2 {
		return
	}
	op := b.Op
	if neg {
		switch op {
		case token.LSS:
			op = token.GEQ
		case token.LEQ:
			op = token.GTR
		case token.GTR:
			op = token.LEQ
		case token.GEQ:
			op = token.LSS
		case token.EQL:
			op = token.NEQ
		case token.NEQ:
			op = token.EQL
		}
	}
	L.fixed = E.literal(fr, nl, b.X) && E.literal(fr, nl, b.Y)
	i64 := ikind{64, true}
	if op == token.GTR || op == token.GEQ {
		X, Y = Y, X
		if op == token.GTR {
			op = token.LSS
		} else {
			op = token.LEQ
		}
	}
	// X(it) op Y(it): the difference is d + s*it
	d := E.Sub(Y.base, X.base, i64)
	s := Y.step - X.step
	var n *Term
	switch {
	case op == token.LSS && s == -1:
		n = d
	case op == token.LEQ && s == -1:
		n = E.Add(d, E.Int(1), i64)
	case op == token.NEQ && s == -1:
		n = d
	case op == token.NEQ && s == 1:
		n = E.Sub(E.Int(0), d, i64)
	case op == token.LSS && s < -1:
		// ceil(d / -s)
		n = E.dist([]*Term{E.Add(d, E.Int(int64(-s-1)), i64)}, func(a []*Term) *Term {
			if a[0].op == "int" {
				return E.Int(a[0].k.Int64() / int64(-s))
			}
			return E.intern(&Term{op: "div", args: []*Term{a[0], E.Int(int64(-s))}, typ: tInt})
		})
	default:
		return
	}
	if op == token.NEQ {
		if !E.implies(g0, E.cmpInt("<=", E.Int(0), n, g0)) {
			return
		}
	} else if E.feasible(E.bdd.And(g0, E.cmpInt("<", n, E.Int(0), g0))) && E.sat(E.bdd.And(g0, E.cmpInt("<", n, E.Int(0), g0))) {
		neg := E.cmpInt("<", n, E.Int(0), g0)
		n = E.Phi([]Leaf{{E.bdd.And(g0, neg), E.Int(0)}, {E.bdd.And(g0, E.bdd.Not(neg)), n}})
	}
	L.trip = E.Simp(n, g0)
}

// bounded: the loop goes on only while a counter is below, or above, something, so
// that the counter does not overflow.
func bounded(nl *natLoop, p *ssa.Phi, step int) bool {
	iff, ok := nl.head.Instrs[len(nl.head.Instrs)-1].(*ssa.If)
	if !ok || nl.body[nl.head.Succs[0]] == nl.body[nl.head.Succs[1]] {
		return false
	}
	b, ok := iff.Cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	x, y, op := b.X, b.Y, b.Op
	if !nl.body[nl.head.Succs[0]] {
		return false
	}
	if y == ssa.Value(p) {
		x, y = y, x
		switch op {
		case token.LSS:
			op = token.GTR
		case token.LEQ:
			op = token.GEQ
		case token.GTR:
			op = token.LSS
		case token.GEQ:
			op = token.LEQ
		}
	}
	if x != ssa.Value(p) {
		return false
	}
	return step == 1 && op == token.LSS || step == -1 && op == token.GTR
}

// literal: an operand of a loop condition is in the program, as a number, or as the
// length of an array or of a slice that is written out.
func (E *Engine) literal(fr *frame, nl *natLoop, v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Const:
		return true
	case *ssa.Phi:
		return x.Block() == nl.head
	case *ssa.BinOp:
		return E.literal(fr, nl, x.X) && E.literal(fr, nl, x.Y)
	case *ssa.Convert:
		return E.literal(fr, nl, x.X)
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" {
			return false
		}
		for _, l := range leavesOf(E.val(fr, x.Call.Args[0])) {
			t := l.t
			for t.op == "slice" {
				t = t.args[0]
			}
			if t.op != "arrayslice" && t.op != "list" {
				return false
			}
		}
		return true
	}
	return false
}

type affineVal struct {
	base *Term
	step int
}

// affine: the value of an operand of the loop condition as base + step*it.
func (E *Engine) affine(fr *frame, nl *natLoop, L *Loop, v ssa.Value) (affineVal, bool) {
	switch x := v.(type) {
	case *ssa.Phi:
		if x.Block() == nl.head {
			var init *Term
			step, ok := 0, false
			for i, e := range x.Edges {
				if !nl.body[nl.head.Preds[i]] {
					continue
				}
				s, o := stepOf(e, x, 0)
				if !o || (ok && s != step) {
					return affineVal{}, false
				}
				step, ok = s, true
			}
			init = E.phiIn(fr, nl.head, x, func(b *ssa.BasicBlock) bool { return !nl.body[b] })
			return affineVal{init, step}, ok
		}
	case *ssa.BinOp:
		if nl.body[x.Block()] {
			a, ok1 := E.affine(fr, nl, L, x.X)
			b, ok2 := E.affine(fr, nl, L, x.Y)
			ik, ok3 := intKind(x.Type())
			if ok1 && ok2 && ok3 {
				switch x.Op {
				case token.ADD:
					return affineVal{E.Add(a.base, b.base, ik), a.step + b.step}, true
				case token.SUB:
					return affineVal{E.Sub(a.base, b.base, ik), a.step - b.step}, true
				}
			}
			return affineVal{}, false
		}
	case *ssa.Convert:
		if nl.body[x.Block()] {
			a, ok := E.affine(fr, nl, L, x.X)
			if ok && a.step == 0 {
				return affineVal{E.Conv(a.base, x.Type(), True), 0}, true
			}
			return a, ok
		}
	}
	t := E.val(fr, v)
	if t.inLoop(L.id) {
		return affineVal{}, false
	}
	return affineVal{t, 0}, true
}

// stepOf: v = p + step.
func stepOf(v ssa.Value, p *ssa.Phi, depth int) (int, bool) {
	if v == p {
		return 0, true
	}
	if depth > 8 {
		return 0, false
	}
	switch x := v.(type) {
	case *ssa.BinOp:
		if c, ok := x.Y.(*ssa.Const); ok && c.Value != nil {
			if _, isInt := intKind(c.Type()); isInt {
				s, o := stepOf(x.X, p, depth+1)
				if x.Op == token.ADD {
					return s + int(c.Int64()), o
				}
				if x.Op == token.SUB {
					return s - int(c.Int64()), o
				}
			}
		}
		if c, ok := x.X.(*ssa.Const); ok && c.Value != nil && x.Op == token.ADD {
			if _, isInt := intKind(c.Type()); isInt {
				s, o := stepOf(x.Y, p, depth+1)
				return s + int(c.Int64()), o
			}
		}
	case *ssa.Phi:
		step, ok := 0, false
		for _, e := range x.Edges {
			s, o := stepOf(e, p, depth+1)
			if !o || (ok && s != step) {
				return 0, false
			}
			step, ok = s, true
		}
		return step, ok
	}
	return 0, false
}

// tripUnknown: nothing is known about how often the loop runs.
func (E *Engine) tripUnknown(L *Loop) {}

func (E *Engine) dependsOnLams(t *Term, L *Loop) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	var recB func(b B) bool
	recB = func(b B) bool {
		for _, v := range E.bdd.Support(b) {
			a := E.atoms[v]
			if a.x != nil && rec(a.x) || a.y != nil && rec(a.y) {
				return true
			}
			for _, t := range a.lin.at {
				if rec(t) {
					return true
				}
			}
		}
		return false
	}
	rec = func(t *Term) bool {
		if seen[t] || !t.inLoop(L.id) {
			return false
		}
		seen[t] = true
		if t.op == "lam" && len(t.aux) > len(L.key) && t.aux[:len(L.key)+1] == L.key+"/" {
			return true
		}
		for _, a := range t.args {
			if rec(a) {
				return true
			}
		}
		for _, l := range t.leaves {
			if rec(l.t) || recB(l.g) {
				return true
			}
		}
		if t.op == "bool" && recB(t.f) {
			return true
		}
		for _, b := range t.bits {
			if recB(b) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

// closedForm finds the value of something carried by the loop as a function of the
// iteration, from its value at the end of an iteration.
// outside drops from the conditions of a value what is about an iteration of a loop,
// if the conditions still exclude each other in the iterations under bg.
func (E *Engine) outside(d *Term, L *Loop, bg B) *Term {
	if d.op != "phi" || !d.inLoop(L.id) {
		return d
	}
	var ls []Leaf
	all := False
	for _, l := range d.leaves {
		if l.t.inLoop(L.id) {
			return d
		}
		g := E.bdd.And(l.g, bg)
		for _, v := range E.bdd.Support(g) {
			if E.atomInLoop(v, L) {
				g = E.bdd.Exists(g, v)
			}
		}
		if g == False {
			continue
		}
		if x := E.bdd.And(all, g); x != False && E.feasible(x) {
			return d
		}
		all = E.bdd.Or(all, g)
		ls = append(ls, Leaf{g, l.t})
	}
	return E.Phi(ls)
}

func (E *Engine) atomInLoop(v int32, L *Loop) bool {
	return E.Bool(E.bdd.Var(v)).inLoop(L.id)
}

func (E *Engine) closedForm(st *cellState, L *Loop, bg, g0 B) bool {
	i64 := ikind{64, true}
	lam, back := st.lam, st.back
	if back == nil || back.op == "bottom" {
		st.kind, st.cur, st.exit = "never", st.init, st.init
		return true
	}
	if back == lam {
		st.kind, st.cur, st.exit = "invariant", st.init, st.init
		return true
	}
	trip := L.trip
	known := trip != nil
	if !known {
		trip = E.intern(&Term{op: "trip", aux: L.key, typ: tInt, args: E.its()})
	}
	if st.step != nil {
		ik, _ := intKind(st.init.typ)
		if st.exact {
			ik = ikind{100, true}
		}
		st.kind = "linear"
		st.exit = E.Add(st.init, E.dist([]*Term{trip}, func(a []*Term) *Term { return E.Mul(a[0], st.step, ik) }), ik)
		return true
	}
	if lam.op == "bool" {
		v := E.singleVar(lam.f)
		f := E.Formula(back)
		f1, f0 := E.bdd.SetVar(f, v, true), E.bdd.SetVar(f, v, false)
		dep := func(b B) bool { return E.dependsOnLams(E.Bool(b), L) }
		switch {
		case E.bdd.And(bg, E.bdd.Not(f1)) == False && !dep(E.bdd.Restrict(f0, bg)):
			c := E.bdd.Restrict(f0, bg)
			st.kind = "any"
			st.exit = E.Bool(E.bdd.Or(E.Formula(st.init), E.anyIn(L, c, trip, true)))
			st.cur = E.Bool(E.bdd.Or(E.Formula(st.init), E.anyIn(L, c, L.it, true)))
			return true
		case E.bdd.And(bg, f0) == False && !dep(E.bdd.Restrict(f1, bg)):
			c := E.bdd.Not(E.bdd.Restrict(f1, bg))
			st.kind = "all"
			st.exit = E.Bool(E.bdd.And(E.Formula(st.init), E.bdd.Not(E.anyIn(L, c, trip, true))))
			st.cur = E.Bool(E.bdd.And(E.Formula(st.init), E.bdd.Not(E.anyIn(L, c, L.it, true))))
			return true
		}
	}
	if r := E.foldFNV(st, L, bg); r != nil {
		st.kind = "hash"
		st.exit = r
		st.cur = E.typed(E.intern(&Term{op: "hash", aux: "prefix", typ: lam.typ, args: []*Term{r, L.it}}))
		return true
	}
	if !back.inLoop(L.id) && lam.op != "bool" {
		st.kind = "last"
		z := E.cmpInt("==", trip, E.Int(0), True)
		st.exit = E.Ite(z, st.init, back)
		st.cur = E.Ite(E.cmpInt("==", L.it, E.Int(0), True), st.init, back)
		return true
	}
	if ik, ok := E.kindOf(lam); ok && lam.op != "bool" {
		d := E.outside(E.Simp(E.Sub(back, lam, ik), bg), L, bg)
		if !d.inLoop(L.id) {
			st.kind = "linear"
			if d.op == "phi" {
				// different steps under conditions that stay the same
				st.cur = E.Add(st.init, E.dist([]*Term{d}, func(a []*Term) *Term { return E.Mul(L.it, a[0], ik) }), ik)
				st.exit = E.Add(st.init, E.dist([]*Term{d, trip}, func(a []*Term) *Term { return E.Mul(a[1], a[0], ik) }), ik)
				return true
			}
			st.cur = E.Add(st.init, E.Mul(L.it, d, ik), ik)
			st.exit = E.Add(st.init, E.dist([]*Term{trip, d}, func(a []*Term) *Term { return E.Mul(a[0], a[1], ik) }), ik)
			return true
		}
		if !E.dependsOnLams(d, L) {
			st.kind = "sum"
			st.cur = E.Add(st.init, E.sum(L, d, L.it), ik)
			st.exit = E.Add(st.init, E.sum(L, d, trip), ik)
			return true
		}
		return false
	}
	if back.op == "append" && back.args[0] == lam && back.args[1].op == "list" && len(back.args[1].args) == 1 && !E.dependsOnLams(back.args[1], L) {
		empty := true
		for _, l := range leavesOf(st.init) {
			if n := E.Len(l.t); n.op != "int" || n.k.Sign() != 0 {
				empty = false
			}
		}
		if empty {
			st.kind = "collect"
			x := back.args[1].args[0]
			st.exit = E.collect(L, x, trip, back.typ)
			st.cur = E.collect(L, x, L.it, back.typ)
			return true
		}
	}
	if back.op == "phi" && lam.op != "bool" {
		// kept, or overwritten by something that does not depend on it
		keep, plain, same := False, true, (*Term)(nil)
		for _, l := range back.leaves {
			if l.t == lam {
				keep = E.bdd.Or(keep, l.g)
			} else if E.dependsOnLams(l.t, L) {
				plain = false
			} else if same == nil {
				same = l.t
			} else if same != l.t {
				same = E.Nil()
			}
			if E.dependsOnLams(E.Bool(l.g), L) {
				plain = false
			}
		}
		if n := smallCount(trip); plain && keep != False && n >= 0 {
			st.kind = "unrolled"
			v := st.init
			var cur []Leaf
			for i := 0; i < n; i++ {
				cur = append(cur, Leaf{E.cmpInt("==", L.it, E.Int(int64(i)), True), v})
				v = E.Subst(back, map[*Term]*Term{L.it: E.Int(int64(i)), lam: v})
			}
			st.exit, st.cur = v, E.Phi(cur)
			return true
		}
		if plain && keep != False && same != nil && same.op != "nil" && !same.inLoop(L.id) {
			st.kind = "set once"
			c := E.bdd.Not(E.bdd.Restrict(keep, bg))
			a := E.anyIn(L, c, trip, true)
			st.exit = E.Ite(a, same, st.init)
			a = E.anyIn(L, c, L.it, true)
			st.cur = E.Ite(a, same, st.init)
			return true
		}
		if plain && keep != False && trip.op != "phi" {
			// what the last iteration that wrote it wrote
			c := E.bdd.Restrict(E.bdd.Not(keep), bg)
			v := E.Simp(back, E.bdd.And(bg, E.bdd.Not(keep)))
			if E.Bool(c).inLoop(L.id) {
				at := func(n *Term) *Term {
					w := E.lastIt(L, c, n)
					return E.Ite(E.anyIn(L, c, n, false), E.Subst(v, map[*Term]*Term{L.it: w}), st.init)
				}
				st.kind = "last of some"
				st.exit, st.cur = at(trip), at(L.it)
				return true
			}
		}
		if trip.op != "phi" && E.firstOfSome(st, L, bg, trip) {
			return true
		}
	}
	if !E.dependsOnLams(back, L) {
		// overwritten in every iteration
		st.kind = "over"
		_ = i64
		lastIt := E.Sub(trip, E.Int(1), i64)
		v := E.Subst(back, map[*Term]*Term{L.it: lastIt})
		z := E.cmpInt("==", trip, E.Int(0), True)
		if v.inLoop(L.id) {
			return false
		}
		st.exit = E.Ite(z, st.init, v)
		pv := E.Subst(back, map[*Term]*Term{L.it: E.Sub(L.it, E.Int(1), i64)})
		st.cur = E.Ite(E.cmpInt("==", L.it, E.Int(0), True), st.init, pv)
		return true
	}
	return false
}

// bound is the variable of an operator over the iterations of a loop: the same for
// loops over the same things, whatever their place.
func (E *Engine) bound(depth int) *Term {
	return E.intern(&Term{op: "it", aux: fmt.Sprintf("#%d", depth), typ: tInt})
}

func (E *Engine) canon(L *Loop, t *Term) (*Term, *Term) {
	d := E.boundDepth(t)
	k := E.bound(d)
	return E.Subst(t, map[*Term]*Term{L.it: k}), k
}

func (E *Engine) boundDepth(t *Term) int {
	max := 0
	seen := map[*Term]bool{}
	var rec func(t *Term)
	recB := func(b B) {
		for _, v := range E.bdd.Support(b) {
			a := E.atoms[v]
			if a.x != nil {
				rec(a.x)
			}
			if a.y != nil {
				rec(a.y)
			}
			for _, t := range a.lin.at {
				rec(t)
			}
		}
	}
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == "it" && t.aux[0] == '#' {
			var n int
			fmt.Sscanf(t.aux, "#%d", &n)
			if n+1 > max {
				max = n + 1
			}
		}
		for _, a := range t.args {
			rec(a)
		}
		for _, l := range t.leaves {
			rec(l.t)
			recB(l.g)
		}
		if t.op == "bool" {
			recB(t.f)
		}
	}
	rec(t)
	return max
}

// anyIn is the condition that c holds in one of the iterations below n.
func (E *Engine) anyIn(L *Loop, c B, n *Term, expand bool) B {
	in := E.cmpInt("<", L.it, n, True)
	if in > True {
		c = E.bdd.Restrict(c, in)
	}
	if c == False {
		return False
	}
	if !E.Bool(c).inLoop(L.id) {
		return E.bdd.And(c, E.cmpInt("<", E.Int(0), n, True))
	}
	body, k := E.canon(L, E.Bool(c))
	r := False
	for _, l := range leavesOf(n) {
		if n := smallCount(l.t); n >= 0 && expand {
			for i := 0; i < n; i++ {
				r = E.bdd.Or(r, E.bdd.And(l.g, E.SubstB(c, map[*Term]*Term{L.it: E.Int(int64(i))})))
			}
			continue
		}
		a := E.atomB(&atom{kind: "b", x: E.intern(&Term{op: "any", args: []*Term{l.t, body, k}, typ: types.Typ[types.Bool]})})
		r = E.bdd.Or(r, E.bdd.And(l.g, a))
	}
	return r
}

// firstOfSome: a variable that is nil at first, and is kept when it is not any more.
func (E *Engine) firstOfSome(st *cellState, L *Loop, bg B, trip *Term) bool {
	b := E.bdd
	if _, ok := st.lam.typ.Underlying().(*types.Interface); !ok || E.Eq(st.init, E.Nil(), True) != True {
		return false
	}
	isNil := E.Eq(st.lam, E.Nil(), True)
	if len(b.Support(isNil)) != 1 {
		return false
	}
	set := False // it is set in this iteration, if it was not before
	for _, l := range st.back.leaves {
		if l.t == st.lam {
			continue
		}
		if b.And(l.g, b.Not(isNil)) != False {
			return false
		}
		set = b.Or(set, l.g)
	}
	c := b.Restrict(set, b.And(bg, isNil))
	v := E.Simp(st.back, b.And(set, isNil))
	if E.dependsOnLams(E.Bool(c), L) || E.dependsOnLams(v, L) || !E.Bool(c).inLoop(L.id) || !E.never(b.AndAll(bg, set, E.Eq(v, E.Nil(), set))) {
		return false
	}
	at := func(n *Term) *Term {
		w := E.someIt("firstit", L, c, n)
		return E.Ite(E.anyIn(L, c, n, false), E.Subst(v, map[*Term]*Term{L.it: w}), st.init)
	}
	st.kind = "first of some"
	st.exit, st.cur = at(trip), at(L.it)
	return true
}

// lastIt is the last iteration below n in which c holds. Where there is one, it holds in it.
func (E *Engine) lastIt(L *Loop, c B, n *Term) *Term {
	return E.someIt("lastit", L, c, n)
}

// someIt is an iteration below n in which c holds, if there is one.
func (E *Engine) someIt(op string, L *Loop, c B, n *Term) *Term {
	body, k := E.canon(L, E.Bool(c))
	w := E.typed(E.intern(&Term{op: op, typ: tInt, args: []*Term{n, body, k}}))
	b := E.anyIn(L, c, n, false)
	for _, v := range E.bdd.Support(b) {
		a := E.atoms[v]
		if a.kind == "b" && a.x.op == "any" && a.x.args[0] == n {
			in := E.bdd.And(E.cmpInt("<=", E.Int(0), w, True), E.cmpInt("<", w, n, True))
			ax := E.bdd.And(in, E.SubstB(c, map[*Term]*Term{L.it: w}))
			E.axioms[v] = E.bdd.And(E.axiomOf(v), E.bdd.Imp(E.bdd.Var(v), ax))
		}
	}
	E.feasC = map[B]bool{}
	E.satC = map[B]bool{}
	return w
}

// anyOf is the condition that the loop is left early. Where it holds, it stands for
// the iteration in which it is.
func (E *Engine) anyOf(L *Loop, c B) B {
	trip := L.trip
	if trip == nil {
		trip = E.intern(&Term{op: "trip", aux: L.key, typ: tInt, args: E.its()})
		return E.bdd.And(c, True)
	}
	b := E.anyIn(L, c, trip, false)
	for _, v := range E.bdd.Support(b) {
		a := E.atoms[v]
		if a.kind == "b" && a.x.op == "any" {
			ax := E.bdd.And(c, E.cmpInt("<", L.it, trip, True))
			E.axioms[v] = E.bdd.And(E.axiomOf(v), E.bdd.Imp(E.bdd.Var(v), ax))
		}
	}
	E.feasC = map[B]bool{}
	E.satC = map[B]bool{}
	return b
}

func (E *Engine) axiomOf(v int32) B {
	if b, ok := E.axioms[v]; ok {
		return b
	}
	return True
}

// sum is the sum of d over the iterations below n, split into its linear parts.
func (E *Engine) sum(L *Loop, d, n *Term) *Term {
	return E.dist([]*Term{n}, func(a []*Term) *Term { return E.sum1(L, d, a[0]) })
}

func (E *Engine) sum1(L *Loop, d, n *Term) *Term {
	i64 := ikind{64, true}
	if m := smallCount(n); m >= 0 {
		r := E.Int(0)
		for i := 0; i < m; i++ {
			r = E.Add(r, E.Subst(d, map[*Term]*Term{L.it: E.Int(int64(i))}), i64)
		}
		return r
	}
	if d.op == "phi" {
		body, k := E.canon(L, d)
		return E.intern(&Term{op: "sum", args: []*Term{n, body, k}, typ: tInt})
	}
	l := asLin(d)
	r := E.Mul(n, E.BigInt(l.k), i64)
	for i, t := range l.at {
		var p *Term
		if !t.inLoop(L.id) {
			p = E.Mul(n, t, i64)
		} else {
			body, k := E.canon(L, t)
			p = E.intern(&Term{op: "sum", args: []*Term{n, body, k}, typ: tInt})
		}
		r = E.Add(r, E.Mul(E.BigInt(l.co[i]), p, i64), i64)
	}
	return r
}

func (E *Engine) collect(L *Loop, x, n *Term, typ types.Type) *Term {
	body, k := E.canon(L, x)
	return E.dist([]*Term{n}, func(a []*Term) *Term {
		return E.intern(&Term{op: "collect", args: []*Term{a[0], body, k}, typ: typ})
	})
}

// smallCount is a number of iterations that is known and small, or -1.
func smallCount(n *Term) int {
	if n.op == "int" && n.k.Sign() >= 0 && n.k.IsInt64() && n.k.Int64() <= 8 {
		return int(n.k.Int64())
	}
	return -1
}

var _ = sort.Ints
