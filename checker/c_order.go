package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

// The order of what happens when a client starts.

// before: e happens before the end of what precedes f, for f outside of loops.
func (k *clientRun) before(e, f *Event) bool {
	return newHB(k.Engine, k.ev).before(e, f)
}

type hb struct {
	*Engine
	ev   []*Event
	memo map[[2]*Event]bool
}

func newHB(E *Engine, ev []*Event) *hb { return &hb{E, ev, map[[2]*Event]bool{}} }

// before: every execution of e, in any iteration, happens before f; f is in no
// loop that e is not in, and where they are in the same loop it is the same iteration.
func (h *hb) before(e, f *Event) bool {
	key := [2]*Event{e, f}
	if r, ok := h.memo[key]; ok {
		return r
	}
	h.memo[key] = false
	r := h.before0(e, f)
	h.memo[key] = r
	return r
}

func (h *hb) before0(e, f *Event) bool {
	if e.thread == f.thread && (loopsPrefix(f.loops, e.loops) || loopsPrefix(e.loops, f.loops)) {
		return e.id < f.id
	}
	// an event of a parent before the goroutine of f was started
	for t := f.thread; t > 0; t = h.threads[t].parent {
		sp := h.threads[t].spawn
		if sp == nil {
			break
		}
		if sp.thread == e.thread && loopsPrefix(e.loops, f.loops) && e.id < sp.id {
			return true
		}
	}
	for _, d := range h.ev {
		if d.thread != e.thread || d.id <= e.id || !loopsPrefix(d.loops, e.loops) {
			continue
		}
		switch d.kind {
		case "wgdone":
			if !h.implies(e.g, d.g) {
				continue
			}
			for _, w := range h.ev {
				if w.kind != "wgwait" || w.id < d.id || w.loc != d.loc || !h.waits(w) || !h.implies(e.g, w.g) || !loopsPrefix(w.loops, e.loops) {
					continue
				}
				if w == f || h.before(w, f) {
					return true
				}
			}
		case "send":
			if !isUnbuffered(d.loc) || !h.implies(e.g, d.g) {
				continue
			}
			for _, r := range h.ev {
				if r.kind == "recv" && r.loc == d.loc && h.implies(e.g, r.g) && loopsPrefix(r.loops, e.loops) && h.single(d, r) && (r == f || h.before(r, f)) {
					return true
				}
			}
		}
	}
	return false
}

// single: only this is sent to the channel and only this is received from it.
func (h *hb) single(s, r *Event) bool {
	for _, e := range h.ev {
		if (e.kind == "send" || e.kind == "recv") && e != s && e != r && e.loc == s.loc && !h.never(e.g) {
			return false
		}
	}
	return len(s.loops) == len(r.loops)
}

// waits: the wait ends when everything that was announced before it is done.
func (h *hb) waits(w *Event) bool {
	if w.val == nil || !h.implies(w.g, h.cmpInt("==", w.val, h.Int(0), w.g)) {
		return false
	}
	for _, a := range h.ev {
		if a.kind == "wgadd" && a.loc == w.loc && !h.never(a.g) {
			if a.id > w.id {
				return false
			}
			// the counter cannot be zero before it is announced
			ok := a.thread == w.thread
			for t := w.thread; t > 0 && !ok; t = h.threads[t].parent {
				if sp := h.threads[t].spawn; sp != nil && sp.thread == a.thread && a.id < sp.id {
					ok = true
				}
			}
			if !ok {
				return false
			}
		}
		// and what is done was announced before it was started
		if a.kind == "wgdone" && a.loc == w.loc && !h.implies(a.g, h.cmpInt("<=", h.Int(0), a.val, a.g)) {
			return false
		}
	}
	return true
}

// gen2: the writes of the second generation number in the order of evaluation.
func (s *startRun) gen2() []*wacc {
	var r []*wacc
	for _, a := range s.acc {
		if a.s == nil && a.c == 16 {
			r = append(r, a)
		}
	}
	sort.SliceStable(r, func(i, j int) bool { return r[i].e.id < r[j].e.id })
	return r
}

func checkC01(P *Program, R *Report) {
	const ruleZ = "the second generation number is written as zero, once, and as the first generation number, once"
	const ruleL = "every write of starting a client happens before that of the second generation number"
	eachStart(P, R, func(s *startRun) {
		g2 := s.gen2()
		var g1 *wacc
		n1 := 0
		for _, a := range s.acc {
			if a.s == nil && a.c == 8 {
				g1 = a
				n1++
			}
			if a.s == nil && a.c < 24 {
				// nothing else reaches into the generation numbers
				ok := true
				switch {
				case a.c == 8 || a.c == 16:
					ok = s.eqIn(a.w, s.Int(8), a.g)
				case a.c < 8:
					ok = s.implies(a.g, s.cmpInt("<=", s.Add(a.off, a.w, k64), s.Int(8), a.g))
				default:
					ok = false
				}
				s.ob(ruleZ, s.at(a.e), ok, a.e, "%s bytes are written at %d", a.w, a.c)
			}
		}
		ok := len(g2) == 2 && n1 == 1 && s.implies(s.g, g2[0].g) && s.implies(s.g, g2[1].g) && s.implies(s.g, g1.g)
		if !s.ob(ruleZ, "generation 2", ok, ev0(g2), "it is written %d times, and generation 1 %d times", len(g2), n1) {
			return
		}
		z, d := s.num(g2[0], s.Int(0), 8)
		s.ob(ruleZ, "generation 2", z, g2[0].e, "it is not zero first: %s", d)
		v := s.Simp(g1.e.val, g1.g)
		o, d := false, "the first generation number is no number"
		if v.op == "iface" {
			o, d = s.num(g2[1], v.args[0], 8)
		}
		s.ob(ruleZ, "generation 2", o, g2[1].e, "%s", d)
		if v.op == "iface" {
			now := false
			s.subterms([]*Term{v}, nil, func(t *Term) {
				now = now || t.op == "res" || t.op == "call"
			})
			s.ob(ruleZ, "generation 1", now || v.args[0].op == "int" && v.args[0].k.Sign() != 0, g1.e, "it is %s", v)
		}
		f := g2[1].e
		s.ob(ruleL, "the last write is in the goroutine of the caller", f.thread == 0 && len(f.loops) == 0, f, "it is not")
		h := newHB(s.Engine, s.ev)
		for _, e := range s.ev {
			if e.kind != "W" || e == f || s.never(e.g) {
				continue
			}
			s.ob(ruleL, s.at(e)+" "+e.name, h.before(e, f), e, "it does not happen before the last write")
			R.Count("writes ordered before the last", 1)
		}
	})
	R.AtLeast("writes ordered before the last", 1000)
}

// ---------------------------------------------------------------- C25

func chanClass(t *Term) string {
	s := ""
	for _, l := range leavesOf(t) {
		s += l.t.op + ":" + l.t.aux + " "
	}
	return strings.TrimSpace(s)
}

// syncRules decides that what a run waits for comes.
func (s *startRun) syncRules() {
	const ruleW = "a wait ends: exactly as many completions as are announced, before the wait, come"
	const ruleC = "everything sent without a buffer is received once, in the order it is sent, and not after waiting for the sender"
	const ruleN = "nothing is received from a channel that was not made"
	const ruleH = "what is waited for with an offset or a lock taken does not wait for that"
	h := newHB(s.Engine, s.ev)
	for _, e := range s.unmade {
		s.ob(ruleN, s.at(e), !s.sc.strings, e, "the channel was not made though there are records")
	}
	for _, e := range s.ev {
		if s.never(e.g) {
			continue
		}
		switch e.kind {
		case "wgwait":
			s.ob(ruleW, s.at(e), h.waits(e), e, "%s completions are missing, or announced too late", e.val)
			s.R.Count("waits", 1)
		case "wgdone":
			s.ob(ruleW, s.at(e), s.implies(e.g, s.cmpInt("<=", s.Int(0), e.val, e.g)), e, "more are done than announced: %s", e.val)
		case "wgadd":
			n := 0
			for _, w := range s.ev {
				if w.kind == "wgwait" && w.loc == e.loc {
					n++
				}
			}
			s.ob(ruleW, s.at(e), n > 0, e, "nobody waits for them")
		}
	}
	// messages
	type pair struct{ snd, rcv *Event }
	var ps []pair
	for _, e := range s.ev {
		if (e.kind != "send" && e.kind != "recv") || !isUnbuffered(e.loc) || s.never(e.g) {
			continue
		}
		n, m := 0, 0
		var o *Event
		for _, f := range s.ev {
			if f.loc == e.loc && (f.kind == "send" || f.kind == "recv") && !s.never(f.g) {
				if f.kind == e.kind {
					n++
				} else {
					m++
					o = f
				}
			}
		}
		ok := n == 1 && m == 1 && len(e.loops) == len(o.loops) && loopsPrefix(e.loops, o.loops) && s.implies(e.g, o.g) && s.implies(o.g, e.g) && e.thread != o.thread
		s.ob(ruleC, s.at(e), ok, e, "it is sent %d times and received %d times", n, m)
		if ok && e.kind == "send" {
			ps = append(ps, pair{e, o})
		}
	}
	for _, p := range ps {
		for _, q := range ps {
			if p != q && p.snd.thread == q.snd.thread && p.rcv.thread == q.rcv.thread && p.snd.id < q.snd.id {
				s.ob(ruleC, s.at(q.rcv), p.rcv.id < q.rcv.id, q.rcv, "it is received before what is sent before it")
			}
		}
		// the receiver does not wait before for what the sender does after
		for _, w := range s.ev {
			if w.kind == "wgwait" && w.thread == p.rcv.thread && w.id < p.rcv.id && s.sat(s.bdd.And(w.g, p.rcv.g)) {
				for _, d := range s.ev {
					if d.kind == "wgdone" && d.loc == w.loc && (d.thread == p.snd.thread && d.id > p.snd.id || d.thread != p.snd.thread && descends(s.clientRun, p.snd.thread, d.thread) && !h.before(d, p.snd)) {
						s.ob(ruleC, s.at(p.rcv), false, w, "it waits for the sender before it receives what is sent")
					}
				}
			}
		}
	}
	// holding one thing while waiting for another
	edges := map[string]map[string]*Event{}
	edge := func(a, b string, e *Event) {
		if edges[a] == nil {
			edges[a] = map[string]*Event{}
		}
		if edges[a][b] == nil {
			edges[a][b] = e
		}
	}
	for _, e := range s.ev {
		if s.never(e.g) {
			continue
		}
		w := ""
		switch e.kind {
		case "recv":
			w = "channel " + chanClass(e.loc)
		case "lock", "rlock":
			w = "lock " + lockClass(e.loc)
		case "wgwait":
			w = "wait"
		default:
			continue
		}
		for _, hl := range e.held {
			if s.never(s.bdd.And(hl.g, e.g)) {
				continue
			}
			if w == "wait" || e.kind == "recv" && isUnbuffered(e.loc) {
				// nobody that is waited for takes the lock
				bad := false
				for _, f := range s.ev {
					if (f.kind == "lock" || f.kind == "rlock") && f.thread != e.thread && descends(s.clientRun, f.thread, e.thread) && lockClass(f.loc) == lockClass(hl.loc) && s.sat(s.bdd.AndAll(f.g, e.g)) && !s.never(s.locEq(f.loc, hl.loc)) && (hl.write || f.kind == "lock") {
						bad = true
					}
				}
				s.ob(ruleH, s.at(e), !bad, e, "a goroutine that is waited for needs %s", lockClass(hl.loc))
				continue
			}
			edge("lock "+lockClass(hl.loc), w, e)
		}
		for _, sl := range s.slots {
			if e.id <= sl.rcv.id || e.id >= sl.snd.id || e == sl.rcv {
				continue
			}
			on := e.thread == sl.rcv.thread || descends(s.clientRun, e.thread, sl.rcv.thread) && descends(s.clientRun, sl.snd.thread, e.thread)
			if !on || !s.sat(s.bdd.And(e.g, sl.rcv.g)) {
				continue
			}
			if e.thread == sl.rcv.thread && sl.snd.thread != sl.rcv.thread {
				// the goroutine that puts it back was started already
				if sp := s.threads[sl.snd.thread].spawn; sp != nil && sp.thread == e.thread && sp.id < e.id {
					continue
				}
			}
			if w == "wait" || e.kind == "recv" && isUnbuffered(e.loc) {
				s.ob(ruleH, s.at(e), false, e, "it waits with an offset taken")
				continue
			}
			edge("channel "+chanClass(sl.ch), w, e)
		}
	}
	var cyc func(a string, on map[string]bool, path []string) []string
	cyc = func(a string, on map[string]bool, path []string) []string {
		if on[a] {
			return append(path, a)
		}
		on[a] = true
		defer delete(on, a)
		for b := range edges[a] {
			if r := cyc(b, on, append(path, a)); r != nil {
				return r
			}
		}
		return nil
	}
	for a := range edges {
		for b, e := range edges[a] {
			c := cyc(a, map[string]bool{}, nil)
			s.ob(ruleH, fmt.Sprintf("%s before %s", short(a), short(b)), c == nil || !contains(c, a), e, "%v", c)
		}
	}
}

func short(s string) string {
	if i := strings.LastIndex(s, ">"); i >= 0 {
		return strings.Fields(s)[0] + " of " + s[i+1:]
	}
	return s
}

func contains(ss []string, x string) bool {
	for _, s := range ss {
		if s == x {
			return true
		}
	}
	return false
}

// ---------------------------------------------------------------- C06

// updates: the functions that starting leaves behind write the slot of their value.
func (s *startRun) updates() {
	const rule = "the function that updates a value writes its own slot, with the width of its type, and nothing else"
	const ruleS = "starting a client connects every value with its slot"
	objs := map[*slot]*object{}
	inv := s.g
	for _, sl := range s.slots {
		if sl.kind != "value" || s.never(sl.rcv.g) {
			continue
		}
		if o := s.objectOf(sl); o != nil {
			objs[sl] = o
			inv = s.bdd.And(inv, o.inv)
		}
	}
	var stores []*Event
	for _, e := range s.ev {
		if e.kind != "store" {
			continue
		}
		for _, l := range leavesOf(e.loc) {
			if l.t.op != "fieldaddr" || l.t.typ == nil {
				continue
			}
			sig, ok := l.t.typ.Underlying().(*types.Signature)
			g := s.bdd.And(e.g, l.g)
			if ok && sig.Params().Len() == 1 && sig.Results().Len() == 1 && !s.never(s.bdd.And(g, inv)) {
				f := *e
				f.loc, f.g = l.t, g
				stores = append(stores, &f)
			}
		}
	}
	used := map[*Event]bool{}
	for _, sl := range s.slots {
		o := objs[sl]
		if o == nil {
			continue
		}
		cell, _ := s.cell(o.m, s.sc.mtype, o.inst)
		if cell == nil || cell.op != "fieldaddr" {
			s.R.Undecided(s.what(), "no value of %s", s.sc.mtype)
			continue
		}
		g := s.bdd.And(sl.rcv.g, inv)
		what := s.sc.mtype
		u := False
		for _, e := range stores {
			if !loopsPrefix(sl.rcv.loops, e.loops) {
				continue
			}
			// the same object as the value
			base := e.loc.args[0]
			eg := s.bdd.And(e.g, g)
			if s.never(eg) || !s.implies(eg, s.Eq(base, s.Simp(cell, eg).args[0], eg)) {
				continue
			}
			used[e] = true
			u = s.bdd.Or(u, e.g)
			s.update1(rule, what, sl, o, e, eg)
		}
		s.ob(ruleS, what, s.implies(g, u), sl.rcv, "there is a value that is not connected with its slot")
		s.R.Count("values connected", 1)
	}
	for _, e := range stores {
		if !used[e] && s.sc.insts {
			s.ob(ruleS, s.at(e), false, e, "%s is connected with a slot of something else", e.loc)
		}
	}
}

func (s *startRun) update1(rule, what string, sl *slot, o *object, st *Event, g B) {
	isStr := s.isString(o)
	for _, mt := range tMetricTypes {
		str := mt == "StringType"
		T := goTypeOf(mt)
		t := s.method(o.m, o.m.typ, "Type")
		mg := s.bdd.And(g, s.Eq(t, s.BigInt(s.P.constVal(modPath, mt)), g))
		if s.never(mg) {
			continue
		}
		x := s.Sym("new", T)
		if str {
			mg = s.bdd.And(mg, s.cmpInt("<=", s.Len(x), s.Int(255), True))
		}
		mst := s.saveState()
		n0, u0 := len(s.events), len(s.undecided)
		_, rg := s.callValue(nil, s.Simp(st.val, mg), st.loc.typ.Underlying().(*types.Signature), []*Term{s.Iface(T, x)}, s.fn.Blocks[0].Instrs[0], mg)
		ev := append([]*Event(nil), s.events[n0:]...)
		s.restoreState(mst)
		if len(s.undecided) > u0 {
			s.R.Undecided(what, "%s", s.undecided[u0])
			continue
		}
		s.ob(rule, what, s.implies(mg, rg), st, "it does not return for %s", mt)
		want := s.Iface(T, x)
		wrote, cleared := False, False
		for _, e := range ev {
			if s.never(e.g) {
				continue
			}
			switch e.kind {
			case "store", "mapstore":
				if !isFreshRoot(e.loc) {
					s.ob(rule, what, false, e, "%s is changed", e.loc)
				}
				continue
			case "W":
			default:
				continue
			}
			for _, l := range leavesOf(e.args[0]) {
				eg := s.bdd.And(e.g, l.g)
				if s.never(eg) {
					continue
				}
				ts := s.tokensIn(l.t)
				var d *Term
				if len(ts) == 1 {
					d = s.Sub(l.t, ts[0].base, k64)
				}
				ok := d != nil && isZero(d)
				if ok && str {
					ok = ts[0].kind == "string" && s.refersTo(sl, ts[0], isStr) || ts[0].snd == nil && !s.sc.strings
				} else if ok {
					ok = ts[0] == sl
				}
				if !s.ob(rule, what+" "+mt, ok, e, "it writes at %s", l.t) {
					continue
				}
				if allRaw(e.val) {
					// clears the block of the string before
					w := s.eqIn(e.args[1], s.Int(256), eg)
					s.ob(rule, what+" "+mt, str && w && s.zeroBytes(e, eg) && s.never(s.bdd.And(wrote, eg)), e, "%s bytes are written besides the value", e.args[1])
					cleared = s.bdd.Or(cleared, eg)
					continue
				}
				v := s.implies(eg, s.sameVal(e.val, want, eg))
				if str {
					v = v && s.implies(eg, cleared)
				} else {
					v = v && s.eqIn(e.args[1], s.Int(s.P.sizeOf(T)), eg)
				}
				s.ob(rule, what+" "+mt, v, e, "%s is written with %s bytes, not the new value with %d", e.val, e.args[1], s.P.sizeOf(T))
				wrote = s.bdd.Or(wrote, eg)
			}
		}
		s.ob(rule, what+" "+mt, s.implies(mg, wrote), st, "the value is not written in all cases")
		s.R.Count("updates of a slot", 1)
	}
}

func isFreshRoot(loc *Term) bool {
	return isFreshOp(locRoot(loc).op) || locRoot(loc).op == "arrayslice"
}

// zeroBytes: what is written are zeros.
func (s *startRun) zeroBytes(e *Event, g B) bool {
	for _, l := range leavesOf(e.val) {
		if s.never(s.bdd.And(l.g, g)) {
			continue
		}
		i := s.Sym("i", types.Typ[types.Int])
		v := s.ReadAt(s.IndexAddr(l.t.args[0], i, types.Typ[types.Byte]), g, e.memAt)
		if !(v.op == "int" && v.k.Sign() == 0) && !(v.op == "zero") {
			return false
		}
	}
	return true
}

// refersTo: the value record refers to the string block.
func (s *startRun) refersTo(sl, str *slot, g B) bool {
	for _, a := range sl.acc {
		if a.c == 8 {
			for _, l := range s.boxed(a.e.val, s.bdd.And(a.g, g)) {
				ts := s.tokensIn(l.t)
				if len(ts) != 1 || ts[0] != str {
					return false
				}
			}
			return true
		}
	}
	return false
}

func init() {
	checks["C01"] = check{"happens-before over the writes of a starting client, from goroutines joined by wait groups and messages; the second generation number is written zero first and equal to the first one last", checkC01}
	checks["C06"] = check{"the functions stored while starting are evaluated for a new value of each type; what they write is compared with the slot of the value they are stored for", func(P *Program, R *Report) {
		eachStart(P, R, func(s *startRun) {
			if s.header() {
				s.kinds()
				s.updates()
			}
		})
		R.AtLeast("values connected", 40)
		R.AtLeast("updates of a slot", 40)
	}}
	checks["C25"] = check{"wait groups, offset channels, messages and locks of starting a client: completions equal announcements, offsets are put back, no cycle of waiting", func(P *Program, R *Report) {
		eachStart(P, R, func(s *startRun) { s.syncRules() })
		R.AtLeast("waits", 300)
	}}
}
