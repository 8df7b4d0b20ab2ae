package main

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Starting a client: what is written to the file, where, and in which order.
//
// Records get their places from channels that hold the next free offset of a
// section: a goroutine takes the offset and puts back the one after its record.
// What is taken is any value (symTokens), so the result does not depend on the
// schedule.

const ruleLayout = "every write is a field of the record of the object it belongs to"

// slot is an allocation in a section.
type slot struct {
	ch       *Term
	rcv, snd *Event
	base     *Term // what was received
	step     *Term // by how much it was increased
	kind     string
	length   int64 // of one record
	n        *Term // records
	acc      []*wacc
}

// wacc is a write at an offset relative to a slot, or absolute if there is none.
type wacc struct {
	e   *Event
	g   B
	off *Term
	s   *slot
	it  *Term // index of the record in the slot, or nil
	c   int64 // offset in the record
	w   *Term // width
}

type tocEntry struct {
	at          int64
	typ         *Term
	count, base *Term
	kind        string
}

type startRun struct {
	*clientRun
	R      *Report
	init   map[*Term]*Term // channel -> first offset
	slots  []*slot
	acc    []*wacc
	toc    []*tocEntry
	toks   map[*Term]*slot
	final  *Event
	unmade []*Event
	wlen   *Term
}

var recLen = map[bool]map[string]int64{
	false: {"indom": 32, "instance": 80, "metric": 104, "value": 32, "string": 256},
	true:  {"indom": 32, "instance": 24, "metric": 48, "value": 32, "string": 256},
}

var tocTypes = map[int64]string{1: "indom", 2: "instance", 3: "metric", 4: "value", 5: "string"}
var sections = []string{"indom", "instance", "metric", "value", "string"}
var countMethods = map[string]string{"indom": "InstanceDomainCount", "instance": "InstanceCount", "metric": "MetricCount", "value": "ValuesCount", "string": "StringCount"}

func (s *startRun) ob(rule, what string, ok bool, e *Event, detail string, args ...interface{}) bool {
	pos := s.P.pos(s.fn.Pos())
	if e != nil {
		pos = s.P.pos(e.pos)
	}
	if !ok {
		detail = fmt.Sprintf(detail, args...) + " (" + s.sc.String() + ")"
	}
	return s.R.Ob(rule, what, ok, pos, "%s", detail)
}

func (s *startRun) has(kind string) bool {
	switch kind {
	case "indom":
		return s.sc.indoms
	case "instance":
		return s.sc.insts
	case "metric":
		return s.sc.metrics
	case "value":
		return s.sc.metrics
	}
	return s.sc.strings
}

// eqIn: two integers are equal wherever g holds.
func (s *startRun) eqIn(a, b *Term, g B) bool {
	if a == b {
		return true
	}
	return s.implies(g, s.Eq(a, b, g))
}

var k64 = ikind{64, true}

func descends(k *clientRun, t, anc int) bool {
	for {
		if t == anc {
			return true
		}
		if t == 0 {
			return false
		}
		t = k.threads[t].parent
	}
}

func loopsPrefix(a, b []*Loop) bool {
	if len(a) > len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// buffered channels hold tokens.
func (s *startRun) collectSlots() {
	s.init = map[*Term]*Term{}
	s.toks = map[*Term]*slot{}
	used := map[*Event]bool{}
	const rule = "every offset taken from the channel of a section is put back, increased by the size of what is written there"
	for i, e := range s.ev {
		if e.kind != "recv" || e.g == False || isUnbuffered(e.loc) || s.never(e.g) {
			continue
		}
		if !isBuffered(e.loc) {
			// no channel was made, so there are no records of the section
			s.unmade = append(s.unmade, e)
			s.toks[e.val] = &slot{rcv: e, base: e.val}
			continue
		}
		var chs []*Term
		for _, l := range leavesOf(e.loc) {
			chs = append(chs, l.t)
		}
		if len(chs) != 1 {
			s.ob(rule, s.at(e), false, e, "receives from one of several channels")
			continue
		}
		sl := &slot{ch: chs[0], rcv: e, base: e.val}
		for _, f := range s.ev[i+1:] {
			if f.kind != "send" || used[f] || f.loc != e.loc && s.Simp(f.loc, e.g) != chs[0] {
				continue
			}
			d := s.Sub(f.val, e.val, k64)
			if s.contains(d, e.val) || !s.implies(e.g, f.g) || !descends(s.clientRun, f.thread, e.thread) || len(f.loops) != len(e.loops) || !loopsPrefix(e.loops, f.loops) {
				continue
			}
			sl.snd, sl.step = f, d
			used[f] = true
			break
		}
		if !s.ob(rule, s.at(e), sl.snd != nil, e, "the offset that is taken is not put back, increased, on every path") {
			continue
		}
		s.slots = append(s.slots, sl)
		s.toks[sl.base] = sl
	}
	for _, e := range s.ev {
		if e.kind != "send" || used[e] || e.g == False || s.never(e.g) {
			continue
		}
		if !isBuffered(e.loc) {
			continue
		}
		ok := e.thread == 0 && len(e.loops) == 0 && s.implies(s.g, e.g) && e.loc.op == "makechan" && s.init[e.loc] == nil
		if s.ob("every channel of a section starts with one offset", s.at(e), ok, e, "another offset is put into a channel of a section") {
			s.init[e.loc] = e.val
		}
	}
}

// at names an event by the function it is in.
func (s *startRun) at(e *Event) string {
	n := s.what()
	if len(e.ctx) > 0 {
		n = e.ctx[0].fn.RelString(nil)
		n = strings.ReplaceAll(n, modPath+".", "")
	}
	return n + ": " + e.kind
}

func (s *startRun) tokensIn(t *Term) []*slot {
	var r []*slot
	s.subterms([]*Term{t}, nil, func(x *Term) {
		if sl := s.toks[x]; sl != nil {
			r = append(r, sl)
		}
	})
	return r
}

func (s *startRun) collectWrites() {
	const rule = "every write of starting a client is to its file, at a place its section provides"
	for _, e := range s.ev {
		if e.kind != "W" || e.g == False {
			continue
		}
		for _, l := range leavesOf(e.args[0]) {
			g := s.bdd.And(e.g, l.g)
			if s.never(g) {
				continue
			}
			a := &wacc{e: e, g: g, off: l.t, w: s.Simp(e.args[1], g)}
			ts := s.tokensIn(l.t)
			switch len(ts) {
			case 0:
				if l.t.op != "int" {
					s.ob(rule, s.at(e), false, e, "%s at %s", e.name, l.t)
					continue
				}
				a.c = l.t.k.Int64()
			case 1:
				a.s = ts[0]
				if a.s.snd == nil {
					continue
				}
				d := s.Sub(l.t, a.s.base, k64)
				ok := false
				switch {
				case d.op == "int":
					a.c, ok = d.k.Int64(), true
				case d.op == "lin" && len(d.args) == 1 && d.coef[0].IsInt64() && d.k.IsInt64():
					for _, lp := range e.loops[len(a.s.rcv.loops):] {
						if lp.it == d.args[0] && lp.trip != nil && s.eqIn(s.Mul(s.BigInt(d.coef[0]), lp.trip, k64), a.s.step, g) {
							a.it, a.c, ok = lp.it, d.k.Int64(), true
						}
					}
				}
				ok = ok && loopsPrefix(a.s.rcv.loops, e.loops) && e.id > a.s.rcv.id && s.implies(g, a.s.rcv.g)
				if !s.ob(rule, s.at(e), ok, e, "%s at %s is not a place in what was allocated there", e.name, l.t) {
					continue
				}
				a.s.acc = append(a.s.acc, a)
			default:
				s.ob(rule, s.at(e), false, e, "%s at %s", e.name, l.t)
				continue
			}
			s.acc = append(s.acc, a)
		}
	}
}

// boxed is the number that a write stores, and its type.
func (s *startRun) boxed(v *Term, g B) (r []Leaf) {
	for _, l := range leavesOf(v) {
		lg := s.bdd.And(l.g, g)
		if s.never(lg) {
			continue
		}
		if l.t.op == "iface" {
			for _, m := range leavesOf(l.t.args[0]) {
				if mg := s.bdd.And(lg, m.g); !s.never(mg) {
					r = append(r, Leaf{mg, s.Iface(l.t.typ, m.t)})
				}
			}
			continue
		}
		r = append(r, Leaf{lg, l.t})
	}
	return r
}

// num: the write stores this number with this width.
func (s *startRun) num(a *wacc, want *Term, width int64) (bool, string) {
	for _, l := range s.boxed(a.e.val, a.g) {
		if l.t.op != "iface" {
			return false, fmt.Sprintf("%s is written, not %s", l.t, want)
		}
		if _, ok := intKind(l.t.typ); !ok || s.P.sizeOf(l.t.typ) != width {
			return false, fmt.Sprintf("a %s is written", l.t.typ)
		}
		w := s.Conv(want, l.t.typ, l.g)
		if !s.eqIn(l.t.args[0], w, l.g) {
			return false, fmt.Sprintf("%s is written, not %s", l.t.args[0], w)
		}
	}
	return true, ""
}

func (P *Program) sizeOf(t types.Type) int64 {
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch b.Kind() {
		case types.Int8, types.Uint8, types.Bool:
			return 1
		case types.Int16, types.Uint16:
			return 2
		case types.Int32, types.Uint32, types.Float32:
			return 4
		case types.Int64, types.Uint64, types.Float64:
			return 8
		}
	}
	return 0
}

// fieldAt: the accesses at an offset of a record, and where they write it.
func fieldAt(acc []*wacc, c int64) (r []*wacc) {
	for _, a := range acc {
		if a.c == c {
			r = append(r, a)
		}
	}
	return r
}

// header checks the fixed part of the file and its table of contents.
func (s *startRun) header() bool {
	const ruleH = "the header has the fields of the MMV format"
	const ruleT = "every section with records has one entry in the table of contents, with its type, number of records and offset"
	var acc []*wacc
	for _, a := range s.acc {
		if a.s == nil {
			acc = append(acc, a)
		}
	}
	covered := func(as []*wacc) bool {
		u := False
		for _, a := range as {
			if len(a.e.loops) == 0 {
				u = s.bdd.Or(u, a.g)
			}
		}
		return s.implies(s.g, u)
	}
	// the header is written once, but for the second generation number
	seen := map[*wacc]bool{}
	one := func(rule, what string, c, width int64, want *Term) *wacc {
		as := fieldAt(acc, c)
		if !s.ob(rule, what, len(as) == 1 && covered(as), ev0(as), "there are %d writes to offset %d", len(as), c) {
			return nil
		}
		seen[as[0]] = true
		if want != nil {
			ok, d := s.num(as[0], want, width)
			if !s.ob(rule, what, ok, as[0].e, "%s", d) {
				return nil
			}
		}
		return as[0]
	}
	ok := true
	tag := fieldAt(acc, 0)
	if s.ob(ruleH, "tag", len(tag) == 1 && covered(tag), ev0(tag), "there are %d writes to offset 0", len(tag)) {
		seen[tag[0]] = true
		v := s.Simp(tag[0].e.val, tag[0].g)
		s.ob(ruleH, "tag", v.op == "iface" && v.args[0].op == "str" && (v.args[0].aux == "MMV" || v.args[0].aux == "MMV\x00"), tag[0].e, "%s is written", v)
	}
	ver := s.Int(1)
	if s.sc.v2 {
		ver = s.Int(2)
	}
	one(ruleH, "version", 4, 4, ver)
	g1 := one(ruleH, "generation 1", 8, 8, nil)
	// second generation number: zero first, then the first one
	g2 := fieldAt(acc, 16)
	sort.SliceStable(g2, func(i, j int) bool { return g2[i].e.id < g2[j].e.id })
	if s.ob(ruleH, "generation 2", len(g2) == 2 && covered(g2[:1]) && covered(g2[1:]), ev0(g2), "there are %d writes to offset 16", len(g2)) {
		seen[g2[0]], seen[g2[1]] = true, true
		z, d := s.num(g2[0], s.Int(0), 8)
		s.ob(ruleH, "generation 2", z, g2[0].e, "it is not zero first: %s", d)
		if g1 != nil {
			v := s.Simp(g1.e.val, g1.g)
			o, d := false, "the first generation number"
			if v.op == "iface" {
				o, d = s.num(g2[1], v.args[0], 8)
				o = o && s.P.sizeOf(v.typ) == 8
				if z := s.bdd.And(g1.g, s.Eq(v.args[0], s.Int(0), g1.g)); v.args[0].op == "int" && !s.never(z) {
					o, d = false, "the generation number is zero"
				}
			}
			s.ob(ruleH, "generation 2", o, g2[1].e, "it is not the first one in the end: %s", d)
		}
		s.final = g2[1].e
	}
	n := int64(0)
	if a := one(ruleH, "number of entries of the table of contents", 24, 4, nil); a != nil {
		v := s.Simp(a.e.val, a.g)
		if s.ob(ruleH, "number of entries of the table of contents", v.op == "iface" && s.P.sizeOf(v.typ) == 4 && v.args[0].op == "int", a.e, "%s is written", v) {
			n = v.args[0].k.Int64()
		} else {
			ok = false
		}
	} else {
		ok = false
	}
	flag := s.field(s.c, "PCPClient", "flag")
	cl := s.field(s.c, "PCPClient", "clusterID")
	var fv, cv *Term
	if flag != nil {
		fv = s.Read(flag, True)
	}
	if cl != nil {
		cv = s.Read(cl, True)
	}
	s.ob(ruleH, "flags and cluster", fv != nil && cv != nil, nil, "the fields of the client are not there")
	one(ruleH, "flags", 28, 4, fv)
	if a := one(ruleH, "process id", 32, 4, nil); a != nil {
		v := s.Simp(a.e.val, a.g)
		pid := false
		s.subterms([]*Term{v}, nil, func(t *Term) { pid = pid || t.op == "call" && strings.Contains(t.aux, "Getpid") })
		s.ob(ruleH, "process id", pid && v.op == "iface" && s.P.sizeOf(v.typ) == 4, a.e, "%s is written", v)
	}
	one(ruleH, "cluster", 36, 4, cv)

	byKind := map[string]*tocEntry{}
	for i := int64(0); i < n; i++ {
		at := 40 + 16*i
		what := fmt.Sprintf("entry %d of the table of contents", i)
		t := one(ruleT, what, at, 4, nil)
		c := one(ruleT, what, at+4, 4, nil)
		b := one(ruleT, what, at+8, 8, nil)
		if t == nil || c == nil || b == nil {
			ok = false
			continue
		}
		tv, cv, bv := s.Simp(t.e.val, t.g), s.Simp(c.e.val, c.g), s.Simp(b.e.val, b.g)
		if !s.ob(ruleT, what, tv.op == "iface" && tv.args[0].op == "int" && s.P.sizeOf(tv.typ) == 4 && cv.op == "iface" && s.P.sizeOf(cv.typ) == 4 && bv.op == "iface" && s.P.sizeOf(bv.typ) == 8, t.e, "%s, %s, %s are written", tv, cv, bv) {
			ok = false
			continue
		}
		kind := tocTypes[tv.args[0].k.Int64()]
		if !s.ob(ruleT, what, kind != "" && byKind[kind] == nil, t.e, "the type is %s", tv) {
			ok = false
			continue
		}
		en := &tocEntry{at: at, typ: tv.args[0], count: cv.args[0], base: bv.args[0], kind: kind}
		byKind[kind] = en
		s.toc = append(s.toc, en)
		cn := s.count(kind)
		if cn == nil {
			ok = false
			continue
		}
		cok, d := s.num(c, cn, 4)
		if !s.ob(ruleT, kind+" entry: number of records", cok, c.e, "%s", d) {
			ok = false
		}
	}
	for _, kind := range sections {
		if s.has(kind) && !s.ob(ruleT, kind+" section", byKind[kind] != nil, nil, "there are %ss, but no entry", kind) {
			ok = false
		}
	}
	for _, a := range acc {
		if !seen[a] {
			ok = s.ob(ruleH, s.at(a.e), false, a.e, "a write to offset %d, which is no field of the header or table of contents", a.c) && ok
		}
	}
	return ok
}

func ev0(as []*wacc) *Event {
	if len(as) > 0 {
		return as[0].e
	}
	return nil
}

// count is what the registry says is the number of records of a kind.
func (s *startRun) count(kind string) *Term {
	rs, err := s.pure("(*PCPRegistry)."+countMethods[kind], s.g, s.r)
	if err != nil {
		s.R.Undecided(s.what(), "%v", err)
		return nil
	}
	return s.Simp(rs[0], s.g)
}

// layout checks that the sections follow each other and fill the file.
func (s *startRun) layout() {
	const rule = "the sections follow each other without gaps or overlaps to the end of the file"
	next := s.Int(40 + 16*int64(len(s.toc)))
	left := append([]*tocEntry(nil), s.toc...)
	for len(left) > 0 {
		found := false
		for i, t := range left {
			if s.has(t.kind) && !s.eqIn(t.base, s.Conv(next, t.base.typ0(), s.g), s.g) {
				continue
			}
			if s.has(t.kind) {
				cn := s.count(t.kind)
				if cn == nil {
					return
				}
				next = s.Add(next, s.Mul(s.Int(recLen[s.sc.v2][t.kind]), cn, k64), k64)
			}
			left = append(left[:i:i], left[i+1:]...)
			found = true
			break
		}
		if !found {
			s.ob(rule, left[0].kind+" section", false, nil, "it is at %s, no section ends there; the one before ends at %s", left[0].base, next)
			return
		}
	}
	for _, t := range s.toc {
		s.ob(rule, t.kind+" section", true, nil, "")
	}
	s.ob(rule, "length of the file", s.wlen != nil && s.eqIn(s.Simp(s.wlen, s.g), s.Simp(next, s.g), s.g), nil, "it is %s, the sections end at %s", s.wlen, next)
}

func (t *Term) typ0() types.Type {
	if t.typ != nil {
		return t.typ
	}
	return types.Typ[types.Uint64]
}

// kinds finds the section each slot is in.
func (s *startRun) kinds() {
	const rule = "what is allocated is whole records of the section that the table of contents has at the offset the channel starts with"
	of := map[*Term][]string{}
	for ch, b := range s.init {
		for _, t := range s.toc {
			if s.has(t.kind) && s.eqIn(s.Conv(b, t.base.typ0(), s.g), t.base, s.g) {
				of[ch] = append(of[ch], t.kind)
			}
		}
		if !s.sc.insts {
			// room for no instances may be taken anywhere
			of[ch] = append(of[ch], "instance")
		}
	}
	for _, sl := range s.slots {
		if !s.ob(rule, s.at(sl.rcv), len(of[sl.ch]) > 0, sl.rcv, "there is no section at %s", s.init[sl.ch]) {
			continue
		}
		ok := false
		k, L := "", int64(0)
		for _, k = range of[sl.ch] {
			L = recLen[s.sc.v2][k]
			if sl.step.op == "int" {
				ok = sl.step.k.Int64() == L
				sl.n = s.Int(1)
			} else if sl.step.op == "lin" && sl.step.k.Sign() == 0 && len(sl.step.args) == 1 && sl.step.coef[0].Cmp(big.NewInt(L)) == 0 {
				ok, sl.n = true, sl.step.args[0]
			}
			if ok {
				break
			}
		}
		for _, a := range sl.acc {
			if (a.it == nil) != (sl.step.op == "int") {
				ok = false
			}
		}
		if s.ob(rule, s.at(sl.rcv)+" of "+k+"s", ok, sl.snd, "%s is allocated, %ss are %d bytes long", sl.step, k, L) {
			sl.kind, sl.length = k, L
		}
	}
}

// eachStart evaluates Start in all scenarios.
func eachStart(P *Program, R *Report, f func(s *startRun)) {
	var mu sync.Mutex
	n := map[string]int{}
	eachClientRun(P, R, "Start", startScenarios(), func(cw *clientWorld) {
		cw.symTokens = true
		cw.custom = func(fn *ssa.Function, args []*Term, g B, fr *frame, in ssa.Instruction) ([]*Term, B, bool) {
			if fn.Name() == "NewMemoryMappedWriter" && fn.Pkg != nil && fn.Pkg.Pkg.Path() == bwPath && len(args) == 2 {
				if cw.fileLen != nil {
					cw.undec("the file is mapped twice")
				}
				cw.fileLen = args[1]
			}
			return nil, False, false
		}
	}, func(k *clientRun) {
		s := &startRun{clientRun: k, R: R}
		// the file may fail to be made
		s.g = k.ok
		if s.never(k.clientWorld.g) {
			return // no registry is like that
		}
		if s.never(s.g) {
			R.Undecided(s.what(), "it never succeeds with %s", s.sc)
			return
		}
		s.collectSlots()
		s.collectWrites()
		s.wlen = k.fileLen
		f(s)
		mu.Lock()
		n["writes"] += len(s.acc)
		n["allocations"] += len(s.slots)
		mu.Unlock()
	})
	R.Count("writes of starting a client", n["writes"])
	R.Count("allocations in sections", n["allocations"])
}

func checkC03(P *Program, R *Report) {
	eachStart(P, R, func(s *startRun) {
		if s.header() {
			s.layout()
			s.kinds()
		}
	})
	R.AtLeast("writes of starting a client", 1000)
}

func init() {
	checks["C03"] = check{"the header and table of contents have the fields of the format with the counts of the registry; sections are chained without gaps to the length of the file; allocations are whole records", checkC03}
}
