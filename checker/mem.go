package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"
)

// memEntry is one write in the log that represents memory. Writes carry their
// path condition, so the log needs no merging where paths join.
type memEntry struct {
	kind   string // store, gen, havoc
	g      B
	loc    *Term
	val    *Term
	vars   []genVar // gen: what it ranges over
	ver    string
	cls    string
	uncond bool  // gen: written in every iteration
	base   B     // gen: where the loop ends normally
	root   *Term // havoc: only locations with this root, nil for all
}

// class partitions locations: those of different classes never alias.
func class(loc *Term) string {
	switch loc.op {
	case "fieldaddr":
		return "f:" + loc.aux
	case "indexaddr":
		return "i:" + typeStr(loc.typ)
	case "mapaddr":
		return "m:" + typeStr(loc.typ)
	case "haddr":
		return "h:" + loc.aux
	case "mlenaddr":
		// maps of different types are different
		if T := loc.args[0].typ; T != nil {
			return "l:" + typeStr(T.Underlying())
		} else if loc.args[0].op != "nil" {
			panic("a map without a type: " + loc.args[0].String())
		}
		return "l:"
	case "ghost":
		return "g:" + loc.aux
	}
	return "p:" + typeStr(loc.typ)
}

func (E *Engine) FieldAddr(base *Term, st types.Type, i int) *Term {
	s := st.Underlying().(*types.Struct)
	f := s.Field(i)
	return E.dist([]*Term{base}, func(a []*Term) *Term {
		return E.intern(&Term{op: "fieldaddr", aux: typeStr(st) + "#" + f.Name(), typ: f.Type(), args: []*Term{a[0]}})
	})
}

func (E *Engine) IndexAddr(base, idx *Term, elem types.Type) *Term {
	return E.dist([]*Term{base, idx}, func(a []*Term) *Term {
		b, i := a[0], a[1]
		for {
			if b.op == "slice" {
				i = E.Add(b.args[1], i, ikind{64, true})
				b = b.args[0]
				continue
			}
			if b.op == "arrayslice" {
				b = b.args[0]
				continue
			}
			break
		}
		if i.op == "phi" || b.op == "phi" {
			return E.IndexAddr(b, i, elem)
		}
		return E.intern(&Term{op: "indexaddr", typ: elem, args: []*Term{b, i}})
	})
}

func (E *Engine) MapAddr(m, k *Term, elem types.Type) *Term {
	return E.dist([]*Term{m, k}, func(a []*Term) *Term {
		return E.intern(&Term{op: "mapaddr", typ: elem, args: []*Term{a[0], a[1]}})
	})
}

func (E *Engine) HasAddr(m, k *Term, elem types.Type) *Term {
	return E.dist([]*Term{m, k}, func(a []*Term) *Term {
		return E.intern(&Term{op: "haddr", aux: typeStr(elem), typ: types.Typ[types.Bool], args: []*Term{a[0], a[1]}})
	})
}

func (E *Engine) MlenAddr(m *Term) *Term {
	return E.dist([]*Term{m}, func(a []*Term) *Term {
		return E.intern(&Term{op: "mlenaddr", typ: types.Typ[types.Int], args: a})
	})
}

func (E *Engine) Ghost(x *Term, name string, typ types.Type) *Term {
	return E.dist([]*Term{x}, func(a []*Term) *Term {
		return E.intern(&Term{op: "ghost", aux: name, typ: typ, args: a})
	})
}

// locEq is the condition that two locations of one class are the same.
func (E *Engine) locEq(a, b *Term) B {
	if a == b {
		return True
	}
	if a.op != b.op {
		if a.op == "alloc" || b.op == "alloc" || a.op == "global" || b.op == "global" {
			c := E.eqLeaf(a, b, True)
			return c
		}
		if class(a) != class(b) {
			return False
		}
		return E.eqLeaf(a, b, True)
	}
	switch a.op {
	case "fieldaddr", "mlenaddr", "ghost":
		if a.aux != b.aux {
			return False
		}
		return E.Eq(a.args[0], b.args[0], True)
	case "indexaddr", "mapaddr", "haddr":
		r := E.Eq(a.args[0], b.args[0], True)
		if r == False {
			return False
		}
		return E.bdd.And(r, E.Eq(a.args[1], b.args[1], True))
	}
	return E.eqLeaf(a, b, True)
}

func locRoot(t *Term) *Term {
	for {
		switch t.op {
		case "fieldaddr", "indexaddr", "mapaddr", "haddr", "mlenaddr", "ghost", "arrayslice", "slice":
			t = t.args[0]
			continue
		}
		return t
	}
}

func isFreshOp(op string) bool {
	return op == "alloc" || op == "makemap" || op == "makeslice" || op == "makechan" || op == "builder" || op == "hasher"
}

// Store writes a value.
func (E *Engine) Store(loc, val *Term, g B) {
	if g == False {
		return
	}
	for _, l := range leavesOf(loc) {
		lg := E.bdd.And(g, l.g)
		if lg == False || !E.feasible(lg) {
			continue
		}
		E.store1(l.t, E.Simp(val, lg), lg)
	}
}

func (E *Engine) store1(loc, val *Term, g B) {
	if st, ok := structOf(loc.typ); ok && !isOpaqueStruct(loc.typ) {
		for i := 0; i < st.NumFields(); i++ {
			E.store1(E.FieldAddr(loc, loc.typ, i), E.FieldOf(val, loc.typ, i), g)
		}
		return
	}
	if at, ok := E.smallArray(loc.typ); ok {
		for _, l := range leavesOf(val) {
			lg := E.bdd.And(g, l.g)
			if lg == False {
				continue
			}
			for i := 0; i < int(at.Len()); i++ {
				E.store1(E.IndexAddr(loc, E.Int(int64(i)), at.Elem()), E.arrayElem(l.t, E.Int(int64(i)), at.Elem()), lg)
			}
		}
		return
	}
	if at, ok := arrayOf(loc.typ); ok {
		if val == E.Zero(loc.typ) && isFreshOp(loc.op) && !E.written(loc) {
			return
		}
		// all elements of a large array
		el := E.IndexAddr(loc, E.Int(0), at.Elem())
		for _, l := range leavesOf(val) {
			if lg := E.bdd.And(g, l.g); lg != False {
				E.mem = append(E.mem, &memEntry{kind: "astore", g: lg, loc: loc, val: l.t, cls: class(el)})
			}
		}
		return
	}
	E.mem = append(E.mem, &memEntry{kind: "store", g: g, loc: loc, val: val, cls: class(loc)})
}

func arrayOf(t types.Type) (*types.Array, bool) {
	if t == nil {
		return nil, false
	}
	at, ok := t.Underlying().(*types.Array)
	return at, ok
}

// smallArray: small arrays are copied element by element.
func (E *Engine) smallArray(t types.Type) (*types.Array, bool) {
	at, ok := arrayOf(t)
	return at, ok && (at.Len() <= 8 || E.globalsRun && at.Len() <= 32)
}

// written: the elements of an array may have been written.
func (E *Engine) written(loc *Term) bool {
	for _, e := range E.mem {
		if locRoot(e.loc) == loc || e.root == loc {
			return true
		}
	}
	return false
}

// arrayElem is an element of an array that is a value.
func (E *Engine) arrayElem(val, i *Term, el types.Type) *Term {
	switch {
	case val == E.Zero(val.typ):
		return E.Zero(el)
	case val.op == "array" && i.op == "int":
		if n := i.k.Int64(); n >= 0 && int(n) < len(val.args) {
			return val.args[n]
		}
	case val.op == "load":
		// the array at a location, as it was
		return E.opaqueLoad(E.IndexAddr(val.args[0], i, el), val.aux)
	}
	return E.typed(E.App("arrayelem", "", el, val, i))
}

func structOf(t types.Type) (*types.Struct, bool) {
	if t == nil {
		return nil, false
	}
	s, ok := t.Underlying().(*types.Struct)
	return s, ok
}

// isOpaqueStruct: structs of other packages are values without parts, unless all of
// these are exported.
func isOpaqueStruct(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok {
		if a, ok2 := t.(*types.Alias); ok2 {
			return isOpaqueStruct(types.Unalias(a))
		}
		return false
	}
	if n.Obj().Pkg() == nil || strings.HasPrefix(n.Obj().Pkg().Path(), modPath) {
		return false
	}
	st, ok := n.Underlying().(*types.Struct)
	if !ok || st.NumFields() == 0 {
		return true
	}
	for i := 0; i < st.NumFields(); i++ {
		if !st.Field(i).Exported() {
			return true
		}
	}
	return false
}

func (E *Engine) FieldOf(x *Term, st types.Type, i int) *Term {
	s := st.Underlying().(*types.Struct)
	return E.dist([]*Term{x}, func(a []*Term) *Term {
		if a[0].op == "struct" && i < len(a[0].args) {
			return a[0].args[i]
		}
		return E.typed(E.intern(&Term{op: "field", aux: s.Field(i).Name(), typ: s.Field(i).Type(), args: a}))
	})
}

// Read gives the value of a location under g.
func (E *Engine) Read(loc *Term, g B) *Term { return E.ReadAt(loc, g, len(E.mem)) }

func (E *Engine) ReadAt(loc *Term, g B, upto int) *Term {
	if g == False {
		return E.intern(&Term{op: "bottom"})
	}
	var out []Leaf
	for _, l := range leavesOf(loc) {
		lg := E.bdd.And(g, l.g)
		if lg == False || !E.feasible(lg) {
			continue
		}
		v := E.read1(l.t, lg, upto)
		out = append(out, Leaf{lg, v})
	}
	return E.Phi(out)
}

func (E *Engine) read1(loc *Term, g B, upto int) *Term {
	if st, ok := structOf(loc.typ); ok && !isOpaqueStruct(loc.typ) {
		args := make([]*Term, st.NumFields())
		for i := range args {
			args[i] = E.read1(E.FieldAddr(loc, loc.typ, i), g, upto)
		}
		return E.intern(&Term{op: "struct", aux: typeStr(loc.typ), typ: loc.typ, args: args})
	}
	if at, ok := E.smallArray(loc.typ); ok {
		args := make([]*Term, at.Len())
		for i := range args {
			args[i] = E.read1(E.IndexAddr(loc, E.Int(int64(i)), at.Elem()), g, upto)
		}
		return E.intern(&Term{op: "array", aux: typeStr(loc.typ), typ: loc.typ, args: args})
	}
	if loc.op == "fv" {
		if c := E.captured(loc); c != nil {
			return c
		}
	}
	cls := class(loc)
	rem := g
	var out []Leaf
	root := locRoot(loc)
	if at, ok := arrayOf(loc.typ); ok {
		return E.readArray(loc, at, root, g, upto)
	}
	for i := upto - 1; i >= 0 && rem != False; i-- {
		e := E.mem[i]
		if e.cls != cls {
			continue
		}
		eg := e.g
		if e.kind == "gen" {
			eg = E.someIteration(e)
		}
		c := E.bdd.And(eg, rem)
		if c == False || !E.feasible(c) {
			continue
		}
		switch e.kind {
		case "store":
			al := E.locEq(e.loc, loc)
			c = E.bdd.And(c, al)
			if c == False || !E.feasible(c) {
				continue
			}
			out = append(out, Leaf{c, E.Simp(e.val, c)})
			rem = E.bdd.And(rem, E.bdd.Not(c))
		case "astore":
			if loc.op != "indexaddr" {
				continue
			}
			c = E.bdd.And(c, E.locEq(e.loc, loc.args[0]))
			if c == False || !E.feasible(c) {
				continue
			}
			out = append(out, Leaf{c, E.arrayElem(e.val, loc.args[1], loc.typ)})
			rem = E.bdd.And(rem, E.bdd.Not(c))
		case "havoc":
			if e.root != nil && !E.mayShareRoot(e.root, root) {
				continue
			}
			if root.op == "collect" && e.root != root {
				continue // what appends collected in a loop is only changed through it
			}
			v := E.opaqueLoad(loc, e.ver)
			out = append(out, Leaf{c, v})
			rem = E.bdd.And(rem, E.bdd.Not(c))
		case "gen":
			if !E.mayShareRoot(locRoot(e.loc), root) {
				continue
			}
			if root.op == "collect" && locRoot(e.loc) != root {
				continue
			}
			if v, cond, ok := E.matchGen(e, loc); ok {
				c = E.bdd.And(c, cond)
				if e.uncond && loc.op == "indexaddr" {
					// whatever holds of the iterations that write, all of them do
					w := *e
					w.g = e.base
					if _, all, ok := E.matchGen(&w, loc); ok {
						out = append(out, Leaf{c, v})
						rem = E.bdd.And(rem, E.bdd.Not(E.bdd.Or(c, E.bdd.And(e.base, all))))
						continue
					}
				}
				if c == False || !E.feasible(c) {
					continue
				}
				out = append(out, Leaf{c, v})
				rem = E.bdd.And(rem, E.bdd.Not(c))
				continue
			}
			if loc.op == "haddr" && e.val != nil && E.varFree(e) {
				// whichever iteration wrote it last, it wrote this
				if v, cond, ok := E.witness(e, loc); ok {
					if w := E.bdd.And(c, cond); w != False && E.feasible(w) {
						out = append(out, Leaf{w, v})
						rem = E.bdd.And(rem, E.bdd.Not(w))
						c = E.bdd.And(c, E.bdd.Not(w))
						if c == False || !E.feasible(c) {
							continue
						}
					}
				}
			}
			if w, ok := E.someWrote(e, loc, upto); ok {
				w = E.bdd.And(c, w)
				if w != False && E.feasible(w) {
					out = append(out, Leaf{w, e.val})
					rem = E.bdd.And(rem, E.bdd.Not(w))
				}
				continue
			}
			out = append(out, Leaf{c, E.opaqueLoad(loc, e.ver)})
			rem = E.bdd.And(rem, E.bdd.Not(c))
		}
		if rem != False && !E.feasible(rem) {
			rem = False
		}
	}
	if rem != False && E.feasible(rem) {
		out = append(out, Leaf{rem, E.initial(loc, root)})
	}
	return E.Phi(out)
}

// readArray is the value of a large array.
func (E *Engine) readArray(loc *Term, at *types.Array, root *Term, g B, upto int) *Term {
	cls := class(E.IndexAddr(loc, E.Int(0), at.Elem()))
	rem := g
	var out []Leaf
	for i := upto - 1; i >= 0 && rem != False; i-- {
		e := E.mem[i]
		if e.cls != cls || !E.mayShareRoot(locRoot(e.loc), root) || e.kind == "havoc" && e.root != nil && !E.mayShareRoot(e.root, root) {
			continue
		}
		c := E.bdd.And(rem, e.g)
		if e.kind == "gen" {
			c = E.bdd.And(rem, E.someIteration(e))
		}
		if c == False || !E.feasible(c) {
			continue
		}
		v := E.opaqueLoad(loc, fmt.Sprintf("mem%d", i))
		if e.kind == "astore" {
			c = E.bdd.And(c, E.locEq(e.loc, loc))
			if c == False || !E.feasible(c) {
				continue
			}
			v = e.val
		}
		out = append(out, Leaf{c, v})
		rem = E.bdd.And(rem, E.bdd.Not(c))
	}
	if rem != False && E.feasible(rem) {
		v := E.opaqueLoad(loc, "")
		if isFreshOp(root.op) {
			v = E.Zero(loc.typ)
		}
		out = append(out, Leaf{rem, v})
	}
	return E.Phi(out)
}

// someIteration is the part of the condition of a generic write that does not
// depend on the iteration.
func (E *Engine) someIteration(e *memEntry) B {
	g := e.g
	for _, v := range E.bdd.Support(g) {
		a := E.atoms[v]
		dep := false
		for _, t := range append([]*Term{a.x, a.y}, a.lin.at...) {
			if t == nil {
				continue
			}
			for _, x := range e.vars {
				dep = dep || E.contains(t, x.v)
			}
		}
		if dep {
			g = E.bdd.Exists(g, v)
		}
	}
	return g
}

func (E *Engine) mayShareRoot(a, b *Term) bool {
	if a == b {
		return true
	}
	if isFreshOp(a.op) && isFreshOp(b.op) {
		return a.op == b.op && a.aux == b.aux
	}
	if isFreshOp(a.op) && E.preexisting(b, a) {
		return false
	}
	if isFreshOp(b.op) && E.preexisting(a, b) {
		return false
	}
	return true
}

func (E *Engine) opaqueLoad(loc *Term, ver string) *Term {
	t := E.intern(&Term{op: "load", aux: ver, typ: loc.typ, args: []*Term{loc}})
	return E.typed(t)
}

// initial is the value of a location before anything was written to it.
func (E *Engine) initial(loc, root *Term) *Term {
	if loc.op == "indexaddr" {
		b := loc.args[0]
		switch b.op {
		case "list":
			if loc.args[1].op == "int" {
				n := int(loc.args[1].k.Int64())
				if n >= 0 && n < len(b.args) {
					return b.args[n]
				}
			}
			if len(b.args) > 0 {
				// one of the elements
				return E.intern(&Term{op: "elem", typ: loc.typ, args: []*Term{b, loc.args[1]}})
			}
		case "collect":
			return E.Subst(b.args[1], map[*Term]*Term{b.args[2]: loc.args[1]})
		case "bytes":
			return E.App("byteat", "", loc.typ, b.args[0], loc.args[1])
		}
	}
	if isFreshOp(root.op) && root.op != "makechan" && root.op != "builder" {
		return E.Zero(loc.typ)
	}
	if loc.op == "mlenaddr" && loc.args[0].op == "nil" {
		return E.Int(0)
	}
	if loc.op == "haddr" && loc.args[0].op == "nil" {
		return E.Bool(False)
	}
	if loc.op == "ghost" && (loc.aux == "chfull" || loc.aux == "wg") {
		return E.Zero(loc.typ)
	}
	v := E.opaqueLoad(loc, "")
	if loc.op == "haddr" && loc.args[1].op == "key" && loc.args[1].args[0] == loc.args[0] {
		return E.Bool(True) // a key of the map
	}
	if E.invariants != nil {
		if w := E.invariants(E, loc, v); w != nil {
			return w
		}
	}
	return v
}

// matchGen resolves a read from what a loop wrote at locations that depend on
// its iteration: it finds the iteration that wrote the location.
func (E *Engine) matchGen(e *memEntry, loc *Term) (*Term, B, bool) {
	if e.loc.op == "indexaddr" && e.loc.args[0].op == "list" {
		return nil, False, false
	}
	return E.matchGen2(e, loc, false)
}

// someWrote is the condition that an iteration wrote a location, if all of them
// wrote, and the same everywhere.
func (E *Engine) someWrote(e *memEntry, loc *Term, upto int) (B, bool) {
	if !e.uncond || e.val == nil || len(e.vars) != 1 || !E.varFree(e) || (loc.op != "mapaddr" && loc.op != "haddr" && loc.op != "indexaddr") {
		return False, false
	}
	for _, o := range E.mem[:upto] {
		if o != e && o.kind == "gen" && o.cls == e.cls && E.mayShareRoot(locRoot(o.loc), locRoot(loc)) {
			return False, false
		}
	}
	v, n := e.vars[0].v, e.vars[0].n
	same := E.Bool(E.locEq(e.loc, loc))
	k := E.bound(E.boundDepth(E.tuple([]*Term{same, n})))
	b := E.Formula(E.Subst(same, map[*Term]*Term{v: k}))
	if b == False {
		return False, true
	}
	return E.atomB(&atom{kind: "b", x: E.intern(&Term{op: "any", args: []*Term{n, E.Bool(b), k}, typ: types.Typ[types.Bool]})}), true
}

// varFree: what a generic write writes is the same in every iteration.
func (E *Engine) varFree(e *memEntry) bool {
	for _, v := range e.vars {
		if E.contains(e.val, v.v) {
			return false
		}
	}
	return true
}

// witness finds an iteration that certainly wrote a location; others may have, too.
func (E *Engine) witness(e *memEntry, loc *Term) (*Term, B, bool) {
	return E.matchGen2(e, loc, true)
}

func (E *Engine) matchGen2(e *memEntry, loc *Term, some bool) (*Term, B, bool) {
	m := &matcher{E: E, e: e, sub: map[*Term]*Term{}, cond: True, some: some}
	if !m.match(e.loc, loc) {
		return nil, False, false
	}
	if m.cond == False {
		return nil, False, true
	}
	for _, v := range e.vars {
		x, ok := m.sub[v.v]
		if !ok {
			return nil, False, false
		}
		if m.keyed[v.v] {
			continue
		}
		n := E.Subst(v.n, m.sub)
		m.cond = E.bdd.AndAll(m.cond, E.cmpInt("<=", E.Int(0), x, True), E.cmpInt("<", x, n, True))
	}
	eg := e.g
	for _, v := range e.vars {
		if m.keyed[v.v] {
			if in := E.cmpInt("<", v.v, v.n, True); in > True {
				eg = E.bdd.Restrict(eg, in)
			}
		}
	}
	cond := E.bdd.And(m.cond, E.SubstB(eg, m.sub))
	if e.val == nil {
		return E.opaqueLoad(loc, e.ver), cond, true
	}
	v := E.Subst(e.val, m.sub)
	for _, g := range e.vars {
		if E.contains(v, g.v) && E.Subst(v, m.sub) != v {
			return nil, False, false
		}
	}
	return v, cond, true
}

type matcher struct {
	E     *Engine
	e     *memEntry
	sub   map[*Term]*Term
	keyed map[*Term]bool
	cond  B
	some  bool // an iteration that matches is enough, there may be others
}

func (m *matcher) free(p *Term) bool {
	for _, v := range m.e.vars {
		if _, bound := m.sub[v.v]; bound {
			continue
		}
		if m.E.contains(p, v.v) {
			return true
		}
	}
	return false
}

func (m *matcher) match(p, t *Term) bool {
	E := m.E
	if len(m.sub) > 0 {
		// what is not bound yet stays, including that of inner loops
		sub := map[*Term]*Term{}
		for _, v := range m.e.vars {
			sub[v.v] = v.v
		}
		for v, x := range m.sub {
			sub[v] = x
		}
		p = E.Subst(p, sub)
	}
	if p == t && !m.free(p) {
		return true
	}
	if !m.free(p) {
		c := E.Eq(p, t, True)
		if p.op == "fieldaddr" || p.op == "indexaddr" || p.op == "mapaddr" || p.op == "haddr" || p.op == "ghost" || p.op == "mlenaddr" {
			c = E.locEq(p, t)
		}
		m.cond = E.bdd.And(m.cond, c)
		return true
	}
	for _, v := range m.e.vars {
		if p == v.v {
			m.sub[v.v] = t
			return true
		}
	}
	if p.op == "lin" {
		for i, a := range p.args {
			for _, v := range m.e.vars {
				if a == v.v && p.coef[i].CmpAbs(bigOne) == 0 {
					rest := E.Sub(p, E.Mul(E.BigInt(p.coef[i]), a, ikind{64, true}), ikind{64, true})
					if E.contains(rest, v.v) || m.free(rest) {
						return false
					}
					x := E.Sub(t, rest, ikind{64, true})
					m.sub[v.v] = E.Mul(E.BigInt(p.coef[i]), x, ikind{64, true})
					return true
				}
			}
		}
		return false
	}
	if p.op == "key" && !m.free(p.args[0]) {
		for _, v := range m.e.vars {
			if p.args[1] == v.v {
				if t.op == "key" && t.aux == p.aux && t.args[0] == p.args[0] {
					m.sub[v.v] = t.args[1]
					return true
				}
				m.sub[v.v] = E.KeyIdx(p, t)
				if m.keyed == nil {
					m.keyed = map[*Term]bool{}
				}
				m.keyed[v.v] = true
				has := E.Read(E.HasAddr(p.args[0], t, mapElem(p)), True)
				m.cond = E.bdd.And(m.cond, E.Formula(has))
				return true
			}
		}
		return false
	}
	if p.op != t.op || p.aux != t.aux || len(p.args) != len(t.args) {
		if isFreshOp(p.op) && (isFreshOp(t.op) || E.preexisting(t, p)) {
			m.cond = False
			return true
		}
		if p.op == "load" && t.op == "load" && p.aux == t.aux && len(p.args) == len(t.args) {
			return m.match(p.args[0], t.args[0])
		}
		return false
	}
	// injective constructors
	switch p.op {
	case "fieldaddr", "indexaddr", "mapaddr", "haddr", "ghost", "mlenaddr", "alloc", "makemap", "makeslice", "makechan", "builder", "hasher", "iface", "tassert":
		for i := range p.args {
			if !m.match(p.args[i], t.args[i]) {
				return false
			}
		}
		return true
	case "load":
		// pointers read from different places may be the same; the same place is the same pointer
		return m.match(p.args[0], t.args[0]) && m.uniqueLoads(p)
	}
	return false
}

// uniqueLoads: whether different locations of this kind never hold the same pointer.
func (m *matcher) uniqueLoads(p *Term) bool {
	return m.some || m.E.injective != nil && m.E.injective(p)
}

// contains reports whether x occurs in t.
func (E *Engine) contains(t, x *Term) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	recB := func(b B) bool {
		for _, v := range E.bdd.Support(b) {
			a := E.atoms[v]
			if a.x != nil && rec(a.x) || a.y != nil && rec(a.y) {
				return true
			}
			for _, t := range a.lin.at {
				if rec(t) {
					return true
				}
			}
		}
		return false
	}
	rec = func(t *Term) bool {
		if t == x {
			return true
		}
		if seen[t] {
			return false
		}
		seen[t] = true
		for _, a := range t.args {
			if rec(a) {
				return true
			}
		}
		for _, l := range t.leaves {
			if rec(l.t) || recB(l.g) {
				return true
			}
		}
		if t.op == "bool" && recB(t.f) {
			return true
		}
		for _, b := range t.bits {
			if recB(b) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

// KeyIdx is the iteration in which a loop over the map of key p comes to key k.
func (E *Engine) KeyIdx(p, k *Term) *Term {
	return E.dist([]*Term{k}, func(a []*Term) *Term {
		if a[0].op == "key" && a[0].aux == p.aux && a[0].args[0] == p.args[0] {
			return a[0].args[1]
		}
		n := len(E.termList)
		t := E.intern(&Term{op: "keyidx", aux: p.aux, typ: types.Typ[types.Int], mapT: p.mapT, args: []*Term{p.args[0], a[0]}})
		if len(E.termList) > n && p.mapT != nil {
			// it is one of the iterations if k is a key
			h := E.Formula(E.Read(E.HasAddr(p.args[0], a[0], p.mapT.Elem()), True))
			rng := E.cmpInt("<", t, E.Read(E.MlenAddr(p.args[0]), True), True)
			for _, v := range E.bdd.Support(rng) {
				E.axioms[v] = E.bdd.And(E.axiomOf(v), E.bdd.Imp(h, rng))
			}
		}
		return t
	})
}

func mapElem(key *Term) types.Type { return key.mapT.Elem() }

// Subst replaces terms in a term.
func (E *Engine) Subst(t *Term, sub map[*Term]*Term) *Term {
	return E.newSubst(sub).term(t)
}

func (E *Engine) SubstB(b B, sub map[*Term]*Term) B {
	return E.newSubst(sub).formula(b)
}

type subst struct {
	E   *Engine
	m   map[*Term]*Term
	tc  map[*Term]*Term
	bc  map[B]B
	ac  map[int32]B
	lps map[int32]bool
}

func (E *Engine) newSubst(m map[*Term]*Term) *subst {
	return &subst{E: E, m: m, tc: map[*Term]*Term{}, bc: map[B]B{}, ac: map[int32]B{}}
}

func (s *subst) term(t *Term) *Term {
	if t == nil {
		return nil
	}
	if r, ok := s.m[t]; ok {
		return r
	}
	if r, ok := s.tc[t]; ok {
		return r
	}
	r := s.build(t)
	s.tc[t] = r
	return r
}

// isBinder: an operator over the iterations of a loop, and its variable.
func isBinder(t *Term) bool {
	return len(t.args) == 3 && t.args[2].op == "it" && t.args[2].aux != "" && t.args[2].aux[0] == '#'
}

// binder replaces in the body of an operator what is free in it, and renames its
// variable if that is free in what is put there.
func (s *subst) binder(t *Term) (body, k *Term) {
	if !isBinder(t) {
		return nil, nil
	}
	E := s.E
	k = t.args[2]
	in := s
	_, own := s.m[k]
	free := false
	for _, v := range s.m {
		free = free || E.freeBound(v)[k]
	}
	if own || free {
		m := map[*Term]*Term{}
		d := E.boundDepth(t)
		for x, v := range s.m {
			if x != k {
				m[x] = v
				if n := E.boundDepth(v); n > d {
					d = n
				}
			}
		}
		if free {
			m[k] = E.bound(d)
			k = E.bound(d)
		}
		in = E.newSubst(m)
	}
	return in.term(t.args[1]), k
}

func (s *subst) build(t *Term) *Term {
	E := s.E
	switch t.op {
	case "int", "str", "float", "nil", "sym", "func", "zero", "global", "bottom":
		return t
	case "bool":
		return E.Bool(s.formula(t.f))
	case "phi":
		var ls []Leaf
		for _, l := range t.leaves {
			ls = append(ls, Leaf{s.formula(l.g), s.term(l.t)})
		}
		return E.Phi(ls)
	case "bv":
		bits := make([]B, len(t.bits))
		for i, b := range t.bits {
			bits[i] = s.formula(b)
		}
		return E.fromBits(bits, t.typ)
	}
	if t.op == "any" {
		r := s.build1(t)
		if r != t {
			s.inherit(t, r)
		}
		return r
	}
	return s.build1(t)
}

// inherit: what an operator over iterations means, it means for what is put in it.
func (s *subst) inherit(t, r *Term) {
	E := s.E
	v := E.singleVar(E.atomB(&atom{kind: "b", x: t}))
	if _, ok := E.axioms[v]; !ok && E.derived[v].m == nil {
		return
	}
	for _, l := range leavesOf(r) {
		if l.t.op == "bool" {
			if w := E.singleVar(l.t.f); w >= 0 && E.atoms[w].x != nil && E.atoms[w].x.op == "any" {
				E.derive(w, v, s.m)
			}
		} else if l.t.op == "any" {
			E.derive(E.singleVar(E.atomB(&atom{kind: "b", x: l.t})), v, s.m)
		}
	}
}

func (E *Engine) derive(w, v int32, m map[*Term]*Term) {
	if _, ok := E.axioms[w]; !ok && E.derived[w].m == nil && w != v {
		E.derived[w] = derivedAxiom{v, m}
	}
}

// derivedAxiom: the axiom of an atom is that of another, with terms replaced.
type derivedAxiom struct {
	v int32
	m map[*Term]*Term
}

// axiom is what an atom implies by definition.
func (E *Engine) axiom(v int32) (B, bool) {
	if a, ok := E.axioms[v]; ok {
		return a, true
	}
	d := E.derived[v]
	if d.m == nil {
		return True, false
	}
	a, _ := E.axiom(d.v)
	E.axioms[v] = True
	a = E.SubstB(a, d.m)
	E.axioms[v] = a
	return a, true
}

func (s *subst) build1(t *Term) *Term {
	E := s.E
	args := make([]*Term, len(t.args))
	same := true
	body, k := s.binder(t)
	for i, a := range t.args {
		switch {
		case k != nil && i == 1:
			args[i] = body
		case k != nil && i == 2:
			args[i] = k
		default:
			args[i] = s.term(a)
		}
		if args[i] != a {
			same = false
		}
	}
	if same {
		return t
	}
	switch t.op {
	case "lin":
		r := E.BigInt(t.k)
		for i, a := range args {
			r = E.Add(r, E.Mul(E.BigInt(t.coef[i]), a, t.ik), t.ik)
		}
		return r
	case "mul":
		return E.Mul(args[0], args[1], ikind{64, true})
	case "iface":
		return E.Iface(t.typ, args[0])
	case "tassert":
		return E.Tassert(args[0], t.typ)
	case "len":
		if t.aux == "w" {
			return E.wlen(args[0])
		}
		return E.Len(args[0])
	case "conv":
		return E.Conv(args[0], t.typ, False)
	case "concat":
		r := E.Str("")
		for _, a := range args {
			r = E.Concat(r, a)
		}
		return r
	case "load":
		if t.aux == "" {
			return E.initialAll(args[0])
		}
		return E.dist(args, func(a []*Term) *Term { return E.opaqueLoad(a[0], t.aux) })
	case "any", "sum":
		if n := smallCount(args[0]); n >= 0 {
			r, f := E.Int(0), False
			for i := 0; i < n; i++ {
				x := E.Subst(args[1], map[*Term]*Term{args[2]: E.Int(int64(i))})
				if t.op == "any" {
					f = E.bdd.Or(f, E.Formula(x))
				} else {
					r = E.Add(r, x, ikind{64, true})
				}
			}
			if t.op == "any" {
				return E.Bool(f)
			}
			return r
		}
	case "indexaddr":
		return E.IndexAddr(args[0], args[1], t.typ)
	case "key":
		return E.dist(args, func(a []*Term) *Term { return E.Key(a[0], t.mapT, t.aux, a[1], t.typ) })
	case "keyidx":
		return E.dist(args, func(a []*Term) *Term {
			return E.KeyIdx(&Term{op: "key", aux: t.aux, mapT: t.mapT, args: []*Term{a[0], nil}}, a[1])
		})
	}
	return E.dist(args, func(a []*Term) *Term {
		n := &Term{op: t.op, aux: t.aux, typ: t.typ, args: append([]*Term(nil), a...), fn: t.fn, mapT: t.mapT, lp: t.own}
		switch t.op {
		case "haddr", "mapaddr", "fieldaddr", "indexaddr", "mlenaddr", "ghost":
			return E.intern(n) // a location, not a value
		}
		return E.typed(E.intern(n))
	})
}

func (E *Engine) initialAll(loc *Term) *Term {
	return E.dist([]*Term{loc}, func(a []*Term) *Term { return E.initial(a[0], locRoot(a[0])) })
}

func (s *subst) formula(b B) B {
	if b <= True {
		return b
	}
	if r, ok := s.bc[b]; ok {
		return r
	}
	n := s.E.bdd.nodes[b]
	a, ok := s.ac[n.v]
	if !ok {
		a = s.atom(s.E.atoms[n.v])
		s.ac[n.v] = a
	}
	r := s.E.bdd.ITE(a, s.formula(n.hi), s.formula(n.lo))
	s.bc[b] = r
	return r
}

func (s *subst) atom(a *atom) B {
	E := s.E
	switch a.kind {
	case "le":
		r := linForm{k: new(big.Int).Neg(a.c)}
		changed := false
		for i, t := range a.lin.at {
			u := s.term(t)
			if u != t {
				changed = true
			}
			if u.op == "phi" {
				// distribute
				f := False
				for _, l := range u.leaves {
					s2 := E.newSubst(map[*Term]*Term{})
					for k, v := range s.m {
						s2.m[k] = v
					}
					s2.m[t] = l.t
					f = E.bdd.Or(f, E.bdd.And(l.g, s2.atom(a)))
				}
				return f
			}
			r = linAdd(r, asLin(u), a.lin.co[i])
		}
		if !changed {
			return E.bdd.Var(a.id)
		}
		return E.le0(r)
	case "eq":
		x, y := s.term(a.x), s.term(a.y)
		if x == a.x && y == a.y {
			return E.bdd.Var(a.id)
		}
		return E.Eq(x, y, True)
	case "istype":
		x := s.term(a.x)
		if x == a.x {
			return E.bdd.Var(a.id)
		}
		return E.IsType(x, a.t)
	case "b":
		x := s.term(a.x)
		if x == a.x {
			return E.bdd.Var(a.id)
		}
		return E.Formula(x)
	case "flt":
		x, y := s.term(a.x), s.term(a.y)
		if x == a.x && y == a.y {
			return E.bdd.Var(a.id)
		}
		r := False
		for _, lx := range leavesOf(x) {
			for _, ly := range leavesOf(y) {
				r = E.bdd.Or(r, E.bdd.AndAll(lx.g, ly.g, E.flt(lx.t, ly.t)))
			}
		}
		return r
	case "nan":
		x := s.term(a.x)
		r := False
		for _, lx := range leavesOf(x) {
			r = E.bdd.Or(r, E.bdd.And(lx.g, E.nan(lx.t)))
		}
		return r
	case "bit":
		x := s.term(a.x)
		if x == a.x {
			return E.bdd.Var(a.id)
		}
		if k, ok := E.kindOf(x); ok {
			bits := E.asBits(x, k)
			if a.n < len(bits) {
				return bits[a.n]
			}
		}
	}
	return E.bdd.Var(a.id)
}

func (e *memEntry) String() string {
	v := ""
	if e.val != nil {
		v = e.val.String()
	}
	return fmt.Sprintf("%s %s := %s", e.kind, e.loc, v)
}
