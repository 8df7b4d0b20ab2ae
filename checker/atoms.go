package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"
)

// atom is an elementary condition. Guards are BDDs over atoms.
type atom struct {
	id   int32
	kind string // le, eq, istype, b, flt, nan, bit, ex
	x, y *Term
	t    types.Type
	n    int
	lin  linForm // le: lin (without constant) <= c
	c    *big.Int
	loop []int32 // extra loop dependencies
	key  string
}

func (a *atom) lp() []int32 {
	m := map[int32]bool{}
	add := func(t *Term) {
		if t != nil {
			for _, l := range t.lp {
				m[l] = true
			}
		}
	}
	add(a.x)
	add(a.y)
	for _, t := range a.lin.at {
		add(t)
	}
	for _, l := range a.loop {
		m[l] = true
	}
	var r []int32
	for l := range m {
		r = append(r, l)
	}
	sortInt32(r)
	return r
}

func (E *Engine) atomKey(a *atom) string {
	var b strings.Builder
	b.WriteString(a.kind)
	if a.x != nil {
		fmt.Fprintf(&b, "|%d", a.x.id)
	}
	if a.y != nil {
		fmt.Fprintf(&b, "|%d", a.y.id)
	}
	if a.t != nil {
		b.WriteString("|" + typeStr(a.t))
	}
	fmt.Fprintf(&b, "|%d", a.n)
	if a.kind == "le" {
		b.WriteString("|" + linKey(a.lin) + "|" + a.c.String())
	}
	return b.String()
}

func linKey(l linForm) string {
	var b strings.Builder
	for i, t := range l.at {
		fmt.Fprintf(&b, "%s*%d,", l.co[i], t.id)
	}
	return b.String()
}

func (E *Engine) atomB(a *atom) B {
	k := E.atomKey(a)
	if id, ok := E.atomIdx[k]; ok {
		return E.bdd.Var(id)
	}
	a.id = int32(len(E.atoms))
	a.key = k
	E.atoms = append(E.atoms, a)
	E.atomIdx[k] = a.id
	return E.bdd.Var(a.id)
}

func (E *Engine) boolAtom(t *Term) B {
	if t.op == "bool" {
		return t.f
	}
	return E.atomB(&atom{kind: "b", x: t})
}

var bigOne = big.NewInt(1)

// le0 is the condition l <= 0 over the integers.
func (E *Engine) le0(l linForm) B {
	if len(l.at) == 0 {
		return boolB(l.k.Sign() <= 0)
	}
	if len(l.at) == 1 && l.at[0].op != "sym" {
		// co*x + k <= 0
		c, k := l.co[0], new(big.Int).Neg(l.k)
		if c.Sign() > 0 { // x <= floor(-k/co)
			if r, ok := E.narrowLe(l.at[0], floorDiv(k, c)); ok {
				return r
			}
		} else if c.Sign() < 0 { // x >= ceil(k/-co) = -floor(-k/-co)
			lo := new(big.Int).Neg(floorDiv(k, new(big.Int).Neg(c)))
			if r, ok := E.narrowLe(l.at[0], lo.Sub(lo, bigOne)); ok {
				return E.bdd.Not(r)
			}
		}
	}
	g := new(big.Int).Abs(l.co[0])
	for _, c := range l.co[1:] {
		g.GCD(nil, nil, g, new(big.Int).Abs(c))
	}
	neg := l.co[0].Sign() < 0
	n := linForm{at: l.at, k: big.NewInt(0)}
	for _, c := range l.co {
		d := new(big.Int).Quo(c, g)
		if neg {
			d.Neg(d)
		}
		n.co = append(n.co, d)
	}
	// g*S + k <= 0  <=>  S <= floor(-k/g)
	c := floorDiv(new(big.Int).Neg(l.k), g)
	if neg {
		// -S <= c  <=>  S >= -c  <=>  not S <= -c-1
		c = new(big.Int).Sub(new(big.Int).Neg(c), bigOne)
	}
	lo, hi := E.linRange(n)
	var r B
	switch {
	case hi != nil && hi.Cmp(c) <= 0:
		r = True
	case lo != nil && lo.Cmp(c) > 0:
		r = False
	default:
		r = E.atomB(&atom{kind: "le", lin: n, c: c})
	}
	if neg {
		return E.bdd.Not(r)
	}
	return r
}

func floorDiv(a, b *big.Int) *big.Int {
	q, m := new(big.Int), new(big.Int)
	q.DivMod(a, b, m) // Euclidean, b > 0
	return q
}

type linCase struct {
	g B
	l linForm
}

// intCases gives the value of an integer as exact linear forms, each under a
// condition: machine arithmetic is resolved to arithmetic of the integers.
func (E *Engine) intCases(t *Term, g B) []linCase {
	var out []linCase
	for _, l := range leavesOf(t) {
		gg := E.bdd.And(l.g, g)
		if gg == False {
			continue
		}
		for _, c := range E.leafCases(l.t, gg, 0) {
			out = append(out, linCase{E.bdd.And(l.g, c.g), c.l})
		}
	}
	return out
}

func (E *Engine) leafCases(t *Term, g B, depth int) []linCase {
	switch t.op {
	case "int":
		return []linCase{{True, linForm{k: t.k}}}
	case "phi":
		return E.intCases(t, g)
	case "conv":
		if depth < 4 {
			to, ok1 := intKind(t.typ)
			if fk, ok2 := E.kindOf(t.args[0]); ok1 && ok2 {
				var out []linCase
				for _, c := range E.leafCases(t.args[0], g, depth+1) {
					lo, hi := E.linRange(c.l)
					if lo == nil || hi == nil {
						lo, hi = fk.min(), fk.max()
					}
					cs, ok := E.wrapInto(c.l, lo, hi, to, E.bdd.And(g, c.g))
					if !ok {
						return []linCase{{True, asLin(t)}}
					}
					for _, w := range cs {
						out = append(out, linCase{E.bdd.And(c.g, w.g), w.l})
					}
				}
				return out
			}
		}
	case "lin":
		// expand the atoms first
		acc := []linCase{{True, linForm{k: t.k}}}
		for i, a := range t.args {
			cs := []linCase{{True, asLin(a)}}
			if depth < 4 && (a.op == "conv" || a.op == "phi" || a.op == "lin") {
				cs = E.leafCases(a, g, depth+1)
			}
			var next []linCase
			for _, p := range acc {
				for _, c := range cs {
					pg := E.bdd.And(p.g, c.g)
					if E.bdd.And(pg, g) == False {
						continue
					}
					next = append(next, linCase{pg, linAdd(p.l, c.l, t.coef[i])})
				}
			}
			acc = next
		}
		if t.ik.bits == 0 {
			return acc // arithmetic of the integers
		}
		var out []linCase
		for _, p := range acc {
			lo, hi := E.linRange(p.l)
			if lo == nil || hi == nil {
				return []linCase{{True, asLin(E.intern(&Term{op: "wrap", args: []*Term{t}, typ: kindType(t.ik)}))}}
			}
			cs, ok := E.wrapInto(p.l, lo, hi, t.ik, E.bdd.And(g, p.g))
			if !ok {
				return []linCase{{True, asLin(E.intern(&Term{op: "wrap", args: []*Term{t}, typ: kindType(t.ik)}))}}
			}
			for _, w := range cs {
				out = append(out, linCase{E.bdd.And(p.g, w.g), w.l})
			}
		}
		return out
	}
	return []linCase{{True, asLin(t)}}
}

func kindType(k ikind) types.Type {
	m := map[ikind]types.Type{{64, true}: types.Typ[types.Int], {64, false}: types.Typ[types.Uint64], {32, true}: types.Typ[types.Int32],
		{32, false}: types.Typ[types.Uint32], {16, true}: types.Typ[types.Int16], {16, false}: types.Typ[types.Uint16], {8, true}: types.Typ[types.Int8], {8, false}: types.Typ[types.Uint8]}
	return m[k]
}

// wrapInto resolves a form with the given range into a machine kind.
func (E *Engine) wrapInto(l linForm, lo, hi *big.Int, ik ikind, g B) ([]linCase, bool) {
	if lo.Cmp(ik.min()) >= 0 && hi.Cmp(ik.max()) <= 0 {
		return []linCase{{True, l}}, true
	}
	m := new(big.Int).Lsh(bigOne, uint(ik.bits))
	var out []linCase
	for k := int64(-1); k <= 1; k++ {
		s := linForm{l.at, l.co, new(big.Int).Add(l.k, new(big.Int).Mul(m, big.NewInt(k)))}
		slo, shi := new(big.Int).Add(lo, new(big.Int).Mul(m, big.NewInt(k))), new(big.Int).Add(hi, new(big.Int).Mul(m, big.NewInt(k)))
		if shi.Cmp(ik.min()) < 0 || slo.Cmp(ik.max()) > 0 {
			continue
		}
		// min <= s <= max
		c := E.bdd.And(
			E.le0(linAdd(linForm{k: ik.min()}, s, big.NewInt(-1))),
			E.le0(linAdd(s, linForm{k: ik.max()}, big.NewInt(-1))))
		if E.bdd.And(c, g) == False || !E.feasible(E.bdd.And(c, g)) {
			continue
		}
		out = append(out, linCase{c, s})
	}
	two := new(big.Int).Mul(m, big.NewInt(2))
	if lo.Cmp(new(big.Int).Sub(ik.min(), two)) < 0 && lo.Cmp(new(big.Int).Sub(ik.min(), m)) < 0 ||
		hi.Cmp(new(big.Int).Add(ik.max(), m)) > 0 {
		// more than one wrap is possible unless the guard excludes it
		below := E.le0(linAdd(l, linForm{k: new(big.Int).Sub(new(big.Int).Sub(ik.min(), m), bigOne)}, big.NewInt(-1)))
		above := E.le0(linAdd(linForm{k: new(big.Int).Add(new(big.Int).Add(ik.max(), m), bigOne)}, l, big.NewInt(-1)))
		if E.feasible(E.bdd.And(g, E.bdd.Or(below, above))) {
			return nil, false
		}
	}
	if len(out) == 1 {
		out[0].g = True
	}
	return out, len(out) > 0
}

// cmpInt is the condition a op b over integers; op is "<=", "<" or "==".
func (E *Engine) cmpInt(op string, a, b *Term, g B) B {
	r := False
	for _, p := range E.intCases(a, g) {
		for _, q := range E.intCases(b, E.bdd.And(g, p.g)) {
			pg := E.bdd.And(p.g, q.g)
			if E.bdd.And(pg, g) == False {
				continue
			}
			d := linAdd(p.l, q.l, big.NewInt(-1))
			var c B
			switch op {
			case "<=":
				c = E.le0(d)
			case "<":
				c = E.le0(linForm{d.at, d.co, new(big.Int).Add(d.k, bigOne)})
			case "==":
				c = E.eq0(d)
			}
			r = E.bdd.Or(r, E.bdd.And(pg, c))
		}
	}
	return r
}

func (E *Engine) eq0(d linForm) B {
	neg := linAdd(linForm{k: big.NewInt(0)}, d, big.NewInt(-1))
	return E.bdd.And(E.le0(d), E.le0(neg))
}

// leConst is the condition x <= c.
func (E *Engine) leConst(x *Term, ik ikind, c *big.Int, g B) B {
	return E.cmpInt("<=", x, E.BigInt(c), g)
}

// Eq is the condition that two values of the same type are equal.
func (E *Engine) Eq(a, b *Term, g B) B {
	r := False
	for _, la := range leavesOf(a) {
		for _, lb := range leavesOf(b) {
			gg := E.bdd.AndAll(la.g, lb.g)
			if E.bdd.And(gg, g) == False {
				continue
			}
			r = E.bdd.Or(r, E.bdd.And(gg, E.eqLeaf(la.t, lb.t, E.bdd.And(gg, g))))
		}
	}
	return r
}

func isConstTerm(t *Term) bool {
	switch t.op {
	case "int", "str", "float", "nil", "func":
		return true
	}
	return false
}

// isAddr: terms that are locations; their type is that of what is there.
func isAddr(t *Term) bool {
	switch t.op {
	case "alloc", "fieldaddr", "indexaddr", "global", "mapaddr", "haddr", "mlenaddr":
		return true
	}
	return false
}

func (E *Engine) isInt(t *Term) bool {
	if t.op == "int" || t.op == "lin" {
		return true
	}
	if t.op == "iface" || isAddr(t) {
		return false
	}
	_, ok := intKind(t.typ)
	return ok
}

func nonNil(t *Term) bool {
	switch t.op {
	case "alloc", "iface", "func", "closure", "makeslice", "makemap", "makechan", "global", "fieldaddr", "indexaddr", "err", "builder", "hasher", "collect", "arrayslice":
		return true
	}
	return false
}

// narrowLe is the condition x <= k for a value of few bits.
func (E *Engine) narrowLe(x *Term, k *big.Int) (B, bool) {
	if x.op == "conv" && E.isInt(x) && E.isInt(x.args[0]) && x.args[0].op == "bv" {
		// conversions to wider types keep the value
		ik, ok := intKind(x.typ)
		jk, ok2 := intKind(x.args[0].typ)
		if ok && ok2 && ik.min().Cmp(jk.min()) <= 0 && ik.max().Cmp(jk.max()) >= 0 {
			x = x.args[0]
		}
	}
	if x.op != "bv" {
		return False, false
	}
	ik, ok := intKind(x.typ)
	if !ok {
		return False, false
	}
	distinct := map[B]bool{}
	for _, v := range x.bits {
		distinct[v] = true
	}
	if len(distinct) > 8 {
		return False, false
	}
	if k.Cmp(ik.min()) < 0 {
		return False, true
	}
	if k.Cmp(ik.max()) >= 0 {
		return True, true
	}
	d := E.bdd
	y := E.asBits(E.BigInt(k), ik)
	r := True
	for i := range x.bits {
		u, v := x.bits[i], y[i]
		if i == len(x.bits)-1 && ik.signed {
			u, v = v, u // the sign
		}
		// u < v, or the same and the lower bits decide
		r = d.Or(d.And(d.Not(u), v), d.And(d.Not(d.Xor(u, v)), r))
	}
	return r, true
}

// bitsKind: integers that are compared bit by bit.
func bitsKind(a, b *Term) (ikind, bool) {
	if b.op == "bv" && a.op == "int" {
		a, b = b, a
	}
	if a.op != "bv" || (b.op != "int" && b.op != "bv") {
		return ikind{}, false
	}
	ik, ok := intKind(a.typ)
	if ok && b.op == "bv" {
		k2, ok2 := intKind(b.typ)
		ok = ok2 && k2 == ik
	}
	return ik, ok && (b.op == "bv" || (b.k.Cmp(ik.min()) >= 0 && b.k.Cmp(ik.max()) <= 0))
}

func (E *Engine) eqLeaf(a, b *Term, g B) B {
	if a.op == "bottom" || b.op == "bottom" {
		return False
	}
	if E.isInt(a) && E.isInt(b) {
		if a == b {
			return True
		}
		if ik, ok := bitsKind(a, b); ok {
			r := True
			x, y := E.asBits(a, ik), E.asBits(b, ik)
			for i := range x {
				r = E.bdd.And(r, E.bdd.Not(E.bdd.Xor(x[i], y[i])))
			}
			return r
		}
		return E.cmpInt("==", a, b, g)
	}
	if a.op == "bool" || b.op == "bool" {
		return E.bdd.Not(E.bdd.Xor(E.Formula(a), E.Formula(b)))
	}
	if isAddr(a) || isAddr(b) {
		// not the values there
	} else if a.op == "float" || (a.typ != nil && a.op != "iface" && isFloat(a.typ)) || b.op == "float" || (b.typ != nil && b.op != "iface" && isFloat(b.typ)) {
		return E.floatEq(a, b)
	}
	if a.op == "struct" && b.op == "struct" && len(a.args) == len(b.args) {
		r := True
		for i := range a.args {
			r = E.bdd.And(r, E.Eq(a.args[i], b.args[i], g))
		}
		return r
	}
	if a == b {
		if a.op == "iface" {
			return E.Eq(a.args[0], b.args[0], g) // NaN
		}
		return True
	}
	if b.op == "nil" || (a.op != "nil" && isConstTerm(b) && !isConstTerm(a)) || (b.op == "iface" && a.op != "iface") {
		a, b = b, a
	}
	// a is nil, a constant or an interface if one of them is
	switch {
	case a.op == "nil":
		if nonNil(b) || E.nonNilHook != nil && E.nonNilHook(b) {
			return False
		}
		switch b.op {
		case "append", "slice", "bytes", "concat":
			return False
		}
	case a.op == "str" && b.op == "str", a.op == "func" && b.op == "func":
		return False
	case a.op == "iface" && b.op == "iface":
		if !types.Identical(a.typ, b.typ) {
			return False
		}
		return E.Eq(a.args[0], b.args[0], g)
	case a.op == "iface":
		if b.op == "err" {
			return False
		}
		is := E.IsType(b, a.typ)
		if is == False {
			return False
		}
		return E.bdd.And(is, E.Eq(E.Tassert(b, a.typ), a.args[0], g))
	}
	if a.op == "str" {
		if a.aux == "" {
			return E.cmpInt("==", E.Len(b), E.Int(0), g)
		}
	} else if a.op == "err" || b.op == "err" {
		if a.op == "err" && b.op == "err" {
			return False
		}
	}
	if c, ok := E.aliasKnown(a, b); ok {
		return c
	}
	if a.op != "nil" && !isConstTerm(a) && a.id > b.id {
		a, b = b, a
	}
	return E.atomB(&atom{kind: "eq", x: a, y: b})
}

// aliasKnown decides equality of references without an atom when it can.
func (E *Engine) aliasKnown(a, b *Term) (B, bool) {
	ra, rb := a.op, b.op
	fresh := func(o string) bool { return o == "alloc" || o == "makemap" || o == "makeslice" || o == "makechan" }
	if fresh(ra) && fresh(rb) {
		if ra == rb && a.aux == b.aux {
			// same site, in different iterations
			if len(a.args) == len(b.args) {
				r := True
				for i := range a.args {
					if a.args[i] != b.args[i] {
						r = False
						if a.args[i].op == "it" || b.args[i].op == "it" || a.args[i].op == "lin" || b.args[i].op == "lin" {
							return E.cmpInt("==", a.args[i], b.args[i], True), true
						}
					}
				}
				return r, true
			}
		}
		return False, true
	}
	if ra == "global" && rb == "global" {
		return False, true
	}
	// a string is converted to a new array
	if ra == "bytes" && (fresh(rb) || E.preexisting(b, a)) || rb == "bytes" && (fresh(ra) || E.preexisting(a, b)) {
		return False, true
	}
	// what was collected in a loop is a new array, unlike other arrays
	if ra == "collect" && rb == "collect" {
		return False, true
	}
	if ra == "collect" && (fresh(rb) || E.preexisting(b, a)) || rb == "collect" && (fresh(ra) || E.preexisting(a, b)) {
		return False, true
	}
	if ra == "key" && rb == "key" && a.aux == b.aux && a.args[0] == b.args[0] {
		return E.cmpInt("==", a.args[1], b.args[1], True), true
	}
	if ra == "tassert" && rb == "tassert" && types.Identical(a.typ, b.typ) && E.injective != nil && E.injective(a.args[0]) && E.injective(b.args[0]) {
		return E.Eq(a.args[0], b.args[0], True), true
	}
	if ra == "load" && rb == "load" && E.injective != nil && E.injective(a) && E.injective(b) && a.args[0].op == b.args[0].op && class(a.args[0]) == class(b.args[0]) {
		return E.locEq(a.args[0], b.args[0]), true
	}
	if ra == "indexaddr" && rb == "indexaddr" && a.args[0] == b.args[0] {
		return E.Eq(a.args[1], b.args[1], True), true
	}
	// places inside of different objects
	inside := func(o string) bool { return o == "indexaddr" || o == "fieldaddr" }
	if (inside(ra) || inside(rb)) && (inside(ra) || fresh(ra)) && (inside(rb) || fresh(rb)) {
		x, y := locRoot(a), locRoot(b)
		if fresh(x.op) && fresh(y.op) {
			if r, ok := E.aliasKnown(x, y); x != y && ok && r == False {
				return False, true
			}
			if x == y && (!inside(ra) || !inside(rb)) && !types.Identical(a.typ, b.typ) {
				return False, true
			}
		}
	}
	if fresh(ra) || fresh(rb) {
		x, y := a, b
		if !fresh(ra) {
			x, y = b, a
		}
		// the library functions that are left out give new slices
		if calleeMade(y) {
			return False, true
		}
		// a fresh object is none that existed before
		if E.preexisting(y, x) {
			return False, true
		}
	}
	if (ra == "global" && (rb == "fieldaddr" || rb == "indexaddr")) || (rb == "global" && (ra == "fieldaddr" || ra == "indexaddr")) {
		return False, true
	}
	if ra == "fieldaddr" && rb == "fieldaddr" {
		if a.aux != b.aux {
			return False, true
		}
		return E.Eq(a.args[0], b.args[0], True), true
	}
	if a.typ != nil && b.typ != nil && !isIface(a.typ) && !isIface(b.typ) && a.op != "nil" && b.op != "nil" {
		// locations carry their content type, pointers their own
		if isPtrVal(a) && isPtrVal(b) && !types.Identical(a.typ.Underlying(), b.typ.Underlying()) {
			return False, true
		}
	}
	return False, false
}

// calleeMade: y was given by a library function that is left out, or is inside of such an object.
func calleeMade(y *Term) bool {
	for y.op == "indexaddr" || y.op == "fieldaddr" || y.op == "slice" {
		y = y.args[0]
	}
	return y.op == "call" || y.op == "hist"
}

func isPtrVal(t *Term) bool {
	switch t.op {
	case "sym", "load", "tassert", "lam", "call":
		return true
	}
	return false
}

// preexisting: y denotes something that existed before the fresh object x was made.
func (E *Engine) preexisting(y, x *Term) bool {
	switch y.op {
	case "sym", "global", "nil", "func":
		return true
	case "res":
		// what constructors that are left out give does not refer to what was made here
		return E.opaqueRes[y]
	case "tassert", "fieldaddr", "mapaddr", "indexaddr", "conv":
		return E.preexisting(y.args[0], x)
	case "load":
		return (y.aux == "" || E.otherVer[y.aux]) && E.preexisting(y.args[0], x)
	case "slice":
		return E.preexisting(y.args[0], x)
	}
	return false
}

// unNegate negates both of two values if both are negated or constant.
func (E *Engine) unNegate(a, b *Term) (*Term, *Term, bool) {
	neg := func(t *Term) bool {
		return t.op == "fscale" && constant.Compare(t.cv, token.EQL, constant.MakeFloat64(-1))
	}
	if (neg(a) || a.op == "float") && (neg(b) || b.op == "float") && (neg(a) || neg(b)) {
		un := func(t *Term) *Term {
			if neg(t) {
				return t.args[0]
			}
			return E.Float(constant.UnaryOp(token.SUB, t.cv, 0))
		}
		return un(a), un(b), true
	}
	return a, b, false
}

func (E *Engine) floatEq(a, b *Term) B {
	if x, y, ok := E.unNegate(a, b); ok {
		return E.floatEq(x, y)
	}
	if a.op == "float" && b.op == "float" {
		return boolB(a.aux == b.aux)
	}
	nn := E.bdd.Not(E.nan(a))
	if a == b {
		return nn
	}
	if b.op == "float" {
		a, b = b, a
	}
	if a.op != "float" && a.id > b.id {
		a, b = b, a
	}
	return E.bdd.AndAll(E.atomB(&atom{kind: "eq", x: a, y: b}), E.bdd.Not(E.nan(a)), E.bdd.Not(E.nan(b)))
}

func (E *Engine) nan(a *Term) B {
	if a.op == "float" {
		return False
	}
	if a.op == "conv" {
		if _, ok := E.kindOf(a.args[0]); ok {
			return False
		}
		if a.args[0].op == "int" {
			return False
		}
		return E.nan(a.args[0])
	}
	if a.op == "fscale" && constant.Sign(a.cv) != 0 {
		return E.nan(a.args[0])
	}
	return E.atomB(&atom{kind: "nan", x: a})
}

// flt is a < b for floats, false if one is NaN.
func (E *Engine) flt(a, b *Term) B {
	if x, y, ok := E.unNegate(a, b); ok {
		return E.flt(y, x)
	}
	if a.op == "float" && b.op == "float" {
		return boolB(cmpConst(a, b) < 0)
	}
	if a == b {
		return False
	}
	return E.bdd.AndAll(E.atomB(&atom{kind: "flt", x: a, y: b}), E.bdd.Not(E.nan(a)), E.bdd.Not(E.nan(b)))
}

// ---------------------------------------------------------------- feasibility

const maxAxiom = 100000

// axiomsFor conjoins what the theories say about the atoms in the support of b.
func (E *Engine) axiomsFor(b B) []B {
	sup := E.bdd.Support(b)
	if len(sup) < 1 {
		return nil
	}
	var r []B
	extra := True
	if len(E.axioms)+len(E.derived) > 0 {
		done := map[int32]bool{}
		for changed := true; changed; {
			changed = false
			for _, v := range sup {
				if done[v] {
					continue
				}
				if a, ok := E.axiom(v); ok {
					done[v] = true
					if E.bdd.larger(a, maxAxiom) {
						continue // without it more seems possible
					}
					extra = E.bdd.And(extra, a)
					changed = true
				}
			}
			if changed {
				m := map[int32]bool{}
				for _, v := range append(E.bdd.Support(b), E.bdd.Support(extra)...) {
					m[v] = true
				}
				sup = make([]int32, 0, len(m))
				for v := range m {
					sup = append(sup, v)
				}
				sortInt32(sup)
			}
		}
	}
	le := map[string][]*atom{}
	ist := map[*Term][]*atom{}
	eqc := map[*Term][]*atom{}
	nils := map[*Term]*atom{}
	fl := map[[2]int]*atom{}
	var bitAtoms []*atom
	if extra != True {
		r = append(r, extra)
	}
	for _, v := range sup {
		a := E.atoms[v]
		switch a.kind {
		case "le":
			k := linKey(a.lin)
			le[k] = append(le[k], a)
		case "istype":
			ist[a.x] = append(ist[a.x], a)
		case "eq":
			if a.x.op == "nil" {
				nils[a.y] = a
			}
			if isConstTerm(a.x) {
				eqc[a.y] = append(eqc[a.y], a)
			}
		case "flt":
			fl[[2]int{a.x.id, a.y.id}] = a
		case "bit":
			bitAtoms = append(bitAtoms, a)
		}
	}
	var keys []string
	for k := range le {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		as := le[k]
		sort.Slice(as, func(i, j int) bool { return as[i].c.Cmp(as[j].c) < 0 })
		for i := 0; i+1 < len(as); i++ {
			r = append(r, E.bdd.Imp(E.bdd.Var(as[i].id), E.bdd.Var(as[i+1].id)))
		}
	}
	// a difference x - y and bounds on x and y are left to the linear solver
	for x, as := range ist {
		for i, p := range as {
			if n := nils[x]; n != nil {
				r = append(r, E.bdd.Not(E.bdd.And(E.bdd.Var(p.id), E.bdd.Var(n.id))))
			}
			for _, q := range as[i+1:] {
				_, ip := p.t.Underlying().(*types.Interface)
				_, iq := q.t.Underlying().(*types.Interface)
				switch {
				case !ip && !iq:
					r = append(r, E.bdd.Not(E.bdd.And(E.bdd.Var(p.id), E.bdd.Var(q.id))))
				case !ip && iq:
					r = append(r, E.ifaceAxiom(p, q))
				case ip && !iq:
					r = append(r, E.ifaceAxiom(q, p))
				}
			}
		}
	}
	for _, as := range eqc {
		for i, p := range as {
			for _, q := range as[i+1:] {
				r = append(r, E.bdd.Not(E.bdd.And(E.bdd.Var(p.id), E.bdd.Var(q.id))))
			}
		}
	}
	for k, a := range fl {
		if o, ok := fl[[2]int{k[1], k[0]}]; ok && a.id < o.id {
			r = append(r, E.bdd.Not(E.bdd.And(E.bdd.Var(a.id), E.bdd.Var(o.id))))
		}
	}
	// order of floats relative to constants
	for _, a := range fl {
		for _, o := range fl {
			if a.id >= o.id {
				continue
			}
			if a.x.op == "float" && o.x.op == "float" && a.y == o.y { // c < y
				if cmpConst(a.x, o.x) >= 0 {
					r = append(r, E.bdd.Imp(E.bdd.Var(a.id), E.bdd.Var(o.id)))
				} else {
					r = append(r, E.bdd.Imp(E.bdd.Var(o.id), E.bdd.Var(a.id)))
				}
			}
			if a.y.op == "float" && o.y.op == "float" && a.x == o.x { // x < c
				if cmpConst(a.y, o.y) <= 0 {
					r = append(r, E.bdd.Imp(E.bdd.Var(a.id), E.bdd.Var(o.id)))
				} else {
					r = append(r, E.bdd.Imp(E.bdd.Var(o.id), E.bdd.Var(a.id)))
				}
			}
			p, q := a, o
			if p.x.op != "float" {
				p, q = q, p
			}
			if p.x.op == "float" && q.y.op == "float" && p.y == q.x && cmpConst(p.x, q.y) >= 0 { // c1 < x, x < c2
				r = append(r, E.bdd.Not(E.bdd.And(E.bdd.Var(p.id), E.bdd.Var(q.id))))
			}
		}
	}
	return r
}

func (E *Engine) ifaceAxiom(p, q *atom) B { // p concrete, q interface
	it := q.t.Underlying().(*types.Interface)
	if types.Implements(p.t, it) {
		return E.bdd.Imp(E.bdd.Var(p.id), E.bdd.Var(q.id))
	}
	return E.bdd.Not(E.bdd.And(E.bdd.Var(p.id), E.bdd.Var(q.id)))
}

// withAxioms conjoins b with what the theories say about its atoms.
func (E *Engine) withAxioms(b B) B {
	r := b
	for _, a := range E.axiomsFor(b) {
		r = E.bdd.And(r, a)
		if r == False {
			break
		}
	}
	return r
}

// feasible reports whether b is consistent with the theories (cheap, incomplete).
func (E *Engine) feasible(b B) bool {
	if b <= True {
		return b == True
	}
	if r, ok := E.feasC[b]; ok {
		return r
	}
	r := E.withAxioms(b) != False
	E.feasC[b] = r
	return r
}

// sat reports whether b is consistent, with linear arithmetic too.
func (E *Engine) sat(b B) bool {
	if b <= True {
		return b == True
	}
	if r, ok := E.satC[b]; ok {
		return r
	}
	c := E.withAxioms(b)
	c = E.withLemmas(c)
	found := false
	for n := 0; c != False; n++ {
		if n > 400 {
			found = true // give up
			break
		}
		var cube map[int32]bool
		E.bdd.Cubes(c, func(asg map[int32]bool) bool {
			cube = make(map[int32]bool, len(asg))
			for v, x := range asg {
				cube[v] = x
			}
			return false
		})
		if E.cubeSat(cube) {
			E.model = cube
			found = true
			break
		}
		l := E.bdd.Not(E.core(cube))
		E.lemmas = append(E.lemmas, lemma{l, E.bdd.Support(l)})
		c = E.bdd.And(c, l)
	}
	E.satC[b] = found
	return found
}

// lemma is a disjunction of literals that always holds.
type lemma struct {
	b  B
	vs []int32
}

func (E *Engine) withLemmas(c B) B {
	if c == False || len(E.lemmas) == 0 {
		return c
	}
	in := map[int32]bool{}
	for _, v := range E.bdd.Support(c) {
		in[v] = true
	}
next:
	for _, l := range E.lemmas {
		for _, v := range l.vs {
			if !in[v] {
				continue next
			}
		}
		if c = E.bdd.And(c, l.b); c == False {
			break
		}
	}
	return c
}

// core is a part of a contradictory conjunction that is contradictory itself.
func (E *Engine) core(cube map[int32]bool) B {
	var vs []int32
	for v := range cube {
		vs = append(vs, v)
	}
	sort.Slice(vs, func(i, j int) bool { return vs[i] > vs[j] })
	sub := func(from, to int) map[int32]bool {
		m := map[int32]bool{}
		for i, v := range vs {
			if i < from || i >= to {
				m[v] = cube[v]
			}
		}
		return m
	}
	for n := (len(vs) + 1) / 2; n > 0; n /= 2 {
		for i := 0; i < len(vs); {
			to := i + n
			if to > len(vs) {
				to = len(vs)
			}
			if !E.cubeSat(sub(i, to)) {
				vs = append(vs[:i:i], vs[to:]...)
			} else {
				i = to
			}
		}
	}
	r := True
	for _, v := range vs {
		x := E.bdd.Var(v)
		if !cube[v] {
			x = E.bdd.Not(x)
		}
		r = E.bdd.And(r, x)
	}
	return r
}

// implies reports whether g entails c.
func (E *Engine) implies(g, c B) bool {
	return !E.sat(E.bdd.And(g, E.bdd.Not(c)))
}

type ineq struct {
	co map[*Term]*big.Rat
	k  *big.Rat // sum co*x + k <= 0
}

// cubeSat decides a conjunction of literals: congruence of what is set equal, and
// linear arithmetic over the rationals by elimination.
func (E *Engine) cubeSat(asg map[int32]bool) bool {
	var ins []ineq
	vars := map[*Term]bool{}
	addLin := func(l linForm, k *big.Int, sign int64) {
		q := ineq{map[*Term]*big.Rat{}, new(big.Rat).SetInt(k)}
		for i, t := range l.at {
			q.co[t] = new(big.Rat).SetInt(new(big.Int).Mul(l.co[i], big.NewInt(sign)))
			vars[t] = true
		}
		ins = append(ins, q)
	}
	has := false
	var eqs [][2]*Term
	for v, val := range asg {
		a := E.atoms[v]
		if a.kind == "eq" && val {
			eqs = append(eqs, [2]*Term{a.x, a.y})
		}
		if a.kind != "le" {
			continue
		}
		has = true
		if val {
			addLin(a.lin, new(big.Int).Neg(a.c), 1)
		} else {
			addLin(a.lin, new(big.Int).Add(a.c, bigOne), -1)
		}
	}
	if len(eqs) > 0 && !E.congruent(asg, eqs) {
		return false
	}
	if !has {
		return true
	}
	// lengths of strings and slices that are set equal are equal
	for _, e := range eqs {
		la, lb := E.Len(e[0]), E.Len(e[1])
		if (isString(e[0].typ) || e[0].op == "str") && (vars[la] || vars[lb]) {
			d := linAdd(asLin(la), asLin(lb), big.NewInt(-1))
			addLin(d, d.k, 1)
			d = linAdd(linForm{k: big.NewInt(0)}, d, big.NewInt(-1))
			addLin(d, d.k, 1)
		}
	}
	for done := map[*Term]bool{}; ; {
		var t *Term
		for x := range vars {
			if !done[x] {
				t = x
				break
			}
		}
		if t == nil {
			break
		}
		done[t] = true
		if lo, hi := E.rangeOf(t); true {
			one := linForm{[]*Term{t}, []*big.Int{bigOne}, big.NewInt(0)}
			if lo != nil {
				addLin(one, lo, -1)
			}
			if hi != nil {
				addLin(one, new(big.Int).Neg(hi), 1)
			}
		}
		if t.op == "div" && t.args[1].op == "int" {
			// c*q <= x <= c*q + c-1 for x >= 0
			x := asLin(t.args[0])
			if lo, _ := E.linRange(x); lo != nil && lo.Sign() >= 0 {
				c := t.args[1].k
				cq := linForm{[]*Term{t}, []*big.Int{c}, big.NewInt(0)}
				d := linAdd(cq, x, big.NewInt(-1))
				addLin(d, d.k, 1)
				d = linAdd(x, cq, big.NewInt(-1))
				addLin(d, new(big.Int).Sub(d.k, new(big.Int).Sub(c, bigOne)), 1)
			}
		}
		for _, f := range E.facts[t] {
			addLin(f, f.k, 1)
		}
	}
	return fmSat(ins)
}

// congruent checks disequalities and constants against the equalities of a cube.
func (E *Engine) congruent(asg map[int32]bool, eqs [][2]*Term) bool {
	rep := map[*Term]*Term{}
	var find func(*Term) *Term
	find = func(t *Term) *Term {
		if p, ok := rep[t]; ok && p != t {
			r := find(p)
			rep[t] = r
			return r
		}
		return t
	}
	for _, e := range eqs {
		a, b := find(e[0]), find(e[1])
		if a == b {
			continue
		}
		if isConstTerm(a) && isConstTerm(b) {
			return false
		}
		if isConstTerm(a) {
			a, b = b, a
		}
		rep[a] = b
	}
	for v, val := range asg {
		a := E.atoms[v]
		if a.kind == "eq" && !val && find(a.x) == find(a.y) && !(a.x.typ != nil && isFloat(a.x.typ)) {
			return false
		}
	}
	// equal terms give equal results of the same boolean function
	seen := map[string]bool{}
	for v, val := range asg {
		a := E.atoms[v]
		var k string
		switch a.kind {
		case "b":
			if len(a.x.args) == 0 {
				continue
			}
			k = a.x.op + "|" + a.x.aux
			for _, x := range a.x.args {
				k += fmt.Sprintf("|%d", E.find2(find, x))
			}
		case "istype":
			k = fmt.Sprintf("is|%s|%d", typeStr(a.t), find(a.x).id)
		default:
			continue
		}
		if o, ok := seen[k]; ok && o != val {
			return false
		}
		seen[k] = val
	}
	return true
}

func (E *Engine) find2(find func(*Term) *Term, x *Term) int {
	if r := find(x); r != x || len(x.args) == 0 || (x.op != "mapaddr" && x.op != "haddr" && x.op != "fieldaddr") {
		return r.id
	}
	args := make([]*Term, len(x.args))
	for i, a := range x.args {
		args[i] = find(a)
	}
	return E.intern(&Term{op: x.op, aux: x.aux, typ: x.typ, args: args}).id
}

// fmSat is Fourier-Motzkin elimination.
func fmSat(ins []ineq) bool {
	for {
		// constants
		var rest []ineq
		for _, q := range ins {
			for t, c := range q.co {
				if c.Sign() == 0 {
					delete(q.co, t)
				}
			}
			if len(q.co) == 0 {
				if q.k.Sign() > 0 {
					return false
				}
				continue
			}
			rest = append(rest, q)
		}
		// of parallel ones the tightest is enough
		ins = ins[:0:0]
		tight := map[string]int{}
		for _, q := range rest {
			k := q.normal()
			if i, ok := tight[k]; !ok {
				tight[k] = len(ins)
				ins = append(ins, q)
			} else if q.k.Cmp(ins[i].k) > 0 {
				ins[i] = q
			}
		}
		if len(ins) == 0 {
			return true
		}
		// the variable with the fewest products
		pos, neg := map[*Term]int{}, map[*Term]int{}
		for _, q := range ins {
			for t, c := range q.co {
				if c.Sign() > 0 {
					pos[t]++
				} else {
					neg[t]++
				}
			}
		}
		var best *Term
		bc := 1 << 30
		for _, q := range ins {
			for t := range q.co {
				c := pos[t] * neg[t]
				if c < bc || (c == bc && t.id < best.id) {
					best, bc = t, c
				}
			}
		}
		var ps, ns, next []ineq
		for _, q := range ins {
			c, ok := q.co[best]
			switch {
			case !ok:
				next = append(next, q)
			case c.Sign() > 0:
				ps = append(ps, q)
			default:
				ns = append(ns, q)
			}
		}
		if len(ps)*len(ns)+len(next) > 3000 {
			return true // give up: assume satisfiable
		}
		for _, p := range ps {
			for _, n := range ns {
				a := new(big.Rat).Neg(n.co[best])
				b := p.co[best]
				r := ineq{map[*Term]*big.Rat{}, new(big.Rat).Add(new(big.Rat).Mul(p.k, a), new(big.Rat).Mul(n.k, b))}
				for t, c := range p.co {
					r.co[t] = new(big.Rat).Mul(c, a)
				}
				for t, c := range n.co {
					if o, ok := r.co[t]; ok {
						r.co[t] = new(big.Rat).Add(o, new(big.Rat).Mul(c, b))
					} else {
						r.co[t] = new(big.Rat).Mul(c, b)
					}
				}
				delete(r.co, best)
				next = append(next, r)
			}
		}
		ins = next
	}
}

// normal scales an inequality and names its direction.
func (q *ineq) normal() string {
	ks := make([]*Term, 0, len(q.co))
	for t := range q.co {
		ks = append(ks, t)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	if f := new(big.Rat).Abs(q.co[ks[0]]); f.Cmp(ratOne) != 0 {
		f.Inv(f)
		co := map[*Term]*big.Rat{}
		for t, c := range q.co {
			co[t] = new(big.Rat).Mul(c, f)
		}
		*q = ineq{co, new(big.Rat).Mul(q.k, f)}
	}
	var b strings.Builder
	for _, t := range ks {
		fmt.Fprintf(&b, "%d*%s,", t.id, q.co[t].RatString())
	}
	return b.String()
}

var ratOne = big.NewRat(1, 1)

// BStr prints a formula as a disjunction of a few cubes.
func (E *Engine) BStr(b B) string {
	switch b {
	case True:
		return "true"
	case False:
		return "false"
	}
	var cubes []string
	n := 0
	E.bdd.Cubes(b, func(asg map[int32]bool) bool {
		var vs []int32
		for v := range asg {
			vs = append(vs, v)
		}
		sortInt32(vs)
		var ls []string
		for _, v := range vs {
			s := E.atoms[v].String()
			if !asg[v] {
				s = "!(" + s + ")"
			}
			ls = append(ls, s)
		}
		cubes = append(cubes, strings.Join(ls, " && "))
		n++
		return n < 3
	})
	s := strings.Join(cubes, " || ")
	if n >= 3 {
		s += " || ..."
	}
	return s
}

func (a *atom) String() string {
	switch a.kind {
	case "le":
		var p []string
		for i, t := range a.lin.at {
			c := a.lin.co[i].String()
			if c == "1" {
				p = append(p, t.str(3))
			} else {
				p = append(p, c+"*"+t.str(3))
			}
		}
		return strings.Join(p, "+") + "<=" + a.c.String()
	case "eq":
		return a.y.str(3) + "==" + a.x.str(3)
	case "istype":
		return a.x.str(3) + ".(" + typeStrShort(a.t) + ")"
	case "flt":
		return a.x.str(3) + "<" + a.y.str(3)
	case "bit":
		return fmt.Sprintf("bit%d(%s)", a.n, a.x.str(3))
	}
	s := a.kind
	if a.x != nil {
		s += ":" + a.x.str(3)
	}
	return s
}
