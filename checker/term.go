package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Term is a hash-consed symbolic value: two occurrences of the same value are
// the same pointer.
type Term struct {
	e      *Engine
	id     int
	op     string
	aux    string
	typ    types.Type // type of the value, for locations the type of the content
	args   []*Term
	k      *big.Int // int constant, or constant part of lin
	coef   []*big.Int
	ik     ikind
	f      B      // op bool
	leaves []Leaf // op phi
	bits   []B    // op bv
	fn     *ssa.Function
	lp     []int32 // loops the term depends on
	own    []int32 // loops it belongs to itself
	cv     constant.Value
	mapT   *types.Map // op key: the type of the map
}

// Leaf is a guarded alternative of a phi; guards of a phi are disjoint.
type Leaf struct {
	g B
	t *Term
}

type ikind struct {
	bits   int
	signed bool
}

func (k ikind) min() *big.Int {
	if !k.signed {
		return big.NewInt(0)
	}
	return new(big.Int).Neg(new(big.Int).Lsh(big.NewInt(1), uint(k.bits-1)))
}

func (k ikind) max() *big.Int {
	n := uint(k.bits)
	if k.signed {
		n--
	}
	return new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), n), big.NewInt(1))
}

func intKind(t types.Type) (ikind, bool) {
	if t == nil {
		return ikind{}, false
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return ikind{}, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt, types.UntypedRune:
		return ikind{64, true}, true
	case types.Int32:
		return ikind{32, true}, true
	case types.Int16:
		return ikind{16, true}, true
	case types.Int8:
		return ikind{8, true}, true
	case types.Uint, types.Uint64, types.Uintptr:
		return ikind{64, false}, true
	case types.Uint32:
		return ikind{32, false}, true
	case types.Uint16:
		return ikind{16, false}, true
	case types.Uint8:
		return ikind{8, false}, true
	}
	return ikind{}, false
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func isBool(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func isString(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isIface(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Interface)
	return ok
}

func typeStr(t types.Type) string {
	if t == nil {
		return ""
	}
	return types.TypeString(canonType(t), func(p *types.Package) string { return p.Path() })
}

// canonType: a type has one name (byte is uint8, any is interface{}).
func canonType(t types.Type) types.Type {
	switch x := types.Unalias(t).(type) {
	case *types.Basic:
		if x.Kind() > 0 && int(x.Kind()) < len(types.Typ) && types.Typ[x.Kind()] != nil {
			return types.Typ[x.Kind()]
		}
		return x
	case *types.Pointer:
		return types.NewPointer(canonType(x.Elem()))
	case *types.Slice:
		return types.NewSlice(canonType(x.Elem()))
	case *types.Array:
		return types.NewArray(canonType(x.Elem()), x.Len())
	case *types.Map:
		return types.NewMap(canonType(x.Key()), canonType(x.Elem()))
	case *types.Chan:
		return types.NewChan(x.Dir(), canonType(x.Elem()))
	default:
		return x
	}
}

// typeStrShort is used in messages.
func typeStrShort(t types.Type) string {
	if t == nil {
		return ""
	}
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// ---------------------------------------------------------------- construction

func (E *Engine) intern(t *Term) *Term {
	var b strings.Builder
	b.WriteString(t.op)
	b.WriteByte('|')
	b.WriteString(t.aux)
	for _, a := range t.args {
		fmt.Fprintf(&b, "|%d", a.id)
	}
	switch t.op {
	case "int":
		b.WriteString("|" + t.k.String())
	case "lin":
		fmt.Fprintf(&b, "|%v%v", t.ik.bits, t.ik.signed)
		for _, c := range t.coef {
			b.WriteString("," + c.String())
		}
		b.WriteString("|" + t.k.String())
	case "bool":
		fmt.Fprintf(&b, "|%d", t.f)
	case "phi":
		for _, l := range t.leaves {
			fmt.Fprintf(&b, "|%d:%d", l.g, l.t.id)
		}
	case "bv":
		for _, x := range t.bits {
			fmt.Fprintf(&b, ",%d", x)
		}
	case "func", "closure":
		fmt.Fprintf(&b, "|%p", t.fn)
	case "conv", "tassert", "load", "sym", "lam", "zero", "indexaddr", "mapaddr", "res", "elem", "call":
		b.WriteString("|" + typeStr(t.typ))
	}
	k := b.String()
	if old, ok := E.terms[k]; ok {
		return old
	}
	t.e = E
	t.id = len(E.terms)
	t.own = t.lp
	lp := map[int32]bool{}
	for _, l := range t.lp {
		lp[l] = true
	}
	for _, a := range t.args {
		for _, l := range a.lp {
			lp[l] = true
		}
	}
	for _, l := range t.leaves {
		for _, x := range l.t.lp {
			lp[x] = true
		}
		for _, v := range E.bdd.Support(l.g) {
			for _, x := range E.atoms[v].lp() {
				lp[x] = true
			}
		}
	}
	bs := t.bits
	if t.op == "bool" {
		bs = []B{t.f}
	}
	for _, b := range bs {
		for _, v := range E.bdd.Support(b) {
			for _, x := range E.atoms[v].lp() {
				lp[x] = true
			}
		}
	}
	t.lp = nil
	for l := range lp {
		t.lp = append(t.lp, l)
	}
	sortInt32(t.lp)
	E.terms[k] = t
	E.termList = append(E.termList, t)
	return t
}

func (t *Term) inLoop(l int32) bool {
	for _, x := range t.lp {
		if x == l {
			return true
		}
	}
	return false
}

func (E *Engine) Int(n int64) *Term { return E.BigInt(big.NewInt(n)) }
func (E *Engine) BigInt(n *big.Int) *Term {
	return E.intern(&Term{op: "int", k: new(big.Int).Set(n)})
}
func (E *Engine) Bool(f B) *Term { return E.intern(&Term{op: "bool", f: f}) }
func (E *Engine) Str(s string) *Term {
	return E.intern(&Term{op: "str", aux: s})
}
func (E *Engine) Nil() *Term { return E.intern(&Term{op: "nil"}) }
func (E *Engine) Sym(name string, typ types.Type) *Term {
	return E.typed(E.intern(&Term{op: "sym", aux: name, typ: typ}))
}
func (E *Engine) Func(fn *ssa.Function) *Term {
	return E.intern(&Term{op: "func", fn: fn})
}

// typed turns opaque boolean terms into formulas, all values of boolean type are formulas.
func (E *Engine) typed(t *Term) *Term {
	if t.op != "bool" && isBool(t.typ) {
		return E.Bool(E.boolAtom(t))
	}
	return t
}

// App builds an uninterpreted application, distributing over phis in its arguments.
func (E *Engine) App(op, aux string, typ types.Type, args ...*Term) *Term {
	return E.dist(args, func(a []*Term) *Term {
		return E.typed(E.intern(&Term{op: op, aux: aux, typ: typ, args: append([]*Term(nil), a...)}))
	})
}

const maxLeaves = 160

// dist applies fn to every feasible combination of leaves of args.
func (E *Engine) dist(args []*Term, fn func([]*Term) *Term) *Term {
	has := false
	prod := 1
	for _, a := range args {
		if a.op == "phi" {
			has = true
			prod *= len(a.leaves)
		}
	}
	if !has {
		return fn(args)
	}
	if prod > 20000 {
		return fn(args)
	}
	var out []Leaf
	cur := make([]*Term, len(args))
	var rec func(i int, g B)
	rec = func(i int, g B) {
		if g == False {
			return
		}
		if i == len(args) {
			out = append(out, Leaf{g, fn(append([]*Term(nil), cur...))})
			return
		}
		if args[i].op != "phi" {
			cur[i] = args[i]
			rec(i+1, g)
			return
		}
		for _, l := range args[i].leaves {
			cur[i] = l.t
			rec(i+1, E.bdd.And(g, l.g))
		}
	}
	rec(0, E.care)
	return E.Phi(out)
}

// Phi merges guarded alternatives. Guards have to be disjoint.
func (E *Engine) Phi(in []Leaf) *Term {
	acc := map[*Term]B{}
	var order []*Term
	allBool := len(in) > 0
	var add func(g B, t *Term)
	add = func(g B, t *Term) {
		if g == False {
			return
		}
		if t.op == "phi" {
			for _, l := range t.leaves {
				add(E.bdd.And(g, l.g), l.t)
			}
			return
		}
		if t.op == "bottom" {
			return
		}
		if t.op != "bool" {
			allBool = false
		}
		if _, ok := acc[t]; !ok {
			order = append(order, t)
		}
		acc[t] = E.bdd.Or(acc[t], g)
	}
	for _, l := range in {
		add(l.g, l.t)
	}
	if len(order) == 0 {
		return E.intern(&Term{op: "bottom"})
	}
	if allBool {
		// false outside of all guards, callers restrict to where a guard holds
		tot, f := False, False
		for _, t := range order {
			tot = E.bdd.Or(tot, acc[t])
			f = E.bdd.Or(f, E.bdd.And(acc[t], t.f))
		}
		return E.Bool(E.bdd.Restrict(f, tot))
	}
	if len(order) == 1 {
		return order[0]
	}
	sort.Slice(order, func(i, j int) bool { return order[i].id < order[j].id })
	tot := False
	for _, t := range order {
		tot = E.bdd.Or(tot, acc[t])
	}
	var ls []Leaf
	for _, t := range order {
		ls = append(ls, Leaf{E.bdd.Restrict(acc[t], tot), t})
	}
	// restricting can make guards overlap outside of tot; keep them disjoint
	seen := False
	for i := range ls {
		ls[i].g = E.bdd.And(ls[i].g, E.bdd.Not(seen))
		seen = E.bdd.Or(seen, ls[i].g)
	}
	// the last one takes what is left
	if seen != True {
		ls[len(ls)-1].g = E.bdd.Or(ls[len(ls)-1].g, E.bdd.Not(seen))
	}
	var typ types.Type
	for _, l := range ls {
		if l.t.typ != nil {
			typ = l.t.typ
		}
	}
	return E.intern(&Term{op: "phi", leaves: ls, typ: typ})
}

// Simp drops alternatives that are infeasible under g.
func (E *Engine) Simp(t *Term, g B) *Term {
	if g == False {
		return t
	}
	if t.op == "bool" {
		return E.Bool(E.bdd.Restrict(t.f, g))
	}
	if t.op != "phi" {
		return t
	}
	var ls []Leaf
	for _, l := range t.leaves {
		gg := E.bdd.And(l.g, g)
		if gg == False || !E.feasible(gg) {
			continue
		}
		ls = append(ls, Leaf{gg, l.t})
	}
	return E.Phi(ls)
}

// Formula returns a boolean value as a formula.
func (E *Engine) Formula(t *Term) B {
	switch t.op {
	case "bool":
		return t.f
	case "phi":
		f := False
		for _, l := range t.leaves {
			f = E.bdd.Or(f, E.bdd.And(l.g, E.Formula(l.t)))
		}
		return f
	case "bottom":
		return False
	}
	return E.boolAtom(t)
}

// Ite is a guarded choice.
func (E *Engine) Ite(g B, a, b *Term) *Term {
	return E.Phi([]Leaf{{g, a}, {E.bdd.Not(g), b}})
}

// leavesOf returns the alternatives of a term.
func leavesOf(t *Term) []Leaf {
	if t.op == "phi" {
		return t.leaves
	}
	if t.op == "bottom" {
		return nil
	}
	return []Leaf{{True, t}}
}

// ---------------------------------------------------------------- linear integers

type linForm struct {
	at []*Term // sorted by id
	co []*big.Int
	k  *big.Int
}

func asLin(t *Term) linForm {
	switch t.op {
	case "int":
		return linForm{k: t.k}
	case "lin":
		return linForm{t.args, t.coef, t.k}
	}
	return linForm{[]*Term{t}, []*big.Int{big.NewInt(1)}, big.NewInt(0)}
}

func linAdd(a, b linForm, cb *big.Int) linForm {
	if cb.Sign() == 0 {
		return a
	}
	r := linForm{k: new(big.Int).Add(a.k, new(big.Int).Mul(b.k, cb))}
	i, j := 0, 0
	for i < len(a.at) || j < len(b.at) {
		switch {
		case j >= len(b.at) || (i < len(a.at) && a.at[i].id < b.at[j].id):
			r.at, r.co = append(r.at, a.at[i]), append(r.co, a.co[i])
			i++
		case i >= len(a.at) || b.at[j].id < a.at[i].id:
			r.at, r.co = append(r.at, b.at[j]), append(r.co, new(big.Int).Mul(b.co[j], cb))
			j++
		default:
			c := new(big.Int).Add(a.co[i], new(big.Int).Mul(b.co[j], cb))
			if c.Sign() != 0 {
				r.at, r.co = append(r.at, a.at[i]), append(r.co, c)
			}
			i++
			j++
		}
	}
	return r
}

func (E *Engine) fromLin(l linForm, ik ikind) *Term {
	if len(l.at) == 0 {
		return E.BigInt(wrapConst(l.k, ik))
	}
	if len(l.at) == 1 && l.co[0].Cmp(big.NewInt(1)) == 0 && l.k.Sign() == 0 {
		return l.at[0]
	}
	return E.intern(&Term{op: "lin", args: l.at, coef: l.co, k: l.k, ik: ik})
}

func wrapConst(k *big.Int, ik ikind) *big.Int {
	if ik.bits == 0 || (k.Cmp(ik.min()) >= 0 && k.Cmp(ik.max()) <= 0) {
		return k
	}
	m := new(big.Int).Lsh(big.NewInt(1), uint(ik.bits))
	r := new(big.Int).Mod(k, m)
	if ik.signed && r.Cmp(ik.max()) > 0 {
		r.Sub(r, m)
	}
	return r
}

func (E *Engine) Add(a, b *Term, ik ikind) *Term {
	return E.dist([]*Term{a, b}, func(x []*Term) *Term {
		return E.fromLin(linAdd(asLin(x[0]), asLin(x[1]), big.NewInt(1)), ik)
	})
}

func (E *Engine) Sub(a, b *Term, ik ikind) *Term {
	return E.dist([]*Term{a, b}, func(x []*Term) *Term {
		return E.fromLin(linAdd(asLin(x[0]), asLin(x[1]), big.NewInt(-1)), ik)
	})
}

func (E *Engine) Mul(a, b *Term, ik ikind) *Term {
	return E.dist([]*Term{a, b}, func(x []*Term) *Term {
		p, q := x[0], x[1]
		if p.op != "int" {
			p, q = q, p
		}
		if p.op == "int" {
			return E.fromLin(linAdd(linForm{k: big.NewInt(0)}, asLin(q), p.k), ik)
		}
		// distribute over sums so that n*(a+b) and n*a+n*b agree
		lp, lq := asLin(p), asLin(q)
		r := linForm{k: new(big.Int).Mul(lp.k, lq.k)}
		one := big.NewInt(1)
		for i, x := range lp.at {
			r = linAdd(r, linForm{[]*Term{x}, []*big.Int{lp.co[i]}, big.NewInt(0)}, lq.k)
		}
		for i, x := range lq.at {
			r = linAdd(r, linForm{[]*Term{x}, []*big.Int{lq.co[i]}, big.NewInt(0)}, lp.k)
		}
		for i, x := range lp.at {
			for j, y := range lq.at {
				if y.id < x.id {
					x, y = y, x
				}
				m := E.intern(&Term{op: "mul", args: []*Term{x, y}})
				c := new(big.Int).Mul(lp.co[i], lq.co[j])
				r = linAdd(r, linForm{[]*Term{m}, []*big.Int{c}, big.NewInt(0)}, one)
				x = lp.at[i]
			}
		}
		nz := linForm{k: r.k}
		for i := range r.at {
			if r.co[i].Sign() != 0 {
				nz.at, nz.co = append(nz.at, r.at[i]), append(nz.co, r.co[i])
			}
		}
		return E.fromLin(nz, ik)
	})
}

// maxLen bounds the length of anything in memory: the address space has 47 bits.
var maxLen = new(big.Int).Lsh(big.NewInt(1), 47)

// rangeOf returns bounds on an integer atom, nil for unbounded.
func (E *Engine) rangeOf(t *Term) (lo, hi *big.Int) {
	maxInt := maxLen
	if E.rangeHook != nil {
		if lo, hi, ok := E.rangeHook(t); ok {
			return lo, hi
		}
	}
	switch t.op {
	case "int":
		return t.k, t.k
	case "len", "maplen", "cap":
		return big.NewInt(0), maxInt
	case "keyidx":
		return big.NewInt(0), maxLen
	case "it":
		ik, ok := intKind(t.typ)
		if !ok || ik.bits == 64 {
			return big.NewInt(0), maxLen
		}
		return big.NewInt(0), ik.max()
	case "trip":
		return big.NewInt(0), maxLen
	case "mul":
		al, ah := E.rangeOf(t.args[0])
		bl, bh := E.rangeOf(t.args[1])
		if al != nil && bl != nil && ah != nil && bh != nil && al.Sign() >= 0 && bl.Sign() >= 0 {
			return new(big.Int).Mul(al, bl), new(big.Int).Mul(ah, bh)
		}
	case "div":
		l, h := E.linRange(asLin(t.args[0]))
		c := t.args[1]
		if l != nil && h != nil && l.Sign() >= 0 && c.op == "int" && c.k.Sign() > 0 {
			return new(big.Int).Quo(l, c.k), new(big.Int).Quo(h, c.k)
		}
	case "bv":
		if ik, ok := intKind(t.typ); ok {
			return ik.min(), ik.max()
		}
	case "lin":
		return E.linRange(asLin(t))
	}
	if ik, ok := intKind(t.typ); ok {
		return ik.min(), ik.max()
	}
	return nil, nil
}

func (E *Engine) linRange(l linForm) (lo, hi *big.Int) {
	lo, hi = new(big.Int).Set(l.k), new(big.Int).Set(l.k)
	for i, a := range l.at {
		al, ah := E.rangeOf(a)
		if l.co[i].Sign() < 0 {
			al, ah = ah, al
		}
		if lo != nil && al != nil {
			lo.Add(lo, new(big.Int).Mul(al, l.co[i]))
		} else {
			lo = nil
		}
		if hi != nil && ah != nil {
			hi.Add(hi, new(big.Int).Mul(ah, l.co[i]))
		} else {
			hi = nil
		}
	}
	return
}

// ---------------------------------------------------------------- other constructors

func (E *Engine) Iface(T types.Type, x *Term) *Term {
	return E.dist([]*Term{x}, func(a []*Term) *Term {
		if a[0].op == "tassert" && types.Identical(a[0].typ, T) {
			return a[0].args[0]
		}
		if a[0].op == "bool" && a[0].f > True {
			if v := E.singleVar(a[0].f); v >= 0 {
				at := E.atoms[v]
				if at.kind == "b" && at.x.op == "tassert" && types.Identical(at.x.typ, T) {
					return at.x.args[0]
				}
			}
		}
		return E.intern(&Term{op: "iface", aux: typeStr(T), typ: T, args: a})
	})
}

// Tassert extracts a value of concrete type T from an interface.
func (E *Engine) Tassert(x *Term, T types.Type) *Term {
	return E.dist([]*Term{x}, func(a []*Term) *Term {
		if a[0].op == "iface" {
			if types.Identical(a[0].typ, T) {
				return a[0].args[0]
			}
			return E.intern(&Term{op: "bottom"})
		}
		if a[0].op == "nil" {
			return E.intern(&Term{op: "bottom"})
		}
		return E.typed(E.intern(&Term{op: "tassert", aux: typeStr(T), typ: T, args: a}))
	})
}

// IsType is the condition that interface x holds a value of type T.
func (E *Engine) IsType(x *Term, T types.Type) B {
	f := False
	for _, l := range leavesOf(x) {
		var c B
		switch l.t.op {
		case "iface":
			if it, ok := T.Underlying().(*types.Interface); ok {
				c = boolB(types.Implements(l.t.typ, it))
			} else {
				c = boolB(types.Identical(l.t.typ, T))
			}
		case "nil":
			c = False
		case "err":
			c = E.atomB(&atom{kind: "istype", x: l.t, t: T})
		default:
			if E.typeHook != nil {
				if is, known := E.typeHook(l.t, T); known {
					c = boolB(is)
					break
				}
			}
			c = E.atomB(&atom{kind: "istype", x: l.t, t: T})
		}
		f = E.bdd.Or(f, E.bdd.And(l.g, c))
	}
	return f
}

func boolB(b bool) B {
	if b {
		return True
	}
	return False
}

func (E *Engine) singleVar(f B) int32 {
	n := E.bdd.nodes[f]
	if n.lo == False && n.hi == True {
		return n.v
	}
	return -1
}

// Zero returns the zero value of a type.
func (E *Engine) Zero(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return E.Bool(False)
		case u.Info()&types.IsInteger != 0:
			return E.Int(0)
		case u.Info()&types.IsString != 0:
			return E.Str("")
		case u.Info()&types.IsFloat != 0:
			return E.Float(constant.MakeInt64(0))
		}
		return E.Nil()
	case *types.Struct:
		args := make([]*Term, u.NumFields())
		for i := range args {
			args[i] = E.Zero(u.Field(i).Type())
		}
		return E.intern(&Term{op: "struct", aux: typeStr(t), typ: t, args: args})
	case *types.Array:
		return E.intern(&Term{op: "zero", typ: t})
	}
	return E.Nil()
}

func (E *Engine) Float(c constant.Value) *Term {
	c = constant.ToFloat(c)
	f, _ := constant.Float64Val(c)
	return E.intern(&Term{op: "float", aux: fmt.Sprintf("%g", f), cv: constant.MakeFloat64(f)})
}

// Len is the length of a string, slice, map or array.
func (E *Engine) Len(x *Term) *Term {
	return E.dist([]*Term{x}, func(a []*Term) *Term {
		x := a[0]
		switch x.op {
		case "str":
			return E.Int(int64(len(x.aux)))
		case "nil":
			return E.Int(0)
		case "makeslice", "collect":
			return x.args[0]
		case "bytes":
			return E.Len(x.args[0])
		case "enc":
			if x.args[1].op == "iface" {
				if n, ok := fixedSize(x.args[1].typ); ok {
					return E.Int(n)
				}
			} else {
				return E.encSize(x.args[1], True)
			}
		case "concat":
			n := E.Int(0)
			for _, y := range x.args {
				n = E.Add(n, E.Len(y), ikind{64, true})
			}
			return n
		case "slice": // base lo hi
			if x.args[2].op != "nil" {
				return E.Sub(x.args[2], x.args[1], ikind{64, true})
			}
			return E.Sub(E.Len(x.args[0]), x.args[1], ikind{64, true})
		case "arrayslice":
			if ar, ok := x.args[0].typ.Underlying().(*types.Array); ok {
				return E.Int(ar.Len())
			}
		case "append":
			n := E.Len(x.args[0])
			return E.Add(n, E.Len(x.args[1]), ikind{64, true})
		}
		return E.intern(&Term{op: "len", args: a, typ: types.Typ[types.Int]})
	})
}

func (E *Engine) Concat(a, b *Term) *Term {
	return E.dist([]*Term{a, b}, func(x []*Term) *Term {
		var parts []*Term
		for _, t := range x {
			if t.op == "concat" {
				parts = append(parts, t.args...)
			} else {
				parts = append(parts, t)
			}
		}
		var out []*Term
		for _, p := range parts {
			if p.op == "str" && p.aux == "" {
				continue
			}
			if n := len(out); n > 0 && p.op == "str" && out[n-1].op == "str" {
				out[n-1] = E.Str(out[n-1].aux + p.aux)
				continue
			}
			out = append(out, p)
		}
		if len(out) == 0 {
			return E.Str("")
		}
		if len(out) == 1 {
			return out[0]
		}
		return E.intern(&Term{op: "concat", args: out, typ: types.Typ[types.String]})
	})
}

// ---------------------------------------------------------------- bit vectors

// asBits returns the bits of an integer of the given kind, least significant first.
func (E *Engine) asBits(t *Term, ik ikind) []B {
	out := make([]B, ik.bits)
	switch t.op {
	case "int":
		v := new(big.Int).Mod(t.k, new(big.Int).Lsh(big.NewInt(1), uint(ik.bits)))
		for i := range out {
			out[i] = boolB(v.Bit(i) == 1)
		}
		return out
	case "bv":
		src, _ := intKind(t.typ)
		for i := range out {
			switch {
			case i < len(t.bits):
				out[i] = t.bits[i]
			case src.signed:
				out[i] = t.bits[len(t.bits)-1]
			default:
				out[i] = False
			}
		}
		return out
	case "conv":
		if from, ok := intKind(t.args[0].typ); ok && t.args[0].op != "lin" {
			to, _ := intKind(t.typ)
			b := E.asBits(t.args[0], from)
			ext := func(b []B, k ikind, n int) []B {
				r := make([]B, n)
				for i := range r {
					switch {
					case i < len(b):
						r[i] = b[i]
					case k.signed:
						r[i] = b[len(b)-1]
					default:
						r[i] = False
					}
				}
				return r
			}
			return ext(ext(b, from, to.bits), to, ik.bits)
		}
	}
	if src, ok := intKind(t.typ); ok && t.op != "lin" {
		for i := range out {
			j := i
			if i >= src.bits {
				if !src.signed {
					out[i] = False
					continue
				}
				j = src.bits - 1
			}
			out[i] = E.atomB(&atom{kind: "bit", x: t, n: j})
		}
		return out
	}
	for i := range out {
		out[i] = E.atomB(&atom{kind: "bit", x: t, n: i})
	}
	return out
}

func (E *Engine) fromBits(bits []B, typ types.Type) *Term {
	ik, _ := intKind(typ)
	allConst := true
	v := new(big.Int)
	for i, b := range bits {
		if b > True {
			allConst = false
			break
		}
		if b == True {
			v.SetBit(v, i, 1)
		}
	}
	if allConst {
		return E.BigInt(wrapConst(v, ik))
	}
	// the bits of a whole term
	if s := E.singleVar(bits[0]); s >= 0 && E.atoms[s].kind == "bit" && E.atoms[s].n == 0 {
		x := E.atoms[s].x
		if xk, ok := intKind(x.typ); ok {
			full := E.asBits(x, ik)
			same := true
			for i := range bits {
				if bits[i] != full[i] {
					same = false
					break
				}
			}
			if same {
				if xk == ik {
					return x
				}
				return E.Conv(x, typ, False)
			}
		}
	}
	return E.intern(&Term{op: "bv", bits: append([]B(nil), bits...), typ: typ, aux: typeStr(typ)})
}

func (E *Engine) bitOp(op string, a, b *Term, typ types.Type) *Term {
	ik, _ := intKind(typ)
	return E.dist([]*Term{a, b}, func(x []*Term) *Term {
		switch op {
		case "<<", ">>":
			if x[1].op != "int" {
				return E.intern(&Term{op: "shift" + op, args: x, typ: typ})
			}
			n := int(x[1].k.Int64())
			if op == "<<" && x[0].op != "bv" && x[0].op != "conv" {
				// multiplication by a power of two
				if x[0].op == "int" {
					return E.BigInt(wrapConst(new(big.Int).Lsh(x[0].k, uint(n)), ik))
				}
			}
			src := E.asBits(x[0], ik)
			out := make([]B, ik.bits)
			for i := range out {
				j := i - n
				if op == ">>" {
					j = i + n
				}
				switch {
				case j >= 0 && j < len(src):
					out[i] = src[j]
				case op == ">>" && ik.signed:
					out[i] = src[len(src)-1]
				default:
					out[i] = False
				}
			}
			return E.fromBits(out, typ)
		}
		p, q := E.asBits(x[0], ik), E.asBits(x[1], ik)
		out := make([]B, ik.bits)
		for i := range out {
			switch op {
			case "&":
				out[i] = E.bdd.And(p[i], q[i])
			case "|":
				out[i] = E.bdd.Or(p[i], q[i])
			case "^":
				out[i] = E.bdd.Xor(p[i], q[i])
			case "&^":
				out[i] = E.bdd.And(p[i], E.bdd.Not(q[i]))
			}
		}
		return E.fromBits(out, typ)
	})
}

// Conv converts between numeric types; g is the guard under which it happens,
// used to see that a conversion preserves the value.
func (E *Engine) Conv(x *Term, to types.Type, g B) *Term {
	if x.typ != nil && isString(x.typ) && isString(to) {
		return x
	}
	return E.distG([]*Term{x}, func(a []*Term, lg B) *Term {
		x := a[0]
		if tk, ok := intKind(to); ok {
			if x.op == "float" {
				return E.intern(&Term{op: "conv", args: a, typ: to})
			}
			if fk, isInt := E.kindOf(x); isInt || x.op == "int" || x.op == "lin" {
				if x.op == "int" {
					return E.BigInt(wrapConst(x.k, tk))
				}
				lo, hi := E.rangeOf(x)
				if lo != nil && hi != nil && lo.Cmp(tk.min()) >= 0 && hi.Cmp(tk.max()) <= 0 {
					return x
				}
				if x.op == "bv" {
					return E.fromBits(E.asBits(x, tk), to)
				}
				gg := E.bdd.And(g, lg)
				if g != False && gg != False {
					below := E.leConst(x, fk, new(big.Int).Sub(tk.min(), big.NewInt(1)), gg)
					above := E.bdd.Not(E.leConst(x, fk, tk.max(), gg))
					if !E.feasible(E.bdd.And(gg, E.bdd.Or(below, above))) {
						return x
					}
				}
				// conversions through the same or a wider kind only keep the low bits
				if x.op == "conv" {
					if ik, ok := intKind(x.typ); ok && ik.bits >= tk.bits {
						if _, isInt := E.kindOf(x.args[0]); isInt {
							return E.Conv(x.args[0], to, False)
						}
					}
				}
				return E.intern(&Term{op: "conv", args: []*Term{x}, typ: to})
			}
			return E.intern(&Term{op: "conv", args: a, typ: to})
		}
		if isFloat(to) {
			if x.op == "int" {
				return E.Float(constant.Make(x.k))
			}
			if x.op == "float" && to.Underlying().(*types.Basic).Kind() == types.Float64 {
				return x
			}
			if x.typ != nil && types.Identical(x.typ.Underlying(), to.Underlying()) {
				return x
			}
			return E.intern(&Term{op: "conv", args: a, typ: to})
		}
		return E.intern(&Term{op: "conv", args: a, typ: to})
	})
}

// kindOf returns the integer kind of a term.
func (E *Engine) kindOf(t *Term) (ikind, bool) {
	if t.op == "lin" {
		return t.ik, true
	}
	if t.op == "int" {
		return ikind{64, true}, true
	}
	return intKind(t.typ)
}

// distG is dist, telling fn under which combination of guards it is.
func (E *Engine) distG(args []*Term, fn func([]*Term, B) *Term) *Term {
	if len(args) == 1 {
		if args[0].op != "phi" {
			return fn(args, True)
		}
		var out []Leaf
		for _, l := range args[0].leaves {
			if E.bdd.And(l.g, E.care) == False {
				continue
			}
			out = append(out, Leaf{l.g, fn([]*Term{l.t}, l.g)})
		}
		return E.Phi(out)
	}
	panic("distG")
}

// ---------------------------------------------------------------- printing

func (t *Term) String() string { return t.str(0) }

func (t *Term) str(d int) string {
	if d > 7 {
		return "..."
	}
	short := func(s string) string {
		if i := strings.LastIndex(s, "/"); i >= 0 {
			return s[i+1:]
		}
		return s
	}
	switch t.op {
	case "int":
		return t.k.String()
	case "str":
		return fmt.Sprintf("%q", t.aux)
	case "float":
		return t.aux
	case "nil", "bottom":
		return t.op
	case "bool":
		switch t.f {
		case True:
			return "true"
		case False:
			return "false"
		}
		return fmt.Sprintf("bool{%s}", t.e.BStr(t.f))
	case "sym", "lam":
		return t.aux
	case "func":
		return short(t.fn.String())
	case "lin":
		var p []string
		for i, a := range t.args {
			c := t.coef[i].String()
			if c == "1" {
				p = append(p, a.str(d+1))
			} else {
				p = append(p, c+"*"+a.str(d+1))
			}
		}
		if t.k.Sign() != 0 {
			p = append(p, t.k.String())
		}
		return "(" + strings.Join(p, " + ") + ")"
	case "phi":
		var p []string
		for _, l := range t.leaves {
			p = append(p, fmt.Sprintf("[%s] %s", t.e.BStr(l.g), l.t.str(d+1)))
		}
		return "phi{" + strings.Join(p, "; ") + "}"
	case "load":
		s := t.args[0].str(d + 1)
		if t.aux != "" {
			s += "@" + t.aux
		}
		return s
	case "fieldaddr":
		return t.args[0].str(d+1) + "." + t.aux[strings.LastIndex(t.aux, "#")+1:]
	case "mapaddr":
		return fmt.Sprintf("%s[%s]", t.args[0].str(d+1), t.args[1].str(d+1))
	case "indexaddr":
		return fmt.Sprintf("%s[%s]", t.args[0].str(d+1), t.args[1].str(d+1))
	case "bv":
		return fmt.Sprintf("bv%d", t.id)
	}
	var p []string
	for _, a := range t.args {
		p = append(p, a.str(d+1))
	}
	n := t.op
	if t.aux != "" {
		n += ":" + short(t.aux)
	} else if t.op == "conv" || t.op == "tassert" {
		n += ":" + typeStrShort(t.typ)
	}
	if t.fn != nil {
		n += ":" + short(t.fn.String())
	}
	return n + "(" + strings.Join(p, ", ") + ")"
}
