package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type frame struct {
	fn     *ssa.Function
	parent *frame
	call   ssa.Instruction
	path   string
	vals   map[ssa.Value]*Term
	fv     []*Term
	in     map[*ssa.BasicBlock][]B
	defers []deferRec
	rets   []retRec
	panicG B
	depth  int
}

type deferRec struct {
	g     B
	call  *ssa.CallCommon
	fn    *Term
	args  []*Term
	instr ssa.Instruction
}

type retRec struct {
	g    B
	vals []*Term
}

func (E *Engine) undec(format string, args ...interface{}) {
	s := fmt.Sprintf(format, args...)
	for _, o := range E.undecided {
		if o == s {
			return
		}
	}
	E.undecided = append(E.undecided, s)
}

var (
	cacheMu  sync.Mutex
	instrIdx = map[*ssa.Function]map[ssa.Instruction]int{}
)

func indexOf(fn *ssa.Function, in ssa.Instruction) int {
	cacheMu.Lock()
	defer cacheMu.Unlock()
	m, ok := instrIdx[fn]
	if !ok {
		m = map[ssa.Instruction]int{}
		n := 0
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				m[i] = n
				n++
			}
		}
		instrIdx[fn] = m
	}
	return m[in]
}

func (fr *frame) site(in ssa.Instruction) string {
	return fmt.Sprintf("%s#%d", fr.path, indexOf(fr.fn, in))
}

func (E *Engine) its() []*Term {
	var r []*Term
	for _, l := range E.loopSt {
		r = append(r, l.it)
	}
	return r
}

func (E *Engine) event(fr *frame, kind string, g B, pos token.Pos) *Event {
	e := &Event{id: len(E.events), kind: kind, g: g, thread: E.thread, pos: pos, memAt: len(E.mem), mem: E.mem[:len(E.mem):len(E.mem)], ok: True}
	for _, l := range E.loopSt {
		if !l.unrolled {
			e.loops = append(e.loops, l)
		}
	}
	for f := fr; f != nil; f = f.parent {
		e.ctx = append(e.ctx, f)
	}
	e.held = append([]heldLock(nil), E.threads[E.thread].held...)
	E.events = append(E.events, e)
	return e
}

// oblig records a condition that has to hold where g does.
func (E *Engine) oblig(fr *frame, what string, g, ok B, pos token.Pos, args ...*Term) *Event {
	if E.bdd.And(g, E.bdd.Not(ok)) == False {
		ok = True
	}
	e := E.event(fr, "oblig", g, pos)
	e.name, e.ok, e.args = what, ok, args
	return e
}

// CallFn evaluates a function on arguments.
func (E *Engine) CallFn(fn *ssa.Function, args, fvs []*Term, g B, parent *frame, call ssa.Instruction) ([]*Term, B) {
	if g == False {
		return E.bottoms(fn.Signature), False
	}
	if E.trace != nil {
		E.trace(fn, args, g)
	}
	if r, rg, ok := E.intrinsic(fn, args, g, parent, call); ok {
		return r, rg
	}
	if E.globalsRun && !E.allInit && parent != nil && (fn.Synthetic != "" && fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#")) {
		return nil, g
	}
	if len(fn.Blocks) == 0 || !inModule(fn) || (E.opaque != nil && E.opaque(fn)) {
		return E.external(fn, args, g, parent, call)
	}
	depth := 0
	rec := 0
	path := fn.String()
	if parent != nil {
		depth = parent.depth + 1
		path = fmt.Sprintf("%s>%s", parent.path, fn.Name())
		if call != nil {
			path = fmt.Sprintf("%s>%s", parent.site(call), fn.Name())
		}
		for f := parent; f != nil; f = f.parent {
			if f.fn == fn {
				rec++
			}
		}
	} else {
		path = E.runTag + path
	}
	if E.flat {
		path = "flat:" + fn.String()
	}
	if rec > 1 || depth > 60 {
		E.undec("recursion through %s is not analysed", fn)
		return E.external(fn, args, g, parent, call)
	}
	fr := &frame{fn: fn, parent: parent, call: call, path: path, vals: map[ssa.Value]*Term{}, fv: fvs,
		in: map[*ssa.BasicBlock][]B{}, depth: depth}
	for i, p := range fn.Params {
		if i < len(args) {
			fr.vals[p] = args[i]
		}
	}
	for i, p := range fn.FreeVars {
		if i < len(fvs) {
			fr.vals[p] = fvs[i]
		}
	}
	E.analysed(fn)
	for _, b := range fn.Blocks {
		fr.in[b] = make([]B, len(b.Preds))
	}
	saveCare := E.care
	E.evalRegion(fr, nil, g)
	E.care = saveCare
	// a panic runs the deferred calls too
	if fr.panicG != False && len(fr.defers) > 0 {
		E.runDefers(fr, fr.panicG, nil)
		E.care = saveCare
	}
	retG := False
	n := fn.Signature.Results().Len()
	cols := make([][]Leaf, n)
	for _, r := range fr.rets {
		retG = E.bdd.Or(retG, r.g)
		for i := range cols {
			cols[i] = append(cols[i], Leaf{r.g, r.vals[i]})
		}
	}
	out := make([]*Term, n)
	for i := range out {
		out[i] = E.Phi(cols[i])
	}
	if retG == False {
		out = E.bottoms(fn.Signature)
	}
	if retG != g && len(fr.rets) > 1 && len(cfgOf(fn).loops) > 0 && E.bdd.And(retG, g) == retG && E.never(E.bdd.And(g, E.bdd.Not(retG))) {
		// it always returns, through whichever exit of a loop
		retG = g
	}
	return out, retG
}

func (E *Engine) bottoms(sig *types.Signature) []*Term {
	out := make([]*Term, sig.Results().Len())
	for i := range out {
		out[i] = E.intern(&Term{op: "bottom"})
	}
	return out
}

// ---------------------------------------------------------------- control flow

type natLoop struct {
	head   *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	parent *natLoop
}

type cfgInfo struct {
	rpo   []*ssa.BasicBlock
	inner map[*ssa.BasicBlock]*natLoop // innermost loop of a block
	loops map[*ssa.BasicBlock]*natLoop // by head
}

var cfgs = map[*ssa.Function]*cfgInfo{}

func cfgOf(fn *ssa.Function) *cfgInfo {
	cacheMu.Lock()
	defer cacheMu.Unlock()
	if c, ok := cfgs[fn]; ok {
		return c
	}
	c := &cfgInfo{inner: map[*ssa.BasicBlock]*natLoop{}, loops: map[*ssa.BasicBlock]*natLoop{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			if !seen[b.Succs[i]] {
				dfs(b.Succs[i])
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		c.rpo = append(c.rpo, post[i])
	}
	for _, b := range c.rpo {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := c.loops[s]
				if l == nil {
					l = &natLoop{head: s, body: map[*ssa.BasicBlock]bool{s: true}}
					c.loops[s] = l
				}
				var add func(x *ssa.BasicBlock)
				add = func(x *ssa.BasicBlock) {
					if l.body[x] {
						return
					}
					l.body[x] = true
					for _, p := range x.Preds {
						if seen[p] {
							add(p)
						}
					}
				}
				add(b)
			}
		}
	}
	var ls []*natLoop
	for _, l := range c.loops {
		ls = append(ls, l)
	}
	sort.Slice(ls, func(i, j int) bool { return len(ls[i].body) < len(ls[j].body) })
	for i, l := range ls {
		for _, o := range ls[i+1:] {
			if o.body[l.head] && o != l {
				l.parent = o
				break
			}
		}
	}
	for _, b := range c.rpo {
		for _, l := range ls {
			if l.body[b] {
				c.inner[b] = l
				break
			}
		}
	}
	cfgs[fn] = c
	return c
}

// evalRegion evaluates the blocks of a function, or those of a loop body.
func (E *Engine) evalRegion(fr *frame, nl *natLoop, entry B) {
	c := cfgOf(fr.fn)
	for _, b := range c.rpo {
		in := c.inner[b]
		if nl != nil && !nl.body[b] {
			continue
		}
		if in != nl {
			// block of an inner loop: handled when its outermost loop within nl starts
			top := in
			for top.parent != nl {
				top = top.parent
			}
			if top.head == b {
				E.evalLoop(fr, top)
			}
			continue
		}
		g := False
		if (nl == nil && b == fr.fn.Blocks[0]) || (nl != nil && b == nl.head) {
			g = entry
		} else {
			for _, x := range fr.in[b] {
				g = E.bdd.Or(g, x)
			}
		}
		if g == False || !E.feasible(g) {
			E.deadBlock(fr, b)
			continue
		}
		E.evalBlock(fr, b, g, nl != nil && b == nl.head)
	}
}

func (E *Engine) deadBlock(fr *frame, b *ssa.BasicBlock) {
	for _, s := range b.Succs {
		for i, p := range s.Preds {
			if p == b {
				fr.in[s][i] = False
			}
		}
	}
	for _, in := range b.Instrs {
		if v, ok := in.(ssa.Value); ok {
			fr.vals[v] = E.intern(&Term{op: "bottom"})
		}
	}
}

func (E *Engine) evalBlock(fr *frame, b *ssa.BasicBlock, g B, phisSet bool) {
	if !phisSet {
		type pv struct {
			p *ssa.Phi
			v *Term
		}
		var pvs []pv
		for _, in := range b.Instrs {
			p, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			pvs = append(pvs, pv{p, E.phiIn(fr, b, p, nil)})
		}
		for _, x := range pvs {
			fr.vals[x.p] = x.v
		}
	}
	cur := g
	for _, in := range b.Instrs {
		if _, ok := in.(*ssa.Phi); ok {
			continue
		}
		E.care = cur
		cur = E.instr(fr, b, in, cur)
		if cur == False {
			break
		}
	}
	if cur == False {
		// what follows in the block is unreachable
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				if _, has := fr.vals[v]; !has {
					fr.vals[v] = E.intern(&Term{op: "bottom"})
				}
			}
		}
		switch b.Instrs[len(b.Instrs)-1].(type) {
		case *ssa.If, *ssa.Jump:
			for _, s := range b.Succs {
				for i, p := range s.Preds {
					if p == b {
						fr.in[s][i] = False
					}
				}
			}
		}
	}
}

// phiIn merges the values of a phi over the incoming edges, or those from only.
func (E *Engine) phiIn(fr *frame, b *ssa.BasicBlock, p *ssa.Phi, only func(*ssa.BasicBlock) bool) *Term {
	var ls []Leaf
	for i, e := range p.Edges {
		if only != nil && !only(b.Preds[i]) {
			continue
		}
		if g := fr.in[b][i]; g != False {
			ls = append(ls, Leaf{g, E.Simp(E.val(fr, e), g)})
		}
	}
	return E.Phi(ls)
}

func (E *Engine) setEdge(fr *frame, from *ssa.BasicBlock, succ int, g B) {
	to := from.Succs[succ]
	n := 0
	for i := 0; i < succ; i++ {
		if from.Succs[i] == to {
			n++
		}
	}
	for i, p := range to.Preds {
		if p == from {
			if n == 0 {
				fr.in[to][i] = g
				return
			}
			n--
		}
	}
}

func (E *Engine) val(fr *frame, v ssa.Value) *Term {
	switch x := v.(type) {
	case *ssa.Const:
		return E.constant(x)
	case *ssa.Function:
		return E.Func(x)
	case *ssa.Global:
		return E.Global(x)
	case *ssa.Builtin:
		return E.Sym("builtin:"+x.Name(), nil)
	}
	if t, ok := fr.vals[v]; ok {
		return t
	}
	E.undec("no value for %s in %s", v.Name(), fr.fn)
	return E.Sym("undef:"+fr.path+v.Name(), v.Type())
}

func (E *Engine) Global(x *ssa.Global) *Term {
	t := E.intern(&Term{op: "global", aux: x.String(), typ: deref(x.Type())})
	E.globalOf[t] = x
	return t
}

func (E *Engine) constant(c *ssa.Const) *Term {
	if c.Value == nil {
		return E.Zero(c.Type())
	}
	t := c.Type()
	switch {
	case isBool(t):
		return E.Bool(boolB(constant.BoolVal(c.Value)))
	case isString(t):
		return E.Str(constant.StringVal(c.Value))
	case isFloat(t):
		return E.Float(c.Value)
	}
	if _, ok := intKind(t); ok {
		v := constant.ToInt(c.Value)
		if i, ok := constant.Val(v).(int64); ok {
			return E.Int(i)
		}
		if i, ok := constant.Val(v).(*big.Int); ok {
			return E.BigInt(i)
		}
	}
	return E.Sym("const:"+c.Value.ExactString(), t)
}

// ---------------------------------------------------------------- instructions

func (E *Engine) instr(fr *frame, b *ssa.BasicBlock, in ssa.Instruction, g B) B {
	set := func(v ssa.Value, t *Term) { fr.vals[v] = t }
	switch x := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		t := E.intern(&Term{op: "alloc", aux: fr.site(x), typ: deref(x.Type()), args: E.its()})
		set(x, t)
		// a variable declared in a loop is fresh (zero) each time
		if len(E.loopSt) == 0 || true {
			if _, isArr := t.typ.Underlying().(*types.Array); !isArr {
				if E.touched(t) {
					E.Store(t, E.Zero(t.typ), g)
				}
			}
		}
	case *ssa.BinOp:
		set(x, E.binop(fr, x, g))
	case *ssa.UnOp:
		return E.unop(fr, x, g)
	case *ssa.Store:
		loc := E.Simp(E.val(fr, x.Addr), g)
		E.nilCheck(fr, loc, g, x.Pos())
		e := E.event(fr, "store", g, x.Pos())
		e.loc, e.val = loc, E.Simp(E.val(fr, x.Val), g)
		E.Store(loc, e.val, g)
	case *ssa.FieldAddr:
		base := E.Simp(E.val(fr, x.X), g)
		E.nilCheck(fr, base, g, x.Pos())
		set(x, E.FieldAddr(base, deref(x.X.Type()), x.Field))
	case *ssa.Field:
		set(x, E.FieldOf(E.val(fr, x.X), x.X.Type(), x.Field))
	case *ssa.IndexAddr:
		base, idx := E.Simp(E.val(fr, x.X), g), E.Simp(E.val(fr, x.Index), g)
		var n *Term
		if p, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			n = E.Int(p.Elem().Underlying().(*types.Array).Len())
		} else {
			n = E.Len(base)
		}
		E.indexCheck(fr, base, idx, n, g, x.Pos())
		set(x, E.IndexAddr(base, idx, deref(x.Type())))
	case *ssa.Index:
		base, idx := E.Simp(E.val(fr, x.X), g), E.Simp(E.val(fr, x.Index), g)
		if isString(x.X.Type()) {
			E.indexCheck(fr, base, idx, E.Len(base), g, x.Pos())
			if base.op == "str" && idx.op == "int" && idx.k.IsInt64() && idx.k.Int64() >= 0 && int(idx.k.Int64()) < len(base.aux) {
				set(x, E.Int(int64(base.aux[idx.k.Int64()])))
				return g
			}
			set(x, E.App("byteat", "", x.Type(), base, idx))
			return g
		}
		if ar, ok := x.X.Type().Underlying().(*types.Array); ok {
			E.indexCheck(fr, base, idx, E.Int(ar.Len()), g, x.Pos())
		}
		// an array loaded as a whole
		if base.op == "load" {
			set(x, E.Read(E.IndexAddr(base.args[0], idx, x.Type()), g))
			return g
		}
		if base.op == "array" && idx.op == "int" {
			set(x, E.arrayElem(base, idx, x.Type()))
			return g
		}
		set(x, E.App("index", "", x.Type(), base, idx))
	case *ssa.Lookup:
		E.lookup(fr, x, g)
	case *ssa.MapUpdate:
		E.mapUpdate(fr, x, g)
	case *ssa.MakeMap:
		if x.Reserve != nil {
			E.event(fr, "makemap", g, x.Pos()).val = E.Simp(E.val(fr, x.Reserve), g)
		}
		t := E.intern(&Term{op: "makemap", aux: fr.site(x), typ: x.Type(), args: E.its()})
		set(x, t)
	case *ssa.MakeSlice:
		n := E.Simp(E.val(fr, x.Len), g)
		ok := E.cmpInt("<=", E.Int(0), n, g)
		E.oblig(fr, "makeslice length", g, ok, x.Pos(), n)
		set(x, E.dist([]*Term{n}, func(a []*Term) *Term {
			return E.intern(&Term{op: "makeslice", aux: fr.site(x), typ: x.Type(), args: append([]*Term{a[0]}, E.its()...)})
		}))
	case *ssa.MakeChan:
		t := E.intern(&Term{op: "makechan", aux: fr.site(x), typ: x.Type(), args: append([]*Term{E.val(fr, x.Size)}, E.its()...)})
		set(x, t)
	case *ssa.MakeClosure:
		var args []*Term
		for _, v := range x.Bindings {
			args = append(args, E.Simp(E.val(fr, v), g))
		}
		fn := x.Fn.(*ssa.Function)
		set(x, E.intern(&Term{op: "closure", fn: fn, args: args, typ: x.Type()}))
	case *ssa.MakeInterface:
		set(x, E.Iface(x.X.Type(), E.Simp(E.val(fr, x.X), g)))
	case *ssa.ChangeInterface:
		set(x, E.val(fr, x.X))
	case *ssa.ChangeType:
		set(x, E.retype(E.val(fr, x.X), x.Type()))
	case *ssa.Convert:
		set(x, E.convert(fr, x, g))
	case *ssa.SliceToArrayPointer:
		set(x, E.App("toarray", "", x.Type(), E.val(fr, x.X)))
	case *ssa.TypeAssert:
		E.typeAssert(fr, x, g)
	case *ssa.Extract:
		tup := E.val(fr, x.Tuple)
		set(x, E.dist([]*Term{tup}, func(a []*Term) *Term {
			if a[0].op == "tuple" {
				return a[0].args[x.Index]
			}
			return E.typed(E.intern(&Term{op: "res", aux: fmt.Sprint(x.Index), typ: x.Type(), args: a}))
		}))
	case *ssa.Slice:
		E.slice(fr, x, g)
	case *ssa.Range:
		m := E.Simp(E.val(fr, x.X), g)
		mt, ok := x.X.Type().Underlying().(*types.Map)
		if !ok {
			set(x, E.App("striter", "", nil, m))
			return g
		}
		set(x, E.dist([]*Term{m}, func(a []*Term) *Term {
			n := E.Read(E.MlenAddr(a[0]), g)
			return E.intern(&Term{op: "iter", args: []*Term{a[0], n}, aux: E.mapVersion(a[0], mt), mapT: mt})
		}))
	case *ssa.Next:
		E.next(fr, x, g)
	case *ssa.Call:
		rs, rg := E.callCommon(fr, &x.Call, x, g)
		lost := E.bdd.And(g, E.bdd.Not(rg))
		if lost != False {
			fr.panicG = E.bdd.Or(fr.panicG, lost)
		}
		switch len(rs) {
		case 0:
			set(x, E.intern(&Term{op: "tuple"}))
		case 1:
			set(x, rs[0])
		default:
			set(x, E.tuple(rs))
		}
		if rg != False && !E.feasible(rg) {
			rg = False
		}
		return rg
	case *ssa.Go:
		E.goCall(fr, x, g)
	case *ssa.Defer:
		d := deferRec{g: g, call: &x.Call, instr: x}
		if len(E.loopSt) > 0 && E.loopSt[len(E.loopSt)-1].fr == fr {
			E.undec("deferred call in a loop in %s", fr.fn)
		}
		if x.Call.IsInvoke() {
			d.fn = E.Simp(E.val(fr, x.Call.Value), g)
		} else {
			d.fn = E.Simp(E.val(fr, x.Call.Value), g)
		}
		for _, a := range x.Call.Args {
			d.args = append(d.args, E.Simp(E.val(fr, a), g))
		}
		fr.defers = append(fr.defers, d)
	case *ssa.RunDefers:
		return E.runDefers(fr, g, x)
	case *ssa.Panic:
		e := E.event(fr, "panic", g, x.Pos())
		e.val = E.val(fr, x.X)
		fr.panicG = E.bdd.Or(fr.panicG, g)
		return False
	case *ssa.Return:
		var vs []*Term
		for _, v := range x.Results {
			vs = append(vs, E.Simp(E.val(fr, v), g))
		}
		fr.rets = append(fr.rets, retRec{g, vs})
		return False
	case *ssa.Jump:
		E.setEdge(fr, b, 0, g)
	case *ssa.If:
		c := E.Formula(E.Simp(E.val(fr, x.Cond), g))
		t, f := E.bdd.And(g, c), E.bdd.And(g, E.bdd.Not(c))
		if !E.feasible(t) {
			t = False
		}
		if !E.feasible(f) {
			f = False
		}
		E.setEdge(fr, b, 0, t)
		E.setEdge(fr, b, 1, f)
	case *ssa.Send:
		E.send(fr, E.Simp(E.val(fr, x.Chan), g), E.Simp(E.val(fr, x.X), g), g, x.Pos())
	default:
		E.undec("instruction %T in %s is not analysed", in, fr.fn)
		if v, ok := in.(ssa.Value); ok {
			set(v, E.Sym("unknown:"+fr.site(in), v.Type()))
		}
	}
	return g
}

// touched reports whether memory knows something about a fresh object.
func (E *Engine) touched(t *Term) bool {
	for i := len(E.mem) - 1; i >= 0; i-- {
		r := locRoot(E.mem[i].loc)
		if r.op == t.op && r.aux == t.aux && r == t {
			return true
		}
	}
	return false
}

func (E *Engine) tuple(ts []*Term) *Term {
	return E.intern(&Term{op: "tuple", args: append([]*Term(nil), ts...)})
}

func (E *Engine) retype(t *Term, typ types.Type) *Term {
	// the value of an integer does not depend on the name of its type
	return t
}

func (E *Engine) nilCheck(fr *frame, base *Term, g B, pos token.Pos) {
	bad := False
	for _, l := range leavesOf(base) {
		switch l.t.op {
		case "nil":
			bad = E.bdd.Or(bad, E.bdd.And(g, l.g))
		case "load", "res", "elem", "call", "tassert":
			if E.nilTracked(l.t) {
				bad = E.bdd.Or(bad, E.bdd.AndAll(g, l.g, E.Eq(l.t, E.Nil(), g)))
			}
		}
	}
	if bad != False && E.feasible(bad) {
		E.oblig(fr, "nil dereference", g, E.bdd.Not(bad), pos, base)
	}
}

func (E *Engine) indexCheck(fr *frame, base, idx, n *Term, g B, pos token.Pos) {
	ok := E.bdd.And(E.cmpInt("<=", E.Int(0), idx, g), E.cmpInt("<", idx, n, g))
	if !E.obligations {
		return
	}
	E.oblig(fr, "index", g, ok, pos, base, idx, n)
}

func (E *Engine) binop(fr *frame, x *ssa.BinOp, g B) *Term {
	a, b := E.Simp(E.val(fr, x.X), g), E.Simp(E.val(fr, x.Y), g)
	t := x.X.Type()
	switch x.Op {
	case token.EQL:
		return E.Bool(E.Eq(a, b, g))
	case token.NEQ:
		return E.Bool(E.bdd.Not(E.Eq(a, b, g)))
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		op := x.Op
		if op == token.GTR {
			a, b, op = b, a, token.LSS
		} else if op == token.GEQ {
			a, b, op = b, a, token.LEQ
		}
		if _, ok := intKind(t); ok {
			if op == token.LSS {
				return E.Bool(E.cmpInt("<", a, b, g))
			}
			return E.Bool(E.cmpInt("<=", a, b, g))
		}
		if isFloat(t) {
			r := False
			for _, la := range leavesOf(a) {
				for _, lb := range leavesOf(b) {
					gg := E.bdd.And(la.g, lb.g)
					if E.bdd.And(gg, g) == False {
						continue
					}
					c := E.flt(la.t, lb.t)
					if op == token.LEQ {
						c = E.bdd.AndAll(E.bdd.Not(E.flt(lb.t, la.t)), E.bdd.Not(E.nan(la.t)), E.bdd.Not(E.nan(lb.t)))
					}
					r = E.bdd.Or(r, E.bdd.And(gg, c))
				}
			}
			return E.Bool(r)
		}
		return E.App("cmp"+op.String(), "", types.Typ[types.Bool], a, b)
	}
	if ik, ok := intKind(t); ok {
		switch x.Op {
		case token.ADD:
			return E.Add(a, b, ik)
		case token.SUB:
			return E.Sub(a, b, ik)
		case token.MUL:
			return E.Mul(a, b, ik)
		case token.QUO, token.REM:
			nz := E.bdd.Not(E.Eq(b, E.Int(0), g))
			if b.op != "int" {
				E.oblig(fr, "division by zero", g, nz, x.Pos(), b)
			}
			return E.dist([]*Term{a, b}, func(y []*Term) *Term {
				if y[1].op == "int" && y[1].k.Sign() != 0 && y[0].op == "int" {
					q, r := new(big.Int).QuoRem(y[0].k, y[1].k, new(big.Int))
					if x.Op == token.QUO {
						return E.BigInt(q)
					}
					return E.BigInt(r)
				}
				if k := y[1]; k.op == "int" && !ik.signed && k.k.Sign() > 0 && k.k.BitLen() > 1 && new(big.Int).And(k.k, new(big.Int).Sub(k.k, bigOne)).Sign() == 0 {
					// by a power of two
					if x.Op == token.QUO {
						q := E.bitOp(">>", y[0], E.Int(int64(k.k.BitLen()-1)), t)
						if q.op != "int" && q.op != "phi" && E.facts[q] == nil {
							// c*q <= x <= c*q + c-1
							c := linForm{[]*Term{q}, []*big.Int{k.k}, big.NewInt(0)}
							d := linAdd(c, asLin(y[0]), big.NewInt(-1))
							u := linAdd(asLin(y[0]), c, big.NewInt(-1))
							u.k = new(big.Int).Sub(u.k, new(big.Int).Sub(k.k, bigOne))
							E.facts[q] = append(E.facts[q], d, u)
						}
						return q
					}
					return E.bitOp("&", y[0], E.BigInt(new(big.Int).Sub(k.k, bigOne)), t)
				}
				if x.Op == token.QUO {
					return E.intern(&Term{op: "div", args: append([]*Term(nil), y...), typ: t})
				}
				return E.intern(&Term{op: "mod", args: append([]*Term(nil), y...), typ: t})
			})
		case token.SHL, token.SHR, token.AND, token.OR, token.XOR, token.AND_NOT:
			return E.bitOp(x.Op.String(), a, b, t)
		}
	}
	if isString(t) && x.Op == token.ADD {
		return E.Concat(a, b)
	}
	if isFloat(t) {
		return E.floatOp(x.Op, a, b, t)
	}
	return E.App("op"+x.Op.String(), "", x.Type(), a, b)
}

// floatOp keeps products with constants as coefficients ("fscale"), sums and
// products of others are uninterpreted but commutative.
func (E *Engine) floatOp(op token.Token, a, b *Term, t types.Type) *Term {
	return E.dist([]*Term{a, b}, func(y []*Term) *Term {
		p, q := y[0], y[1]
		if p.op == "float" && q.op == "float" {
			return E.Float(constant.BinaryOp(p.cv, op, q.cv))
		}
		switch op {
		case token.MUL, token.QUO:
			if op == token.MUL && p.op == "float" {
				p, q = q, p
			}
			if q.op == "float" && constant.Sign(q.cv) != 0 {
				c := q.cv
				if op == token.QUO {
					c = constant.BinaryOp(constant.MakeFloat64(1), token.QUO, c)
				}
				return E.fscale(p, c, t)
			}
			if op == token.MUL && p.id > q.id {
				p, q = q, p
			}
			return E.intern(&Term{op: "f" + op.String(), args: []*Term{p, q}, typ: t})
		case token.SUB:
			q = E.fscale(q, constant.MakeFloat64(-1), t)
			fallthrough
		case token.ADD:
			if p.id > q.id {
				p, q = q, p
			}
			return E.intern(&Term{op: "f+", args: []*Term{p, q}, typ: t})
		}
		return E.intern(&Term{op: "f" + op.String(), args: []*Term{p, q}, typ: t})
	})
}

func (E *Engine) fscale(p *Term, c constant.Value, t types.Type) *Term {
	if p.op == "float" {
		return E.Float(constant.BinaryOp(p.cv, token.MUL, c))
	}
	if p.op == "fscale" {
		c = constant.BinaryOp(p.cv, token.MUL, c)
		p = p.args[0]
	}
	f, _ := constant.Float64Val(c)
	if f == 1 {
		return p
	}
	return E.intern(&Term{op: "fscale", aux: fmt.Sprintf("%.12g", f), cv: c, args: []*Term{p}, typ: t})
}

func (E *Engine) unop(fr *frame, x *ssa.UnOp, g B) B {
	v := E.Simp(E.val(fr, x.X), g)
	switch x.Op {
	case token.MUL:
		E.nilCheck(fr, v, g, x.Pos())
		e := E.event(fr, "load", g, x.Pos())
		e.loc = v
		fr.vals[x] = E.Read(v, g)
		e.val = fr.vals[x]
	case token.NOT:
		fr.vals[x] = E.Bool(E.bdd.Not(E.Formula(v)))
	case token.SUB:
		if ik, ok := intKind(x.Type()); ok {
			fr.vals[x] = E.Sub(E.Int(0), v, ik)
		} else {
			fr.vals[x] = E.dist([]*Term{v}, func(a []*Term) *Term { return E.fscale(a[0], constant.MakeFloat64(-1), x.Type()) })
		}
	case token.XOR:
		fr.vals[x] = E.bitOp("^", v, E.BigInt(big.NewInt(-1)), x.Type())
	case token.ARROW:
		val, ok := E.recv(fr, x, v, g, x.Pos(), deref(x.X.Type().Underlying().(*types.Chan).Elem()))
		if x.CommaOk {
			fr.vals[x] = E.tuple([]*Term{val, E.Bool(ok)})
		} else {
			fr.vals[x] = val
		}
	}
	return g
}

func (E *Engine) lookup(fr *frame, x *ssa.Lookup, g B) {
	m, k := E.Simp(E.val(fr, x.X), g), E.Simp(E.val(fr, x.Index), g)
	mt, ok := x.X.Type().Underlying().(*types.Map)
	if !ok {
		E.indexCheck(fr, m, k, E.Len(m), g, x.Pos())
		if m.op == "str" && k.op == "int" && k.k.Sign() >= 0 && k.k.IsInt64() && k.k.Int64() < int64(len(m.aux)) {
			fr.vals[x] = E.Int(int64(m.aux[k.k.Int64()]))
			return
		}
		fr.vals[x] = E.App("byteat", "", x.Type(), m, k)
		return
	}
	e := E.event(fr, "mapload", g, x.Pos())
	e.loc, e.args = m, []*Term{k}
	has := E.Formula(E.Read(E.HasAddr(m, k, mt.Elem()), g))
	v := E.Read(E.MapAddr(m, k, mt.Elem()), E.bdd.And(g, has))
	val := E.Phi([]Leaf{{E.bdd.And(g, has), v}, {E.bdd.And(g, E.bdd.Not(has)), E.Zero(mt.Elem())}})
	e.val = val
	if x.CommaOk {
		fr.vals[x] = E.tuple([]*Term{val, E.Bool(E.bdd.Restrict(has, g))})
	} else {
		fr.vals[x] = val
	}
}

func (E *Engine) mapUpdate(fr *frame, x *ssa.MapUpdate, g B) {
	m, k, v := E.Simp(E.val(fr, x.Map), g), E.Simp(E.val(fr, x.Key), g), E.Simp(E.val(fr, x.Value), g)
	mt := x.Map.Type().Underlying().(*types.Map)
	e := E.event(fr, "mapstore", g, x.Pos())
	e.loc, e.args, e.val = m, []*Term{k}, v
	ok := E.bdd.Not(E.Eq(m, E.Nil(), g))
	if E.obligations {
		E.oblig(fr, "write to nil map", g, ok, x.Pos(), m)
	}
	has := E.Read(E.HasAddr(m, k, mt.Elem()), g)
	if E.newKey(fr, x, k) {
		has = E.Bool(False)
	}
	n := E.Read(E.MlenAddr(m), g)
	nn := E.Phi([]Leaf{{E.bdd.And(g, E.Formula(has)), n}, {E.bdd.And(g, E.bdd.Not(E.Formula(has))), E.Add(n, E.Int(1), ikind{64, true})}})
	E.Store(E.MlenAddr(m), nn, g)
	E.Store(E.HasAddr(m, k, mt.Elem()), E.Bool(True), E.alsoIf(g, E.HasAddr(m, k, mt.Elem())))
	E.Store(E.MapAddr(m, k, mt.Elem()), v, g)
}

// alsoIf is g, or else the location is true already: storing true if g is the same then.
// A loop that inserts what is not there inserts everything.
func (E *Engine) alsoIf(g B, loc *Term) B {
	was := E.Formula(E.Read(loc, True))
	if was == True || was == False || E.bdd.And(g, was) != False {
		return g
	}
	for _, v := range E.bdd.Support(was) {
		if w := E.bdd.Exists(g, v); w != g && E.bdd.AndAll(w, E.bdd.Not(g), E.bdd.Not(was)) == False {
			return w
		}
	}
	return g
}

// newKey: a map made empty before a loop is filled by one statement in the loop, whose
// key differs from iteration to iteration.
func (E *Engine) newKey(fr *frame, x *ssa.MapUpdate, k *Term) bool {
	mk, ok := x.Map.(*ssa.MakeMap)
	nl := cfgOf(fr.fn).inner[x.Block()]
	if !ok || nl == nil || nl.body[mk.Block()] || len(E.loopSt) == 0 {
		return false
	}
	L := E.loopSt[len(E.loopSt)-1]
	if L.head != nl.head || k.op != "key" || k.args[1] != L.it {
		return false
	}
	for _, r := range *mk.Referrers() {
		if r == ssa.Instruction(x) {
			continue
		}
		if _, ok := r.(*ssa.DebugRef); ok {
			continue
		}
		if nl.body[r.Block()] || !nl.head.Dominates(r.Block()) {
			return false
		}
	}
	return true
}

// mapVersion identifies the content of a map by the last write that can be to it.
func (E *Engine) mapVersion(m *Term, mt *types.Map) string {
	cls := "h:" + typeStr(mt.Elem())
	for i := len(E.mem) - 1; i >= 0; i-- {
		e := E.mem[i]
		if e.cls != cls {
			continue
		}
		if e.kind == "havoc" && (e.root == nil || E.mayShareRoot(e.root, locRoot(m))) {
			return fmt.Sprint(i)
		}
		if e.kind != "havoc" && E.bdd.And(E.Eq(e.loc.args[0], m, True), e.g) != False {
			return fmt.Sprint(i)
		}
	}
	return ""
}

// next is a step of the iteration over a map.
func (E *Engine) next(fr *frame, x *ssa.Next, g B) {
	it := E.val(fr, x.Iter)
	var loop *Loop
	if n := len(E.loopSt); n > 0 && E.loopSt[n-1].fr == fr && E.loopSt[n-1].head == x.Block() {
		loop = E.loopSt[n-1]
	}
	tt := x.Type().(*types.Tuple)
	if x.IsString || loop == nil {
		// after the loop
		fr.vals[x] = E.tuple([]*Term{E.Bool(False), E.intern(&Term{op: "bottom"}), E.intern(&Term{op: "bottom"})})
		if x.IsString {
			E.undec("iteration over the runes of a string in %s", fr.fn)
		}
		return
	}
	kt := types.Type(nil)
	_ = tt
	var oks []Leaf
	var ks, vs []Leaf
	for _, l := range leavesOf(it) {
		if l.t.op != "iter" {
			continue
		}
		m, n := l.t.args[0], l.t.args[1]
		mt := l.t.mapT
		kt = mt.Key()
		k := E.mapKey(m, mt, l.t.aux, loop.it, kt)
		oks = append(oks, Leaf{l.g, E.Bool(E.cmpInt("<", loop.it, n, g))})
		ks = append(ks, Leaf{l.g, k})
		e := E.event(fr, "maprange", g, x.Pos())
		e.loc = m
		vs = append(vs, Leaf{l.g, E.Read(E.MapAddr(m, k, mt.Elem()), g)})
		loop.domain = n
	}
	fr.vals[x] = E.tuple([]*Term{E.Phi(oks), E.Phi(ks), E.Phi(vs)})
}

// mapKey is the key of iteration it over m. A map that was filled with the keys of
// another map has the same keys.
func (E *Engine) mapKey(m *Term, mt *types.Map, ver string, it *Term, kt types.Type) *Term {
	if m.op == "makemap" {
		var only *memEntry
		n := 0
		for _, e := range E.mem {
			if e.kind != "havoc" && e.loc.op == "haddr" && locRoot(e.loc) == m {
				only = e
				n++
			}
		}
		if n == 1 && only.kind == "gen" {
			k := only.loc.args[1]
			if k.op == "key" && len(only.vars) == 1 && k.args[1] == only.vars[0].v && only.uncond {
				return E.Key(k.args[0], k.mapT, k.aux, it, kt)
			}
		}
	}
	return E.Key(m, mt, ver, it, kt)
}

func (E *Engine) Key(m *Term, mt *types.Map, ver string, it *Term, kt types.Type) *Term {
	if it.op == "keyidx" && it.args[0] == m && it.aux == ver {
		return it.args[1]
	}
	return E.intern(&Term{op: "key", aux: ver, typ: kt, mapT: mt, args: []*Term{m, it}})
}

func (E *Engine) typeAssert(fr *frame, x *ssa.TypeAssert, g B) {
	v := E.Simp(E.val(fr, x.X), g)
	var is B
	var val *Term
	if it, ok := x.AssertedType.Underlying().(*types.Interface); ok {
		is = E.IsType(v, x.AssertedType)
		_ = it
		val = v
	} else {
		is = E.IsType(v, x.AssertedType)
		val = E.Simp(E.Tassert(v, x.AssertedType), E.bdd.And(g, is))
	}
	if x.CommaOk {
		z := E.Zero(x.AssertedType)
		r := E.Phi([]Leaf{{E.bdd.And(g, is), val}, {E.bdd.And(g, E.bdd.Not(is)), z}})
		fr.vals[x] = E.tuple([]*Term{r, E.Bool(E.bdd.Restrict(is, g))})
		return
	}
	E.oblig(fr, "type assertion", g, is, x.Pos(), v).typ = x.AssertedType
	fr.vals[x] = val
}

func (E *Engine) slice(fr *frame, x *ssa.Slice, g B) {
	base := E.Simp(E.val(fr, x.X), g)
	var lo, hi *Term = E.Int(0), nil
	if x.Low != nil {
		lo = E.Simp(E.val(fr, x.Low), g)
	}
	if x.High != nil {
		hi = E.Simp(E.val(fr, x.High), g)
	}
	if p, ok := x.X.Type().Underlying().(*types.Pointer); ok {
		base = E.dist([]*Term{base}, func(a []*Term) *Term {
			return E.intern(&Term{op: "arrayslice", args: a, typ: types.NewSlice(p.Elem().Underlying().(*types.Array).Elem())})
		})
	}
	n := E.Len(base)
	top := n
	if hi != nil {
		top = hi
	}
	ok := E.bdd.AndAll(E.cmpInt("<=", E.Int(0), lo, g), E.cmpInt("<=", lo, top, g), E.cmpInt("<=", top, n, g))
	if E.obligations {
		E.oblig(fr, "slice bounds", g, ok, x.Pos(), base, lo, top)
	}
	if lo.op == "int" && lo.k.Sign() == 0 && (hi == nil || hi == n) {
		fr.vals[x] = base
		return
	}
	h := hi
	if h == nil {
		h = E.Nil()
	}
	fr.vals[x] = E.dist([]*Term{base, lo, h}, func(a []*Term) *Term {
		if a[0].op == "str" && a[1].op == "int" && (a[2].op == "int" || a[2].op == "nil") {
			s := a[0].aux
			l, e := int(a[1].k.Int64()), len(s)
			if a[2].op == "int" {
				e = int(a[2].k.Int64())
			}
			if 0 <= l && l <= e && e <= len(s) {
				return E.Str(s[l:e])
			}
		}
		return E.intern(&Term{op: "slice", args: append([]*Term(nil), a...), typ: x.Type()})
	})
}

func (E *Engine) convert(fr *frame, x *ssa.Convert, g B) *Term {
	v := E.Simp(E.val(fr, x.X), g)
	from, to := x.X.Type(), x.Type()
	_, fi := intKind(from)
	_, ti := intKind(to)
	if (fi || isFloat(from)) && (ti || isFloat(to)) {
		return E.Conv(v, to, g)
	}
	if isString(from) {
		if _, ok := to.Underlying().(*types.Slice); ok {
			return E.dist([]*Term{v}, func(a []*Term) *Term {
				return E.intern(&Term{op: "bytes", args: a, typ: to})
			})
		}
		return v
	}
	if isString(to) && !fi {
		return E.dist([]*Term{v}, func(a []*Term) *Term {
			if a[0].op == "bytes" {
				return a[0].args[0]
			}
			return E.intern(&Term{op: "strof", args: a, typ: to})
		})
	}
	fb, fp := from.Underlying().(*types.Basic)
	if fp && fb.Kind() == types.UnsafePointer {
		if p, ok := to.Underlying().(*types.Pointer); ok {
			for _, l := range leavesOf(v) {
				lg := E.bdd.And(g, l.g)
				if lg == False {
					continue
				}
				src := l.t
				if src.op == "unsafe" {
					src = src.args[0]
				}
				for _, sl := range leavesOf(src) {
					if sg := E.bdd.And(lg, sl.g); sg != False {
						e := E.event(fr, "cast", sg, x.Pos())
						e.loc = sl.t
						e.val = E.intern(&Term{op: "cast", aux: typeStr(p.Elem()), args: []*Term{sl.t}, typ: p.Elem()})
					}
				}
			}
			return E.dist([]*Term{v}, func(a []*Term) *Term {
				src := a[0]
				if src.op == "unsafe" {
					src = src.args[0]
				}
				return E.dist([]*Term{src}, func(a []*Term) *Term {
					return E.intern(&Term{op: "cast", aux: typeStr(p.Elem()), args: a[:1], typ: p.Elem()})
				})
			})
		}
	}
	if tb, ok := to.Underlying().(*types.Basic); ok && tb.Kind() == types.UnsafePointer {
		return E.App("unsafe", "", to, v)
	}
	return E.App("convert", typeStr(to), to, v)
}
