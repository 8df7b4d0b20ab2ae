package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const modPath = "github.com/performancecopilot/speed/v4"

func inModule(fn *ssa.Function) bool {
	if fn.Pkg != nil {
		return strings.HasPrefix(fn.Pkg.Pkg.Path(), modPath)
	}
	if fn.Parent() != nil {
		return inModule(fn.Parent())
	}
	// wrappers
	if fn.Signature.Recv() != nil {
		if n := namedOf(fn.Signature.Recv().Type()); n != nil && n.Obj().Pkg() != nil {
			return strings.HasPrefix(n.Obj().Pkg().Path(), modPath)
		}
	}
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		return strings.HasPrefix(o.Pkg().Path(), modPath)
	}
	return fn.Synthetic != ""
}

func namedOf(t types.Type) *types.Named {
	if p, ok := types.Unalias(t).(*types.Pointer); ok {
		t = p.Elem()
	}
	n, _ := types.Unalias(t).(*types.Named)
	return n
}

func (E *Engine) callCommon(fr *frame, c *ssa.CallCommon, in ssa.Instruction, g B) ([]*Term, B) {
	var args []*Term
	for _, a := range c.Args {
		args = append(args, E.Simp(E.val(fr, a), g))
	}
	f := E.Simp(E.val(fr, c.Value), g)
	return E.callWith(fr, c, in, f, args, g)
}

func (E *Engine) callWith(fr *frame, c *ssa.CallCommon, in ssa.Instruction, f *Term, args []*Term, g B) ([]*Term, B) {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return E.builtin(fr, b, c, args, in, g)
	}
	var rs []*Term
	var rg B
	if c.IsInvoke() {
		rs, rg = E.invoke(fr, f, c.Method, args, in, g)
	} else {
		rs, rg = E.callValue(fr, f, c.Signature(), args, in, g)
	}
	if E.retEvents && len(errResults(c.Signature())) > 0 {
		e := E.event(fr, "ret", rg, in.Pos())
		e.res, e.args, e.loc, e.typ = rs, args, f, c.Signature()
		e.fn = c.StaticCallee()
		switch {
		case e.fn != nil:
			e.name = e.fn.String()
		case c.IsInvoke():
			e.name = c.Method.FullName()
		default:
			e.name = "a function value"
		}
	}
	return rs, rg
}

// errResults are the results of a function that are errors.
func errResults(sig *types.Signature) []int {
	var r []int
	for i := 0; i < sig.Results().Len(); i++ {
		if isErrorT(sig.Results().At(i).Type()) {
			r = append(r, i)
		}
	}
	return r
}

func isErrorT(t types.Type) bool { return types.Identical(t, types.Universe.Lookup("error").Type()) }

type callRes struct {
	rs []*Term
	g  B
}

func (E *Engine) mergeCalls(sig *types.Signature, cs []callRes) ([]*Term, B) {
	if len(cs) == 1 {
		return cs[0].rs, cs[0].g
	}
	n := sig.Results().Len()
	rg := False
	cols := make([][]Leaf, n)
	for _, c := range cs {
		rg = E.bdd.Or(rg, c.g)
		for i := range cols {
			cols[i] = append(cols[i], Leaf{c.g, c.rs[i]})
		}
	}
	out := make([]*Term, n)
	for i := range out {
		out[i] = E.Phi(cols[i])
	}
	return out, rg
}

func (E *Engine) callValue(fr *frame, f *Term, sig *types.Signature, args []*Term, in ssa.Instruction, g B) ([]*Term, B) {
	var cs []callRes
	for _, l := range leavesOf(f) {
		lg := E.bdd.And(g, l.g)
		if lg == False || !E.feasible(lg) {
			continue
		}
		var a []*Term
		for _, x := range args {
			a = append(a, E.Simp(x, lg))
		}
		switch l.t.op {
		case "func":
			rs, rg := E.CallFn(l.t.fn, a, nil, lg, fr, in)
			cs = append(cs, callRes{rs, rg})
		case "closure":
			rs, rg := E.CallFn(l.t.fn, a, l.t.args, lg, fr, in)
			cs = append(cs, callRes{rs, rg})
		case "nil":
			E.oblig(fr, "call of nil function", lg, False, in.Pos(), l.t)
		default:
			nl := E.Eq(l.t, E.Nil(), lg)
			if nl != False && E.feasible(E.bdd.And(lg, nl)) {
				E.oblig(fr, "call of nil function", lg, E.bdd.Not(nl), in.Pos(), l.t)
			}
			cands := E.prog.funcCands(sig)
			lg = E.bdd.And(lg, E.bdd.Not(nl))
			if len(cands) == 0 || len(cands) > 4 {
				e := E.event(fr, "dyncall", lg, in.Pos())
				e.loc, e.args = l.t, a
				rs := E.results(fr, in, sig, "dyn")
				e.res = rs
				cs = append(cs, callRes{rs, lg})
				continue
			}
			rem := lg
			for i, cf := range cands {
				cg := rem
				if i < len(cands)-1 {
					is := E.atomB(&atom{kind: "b", x: E.intern(&Term{op: "isfn", aux: cf.String(), args: []*Term{l.t}})})
					cg = E.bdd.And(rem, is)
					rem = E.bdd.And(rem, E.bdd.Not(is))
				}
				rs, rg := E.CallFn(cf, a, E.freeVars(cf, l.t), cg, fr, in)
				cs = append(cs, callRes{rs, rg})
			}
		}
	}
	if len(cs) == 0 {
		return E.bottoms(sig), False
	}
	return E.mergeCalls(sig, cs)
}

// freeVars: what an unknown closure of a function has captured.
func (E *Engine) freeVars(fn *ssa.Function, closure *Term) []*Term {
	var fvs []*Term
	for j, v := range fn.FreeVars {
		fvs = append(fvs, E.typed(E.intern(&Term{op: "fv", aux: freeVarName(fn, j), typ: freeVarType(v), args: []*Term{closure}})))
	}
	return fvs
}

func freeVarName(fn *ssa.Function, i int) string { return fmt.Sprintf("%s/%d", fn.String(), i) }

// captured: the function in a captured variable that is assigned once, to it, before it
// is captured.
func (E *Engine) captured(fv *Term) *Term {
	c := E.prog.capturedFuncs()[fv.aux]
	if c == nil {
		return nil
	}
	if len(c.fn.FreeVars) == 0 {
		return E.intern(&Term{op: "func", fn: c.fn, typ: c.fn.Signature})
	}
	self := E.intern(&Term{op: "captured", typ: c.fn.Signature, args: []*Term{fv}})
	fvs, outer := E.freeVars(c.fn, self), E.freeVars(c.of, fv.args[0])
	for x, y := range c.same {
		fvs[x] = outer[y]
	}
	return E.intern(&Term{op: "closure", fn: c.fn, args: fvs, typ: c.fn.Signature})
}

func freeVarType(v *ssa.FreeVar) types.Type { return deref(v.Type()) }

func (E *Engine) invoke(fr *frame, recv *Term, m *types.Func, args []*Term, in ssa.Instruction, g B) ([]*Term, B) {
	sig := m.Type().(*types.Signature)
	var cs []callRes
	for _, l := range leavesOf(recv) {
		lg := E.bdd.And(g, l.g)
		if lg == False || !E.feasible(lg) {
			continue
		}
		var a []*Term
		for _, x := range args {
			a = append(a, E.Simp(x, lg))
		}
		if E.clientMode && isWriterIface(sig.Recv().Type()) {
			if rs, rg, ok := E.writerCall(fr, l.t, m.Name(), a, lg, in); ok {
				cs = append(cs, callRes{rs, rg})
				continue
			}
		}
		switch l.t.op {
		case "iface":
			fn := E.prog.ssa.LookupMethod(l.t.typ, m.Pkg(), m.Name())
			if fn == nil {
				E.undec("no method %s on %s", m.Name(), typeStrShort(l.t.typ))
				continue
			}
			rs, rg := E.CallFn(fn, append([]*Term{l.t.args[0]}, a...), nil, lg, fr, in)
			cs = append(cs, callRes{rs, rg})
		case "nil":
			E.oblig(fr, "method call on nil", lg, False, in.Pos(), l.t)
		case "hasher":
			rs, ok := E.hashCall(l.t, m, a, lg)
			if !ok {
				E.undec("the method %s of a hash", m.Name())
			}
			cs = append(cs, callRes{rs, lg})
		default:
			rem := lg
			if E.nilTracked(l.t) {
				nl := E.Eq(l.t, E.Nil(), lg)
				if E.feasible(E.bdd.And(lg, nl)) {
					E.oblig(fr, "method call on nil", lg, E.bdd.Not(nl), in.Pos(), l.t)
					rem = E.bdd.And(rem, E.bdd.Not(nl))
				}
			}
			cands := E.prog.implementers(sig.Recv().Type())
			for _, T := range cands {
				is := E.IsType(l.t, T)
				cg := E.bdd.And(rem, is)
				if cg == False || !E.feasible(cg) {
					continue
				}
				rem = E.bdd.And(rem, E.bdd.Not(is))
				fn := E.prog.ssa.LookupMethod(T, m.Pkg(), m.Name())
				if fn == nil {
					continue
				}
				rs, rg := E.CallFn(fn, append([]*Term{E.Tassert(l.t, T)}, a...), nil, cg, fr, in)
				cs = append(cs, callRes{rs, rg})
			}
			if rem != False && E.feasible(rem) && !(E.closedIface != nil && E.closedIface(l.t, sig.Recv().Type())) {
				n := sig.Results().Len()
				rs := make([]*Term, n)
				e := E.event(fr, "invoke", rem, in.Pos())
				e.loc, e.name, e.args = l.t, m.Name(), a
				for i := range rs {
					if E.pureInvoke(sig) {
						rs[i] = E.App("invoke", fmt.Sprintf("%s/%d", m.Name(), i), sig.Results().At(i).Type(), append([]*Term{l.t}, a...)...)
					} else {
						rs[i] = E.result(fr, in, fmt.Sprintf("%s/%d", m.Name(), i), sig.Results().At(i).Type())
					}
				}
				e.res = rs
				cs = append(cs, callRes{rs, rem})
			}
		}
	}
	if len(cs) == 0 {
		return E.bottoms(sig), False
	}
	return E.mergeCalls(sig, cs)
}

// pureInvoke: methods of unknown implementations of the accessor interfaces of the
// module are taken to be functions of the receiver.
func (E *Engine) pureInvoke(sig *types.Signature) bool {
	n := namedOf(sig.Recv().Type())
	return n != nil && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), modPath) && !isWriterIface(sig.Recv().Type())
}

// result is the result of an impure call, different for every call.
func (E *Engine) result(fr *frame, in ssa.Instruction, name string, typ types.Type) *Term {
	site := "top"
	if fr != nil && in != nil {
		site = fr.site(in)
	}
	return E.typed(E.intern(&Term{op: "res", aux: site + "/" + name, typ: typ, args: E.its()}))
}

func (E *Engine) results(fr *frame, in ssa.Instruction, sig *types.Signature, name string) []*Term {
	out := make([]*Term, sig.Results().Len())
	for i := range out {
		out[i] = E.result(fr, in, fmt.Sprintf("%s/%d", name, i), sig.Results().At(i).Type())
	}
	return out
}

// ---------------------------------------------------------------- goroutines, defers

func (E *Engine) goCall(fr *frame, x *ssa.Go, g B) {
	e := E.event(fr, "go", g, x.Pos())
	th := &threadInfo{parent: E.thread, spawn: e, id: len(E.threads)}
	E.threads = append(E.threads, th)
	e.name = fmt.Sprint(th.id)
	save := E.thread
	E.thread = th.id
	rs, rg := E.callCommon(fr, &x.Call, x, g)
	_ = rs
	_ = rg
	end := E.event(fr, "goend", rg, x.Pos())
	end.name = fmt.Sprint(th.id)
	E.thread = save
	E.care = g
}

func (E *Engine) runDefers(fr *frame, g B, in ssa.Instruction) B {
	for i := len(fr.defers) - 1; i >= 0; i-- {
		d := fr.defers[i]
		dg := E.bdd.And(g, d.g)
		if dg == False || !E.feasible(dg) {
			continue
		}
		E.care = dg
		_, rg := E.callWith(fr, d.call, d.instr, E.Simp(d.fn, dg), d.args, dg)
		lost := E.bdd.And(dg, E.bdd.Not(rg))
		if lost != False && E.feasible(lost) {
			g = E.bdd.And(g, E.bdd.Not(lost))
			if in != nil {
				fr.panicG = E.bdd.Or(fr.panicG, lost)
			}
		}
	}
	E.care = g
	return g
}

// ---------------------------------------------------------------- channels

func (E *Engine) send(fr *frame, ch, v *Term, g B, pos token.Pos) {
	full := E.Formula(E.Read(E.Ghost(ch, "chfull", types.Typ[types.Bool]), g))
	e := E.event(fr, "send", g, pos)
	e.loc, e.val = ch, v
	e.ok = E.bdd.Not(full)
	E.Store(E.Ghost(ch, "chval", chanElem(ch)), v, g)
	E.Store(E.Ghost(ch, "chfull", types.Typ[types.Bool]), E.Bool(True), g)
}

func chanElem(ch *Term) types.Type {
	for _, l := range leavesOf(ch) {
		if l.t.typ != nil {
			if c, ok := l.t.typ.Underlying().(*types.Chan); ok {
				return c.Elem()
			}
		}
	}
	return types.Typ[types.Int]
}

// isBuffered: channels made with room for a value, and only those.
func isBuffered(ch *Term) bool {
	for _, l := range leavesOf(ch) {
		if l.t.op != "makechan" || l.t.args[0].op != "int" || l.t.args[0].k.Sign() <= 0 {
			return false
		}
	}
	return true
}

// isUnbuffered: channels made without room for a value.
func isUnbuffered(ch *Term) bool {
	for _, l := range leavesOf(ch) {
		if l.t.op == "makechan" && l.t.args[0].op == "int" && l.t.args[0].k.Sign() == 0 {
			return true
		}
	}
	return false
}

func (E *Engine) recv(fr *frame, in ssa.Instruction, ch *Term, g B, pos token.Pos, elem types.Type) (*Term, B) {
	full := E.Formula(E.Read(E.Ghost(ch, "chfull", types.Typ[types.Bool]), g))
	e := E.event(fr, "recv", g, pos)
	e.loc = ch
	e.ok = full
	fg := E.bdd.And(g, full)
	if fg == False || !E.feasible(fg) {
		fg = g
	}
	v := E.Read(E.Ghost(ch, "chval", chanElem(ch)), fg)
	if E.symTokens && !isUnbuffered(ch) {
		// whoever had it before: any value
		v = E.result(fr, in, "token", elem)
	}
	e.val = v
	E.Store(E.Ghost(ch, "chfull", types.Typ[types.Bool]), E.Bool(False), g)
	return v, True
}

// ---------------------------------------------------------------- builtins

func (E *Engine) builtin(fr *frame, b *ssa.Builtin, c *ssa.CallCommon, args []*Term, in ssa.Instruction, g B) ([]*Term, B) {
	one := func(t *Term) ([]*Term, B) { return []*Term{t}, g }
	switch b.Name() {
	case "len", "cap":
		t := c.Args[0].Type()
		if _, ok := t.Underlying().(*types.Map); ok {
			return one(E.Read(E.MlenAddr(args[0]), g))
		}
		if p, ok := t.Underlying().(*types.Pointer); ok {
			return one(E.Int(p.Elem().Underlying().(*types.Array).Len()))
		}
		if a, ok := t.Underlying().(*types.Array); ok {
			return one(E.Int(a.Len()))
		}
		if _, ok := t.Underlying().(*types.Chan); ok {
			return one(E.result(fr, in, "chanlen", types.Typ[types.Int]))
		}
		if b.Name() == "cap" {
			n := E.Len(args[0])
			if args[0].op != "makeslice" {
				return one(E.App("cap", "", types.Typ[types.Int], args[0]))
			}
			return one(n)
		}
		return one(E.Len(args[0]))
	case "append":
		s := args[0]
		if len(args) == 1 {
			return one(s)
		}
		if isString(c.Args[1].Type()) {
			return one(E.App("append", "", c.Args[0].Type(), s, E.App("bytes", "", c.Args[0].Type(), args[1])))
		}
		y := E.listOf(args[1], g)
		return one(E.dist([]*Term{s, y}, func(a []*Term) *Term { return E.Append(a[0], a[1], c.Args[0].Type()) }))
	case "copy":
		n := E.result(fr, in, "copy", types.Typ[types.Int])
		e := E.event(fr, "copy", g, in.Pos())
		e.loc, e.args = args[0], []*Term{args[1]}
		ld, ls := E.Len(args[0]), E.Len(args[1])
		le := E.cmpInt("<=", ls, ld, g)
		n = E.Phi([]Leaf{{E.bdd.And(g, le), ls}, {E.bdd.And(g, E.bdd.Not(le)), ld}})
		e.val = n
		E.havocRoot(args[0], c.Args[0].Type(), g, fr.site(in))
		return one(n)
	case "delete":
		m, k := args[0], args[1]
		mt := c.Args[0].Type().Underlying().(*types.Map)
		e := E.event(fr, "mapdelete", g, in.Pos())
		e.loc, e.args = m, []*Term{k}
		has := E.Formula(E.Read(E.HasAddr(m, k, mt.Elem()), g))
		n := E.Read(E.MlenAddr(m), g)
		E.Store(E.MlenAddr(m), E.Phi([]Leaf{{E.bdd.And(g, has), E.Sub(n, E.Int(1), ikind{64, true})}, {E.bdd.And(g, E.bdd.Not(has)), n}}), g)
		E.Store(E.HasAddr(m, k, mt.Elem()), E.Bool(False), g)
		return nil, g
	case "panic":
		e := E.event(fr, "panic", g, in.Pos())
		e.val = args[0]
		return nil, False
	case "print", "println":
		return nil, g
	case "close":
		e := E.event(fr, "close", g, in.Pos())
		e.loc = args[0]
		return nil, g
	case "min", "max":
		if _, ok := intKind(c.Args[0].Type()); ok && len(args) == 2 {
			le := E.cmpInt("<=", args[0], args[1], g)
			a, d := args[0], args[1]
			if b.Name() == "max" {
				a, d = d, a
			}
			return one(E.Phi([]Leaf{{E.bdd.And(g, le), a}, {E.bdd.And(g, E.bdd.Not(le)), d}}))
		}
		return one(E.App(b.Name(), "", in.(ssa.Value).Type(), args...))
	case "ssa:wrapnilchk":
		return one(args[0])
	case "recover":
		E.undec("recover in %s is not analysed", fr.fn)
		return one(E.result(fr, in, "recover", in.(ssa.Value).Type()))
	}
	E.undec("builtin %s in %s is not analysed", b.Name(), fr.fn)
	if v, ok := in.(ssa.Value); ok {
		return one(E.result(fr, in, b.Name(), v.Type()))
	}
	return nil, g
}

// listOf resolves a slice with known elements to the list of them.
func (E *Engine) listOf(s *Term, g B) *Term {
	return E.distG([]*Term{s}, func(a []*Term, lg B) *Term {
		x := a[0]
		if x.op == "nil" {
			return E.intern(&Term{op: "list"})
		}
		if x.op == "arrayslice" {
			if ar, ok := x.args[0].typ.Underlying().(*types.Array); ok && ar.Len() <= 64 {
				var el []*Term
				for i := int64(0); i < ar.Len(); i++ {
					el = append(el, E.Read(E.IndexAddr(x, E.Int(i), ar.Elem()), E.bdd.And(g, lg)))
				}
				return E.intern(&Term{op: "list", args: el, typ: x.typ})
			}
		}
		return x
	})
}

func (E *Engine) Append(s, y *Term, typ types.Type) *Term {
	if s.op == "nil" || (s.op == "makeslice" && s.args[0].op == "int" && s.args[0].k.Sign() == 0) {
		s = E.intern(&Term{op: "list"})
	}
	if s.op == "list" && y.op == "list" {
		return E.intern(&Term{op: "list", args: append(append([]*Term(nil), s.args...), y.args...), typ: typ})
	}
	if y.op == "list" && len(y.args) == 0 {
		return s
	}
	return E.intern(&Term{op: "append", args: []*Term{s, y}, typ: typ})
}

func (E *Engine) havocRoot(slice *Term, st types.Type, g B, ver string) {
	sl, ok := st.Underlying().(*types.Slice)
	if !ok {
		return
	}
	for _, l := range leavesOf(slice) {
		loc := E.IndexAddr(l.t, E.Sym("?", types.Typ[types.Int]), sl.Elem())
		root := locRoot(loc)
		E.mem = append(E.mem, &memEntry{kind: "havoc", g: E.bdd.And(g, l.g), loc: loc, cls: class(loc), root: root, ver: ver})
	}
}
