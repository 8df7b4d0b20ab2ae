package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The byte writer.

func init() {
	checks["C28"] = check{"what the methods of a byte writer store, return and panic with, for every offset, value and buffer", checkC28}
}

const (
	r28what  = "it stores the bytes of its argument from the offset on"
	r28nil   = "it stores nothing if it fails"
	r28ret   = "it returns the offset behind"
	r28if    = "it succeeds exactly if the bytes lie within the buffer"
	r28panic = "it does not panic"
	r28other = "it changes nothing else"
	r28buf   = "the buffer is the one it is made with"
)

type bytesRun struct {
	*World
	R      *Report
	name   string
	fn     *ssa.Function
	recv   *Term // the byte writer
	arg    []*Term
	rs     []*Term
	rg     B
	ev     []*Event
	buf    *Term
	g      B
	bufLoc *Term
}

// byteWriterOf is the byte writer that a receiver is or embeds.
func byteWriterOf(W *World, recv *Term) *Term {
	n := namedOf(deref(recv.typ))
	if n.Obj().Name() == "ByteWriter" {
		return recv
	}
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if f := st.Field(i); f.Embedded() {
			if m := namedOf(deref(f.Type())); m != nil && m.Obj().Name() == "ByteWriter" {
				l := W.FieldAddr(recv, n, i)
				if _, isPtr := f.Type().Underlying().(*types.Pointer); isPtr {
					return W.Read(l, True)
				}
				return l
			}
		}
	}
	return nil
}

func newBytesRun(P *Program, R *Report, tn, name string, fn *ssa.Function) *bytesRun {
	b := &bytesRun{World: newWorld(P), R: R, name: "(*" + tn + ")." + name, fn: fn}
	E := b.Engine
	E.clientMode = false
	E.obligations = true
	// the other packages have nothing to do with it
	var keep []*memEntry
	for _, e := range E.mem {
		if r := locRoot(e.loc); r.op == "global" && E.globalOf[r] != nil && E.globalOf[r].Pkg.Pkg.Path() == bwPath {
			keep = append(keep, e)
		}
	}
	E.mem = keep
	recv := E.Sym("w", types.NewPointer(P.named(bwPath, tn)))
	b.recv = byteWriterOf(b.World, recv)
	if b.recv == nil {
		R.Undecided(b.name, "the type has no byte writer")
		return nil
	}
	nonNil := E.nonNilHook
	E.nonNilHook = func(t *Term) bool { return t == recv || t == b.recv || nonNil(t) }
	B := P.named(bwPath, "ByteWriter")
	st, ok := B.Underlying().(*types.Struct)
	if !ok || st.NumFields() != 1 {
		R.Undecided(b.name, "a byte writer is not a struct of a buffer")
		return nil
	}
	b.bufLoc = E.FieldAddr(b.recv, B, 0)
	b.buf = E.Read(b.bufLoc, True)
	for i := 0; i < fn.Signature.Params().Len(); i++ {
		b.arg = append(b.arg, E.Sym("a"+string(rune('0'+i)), fn.Signature.Params().At(i).Type()))
	}
	g := True
	for _, a := range b.arg {
		if types.Identical(a.typ, b.buf.typ) {
			g = E.bdd.And(g, E.bdd.Not(E.Eq(a, b.buf, True)))
			R.Assume("what is written is not part of the buffer that it is written to")
		}
	}
	b.rs, b.rg = E.CallFn(fn, append([]*Term{recv}, b.arg...), nil, g, nil, nil)
	b.g = g
	b.ev = E.events
	R.took(E, b.name)
	return b
}

func checkC28(P *Program, R *Report) {
	if P.named(bwPath, "ByteWriter") == nil {
		R.Undecided("ByteWriter", "there is no such type")
		return
	}
	for _, tn := range []string{"ByteWriter", "MemoryMappedWriter"} {
		if P.named(bwPath, tn) == nil {
			R.Undecided(tn, "there is no such type")
			continue
		}
		ms := P.exportedMethods(bwPath, tn)
		for _, n := range sortedKeys(ms) {
			fn := ms[n]
			T, isWrite := writerAPI[strings.TrimPrefix(n, "Must")]
			switch {
			case isWrite:
				protect(R, "(*"+tn+")."+n, func() { writeC28(P, R, tn, n, fn, T) })
				R.Count("methods that write", 1)
			case n == "Len" || n == "Bytes":
				protect(R, "(*"+tn+")."+n, func() { readC28(P, R, tn, n, fn) })
				R.Count("methods that read", 1)
			}
		}
	}
	ctorC28(P, R)
	R.AtLeast("methods that write", 36)
	R.AtLeast("methods that read", 4)
	R.AtLeast("constructors", 2)
}

// writeC28 decides a method that writes.
func writeC28(P *Program, R *Report, tn, name string, fn *ssa.Function, T types.Type) {
	b := newBytesRun(P, R, tn, name, fn)
	if b == nil {
		return
	}
	E, pos := b.Engine, P.pos(fn.Pos())
	must := strings.HasPrefix(name, "Must")
	if len(b.arg) != 2 || !isIntT(b.arg[1].typ) || len(b.rs) != 2 && !must || len(b.rs) != 1 && must {
		R.Undecided(b.name, "its parameters are not recognised")
		return
	}
	val, off := b.arg[0], b.arg[1]
	ok := b.rg
	if !must {
		ok = E.bdd.And(b.rg, E.Eq(b.rs[1], E.Nil(), b.rg))
	}
	// what is written, by the cases of the argument
	type part struct {
		g B
		s *Term // the bytes, as a string
	}
	var parts []part
	can := True
	width := E.Int(0)
	var ws []Leaf
	add := func(g B, s, n *Term) {
		if g != False && E.feasible(g) {
			parts = append(parts, part{g, s})
			ws = append(ws, Leaf{g, n})
		}
	}
	encoded := func(g B, v *Term) {
		add(g, E.Enc(littleEndian(P, E), v), E.encSize(v, g))
	}
	switch base := strings.TrimPrefix(name, "Must"); base {
	case "Write":
		add(True, E.bytesString(val), E.Len(val))
	case "WriteString":
		add(True, val, E.Len(val))
	case "WriteVal":
		is := E.IsType(val, types.Typ[types.String])
		s := E.Simp(E.Tassert(val, types.Typ[types.String]), is)
		add(is, s, E.Len(s))
		can = E.bdd.Or(is, E.encOK(val, True))
		encoded(E.bdd.And(E.bdd.Not(is), can), val)
	default:
		encoded(True, E.Iface(T, val))
	}
	width = E.Phi(ws)
	n := E.Len(b.buf)
	z := ikind{100, true}
	fits := E.bdd.And(E.cmpInt("<=", E.Int(0), off, can), E.cmpInt("<=", E.Add(off, width, z), n, can))
	want := E.bdd.And(can, fits)
	R.Ob(r28if, b.name, E.never(E.bdd.And(b.g, E.bdd.Xor(ok, want))), pos, "it succeeds if %s", E.BStr(E.bdd.Xor(ok, want)))
	end := E.Add(off, width, z)
	bad := E.bdd.AndAll(ok, want, E.bdd.Not(E.Eq(b.rs[0], end, want)))
	R.Ob(r28ret, b.name, E.never(bad), pos, "it returns something else, if %s", E.BStr(bad))

	written := False
	singles := map[int64]B{}
	for _, e := range b.split() {
		if E.never(e.g) {
			continue
		}
		p := P.pos(e.pos)
		switch e.kind {
		case "oblig":
			bad := E.bdd.And(e.g, E.bdd.Not(e.ok))
			R.Ob(r28panic, b.name, E.never(bad), p, "%s, if %s", e.name, E.BStr(bad))
			R.Count("checked accesses", 1)
		case "panic":
			bad := e.g
			if must {
				bad = E.bdd.And(e.g, want)
			}
			R.Ob(r28panic, b.name, E.never(bad), p, "it panics, if %s", E.BStr(bad))
		case "store", "copy":
			if isFresh(e.loc) {
				continue
			}
			R.Count("stores", 1)
			if k, src := b.single(e, off); src != nil {
				bad := E.bdd.And(e.g, E.bdd.Not(E.bdd.And(want, E.cmpInt("<", E.Int(k), width, want))))
				R.Ob(r28nil, b.name, E.never(bad), p, "it stores, if %s", E.BStr(bad))
				bad = False
				for _, q := range parts {
					if !E.sameBytes(src, E.Simp(q.s, q.g)) {
						bad = E.bdd.Or(bad, E.bdd.And(e.g, q.g))
					}
				}
				R.Ob(r28what, b.name, E.never(bad), p, "it stores a byte of %s, if %s", src, E.BStr(bad))
				singles[k] = E.bdd.Or(singles[k], e.g)
				continue
			}
			at, src, cnt, why := b.stored(e)
			if why != "" {
				R.Ob(r28other, b.name, false, p, "%s", why)
				continue
			}
			bad := E.bdd.And(e.g, E.bdd.Not(want))
			for _, x := range e.loops {
				bad = E.bdd.And(bad, E.cmpInt("<", x.it, x.trip, True))
			}
			R.Ob(r28nil, b.name, E.never(bad), p, "it stores, if %s", E.BStr(bad))
			g := E.bdd.And(e.g, want)
			same := E.bdd.And(E.Eq(at, off, g), E.Eq(cnt, width, g))
			bad = E.bdd.And(g, E.bdd.Not(same))
			R.Ob(r28what, b.name, E.never(bad), p, "it stores %s bytes at %s, if %s", cnt, at, E.BStr(bad))
			for _, q := range parts {
				bad := False
				for _, l := range leavesOf(E.Simp(src, E.bdd.And(g, q.g))) {
					if !E.sameBytes(E.Simp(l.t, q.g), E.Simp(q.s, q.g)) {
						bad = E.bdd.Or(bad, E.bdd.AndAll(g, q.g, l.g))
					}
				}
				R.Ob(r28what, b.name, E.never(bad), p, "it stores %s instead of %s, if %s", src, q.s, E.BStr(bad))
			}
			og := e.g
			for _, x := range e.loops {
				// in some iteration, if there is one
				in := E.cmpInt("<", x.it, x.trip, True)
				og = E.SubstB(E.bdd.Restrict(og, in), map[*Term]*Term{x.it: E.Int(0)})
				og = E.bdd.And(og, E.cmpInt("<", E.Int(0), x.trip, True))
			}
			written = E.bdd.Or(written, og)
		case "havoc":
			R.Ob(r28other, b.name, false, p, "it changes something unknown")
		case "go", "ext", "invoke", "dyncall":
			for _, a := range e.args {
				if E.contains(a, b.buf) || E.contains(a, b.recv) {
					R.Ob(r28other, b.name, false, p, "it gives the buffer to %s", e.name)
				}
			}
		}
	}
	if width.op == "int" && int64(len(singles)) == width.k.Int64() {
		all := True
		for _, g := range singles {
			all = E.bdd.And(all, g)
		}
		written = E.bdd.Or(written, all)
	}
	some := E.cmpInt("<", E.Int(0), width, want)
	bad = E.bdd.AndAll(b.g, want, some, E.bdd.Not(written))
	R.Ob(r28what, b.name, E.never(bad), pos, "it stores nothing, if %s", E.BStr(bad))
	for _, L := range E.loopIdx {
		R.Ob("it returns", b.name, L.unrolled || L.trip != nil && L.trip.op != "trip", P.pos(headPos(L.head)), "the number of iterations is not known")
	}
}

// split has an event for each of the slices that are copied to.
func (b *bytesRun) split() []*Event {
	var r []*Event
	for _, e := range b.ev {
		if e.kind != "copy" {
			r = append(r, e)
			continue
		}
		for _, l := range leavesOf(e.loc) {
			g := b.bdd.And(e.g, l.g)
			if g == False {
				continue
			}
			c := *e
			c.g, c.loc, c.val = g, l.t, b.Simp(e.val, g)
			r = append(r, &c)
		}
	}
	return r
}

// single: an event stores byte k of a string, k bytes after an offset.
func (b *bytesRun) single(e *Event, off *Term) (int64, *Term) {
	E := b.Engine
	l, v := e.loc, e.val
	if e.kind != "store" || len(e.loops) > 0 || l.op != "indexaddr" || v.op != "byteat" || v.args[1].op != "int" {
		return 0, nil
	}
	base, idx := l.args[0], l.args[1]
	if base.op == "slice" {
		idx = E.Add(idx, base.args[1], ikind{100, true})
		base = base.args[0]
	}
	k := v.args[1]
	if base != b.buf || !k.k.IsInt64() {
		return 0, nil
	}
	if at := E.Add(off, k, ikind{100, true}); at != idx && !E.implies(e.g, E.Eq(at, idx, e.g)) {
		return 0, nil
	}
	return k.k.Int64(), v.args[0]
}

// stored: where in the buffer an event stores, which bytes of what and how many.
func (b *bytesRun) stored(e *Event) (at, src, n *Term, why string) {
	E := b.Engine
	z := ikind{100, true}
	if e.kind == "copy" {
		dst := e.loc
		at = E.Int(0)
		if dst.op == "slice" {
			dst, at = dst.args[0], dst.args[1]
		}
		if dst != b.buf {
			return nil, nil, nil, "it copies to something else than the buffer"
		}
		return at, E.bytesString(e.args[0]), e.val, ""
	}
	l := e.loc
	if l.op != "indexaddr" {
		return nil, nil, nil, "it stores to something else than the buffer: " + l.str(4)
	}
	base, idx := l.args[0], l.args[1]
	if base.op == "slice" {
		idx = E.Add(idx, base.args[1], z)
		base = base.args[0]
	}
	if base != b.buf {
		return nil, nil, nil, "it stores to something else than the buffer: " + l.str(4)
	}
	if len(e.loops) != 1 || e.loops[0].trip == nil {
		return nil, nil, nil, "it stores single bytes"
	}
	L := e.loops[0]
	at = E.Subst(idx, map[*Term]*Term{L.it: E.Int(0)})
	if E.Add(at, L.it, z) != idx && !E.implies(e.g, E.Eq(E.Add(at, L.it, z), idx, e.g)) {
		return nil, nil, nil, "it does not store consecutive bytes"
	}
	v := e.val
	switch {
	case v.op == "load" && v.args[0].op == "indexaddr" && v.args[0].args[1] == L.it:
		src = E.bytesString(v.args[0].args[0])
	case v.op == "byteat" && v.args[1] == L.it:
		src = v.args[0]
	default:
		if src = b.putBytes(v, L); src == nil {
			return nil, nil, nil, "what it stores is not recognised: " + v.str(5)
		}
	}
	return at, src, L.trip, ""
}

// putBytes is the string that the iterations of a loop store the bytes of, one after
// another, where v is what they store.
func (b *bytesRun) putBytes(v *Term, L *Loop) *Term {
	E := b.Engine
	if L.trip.op != "int" || L.trip.k.Int64() > 16 {
		return nil
	}
	var src *Term
	for i := int64(0); i < L.trip.k.Int64(); i++ {
		c := E.Subst(v, map[*Term]*Term{L.it: E.Int(i)})
		if c.op != "byteat" || c.args[1] != E.Int(i) || src != nil && c.args[0] != src {
			return nil
		}
		src = c.args[0]
	}
	return src
}

// bytesString is the string of the bytes of a slice.
func (E *Engine) bytesString(t *Term) *Term {
	return E.dist([]*Term{t}, func(a []*Term) *Term {
		if s := E.bytesOf(a[0]); s != a[0] || isString(a[0].typ) {
			return s
		}
		return E.intern(&Term{op: "strof", args: a, typ: types.Typ[types.String]})
	})
}

// sameBytes: two strings of bytes are the same, whatever the names of the integers
// that are encoded.
func (E *Engine) sameBytes(a, b *Term) bool {
	return a == b || a.op == "enc" && b.op == "enc" && a.args[0] == b.args[0] && bitsOf(a.args[1]) == bitsOf(b.args[1])
}

// pattern is the bit pattern of a value of a fixed size.
type pattern struct {
	v     *Term
	size  int64
	float bool
}

func bitsOf(t *Term) pattern {
	if t.op != "iface" {
		return pattern{v: t}
	}
	n, ok := fixedSize(t.typ)
	if !ok {
		return pattern{v: t}
	}
	_, isInt := intKind(t.typ)
	p := pattern{t.args[0], n, !isInt}
	for {
		x := p.v
		switch {
		case x.op == "conv" && !p.float && len(x.args) == 1:
			// from an integer that is not narrower: the low bits
			if m, ok := fixedSize(x.typ); !ok || m < p.size {
				return p
			}
			if m, ok := fixedSize(x.args[0].typ); !ok || m < p.size {
				return p
			}
			if _, ok := intKind(x.args[0].typ); !ok {
				return p
			}
			p.v = x.args[0]
		case !p.float && len(x.args) == 1 && (strings.HasSuffix(x.op+x.aux, "math.Float64bits") && p.size == 8 || strings.HasSuffix(x.op+x.aux, "math.Float32bits") && p.size == 4):
			p.v, p.float = x.args[0], true
		default:
			return p
		}
	}
}

// littleEndian is the value of encoding/binary.LittleEndian, as a byte order.
func littleEndian(P *Program, E *Engine) *Term {
	for _, p := range P.ssa.AllPackages() {
		if p.Pkg.Path() == "encoding/binary" {
			if g, ok := p.Members["LittleEndian"].(*ssa.Global); ok {
				T := deref(g.Type())
				return E.Iface(T, E.Read(E.val(nil, g), True))
			}
		}
	}
	return E.Nil()
}

func readC28(P *Program, R *Report, tn, name string, fn *ssa.Function) {
	b := newBytesRun(P, R, tn, name, fn)
	if b == nil || len(b.rs) != 1 {
		return
	}
	E := b.Engine
	want := b.buf
	if name == "Len" {
		want = E.Len(b.buf)
	}
	bad := E.bdd.Not(E.bdd.And(b.rg, E.Eq(b.rs[0], want, True)))
	if b.rs[0] == want {
		bad = E.bdd.Not(b.rg)
	}
	R.Ob(r28buf, b.name, E.never(bad), P.pos(fn.Pos()), "it returns %s", b.rs[0])
	for _, e := range b.ev {
		if (e.kind == "store" || e.kind == "copy" || e.kind == "havoc") && !isFresh(e.loc) && !E.never(e.g) {
			R.Ob(r28other, b.name, false, P.pos(e.pos), "it stores")
		}
	}
}

// ctorC28 decides the functions that make byte writers.
func ctorC28(P *Program, R *Report) {
	p := P.pkg(bwPath)
	var names []string
	for n := range p.Members {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		fn, ok := p.Members[n].(*ssa.Function)
		if !ok || fn.Object() == nil || !fn.Object().Exported() || fn.Signature.Results().Len() != 1 || fn.Signature.Params().Len() != 1 {
			continue
		}
		if r := namedOf(deref(fn.Signature.Results().At(0).Type())); r == nil || r.Obj().Name() != "ByteWriter" {
			continue
		}
		W := newWorld(P)
		E := W.Engine
		E.clientMode = false
		a := E.Sym("a", fn.Params[0].Type())
		rs, rg := E.CallFn(fn, []*Term{a}, nil, True, nil, nil)
		R.took(E, n)
		R.Count("constructors", 1)
		B := P.named(bwPath, "ByteWriter")
		if E.never(rg) || len(rs) != 1 || rs[0].op == "phi" {
			R.Ob(r28buf, n, false, P.pos(fn.Pos()), "it does not return one byte writer")
			continue
		}
		buf := E.Read(E.FieldAddr(rs[0], B, 0), rg)
		good := buf == a
		if isIntT(a.typ) {
			good = !E.never(rg)
			for _, l := range leavesOf(buf) {
				g := E.bdd.And(rg, l.g)
				good = good && isFresh(l.t) && E.never(E.bdd.And(g, E.bdd.Not(E.Eq(E.Len(l.t), a, g))))
			}
		}
		R.Ob(r28buf, n, good, P.pos(fn.Pos()), "the buffer is %s", buf)
	}
}

func isIntT(t types.Type) bool {
	_, ok := intKind(t)
	return ok
}
