package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var errType = types.Universe.Lookup("error").Type()

func (E *Engine) newErr(fr *frame, in ssa.Instruction) *Term {
	site := "top"
	if fr != nil && in != nil {
		site = fr.site(in)
	}
	return E.intern(&Term{op: "err", aux: site, typ: errType, args: E.its()})
}

// lockOp changes the set of locks the current goroutine holds.
func (E *Engine) lockOp(fr *frame, loc *Term, op string, g B, in ssa.Instruction) {
	th := E.threads[E.thread]
	e := E.event(fr, op, g, in.Pos())
	e.loc = loc
	switch op {
	case "lock", "rlock":
		for _, l := range leavesOf(loc) {
			lg := E.bdd.And(g, l.g)
			if lg == False {
				continue
			}
			th.held = append(th.held, heldLock{l.t, lg, op == "lock"})
		}
	case "unlock", "runlock":
		okAll := False
		for _, l := range leavesOf(loc) {
			lg := E.bdd.And(g, l.g)
			if lg == False {
				continue
			}
			rem := lg
			var next []heldLock
			for i := len(th.held) - 1; i >= 0; i-- {
				h := th.held[i]
				if h.write == (op == "unlock") && rem != False && h.loc == l.t {
					rel := E.bdd.And(h.g, rem)
					if rel != False {
						rem = E.bdd.And(rem, E.bdd.Not(rel))
						okAll = E.bdd.Or(okAll, rel)
						h.g = E.bdd.And(h.g, E.bdd.Not(rel))
					}
				}
				if h.g != False && E.feasible(h.g) {
					next = append([]heldLock{h}, next...)
				}
			}
			th.held = next
		}
		e.ok = okAll
	}
}

// intrinsic models functions of other packages.
func (E *Engine) intrinsic(fn *ssa.Function, args []*Term, g B, fr *frame, in ssa.Instruction) ([]*Term, B, bool) {
	name := fn.String()
	one := func(t *Term) ([]*Term, B, bool) { return []*Term{t}, g, true }
	if E.clientMode && isWriterMethod(fn) {
		if rs, rg, ok := E.writerCall(fr, E.writerOf(args[0]), fn.Name(), args[1:], g, in); ok {
			return rs, rg, true
		}
	}
	if E.custom != nil {
		if rs, rg, ok := E.custom(fn, args, g, fr, in); ok {
			return rs, rg, true
		}
	}
	if strings.HasPrefix(name, "(encoding/binary.") {
		if rs, rg, ok := E.orderCall(fn, args, g, fr, in); ok {
			return rs, rg, true
		}
	}
	switch name {
	case "hash/fnv.New32", "hash/fnv.New32a", "hash/fnv.New64", "hash/fnv.New64a":
		h := E.intern(&Term{op: "hasher", aux: fr.site(in), args: E.its(), typ: fn.Signature.Results().At(0).Type()})
		E.Store(E.Ghost(h, "hash", types.Typ[types.Int]), E.App("hashed", fn.Name(), types.Typ[types.Int]), g)
		return one(h)
	case "io.WriteString":
		if len(args) == 2 && args[0].op == "hasher" {
			cell := E.Ghost(args[0], "hash", types.Typ[types.Int])
			E.Store(cell, E.App("hashed", "write", types.Typ[types.Int], E.Read(cell, g), E.bytesOf(args[1])), g)
			return []*Term{E.Len(args[1]), E.Nil()}, g, true
		}
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock":
		E.lockOp(fr, args[0], "lock", g, in)
		if E.onLock != nil {
			E.onLock(args[0], g)
		}
		return nil, g, true
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock":
		E.lockOp(fr, args[0], "unlock", g, in)
		return nil, g, true
	case "(*sync.RWMutex).RLock":
		E.lockOp(fr, args[0], "rlock", g, in)
		if E.onLock != nil {
			E.onLock(args[0], g)
		}
		return nil, g, true
	case "(*sync.RWMutex).RUnlock":
		E.lockOp(fr, args[0], "runlock", g, in)
		return nil, g, true
	case "(*sync.WaitGroup).Add", "(*sync.WaitGroup).Done":
		n := E.Int(-1)
		kind := "wgdone"
		if name == "(*sync.WaitGroup).Add" {
			n = args[1]
			kind = "wgadd"
		}
		cell := E.Ghost(args[0], "wg", types.Typ[types.Int])
		cur := E.Read(cell, g)
		e := E.event(fr, kind, g, in.Pos())
		e.loc = args[0]
		nv := E.Add(cur, n, ikind{64, true})
		e.val = nv
		e.args = []*Term{n}
		e.ok = E.cmpInt("<=", E.Int(0), nv, g)
		E.Store(cell, nv, g)
		return nil, g, true
	case "(*sync.WaitGroup).Wait":
		cell := E.Ghost(args[0], "wg", types.Typ[types.Int])
		cur := E.Read(cell, g)
		e := E.event(fr, "wgwait", g, in.Pos())
		e.loc, e.val = args[0], cur
		e.ok = E.cmpInt("==", cur, E.Int(0), g)
		return nil, g, true
	case "github.com/pkg/errors.New", "github.com/pkg/errors.Errorf", "errors.New", "fmt.Errorf":
		return one(E.newErr(fr, in))
	case "github.com/pkg/errors.Wrap", "github.com/pkg/errors.Wrapf", "github.com/pkg/errors.WithStack", "github.com/pkg/errors.WithMessage", "github.com/pkg/errors.WithMessagef":
		nl := E.Eq(args[0], E.Nil(), g)
		return one(E.Phi([]Leaf{{E.bdd.And(g, nl), E.Nil()}, {E.bdd.And(g, E.bdd.Not(nl)), E.newErr(fr, in)}}))
	case "(time.Duration).Nanoseconds":
		return one(args[0])
	case "(time.Duration).Seconds", "(time.Duration).Minutes", "(time.Duration).Hours":
		c := constant.MakeFloat64(map[string]float64{"Seconds": 1e-9, "Minutes": 1e-9 / 60, "Hours": 1e-9 / 3600}[fn.Name()])
		f := types.Typ[types.Float64]
		return one(E.fscale(E.Conv(args[0], f, g), c, f))
	case "math.Abs":
		return one(E.dist([]*Term{args[0]}, func(a []*Term) *Term {
			neg := E.flt(a[0], E.Float(constant.MakeFloat64(0)))
			return E.Phi([]Leaf{{neg, E.fscale(a[0], constant.MakeFloat64(-1), types.Typ[types.Float64])}, {E.bdd.Not(neg), a[0]}})
		}))
	case "math.Sqrt", "math.Float32frombits", "math.Float64frombits", "math.Float64bits", "math.Float32bits", "math.IsNaN", "math.IsInf":
		return one(E.App("call", name, fn.Signature.Results().At(0).Type(), args...))
	case "strconv.Itoa":
		return one(E.Dec(args[0]))
	case "strconv.FormatInt", "strconv.FormatUint":
		if len(args) == 2 && args[1].op == "int" && args[1].k.IsInt64() && args[1].k.Int64() == 10 {
			return one(E.Dec(args[0]))
		}
		return one(E.App("call", name+"/0", types.Typ[types.String], args...))
	case "os.Getpid", "os.TempDir", "path/filepath.Join", "path/filepath.Dir", "path.Join", "os.LookupEnv", "os.Getenv",
		"strings.ContainsRune", "strings.Contains", "strings.ContainsAny", "strings.IndexByte", "strings.IndexRune", "strings.Index", "strings.IndexAny", "strings.LastIndex", "strings.LastIndexByte", "strings.LastIndexAny", "strings.Count", "strings.EqualFold", "strings.ToUpper", "path.Base", "path.Clean", "strings.HasPrefix", "strings.HasSuffix",
		"strings.TrimSpace", "strings.TrimPrefix", "strings.TrimSuffix", "strings.ToLower", "strings.Split", "path/filepath.Base", "path/filepath.Clean",
		"fmt.Sprintf", "fmt.Sprint", "regexp.Compile", "regexp.MustCompile",
		"(*regexp.Regexp).MatchString", "(*regexp.Regexp).FindStringSubmatch", "(*regexp.Regexp).FindAllString", "(*regexp.Regexp).FindString",
		"reflect.TypeOf", "strings.Repeat", "strings.Join", "encoding/binary.Size", "math.Float32frombits ":
		var a []*Term
		for i, x := range args {
			if fn.Signature.Variadic() && i == len(args)-1 {
				x = E.listOf(x, g)
			}
			a = append(a, x)
		}
		if name == "fmt.Sprintf" && len(a) == 2 {
			if t, ok := E.sprintf(a[0], a[1], g, fr, in); ok {
				return one(t)
			}
		}
		n := fn.Signature.Results().Len()
		rs := make([]*Term, n)
		for i := range rs {
			rs[i] = E.App("call", fmt.Sprintf("%s/%d", name, i), fn.Signature.Results().At(i).Type(), a...)
		}
		return rs, g, true
	}
	if strings.HasPrefix(name, "(*github.com/HdrHistogram/hdrhistogram-go.Histogram).") {
		return E.histCall(fn, args, g, fr, in)
	}
	if name == "(*github.com/edsrzf/mmap-go.MMap).Unmap" {
		// it forgets the mapping, too
		rs, rg := E.external(fn, args, g, fr, in)
		E.Store(args[0], E.Nil(), rg)
		return rs, rg, true
	}
	if rs, rg, ok := E.bufferCall(fn, name, args, g, fr, in); ok {
		return rs, rg, true
	}
	return nil, g, false
}

// external is a call of a function that is not analysed.
func (E *Engine) external(fn *ssa.Function, args []*Term, g B, fr *frame, in ssa.Instruction) ([]*Term, B) {
	var e *Event
	e = E.event(fr, "ext", g, 0)
	if in != nil {
		e.pos = in.Pos()
	}
	e.fn, e.name = fn, fn.String()
	for i, x := range args {
		if fn.Signature.Variadic() && i == len(args)-1 {
			x = E.listOf(x, g)
		}
		e.args = append(e.args, x)
	}
	rs := E.results(fr, in, fn.Signature, fn.String())
	e.res = rs
	if E.opaque != nil && len(fn.Blocks) > 0 && E.opaque(fn) {
		for _, r := range rs {
			E.opaqueRes[r] = true
		}
	}
	return rs, g
}

// histCall models the histogram library: readers are functions of the state of the
// histogram, which recording changes if it succeeds.
func (E *Engine) histCall(fn *ssa.Function, args []*Term, g B, fr *frame, in ssa.Instruction) ([]*Term, B, bool) {
	cell := E.Ghost(args[0], "hist", types.Typ[types.Int])
	switch fn.Name() {
	case "LowestTrackableValue", "HighestTrackableValue", "SignificantFigures":
		return []*Term{E.App("hist", fn.Name(), fn.Signature.Results().At(0).Type(), args...)}, g, true
	case "Min", "Max", "Mean", "StdDev", "ValueAtQuantile", "Distribution", "TotalCount", "CumulativeDistribution", "ValueAtPercentile":
		e := E.event(fr, "load", g, in.Pos())
		e.loc = cell
		st := E.Read(cell, g)
		return []*Term{E.App("hist", fn.Name(), fn.Signature.Results().At(0).Type(), append(append([]*Term(nil), args...), st)...)}, g, true
	}
	// anything else records
	rs := E.results(fr, in, fn.Signature, fn.Name())
	e := E.event(fr, "store", g, in.Pos())
	e.loc, e.args, e.name, e.res = cell, args, fn.Name(), rs
	e.fn = fn
	sg := g
	if n := len(rs); n > 0 && isIface(fn.Signature.Results().At(n-1).Type()) {
		sg = E.bdd.And(g, E.Eq(rs[n-1], E.Nil(), g))
	}
	ns := E.App("recorded", fn.Name(), types.Typ[types.Int], append([]*Term{E.Read(cell, g)}, args...)...)
	e.val = ns
	E.Store(cell, ns, sg)
	return rs, g, true
}

// ---------------------------------------------------------------- buffers

func (E *Engine) bufferCall(fn *ssa.Function, name string, args []*Term, g B, fr *frame, in ssa.Instruction) ([]*Term, B, bool) {
	str := types.Typ[types.String]
	content := func(b *Term) *Term { return E.Ghost(b, "content", str) }
	switch name {
	case "bytes.NewBuffer", "bytes.NewBufferString":
		b := E.intern(&Term{op: "builder", aux: fr.site(in), args: E.its(), typ: fn.Signature.Results().At(0).Type()})
		init := args[0]
		if name == "bytes.NewBuffer" {
			init = E.dist(args, func(a []*Term) *Term {
				if n := E.Len(a[0]); n.op == "int" && n.k.Sign() == 0 {
					return E.Str("")
				}
				return E.intern(&Term{op: "strof", args: a, typ: str})
			})
		}
		E.Store(content(b), init, g)
		return []*Term{b}, g, true
	case "(*bytes.Buffer).Bytes", "(*bytes.Buffer).String":
		c := E.Read(content(args[0]), g)
		if fn.Name() == "String" {
			return []*Term{c}, g, true
		}
		return []*Term{E.dist([]*Term{c}, func(a []*Term) *Term {
			return E.intern(&Term{op: "bytes", args: a, typ: fn.Signature.Results().At(0).Type()})
		})}, g, true
	case "(*bytes.Buffer).WriteString", "(*strings.Builder).WriteString", "(*strings.Builder).WriteByte", "(*strings.Builder).WriteRune",
		"(*bytes.Buffer).WriteByte", "(*bytes.Buffer).WriteRune":
		x := args[1]
		if fn.Name() != "WriteString" {
			if x.op != "int" || !x.k.IsInt64() {
				return nil, g, false
			}
			x = E.Str(string(rune(x.k.Int64())))
			if fn.Name() == "WriteByte" {
				x = E.Str(string([]byte{byte(args[1].k.Int64())}))
			}
		}
		E.Store(content(args[0]), E.Concat(E.Read(content(args[0]), g), x), g)
		if fn.Name() == "WriteByte" {
			return []*Term{E.Nil()}, g, true
		}
		return []*Term{E.Len(x), E.Nil()}, g, true
	case "(*strings.Builder).String":
		return []*Term{E.Read(content(args[0]), g)}, g, true
	case "(*strings.Builder).Grow", "(*bytes.Buffer).Grow":
		return nil, g, true
	case "(*bytes.Buffer).Len", "(*strings.Builder).Len":
		return []*Term{E.Len(E.Read(content(args[0]), g))}, g, true
	case "(*bytes.Buffer).Reset", "(*strings.Builder).Reset":
		E.Store(content(args[0]), E.Str(""), g)
		return nil, g, true
	case "encoding/binary.Write":
		okc := E.encOK(args[2], g)
		for _, l := range leavesOf(args[0]) {
			if l.t.op == "iface" {
				b := l.t.args[0]
				lg := E.bdd.AndAll(g, l.g, okc)
				if lg == False {
					continue
				}
				c := E.Read(content(b), lg)
				E.Store(content(b), E.Concat(c, E.Enc(args[1], args[2])), lg)
			} else {
				E.undec("binary.Write to an unknown writer in %s", fr.fn)
			}
		}
		return []*Term{E.Phi([]Leaf{{E.bdd.And(g, okc), E.Nil()}, {E.bdd.And(g, E.bdd.Not(okc)), E.newErr(fr, in)}})}, g, true
	}
	return nil, g, false
}

// orderCall models the methods of the byte orders that store integers.
func (E *Engine) orderCall(fn *ssa.Function, args []*Term, g B, fr *frame, in ssa.Instruction) ([]*Term, B, bool) {
	m := fn.Name()
	put := strings.HasPrefix(m, "PutUint")
	if !put && !strings.HasPrefix(m, "AppendUint") || len(args) != 3 {
		return nil, g, false
	}
	v, dst := fn.Signature.Params().At(1), args[1]
	n, ok := fixedSize(v.Type())
	if !ok {
		return nil, g, false
	}
	enc := E.Enc(E.Iface(fn.Signature.Recv().Type(), args[0]), E.Iface(v.Type(), args[2]))
	T := fn.Signature.Params().At(0).Type()
	b := E.intern(&Term{op: "bytes", args: []*Term{enc}, typ: T})
	if !put {
		return []*Term{E.dist([]*Term{dst}, func(a []*Term) *Term {
			if l := E.Len(a[0]); l.op == "int" && l.k.Sign() == 0 {
				return b
			}
			return E.App("append", "", T, a[0], b)
		})}, g, true
	}
	long := E.cmpInt("<=", E.Int(n), E.Len(dst), g)
	if E.obligations {
		e := E.event(fr, "oblig", g, in.Pos())
		e.ok, e.name = long, "the slice that an integer is put into is too short"
	}
	g = E.bdd.And(g, long)
	for _, l := range leavesOf(dst) {
		lg := E.bdd.And(g, l.g)
		if lg == False {
			continue
		}
		if isFresh(E.IndexAddr(l.t, E.Int(0), types.Typ[types.Byte])) {
			for i := int64(0); i < n; i++ {
				E.Store(E.IndexAddr(l.t, E.Int(i), types.Typ[types.Byte]), E.App("byteat", "", types.Typ[types.Byte], enc, E.Int(i)), lg)
			}
			continue
		}
		e := E.event(fr, "copy", lg, in.Pos())
		e.loc, e.args, e.val = l.t, []*Term{b}, E.Int(n)
		E.havocRoot(l.t, T, lg, fr.site(in))
	}
	return nil, g, true
}

// Enc is the encoding of a value.
func (E *Engine) Enc(order, val *Term) *Term {
	return E.dist([]*Term{order, val}, func(a []*Term) *Term {
		return E.intern(&Term{op: "enc", args: append([]*Term(nil), a...), typ: types.Typ[types.String]})
	})
}

// fixedSize is the encoded size of values of a type.
func fixedSize(t types.Type) (int64, bool) {
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch b.Kind() {
		case types.Bool, types.Int8, types.Uint8:
			return 1, true
		case types.Int16, types.Uint16:
			return 2, true
		case types.Int32, types.Uint32, types.Float32:
			return 4, true
		case types.Int64, types.Uint64, types.Float64, types.Complex64:
			return 8, true
		case types.Complex128:
			return 16, true
		}
	}
	return 0, false
}

// encOK is the condition that a value has an encoding.
func (E *Engine) encOK(val *Term, g B) B {
	r := False
	for _, l := range leavesOf(val) {
		var c B
		switch l.t.op {
		case "iface":
			if _, ok := fixedSize(l.t.typ); ok {
				c = True
			} else if b, ok := l.t.typ.Underlying().(*types.Basic); ok && b.Kind() != types.UnsafePointer {
				c = False // int, uint, string
			} else {
				c = E.atomB(&atom{kind: "b", x: E.intern(&Term{op: "encok", args: []*Term{l.t}})})
			}
		case "nil":
			c = False
		default:
			c = False
			is := False
			for _, T := range scalarTypes {
				it := E.IsType(l.t, T)
				is = E.bdd.Or(is, it)
				if _, ok := fixedSize(T); ok {
					c = E.bdd.Or(c, it)
				}
			}
			c = E.bdd.Or(c, E.bdd.And(E.bdd.Not(is), E.atomB(&atom{kind: "b", x: E.intern(&Term{op: "encok", args: []*Term{l.t}})})))
		}
		r = E.bdd.Or(r, E.bdd.And(l.g, c))
	}
	return r
}

var scalarTypes = []types.Type{types.Typ[types.Int32], types.Typ[types.Uint32], types.Typ[types.Int64], types.Typ[types.Uint64],
	types.Typ[types.Float32], types.Typ[types.Float64], types.Typ[types.Int], types.Typ[types.Uint], types.Typ[types.String]}

// encSize is the size of the encoding of a value that has one.
func (E *Engine) encSize(val *Term, g B) *Term {
	var out []Leaf
	for _, l := range leavesOf(val) {
		switch l.t.op {
		case "iface":
			if n, ok := fixedSize(l.t.typ); ok {
				out = append(out, Leaf{l.g, E.Int(n)})
				continue
			}
		case "nil":
			continue
		default:
			rem := l.g
			for _, T := range scalarTypes {
				if n, ok := fixedSize(T); ok {
					is := E.IsType(l.t, T)
					out = append(out, Leaf{E.bdd.And(rem, is), E.Int(n)})
					rem = E.bdd.And(rem, E.bdd.Not(is))
				}
			}
			out = append(out, Leaf{rem, E.App("encsize", "", types.Typ[types.Uint16], l.t)})
			continue
		}
		out = append(out, Leaf{l.g, E.App("encsize", "", types.Typ[types.Uint16], l.t)})
	}
	return E.Phi(out)
}

// ---------------------------------------------------------------- writers

const bwPath = modPath + "/bytewriter"

func isWriterIface(t types.Type) bool {
	n := namedOf(t)
	return n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == bwPath && n.Obj().Name() == "Writer"
}

func isWriterMethod(fn *ssa.Function) bool {
	r := fn.Signature.Recv()
	if r == nil {
		return false
	}
	n := namedOf(r.Type())
	if n == nil || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != bwPath {
		return false
	}
	_, ok := writerAPI[strings.TrimPrefix(fn.Name(), "Must")]
	return ok || fn.Name() == "Bytes" || fn.Name() == "Len"
}

// writerAPI gives the type of the value for each Write method of the interface.
var writerAPI = map[string]types.Type{
	"Write": nil, "WriteVal": nil, "WriteString": types.Typ[types.String],
	"WriteInt32": types.Typ[types.Int32], "WriteInt64": types.Typ[types.Int64],
	"WriteUint32": types.Typ[types.Uint32], "WriteUint64": types.Typ[types.Uint64],
	"WriteFloat32": types.Typ[types.Float32], "WriteFloat64": types.Typ[types.Float64],
}

// writerOf identifies a writer, whether it is used through the interface, the
// mapped writer, or the byte writer embedded in that.
func (E *Engine) writerOf(t *Term) *Term {
	return E.dist([]*Term{t}, func(a []*Term) *Term {
		x := a[0]
		for {
			switch {
			case x.op == "iface":
				x = x.args[0]
				continue
			case x.op == "load" && x.args[0].op == "fieldaddr" && strings.HasSuffix(x.args[0].aux, ".MemoryMappedWriter#ByteWriter"):
				x = x.args[0].args[0]
				continue
			case x.op == "tassert":
				if n := namedOf(x.typ); n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == bwPath {
					x = x.args[0]
					continue
				}
			}
			return x
		}
	})
}

// writerCall models a call of a method of bytewriter.Writer; that the methods do
// what the model says is decided separately, for the code of that package.
func (E *Engine) writerCall(fr *frame, w *Term, method string, args []*Term, g B, in ssa.Instruction) ([]*Term, B, bool) {
	w = E.writerOf(w)
	must := strings.HasPrefix(method, "Must")
	T, ok := writerAPI[strings.TrimPrefix(method, "Must")]
	if !ok {
		switch method {
		case "Len":
			return []*Term{E.wlen(w)}, g, true
		case "Bytes":
			e := E.event(fr, "wbytes", g, in.Pos())
			e.loc = w
			return []*Term{E.App("wbytes", "", types.NewSlice(types.Typ[types.Byte]), w)}, g, true
		}
		return nil, g, false
	}
	val, off := args[0], args[1]
	switch strings.TrimPrefix(method, "Must") {
	case "Write":
		val = E.dist([]*Term{val}, func(a []*Term) *Term { return E.intern(&Term{op: "raw", args: a, typ: a[0].typ}) })
	case "WriteVal":
	default:
		val = E.Iface(T, val)
	}
	// where the value is a string its bytes are written
	var width *Term
	enc := True
	if strings.TrimPrefix(method, "Must") == "Write" {
		width = E.Len(args[0])
	} else {
		isStr := E.IsType(val, types.Typ[types.String])
		var ls []Leaf
		if sg := E.bdd.And(g, isStr); sg != False && E.feasible(sg) {
			ls = append(ls, Leaf{sg, E.Len(E.Simp(E.Tassert(val, types.Typ[types.String]), sg))})
		}
		if ng := E.bdd.And(g, E.bdd.Not(isStr)); ng != False && E.feasible(ng) {
			v := E.Simp(val, ng)
			ls = append(ls, Leaf{ng, E.encSize(v, ng)})
			enc = E.bdd.Or(isStr, E.encOK(v, ng))
		}
		width = E.Phi(ls)
	}
	n := E.wlen(w)
	end := E.Add(off, width, ikind{64, true})
	if must && E.assumeWrites && enc == True {
		e := E.event(fr, "W", g, in.Pos())
		e.loc, e.args, e.val, e.name, e.ok = w, []*Term{off, width}, val, method, True
		return []*Term{E.Simp(end, g)}, g, true
	}
	inb := E.bdd.And(E.cmpInt("<=", E.Int(0), off, g), E.cmpInt("<=", E.Add(off, width, ikind{}), n, g))
	if E.assumeWrites {
		inb = True
	}
	okc := E.bdd.And(enc, inb)
	e := E.event(fr, "W", E.bdd.And(g, enc), in.Pos())
	e.loc, e.args, e.val, e.name = w, []*Term{off, width}, val, method
	e.ok = inb
	if must {
		bad := E.bdd.And(g, E.bdd.Not(okc))
		if E.assumeWrites {
			return []*Term{E.Simp(end, g)}, g, true
		}
		if bad != False && E.feasible(bad) {
			p := E.event(fr, "panic", bad, in.Pos())
			p.val = E.result(fr, in, "werr", errType)
			p.name = "write"
		}
		return []*Term{end}, E.bdd.And(g, okc), true
	}
	err := E.result(fr, in, "werr", errType)
	// the error is not nil where it is returned
	r := E.Phi([]Leaf{{E.bdd.And(g, okc), end}, {E.bdd.And(g, E.bdd.Not(okc)), E.result(fr, in, "woff", types.Typ[types.Int])}})
	_ = err
	er := E.Phi([]Leaf{{E.bdd.And(g, okc), E.Nil()}, {E.bdd.And(g, E.bdd.Not(okc)), E.newErr(fr, in)}})
	return []*Term{r, er}, g, true
}

func (E *Engine) wlen(w *Term) *Term {
	return E.dist([]*Term{w}, func(a []*Term) *Term {
		if a[0].op == "res" || a[0].op == "newwriter" {
			if n, ok := E.wlens[a[0]]; ok {
				return n
			}
		}
		return E.intern(&Term{op: "len", aux: "w", args: a, typ: types.Typ[types.Int]})
	})
}

// hashCall is a method of a hash of the standard library. Writing to one never fails.
func (E *Engine) hashCall(h *Term, m *types.Func, a []*Term, g B) ([]*Term, bool) {
	cell := E.Ghost(h, "hash", types.Typ[types.Int])
	st := E.Read(cell, g)
	sig := m.Type().(*types.Signature)
	switch m.Name() {
	case "Write", "WriteString":
		E.Store(cell, E.App("hashed", "write", types.Typ[types.Int], st, E.bytesOf(a[0])), g)
		return []*Term{E.Len(a[0]), E.Nil()}, true
	case "Sum32", "Sum64":
		return []*Term{E.App("hash", m.Name(), sig.Results().At(0).Type(), st)}, true
	}
	return E.bottoms(sig), false
}

// bytesOf is the string of the bytes of a slice or string.
func (E *Engine) bytesOf(t *Term) *Term {
	if (t.op == "bytes" || t.op == "strof") && len(t.args) == 1 {
		return t.args[0]
	}
	return t
}
