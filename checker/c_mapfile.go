package main

import (
	"go/constant"
	"go/types"
	"os"
	"strings"
	"syscall"

	"golang.org/x/tools/go/ssa"
)

// The mapped file: what making and unmapping a mapped writer does to files.

func init() {
	checks["C29"] = check{"which files making and unmapping a mapped writer opens, sizes, maps, closes and removes, on which results of these calls", checkC29}
}

const (
	r29open   = "the file is created, exclusively, for reading and writing, at the given place"
	r29size   = "the file has exactly the requested size when it is mapped"
	r29map    = "all of the file is mapped, shared, for reading and writing"
	r29close  = "the file is closed if it fails, and only then"
	r29unmap  = "the mapping is released if it fails, and only then"
	r29res    = "the buffer is the mapping"
	r29fails  = "it fails if one of its steps fails"
	r29buf    = "no buffer is left"
	r29gone   = "it releases mapping and file"
	r29remove = "the file is removed if asked to, and only then"
	r29other  = "no other file is touched"
)

type fileRun struct {
	*World
	P     *Program
	R     *Report
	name  string
	pos   string
	loc   *Term
	size  *Term
	rs    []*Term
	rg    B
	opens []*Event
	maps  []*Event
}

func checkC29(P *Program, R *Report) {
	tn := "MemoryMappedWriter"
	if P.named(bwPath, tn) == nil {
		R.Undecided(tn, "there is no such type")
		return
	}
	p := P.pkg(bwPath)
	var names []string
	for n, m := range p.Members {
		if fn, ok := m.(*ssa.Function); ok && fn.Object() != nil && fn.Object().Exported() && fn.Signature.Results().Len() > 0 {
			if r := namedOf(deref(fn.Signature.Results().At(0).Type())); r != nil && r.Obj().Name() == tn {
				names = append(names, n)
			}
		}
	}
	ms := P.exportedMethods(bwPath, tn)
	for _, n := range names {
		fn := p.Members[n].(*ssa.Function)
		protect(R, n, func() {
			r := makeFile(P, R, n, fn)
			if r == nil {
				return
			}
			R.Count("constructors", 1)
			for _, m := range sortedKeys(ms) {
				f := ms[m]
				if f.Signature.Params().Len() == 1 && isBool(f.Signature.Params().At(0).Type()) && f.Signature.Results().Len() == 1 {
					r.unmap(m, f, ms["Bytes"])
					R.Count("methods that unmap", 1)
				}
			}
		})
	}
	R.AtLeast("constructors", 1)
	R.AtLeast("methods that unmap", 1)
	R.AtLeast("calls on files", 7)
}

func (r *fileRun) errNil(t *Term, g B) B { return r.Eq(t, r.Nil(), g) }

func (r *fileRun) ob(rule string, b B, e *Event, format string) {
	pos := r.pos
	if e != nil {
		pos = r.P.pos(e.pos)
	}
	r.R.Ob(rule, r.name, r.never(b), pos, format+", if %s", r.BStr(b))
}

// same: two terms are never different.
func (r *fileRun) same(a, b *Term, g B) bool {
	return a == b || r.implies(g, r.Eq(a, b, g))
}

// lastErr is the error that a call returns.
func (r *fileRun) lastErr(e *Event) *Term {
	if e.fn != nil {
		if rs := e.fn.Signature.Results(); rs.Len() > 0 && rs.Len() == len(e.res) && isIface(rs.At(rs.Len()-1).Type()) {
			return e.res[rs.Len()-1]
		}
	}
	return r.Nil()
}

// fails is the condition under which a call happens and fails.
func (r *fileRun) fails(e *Event) B {
	return r.bdd.And(e.g, r.bdd.Not(r.errNil(r.lastErr(e), e.g)))
}

func (r *fileRun) works(e *Event) B {
	return r.bdd.And(e.g, r.errNil(r.lastErr(e), e.g))
}

func isFile(t types.Type) bool {
	n := namedOf(deref(t))
	return n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "os" && n.Obj().Name() == "File"
}

// fileCalls are the calls that have to do with files.
func (r *fileRun) fileCalls(from int) []*Event {
	var out []*Event
	for _, e := range r.events[from:] {
		if r.never(e.g) {
			continue
		}
		switch e.kind {
		case "ext":
			pkg := ""
			if e.fn != nil && e.fn.Pkg != nil {
				pkg = e.fn.Pkg.Pkg.Path()
			}
			if e.fn != nil && (pkg == "os" || pkg == "io/ioutil" || pkg == "io" || pkg == "syscall" || strings.HasPrefix(pkg, "golang.org/x/sys") || strings.HasSuffix(pkg, "/mmap-go")) {
				out = append(out, e)
			}
		case "invoke", "dyncall":
			for _, a := range e.args {
				if r.someFile(a) {
					r.R.Undecided(r.name, "a file is given to %s", e.name)
				}
			}
			if e.recv() != nil && r.someFile(e.recv()) {
				r.R.Undecided(r.name, "a method of an interface is called on a file")
			}
		}
	}
	return out
}

// recv is the receiver of an invoked method.
func (e *Event) recv() *Term { return e.loc }

func (r *fileRun) someFile(t *Term) bool {
	for _, o := range r.opens {
		if r.contains(t, o.res[0]) {
			return true
		}
	}
	return false
}

func makeFile(P *Program, R *Report, name string, fn *ssa.Function) *fileRun {
	r := &fileRun{World: newWorld(P), P: P, R: R, name: name, pos: P.pos(fn.Pos())}
	E := r.Engine
	E.clientMode = false
	var args []*Term
	for i := 0; i < fn.Signature.Params().Len(); i++ {
		t := fn.Signature.Params().At(i).Type()
		a := E.Sym("a"+string(rune('0'+i)), t)
		args = append(args, a)
		switch {
		case isString(t) && r.loc == nil:
			r.loc = a
		case isIntT(t) && r.size == nil:
			r.size = a
		default:
			R.Undecided(name, "its parameters are not recognised")
			return nil
		}
	}
	rs := fn.Signature.Results()
	if r.loc == nil || r.size == nil || rs.Len() != 2 || !isIface(rs.At(1).Type()) {
		R.Undecided(name, "its signature is not recognised")
		return nil
	}
	// a size that a file can have
	g := E.cmpInt("<=", E.Int(0), r.size, True)
	R.Assume("the requested size is not negative")
	r.rs, r.rg = E.CallFn(fn, args, nil, g, nil, nil)
	R.took(E, name)
	b := E.bdd
	ok := b.And(r.rg, r.errNil(r.rs[1], r.rg))
	fail := b.And(r.rg, b.Not(ok))
	r.ob("it returns", b.And(g, b.Not(r.rg)), nil, "it does not")
	if E.never(ok) {
		R.Undecided(name, "it never succeeds")
		return nil
	}
	calls := r.fileCalls(0)
	for _, e := range calls {
		for i := range e.res {
			if isFile(e.fn.Signature.Results().At(i).Type()) {
				r.opens = append(r.opens, e)
			}
		}
	}
	calls = r.fileCalls(0) // with the files that are known now
	R.Count("calls on files", len(calls))
	allowed := map[*Event]bool{}
	for _, o := range r.opens {
		allowed[o] = true
		good := o.name == "os.OpenFile" && len(o.args) == 3 && o.args[0] == r.loc
		if good {
			good = false
			if f := o.args[1]; f.op == "int" && f.k.IsInt64() {
				n := f.k.Int64()
				need := int64(os.O_CREATE | os.O_EXCL | os.O_RDWR)
				good = n&need == need && n&int64(syscall.O_ACCMODE) == int64(os.O_RDWR) && n&int64(os.O_APPEND) == 0
			}
		}
		R.Ob(r29open, name, good, P.pos(o.pos), "it calls %s(%s)", o.name, argStr(o.args))
	}
	r.ob(r29fails, b.And(ok, b.Not(r.anyOf(r.opens, r.works))), nil, "it succeeds without a file")
	// what happens to the file
	closed := map[*Event]B{}
	for _, o := range r.opens {
		f := o.res[0]
		var sizes []*Event
		for _, e := range calls {
			if e == o || !r.mentions(e, f) {
				continue
			}
			allowed[e] = true
			switch {
			case e.name == "(*os.File).Close" && e.args[0] == f:
				closed[o] = b.Or(closed[o], e.g)
				r.ob(r29close, b.And(ok, e.g), e, "the file is closed, and it succeeds")
			case strings.HasSuffix(e.name, "/mmap-go.Map") && e.args[0] == f || strings.HasSuffix(e.name, "/mmap-go.MapRegion") && e.args[0] == f:
				r.maps = append(r.maps, e)
			case e.name == "(*os.File).Write" && e.args[0] == f:
				sizes = append(sizes, e)
				r.sized(e, E.Len(e.args[1]), len(e.loops) == 0)
			case e.name == "(*os.File).WriteAt" && e.args[0] == f && e.args[2] == E.Int(0):
				sizes = append(sizes, e)
				r.sized(e, E.Len(e.args[1]), len(e.loops) == 0)
			case e.name == "(*os.File).Truncate" && e.args[0] == f:
				sizes = append(sizes, e)
				r.sized(e, e.args[1], len(e.loops) == 0)
			case e.name == "(*os.File).Sync" || e.name == "(*os.File).Name" || e.name == "(*os.File).Fd" || e.name == "(*os.File).Stat" || e.name == "(*os.File).Chmod":
			default:
				R.Undecided(name, "what %s does to the file is not known", e.name)
			}
		}
		for _, m := range r.maps {
			if !r.mentions(m, f) {
				continue
			}
			before := False
			for _, s := range sizes {
				if s.id < m.id {
					before = b.Or(before, r.works(s))
				} else {
					r.ob(r29size, b.And(m.g, s.g), s, "it is changed after the mapping")
				}
			}
			r.ob(r29size, b.And(m.g, b.Not(before)), m, "it can have another size")
			// writing twice makes it longer
			for i, s := range sizes {
				for _, t := range sizes[:i] {
					if s.name == "(*os.File).Write" && t.name == "(*os.File).Write" {
						r.ob(r29size, b.AndAll(m.g, s.g, t.g), s, "it is written more than once")
					}
				}
			}
		}
		r.ob(r29close, b.AndAll(fail, r.works(o), b.Not(closed[o])), o, "the file stays open when it fails")
	}
	for _, m := range r.maps {
		n := len(m.args)
		good := m.args[n-1] == E.Int(0)
		prot := m.args[1]
		if n == 5 {
			good = good && m.args[3] == E.Int(0) && (m.args[1] == E.Int(-1) || m.args[1] == r.size)
			prot = m.args[2]
		} else {
			good = good && n == 3
		}
		good = good && prot.op == "int" && prot.k.IsInt64() && prot.k.Int64() == mmapConst(m.fn, "RDWR")
		R.Ob(r29map, name, good, P.pos(m.pos), "it calls %s(%s)", m.name, argStr(m.args))
		released := False
		for _, e := range calls {
			if strings.HasSuffix(e.name, "mmap-go.MMap).Unmap") && r.ReadAt(e.args[0], e.g, e.memAt) == m.res[0] {
				allowed[e] = true
				released = b.Or(released, e.g)
				r.ob(r29unmap, b.And(ok, e.g), e, "the mapping is released, and it succeeds")
			}
		}
		r.ob(r29unmap, b.AndAll(fail, r.works(m), b.Not(released)), m, "the mapping stays when it fails")
	}
	r.ob(r29fails, b.And(ok, b.Not(r.anyOf(r.maps, r.works))), nil, "it succeeds without a mapping")
	// the steps
	for _, e := range calls {
		if !allowed[e] {
			switch e.name {
			case "os.Stat", "os.Lstat", "os.IsNotExist", "os.IsExist":
				// asking does no harm
				continue
			case "os.Remove":
				R.Ob(r29other, name, e.args[0] == r.loc, P.pos(e.pos), "it removes %s", e.args[0])
				for _, o := range r.opens {
					if e.id > o.id {
						r.ob(r29remove, b.AndAll(ok, e.g, r.works(o)), e, "it removes the file that it returns")
					}
				}
				// if it fails, creating the file exclusively does, too
				continue
			case "os.MkdirAll", "os.Mkdir":
				good := r.contains(e.args[0], r.loc)
				R.Ob(r29other, name, good, P.pos(e.pos), "it makes the directory %s", e.args[0])
			default:
				R.Ob(r29other, name, false, P.pos(e.pos), "it calls %s(%s)", e.name, argStr(e.args))
			}
		}
		if e.name == "(*os.File).Close" {
			continue
		}
		r.ob(r29fails, b.And(ok, r.fails(e)), e, e.name+" can fail")
	}
	return r
}

func (r *fileRun) anyOf(es []*Event, f func(*Event) B) B {
	b := False
	for _, e := range es {
		b = r.bdd.Or(b, f(e))
	}
	return b
}

func (r *fileRun) mentions(e *Event, f *Term) bool {
	for _, a := range e.args {
		if r.contains(a, f) {
			return true
		}
	}
	return false
}

// sized: a call gives the file a size.
func (r *fileRun) sized(e *Event, n *Term, once bool) {
	good := once && r.same(n, r.size, e.g)
	r.R.Ob(r29size, r.name, good, r.P.pos(e.pos), "%s makes it %s bytes long", e.name, n)
}

func argStr(a []*Term) string {
	var s []string
	for _, x := range a {
		s = append(s, x.str(3))
	}
	return strings.Join(s, ", ")
}

// mmapConst is a constant of the package of a function.
func mmapConst(fn *ssa.Function, name string) int64 {
	if c, ok := fn.Pkg.Pkg.Scope().Lookup(name).(*types.Const); ok {
		if n, ok := constant.Int64Val(c.Val()); ok {
			return n
		}
	}
	return -1
}

// unmap decides a method that unmaps the writer that was made.
func (r *fileRun) unmap(m string, fn, bytes *ssa.Function) {
	E, b, R := r.Engine, r.bdd, r.R
	g := b.And(r.rg, r.errNil(r.rs[1], r.rg))
	w := E.Simp(r.rs[0], g)
	r.name = "(*MemoryMappedWriter)." + m
	r.pos = r.P.pos(fn.Pos())
	content := func(g B) *Term {
		rs, rg := E.CallFn(bytes, []*Term{w}, nil, g, nil, nil)
		if len(rs) != 1 {
			return nil
		}
		return E.Simp(rs[0], b.And(g, rg))
	}
	if bytes == nil || w.op == "phi" {
		R.Undecided(r.name, "what it is called on is not known")
		return
	}
	buf := content(g)
	good := false
	for _, x := range r.maps {
		good = good || buf != nil && buf == x.res[0]
	}
	R.Ob(r29res, r.name, good, r.pos, "it is %s", buf)
	from := len(E.events)
	rm := E.Sym("remove", types.Typ[types.Bool])
	rs, rg := E.CallFn(fn, []*Term{w, rm}, nil, g, nil, nil)
	R.took(E, r.name)
	if len(rs) != 1 {
		R.Undecided(r.name, "its results are not recognised")
		return
	}
	r.ob("it returns", b.And(g, b.Not(rg)), nil, "it does not")
	ok := b.And(rg, r.errNil(rs[0], rg))
	if E.never(ok) {
		R.Undecided(r.name, "it never succeeds")
		return
	}
	asked := E.Formula(rm)
	un, cl, gone := False, False, False
	undone := False
	calls := r.fileCalls(from)
	R.Count("calls on files", len(calls))
	for _, e := range calls {
		switch {
		case strings.HasSuffix(e.name, "mmap-go.MMap).Unmap"):
			x := r.ReadAt(e.args[0], e.g, e.memAt)
			if x != buf {
				R.Ob(r29other, r.name, false, r.P.pos(e.pos), "it unmaps %s", x)
				continue
			}
			un = b.Or(un, e.g)
			undone = b.Or(undone, r.works(e))
		case e.name == "(*os.File).Close":
			for _, o := range r.opens {
				if e.args[0] == o.res[0] {
					cl = b.Or(cl, e.g)
				}
			}
		case e.name == "os.Remove":
			R.Ob(r29other, r.name, e.args[0] == r.loc, r.P.pos(e.pos), "it removes %s", e.args[0])
			gone = b.Or(gone, e.g)
			r.ob(r29remove, b.And(e.g, b.Not(asked)), e, "it removes the file unasked")
		case e.name == "(*os.File).Sync" || strings.HasSuffix(e.name, "MMap).Flush"):
		default:
			R.Ob(r29other, r.name, false, r.P.pos(e.pos), "it calls %s(%s)", e.name, argStr(e.args))
		}
		r.ob(r29fails, b.And(ok, r.fails(e)), e, e.name+" can fail")
	}
	r.ob(r29gone, b.And(ok, b.Not(un)), nil, "the mapping is not released")
	r.ob(r29gone, b.AndAll(rg, undone, b.Not(cl)), nil, "the file is not closed")
	r.ob(r29remove, b.AndAll(ok, asked, b.Not(gone)), nil, "the file is not removed")
	after := content(rg)
	if after == nil {
		R.Undecided(r.name, "what is left is not known")
		return
	}
	n := E.Len(after)
	r.ob(r29buf, b.AndAll(rg, undone, b.Not(E.Eq(n, E.Int(0), True))), nil, "something is left")
}
