package main

import (
	"go/types"
	"regexp"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// What fails is not taken for a success.

func init() {
	checks["C35"] = check{"for every call that returns an error, the condition under which it does and the operation succeeds all the same is false", checkC35}
}

const (
	r35err  = "an operation does not succeed if a call that it makes fails"
	r35scan = "what a scanner stopped at is asked for"
	r35all  = "all calls that can fail are part of what is analysed"
)

// errRun is the evaluation of an operation.
type errRun struct {
	*Engine
	what string
	ev   []*Event
	ok   B // it succeeds

	silent bool // it cannot return an error
}

// mayFail: errors of a call are failures.
func mayFail(e *Event) bool {
	for _, p := range []string{"errors.", "github.com/pkg/errors.", "fmt.Errorf"} {
		if strings.HasPrefix(e.name, p) {
			return false // it makes an error
		}
	}
	switch e.name {
	case "os.Stat", "os.Lstat", "(*os.File).Stat":
		return false // it asks whether there is something
	case "fmt.Print", "fmt.Println", "fmt.Printf":
		return false // nobody could be told
	case "fmt.Fprint", "fmt.Fprintln", "fmt.Fprintf":
		return len(e.args) == 0 || !isStdStream(e.args[0])
	case "(*bytes.Buffer).Write", "(*bytes.Buffer).WriteString", "(*bytes.Buffer).WriteByte", "(*bytes.Buffer).WriteRune",
		"(*strings.Builder).Write", "(*strings.Builder).WriteString", "(*strings.Builder).WriteByte", "(*strings.Builder).WriteRune":
		return false // it is always nil, says the documentation
	case "regexp.Compile", "regexp.CompilePOSIX":
		if len(e.args) == 1 && e.args[0].op == "str" {
			_, err := regexp.Compile(e.args[0].aux)
			return err != nil
		}
	}
	return true
}

// isStdStream: os.Stdout or os.Stderr.
func isStdStream(t *Term) bool {
	found := false
	walk := map[*Term]bool{}
	var f func(t *Term)
	f = func(t *Term) {
		if walk[t] {
			return
		}
		walk[t] = true
		if t.op == "global" && (strings.HasSuffix(t.aux, "os.Stdout") || strings.HasSuffix(t.aux, "os.Stderr")) {
			found = true
		}
		for _, a := range t.args {
			f(a)
		}
	}
	f(t)
	return found
}

// readOnly: a file that was only opened for reading.
func (r *errRun) readOnly(f *Term) bool {
	for _, e := range r.ev {
		if e.kind == "ret" && e.name == "os.Open" {
			for _, l := range leavesOf(f) {
				if l.t == e.res[0] {
					return true
				}
			}
		}
	}
	return false
}

// isLast: the iteration of an event is the last one of those that a term is of, under x.
func (r *errRun) isLast(t *Term, L *Loop, e *Event, x B) bool {
	b := r.bdd
	if L.trip != t.args[0] {
		return false
	}
	body := func(i *Term) B { return r.Formula(r.Subst(t.args[1], map[*Term]*Term{t.args[2]: i})) }
	if r.never(b.And(e.g, body(L.it))) || !r.never(b.And(x, b.Not(body(L.it)))) {
		return false
	}
	// there is one, so there is a last one, which is not before it
	in := func(i *Term) B {
		return b.AndAll(r.cmpInt("<=", r.Int(0), i, True), r.cmpInt("<", i, L.trip, True), body(i))
	}
	u := b.AndAll(in(L.it), in(t), r.cmpInt("<", L.it, t, True))
	for _, v := range b.Support(x) {
		a := r.atoms[v]
		if a.kind == "b" && a.x != nil && a.x.op == "any" && r.closed(a.x) && b.And(x, b.Var(v)) == False {
			u = b.And(u, b.Not(b.Var(v)))
		}
	}
	u = r.instancesAt(u, t)
	u = r.instancesAt(u, L.it)
	return r.never(u)
}

func (r *errRun) check(P *Program, R *Report, mu *sync.Mutex) {
	b := r.bdd
	type verdict struct {
		bad B
		pos string
	}
	bad := map[string]*verdict{}
	n := 0
	for _, e := range r.ev {
		if e.kind != "ret" || r.never(e.g) || !mayFail(e) {
			continue
		}
		if (e.name == "(*os.File).Close" || e.name == "(io.Closer).Close") && len(e.args) > 0 && r.readOnly(e.args[0]) {
			continue
		}
		n++
		x := False
		for _, i := range errResults(e.typ.(*types.Signature)) {
			x = b.Or(x, b.Not(r.Eq(e.res[i], r.Nil(), e.g)))
		}
		x = b.And(x, e.g)
		for _, p := range r.ev {
			// it is reported
			if r.silent && p.kind == "ret" && p.id > e.id && (strings.HasPrefix(p.name, "fmt.Fprint") && !mayFail(p) || strings.HasPrefix(p.name, "fmt.Print")) {
				x = b.And(x, b.Not(p.g))
			}
		}
		x = b.And(x, r.ok)
		if x != False {
			for _, L := range e.loops {
				x = r.instancesAt(x, L.it)
			}
			x = r.instances(x)
			if !r.never(x) {
				// the iterations that something was last set in
				for _, t := range r.withOp("lastit", x) {
					for _, L := range e.loops {
						if x != False && r.isLast(t, L, e, x) {
							x = r.SubstB(x, map[*Term]*Term{L.it: t})
							x = r.instances(x)
							if r.never(x) {
								x = False
							}
						}
					}
				}
			}
		}
		k := r.what + ", " + short(e.name)
		v := bad[k]
		if v == nil {
			v = &verdict{False, P.pos(e.pos)}
			bad[k] = v
		}
		if !r.never(x) && v.bad == False {
			v.bad, v.pos = x, P.pos(e.pos)
		}
	}
	// a scanner that ends is asked whether that is because of an error
	type scan struct {
		done B
		pos  string
	}
	scans := map[string]scan{}
	for _, e := range r.ev {
		if e.kind != "ext" || e.name != "(*bufio.Scanner).Scan" || len(e.args) == 0 || r.never(e.g) {
			continue
		}
		asked := False
		for _, f := range r.ev {
			if f.kind == "ext" && f.name == "(*bufio.Scanner).Err" && len(f.args) > 0 && f.id > e.id && len(f.loops) <= len(e.loops) {
				asked = b.Or(asked, b.And(f.g, r.Eq(e.args[0], f.args[0], f.g)))
			}
		}
		k := r.what + ", " + short(e.name)
		x := b.AndAll(r.ok, e.g, b.Not(asked))
		if s, ok := scans[k]; !ok || s.done == False {
			if r.never(x) {
				x = False
			}
			scans[k] = scan{x, P.pos(e.pos)}
		}
	}
	mu.Lock()
	defer mu.Unlock()
	for _, k := range sortedKeys(scans) {
		R.Ob(r35scan, k, scans[k].done == False, scans[k].pos, "it succeeds without asking for the scanner's error, if %s", r.BStr(scans[k].done))
		R.Count("scanners", 1)
	}
	for _, k := range sortedKeys(bad) {
		v := bad[k]
		R.Ob(r35err, k, v.bad == False, v.pos, "it succeeds although this call fails, if %s", r.BStr(v.bad))
	}
	R.Count("calls that can fail, by operation", n)
}

func checkC35(P0 *Program, R *Report) {
	P, err := Load(P0.dir)
	if err != nil {
		R.Undecided("the repository", "%v", err)
		return
	}
	P.ret = true
	var mu sync.Mutex
	seen := map[*ssa.Function]bool{}
	do := func(E *Engine, what string, ev []*Event, ok B, fn *ssa.Function) {
		rs := fn.Signature.Results()
		r := &errRun{E, what, ev, ok, rs.Len() == 0 || !isErrorT(rs.At(rs.Len()-1).Type())}
		if r.silent && strings.HasPrefix(fn.Name(), "Must") {
			r.silent = false // it panics
		}
		r.check(P, R, &mu)
		mu.Lock()
		for f := range E.funcs {
			seen[f] = true
		}
		mu.Unlock()
	}
	succeeds := func(E *Engine, fn *ssa.Function, rs []*Term, rg B) B {
		if n := len(rs); n > 0 && isErrorT(fn.Signature.Results().At(n-1).Type()) {
			return E.bdd.And(rg, E.Eq(rs[n-1], E.Nil(), rg))
		}
		return rg
	}
	// the operations of clients, registries, instance domains and metrics
	allOps(P, R, func(r *evRun) {
		ok := r.ok
		if r.run != nil {
			for _, e := range r.ev {
				if e.kind == "ret" && strings.HasPrefix(e.name, "("+bwPath+".Writer).Write") {
					ok = r.bdd.And(ok, r.bdd.Imp(e.g, r.Eq(e.res[len(e.res)-1], r.Nil(), e.g)))
				}
			}
		}
		do(r.Engine, r.what, r.ev, ok, r.fn)
	})
	R.Assume("what is written by starting is of the right type and fits (C02, C10), and is then written (C28)")
	ms := P.exportedMethods(modPath, "PCPClient")
	for _, n := range []string{"MustStart", "MustStop"} {
		fn := ms[n]
		if fn == nil {
			R.Undecided("(*PCPClient)."+n, "there is no such method")
			continue
		}
		protect(R, "(*PCPClient)."+n, func() {
			o := newOp(P, R, "PCPClient", n, fn)
			o.W.opaque = func(f *ssa.Function) bool { return f != fn && (f == ms["Start"] || f == ms["Stop"]) }
			o.run(True)
			do(o.W.Engine, o.what(), o.ev, o.ok, fn)
		})
	}
	cs := P.constructors()
	for _, n := range sortedKeys(cs) {
		protect(R, n, func() {
			k := newCtorRun(P, R, n, cs[n])
			do(k.W.Engine, n, k.ev, k.ok, cs[n])
		})
	}
	// functions of the library that are not part of a type
	pk := P.pkg(modPath)
	var fns []*ssa.Function
	for _, n := range pk.Pkg.Scope().Names() {
		if f, ok := pk.Members[n].(*ssa.Function); ok && f.Object().Exported() && cs[n] == nil {
			fns = append(fns, f)
		}
	}
	for _, fn := range P.funcs {
		if fn.Pkg == pk && strings.HasPrefix(fn.Name(), "init#") {
			fns = append(fns, fn)
		}
	}
	if mp := P.pkg(modPath + "/mmvdump/cmd/mmvdump"); mp != nil {
		if f := mp.Func("main"); f != nil {
			fns = append(fns, f)
		}
	}
	for _, path := range []string{bwPath, dumpPath} {
		bp := P.pkg(path)
		for _, n := range bp.Pkg.Scope().Names() {
			if f, ok := bp.Members[n].(*ssa.Function); ok && f.Object().Exported() && n != "Dump" && n != "Write" {
				fns = append(fns, f)
			}
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
	for _, fn := range fns {
		what := strings.ReplaceAll(fn.RelString(nil), modPath, "speed")
		protect(R, what, func() {
			W := newWorld(P)
			E := W.Engine
			E.opaque = func(f *ssa.Function) bool {
				return f != fn && f.Pkg != nil && f.Pkg != fn.Pkg && f.Object() != nil && f.Object().Exported()
			}
			if fn.Pkg.Pkg.Path() == bwPath {
				E.clientMode = false
			}
			var args []*Term
			for i := 0; i < fn.Signature.Params().Len(); i++ {
				args = append(args, E.Sym("a"+string(rune('0'+i)), fn.Signature.Params().At(i).Type()))
			}
			rs, rg := E.CallFn(fn, args, nil, True, nil, nil)
			R.took(E, what)
			do(E, what, E.events, succeeds(E, fn, rs, rg), fn)
		})
		R.Count("functions", 1)
	}
	// writers
	for _, tn := range []string{"ByteWriter", "MemoryMappedWriter"} {
		if P.named(bwPath, tn) == nil {
			R.Undecided(tn, "there is no such type")
			continue
		}
		ms := P.exportedMethods(bwPath, tn)
		for _, n := range sortedKeys(ms) {
			protect(R, "(*"+tn+")."+n, func() {
				b := newBytesRun(P, R, tn, n, ms[n])
				if b == nil {
					return
				}
				do(b.Engine, b.name, b.ev, succeeds(b.Engine, b.fn, b.rs, b.rg), b.fn)
				R.Count("methods of writers", 1)
			})
		}
	}
	// dumps
	if d := newDumpRun(P, R); d != nil {
		do(d.Engine, "Dump", d.ev, succeeds(d.Engine, d.fn, d.rs, d.rg), d.fn)
	}
	if d := newPrintRun(P, R); d != nil {
		do(d.Engine, "Write", d.ev, d.ok, d.fn)
	}
	// everything else that can fail
	for _, fn := range P.funcs {
		top := fn
		for top.Parent() != nil {
			top = top.Parent()
		}
		if top.Pkg == nil || strings.Contains(top.Pkg.Pkg.Path(), "/examples/") || seen[top] {
			continue
		}
		for _, bl := range fn.Blocks {
			for _, in := range bl.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if len(errResults(c.Common().Signature())) == 0 {
					continue
				}
				e := &Event{name: "?"}
				if s := c.Common().StaticCallee(); s != nil {
					e.name = s.String()
				}
				if mayFail(e) && reachableFn(P, top) {
					R.Ob(r35all, strings.ReplaceAll(top.RelString(nil), modPath, "speed"), false, P.pos(in.Pos()), "no operation that is analysed reaches it")
				}
			}
		}
	}
	R.Ob(r35all, "all", true, "", "")
	R.AtLeast("calls that can fail, by operation", 200)
	R.AtLeast("scanners", 1)
}
