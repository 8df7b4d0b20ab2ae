package main

import (
	"go/types"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Where the file of a client is.

func init() {
	checks["C26"] = check{"the path that a client maps, for every name and configuration, and the names that its constructors accept", checkC26}
}

const (
	r26place = "the file is the one with the client's name in the mmv directory"
	r26name  = "a name that denotes something else is rejected"
	r26const = "the place never changes"
	r26used  = "the file that is mapped is the one that the constructor chose"
)

// path is a path as a sequence of parts: joining is associative.
func (E *Engine) pathOf(t *Term, g B) []pathCase {
	t = E.Simp(t, g)
	if t.op == "phi" {
		var out []pathCase
		for _, l := range leavesOf(t) {
			lg := E.bdd.And(g, l.g)
			if lg == False || E.never(lg) {
				continue
			}
			out = append(out, E.pathOf(l.t, lg)...)
		}
		return out
	}
	if t.op == "call" && (t.aux == "path/filepath.Join/0" || t.aux == "path.Join/0") && len(t.args) == 1 && t.args[0].op == "list" {
		out := []pathCase{{g, nil}}
		for _, x := range t.args[0].args {
			var next []pathCase
			for _, o := range out {
				for _, c := range E.pathOf(x, o.g) {
					next = append(next, pathCase{c.g, append(append([]*Term(nil), o.parts...), c.parts...)})
				}
			}
			out = next
		}
		return out
	}
	return []pathCase{{g, []*Term{t}}}
}

type pathCase struct {
	g     B
	parts []*Term
}

func samePath(a, b []*Term) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func pathStr(a []*Term) string { return argStr(a) }

func (E *Engine) call1(name string, T types.Type, a ...*Term) *Term {
	return E.App("call", name+"/0", T, a...)
}

// separators are the facts about the predicates for names with a separator: sep is the
// condition that there is one.
func (E *Engine) separators(name *Term) (sep, facts B) {
	str, boolean, num := types.Typ[types.String], types.Typ[types.Bool], types.Typ[types.Int]
	b := E.bdd
	sep = E.Formula(E.call1("strings.ContainsRune", boolean, name, E.Int('/')))
	facts = True
	iff := func(x B) { facts = b.And(facts, b.Not(b.Xor(x, sep))) }
	iff(E.Formula(E.call1("strings.Contains", boolean, name, E.Str("/"))))
	iff(E.Formula(E.call1("strings.ContainsAny", boolean, name, E.Str("/"))))
	for _, i := range []*Term{
		E.call1("strings.Index", num, name, E.Str("/")),
		E.call1("strings.IndexByte", num, name, E.Int('/')),
		E.call1("strings.IndexRune", num, name, E.Int('/')),
		E.call1("strings.IndexAny", num, name, E.Str("/")),
		E.call1("strings.LastIndex", num, name, E.Str("/")),
		E.call1("strings.LastIndexByte", num, name, E.Int('/')),
		E.call1("strings.LastIndexAny", num, name, E.Str("/")),
	} {
		iff(E.cmpInt("<=", E.Int(0), i, True))
		facts = b.And(facts, E.cmpInt("<=", E.Int(-1), i, True))
	}
	iff(E.cmpInt("<=", E.Int(1), E.call1("strings.Count", num, name, E.Str("/")), True))
	// the last element of a path is the path, if there is no separator in it
	for _, f := range []string{"path/filepath.Base", "path.Base"} {
		same := E.Eq(E.call1(f, str, name), name, True)
		facts = b.And(facts, b.Imp(same, b.And(b.Or(b.Not(sep), E.Eq(name, E.Str("/"), True)), b.Not(E.Eq(name, E.Str(""), True)))))
		facts = b.And(facts, b.Imp(b.And(b.Not(sep), b.Not(E.Eq(name, E.Str(""), True))), same))
	}
	facts = b.And(facts, b.Imp(E.Eq(name, E.Str("/"), True), sep))
	for _, s := range []string{"", ".", ".."} {
		facts = b.And(facts, b.Imp(E.Eq(name, E.Str(s), True), b.Not(sep)))
	}
	return sep, facts
}

func checkC26(P *Program, R *Report) {
	// which field says where the file is
	var mu sync.Mutex
	fields := map[string]*Term{}
	eachClientRun(P, R, "Start", []Scenario{{mtype: "PCPCounter"}, {v2: true, mtype: "PCPCounter"}}, func(cw *clientWorld) {
		cw.custom = func(fn *ssa.Function, args []*Term, g B, fr *frame, in ssa.Instruction) ([]*Term, B, bool) {
			if fn.Name() == "NewMemoryMappedWriter" && fn.Pkg != nil && fn.Pkg.Pkg.Path() == bwPath && len(args) == 2 {
				mu.Lock()
				defer mu.Unlock()
				for _, l := range leavesOf(args[0]) {
					x := loadOf(l.t)
					good := x != nil && x.op == "fieldaddr" && x.args[0] == cw.c
					R.Ob(r26used, "(*PCPClient).Start", good, P.pos(in.Pos()), "it maps %s", l.t)
					if good {
						fields[x.aux] = x
					}
					R.Count("mapped files", 1)
				}
			}
			return nil, False, false
		}
	}, func(k *clientRun) {})
	R.AtLeast("mapped files", 1)
	if len(fields) != 1 {
		R.Undecided("(*PCPClient).Start", "where its file is is not found")
		return
	}
	var field *Term
	for _, f := range fields {
		field = f
	}
	p := P.pkg(modPath)
	for n, m := range p.Members {
		fn, ok := m.(*ssa.Function)
		if !ok || fn.Object() == nil || !fn.Object().Exported() || fn.Signature.Results().Len() != 2 {
			continue
		}
		if r := namedOf(deref(fn.Signature.Results().At(0).Type())); r == nil || r.Obj().Name() != "PCPClient" {
			continue
		}
		protect(R, n, func() { placeC26(P, R, n, fn, field) })
		R.Count("constructors", 1)
	}
	R.AtLeast("constructors", 2)
	allOps(P, R, func(r *evRun) {
		for _, e := range r.ev {
			if e.kind != "store" || r.never(e.g) {
				continue
			}
			for _, l := range leavesOf(e.loc) {
				if l.t.op == "fieldaddr" && l.t.aux == field.aux && !isFresh(l.t) {
					mu.Lock()
					R.Ob(r26const, r.what, false, P.pos(e.pos), "it changes where the file of a client is")
					mu.Unlock()
				}
			}
		}
	})
}

func placeC26(P *Program, R *Report, name string, fn *ssa.Function, field *Term) {
	W := newWorld(P)
	E, b := W.Engine, W.bdd
	pos := P.pos(fn.Pos())
	var args []*Term
	var nm *Term
	for i := 0; i < fn.Signature.Params().Len(); i++ {
		t := fn.Signature.Params().At(i).Type()
		a := E.Sym("a"+string(rune('0'+i)), t)
		args = append(args, a)
		if isString(t) && nm == nil {
			nm = a
		}
	}
	if nm == nil {
		R.Undecided(name, "it takes no name")
		return
	}
	rs, rg := E.CallFn(fn, args, nil, True, nil, nil)
	R.took(E, name)
	ok := b.And(rg, E.Eq(rs[1], E.Nil(), rg))
	if E.never(ok) {
		R.Undecided(name, "it never succeeds")
		return
	}
	sep, facts := E.separators(nm)
	bad := sep
	for _, s := range []string{"", ".", ".."} {
		bad = b.Or(bad, E.Eq(nm, E.Str(s), True))
	}
	bad = b.AndAll(ok, facts, bad)
	R.Ob(r26name, name, E.never(bad), pos, "it accepts it, if %s", E.BStr(bad))
	// what it should be
	str := types.Typ[types.String]
	root, config := p2global(P, E, "rootPath"), p2global(P, E, "config")
	if root == nil || config == nil {
		R.Undecided(name, "the configuration is not found")
		return
	}
	mt, isMap := config.typ.Underlying().(*types.Map)
	if !isMap {
		R.Undecided(name, "the configuration is no map")
		return
	}
	key := E.Str("PCP_TMP_DIR")
	has := E.Formula(E.Read(E.HasAddr(config, key, mt.Elem()), True))
	ok = b.And(ok, b.Not(b.And(has, E.Eq(config, E.Nil(), True)))) // nil is empty
	dir := E.Read(E.MapAddr(config, key, mt.Elem()), True)
	want := []pathCase{
		{has, append(E.pathOf(root, True)[0].parts, dir, E.Str("mmv"), nm)},
		{b.Not(has), []*Term{E.call1("os.TempDir", str), E.Str("mmv"), nm}},
	}
	for _, c := range leavesOf(E.Simp(rs[0], ok)) {
		g := b.And(ok, c.g)
		if E.never(g) {
			continue
		}
		if c.t.op == "nil" {
			R.Ob(r26place, name, false, pos, "it succeeds without a client")
			continue
		}
		place := E.ReadAt(E.intern(&Term{op: "fieldaddr", aux: field.aux, k: field.k, typ: field.typ, args: []*Term{c.t}}), g, len(E.mem))
		for _, w := range want {
			wg := b.And(g, w.g)
			if E.never(wg) {
				continue
			}
			for _, pc := range E.pathOf(place, wg) {
				good := samePath(pc.parts, w.parts)
				R.Ob(r26place, name, good, pos, "it is %s instead of %s, if %s", pathStr(pc.parts), pathStr(w.parts), E.BStr(pc.g))
				R.Count("places", 1)
			}
		}
	}
}

// p2global is the value of a variable of the package.
func p2global(P *Program, E *Engine, name string) *Term {
	v := P.pkg(modPath).Var(name)
	if v == nil {
		return nil
	}
	return E.Read(E.Global(v), True)
}
