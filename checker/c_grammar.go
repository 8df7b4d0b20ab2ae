package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

// C41: what a metric that is registered by a string is.

func init() {
	checks["C41"] = check{"the operations that register a metric by a string: for every class of strings that the grammar and the regular expressions tell apart, whether it is accepted, and which parts of it become the name, the instance domain and the instances", checkC41}
}

const (
	r41only   = "a string that is not in the grammar registers nothing and is an error"
	r41plain  = "a dotted name registers a metric without an instance domain"
	r41inst   = "a list of instances registers a metric with an instance domain"
	r41name   = "the name of the metric is the string without the list"
	r41indom  = "the instance domain is named by what is before the list"
	r41list   = "the instances are those of the list"
	r41rest   = "value, type, semantics and unit are those that are passed"
	r41accept = "the patterns decide exactly what is in the grammar"
)

const (
	gStart = 1 << iota
	gOpen
	gListFrom
	gListTo
	gClosed
	gEnd
)

var (
	idChars  = runeSet(`[\p{L}\p{N}_]`)
	spaces   = runeSet(`\s`)
	punct    = [][]rune{{'.', '.'}, {',', ','}, {'[', '['}, {']', ']'}}
	stringG  *grammar
	listG    *grammar
	listNext *grammar
)

func init() {
	id := func(c rune) bool { return inSet(idChars, c) }
	sp := func(c rune) bool { return inSet(spaces, c) }
	sets := append([][]rune{idChars, spaces}, punct...)
	// name(.name)* [ '[' name(, ?name)* ']' (.name)* ]
	stringG = &grammar{sets: sets, prev: -1,
		step: func(st int, c rune) int {
			switch st {
			case 0, 2: // a name must follow
				if id(c) {
					return 1
				}
			case 1:
				switch {
				case id(c):
					return 1
				case c == '.':
					return 2
				case c == '[':
					return 3
				}
			case 3, 6:
				if id(c) {
					return 4
				}
			case 4:
				switch {
				case id(c):
					return 4
				case c == ',':
					return 5
				case c == ']':
					return 7
				}
			case 5:
				switch {
				case id(c):
					return 4
				case sp(c):
					return 6
				}
			case 7:
				if c == '.' {
					return 8
				}
			case 8:
				if id(c) {
					return 9
				}
			case 9:
				switch {
				case id(c):
					return 9
				case c == '.':
					return 8
				}
			}
			return -1
		},
		labels: func(st int, next rune) (l uint32) {
			switch {
			case st == 0:
				l = gStart
			case st == 1 && next == '[':
				l = gOpen
			case st == 3:
				l = gListFrom
			case st == 4 && next == ']':
				l = gListTo
			case st == 7:
				l = gClosed
			}
			if next < 0 {
				l |= gEnd
			}
			return l
		},
		class: func(st int) string {
			switch st {
			case 1:
				return "name"
			case 7:
				return "list"
			case 9:
				return "list and suffix"
			}
			return "none"
		}}
	// the first of the names of a list, or the next one
	list := func(start int, prev rune) *grammar {
		return &grammar{sets: sets, start: start, prev: prev,
			step: func(st int, c rune) int {
				switch st {
				case 0, 13:
					if id(c) {
						return 1
					}
				case 10: // after a name
					if c == ',' {
						return 12
					}
				case 12:
					if id(c) {
						return 1
					}
					if sp(c) {
						return 13
					}
				case 1, 4:
					if id(c) {
						return st
					}
					if c == ',' {
						return 2
					}
				case 2:
					if id(c) {
						return 4
					}
					if sp(c) {
						return 3
					}
				case 3:
					if id(c) {
						return 4
					}
				}
				return -1
			},
			labels: func(st int, next rune) (l uint32) {
				if (st == 0 || st == 12 || st == 13) && next >= 0 && id(next) {
					l = gStart
				}
				if st == 1 && (next < 0 || !id(next)) {
					l = gEnd
				}
				return l
			},
			class: func(st int) string {
				switch st {
				case 1, 4:
					return "another"
				case 10:
					return "no more"
				}
				return "none"
			}}
	}
	listG, listNext = list(0, -1), list(10, 'a')
}

func checkC41(P *Program, R *Report) {
	eachRegOp(P, R, func(r *regRun) {
		if r.isRegistration() == "metric" && r.kind == "" {
			r.grammarC41()
			R.Count("operations that register by a string", 1)
		}
	})
	R.AtLeast("operations that register by a string", 2)
	R.AtLeast("classes of strings", 8)
	R.AtLeast("metrics whose parts are compared", 6)
}

// submatchOf: the group of a match that a term is.
func submatchOf(E *Engine, t *Term, ncap map[*Term]int) (sub *Term, g int) {
	if t.op != "load" || t.args[0].op != "indexaddr" {
		return nil, 0
	}
	sub = t.args[0].args[0]
	n, ok := ncap[sub]
	if !ok {
		return nil, 0
	}
	i := E.Subst(t.args[0].args[1], map[*Term]*Term{E.Len(sub): E.Int(int64(n + 1))})
	if i.op != "int" || !i.k.IsInt64() || i.k.Int64() < 0 || i.k.Int64() > int64(n) {
		return nil, 0
	}
	return sub, int(i.k.Int64())
}

// reUse is a regular expression that is applied to the string.
type reUse struct {
	re, sub *Term // sub is what FindStringSubmatch gives
	pat     string
	ncap    int
	groups  map[int]*Term
	outs    []*outcome
}

// gCase is one of the cases that the strings fall into.
type gCase struct {
	class, example string
	of             map[*reUse]*outcome
	facts          B
}

// texts that a text is put together from.
func texts(t *Term) []*Term {
	switch {
	case t.op == "iface":
		return texts(t.args[0])
	case t.op == "concat":
		var r []*Term
		for _, a := range t.args {
			r = append(r, texts(a)...)
		}
		return r
	case t.op == "call" && t.aux == "fmt.Sprintf/0" && len(t.args) == 2 && t.args[0].op == "str" && t.args[1].op == "list":
		f := strings.NewReplacer("%v", "%s").Replace(t.args[0].aux)
		if strings.Repeat("%s", len(t.args[1].args)) != f {
			break
		}
		var r []*Term
		for _, a := range t.args[1].args {
			if a.op != "iface" || a.typ != types.Typ[types.String] {
				return []*Term{t}
			}
			r = append(r, texts(a)...)
		}
		return r
	case t.op == "call" && t.aux == "strings.Join/0" && t.args[0].op == "list" && t.args[1] != nil && t.args[1].op == "str" && t.args[1].aux == "":
		var r []*Term
		for _, a := range t.args[0].args {
			r = append(r, texts(a)...)
		}
		return r
	}
	return []*Term{t}
}

func (r *regRun) grammarC41() {
	E, R, b := r.W.Engine, r.R, r.W.Engine.bdd
	var s *Term
	for _, a := range r.args {
		if a.typ != nil && types.Identical(a.typ, types.Typ[types.String]) {
			s = a
		}
	}
	if s == nil {
		R.Undecided(r.what(), "it has no string")
		return
	}
	boolean, str := types.Typ[types.Bool], types.Typ[types.String]
	// everything that is registered, and what it is made of
	ctor := map[*Term]*Event{}
	for _, e := range r.ev {
		if e.kind == "ext" && e.fn != nil && e.fn.Pkg != nil && e.fn.Pkg.Pkg.Path() == modPath && len(e.res) > 0 {
			ctor[e.res[0]] = e
		}
	}
	// parts of what a constructor is given
	part := func(e *Event, is func(T types.Type) bool) *Term {
		var t *Term
		ps := e.fn.Signature.Params()
		for i := 0; i < ps.Len(); i++ {
			if e.fn.Signature.Variadic() && i == ps.Len()-1 {
				break
			}
			if is(ps.At(i).Type()) {
				if t != nil {
					return nil
				}
				t = e.args[i]
			}
		}
		return t
	}
	isStr := func(T types.Type) bool { return types.Identical(T, str) }
	isDom := func(T types.Type) bool { n := namedOf(T); return n != nil && n.Obj().Name() == "PCPInstanceDomain" }
	type reg struct {
		a           *added
		g           B
		name, indom *Term
	}
	var regs []*reg
	roots, guards := []*Term{}, []B{r.ok}
	for _, a := range r.insertions(r.M, True) {
		var n, d *Term
		if e := ctor[a.val]; e != nil {
			n, d = part(e, isStr), part(e, isDom)
			if d == nil {
				d = E.Nil()
			}
			for i := 0; i < e.fn.Signature.Params().Len(); i++ {
				T := e.fn.Signature.Params().At(i).Type()
				var want *Term
				for _, x := range r.args {
					if nm := namedOf(x.typ); x != s && (types.Identical(x.typ, T) || nm != nil && nm == namedOf(T)) {
						want = x
					}
				}
				switch {
				case isStr(T) || isDom(T):
				case want != nil:
					R.Ob(r41rest, r.what(), E.implies(a.g, E.Eq(e.args[i], want, a.g)), r.P.pos(e.pos), "%s is %s", T, e.args[i])
				case T.String() == modPath+".Instances":
					R.Ob(r41rest, r.what(), r.args[1] != s && E.contains(e.args[i], r.args[1]) && e.args[i].op == "tassert", r.P.pos(e.pos), "the values are %s", e.args[i])
				}
			}
		} else {
			n, d = r.attr(a, "Name"), r.attr(a, "Indom")
		}
		if n == nil || d == nil {
			R.Undecided(r.what(), "%s, whose name is not found, is registered", a.val)
			return
		}
		x := &reg{a: a, g: a.g, name: n, indom: d}
		regs = append(regs, x)
		roots = append(roots, n, d)
		guards = append(guards, x.g)
		for _, dl := range leavesOf(d) {
			if e := ctor[dl.t]; e != nil {
				roots = append(roots, e.args...)
			}
		}
	}
	// the regular expressions
	uses := map[*Term]*reUse{}
	lists := map[*Term]bool{}
	ncaps := map[*Term]int{}
	var order []*reUse
	bad := false
	var loads []*Term
	E.subterms(roots, guards, func(t *Term) {
		if t.op == "load" {
			loads = append(loads, t)
		}
		if t.op == "collect" {
			lists[t] = true
			return
		}
		if t.op != "call" || !strings.HasPrefix(t.aux, "(*regexp.Regexp).") {
			return
		}
		if t.aux == "(*regexp.Regexp).FindAllString/0" {
			lists[t] = true
			return
		}
		if bad || uses[t.args[0]] != nil {
			return
		}
		re := t.args[0]
		pat, ok := patternTerm(re)
		if !ok || t.aux != "(*regexp.Regexp).MatchString/0" && t.aux != "(*regexp.Regexp).FindStringSubmatch/0" || t.args[1] != s {
			R.Undecided(r.what(), "what %s of %.100s does to the string is not known", t.aux, re)
			bad = true
			return
		}
		u := &reUse{re: re, pat: pat, groups: map[int]*Term{}}
		u.sub = E.App("call", "(*regexp.Regexp).FindStringSubmatch/0", types.NewSlice(str), re, s)
		uses[re] = u
		order = append(order, u)
		_, n, err := exploreRe(pat, nil, &grammar{step: func(int, rune) int { return -1 }, labels: func(int, rune) uint32 { return 0 }, class: func(int) string { return "" }, prev: -1})
		if err != nil {
			R.Undecided(r.what(), "the pattern %s: %v", pat, err)
			bad = true
		}
		u.ncap = n
		ncaps[u.sub] = n
	})
	if bad {
		return
	}
	groupOf := func(t *Term) (*reUse, int) {
		sub, g := submatchOf(E, t, ncaps)
		if sub == nil {
			return nil, 0
		}
		return uses[sub.args[0]], g
	}
	for _, t := range loads {
		if u, g := groupOf(t); u != nil {
			u.groups[g] = t
		}
	}
	cases := []*gCase{{facts: True, of: map[*reUse]*outcome{}}}
	for _, u := range order {
		var gs []int
		for g := range u.groups {
			gs = append(gs, g)
		}
		sort.Ints(gs)
		outs, _, err := exploreRe(u.pat, gs, stringG)
		if err != nil {
			R.Undecided(r.what(), "the pattern %s: %v", u.pat, err)
			return
		}
		u.outs = outs
		var next []*gCase
		for _, c := range cases {
			for _, o := range outs {
				if c.class != "" && c.class != o.class {
					continue
				}
				n := &gCase{class: o.class, example: o.example, of: map[*reUse]*outcome{u: o}, facts: c.facts}
				for k, v := range c.of {
					n.of[k] = v
				}
				m := False
				if o.matched {
					m = True
				}
				same := func(x, y B) { n.facts = b.And(n.facts, b.Not(b.Xor(x, y))) }
				same(E.Formula(E.call1("(*regexp.Regexp).MatchString", boolean, u.re, s)), m)
				same(b.Not(E.Eq(u.sub, E.Nil(), True)), m)
				k := E.Int(0)
				if o.matched {
					k = E.Int(int64(u.ncap + 1))
				}
				n.facts = b.And(n.facts, E.Eq(E.Len(u.sub), k, True))
				n.facts = b.And(n.facts, E.Eq(E.App("call", "regexp.Compile/1", types.Universe.Lookup("error").Type(), u.re.args[0]), E.Nil(), True))
				if o.matched {
					for g, t := range u.groups {
						em := False
						if o.empty(g) {
							em = True
						}
						same(E.Eq(t, E.Str(""), True), em)
						same(E.Eq(E.Len(t), E.Int(0), True), em)
						same(E.cmpInt("<=", E.Len(t), E.Int(0), True), em)
					}
				}
				next = append(next, n)
			}
		}
		cases = next
		if len(cases) > 300 {
			R.Undecided(r.what(), "there are too many cases")
			return
		}
	}
	if len(order) == 0 {
		R.Undecided(r.what(), "no regular expression is applied to the string")
		return
	}
	// follows a text through the parts that it is put together from
	spans := func(c *gCase, t *Term) (out [][2]int, o *outcome, ok bool) {
		ps := texts(t)
		for _, q := range ps {
			if q == s && c.class == "name" && len(ps) == 1 {
				return nil, nil, true
			}
			if q.op == "str" && q.aux == "" {
				continue
			}
			u, g := groupOf(q)
			if u == nil || !c.of[u].matched || o != nil && o != c.of[u] {
				return nil, nil, false
			}
			o = c.of[u]
			if f, l := o.group(g); f != l {
				out = append(out, [2]int{f, l})
			}
		}
		return out, o, true
	}
	covers := func(c *gCase, t *Term, from, to uint32, skip bool) bool {
		sp, o, ok := spans(c, t)
		if !ok || o == nil {
			return ok && !skip && from == gStart && to == gEnd
		}
		if len(sp) == 0 {
			return false
		}
		if !o.at(sp[0][0], from) {
			return false
		}
		for i := 1; i < len(sp); i++ {
			if sp[i][0] != sp[i-1][1] && !(skip && o.at(sp[i-1][1], gOpen) && o.at(sp[i][0], gClosed)) {
				return false
			}
		}
		last := sp[len(sp)-1][1]
		return o.at(last, to)
	}
	isList := func(c *gCase, t *Term) (string, bool) {
		if t.op == "collect" {
			// what is between the commas, without the space
			n, x, k := t.args[0], t.args[1], t.args[2]
			if x.op == "call" && x.aux == "strings.TrimSpace/0" && x.args[0].op == "load" && x.args[0].args[0].op == "indexaddr" && x.args[0].args[0].args[1] == k {
				sp := x.args[0].args[0].args[0]
				if sp.op == "call" && sp.aux == "strings.Split/0" && sp.args[1] == E.Str(",") && n == E.Len(sp) {
					return "they are not taken from between the brackets", covers(c, sp.args[0], gListFrom, gListTo, false)
				}
			}
		}
		if t.op != "call" || t.aux != "(*regexp.Regexp).FindAllString/0" {
			return "they are not those that a pattern finds in it", false
		}
		if n := t.args[2]; n.op != "int" || n.k.Sign() >= 0 {
			return "not all are taken", false
		}
		if !covers(c, t.args[1], gListFrom, gListTo, false) {
			return "they are not taken from between the brackets", false
		}
		pat, ok := patternTerm(t.args[0])
		if !ok {
			return "the pattern is not known", false
		}
		for _, G := range []*grammar{listG, listNext} {
			outs, _, err := exploreRe(pat, []int{0}, G)
			if err != nil {
				return err.Error(), false
			}
			R.Count("classes of strings", len(outs))
			for _, o := range outs {
				f, l := o.group(0)
				if o.class == "another" && !(o.matched && o.at(f, gStart) && o.at(l, gEnd)) || o.class == "no more" && o.matched {
					return fmt.Sprintf("%s does not take the names apart, in %q", pat, o.example), false
				}
			}
		}
		return "", true
	}
	for _, c := range cases {
		R.Count("classes of strings", 1)
		what := fmt.Sprintf("%s, %s", r.what(), c.class)
		if c.class != "none" {
			for t := range lists {
				if _, ok := isList(c, t); ok && c.class != "name" {
					c.facts = b.And(c.facts, b.Not(E.Eq(t, E.Nil(), True)))
					c.facts = b.And(c.facts, E.cmpInt("<", E.Int(0), E.Len(t), True))
				}
			}
		}
		ok := b.And(r.ok, c.facts)
		if c.class == "none" {
			R.Ob(r41only, what, E.never(ok), r.pos(), "%q is accepted", c.example)
			for _, x := range regs {
				R.Ob(r41only, what, E.never(b.And(x.g, c.facts)), r.P.pos(x.a.e.pos), "%q registers a metric", c.example)
			}
			continue
		}
		R.Ob(r41accept, what, !E.never(ok), r.pos(), "%q is not accepted", c.example)
		for _, x := range regs {
			g := b.AndAll(x.g, c.facts, r.ok)
			if E.never(g) {
				continue
			}
			R.Count("metrics whose parts are compared", 1)
			pos := r.P.pos(x.a.e.pos)
			for _, nl := range leavesOf(x.name) {
				if ng := b.And(g, nl.g); !E.never(ng) {
					good := false
					switch c.class {
					case "name", "list and suffix":
						good = covers(c, nl.t, gStart, gEnd, c.class != "name")
					case "list":
						good = covers(c, nl.t, gStart, gOpen, false)
					}
					R.Ob(r41name, what, good, pos, "the name of %q is %.300s", c.example, nl.t)
				}
			}
			for _, dl := range leavesOf(x.indom) {
				dg := b.AndAll(g, dl.g)
				if E.never(dg) {
					continue
				}
				if c.class == "name" {
					R.Ob(r41plain, what, E.never(b.And(dg, b.Not(E.Eq(dl.t, E.Nil(), dg)))), pos, "%q has an instance domain", c.example)
					continue
				}
				// what is registered, or made without an error, is not nil
				isReg := dl.t.op == "load" && dl.t.args[0].op == "mapaddr" && dl.t.args[0].args[0] == r.D
				R.Ob(r41inst, what, dl.t.op != "nil", pos, "%q has no instance domain", c.example)
				if dl.t.op == "nil" {
					continue
				}
				var n *Term
				if e := ctor[dl.t]; e != nil {
					n = part(e, isStr)
					l := part(e, func(T types.Type) bool { return types.Identical(T, types.NewSlice(str)) })
					if n == nil || l == nil {
						R.Undecided(what, "the parts of %s are not found", e.name)
						continue
					}
					for _, ll := range leavesOf(l) {
						if lg := b.And(dg, ll.g); !E.never(lg) {
							why, good := isList(c, ll.t)
							R.Ob(r41list, what, good, pos, "the instances of %q: %s", c.example, why)
						}
					}
				} else if isReg {
					n = dl.t.args[0].args[1]
					good := false
					for t := range lists {
						if _, ok := isList(c, t); !ok {
							continue
						}
						il := r.W.field(dl.t, "PCPInstanceDomain", "instances")
						if il == nil {
							break
						}
						J := E.Read(il, dg)
						i := E.Sym("q", types.Typ[types.Int])
						q := E.Read(E.IndexAddr(t, i, str), dg)
						in := E.HasAddr(J, q, r.W.elemOf("PCPInstanceDomain", "instances"))
						ig := b.AndAll(dg, E.cmpInt("<=", E.Int(0), i, True), E.cmpInt("<", i, E.Len(t), True))
						miss := E.instances(b.And(ig, b.Not(E.Formula(E.Read(in, ig)))), in)
						miss = E.instancesAt(miss, i)
						if E.never(miss) && E.implies(dg, E.Eq(E.Read(E.MlenAddr(J), dg), E.Len(t), dg)) {
							good = true
						}
					}
					R.Ob(r41list, what, good, pos, "the one that is registered may have other instances than %q", c.example)
				} else {
					R.Undecided(what, "the instance domain of %q is %.200s", c.example, dl.t)
					continue
				}
				for _, nl := range leavesOf(n) {
					if ng := b.And(dg, nl.g); !E.never(ng) {
						R.Ob(r41indom, what, covers(c, nl.t, gStart, gOpen, false), pos, "that of %q is %.300s", c.example, nl.t)
					}
				}
			}
		}
	}
}
