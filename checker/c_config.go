package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Where the configuration comes from.

func init() {
	checks["C34"] = check{"the values that initialising the package gives to the root, the configuration file and the settings, for every environment and file, and what it does with failures", checkC34}
}

const (
	r34root   = "the root is PCP_DIR, or /"
	r34conf   = "the configuration file is PCP_CONF, or etc/pcp.conf below the root"
	r34open   = "the configuration file is what is read"
	r34line   = "a setting is a line that starts with an upper case name and ="
	r34all    = "every line is read"
	r34closed = "the file is closed again"
	r34report = "failing to open or read it is reported"
)

func checkC34(P *Program, R *Report) {
	protect(R, "init", func() { configC34(P, R) })
	R.AtLeast("init functions", 1)
	R.AtLeast("files that are opened", 1)
	R.AtLeast("settings that are stored", 1)
}

// settingG are the lines that are settings: an upper case name, = and anything.
var settingG = &grammar{
	sets: [][]rune{runeSet(`[0-9A-Z_]`), {'=', '='}}, prev: -1, lines: true,
	step: func(st int, c rune) int {
		switch {
		case st < 2 && inSet(runeSet(`[0-9A-Z_]`), c):
			return 1
		case st == 1 && c == '=':
			return 2
		case st >= 2:
			return 3
		}
		return -1
	},
	labels: func(st int, next rune) (l uint32) {
		switch {
		case st == 0:
			l = gStart
		case st == 1 && next == '=':
			l = gOpen
		case st == 2:
			l = gListFrom
		}
		if next < 0 {
			l |= gEnd
		}
		return l
	},
	class: func(st int) string {
		if st >= 2 {
			return "setting"
		}
		return "none"
	},
}

// settingPattern: a regular expression matches the lines that are settings, and takes
// them apart into groups.
func settingPattern(pat string, groups [2]int64) (ncap int, why string) {
	outs, ncap, err := exploreRe(pat, []int{int(groups[0]), int(groups[1])}, settingG)
	if err != nil {
		return ncap, err.Error()
	}
	for _, o := range outs {
		switch {
		case o.class == "none" && o.matched:
			return ncap, fmt.Sprintf("%q is taken for a setting", o.example)
		case o.class == "none":
		case !o.matched:
			return ncap, fmt.Sprintf("%q is not taken for a setting", o.example)
		default:
			if f, l := o.group(int(groups[0])); !o.at(f, gStart) || !o.at(l, gOpen) {
				return ncap, fmt.Sprintf("the name in %q is not group %d", o.example, groups[0])
			}
			if f, l := o.group(int(groups[1])); !o.at(f, gListFrom) || !o.at(l, gEnd) {
				return ncap, fmt.Sprintf("the value in %q is not group %d", o.example, groups[1])
			}
		}
	}
	return ncap, ""
}

func configC34(P *Program, R *Report) {
	W := newWorld(P)
	E, b := W.Engine, W.bdd
	p := P.pkg(modPath)
	var inits []*ssa.Function
	for n, m := range p.Members {
		if fn, ok := m.(*ssa.Function); ok && strings.HasPrefix(n, "init#") {
			inits = append(inits, fn)
		}
	}
	sort.Slice(inits, func(i, j int) bool { return inits[i].Name() < inits[j].Name() })
	what, pos := "init", ""
	rg := True
	for _, fn := range inits {
		_, rg = E.CallFn(fn, nil, nil, rg, nil, nil)
		R.Count("init functions", 1)
		pos = P.pos(fn.Pos())
	}
	R.took(E, what)
	ob := func(rule string, bad B, e *Event, format string) {
		at := pos
		if e != nil {
			at = P.pos(e.pos)
		}
		R.Ob(rule, what, E.never(bad), at, format+", if %s", E.BStr(bad))
	}
	ob("it returns", b.Not(rg), nil, "it does not")
	str, boolean := types.Typ[types.String], types.Typ[types.Bool]
	env := func(n string) (set B, v *Term) {
		return E.Formula(E.App("call", "os.LookupEnv/1", boolean, E.Str(n))), E.App("call", "os.LookupEnv/0", str, E.Str(n))
	}
	// a variable that is not empty is set
	for _, n := range []string{"PCP_DIR", "PCP_CONF"} {
		set, v := env(n)
		get := E.App("call", "os.Getenv/0", str, E.Str(n))
		rg = b.And(rg, b.Imp(set, E.Eq(get, v, True)))
		rg = b.And(rg, b.Imp(b.Not(set), b.And(E.Eq(get, E.Str(""), True), E.Eq(v, E.Str(""), True))))
	}
	dirSet, dir := env("PCP_DIR")
	confSet, conf := env("PCP_CONF")
	roots := []pathCase{{dirSet, []*Term{dir}}, {b.Not(dirSet), []*Term{E.Str("/")}}}
	confs := []pathCase{{confSet, []*Term{conf}}}
	for _, r := range roots {
		confs = append(confs, pathCase{b.And(b.Not(confSet), r.g), append(append([]*Term(nil), r.parts...), E.Str("etc"), E.Str("pcp.conf"))})
	}
	is := func(rule string, t *Term, g B, want []pathCase, e *Event) {
		at := pos
		if e != nil {
			at = P.pos(e.pos)
		}
		for _, w := range want {
			wg := b.And(g, w.g)
			if E.never(wg) {
				continue
			}
			for _, c := range E.pathOf(t, wg) {
				good := samePath(c.parts, w.parts)
				if !good && len(c.parts) == 1 && len(w.parts) == 1 {
					good = E.implies(c.g, E.Eq(c.parts[0], w.parts[0], c.g))
				}
				R.Ob(rule, what, good, at, "it is %s instead of %s, if %s", pathStr(c.parts), pathStr(w.parts), E.BStr(c.g))
			}
		}
	}
	for n, w := range map[string][]pathCase{"rootPath": roots, "confPath": confs} {
		v := p2global(P, E, n)
		if v == nil {
			R.Undecided(what, "there is no %s", n)
			return
		}
		is(map[string]string{"rootPath": r34root, "confPath": r34conf}[n], v, rg, w, nil)
	}
	// the file
	var opens, stores, scans []*Event
	reports := False
	calls := map[string][]*Event{}
	for _, e := range E.events {
		if E.never(e.g) {
			continue
		}
		switch e.kind {
		case "panic":
			reports = b.Or(reports, e.g)
		case "mapstore":
			stores = append(stores, e)
		case "ext", "invoke":
			if e.fn == nil {
				continue
			}
			switch e.name {
			case "os.Open", "os.OpenFile":
				opens = append(opens, e)
			case "(*bufio.Scanner).Scan":
				scans = append(scans, e)
			}
			if strings.HasPrefix(e.name, "fmt.Fprint") || strings.HasPrefix(e.name, "fmt.Print") || strings.HasPrefix(e.name, "log.") {
				reports = b.Or(reports, e.g)
			}
			calls[e.name] = append(calls[e.name], e)
		}
	}
	failed := func(e *Event) B {
		n := len(e.res)
		return b.And(e.g, b.Not(E.Eq(e.res[n-1], E.Nil(), e.g)))
	}
	for _, o := range opens {
		R.Count("files that are opened", 1)
		is(r34open, o.args[0], o.g, confs, o)
		if o.name == "os.OpenFile" {
			R.Ob(r34open, what, o.args[1] == E.Int(0), P.pos(o.pos), "it is opened to write, too")
		}
		ob(r34report, b.AndAll(rg, failed(o), b.Not(reports)), o, "it is not reported that it cannot be opened")
		opened := b.And(o.g, b.Not(failed(o)))
		closed := False
		for _, e := range calls["(*os.File).Close"] {
			if e.args[0] == o.res[0] {
				closed = b.Or(closed, e.g)
			}
		}
		ob(r34closed, b.AndAll(rg, opened, b.Not(closed)), o, "it stays open")
		// the reader
		read := False
		for _, n := range calls["bufio.NewScanner"] {
			if !E.contains(n.args[0], o.res[0]) {
				continue
			}
			checked, scanned := False, False
			for _, e := range calls["(*bufio.Scanner).Err"] {
				if e.args[0] == n.res[0] && len(e.loops) == 0 {
					after := true
					for _, s := range scans {
						after = after && s.id < e.id
					}
					if after {
						checked = b.Or(checked, e.g)
						ob(r34report, b.AndAll(rg, failed(e), b.Not(reports)), e, "it is not reported that it cannot be read")
					}
				}
			}
			for _, m := range sortedKeys(calls) {
				for _, e := range calls[m] {
					of := func(t *Term) bool {
						for _, a := range e.args {
							if a == t || a.op == "iface" && a.args[0] == t {
								return true
							}
						}
						return false
					}
					switch m {
					case "(*bufio.Scanner).Text", "(*bufio.Scanner).Err", "(*bufio.Scanner).Buffer", "(*os.File).Close", "(*os.File).Name", "(*os.File).Stat":
					case "(*bufio.Scanner).Scan":
						R.Ob(r34all, what, !of(n.res[0]) || len(e.loops) == 1, P.pos(e.pos), "a line can be skipped")
					case "bufio.NewScanner":
						R.Ob(r34all, what, !of(o.res[0]) || e == n, P.pos(e.pos), "something else reads the file, too")
					default:
						R.Ob(r34all, what, !of(n.res[0]) && !of(o.res[0]), P.pos(e.pos), "%s changes what is read", m)
					}
				}
			}
			for _, s := range scans {
				for _, q := range scans {
					R.Ob(r34all, what, q == s || q.args[0] != s.args[0], P.pos(s.pos), "a line can be skipped")
				}
				if s.args[0] == n.res[0] && len(s.loops) == 1 {
					L := s.loops[0]
					R.Ob(r34all, what, onlyExit(L, "(*bufio.Scanner).Scan"), P.pos(s.pos), "it can stop in the middle of the file")
					ob(r34all, b.And(L.g0, b.Not(E.SubstB(s.g, map[*Term]*Term{L.it: E.Int(0)}))), s, "it need not read a line")
					scanned = b.Or(scanned, L.g0)
				}
			}
			ob(r34report, b.AndAll(rg, n.g, opened, b.Not(checked)), n, "it is not checked whether reading failed")
			ob(r34all, b.AndAll(rg, n.g, opened, b.Not(scanned)), n, "no lines are read")
			read = b.Or(read, n.g)
			// the settings
			kept := False
			for _, st := range stores {
				if len(st.loops) != 1 {
					continue
				}
				config := p2global(P, E, "config")
				R.Count("settings that are stored", 1)
				cg := b.And(rg, L0(st))
				R.Ob(r34line, what, isFresh(st.loc) && E.implies(cg, E.Eq(config, st.loc, cg)), P.pos(st.pos), "they are not stored in the configuration")
				var lines []*Event
				for _, x := range calls["(*bufio.Scanner).Text"] {
					if x.args[0] == n.res[0] && len(x.loops) == 1 && x.loops[0] == st.loops[0] {
						lines = append(lines, x)
					}
				}
				if len(lines) != 1 {
					R.Undecided(what, "the line that a setting is from is not found")
					continue
				}
				line := lines[0].res[0]
				var scan *Event
				for _, s := range scans {
					if len(s.loops) == 1 && s.loops[0] == st.loops[0] {
						scan = s
					}
				}
				re, groups := patternOf(E, line, st.args[0], st.val)
				if re == nil || scan == nil {
					R.Ob(r34line, what, false, P.pos(st.pos), "%s is set to %s", st.args[0], st.val)
					continue
				}
				pat := re.args[0]
				text, ok := foldStr(pat)
				if !ok {
					R.Undecided(what, "the pattern %s is not known", pat)
					continue
				}
				ncap, why := settingPattern(text, groups)
				R.Ob(r34line, what, why == "", P.pos(st.pos), "with the pattern %s, %s", text, why)
				// exactly the lines that match
				match := E.Formula(E.call1("(*regexp.Regexp).MatchString", boolean, re, line))
				sub := E.App("call", "(*regexp.Regexp).FindStringSubmatch/0", types.NewSlice(str), re, line)
				facts := b.Not(b.Xor(match, b.Not(E.Eq(sub, E.Nil(), True))))
				facts = b.And(facts, b.Not(b.Xor(match, E.Eq(E.Len(sub), E.Int(int64(ncap+1)), True))))
				facts = b.And(facts, b.Not(b.Xor(match, b.Not(E.Eq(E.Len(sub), E.Int(0), True)))))
				facts = b.And(facts, E.Eq(E.App("call", "regexp.Compile/1", types.Universe.Lookup("error").Type(), pat), E.Nil(), True))
				want := b.AndAll(scan.g, E.Formula(scan.res[0]), match)
				ob(r34line, b.AndAll(facts, rg, b.Xor(st.g, want)), st, "another line is a setting, or this one is not")
				kept = b.Or(kept, st.loops[0].g0)
			}
			ob(r34line, b.AndAll(rg, n.g, opened, b.Not(kept)), n, "no settings are stored")
		}
		ob(r34open, b.AndAll(rg, opened, b.Not(read)), o, "it is not read line by line")
	}
}

// L0 is the condition under which the loop of an event is entered.
func L0(e *Event) B { return e.loops[0].g0 }

// patternOf finds the pattern, and the groups, that a setting is made of.
func patternOf(E *Engine, line, key, val *Term) (re *Term, groups [2]int64) {
	for i, t := range []*Term{key, val} {
		if t.op != "load" || t.args[0].op != "indexaddr" || t.args[0].args[1].op != "int" {
			return nil, groups
		}
		sub := t.args[0].args[0]
		if sub.op != "call" || sub.aux != "(*regexp.Regexp).FindStringSubmatch/0" || sub.args[1] != line || re != nil && re != sub.args[0] {
			return nil, groups
		}
		re = sub.args[0]
		groups[i] = t.args[0].args[1].k.Int64()
	}
	if re.op != "call" || re.aux != "regexp.Compile/0" && re.aux != "regexp.MustCompile/0" {
		return nil, groups
	}
	return re, groups
}

// onlyExit: a loop ends only if a call of a function says so.
func onlyExit(L *Loop, name string) bool {
	nl := cfgOf(L.head.Parent()).loops[L.head]
	if nl == nil {
		return false
	}
	for bl := range nl.body {
		for _, s := range bl.Succs {
			if nl.body[s] {
				continue
			}
			iff, ok := bl.Instrs[len(bl.Instrs)-1].(*ssa.If)
			if !ok {
				return false
			}
			c := iff.Cond
			for {
				if u, ok := c.(*ssa.UnOp); ok {
					c = u.X
					continue
				}
				break
			}
			call, ok := c.(*ssa.Call)
			if !ok || call.Call.StaticCallee() == nil || call.Call.StaticCallee().String() != name {
				return false
			}
		}
	}
	return true
}
