package main

import (
	"fmt"
	"regexp/syntax"
	"sort"
	"strings"
	"unicode"
)

// What a regular expression does with every string, compared with a grammar.
//
// A grammar is a deterministic automaton that gives labels to positions of the
// string. The regular expression is the program that package regexp compiles it to,
// which is followed with the priorities of package regexp (the first alternative that
// leads to a match). Characters are merged if neither can tell them apart, so the
// strings fall into finitely many cases; every case is looked at.

type grammar struct {
	sets   [][]rune // of characters, as ranges, that it tells apart
	start  int
	prev   rune                           // before the string, -1 for its beginning
	step   func(st int, c rune) int       // -1: it is not in the language any more
	labels func(st int, next rune) uint32 // of the position before next, -1 for the end
	class  func(st int) string            // at the end of the string
	lines  bool                           // the strings have no line breaks
}

// outcome is what a match has found in a class of strings.
type outcome struct {
	class   string
	matched bool
	caps    []int    // per slot, which position; 0: none
	labels  []uint32 // per position
	example string
}

type reThread struct {
	pc   uint32
	caps []int
}

type reState struct {
	st      int // of the grammar
	prev    rune
	begin   bool
	raw     []reThread // before following what consumes nothing
	matched bool
	best    []int
	pos     []uint32 // labels of positions; 0 is none
	example string
}

const reMaxStates = 200000

func runeSet(pat string) []rune {
	re, err := syntax.Parse(pat, syntax.Perl)
	if err != nil {
		panic(err)
	}
	re = re.Simplify()
	switch re.Op {
	case syntax.OpCharClass:
		return re.Rune
	case syntax.OpLiteral:
		return []rune{re.Rune[0], re.Rune[0]}
	}
	panic("no set of characters: " + pat)
}

func inSet(set []rune, c rune) bool {
	for i := 0; i+1 < len(set); i += 2 {
		if set[i] <= c && c <= set[i+1] {
			return true
		}
	}
	return false
}

// alphabet gives a character of each kind that is told apart.
func alphabet(prog *syntax.Prog, G *grammar) []rune {
	cuts := map[rune]bool{0: true}
	cut := func(lo, hi rune) { cuts[lo], cuts[hi+1] = true, true }
	for _, s := range G.sets {
		for i := 0; i+1 < len(s); i += 2 {
			cut(s[i], s[i+1])
		}
	}
	cut('\n', '\n')
	cut('0', '9')
	cut('A', 'Z')
	cut('a', 'z')
	cut('_', '_')
	for i := range prog.Inst {
		in := &prog.Inst[i]
		switch in.Op {
		case syntax.InstRune, syntax.InstRune1:
			if len(in.Rune) == 1 {
				c := in.Rune[0]
				cut(c, c)
				for f := unicode.SimpleFold(c); f != c; f = unicode.SimpleFold(f) {
					cut(f, f)
				}
				continue
			}
			for k := 0; k+1 < len(in.Rune); k += 2 {
				cut(in.Rune[k], in.Rune[k+1])
			}
		}
	}
	var cs []rune
	for c := range cuts {
		if c <= unicode.MaxRune {
			cs = append(cs, c)
		}
	}
	sort.Slice(cs, func(i, j int) bool { return cs[i] < cs[j] })
	word := func(c rune) bool { return syntax.IsWordChar(c) }
	seen := map[string]bool{}
	var out []rune
	for _, c := range cs {
		if c == '\n' && G.lines {
			continue
		}
		var sig strings.Builder
		fmt.Fprint(&sig, c == '\n', word(c))
		for _, s := range G.sets {
			fmt.Fprint(&sig, inSet(s, c))
		}
		for i := range prog.Inst {
			if in := &prog.Inst[i]; consumes(in) {
				fmt.Fprint(&sig, in.MatchRune(c))
			}
		}
		if k := sig.String(); !seen[k] {
			seen[k] = true
			out = append(out, c)
		}
	}
	return out
}

func consumes(in *syntax.Inst) bool {
	switch in.Op {
	case syntax.InstRune, syntax.InstRune1, syntax.InstRuneAny, syntax.InstRuneAnyNotNL:
		return true
	}
	return false
}

// exploreRe finds what a pattern does with the strings of each class of a grammar.
func exploreRe(pat string, groups []int, G *grammar) ([]*outcome, int, error) {
	re, err := syntax.Parse(pat, syntax.Perl)
	if err != nil {
		return nil, 0, err
	}
	ncap := re.MaxCap()
	prog, err := syntax.Compile(re.Simplify())
	if err != nil {
		return nil, 0, err
	}
	slot := map[uint32]int{}
	for _, g := range groups {
		if g > ncap {
			return nil, ncap, fmt.Errorf("there is no group %d", g)
		}
		for k := 0; k < 2; k++ {
			if _, ok := slot[uint32(2*g+k)]; !ok {
				slot[uint32(2*g+k)] = len(slot)
			}
		}
	}
	lookback := false
	for i := range prog.Inst {
		if in := &prog.Inst[i]; in.Op == syntax.InstEmptyWidth {
			if syntax.EmptyOp(in.Arg)&^(syntax.EmptyBeginText|syntax.EmptyEndText) != 0 {
				lookback = true
			}
		}
	}
	sigma := alphabet(prog, G)
	// advance one character, or to the end if next is -1
	advance := func(s *reState, next rune) (*reState, *outcome) {
		pos := append([]uint32(nil), s.pos...)
		now := len(pos)
		pos = append(pos, G.labels(s.st, next))
		var list []reThread
		seen := map[uint32]bool{}
		ctx := syntax.EmptyOpContext(s.prev, next)
		var add func(pc uint32, caps []int)
		add = func(pc uint32, caps []int) {
			if seen[pc] {
				return
			}
			seen[pc] = true
			in := &prog.Inst[pc]
			switch in.Op {
			case syntax.InstFail:
			case syntax.InstAlt, syntax.InstAltMatch:
				add(in.Out, caps)
				add(in.Arg, caps)
			case syntax.InstEmptyWidth:
				if syntax.EmptyOp(in.Arg)&^ctx == 0 {
					add(in.Out, caps)
				}
			case syntax.InstNop:
				add(in.Out, caps)
			case syntax.InstCapture:
				if i, ok := slot[in.Arg]; ok {
					caps = append([]int(nil), caps...)
					caps[i] = now
				}
				add(in.Out, caps)
			default:
				list = append(list, reThread{pc, caps})
			}
		}
		for _, t := range s.raw {
			add(t.pc, t.caps)
		}
		if !s.matched {
			caps := make([]int, len(slot))
			if i, ok := slot[0]; ok {
				caps[i] = now
			}
			add(uint32(prog.Start), caps)
		}
		n := &reState{matched: s.matched, best: s.best}
		for _, t := range list {
			in := &prog.Inst[t.pc]
			if in.Op == syntax.InstMatch {
				caps := append([]int(nil), t.caps...)
				if i, ok := slot[1]; ok {
					caps[i] = now
				}
				n.matched, n.best = true, caps
				break
			}
			if next >= 0 && in.MatchRune(next) {
				n.raw = append(n.raw, reThread{in.Out, t.caps})
			}
		}
		n.pos = pos
		n.example = s.example
		if next < 0 {
			o := &outcome{class: "", matched: n.matched, labels: pos, example: s.example}
			if s.st < 0 {
				o.class = "none"
			} else {
				o.class = G.class(s.st)
			}
			o.caps = make([]int, 2*(ncap+1))
			if n.matched {
				for k, i := range slot {
					o.caps[k] = n.best[i]
				}
			}
			return nil, o
		}
		n.example += string(next)
		n.st = -1
		if s.st >= 0 {
			n.st = G.step(s.st, next)
		}
		n.prev = 'x'
		if lookback {
			n.prev = next
		}
		return n, nil
	}
	// the positions that are still known, in the order in which they are
	norm := func(s *reState) string {
		m := map[int]int{0: 0}
		pos := []uint32{0}
		ren := func(caps []int) []int {
			out := make([]int, len(caps))
			for i, c := range caps {
				k, ok := m[c]
				if !ok {
					k = len(pos)
					m[c] = k
					pos = append(pos, s.pos[c])
				}
				out[i] = k
			}
			return out
		}
		for i := range s.raw {
			s.raw[i].caps = ren(s.raw[i].caps)
		}
		if s.matched {
			s.best = ren(s.best)
		}
		s.pos = pos
		return fmt.Sprint(s.st, s.prev, s.raw, s.matched, s.best, s.pos)
	}
	first := &reState{st: G.start, prev: G.prev, pos: []uint32{0}}
	seen := map[string]bool{norm(first): true}
	todo := []*reState{first}
	var outs []*outcome
	got := map[string]bool{}
	for len(todo) > 0 {
		s := todo[0]
		todo = todo[1:]
		_, o := advance(s, -1)
		m := map[int]int{0: 0}
		labels := []uint32{0}
		for i, c := range o.caps {
			k, ok := m[c]
			if !ok {
				k = len(labels)
				m[c] = k
				labels = append(labels, o.labels[c])
			}
			o.caps[i] = k
		}
		o.labels = labels
		if k := fmt.Sprint(o.class, o.matched, o.caps, o.labels); !got[k] {
			got[k] = true
			outs = append(outs, o)
		}
		for _, c := range sigma {
			n, _ := advance(s, c)
			k := norm(n)
			if !seen[k] {
				if len(seen) > reMaxStates {
					return nil, ncap, fmt.Errorf("it has too many cases")
				}
				seen[k] = true
				todo = append(todo, n)
			}
		}
	}
	return outs, ncap, nil
}

// group gives the ends of a group; empty if it has matched nothing.
func (o *outcome) group(g int) (from, to int) { return o.caps[2*g], o.caps[2*g+1] }

// same position?
func (o *outcome) at(p int, label uint32) bool { return p > 0 && o.labels[p]&label != 0 }

// empty: whether a group has matched no text.
func (o *outcome) empty(g int) bool {
	f, t := o.group(g)
	return f == t
}

// foldStr finds the value of a string that is put together from constants.
func foldStr(t *Term) (string, bool) {
	switch t.op {
	case "str":
		return t.aux, true
	case "iface":
		return foldStr(t.args[0])
	case "concat":
		r := ""
		for _, a := range t.args {
			s, ok := foldStr(a)
			if !ok {
				return "", false
			}
			r += s
		}
		return r, true
	case "call":
		switch t.aux {
		case "fmt.Sprintf/0", "fmt.Sprint/0":
			var args []*Term
			if n := len(t.args); n > 0 {
				l := t.args[n-1]
				if l.op == "list" {
					args = l.args
				} else if l.op != "nil" {
					return "", false
				}
			}
			var vals []interface{}
			for _, a := range args {
				s, ok := foldStr(a)
				if !ok {
					return "", false
				}
				vals = append(vals, s)
			}
			if t.aux == "fmt.Sprint/0" {
				return fmt.Sprint(vals...), true
			}
			f, ok := foldStr(t.args[0])
			if !ok {
				return "", false
			}
			return fmt.Sprintf(f, vals...), true
		case "strings.Join/0":
			if len(t.args) != 2 || t.args[0].op != "list" {
				return "", false
			}
			sep, ok := foldStr(t.args[1])
			if !ok {
				return "", false
			}
			var p []string
			for _, a := range t.args[0].args {
				s, ok := foldStr(a)
				if !ok {
					return "", false
				}
				p = append(p, s)
			}
			return strings.Join(p, sep), true
		}
	}
	return "", false
}

// patternTerm gives the pattern of a compiled regular expression.
func patternTerm(re *Term) (string, bool) {
	if re.op != "call" || re.aux != "regexp.Compile/0" && re.aux != "regexp.MustCompile/0" {
		return "", false
	}
	return foldStr(re.args[0])
}
