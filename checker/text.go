package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Dec is the decimal representation of an integer.
func (E *Engine) Dec(x *Term) *Term {
	return E.dist([]*Term{x}, func(a []*Term) *Term {
		if a[0].op == "int" {
			return E.Str(a[0].k.String())
		}
		if k, ok := intKind(a[0].typ); ok && (k.bits < 64 || k.signed) {
			// the same value as an int
			return E.App("call", "strconv.Itoa/0", types.Typ[types.String], E.Conv(a[0], types.Typ[types.Int], True))
		}
		return E.App("call", "strconv.Itoa/0", types.Typ[types.String], a[0])
	})
}

// sprint is the text that fmt gives for a verb and a value, if it is known.
func (E *Engine) sprint(verb byte, x *Term, g B, fr *frame, in ssa.Instruction) (*Term, bool) {
	ok := true
	r := E.distG([]*Term{x}, func(a []*Term, lg B) *Term {
		v := a[0]
		if v.op == "str" || v.op == "concat" {
			return v
		}
		if v.op != "iface" || len(v.args) == 0 || v.typ == nil {
			ok = false
			return v
		}
		T, y := v.typ, v.args[0]
		b, basic := T.Underlying().(*types.Basic)
		for _, m := range []string{"Format", "GoString", "Error", "String"} {
			o, _, _ := types.LookupFieldOrMethod(T, false, nil, m)
			f, isFn := o.(*types.Func)
			if !isFn || verb == 'd' && (m == "Error" || m == "String") {
				continue
			}
			meth := E.prog.ssa.LookupMethod(T, f.Pkg(), m)
			if m != "String" || meth == nil || !basic {
				ok = false
				return v
			}
			rs, rg := E.CallFn(meth, []*Term{y}, nil, E.bdd.And(g, lg), fr, in)
			if len(rs) != 1 || !E.implies(E.bdd.And(g, lg), rg) {
				ok = false
				return v
			}
			return rs[0]
		}
		switch {
		case basic && b.Info()&types.IsString != 0 && verb != 'd':
			return y
		case basic && b.Info()&types.IsInteger != 0 && verb != 's':
			return E.Dec(y)
		}
		ok = false
		return v
	})
	return r, ok
}

// sprintf is the text of a constant format of simple verbs and values.
func (E *Engine) sprintf(format *Term, list *Term, g B, fr *frame, in ssa.Instruction) (*Term, bool) {
	if format.op != "str" || list.op != "list" {
		return nil, false
	}
	f, args := format.aux, list.args
	// known before anything is evaluated
	n := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			continue
		}
		i++
		if i == len(f) || !strings.ContainsRune("vsd%", rune(f[i])) {
			return nil, false
		}
		if f[i] != '%' {
			n++
		}
	}
	if n != len(args) {
		return nil, false
	}
	r := E.Str("")
	cat := func(t *Term) {
		r = E.dist([]*Term{r, t}, func(a []*Term) *Term { return E.Concat(a[0], a[1]) })
	}
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			j := i
			for j < len(f) && f[j] != '%' {
				j++
			}
			cat(E.Str(f[i:j]))
			i = j - 1
			continue
		}
		i++
		if f[i] == '%' {
			cat(E.Str("%"))
			continue
		}
		x, ok := E.sprint(f[i], args[0], g, fr, in)
		if !ok {
			return nil, false
		}
		args = args[1:]
		cat(x)
	}
	return r, true
}
