package main

import (
	"go/types"
	"strings"
	"sync"
)

// No metric writes to a file that is not mapped any more.
//
// A value is connected to a file if a function or writer it keeps is not nil. When
// the file is unmapped no value of any registered metric is, and values are only
// disconnected, connected and written to with the lock of their metric held, which is
// not given up between looking at the connection and writing.

const (
	r22off    = "no value of a registered metric is connected to the file when it is unmapped"
	r22lock   = "values are connected and disconnected with the lock of their metric held for writing"
	r22update = "a metric only writes to a file that it finds itself connected to, with its lock held since"
	r22one    = "one lock guards a connection and the writes to it"
)

// connections are the fields that connect a value to a file, as state classes.
func connections(P *Program) map[string]bool {
	r := map[string]bool{}
	for _, n := range []string{"pcpSingletonMetric", "instanceValue"} {
		nt := P.named(modPath, n)
		if nt == nil {
			continue
		}
		st, ok := nt.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			switch f.Type().Underlying().(type) {
			case *types.Signature:
			case *types.Interface:
				if f.Name() == "val" || isEmptyIface(f.Type()) {
					continue
				}
			default:
				continue
			}
			r[n+"#"+f.Name()] = true
		}
	}
	return r
}

func checkC22Stop(k *clientRun, R *Report, conn map[string]bool) {
	E := k.Engine
	mt := k.sc.mtype
	if k.sc.metrics {
		ml := k.field(k.r, "PCPRegistry", "metrics")
		if ml == nil {
			R.Undecided(k.what(), "no field PCPRegistry.metrics")
			return
		}
		M := E.Read(ml, True)
		mapT, ok := M.typ.Underlying().(*types.Map)
		if !ok {
			R.Undecided(k.what(), "PCPRegistry.metrics is no map")
			return
		}
		str := types.Typ[types.String]
		mi := E.Sym("mi", tInt)
		key := E.Key(M, mapT, "", mi, str)
		m := E.Tassert(E.Read(E.MapAddr(M, key, mapT.Elem()), True), types.NewPointer(k.P.named(modPath, mt)))
		g := E.bdd.AndAll(k.clientWorld.g, E.cmpInt("<=", E.Int(0), mi, True), E.cmpInt("<", mi, E.Read(E.MlenAddr(M), True), True))
		// an instance, if it has any
		q := E.Sym("q", str)
		cell, has := k.cell(m, mt, q)
		if cell == nil || cell.op != "fieldaddr" {
			R.Undecided(k.what(), "no value of %s", mt)
			return
		}
		g = E.bdd.And(g, has)
		for _, e := range k.ev {
			if e.kind != "ext" || !strings.HasSuffix(e.name, "mmap-go.MMap).Unmap") || E.never(E.bdd.And(e.g, g)) {
				continue
			}
			c, found := k.connected(cell.args[0], e)
			if !found {
				R.Undecided(k.what(), "what connects a value of %s to a file is not found", mt)
				return
			}
			x := E.bdd.AndAll(e.g, g, c)
			R.Ob(r22off, k.what()+", "+mt, E.never(x), k.P.pos(e.pos), "it can be, if %s", E.BStr(x))
			R.Count("values when a file is unmapped", 1)
		}
	}
}

func checkC22(P *Program, R *Report) {
	conn := connections(P)
	R.Count("kinds of connections", len(conn))
	R.AtLeast("kinds of connections", 1)
	var mu sync.Mutex
	common := map[string]map[string]bool{}
	allOps(P, R, func(r *evRun) {
		for _, x := range P.accessRecs(r) {
			w := x.how == "written to the file"
			if !w && !(conn[x.class] && x.how == "written") {
				continue
			}
			if w {
				bad := ""
				for _, c := range sortedKeys(x.split) {
					if conn[c] {
						bad += c + ", which was read at " + x.split[c] + "; "
					}
				}
				R.Ob(r22update, x.run, len(x.held) > 0 && bad == "", x.pos, "no lock of the metric is held if %s, or it was released since: %s", x.detail, bad)
				R.Count("writes to files", 1)
			} else {
				R.Ob(r22lock, x.run+", "+x.owner, len(x.held) > 0, x.pos, "no lock of the metric is held if %s", x.detail)
				R.Count("changes of connections", 1)
			}
			mu.Lock()
			if common[x.owner] == nil {
				common[x.owner] = x.held
			} else {
				both := map[string]bool{}
				for c := range x.held {
					if common[x.owner][c] {
						both[c] = true
					}
				}
				common[x.owner] = both
			}
			mu.Unlock()
		}
		E := r.Engine
		if r.root {
			return
		}
		for _, e := range r.ev {
			if e.kind != "W" {
				continue
			}
			for _, l := range leavesOf(e.args[0]) {
				g := E.bdd.AndAll(e.g, l.g)
				if E.never(g) {
					continue
				}
				o := slotOwner(l.t)
				if o == nil {
					R.Ob(r22update, r.what, false, P.pos(e.pos), "the write is at %s, which is no slot", l.t)
					continue
				}
				W := r.world
				c, found := W.connected(o, e)
				R.Ob(r22update, r.what, found && E.implies(g, c), P.pos(e.pos), "it writes when it is not connected")
				R.Count("writes of operations", 1)
			}
		}
	})
	for _, ow := range sortedKeys(common) {
		R.Ob(r22one, ow, len(common[ow]) > 0, "", "there is none")
	}
	eachClientRun(P, R, "Stop", startScenarios(), nil, func(k *clientRun) { checkC22Stop(k, R, conn) })
	R.AtLeast("values when a file is unmapped", 50)
	R.AtLeast("changes of connections", 100)
	R.AtLeast("writes to files", 30)
	R.AtLeast("writes of operations", 30)
}

func init() {
	checks["C22"] = check{"connections of values to files at every unmapping of Stop, and locks at every change of a connection and every write", checkC22}
}
