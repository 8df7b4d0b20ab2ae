package main

// Binary decision diagrams over atom variables. Guards of facts are BDDs, so
// merging facts at joins is exact in the atoms and needs no path enumeration.

// B is a node of a BDD.
type B int32

const (
	False B = 0
	True  B = 1
)

type bnode struct {
	v      int32
	lo, hi B
}

type bddMgr struct {
	nodes  []bnode
	unique map[bnode]B
	iteC   map[[3]B]B
	resC   map[[2]B]B
	supC   map[B][]int32
}

func newBDD() *bddMgr {
	m := &bddMgr{unique: map[bnode]B{}, iteC: map[[3]B]B{}, resC: map[[2]B]B{}, supC: map[B][]int32{}}
	const top = 1 << 30
	if len(m.nodes) > maxNodes {
		panic("conditions too large")
	}
	m.nodes = append(m.nodes, bnode{top, 0, 0}, bnode{top, 1, 1})
	return m
}

func (m *bddMgr) mk(v int32, lo, hi B) B {
	if lo == hi {
		return lo
	}
	n := bnode{v, lo, hi}
	if b, ok := m.unique[n]; ok {
		return b
	}
	b := B(len(m.nodes))
	m.nodes = append(m.nodes, n)
	m.unique[n] = b
	return b
}

func (m *bddMgr) Var(v int32) B { return m.mk(v, False, True) }

func (m *bddMgr) level(b B) int32 { return m.nodes[b].v }

func (m *bddMgr) cof(b B, v int32) (B, B) {
	n := m.nodes[b]
	if n.v == v {
		return n.lo, n.hi
	}
	return b, b
}

func (m *bddMgr) ITE(f, g, h B) B {
	switch {
	case f == True:
		return g
	case f == False:
		return h
	case g == h:
		return g
	case g == True && h == False:
		return f
	}
	k := [3]B{f, g, h}
	if r, ok := m.iteC[k]; ok {
		return r
	}
	v := m.level(f)
	if l := m.level(g); l < v {
		v = l
	}
	if l := m.level(h); l < v {
		v = l
	}
	f0, f1 := m.cof(f, v)
	g0, g1 := m.cof(g, v)
	h0, h1 := m.cof(h, v)
	r := m.mk(v, m.ITE(f0, g0, h0), m.ITE(f1, g1, h1))
	m.iteC[k] = r
	return r
}

func (m *bddMgr) And(a, b B) B { return m.ITE(a, b, False) }
func (m *bddMgr) Or(a, b B) B  { return m.ITE(a, True, b) }
func (m *bddMgr) Not(a B) B    { return m.ITE(a, False, True) }
func (m *bddMgr) Xor(a, b B) B { return m.ITE(a, m.Not(b), b) }
func (m *bddMgr) Imp(a, b B) B { return m.ITE(a, b, True) }

func (m *bddMgr) AndAll(bs ...B) B {
	r := True
	for _, b := range bs {
		r = m.And(r, b)
	}
	return r
}

// Restrict simplifies f with respect to a care set c: the result agrees with f
// wherever c holds.
// larger: the diagram of f has more than n nodes.
func (m *bddMgr) larger(f B, n int) bool {
	seen := map[B]bool{}
	var walk func(f B) bool
	walk = func(f B) bool {
		if f <= True || seen[f] {
			return false
		}
		seen[f] = true
		return len(seen) > n || walk(m.nodes[f].lo) || walk(m.nodes[f].hi)
	}
	return walk(f)
}

func (m *bddMgr) Restrict(f, c B) B {
	switch {
	case c == False:
		return False
	case c == True || f <= True:
		return f
	}
	k := [2]B{f, c}
	if r, ok := m.resC[k]; ok {
		return r
	}
	vf, vc := m.level(f), m.level(c)
	var r B
	switch {
	case vc < vf:
		c0, c1 := m.cof(c, vc)
		r = m.Restrict(f, m.Or(c0, c1))
	default:
		f0, f1 := m.cof(f, vf)
		c0, c1 := m.cof(c, vf)
		switch {
		case c0 == False:
			r = m.Restrict(f1, c1)
		case c1 == False:
			r = m.Restrict(f0, c0)
		default:
			r = m.mk(vf, m.Restrict(f0, c0), m.Restrict(f1, c1))
		}
	}
	m.resC[k] = r
	return r
}

// Support returns the variables f depends on, ascending.
func (m *bddMgr) Support(f B) []int32 {
	if s, ok := m.supC[f]; ok {
		return s
	}
	seen := map[B]bool{}
	vars := map[int32]bool{}
	var walk func(B)
	walk = func(b B) {
		if b <= True || seen[b] {
			return
		}
		seen[b] = true
		n := m.nodes[b]
		vars[n.v] = true
		walk(n.lo)
		walk(n.hi)
	}
	walk(f)
	s := make([]int32, 0, len(vars))
	for v := range vars {
		s = append(s, v)
	}
	sortInt32(s)
	m.supC[f] = s
	return s
}

// SetVar returns f with a variable fixed.
func (m *bddMgr) SetVar(f B, v int32, val bool) B {
	if val {
		return m.compose(f, v, True)
	}
	return m.compose(f, v, False)
}

// compose substitutes g for variable v in f.
func (m *bddMgr) compose(f B, v int32, g B) B {
	cache := map[B]B{}
	var walk func(B) B
	walk = func(b B) B {
		n := m.nodes[b]
		if b <= True || n.v > v {
			return b
		}
		if r, ok := cache[b]; ok {
			return r
		}
		var r B
		if n.v == v {
			r = m.ITE(g, n.hi, n.lo)
		} else {
			r = m.ITE(m.Var(n.v), walk(n.hi), walk(n.lo))
		}
		cache[b] = r
		return r
	}
	return walk(f)
}

// Exists quantifies v away.
func (m *bddMgr) Exists(f B, v int32) B {
	return m.Or(m.SetVar(f, v, false), m.SetVar(f, v, true))
}

// Cubes calls fn for every cube of f until it returns false; it reports whether
// all cubes were visited.
func (m *bddMgr) Cubes(f B, fn func(map[int32]bool) bool) bool {
	asg := map[int32]bool{}
	var walk func(B) bool
	walk = func(b B) bool {
		if b == False {
			return true
		}
		if b == True {
			return fn(asg)
		}
		n := m.nodes[b]
		asg[n.v] = false
		if !walk(n.lo) {
			return false
		}
		asg[n.v] = true
		if !walk(n.hi) {
			return false
		}
		delete(asg, n.v)
		return true
	}
	return walk(f)
}

func sortInt32(s []int32) {
	for i := 1; i < len(s); i++ {
		for j := i; j > 0 && s[j] < s[j-1]; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
}

// maxNodes bounds the memory a condition takes, what needs more is undecided.
const maxNodes = 6 << 20
