package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

// Engine holds the interned values and conditions of one analysis.
type Engine struct {
	bdd      *bddMgr
	terms    map[string]*Term
	termList []*Term
	atoms    []*atom
	atomIdx  map[string]int32
	care     B
	feasC    map[B]bool
	satC     map[B]bool
	lemmas   []lemma
	model    map[int32]bool      // of the last condition that can hold
	facts    map[*Term][]linForm // linear facts about integer terms: form <= 0

	prog  *Program
	loops []*Loop

	// state of the evaluation
	mem     []*memEntry
	events  []*Event
	thread  int
	threads []*threadInfo
	loopSt  []*Loop // loops being evaluated
	depth   int
	quiet   int // discovery passes

	clientMode bool
	undecided  []string
	stack      []*frame
	ghosts     map[string]bool
	seq        map[string]int

	// configuration of a check
	invariants   func(E *Engine, loc *Term, v *Term) *Term
	opaque       func(fn *ssa.Function) bool
	retEvents    bool // calls that return an error give an event
	trace        func(fn *ssa.Function, args []*Term, g B)
	runTag       string
	flat         bool // names do not depend on the path of calls
	obligations  bool
	funcs        map[*ssa.Function]bool
	nilT         func(t *Term) bool
	closedIface  func(t *Term, iface types.Type) bool
	custom       func(fn *ssa.Function, args []*Term, g B, fr *frame, in ssa.Instruction) ([]*Term, B, bool)
	onLock       func(loc *Term, g B)
	symTokens    bool // what is received from a buffered channel may be anything
	assumeWrites bool // the length of the file suffices
	wlens        map[*Term]*Term
	loopIdx      map[string]*Loop
	globalInit   map[*ssa.Global]*Term
	axioms       map[int32]B // what an atom implies by definition
	derived      map[int32]derivedAxiom
	rangeHook    func(t *Term) (lo, hi *big.Int, ok bool)
	globalsRun   bool
	allInit      bool
	globalOf     map[*Term]*ssa.Global
	injective    func(p *Term) bool
	typeHook     func(t *Term, T types.Type) (is, known bool)
	nonNilHook   func(t *Term) bool
	opaqueRes    map[*Term]bool
	otherVer     map[string]bool // versions of memory that others wrote, who know nothing that was made here
}

type threadInfo struct {
	held       []heldLock
	id, parent int
	spawn      *Event
}

// Event is something that happens during the evaluation, under a guard.
type Event struct {
	id     int
	kind   string
	g      B
	loc    *Term
	val    *Term
	args   []*Term
	fn     *ssa.Function
	name   string
	pos    token.Pos
	thread int
	loops  []*Loop
	ctx    []*frame
	held   []heldLock
	res    []*Term
	ok     B
	memAt  int
	mem    []*memEntry // the memory at the time
	typ    types.Type  // what a value is asserted to be
}

type heldLock struct {
	loc   *Term
	g     B
	write bool
}

func newEngine(p *Program) *Engine {
	E := &Engine{
		bdd: newBDD(), terms: map[string]*Term{}, atomIdx: map[string]int32{}, care: True,
		feasC: map[B]bool{}, satC: map[B]bool{}, facts: map[*Term][]linForm{}, prog: p,
		seq: map[string]int{}, retEvents: p.ret, globalInit: map[*ssa.Global]*Term{},
	}
	E.threads = []*threadInfo{{parent: -1}}
	E.globalOf = map[*Term]*ssa.Global{}
	E.axioms = map[int32]B{}
	E.derived = map[int32]derivedAxiom{}
	E.opaqueRes = map[*Term]bool{}
	E.otherVer = map[string]bool{}
	E.funcs = map[*ssa.Function]bool{}
	E.wlens = map[*Term]*Term{}
	E.loopIdx = map[string]*Loop{}
	return E
}

func cmpConst(a, b *Term) int {
	if constant.Compare(a.cv, token.LSS, b.cv) {
		return -1
	}
	if constant.Compare(a.cv, token.GTR, b.cv) {
		return 1
	}
	return 0
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// nilTracked: whether dereferencing a value of unknown origin is an obligation.
func (E *Engine) nilTracked(t *Term) bool { return E.nilT != nil && E.nilT(t) }

func (E *Engine) analysed(fn *ssa.Function) {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	E.funcs[fn] = true
}
