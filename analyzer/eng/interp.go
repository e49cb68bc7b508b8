package eng

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// CallEvent describes a call being analysed.
type CallEvent struct {
	St        *State
	Site      ssa.CallInstruction
	Ctx       string
	Callee    *ssa.Function // nil for unresolved dynamic calls and builtins
	Obj       *types.Func   // callee object if known (also interface method)
	Name      string        // full name of the callee, "" if unknown
	Args      []*Term       // receiver first
	Invoke    bool          // unresolved interface method call
	Pos       token.Pos
	InDefer   bool
	Fn        *ssa.Function // caller
	Res       []types.Type
	SiteID    string
	FnTerm    *Term // unknown function value
	Bindings  []*Term
	skipModel bool
}

// Outcome is a possible end of a call.
type Outcome struct {
	St    *State
	Res   []*Term
	Panic bool
	Ret   ssa.Instruction
}

// Hooks let a rule observe and steer the interpretation.
type Hooks struct {
	NoUnroll bool // every loop is interpreted for any number of iterations
	// Model may handle a call completely.
	Model func(ev *CallEvent) (outs []Outcome, handled bool)
	// OnCall is called before a resolved or opaque call.
	OnCall func(ev *CallEvent)
	// AfterCall sees results of opaque calls.
	AfterCall func(ev *CallEvent, st *State, res []*Term)
	// Boundary functions of the module are not entered.
	Boundary func(fn *ssa.Function) bool
	OnStore  func(st *State, addr, v *Term, T types.Type, at string)
	OnLoad   func(st *State, addr *Term, pos token.Pos)
	OnReturn func(st *State, fn *ssa.Function, res []*Term, pos token.Pos)
	// Oblige is told about operations that may panic.
	Oblige func(st *State, kind string, ok bool, pos token.Pos, ts ...*Term)
	// OnInstr sees every instruction with its state.
	OnInstr func(st *State, in ssa.Instruction)
	// Resolve lists implementations for an unresolved interface call.
	Resolve func(ev *CallEvent) []*ssa.Function
	// LostTrack is called if a tracked term becomes a value of a former loop iteration.
	LostTrack func(st *State, key string, t *Term, isNil, known bool)
	// OnPanic sees explicit panics.
	OnPanic func(st *State, pos token.Pos)
	// OnEnter is called on entry to an inlined function
	OnEnter func(st *State, fn *ssa.Function, args []*Term)
	// ResolveFunc lists possible values of an unknown function value
	ResolveFunc func(ev *CallEvent, fn *Term) []*Term
	OnDefer     func(st *State, in *ssa.Defer, fn *Term, args []*Term)
	IgnoreDefer func(in *ssa.Defer) bool // the deferred call does not matter
	OnDeferLoop func(st *State, in *ssa.Defer, old, args []*Term)
	// OnBack is called for states that return to the header of a loop.
	OnBack      func(st *State, h *ssa.BasicBlock)
	OnBranch    func(st *State, in *ssa.If, taken bool)
	OnArith     func(st *State, op token.Token, a, b *Term, pos token.Pos)
	OnAppend    func(st *State, base, tail *Term, pos token.Pos)
	OnCopy      func(st *State, dst, src *Term, pos token.Pos)
	OnMapUpdate func(st *State, m, k, v *Term, at string)
}

// Engine interprets functions of a program.
type Engine struct {
	Prog       *ssa.Program
	InModule   func(p *types.Package) bool
	Fset       *token.FileSet
	terms      termTable
	infos      map[*ssa.Function]*fnInfo
	valIDs     map[ssa.Value]int
	incoming   map[*Term]map[*Term]bool
	elemStores map[*Term]map[*Term]bool
	readOnly   map[*Term]bool // variables that are never changed by closures
	loopIDs    map[string]int
	hooks      *Hooks
	globals    map[*ssa.Global]*Term
	globalVals map[*ssa.Global]ssa.Value
	globalsOK  bool
	MapUpd     map[*Term]map[[2]*Term]bool

	// Limits and statistics.
	MaxDepth   int
	MaxStates  int
	Steps      int
	MaxSteps   int
	Funcs      map[*ssa.Function]int
	Calls      int
	Joins      int
	Problems   map[string]bool // undecided constructs
	AllFuncs   map[*ssa.Function]bool
	nTmp       int
	impls      map[*types.Func][]impl
	modTypes   []types.Type
	pure       map[*ssa.Function]bool
	Recursions int
	// NonNeg lists integer fields that never hold negative values.
	NonNeg map[*types.Var]bool
	// OnceExact: functions executed by sync.Once are interpreted instead of assuming that it happened earlier.
	OnceExact bool
	// cause are arguments of the call whose effects are being applied.
	cause    []*Term
	incFacts map[[2]*Term]map[*Term]bool
	// Watch lists addresses whose content is a part of the partition key.
	Watch []*Term
}

func New(prog *ssa.Program, inModule func(*types.Package) bool, all map[*ssa.Function]bool) *Engine {
	return &Engine{Prog: prog, InModule: inModule, Fset: prog.Fset, terms: termTable{m: map[string]*Term{}},
		infos: map[*ssa.Function]*fnInfo{}, valIDs: map[ssa.Value]int{}, incoming: map[*Term]map[*Term]bool{},
		elemStores: map[*Term]map[*Term]bool{}, loopIDs: map[string]int{}, MaxDepth: 14, MaxStates: 16, MaxSteps: 2000000,
		Funcs: map[*ssa.Function]int{}, Problems: map[string]bool{}, AllFuncs: all, MapUpd: map[*Term]map[[2]*Term]bool{},
		impls: map[*types.Func][]impl{}, pure: map[*ssa.Function]bool{}, NonNeg: map[*types.Var]bool{}, readOnly: map[*Term]bool{}}
}

func (e *Engine) SetHooks(h *Hooks) { e.hooks = h }

func (e *Engine) Problem(format string, a ...interface{}) {
	e.Problems[fmt.Sprintf(format, a...)] = true
}

func (e *Engine) valID(v ssa.Value) int {
	if id, ok := e.valIDs[v]; ok {
		return id
	}
	id := len(e.valIDs)
	e.valIDs[v] = id
	return id
}

func (e *Engine) loopID(ctx string, h *ssa.BasicBlock) int {
	k := ctx + "|" + h.Parent().String() + "|" + fmt.Sprint(h.Index)
	if id, ok := e.loopIDs[k]; ok {
		return id
	}
	id := len(e.loopIDs) + 1
	e.loopIDs[k] = id
	return id
}

func (e *Engine) Pos(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	q := e.Fset.Position(p)
	f := q.Filename
	if i := strings.Index(f, "/repo/"); i >= 0 {
		f = f[i+6:]
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

// globalConst gives the value of package variables that are set only once, by a constant initializer.
func (e *Engine) globalConst(g *ssa.Global) *Term {
	e.scanGlobals()
	return e.globals[g]
}

// GlobalInit is the initial SSA value of a package variable which is stored only by the package initializer.
func (e *Engine) GlobalInit(g *ssa.Global) ssa.Value {
	e.scanGlobals()
	return e.globalVals[g]
}

func (e *Engine) scanGlobals() {
	if e.globalsOK {
		return
	}
	e.globalsOK = true
	e.globals = map[*ssa.Global]*Term{}
	e.globalVals = map[*ssa.Global]ssa.Value{}
	bad := map[*ssa.Global]bool{}
	for fn := range e.AllFuncs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if g, ok := st.Addr.(*ssa.Global); ok {
						if fn.Name() == "init" && fn.Synthetic != "" && e.globalVals[g] == nil {
							e.globalVals[g] = st.Val
						} else {
							bad[g] = true
						}
					}
					if g, ok := st.Val.(*ssa.Global); ok {
						bad[g] = true
					}
					continue
				}
				if _, ok := in.(*ssa.UnOp); ok {
					continue
				}
				if _, ok := in.(*ssa.DebugRef); ok {
					continue
				}
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Global); ok {
						bad[g] = true
					}
				}
			}
		}
	}
	for g := range bad {
		delete(e.globalVals, g)
	}
	for g, v := range e.globalVals {
		if c, ok := v.(*ssa.Const); ok && !bad[g] {
			e.globals[g] = e.constTerm(c)
		}
		if c, ok := v.(*ssa.Call); ok && !bad[g] {
			if f := c.Call.StaticCallee(); f != nil && len(f.Blocks) == 0 && f.Object() != nil {
				name := f.Object().(*types.Func).FullName()
				switch name {
				case "errors.New", "fmt.Errorf":
					e.globals[g] = e.intern(Term{Kind: KCall, Aux: name + "@" + g.String(), Typ: c.Type(), Obj: f.Object()})
				}
			}
		}
	}
}

func (e *Engine) constTerm(c *ssa.Const) *Term {
	if c.Value == nil {
		return e.Zero(c.Type())
	}
	v := c.Value
	if isInt(c.Type()) {
		if x := constant.ToInt(v); x.Kind() == constant.Int {
			v = x
		}
	}
	return e.Const(v, c.Type())
}

// Run analyses fn called with args in state st.
func (e *Engine) Run(fn *ssa.Function, st *State, args []*Term, bindings []*Term, ctx string) []Outcome {
	return e.call(fn, st, args, bindings, ctx)
}

func (e *Engine) call(fn *ssa.Function, st *State, args []*Term, bindings []*Term, ctx string) []Outcome {
	e.Funcs[fn]++
	f := &frame{fn: fn, ctx: ctx, env: map[ssa.Value]*Term{}, info: e.info(fn), flat: map[*loopInfo]bool{}}
	if len(st.frames) > 0 {
		f.base = st.top().loops
		f.loops = f.base
	}
	for i, p := range fn.Params {
		if i < len(args) {
			f.env[p] = args[i]
		}
	}
	for i, fv := range fn.FreeVars {
		if i < len(bindings) {
			f.env[fv] = bindings[i]
		} else {
			f.env[fv] = e.Param("freevar "+fn.String()+"."+fv.Name(), fv.Type())
		}
	}
	s := st.Clone()
	s.frames = append(append([]*frame(nil), s.frames...), f)
	if e.hooks != nil && e.hooks.OnEnter != nil {
		e.hooks.OnEnter(s, fn, args)
	}
	r := &runner{e: e, f: f, edges: map[edgeKey][]*State{}}
	r.region(f.info.rpo, nil, []*State{s})
	// merge outcomes of one class
	var outs []Outcome
	groups := map[string][]Outcome{}
	var order []string
	for _, o := range r.outs {
		k := o.St.ghostKey() + "|" + e.trackKey(o.St)
		if o.Panic {
			k = "panic|" + k
		}
		for i, t := range o.Res {
			k += "|" + e.classOf(o.St, t, fn.Signature.Results().At(i).Type(), true)
		}
		if _, ok := groups[k]; !ok {
			order = append(order, k)
		}
		groups[k] = append(groups[k], o)
	}
	for gi, k := range order {
		g := groups[k]
		pop := func(s *State) {
			s.frames = s.frames[:len(s.frames)-1]
			if len(s.frames) > 0 {
				s.frames = append([]*frame(nil), s.frames...)
				s.frames[len(s.frames)-1] = s.frames[len(s.frames)-1].clone()
			}
		}
		if len(g) == 1 {
			pop(g[0].St)
			outs = append(outs, g[0])
			continue
		}
		e.Joins++
		states := make([]*State, len(g))
		for i := range g {
			pop(g[i].St)
			states[i] = g[i].St
		}
		res := make([]*Term, len(g[0].Res))
		var slots []slot
		for i := range res {
			i := i
			sl := slot{typ: fn.Signature.Results().At(i).Type(), set: func(s *State, t *Term) { res[i] = t }}
			for _, o := range g {
				sl.terms = append(sl.terms, o.Res[i])
			}
			slots = append(slots, sl)
		}
		var deps []int
		if len(states[0].frames) > 0 {
			deps = states[0].top().loops
		}
		j := e.join(states, "ret "+ctx+" "+fn.String()+fmt.Sprint(gi)+hash(k), slots, deps, nil)
		outs = append(outs, Outcome{St: j, Res: res, Panic: g[0].Panic, Ret: g[0].Ret})
	}
	return outs
}

func hash(s string) string {
	h := uint32(2166136261)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint32(s[i])) * 16777619
	}
	return fmt.Sprintf("%x", h)
}

func (e *Engine) trackKey(s *State) string {
	if len(s.Track) == 0 && len(e.Watch) == 0 {
		return ""
	}
	var ks []string
	for _, w := range e.Watch {
		T := derefType(w.Typ)
		ks = append(ks, fmt.Sprint("w", w.ID, e.classOf(s, e.Load(s, w, T), T, true)))
	}
	for k, t := range s.Track {
		ks = append(ks, k+":"+fmt.Sprint(t.ID)+e.classOf(s, t, t.Typ, false))
	}
	sort.Strings(ks)
	return strings.Join(ks, ";")
}

type edgeKey struct {
	from *ssa.BasicBlock
	succ int
}

type runner struct {
	e     *Engine
	f     *frame
	edges map[edgeKey][]*State
	outs  []Outcome
}

// region processes blocks in reverse postorder; loops inside are stabilised.
func (r *runner) region(blocks []*ssa.BasicBlock, cur *loopInfo, entry []*State) {
	done := map[*loopInfo]bool{}
	info := r.f.info
	for _, b := range blocks {
		l := info.inner[b]
		// find the outermost loop strictly inside cur that contains b
		for l != nil && l != cur && l.outer != cur {
			l = l.outer
		}
		if l != nil && l != cur {
			if !done[l] {
				done[l] = true
				var in []*State
				if b == info.rpo[0] {
					in = entry
				}
				r.loop(l, in)
			}
			continue
		}
		if cur != nil && b == cur.header {
			continue // handled by loop()
		}
		var in []*State
		if b == info.rpo[0] {
			in = entry
		}
		for _, s := range r.inflow(b, nil, in) {
			r.block(b, s)
		}
	}
}

// incomingStates collects edge states of a block with the index of the predecessor.
func (r *runner) edgeStates(b *ssa.BasicBlock, filter func(p *ssa.BasicBlock) bool) (states []*State, preds []int) {
	for pi, p := range b.Preds {
		if filter != nil && !filter(p) {
			continue
		}
		for si, s := range p.Succs {
			if s != b {
				continue
			}
			// parallel edges: the pi-th pred corresponds to its own occurrence
			if nth(b.Preds, p, pi) != nth(p.Succs, b, si) {
				continue
			}
			for _, st := range r.edges[edgeKey{p, si}] {
				states = append(states, st)
				preds = append(preds, pi)
			}
		}
	}
	return
}

func nth(l []*ssa.BasicBlock, b *ssa.BasicBlock, i int) int {
	n := 0
	for _, x := range l[:i] {
		if x == b {
			n++
		}
	}
	return n
}

func phis(b *ssa.BasicBlock) []*ssa.Phi {
	var r []*ssa.Phi
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		r = append(r, p)
	}
	return r
}

// inflow merges states entering a block by partition.
func (r *runner) inflow(b *ssa.BasicBlock, filter func(p *ssa.BasicBlock) bool, extra []*State) []*State {
	states, preds := r.edgeStates(b, filter)
	for _, s := range extra {
		states = append(states, s)
		preds = append(preds, -1)
	}
	if len(states) == 0 {
		return nil
	}
	e := r.e
	ph := phis(b)
	in := make([]inState, len(states))
	for i, s := range states {
		in[i] = r.prepare(b, s, ph, preds[i])
	}
	return r.mergeIn(b, in, ph, false, e.loopsOf(r.f, b))
}

type inState struct {
	s    *State
	phis []*Term
}

func (e *Engine) loopsOf(f *frame, b *ssa.BasicBlock) []int {
	var own []int
	for l := f.info.inner[b]; l != nil; l = l.outer {
		if f.flat[l] {
			continue
		}
		own = append(own, e.loopID(f.ctx, l.header))
	}
	sort.Ints(own)
	return unionDeps(f.base, own)
}

// prepare evaluates phi operands and trims the environment to live values.
func (r *runner) prepare(b *ssa.BasicBlock, s *State, ph []*ssa.Phi, pred int) inState {
	n := s.Clone()
	x := inState{s: n}
	for _, p := range ph {
		if pred >= 0 {
			x.phis = append(x.phis, r.e.val(n, p.Edges[pred]))
		} else {
			x.phis = append(x.phis, r.e.Zero(p.Type()))
		}
	}
	top := n.top()
	live := r.f.info.liveIn[b.Index]
	for v := range top.env {
		switch v.(type) {
		case *ssa.Parameter, *ssa.FreeVar:
			continue
		}
		if !live[v] {
			delete(top.env, v)
		}
	}
	top.ctx = r.f.ctx
	top.loops = r.e.loopsOf(r.f, b)
	return x
}

func (r *runner) key(x inState, ph []*ssa.Phi, consts bool, coarse bool) string {
	e := r.e
	s := x.s
	var sb strings.Builder
	sb.WriteString(s.ghostKey())
	sb.WriteByte('|')
	sb.WriteString(e.trackKey(s))
	for _, d := range s.top().defers {
		sb.WriteString(fmt.Sprintf(";d%p", d.site))
	}
	if coarse {
		return sb.String()
	}
	for i, p := range ph {
		sb.WriteByte(',')
		sb.WriteString(e.classOf(s, x.phis[i], p.Type(), consts))
		sb.WriteString(r.zeroClass(s, p, x.phis[i]))
	}
	sb.WriteByte('|')
	var vals []ssa.Value
	for v := range s.top().env {
		vals = append(vals, v)
	}
	sort.Slice(vals, func(i, j int) bool { return e.valID(vals[i]) < e.valID(vals[j]) })
	for _, v := range vals {
		switch v.(type) {
		case *ssa.Parameter, *ssa.FreeVar:
			continue
		}
		c := e.classOf(s, s.top().env[v], v.Type(), false) + r.zeroClass(s, v, s.top().env[v])
		if c != "" {
			sb.WriteString(fmt.Sprintf(",%d%s", e.valID(v), c))
		}
	}
	// captured and address-taken local variables
	var cells []*Term
	for a := range s.mem {
		if a.Kind == KAlloc {
			cells = append(cells, a)
		}
	}
	sort.Slice(cells, func(i, j int) bool { return cells[i].ID < cells[j].ID })
	for _, a := range cells {
		c := e.classOf(s, s.mem[a], derefType(a.Typ), consts)
		if c != "" {
			sb.WriteString(fmt.Sprintf(",m%d%s", a.ID, c))
		}
	}
	return sb.String()
}

// branchClass is the outcome of the condition at the end of a block that is
// about to be entered if it is already known.
func (r *runner) branchClass(b *ssa.BasicBlock, x inState, ph []*ssa.Phi) string {
	e := r.e
	last, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return ""
	}
	cond, ok := last.Cond.(*ssa.BinOp)
	if !ok || cond.Block() != b {
		return ""
	}
	switch cond.Op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
	default:
		return ""
	}
	env := x.s.top().env
	tmp := map[ssa.Value]*Term{}
	for i, p := range ph {
		tmp[p] = x.phis[i]
	}
	var eval func(v ssa.Value) *Term
	eval = func(v ssa.Value) *Term {
		if t, ok := tmp[v]; ok {
			return t
		}
		if t, ok := env[v]; ok {
			return t
		}
		switch v := v.(type) {
		case *ssa.Const:
			return e.val(x.s, v)
		case *ssa.Call:
			if f, ok := v.Call.Value.(*ssa.Builtin); ok && f.Name() == "len" && v.Block() == b {
				if t := eval(v.Call.Args[0]); t != nil {
					return e.Len(t)
				}
			}
		case *ssa.FieldAddr:
			if v.Block() == b {
				if t := eval(v.X); t != nil {
					return e.FieldAddr(t, derefType(v.X.Type()), v.Field)
				}
			}
		case *ssa.UnOp:
			if v.Block() == b && v.Op == token.MUL {
				if t := eval(v.X); t != nil {
					return e.Load(x.s, t, v.Type())
				}
			}
		}
		return nil
	}
	for _, in := range b.Instrs {
		switch in := in.(type) {
		case *ssa.Store, *ssa.MapUpdate, *ssa.Defer, *ssa.Go, *ssa.Send, *ssa.RunDefers, *ssa.Select:
			return ""
		case *ssa.Call:
			if f, ok := in.Call.Value.(*ssa.Builtin); !ok || f.Name() != "len" && f.Name() != "cap" {
				return ""
			}
		}
	}
	l, m := eval(cond.X), eval(cond.Y)
	if l == nil || m == nil {
		return ""
	}
	env[cond.X], tmp[cond.X] = l, env[cond.X]
	env[cond.Y], tmp[cond.Y] = m, env[cond.Y]
	t := r.binop(x.s, cond)
	for _, v := range []ssa.Value{cond.Y, cond.X} {
		if tmp[v] == nil {
			delete(env, v)
		} else {
			env[v] = tmp[v]
		}
	}
	v, known := e.Truth(x.s, t)
	switch {
	case !known:
		return "|?"
	case v:
		return "|T"
	}
	return "|F"
}

func (r *runner) mergeIn(b *ssa.BasicBlock, in []inState, ph []*ssa.Phi, header bool, deps []int) []*State {
	e := r.e
	group := func(consts, coarse bool) (map[string][]inState, []string) {
		g := map[string][]inState{}
		var order []string
		for _, x := range in {
			k := r.key(x, ph, consts, coarse)
			if consts {
				k += r.branchClass(b, x, ph)
			}
			if _, ok := g[k]; !ok {
				order = append(order, k)
			}
			g[k] = append(g[k], x)
		}
		return g, order
	}
	g, order := group(!header, false)
	if len(order) > e.MaxStates && !header {
		g, order = group(false, false)
	}
	if len(order) > e.MaxStates {
		g, order = group(false, true)
	}
	var out []*State
	for _, k := range order {
		out = append(out, r.joinIn(b, g[k], ph, deps, nil, k))
	}
	return out
}

func (r *runner) joinIn(b *ssa.BasicBlock, xs []inState, ph []*ssa.Phi, deps []int, prev *State, key string) *State {
	e := r.e
	var states []*State
	for _, x := range xs {
		states = append(states, x.s)
	}
	var slots []slot
	for i, p := range ph {
		p := p
		sl := slot{typ: p.Type(), set: func(s *State, t *Term) { s.top().env[p] = t }}
		for _, x := range xs {
			sl.terms = append(sl.terms, x.phis[i])
		}
		slots = append(slots, sl)
	}
	if len(states) > 1 {
		e.Joins++
	}
	s := e.join(states, fmt.Sprintf("%s|%s.%d|%s", r.f.ctx, b.Parent().String(), b.Index, hash(key)), slots, deps, prev)
	s.top().loops = deps
	return s
}

// maxUnroll is the number of iterations that are interpreted separately.
const maxUnroll = 6

// few tells whether a loop counts to a small number known at its entry.
func (r *runner) few(l *loopInfo, states []*State, preds []int) bool {
	h := l.header
	last, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok || l.body[h.Succs[0]] == l.body[h.Succs[1]] {
		return false
	}
	cond, ok := last.Cond.(*ssa.BinOp)
	if !ok || cond.Op != token.LSS || !l.body[h.Succs[0]] {
		return false
	}
	one := func(v ssa.Value) bool {
		c, ok := v.(*ssa.Const)
		return ok && c.Value != nil && isInt(c.Type()) && c.Int64() == 1
	}
	next := func(v ssa.Value) *ssa.Phi {
		b, ok := v.(*ssa.BinOp)
		if !ok || b.Op != token.ADD || !one(b.Y) {
			return nil
		}
		p, ok := b.X.(*ssa.Phi)
		if !ok || p.Block() != h {
			return nil
		}
		return p
	}
	idx, isPhi := cond.X.(*ssa.Phi)
	if !isPhi {
		idx = next(cond.X)
	}
	if idx == nil || idx.Block() != h {
		return false
	}
	for i, p := range h.Preds {
		if l.body[p] && next(idx.Edges[i]) != idx {
			return false
		}
	}
	if in, ok := cond.Y.(ssa.Instruction); ok && l.body[in.Block()] {
		return false
	}
	for i, s := range states {
		if preds[i] < 0 {
			return false
		}
		from, ok := ConstInt(r.e.val(s, idx.Edges[preds[i]]))
		if !ok {
			return false
		}
		to, ok := ConstInt(r.e.val(s, cond.Y))
		if !ok || from < -1 || to-from > maxUnroll {
			return false
		}
	}
	return true
}

// unroll interprets iterations of a loop one by one.
func (r *runner) unroll(l *loopInfo, entry []*State, preds []int) {
	h := l.header
	ph := phis(h)
	var blocks []*ssa.BasicBlock
	for _, b := range r.f.info.rpo {
		if l.body[b] {
			blocks = append(blocks, b)
		}
	}
	ctx := r.f.ctx
	r.f.flat[l] = true
	defer func() {
		r.f.ctx = ctx
		delete(r.f.flat, l)
	}()
	inside := func(p *ssa.BasicBlock) bool { return l.body[p] }
	exits := map[edgeKey][]*State{}
	for iter := 0; len(entry) > 0; iter++ {
		r.f.ctx = fmt.Sprintf("%s#%d", ctx, iter)
		var in []inState
		for i, s := range entry {
			in = append(in, r.prepare(h, s, ph, preds[i]))
		}
		for b := range l.body {
			for si := range b.Succs {
				delete(r.edges, edgeKey{b, si})
			}
		}
		for _, s := range r.mergeIn(h, in, ph, false, r.e.loopsOf(r.f, h)) {
			r.block(h, s)
		}
		r.region(blocks, l, nil)
		for b := range l.body {
			for si, t := range b.Succs {
				if k := (edgeKey{b, si}); !l.body[t] {
					exits[k] = append(exits[k], r.edges[k]...)
				}
			}
		}
		entry, preds = r.edgeStates(h, inside)
		if iter > 2*maxUnroll {
			r.e.Problem("loop at %s does not finish", r.e.Pos(blockPos(h)))
			break
		}
	}
	for k, l := range exits {
		r.edges[k] = l
	}
}

// loop finds the fixpoint of a loop.
func (r *runner) loop(l *loopInfo, extra []*State) {
	e := r.e
	h := l.header
	ph := phis(h)
	deps := e.loopsOf(r.f, h)
	id := e.loopID(r.f.ctx, h)
	inside := func(p *ssa.BasicBlock) bool { return l.body[p] }
	outside := func(p *ssa.BasicBlock) bool { return !l.body[p] }
	entryStates, entryPreds := r.edgeStates(h, outside)
	for _, s := range extra {
		entryStates = append(entryStates, s)
		entryPreds = append(entryPreds, -1)
	}
	if len(entryStates) == 0 {
		return
	}
	if (e.hooks == nil || !e.hooks.NoUnroll) && r.few(l, entryStates, entryPreds) {
		r.unroll(l, entryStates, entryPreds)
		return
	}
	var entry []inState
	for i, s := range entryStates {
		entry = append(entry, r.fork(r.prepare(h, s, ph, entryPreds[i]), ph)...)
	}
	var bodyBlocks []*ssa.BasicBlock
	for _, b := range r.f.info.rpo {
		if l.body[b] {
			bodyBlocks = append(bodyBlocks, b)
		}
	}
	prev := map[string]*State{}
	nOuts := len(r.outs)
	for iter := 0; ; iter++ {
		if iter > 24 {
			e.Problem("loop at %s is not stable", e.Pos(blockPos(h)))
			e.Steps += e.MaxSteps // no sense to continue
			return
		}
		in := append([]inState(nil), entry...)
		if iter > 0 {
			bs, bp := r.edgeStates(h, inside)
			for i, s := range bs {
				if e.hooks != nil && e.hooks.OnBack != nil {
					s = s.Clone()
					e.hooks.OnBack(s, h)
				}
				for _, x := range r.fork(r.prepare(h, s, ph, bp[i]), ph) {
					r.backEdge(&x, id, h, ph, deps)
					in = append(in, x)
				}
			}
		}
		g := map[string][]inState{}
		var order []string
		coarse := len(prev) > e.MaxStates
		for _, x := range in {
			k := r.key(x, ph, false, coarse)
			if _, ok := g[k]; !ok {
				order = append(order, k)
			}
			g[k] = append(g[k], x)
		}
		if coarse || len(order) > e.MaxStates {
			g = map[string][]inState{}
			order = nil
			for _, x := range in {
				k := r.key(x, ph, false, true)
				if _, ok := g[k]; !ok {
					order = append(order, k)
				}
				g[k] = append(g[k], x)
			}
		}
		changed := false
		cur := map[string]*State{}
		var curOrder []string
		for _, k := range order {
			xs := g[k]
			p := prev[k]
			var ns *State
			if p == nil {
				ns = r.joinIn(h, xs, ph, deps, nil, k)
				changed = true
			} else {
				px := inState{s: p.Clone()}
				for _, f := range ph {
					px.phis = append(px.phis, p.top().env[f])
				}
				for _, f := range ph {
					delete(px.s.top().env, f)
				}
				var w *State
				if iter >= 3 {
					w = p
				}
				ns = r.joinIn(h, append([]inState{px}, xs...), ph, deps, w, k)
				if !e.sameState(p, ns) {
					changed = true
				}
			}
			cur[k] = ns
			curOrder = append(curOrder, k)
		}
		for k, s := range prev {
			if _, ok := cur[k]; !ok {
				cur[k] = s
				curOrder = append(curOrder, k)
			}
		}
		if !changed {
			return
		}
		prev = cur
		// rerun the body
		r.outs = r.outs[:nOuts]
		for b := range l.body {
			for si := range b.Succs {
				delete(r.edges, edgeKey{b, si})
			}
		}
		for _, k := range curOrder {
			r.block(h, cur[k].Clone())
		}
		r.region(bodyBlocks, l, nil)
	}
}

func blockPos(b *ssa.BasicBlock) token.Pos {
	for _, in := range b.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	for _, p := range b.Preds {
		for _, in := range p.Instrs {
			if in.Pos().IsValid() {
				return in.Pos()
			}
		}
	}
	return b.Parent().Pos()
}

// isCounter tells whether a number is changed only by some iterations of a loop.
func (f *fnInfo) isCounter(p *ssa.Phi) bool {
	if v, ok := f.counters[p]; ok {
		return v
	}
	if f.counters == nil {
		f.counters = map[*ssa.Phi]bool{}
	}
	f.counters[p] = false
	r := false
	if isInt(p.Type()) {
		l := f.inner[p.Block()]
		header := l != nil && l.header == p.Block()
		for j, b := range p.Block().Preds {
			q, ok := p.Edges[j].(*ssa.Phi)
			switch {
			case !ok:
			case !header:
				r = r || f.isCounter(q)
			case l.body[b]:
				r = r || q == p
				if q != p && q.Block() != p.Block() && l.body[q.Block()] {
					for _, v := range q.Edges {
						r = r || v == p
					}
				}
			}
		}
	}
	f.counters[p] = r
	return r
}

// zeroClass tells whether a counter is still zero.
func (r *runner) zeroClass(s *State, v ssa.Value, t *Term) string {
	p, ok := v.(*ssa.Phi)
	if !ok || !r.f.info.isCounter(p) {
		return ""
	}
	e := r.e
	switch {
	case e.LE(s, e.Int(1), t, 0):
		return "+"
	case e.LE(s, t, e.Int(0), 0) && e.LE(s, e.Int(0), t, 0):
		return "0"
	}
	return ""
}

// fork splits a state by flags that are not known yet.
func (r *runner) fork(x inState, ph []*ssa.Phi) []inState {
	out := []inState{x}
	for i, p := range ph {
		if !isBool(p.Type()) || len(out) > 2 {
			continue
		}
		var next []inState
		for _, y := range out {
			t := y.phis[i]
			if _, known := r.e.Truth(y.s, t); known || t.Kind == KPhi {
				next = append(next, y)
				continue
			}
			for _, v := range []bool{true, false} {
				z := inState{s: y.s.Clone(), phis: append([]*Term(nil), y.phis...)}
				if r.e.Assume(z.s, t, v) {
					z.phis[i] = r.e.Bool(v)
					next = append(next, z)
				}
			}
		}
		out = next
	}
	return out
}

// backEdge renames values of the finished iteration.
func (r *runner) backEdge(x *inState, id int, h *ssa.BasicBlock, ph []*ssa.Phi, deps []int) {
	e := r.e
	s := x.s
	var outer []int
	for _, d := range deps {
		if d != id {
			outer = append(outer, d)
		}
	}
	type ren struct{ from, to *Term }
	var rens []ren
	mk := func(name string, t *Term, T types.Type) *Term {
		if !t.dependsOn(id) {
			return t
		}
		if T == nil || t.Typ != nil && t.Kind != KNil {
			if T == nil {
				T = t.Typ
			}
		}
		n := e.intern(Term{Kind: KPhi, Aux: fmt.Sprintf("back %d#%s", id, name), Typ: T, Deps: outer})
		e.addIncoming(n, t, s)
		rens = append(rens, ren{t, n})
		return n
	}
	for i, p := range ph {
		x.phis[i] = mk(fmt.Sprint("p", i), x.phis[i], p.Type())
	}
	for a, v := range s.mem {
		if a.dependsOn(id) {
			delete(s.mem, a)
			continue
		}
		if v.dependsOn(id) {
			s.mem[a] = mk(fmt.Sprint("m", a.ID), v, derefType(a.Typ))
		}
	}
	// tracked terms
	for k, t := range s.Track {
		if t.dependsOn(id) {
			n, known := e.nilness(s, t)
			delete(s.Track, k)
			if e.hooks != nil && e.hooks.LostTrack != nil {
				e.hooks.LostTrack(s, k, t, n, known)
			}
		}
	}
	// env: dominated values are dead, others do not depend on the loop
	for v, t := range s.top().env {
		if t.dependsOn(id) {
			s.top().env[v] = mk(fmt.Sprint("e", e.valID(v)), t, v.Type())
		}
	}
	// defers
	fr := s.top()
	for i := range fr.defers {
		for j, t := range fr.defers[i].args {
			if t.dependsOn(id) {
				args := append([]*Term(nil), fr.defers[i].args...)
				args[j] = mk(fmt.Sprintf("d%d.%d", i, j), t, t.Typ)
				fr.defers[i].args = args
			}
		}
	}
	// zone
	z := s.zone
	for _, rn := range rens {
		eq := func(m, t *Term) {
			mb, mo := e.Lin(m)
			tb, to := e.Lin(t)
			if mb == tb {
				return
			}
			z.set(mb, tb, to-mo)
			z.set(tb, mb, mo-to)
		}
		if isInt(rn.to.Typ) {
			eq(rn.to, rn.from)
		} else if hasLen(rn.to.Typ) {
			eq(e.Len(rn.to), e.Len(rn.from))
			if _, ok := rn.to.Typ.Underlying().(*types.Slice); ok {
				eq(e.Cap(rn.to), e.Cap(rn.from))
			}
		}
	}
	keep := map[*Term]bool{}
	for v := range z.vars() {
		if v != nil && !v.dependsOn(id) {
			keep[v] = true
		}
	}
	s.zone = z.closed(e, keep)
	// facts
	nt := map[*Term]bool{}
	for f, v := range s.truth {
		g := f
		for _, rn := range rens {
			if g.dependsOn(id) && g.Mentions(rn.from) {
				g = e.Subst(g, rn.from, rn.to)
			}
		}
		if v {
			for _, p := range e.past(g, id, outer, s) {
				nt[p] = true
			}
		}
		if !g.dependsOn(id) && g.Kind != KConst {
			nt[g] = v
		}
	}
	// classes of renamed values
	for _, rn := range rens {
		if isBool(rn.to.Typ) {
			if v, k := e.Truth(s, rn.from); k {
				nt[rn.to] = v
			}
		} else if nillable(rn.to.Typ) {
			if v, k := e.nilness(s, rn.from); k {
				nt[e.Eq(rn.to, e.Nil())] = v
			}
		}
	}
	s.truth = nt
	for k := range s.escaped {
		if k.dependsOn(id) {
			delete(s.escaped, k)
		}
	}
}

// past weakens an equality of strings found in an iteration to ones with some
// value that was considered earlier. Every such value has its own name.
func (e *Engine) past(f *Term, id int, outer []int, s *State) []*Term {
	if f.Kind != KBin || f.Op != token.EQL || !isString(f.Args[0].Typ) {
		return nil
	}
	var out []*Term
	own := fmt.Sprintf("past %d#", id)
	for i, x := range f.Args {
		y := f.Args[1-i]
		if x.dependsOn(id) || x.Kind == KConst || y.Kind == KConst || strings.HasPrefix(x.Aux, "past ") || strings.HasPrefix(y.Aux, own) {
			continue
		}
		p := e.intern(Term{Kind: KPhi, Aux: own + fmt.Sprint(x.ID), Typ: y.Typ, Deps: outer})
		e.addIncoming(p, y, s)
		out = append(out, e.Eq(x, p))
	}
	return out
}

func (e *Engine) sameState(a, b *State) bool {
	ea, eb := a.top().env, b.top().env
	if len(ea) != len(eb) || len(a.truth) != len(b.truth) || len(a.mem) != len(b.mem) {
		return false
	}
	for v, t := range ea {
		if eb[v] != t {
			return false
		}
	}
	for k, t := range a.mem {
		if b.mem[k] != t {
			return false
		}
	}
	for k, t := range a.truth {
		if w, ok := b.truth[k]; !ok || w != t {
			return false
		}
	}
	for k, t := range a.epoch {
		if b.epoch[k] != t {
			return false
		}
	}
	live := e.liveVars(b)
	return zoneEqual(a.zone.closed(e, live), b.zone.closed(e, live))
}
