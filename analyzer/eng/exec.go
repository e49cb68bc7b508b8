package eng

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Val evaluates an SSA value in the current frame of a state.
func (e *Engine) Val(s *State, v ssa.Value) *Term { return e.val(s, v) }

func (e *Engine) val(s *State, v ssa.Value) *Term {
	switch x := v.(type) {
	case *ssa.Const:
		return e.constTerm(x)
	case *ssa.Global:
		return e.GlobalTerm(x)
	case *ssa.Function:
		return e.FuncTerm(x)
	case *ssa.Builtin:
		return e.intern(Term{Kind: KOpaque, Aux: "builtin " + x.Name()})
	}
	if t := s.top().env[v]; t != nil {
		return t
	}
	return e.intern(Term{Kind: KOpaque, Aux: fmt.Sprint("undef ", e.valID(v)), Typ: v.Type()})
}

func (e *Engine) opaque(s *State, aux string, T types.Type, args ...*Term) *Term {
	return e.intern(Term{Kind: KOpaque, Aux: aux, Typ: T, Args: args, Deps: s.loops()})
}

func (e *Engine) siteID(f *frame, in ssa.Instruction) string {
	b := in.Block()
	if b == nil {
		return f.ctx
	}
	n := 0
	for i, x := range b.Instrs {
		if x == in {
			n = i
			break
		}
	}
	return fmt.Sprintf("%s>%s.%d.%d", f.ctx, b.Parent().RelString(nil), b.Index, n)
}

// block executes a block starting from one state.
func (r *runner) block(b *ssa.BasicBlock, s *State) {
	e := r.e
	cur := []*State{s}
	for _, in := range b.Instrs {
		if len(cur) == 0 {
			return
		}
		var next []*State
		for _, st := range cur {
			e.Steps++
			if e.Steps > e.MaxSteps {
				e.Problem("step limit exceeded in %s", b.Parent())
				return
			}
			if e.hooks != nil && e.hooks.OnInstr != nil {
				e.hooks.OnInstr(st, in)
			}
			next = append(next, r.instr(b, in, st)...)
		}
		if len(next) > 6 {
			next = r.compact(b, in, next)
		}
		cur = next
	}
}

// compact merges states inside of a block.
func (r *runner) compact(b *ssa.BasicBlock, in ssa.Instruction, states []*State) []*State {
	for _, coarse := range []bool{false, true} {
		g := map[string][]inState{}
		var order []string
		for _, s := range states {
			x := inState{s: s}
			k := r.key(x, nil, true, coarse)
			if _, ok := g[k]; !ok {
				order = append(order, k)
			}
			g[k] = append(g[k], x)
		}
		if len(order) > r.e.MaxStates && !coarse {
			continue
		}
		var out []*State
		for _, k := range order {
			if len(g[k]) == 1 {
				out = append(out, g[k][0].s)
				continue
			}
			out = append(out, r.joinIn(b, g[k], nil, r.e.loopsOf(r.f, b), nil, k+"@"+r.e.siteID(r.f, in)))
		}
		return out
	}
	return states
}

func (r *runner) oblige(s *State, kind string, ok bool, pos token.Pos, ts ...*Term) {
	if h := r.e.hooks; h != nil && h.Oblige != nil {
		h.Oblige(s, kind, ok, pos, ts...)
	}
}

func (r *runner) nonNilOb(s *State, t *Term, pos token.Pos) {
	n, known := r.e.nilness(s, t)
	r.oblige(s, "nil", known && !n, pos, t)
	r.e.Assume(s, r.e.Eq(t, r.e.Nil()), false)
}

func (r *runner) instr(b *ssa.BasicBlock, in ssa.Instruction, s *State) []*State {
	e := r.e
	env := s.top().env
	one := []*State{s}
	switch in := in.(type) {
	case *ssa.Phi, *ssa.DebugRef:
		return one
	case *ssa.Alloc:
		t := e.intern(Term{Kind: KAlloc, Aux: "alloc@" + e.siteID(r.f, in), Typ: in.Type(), Deps: s.loops(), Pos: in.Pos()})
		e.resetObject(s, t)
		if _, done := e.readOnly[t]; !done {
			e.readOnly[t] = onlyRead(in, true)
		}
		env[in] = t
	case *ssa.Store:
		addr := e.val(s, in.Addr)
		r.nonNilOb(s, addr, in.Pos())
		e.Store(s, addr, e.val(s, in.Val), in.Val.Type(), e.siteID(r.f, in))
	case *ssa.UnOp:
		x := e.val(s, in.X)
		switch in.Op {
		case token.MUL:
			r.nonNilOb(s, x, in.Pos())
			if e.hooks != nil && e.hooks.OnLoad != nil {
				e.hooks.OnLoad(s, x, in.Pos())
			}
			env[in] = e.Load(s, x, in.Type())
		case token.NOT:
			env[in] = e.Not(x)
		case token.SUB:
			if x.Kind == KConst {
				env[in] = e.Const(constant.UnaryOp(token.SUB, x.Val, 0), in.Type())
			} else if isInt(in.Type()) {
				env[in] = e.Sub(e.Int(0), x)
			} else {
				env[in] = e.intern(Term{Kind: KUn, Op: in.Op, Args: []*Term{x}, Typ: in.Type()})
			}
		case token.ARROW:
			env[in] = e.opaque(s, "recv@"+e.siteID(r.f, in), in.Type(), x)
		default:
			env[in] = e.intern(Term{Kind: KUn, Op: in.Op, Args: []*Term{x}, Typ: in.Type()})
		}
	case *ssa.BinOp:
		env[in] = r.binop(s, in)
	case *ssa.FieldAddr:
		x := e.val(s, in.X)
		r.nonNilOb(s, x, in.Pos())
		env[in] = e.FieldAddr(x, derefType(in.X.Type()), in.Field)
	case *ssa.Field:
		env[in] = e.FieldOf(s, e.val(s, in.X), in.X.Type(), in.Field)
	case *ssa.IndexAddr:
		x, i := e.val(s, in.X), e.val(s, in.Index)
		if _, ok := in.X.Type().Underlying().(*types.Pointer); ok {
			r.nonNilOb(s, x, in.Pos())
		}
		r.indexOb(s, x, i, in.Pos())
		env[in] = e.IndexAddr(x, i, derefType(in.Type()))
	case *ssa.Index:
		x, i := e.val(s, in.X), e.val(s, in.Index)
		r.indexOb(s, x, i, in.Pos())
		if str, ok := ConstStr(x); ok {
			if n, ok := constInt(i); ok && n >= 0 && n < int64(len(str)) {
				env[in] = e.Int(int64(str[n]))
				break
			}
		}
		env[in] = e.intern(Term{Kind: KIndex, Args: []*Term{x, i}, Typ: in.Type()})
	case *ssa.Slice:
		env[in] = r.slice(s, in)
	case *ssa.MakeSlice:
		l, c := e.val(s, in.Len), e.val(s, in.Cap)
		r.oblige(s, "makelen", e.LE(s, e.Int(0), l, 0), in.Pos(), l)
		if l != c {
			r.oblige(s, "makecap", e.LE(s, l, c, 0), in.Pos(), l, c)
		}
		e.addLE(s, e.Int(0), l, 0)
		e.addLE(s, l, c, 0)
		t := e.intern(Term{Kind: KMake, Aux: "make@" + e.siteID(r.f, in), Args: []*Term{l, c}, Typ: in.Type(), Deps: s.loops(), Pos: in.Pos()})
		e.resetObject(s, t)
		env[in] = t
	case *ssa.MakeMap:
		t := e.intern(Term{Kind: KMap, Aux: "map@" + e.siteID(r.f, in), Typ: in.Type(), Deps: s.loops(), Pos: in.Pos()})
		e.resetObject(s, t)
		env[in] = t
	case *ssa.MakeChan:
		env[in] = e.opaque(s, "chan@"+e.siteID(r.f, in), in.Type())
	case *ssa.MapUpdate:
		m, k, v := e.val(s, in.Map), e.val(s, in.Key), e.val(s, in.Value)
		n, known := e.nilness(s, m)
		r.oblige(s, "nilmap", known && !n, in.Pos(), m)
		e.mapUpdate(s, m, k, v, e.siteID(r.f, in))
	case *ssa.Lookup:
		x, k := e.val(s, in.X), e.val(s, in.Index)
		if isString(in.X.Type()) {
			r.indexOb(s, x, k, in.Pos())
			env[in] = e.intern(Term{Kind: KIndex, Args: []*Term{x, k}, Typ: in.Type()})
			break
		}
		env[in] = e.lookup(s, x, k, in.X.Type().Underlying().(*types.Map).Elem(), in.CommaOk)
	case *ssa.Range:
		env[in] = e.intern(Term{Kind: KRange, Aux: "range@" + e.siteID(r.f, in), Args: []*Term{e.val(s, in.X)}, Deps: s.loops()})
	case *ssa.Next:
		rg := e.val(s, in.Iter)
		id := e.siteID(r.f, in)
		tup := in.Type().(*types.Tuple)
		ok := e.opaque(s, "nextok@"+id, types.Typ[types.Bool], rg)
		k := e.opaque(s, "nextkey@"+id, tup.At(1).Type(), rg)
		v := e.opaque(s, "nextval@"+id, tup.At(2).Type(), rg, k)
		env[in] = e.Tuple([]*Term{ok, k, v})
		if in.IsString && rg.Kind == KRange {
			e.addLE(s, e.Int(0), k, 0)
		}
	case *ssa.MakeInterface:
		env[in] = e.Iface(in.X.Type(), e.val(s, in.X))
	case *ssa.ChangeInterface:
		env[in] = e.val(s, in.X)
	case *ssa.ChangeType:
		env[in] = e.val(s, in.X)
	case *ssa.Convert:
		env[in] = e.convert(e.val(s, in.X), in.X.Type(), in.Type())
	case *ssa.MultiConvert:
		env[in] = e.convert(e.val(s, in.X), in.X.Type(), in.Type())
	case *ssa.SliceToArrayPointer:
		env[in] = e.intern(Term{Kind: KConv, Aux: types.TypeString(in.Type(), nil), Args: []*Term{e.val(s, in.X)}, Typ: in.Type()})
	case *ssa.TypeAssert:
		return r.typeAssert(s, in)
	case *ssa.MakeClosure:
		fn := in.Fn.(*ssa.Function)
		var bs []*Term
		for _, x := range in.Bindings {
			bs = append(bs, e.val(s, x))
		}
		env[in] = e.intern(Term{Kind: KClosure, Aux: fmt.Sprintf("%p", fn), Args: bs, Fn: fn, Typ: in.Type()})
	case *ssa.Extract:
		env[in] = e.Extract(e.val(s, in.Tuple), in.Index, in.Type())
	case *ssa.Call:
		return r.doCall(s, in, false)
	case *ssa.Go:
		fnT, args := r.callArgs(s, &in.Call)
		st := s.Clone()
		st.SetGhost("go", "1")
		r.dispatch(st, in, &in.Call, fnT, args, e.siteID(r.f, in), false)
		e.Havoc(s, "go@"+e.siteID(r.f, in), append(args, fnT)...)
	case *ssa.Defer:
		if e.hooks != nil && e.hooks.IgnoreDefer != nil && e.hooks.IgnoreDefer(in) {
			break
		}
		fnT, args := r.callArgs(s, &in.Call)
		d := deferEntry{site: in, call: &in.Call, fn: fnT, args: args}
		top := s.top()
		for _, x := range top.defers { // repeated in a loop
			if x.site == in {
				d = deferEntry{}
			}
		}
		if d.site == nil {
			for i, x := range top.defers {
				if x.site == in {
					same := x.fn == fnT
					for j := range args {
						if x.args[j] != args[j] {
							same = false
						}
					}
					if !same {
						n := deferEntry{site: in, call: &in.Call, fn: fnT, args: args}
						top.defers = append([]deferEntry(nil), top.defers...)
						top.defers[i] = n
						if e.hooks != nil && e.hooks.OnDeferLoop != nil {
							e.hooks.OnDeferLoop(s, in, x.args, args)
						}
					}
				}
			}
			break
		}
		top.defers = append(append([]deferEntry(nil), top.defers...), d)
		if e.hooks != nil && e.hooks.OnDefer != nil {
			e.hooks.OnDefer(s, in, fnT, args)
		}
	case *ssa.RunDefers:
		states := one
		ds := s.top().defers
		s.top().defers = nil
		for i := len(ds) - 1; i >= 0; i-- {
			d := ds[i]
			var next []*State
			for _, st := range states {
				outs := r.dispatch(st, d.site.(ssa.CallInstruction), d.call, d.fn, d.args, e.siteID(r.f, d.site)+"!defer", true)
				for _, o := range outs {
					if o.Panic {
						r.outs = append(r.outs, o)
						continue
					}
					next = append(next, o.St)
				}
			}
			states = next
		}
		return states
	case *ssa.Jump:
		r.edges[edgeKey{b, 0}] = append(r.edges[edgeKey{b, 0}], s)
		return nil
	case *ssa.If:
		c := e.val(s, in.Cond)
		for i, want := range []bool{true, false} {
			st := s
			if i == 0 {
				st = s.Clone()
			}
			if e.Assume(st, c, want) {
				if e.hooks != nil && e.hooks.OnBranch != nil {
					e.hooks.OnBranch(st, in, want)
				}
				r.edges[edgeKey{b, i}] = append(r.edges[edgeKey{b, i}], st)
			}
		}
		return nil
	case *ssa.Return:
		var res []*Term
		for _, x := range in.Results {
			res = append(res, e.val(s, x))
		}
		if e.hooks != nil && e.hooks.OnReturn != nil {
			e.hooks.OnReturn(s, in.Parent(), res, in.Pos())
		}
		r.outs = append(r.outs, Outcome{St: s, Res: res, Ret: in})
		return nil
	case *ssa.Panic:
		if e.hooks != nil && e.hooks.OnPanic != nil {
			e.hooks.OnPanic(s, in.Pos())
		}
		r.outs = append(r.outs, Outcome{St: s, Panic: true, Ret: in})
		return nil
	case *ssa.Send:
		e.Havoc(s, e.siteID(r.f, in), e.val(s, in.X))
	case *ssa.Select:
		env[in] = e.opaque(s, "select@"+e.siteID(r.f, in), in.Type())
	default:
		if v, ok := in.(ssa.Value); ok {
			env[v] = e.opaque(s, "instr@"+e.siteID(r.f, in), v.Type())
		}
	}
	return one
}

func (e *Engine) resetObject(s *State, t *Term) {
	s.create(t)
	for a := range s.mem {
		if Root(a) == t {
			delete(s.mem, a)
		}
	}
	delete(s.epoch, "r"+fmt.Sprint(t.ID))
	delete(s.escaped, t)
	for a := range s.escaped {
		if Root(a) == t {
			delete(s.escaped, a)
		}
	}
}

func (r *runner) indexOb(s *State, x, i *Term, pos token.Pos) {
	e := r.e
	r.oblige(s, "index", e.LE(s, e.Int(0), i, 0) && e.LE(s, i, e.Len(x), -1), pos, i, x)
	e.addLE(s, e.Int(0), i, 0)
	e.addLE(s, i, e.Len(x), -1)
}

func (r *runner) slice(s *State, in *ssa.Slice) *Term {
	e := r.e
	x := e.val(s, in.X)
	opt := func(v ssa.Value) *Term {
		if v == nil {
			return nil
		}
		return e.val(s, v)
	}
	lo, hi, max := opt(in.Low), opt(in.High), opt(in.Max)
	var limit *Term
	switch in.X.Type().Underlying().(type) {
	case *types.Slice:
		limit = e.Cap(x)
	default:
		limit = e.Len(x)
	}
	if hi != nil {
		r.oblige(s, "slicehi", e.LE(s, hi, limit, 0) || e.LE(s, hi, e.Len(x), 0), in.Pos(), hi, x)
		r.oblige(s, "slicelo", e.LE(s, e.Int(0), hi, 0), in.Pos(), hi, x)
		e.addLE(s, e.Int(0), hi, 0)
		e.addLE(s, hi, limit, 0)
	}
	if lo != nil {
		h := hi
		if h == nil {
			h = e.Len(x)
		}
		r.oblige(s, "sliceorder", e.LE(s, e.Int(0), lo, 0) && e.LE(s, lo, h, 0), in.Pos(), lo, h, x)
		e.addLE(s, e.Int(0), lo, 0)
		e.addLE(s, lo, h, 0)
	}
	return e.SliceTerm(x, lo, hi, max, in.Type(), isString(in.X.Type()))
}

// SliceTerm builds x[lo:hi:max].
func (e *Engine) SliceTerm(x, lo, hi, max *Term, T types.Type, str bool) *Term {
	if n, ok := constInt(lo); ok && n == 0 {
		lo = nil
	}
	if str {
		if c, ok := ConstStr(x); ok {
			l, okl := int64(0), true
			if lo != nil {
				l, okl = constInt(lo)
			}
			h, okh := int64(len(c)), true
			if hi != nil {
				h, okh = constInt(hi)
			}
			if okl && okh && 0 <= l && l <= h && h <= int64(len(c)) {
				return e.Str(c[l:h])
			}
		}
	}
	if x.Typ != nil {
		if _, isp := x.Typ.Underlying().(*types.Pointer); !isp && lo == nil && hi == nil && max == nil {
			return x
		}
	}
	if hi != nil && hi == e.Len(x) && max == nil {
		if x.Typ != nil {
			if _, isp := x.Typ.Underlying().(*types.Pointer); !isp && lo == nil {
				return x
			}
		}
	}
	if x.Kind == KSlice {
		blo, bhi := x.Args[1], x.Args[2]
		if hi == nil {
			hi = bhi
		} else if blo != nil {
			hi = e.Add(hi, blo)
		}
		if blo != nil {
			if lo == nil {
				lo = blo
			} else {
				lo = e.Add(lo, blo)
			}
		}
		if max == nil && len(x.Args) > 3 {
			max = x.Args[3]
		} else if max != nil && blo != nil {
			max = e.Add(max, blo)
		}
		x = x.Args[0]
	}
	args := []*Term{x, lo, hi}
	if max != nil {
		args = append(args, max)
	}
	return e.intern(Term{Kind: KSlice, Args: args, Typ: T})
}

func (r *runner) binop(s *State, in *ssa.BinOp) *Term {
	e := r.e
	a, b := e.val(s, in.X), e.val(s, in.Y)
	switch in.Op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		c := e.Cond(in.Op, a, b)
		if v, k := e.Truth(s, c); k {
			return e.Bool(v)
		}
		return c
	}
	T := in.Type()
	if isInt(T) {
		if e.hooks != nil && e.hooks.OnArith != nil {
			e.hooks.OnArith(s, in.Op, a, b, in.Pos())
		}
		switch in.Op {
		case token.ADD:
			t := e.Add(a, b)
			if t.Kind == KBin && b.Kind != KConst && !e.nonNeg(t) && e.LE(s, e.Int(0), a, 0) && e.LE(s, e.Int(0), b, 0) {
				e.addLE(s, e.Int(0), t, 0)
			}
			return t
		case token.SUB:
			return e.Sub(a, b)
		}
	}
	if in.Op == token.QUO || in.Op == token.REM {
		if isInt(T) {
			v, k := e.Truth(s, e.Eq(b, e.Int(0)))
			r.oblige(s, "div", k && !v, in.Pos(), b)
		}
	}
	if a.Kind == KConst && b.Kind == KConst {
		op := in.Op
		if op == token.QUO && isInt(T) {
			op = token.QUO_ASSIGN
		}
		if n, ok := constInt(b); !(ok && n == 0 && (op == token.QUO_ASSIGN || op == token.REM)) {
			switch op {
			case token.SHL, token.SHR:
				if n, ok := constInt(b); ok && n >= 0 && n < 64 {
					return e.Const(constant.Shift(a.Val, op, uint(n)), T)
				}
			default:
				if v := constant.BinaryOp(a.Val, op, b.Val); v.Kind() != constant.Unknown {
					return e.Const(v, T)
				}
			}
		}
	}
	if in.Op == token.ADD && isString(T) {
		if c, ok := ConstStr(a); ok && c == "" {
			return b
		}
		if c, ok := ConstStr(b); ok && c == "" {
			return a
		}
	}
	t := e.intern(Term{Kind: KBin, Op: in.Op, Args: []*Term{a, b}, Typ: T})
	if isInt(T) {
		// signs
		pa, pb := e.LE(s, e.Int(0), a, 0), e.LE(s, e.Int(0), b, 0)
		switch in.Op {
		case token.MUL:
			if pa && pb {
				e.addLE(s, e.Int(0), t, 0)
			}
		case token.QUO:
			if pa && pb {
				e.addLE(s, e.Int(0), t, 0)
				e.addLE(s, t, a, 0)
			}
		case token.REM:
			if pa {
				e.addLE(s, e.Int(0), t, 0)
			}
			if pb {
				e.addLE(s, t, b, -1)
			}
		case token.AND:
			if pa || pb {
				e.addLE(s, e.Int(0), t, 0)
			}
		}
	}
	return t
}

func intWidth(b *types.Basic) (bits int, unsigned bool) {
	switch b.Kind() {
	case types.Int8:
		return 8, false
	case types.Int16:
		return 16, false
	case types.Int32:
		return 32, false
	case types.Int, types.Int64, types.UntypedInt:
		return 64, false
	case types.Uint8:
		return 8, true
	case types.Uint16:
		return 16, true
	case types.Uint32:
		return 32, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, true
	}
	return 0, false
}

func (e *Engine) convert(x *Term, from, to types.Type) *Term {
	fb, ok1 := from.Underlying().(*types.Basic)
	tb, ok2 := to.Underlying().(*types.Basic)
	if ok1 && ok2 {
		if fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0 {
			return x
		}
		if fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0 {
			if x.Kind == KConst {
				return x
			}
			fw, fu := intWidth(fb)
			tw, tu := intWidth(tb)
			if fu == tu && tw >= fw || fu && !tu && tw > fw {
				return x
			}
		}
	}
	if x.Kind == KConv && len(x.Args) == 1 && x.Args[0].Typ != nil {
		// string([]byte(s))
		if isString(to) && isByteSlice(x.Typ) && isString(x.Args[0].Typ) {
			return x.Args[0]
		}
	}
	return e.intern(Term{Kind: KConv, Aux: types.TypeString(to, nil), Args: []*Term{x}, Typ: to})
}

func (e *Engine) implements(T types.Type, I *types.Interface) bool {
	return types.Implements(T, I)
}

func (r *runner) typeAssert(s *State, in *ssa.TypeAssert) []*State {
	e := r.e
	x := e.val(s, in.X)
	T := in.AssertedType
	iface, isI := T.Underlying().(*types.Interface)
	set := func(st *State, v *Term, ok *Term) {
		if in.CommaOk {
			st.top().env[in] = e.Tuple([]*Term{v, ok})
		} else {
			st.top().env[in] = v
		}
	}
	match := func(t *Term) (v *Term, yes, known bool) {
		if t.Kind == KIface {
			if isI {
				if e.implements(t.Typ, iface) {
					return t, true, true
				}
				return nil, false, true
			}
			if types.Identical(t.Typ, T) {
				return t.Args[0], true, true
			}
			return nil, false, true
		}
		if t.Kind == KNil {
			return nil, false, true
		}
		return nil, false, false
	}
	if v, yes, known := match(x); known {
		if yes {
			set(s, v, e.Bool(true))
			return []*State{s}
		}
		if in.CommaOk {
			set(s, e.Zero(T), e.Bool(false))
			return []*State{s}
		}
		r.oblige(s, "assert", false, in.Pos(), x)
		return nil
	}
	if isI && in.X.Type().Underlying().(*types.Interface) != nil {
		if e.implements(in.X.Type(), iface) { // static guarantee
			n, known := e.nilness(s, x)
			if known && !n {
				set(s, x, e.Bool(true))
				return []*State{s}
			}
		}
	}
	var v *Term
	if isI {
		v = x
	} else {
		v = e.unwrap(s, x, T)
	}
	ok := e.intern(Term{Kind: KAssertOk, Aux: types.TypeString(T, nil), Args: []*Term{x}, Typ: types.Typ[types.Bool]})
	known, k := e.Truth(s, ok)
	r.oblige2(s, in, k && known, x)
	if !in.CommaOk {
		if k && !known {
			return nil
		}
		e.Assume(s, ok, true)
		e.Assume(s, e.Eq(x, e.Nil()), false)
		set(s, v, ok)
		return []*State{s}
	}
	// fork: the value is only meaningful on success
	if k {
		if !known {
			v = e.Zero(T)
		}
		set(s, v, e.Bool(known))
		return []*State{s}
	}
	st := s.Clone()
	e.Assume(s, ok, true)
	e.Assume(s, e.Eq(x, e.Nil()), false)
	set(s, v, e.Bool(true))
	e.Assume(st, ok, false)
	set(st, e.Zero(T), e.Bool(false))
	return []*State{s, st}
}

func (r *runner) oblige2(s *State, in *ssa.TypeAssert, ok bool, x *Term) {
	if !in.CommaOk {
		r.oblige(s, "assert", ok, in.Pos(), x)
	}
}

// unwrap is the dynamic value of interface x of concrete type T.
func (e *Engine) unwrap(s *State, x *Term, T types.Type) *Term {
	if x.Kind == KIface && types.Identical(x.Typ, T) {
		return x.Args[0]
	}
	v := e.intern(Term{Kind: KAssert, Aux: types.TypeString(T, nil), Args: []*Term{x}, Typ: T})
	return v
}

// ---- maps

func (e *Engine) mapUpdate(s *State, m, k, v *Term, at string) {
	u := e.MapUpd[m]
	if u == nil {
		u = map[[2]*Term]bool{}
		e.MapUpd[m] = u
	}
	u[[2]*Term{k, v}] = true
	if e.hooks != nil && e.hooks.OnMapUpdate != nil {
		e.hooks.OnMapUpdate(s, m, k, v, at)
	}
	if fresh(m) {
		old := s.mem[m]
		args := []*Term{old}
		if old != nil && old.Kind == KList {
			args = append([]*Term(nil), old.Args...)
		}
		s.mem[m] = e.intern(Term{Kind: KList, Args: append(args, e.Tuple([]*Term{k, v})), Typ: m.Typ})
		return
	}
	e.bumpEpoch(s, "map"+types.TypeString(m.Typ, nil), at)
}

// MapEntries lists known entries of a map; exact: no other entry may exist.
func (e *Engine) MapEntries(s *State, m *Term) (entries [][2]*Term, exact bool) {
	entries, exact, _ = e.MapMayEntries(s, m)
	return
}

// MapMayEntries gives all entries a map may have if all is set; exact: it has all of them.
func (e *Engine) MapMayEntries(s *State, m *Term) (entries [][2]*Term, exact, all bool) {
	all = true
	seen := map[*Term]bool{}
	exact = true
	var walk func(t *Term)
	walk = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		switch t.Kind {
		case KList:
			walk(t.Args[0])
			for _, x := range t.Args[1:] {
				if x.Kind == KTuple && len(x.Args) == 2 {
					entries = append(entries, [2]*Term{x.Args[0], x.Args[1]})
				}
			}
		case KPhi:
			exact = false
			for _, in := range e.Incoming(t) {
				walk(in)
			}
		case KOpaque:
			if t.Aux != "absent" {
				exact, all = false, false
			}
		default:
			exact, all = false, false
		}
	}
	if !fresh(m) {
		return nil, false, false
	}
	if s.epoch["r"+fmt.Sprint(m.ID)] != nil {
		exact, all = false, false
	}
	walk(s.mem[m])
	return
}

func (e *Engine) lookup(s *State, m, k *Term, T types.Type, commaOk bool) *Term {
	ret := func(v, ok *Term) *Term {
		if commaOk {
			return e.Tuple([]*Term{v, ok})
		}
		return v
	}
	if m.Kind == KNil {
		return ret(e.Zero(T), e.Bool(false))
	}
	if fresh(m) {
		if ents, exact := e.MapEntries(s, m); exact && k.Kind == KConst {
			var found *Term
			sure := true
			for _, en := range ents {
				if en[0] == k {
					found = en[1]
				} else if en[0].Kind != KConst {
					sure = false
				}
			}
			if sure {
				if found != nil {
					return ret(found, e.Bool(true))
				}
				return ret(e.Zero(T), e.Bool(false))
			}
		}
	}
	var ver *Term
	if fresh(m) {
		ver = s.mem[m]
		if ep := s.epoch["r"+fmt.Sprint(m.ID)]; ep != nil {
			ver = e.intern(Term{Kind: KEpoch, Aux: "mapver", Args: []*Term{ver, ep}})
		}
	} else {
		var eps []*Term
		for _, key := range []string{"all", "map" + types.TypeString(m.Typ, nil)} {
			if ep := s.epoch[key]; ep != nil {
				eps = append(eps, ep)
			}
		}
		if len(eps) > 0 {
			ver = e.intern(Term{Kind: KEpoch, Aux: "mapver", Args: eps})
		}
	}
	v := e.intern(Term{Kind: KLookup, Args: []*Term{m, k, ver}, Typ: T})
	ok := e.intern(Term{Kind: KLookupOk, Args: []*Term{m, k, ver}, Typ: types.Typ[types.Bool]})
	return ret(v, ok)
}

// LookupValues are values a map lookup term may return.
func (e *Engine) LookupValues(t *Term) []*Term {
	if t.Kind != KLookup {
		return nil
	}
	var r []*Term
	for kv := range e.MapUpd[t.Args[0]] {
		r = append(r, kv[1])
	}
	sort.Slice(r, func(i, j int) bool { return r[i].ID < r[j].ID })
	return r
}

// ---- calls

func (r *runner) callArgs(s *State, c *ssa.CallCommon) (*Term, []*Term) {
	e := r.e
	var args []*Term
	fn := e.val(s, c.Value)
	if c.IsInvoke() {
		args = append(args, fn)
	}
	for _, a := range c.Args {
		args = append(args, e.val(s, a))
	}
	return fn, args
}

func (r *runner) doCall(s *State, in *ssa.Call, inDefer bool) []*State {
	fn, args := r.callArgs(s, &in.Call)
	outs := r.dispatch(s, in, &in.Call, fn, args, r.e.siteID(r.f, in), inDefer)
	var states []*State
	for _, o := range outs {
		if o.Panic {
			r.outs = append(r.outs, o)
			continue
		}
		top := o.St.top()
		switch len(o.Res) {
		case 0:
		case 1:
			top.env[in] = o.Res[0]
		default:
			top.env[in] = r.e.Tuple(o.Res)
		}
		states = append(states, o.St)
	}
	return states
}

func resultTypes(sig *types.Signature) []types.Type {
	var r []types.Type
	for i := 0; i < sig.Results().Len(); i++ {
		r = append(r, sig.Results().At(i).Type())
	}
	return r
}

// dispatch resolves callees and performs the call.
func (r *runner) dispatch(s *State, site ssa.CallInstruction, c *ssa.CallCommon, fn *Term, args []*Term, id string, inDefer bool) []Outcome {
	e := r.e
	e.Calls++
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return []Outcome{{St: s, Res: r.builtin(s, site, b, c, args, id)}}
	}
	sig := c.Signature()
	ev := &CallEvent{St: s, Site: site, Ctx: r.f.ctx, Args: args, Pos: site.Pos(), InDefer: inDefer, Fn: r.f.fn, Res: resultTypes(sig), SiteID: id}
	if c.IsInvoke() {
		ev.Obj = c.Method
		ev.Name = c.Method.FullName()
		ev.Invoke = true
		r.nonNilOb(s, fn, site.Pos())
		return r.invoke(ev, fn)
	}
	switch {
	case fn.Kind == KFunc:
		return r.static(ev, fn.Fn, nil)
	case fn.Kind == KClosure:
		return r.static(ev, fn.Fn, fn.Args)
	}
	r.nonNilOb(s, fn, site.Pos())
	// a set of functions
	var cands []*Term
	for _, o := range e.Origins(fn) {
		if o.Kind == KLookup {
			cands = append(cands, e.LookupValues(o)...)
			continue
		}
		cands = append(cands, o)
	}
	known := len(cands) > 0
	for _, o := range cands {
		if o.Kind != KFunc && o.Kind != KClosure && o.Kind != KNil {
			known = false
		}
	}
	if known && len(cands) <= 12 {
		var outs []Outcome
		n := 0
		for _, o := range cands {
			if o.Kind == KNil {
				continue
			}
			n++
			x := *ev
			x.St = s.Clone()
			outs = append(outs, r.static(&x, o.Fn, o.Args)...)
		}
		if n > 0 {
			return outs
		}
	}
	if e.hooks != nil && e.hooks.ResolveFunc != nil {
		if l := e.hooks.ResolveFunc(ev, fn); len(l) > 0 {
			var outs []Outcome
			for _, o := range l {
				x := *ev
				x.St = s.Clone()
				outs = append(outs, r.static(&x, o.Fn, o.Args)...)
			}
			return outs
		}
	}
	ev.FnTerm = fn
	return r.opaqueCall(ev)
}

func (r *runner) invoke(ev *CallEvent, recv *Term) []Outcome {
	e := r.e
	s := ev.St
	if e.hooks != nil && e.hooks.Model != nil {
		if outs, ok := e.hooks.Model(ev); ok {
			return outs
		}
	}
	origins := e.Origins(recv)
	type tv struct {
		T    types.Type
		vals []*Term
	}
	var groups []*tv
	ok := len(origins) > 0
	for _, o := range origins {
		switch o.Kind {
		case KIface:
			var g *tv
			for _, x := range groups {
				if types.Identical(x.T, o.Typ) {
					g = x
				}
			}
			if g == nil {
				g = &tv{T: o.Typ}
				groups = append(groups, g)
			}
			g.vals = append(g.vals, o.Args[0])
		case KNil:
		default:
			ok = false
		}
	}
	if ok && len(groups) > 0 {
		var outs []Outcome
		for _, g := range groups {
			m := e.Prog.LookupMethod(g.T, ev.Obj.Pkg(), ev.Obj.Name())
			if m == nil {
				continue
			}
			v := g.vals[0]
			if len(g.vals) > 1 || recv.Kind != KIface {
				if len(g.vals) > 1 {
					v = e.intern(Term{Kind: KPhi, Aux: fmt.Sprintf("unwrap %d %s", recv.ID, types.TypeString(g.T, nil)), Typ: g.T, Deps: recv.Deps})
					for _, x := range g.vals {
						e.addIncoming(v, x, s)
					}
				}
			}
			x := *ev
			x.St = s
			if len(groups) > 1 {
				x.St = s.Clone()
			}
			x.Invoke = false
			x.Args = append([]*Term{v}, ev.Args[1:]...)
			x.skipModel = m.Object() == ev.Obj
			outs = append(outs, r.static(&x, m, nil)...)
		}
		return outs
	}
	// a method of a module interface on an unknown value
	if e.InModule(ev.Obj.Pkg()) {
		impls := e.implementations(ev.Obj)
		if len(ev.Res) == 1 && isString(ev.Res[0]) {
			pure := len(impls) > 0
			for _, im := range impls {
				if !e.isPure(im.fn, 0) {
					pure = false
				}
			}
			if pure {
				t := e.intern(Term{Kind: KCall, Aux: ev.Name, Args: ev.Args, Typ: ev.Res[0], Obj: ev.Obj})
				if e.hooks != nil && e.hooks.OnCall != nil {
					e.hooks.OnCall(ev)
				}
				return []Outcome{{St: s, Res: []*Term{t}}}
			}
		}
		if len(impls) > 0 && len(impls) <= 8 {
			var outs []Outcome
			for _, im := range impls {
				st := s
				if len(impls) > 1 {
					st = s.Clone()
				}
				okT := e.intern(Term{Kind: KAssertOk, Aux: types.TypeString(im.T, nil), Args: []*Term{recv}, Typ: types.Typ[types.Bool]})
				if !e.Assume(st, okT, true) {
					continue
				}
				x := *ev
				x.St = st
				x.Invoke = false
				x.Args = append([]*Term{e.unwrap(st, recv, im.T)}, ev.Args[1:]...)
				outs = append(outs, r.static(&x, im.fn, nil)...)
			}
			return outs
		}
	}
	return r.opaqueCall(ev)
}

type impl struct {
	T  types.Type
	fn *ssa.Function
}

// implementations of a module interface method among module types.
func (e *Engine) implementations(m *types.Func) []impl {
	if l, ok := e.impls[m]; ok {
		return l
	}
	var out []impl
	recv := m.Type().(*types.Signature).Recv().Type()
	I, ok := recv.Underlying().(*types.Interface)
	if ok {
		for _, T := range e.moduleTypes() {
			var use types.Type
			if types.Implements(T, I) {
				use = T
			} else if p := types.NewPointer(T); types.Implements(p, I) {
				use = p
			} else {
				continue
			}
			// a value type stored as a pointer behaves the same way
			if fn := e.Prog.LookupMethod(use, m.Pkg(), m.Name()); fn != nil {
				out = append(out, impl{use, fn})
			}
		}
	}
	e.impls[m] = out
	return out
}

func (e *Engine) moduleTypes() []types.Type {
	if e.modTypes != nil {
		return e.modTypes
	}
	var l []types.Type
	for _, p := range e.Prog.AllPackages() {
		if !e.InModule(p.Pkg) {
			continue
		}
		sc := p.Pkg.Scope()
		for _, n := range sc.Names() {
			if tn, ok := sc.Lookup(n).(*types.TypeName); ok && !tn.IsAlias() {
				if _, isI := tn.Type().Underlying().(*types.Interface); !isI {
					if nt, ok := tn.Type().(*types.Named); ok && nt.TypeParams().Len() == 0 {
						l = append(l, nt)
					}
				}
			}
		}
	}
	sort.Slice(l, func(i, j int) bool { return types.TypeString(l[i], nil) < types.TypeString(l[j], nil) })
	e.modTypes = l
	return l
}

// isPure: the function has no side effects and depends on its arguments only.
func (e *Engine) isPure(fn *ssa.Function, depth int) bool {
	if v, ok := e.pure[fn]; ok {
		return v
	}
	if len(fn.Blocks) == 0 {
		if fn.Object() == nil {
			return false
		}
		return isPureName(fn.Object().(*types.Func).FullName())
	}
	if depth > 5 {
		return false
	}
	e.pure[fn] = false
	res := true
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Store:
				if a, ok := in.Addr.(*ssa.Alloc); !ok || a.Heap {
					res = false
				}
			case *ssa.MapUpdate, *ssa.Send, *ssa.Go, *ssa.Panic, *ssa.Select:
				res = false
			case *ssa.UnOp:
				if in.Op == token.MUL {
					if _, ok := in.X.(*ssa.Global); ok {
						res = false
					}
				}
			case ssa.CallInstruction:
				if _, ok := in.Common().Value.(*ssa.Builtin); ok {
					continue
				}
				callee := in.Common().StaticCallee()
				if callee == nil || !e.isPure(callee, depth+1) {
					res = false
				}
			}
		}
	}
	e.pure[fn] = res
	return res
}

func (r *runner) static(ev *CallEvent, fn *ssa.Function, bindings []*Term) []Outcome {
	e := r.e
	ev.Callee = fn
	if o, ok := fn.Object().(*types.Func); ok {
		ev.Obj = o
		ev.Name = o.FullName()
	} else {
		ev.Name = fn.String()
	}
	ev.Bindings = bindings
	if !ev.skipModel && e.hooks != nil && e.hooks.Model != nil {
		if outs, ok := e.hooks.Model(ev); ok {
			return outs
		}
	}
	if e.hooks != nil && e.hooks.OnCall != nil {
		e.hooks.OnCall(ev)
	}
	if outs, ok := r.std(ev); ok {
		return outs
	}
	if len(fn.Blocks) == 0 {
		return r.opaqueBody(ev)
	}
	if e.hooks != nil && e.hooks.Boundary != nil && e.hooks.Boundary(fn) {
		return r.opaqueBody(ev)
	}
	rec := 0
	for _, f := range ev.St.frames {
		if f.fn == fn {
			rec++
		}
	}
	if rec > 0 || len(ev.St.frames) > e.MaxDepth {
		e.Recursions++
		e.HavocAll(ev.St, ev.SiteID)
		return r.opaqueBody(ev)
	}
	return e.call(fn, ev.St, ev.Args, bindings, ev.SiteID)
}

func (r *runner) opaqueCall(ev *CallEvent) []Outcome {
	e := r.e
	if !ev.Invoke || ev.Callee != nil {
		if e.hooks != nil && e.hooks.Model != nil {
			if outs, ok := e.hooks.Model(ev); ok {
				return outs
			}
		}
	}
	if e.hooks != nil && e.hooks.OnCall != nil {
		e.hooks.OnCall(ev)
	}
	if outs, ok := r.std(ev); ok {
		return outs
	}
	return r.opaqueBody(ev)
}

// opaqueBody gives unknown results and applies effects.
func (r *runner) opaqueBody(ev *CallEvent) []Outcome {
	e := r.e
	s := ev.St
	name := ev.Name
	if name == "" {
		name = "dynamic"
	}
	eff := effectOf(name)
	args := ev.Args
	// snapshot of argument lists
	var targs []*Term
	snapshot := true
	for _, a := range args {
		if a != nil && a.Kind != KNil && isSliceTerm(a) {
			if el, exact := e.Elems(s, a); exact {
				a = e.List(nil, el, a.Typ)
			} else {
				snapshot = false
			}
		}
		targs = append(targs, a)
	}
	if ev.FnTerm != nil {
		targs = append([]*Term{ev.FnTerm}, targs...)
	}
	aux := name
	var deps []int
	if eff != effPure || !snapshot {
		aux = name + "@" + ev.SiteID
		deps = s.loops()
	}
	call := e.intern(Term{Kind: KCall, Aux: aux, Args: targs, Deps: deps, Obj: objOf(ev), Fn: modFn(ev.Callee), Pos: ev.Pos})
	if len(ev.Res) == 1 {
		call.Typ = ev.Res[0]
	}
	e.cause = targs
	switch eff {
	case effPure, effNone:
	case effAll:
		e.Havoc(s, ev.SiteID, args...)
		e.HavocAll(s, ev.SiteID)
	default:
		e.Havoc(s, ev.SiteID, args...)
		if ev.FnTerm != nil || ev.Callee != nil && len(ev.Callee.Blocks) > 0 {
			e.HavocAll(s, ev.SiteID)
			if ev.FnTerm != nil {
				e.Havoc(s, ev.SiteID+"!fn", ev.FnTerm)
			}
		}
	}
	e.cause = nil
	var res []*Term
	for i, T := range ev.Res {
		t := call
		if len(ev.Res) > 1 {
			t = e.Extract(call, i, T)
		}
		res = append(res, t)
	}
	// ranges of results
	short := name[strings.LastIndexByte(name, '.')+1:]
	switch short {
	case "Read", "Write", "WriteString", "ReadFull":
		if len(res) == 2 && isInt(ev.Res[0]) {
			e.addLE(s, e.Int(0), res[0], 0)
			for _, a := range args {
				if isByteSlice(a.Typ) || isString(a.Typ) {
					e.addLE(s, res[0], e.Len(a), 0)
				}
			}
		}
	}
	if name == "strings.TrimSuffix" || name == "strings.TrimPrefix" || name == "strings.TrimSpace" {
		e.addLE(s, e.Len(call), e.Len(args[0]), 0)
	}
	outs := []Outcome{{St: s, Res: res}}
	// callbacks
	if ev.Callee == nil || len(ev.Callee.Blocks) == 0 {
		for _, a := range args {
			if a == nil || a.Kind != KClosure && a.Kind != KFunc || len(a.Fn.Blocks) == 0 {
				continue
			}
			if noCallback(name) {
				continue
			}
			st := s.Clone()
			var cargs []*Term
			for i, p := range a.Fn.Params {
				cargs = append(cargs, e.opaque(st, fmt.Sprintf("cbarg%d@%s", i, ev.SiteID), p.Type()))
			}
			x := *ev
			x.St, x.Args, x.SiteID = st, cargs, ev.SiteID+"!cb"
			before := st.ghostKey()
			co := r.static(&x, a.Fn, a.Args)
			changed := false
			for _, o := range co {
				if !o.Panic && o.St.ghostKey() != before {
					changed = true
					e.Havoc(o.St, ev.SiteID+"!cbh", args...)
					outs = append(outs, Outcome{St: o.St, Res: res})
				}
			}
			_ = changed
		}
	}
	if e.hooks != nil && e.hooks.AfterCall != nil {
		for _, o := range outs {
			e.hooks.AfterCall(ev, o.St, res)
		}
	}
	return outs
}

func objOf(ev *CallEvent) types.Object {
	if ev.Obj == nil {
		return nil
	}
	return ev.Obj
}

func modFn(f *ssa.Function) *ssa.Function {
	if f != nil && len(f.Blocks) > 0 {
		return f
	}
	return nil
}

func isSliceTerm(t *Term) bool {
	switch t.Kind {
	case KList, KSlice, KMake, KCat:
		return !isString(t.Typ)
	}
	if t.Typ == nil {
		return false
	}
	_, ok := t.Typ.Underlying().(*types.Slice)
	return ok
}

// List builds a list value.
func (e *Engine) List(base *Term, elems []*Term, T types.Type) *Term {
	if base != nil && base.Kind == KNil {
		base = nil
	}
	if base != nil && base.Kind == KList {
		return e.intern(Term{Kind: KList, Args: append(append([]*Term(nil), base.Args...), elems...), Typ: T})
	}
	return e.intern(Term{Kind: KList, Args: append([]*Term{base}, elems...), Typ: T})
}

func (r *runner) builtin(s *State, site ssa.CallInstruction, b *ssa.Builtin, c *ssa.CallCommon, args []*Term, id string) []*Term {
	e := r.e
	switch b.Name() {
	case "len":
		return []*Term{e.Len(args[0])}
	case "cap":
		return []*Term{e.Cap(args[0])}
	case "append":
		T := c.Args[0].Type()
		if h := e.hooks; h != nil && h.OnAppend != nil {
			h.OnAppend(s, args[0], args[1], site.Pos())
		}
		if n, known := e.nilness(s, args[1]); known && n || args[1].Kind == KNil {
			return []*Term{args[0]}
		}
		if isString(c.Args[1].Type()) {
			return []*Term{e.intern(Term{Kind: KCat, Args: []*Term{args[0], args[1]}, Typ: T})}
		}
		if el, exact := e.Elems(s, args[1]); exact {
			if len(el) == 0 {
				return []*Term{args[0]}
			}
			base := args[0]
			if n, known := e.nilness(s, base); known && n {
				base = nil
			}
			return []*Term{e.List(base, el, T)}
		}
		if n, known := e.nilness(s, args[0]); known && n {
			// a copy of the list
			return []*Term{e.intern(Term{Kind: KCat, Args: []*Term{e.Nil(), args[1]}, Typ: T})}
		}
		return []*Term{e.intern(Term{Kind: KCat, Args: []*Term{args[0], args[1]}, Typ: T})}
	case "copy":
		dst, src := args[0], args[1]
		base := dst
		for base.Kind == KSlice {
			base = base.Args[0]
		}
		m := e.elemStores[base]
		if m == nil {
			m = map[*Term]bool{}
			e.elemStores[base] = m
		}
		el, _ := e.Elems(s, src)
		for _, x := range el {
			m[x] = true
		}
		if h := e.hooks; h != nil && h.OnCopy != nil {
			h.OnCopy(s, dst, src, site.Pos())
		}
		if n, ok := e.copyExact(s, dst, src); ok {
			return []*Term{e.Int(n)}
		}
		rt := Root(base)
		for a := range s.mem {
			if Root(a) == rt && a.Kind == KIndexAddr {
				delete(s.mem, a)
			}
		}
		e.bumpEpoch(s, "r"+fmt.Sprint(rt.ID), id)
		n := e.opaque(s, "copied@"+id, types.Typ[types.Int])
		e.addLE(s, e.Int(0), n, 0)
		e.addLE(s, n, e.Len(dst), 0)
		e.addLE(s, n, e.Len(src), 0)
		return []*Term{n}
	case "delete":
		m := args[0]
		if fresh(m) {
			s.mem[m] = e.opaque(s, "deleted@"+id, m.Typ, m)
		} else if m.Typ != nil {
			e.bumpEpoch(s, "map"+types.TypeString(m.Typ, nil), id)
		}
		return nil
	case "min", "max":
		t := e.intern(Term{Kind: KCall, Aux: "builtin." + b.Name(), Args: args, Typ: c.Signature().Results().At(0).Type()})
		if isInt(t.Typ) {
			// bounds shared by all arguments hold for the result
			for _, a := range args {
				if b.Name() == "min" {
					e.addLE(s, t, a, 0)
				} else {
					e.addLE(s, a, t, 0)
				}
			}
			lo := true
			for _, a := range args {
				if !e.LE(s, e.Int(0), a, 0) {
					lo = false
				}
			}
			if lo {
				e.addLE(s, e.Int(0), t, 0)
			}
			if b.Name() == "max" {
				for _, u := range args {
					all := true
					for _, a := range args {
						if !e.LE(s, a, u, 0) {
							all = false
						}
					}
					if all {
						e.addLE(s, t, u, 0)
					}
				}
			}
		}
		return []*Term{t}
	case "ssa:wrapnilchk":
		return []*Term{args[0]}
	case "recover":
		return []*Term{e.opaque(s, "recover@"+id, c.Signature().Results().At(0).Type())}
	}
	res := c.Signature().Results()
	if res.Len() == 0 {
		return nil
	}
	return []*Term{e.opaque(s, b.Name()+"@"+id, res.At(0).Type(), args...)}
}

// onlyRead: the variable is changed only by the function that declares it.
func onlyRead(v ssa.Value, own bool) bool {
	refs := v.Referrers()
	if refs == nil {
		return false
	}
	for _, in := range *refs {
		switch in := in.(type) {
		case *ssa.DebugRef:
		case *ssa.UnOp:
			if in.Op != token.MUL {
				return false
			}
		case *ssa.Store:
			if in.Addr != v || in.Val == v || !own {
				return false
			}
		case *ssa.MakeClosure:
			f, ok := in.Fn.(*ssa.Function)
			if !ok {
				return false
			}
			for i, b := range in.Bindings {
				if b == v && (i >= len(f.FreeVars) || !onlyRead(f.FreeVars[i], false)) {
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}

// copyExact copies known elements to a fresh list of a known length.
func (e *Engine) copyExact(s *State, dst, src *Term) (int64, bool) {
	base, lo := dst, int64(0)
	if dst.Kind == KSlice {
		l, hi, ok := constBounds(dst)
		if !ok || hi >= 0 {
			return 0, false
		}
		base, lo = dst.Args[0], l
	}
	if base.Kind != KMake || len(e.elemStores[base]) > 64 {
		return 0, false
	}
	n, ok := constInt(e.Len(base))
	el, exact := e.Elems(s, src)
	T := elemType(base.Typ)
	if !ok || !exact || T == nil || lo > n || int64(len(el)) > n-lo {
		return 0, false
	}
	for i, x := range el {
		e.Store(s, e.IndexAddr(base, e.Int(lo+int64(i)), T), x, T, "copy")
	}
	return int64(len(el)), true
}
