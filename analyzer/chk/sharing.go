package chk

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"burlcheck/eng"
)

func init() { Rules["C09"] = ruleC09 }

// phases of execution
const (
	phStart   = iota // before requests are served
	phLoad           // one-time loading
	phRequest        // handling of a request
)

var phaseNames = []string{"start", "loading", "request"}

// place is an allocation site in a context.
type place struct {
	id     int
	key    string
	what   string
	pos    token.Pos
	typ    types.Type // of the whole object
	phase  int
	boxed  bool          // value stored in an interface
	fn     *ssa.Function // code of a function value
	once   bool          // made by sync.OnceFunc
	opaque bool          // made by a library
}

// loc is an address: a part of an object. full is set for a slice that has no spare capacity.
type loc struct {
	o    *place
	path string
	full bool
}

type locs map[loc]bool

type shCtx struct {
	fn    *ssa.Function
	key   string
	phase int
	calls []string
}

type shVal struct {
	c *shCtx
	v ssa.Value
	i int
}

type shMem struct {
	o    *place
	path string
}

type sharing struct {
	c       *Ctx
	p       *Program
	vals    map[shVal]locs
	rets    map[*shCtx][]locs
	mem     map[shMem]locs
	places  map[string]*place
	ctxs    map[string]*shCtx
	order   []*shCtx
	changed bool
	roots   map[*ssa.Function]bool // handlers
	replies map[*place]bool
	final   bool // report
	nWrites int
	leaf    map[types.Type][]leafPath
	over    map[overKey]overVal
}

type leafPath struct {
	path string
	typ  types.Type
}

func ruleC09(c *Ctx) {
	c.Rule = "Points-to analysis (inclusion based, field sensitive, with call strings of length 2) of the program that registers RPC methods. Functions are analysed separately for three phases: start up, the one-time loading (functions called through sync.Once that is not local to a request), handling of a request (registered methods and encoding of their replies). Every store, map update, append to a slice that may have spare capacity, copy, and call of a library function known to modify its argument reached while a request is handled must affect only objects allocated for the request; calls changing the state of the process (environment, logger) are not allowed; the loading must not read anything allocated for a request."
	s := &sharing{
		c: c, p: c.P, vals: map[shVal]locs{}, rets: map[*shCtx][]locs{}, mem: map[shMem]locs{}, places: map[string]*place{},
		ctxs: map[string]*shCtx{}, roots: map[*ssa.Function]bool{}, replies: map[*place]bool{}, leaf: map[types.Type][]leafPath{}, over: map[overKey]overVal{},
	}
	register := map[string]bool{"net/rpc.RegisterName": true, "net/rpc.Register": true, "(*net/rpc.Server).RegisterName": true, "(*net/rpc.Server).Register": true}
	serve := c.P.reaching(register)
	var mains []*ssa.Function
	for _, f := range c.P.ModuleFuncs() {
		if f.Name() == "main" && f.Parent() == nil && f.Pkg != nil && f.Pkg.Pkg.Name() == "main" && serve[f] {
			mains = append(mains, f)
		}
	}
	if len(mains) == 0 {
		c.Missing("a program that registers RPC methods")
		return
	}
	for _, f := range c.P.ModuleFuncs() {
		if f.Pkg != nil && f == f.Pkg.Func("init") && (fnPkg(f).Name() != "main" || fnPkg(f) == fnPkg(mains[0])) {
			s.context(f, phStart, nil)
		} else if f.Synthetic == "" && f.Parent() == nil && strings.HasPrefix(f.Name(), "init#") {
			s.context(f, phStart, nil)
		}
	}
	for _, f := range mains {
		s.context(f, phStart, nil)
	}
	for round := 0; ; round++ {
		s.changed = false
		for i := 0; i < len(s.order); i++ {
			s.visit(s.order[i])
		}
		s.encoders()
		if !s.changed {
			break
		}
		if round > 200 {
			c.Violate("diverges", token.NoPos, "points-to analysis has not finished")
			return
		}
	}
	s.final = true
	for i := 0; i < len(s.order); i++ {
		s.visit(s.order[i])
	}
	byPhase := map[int]map[*ssa.Function]bool{}
	for _, x := range s.order {
		if byPhase[x.phase] == nil {
			byPhase[x.phase] = map[*ssa.Function]bool{}
		}
		byPhase[x.phase][x.fn] = true
		c.analysed[relName(c.P, x.fn)] = true
	}
	c.Count("request handlers", len(s.roots))
	c.Count("contexts analysed", len(s.order))
	c.Count("functions executed while a request is handled", len(byPhase[phRequest]))
	c.Count("functions executed by one-time loading", len(byPhase[phLoad]))
	shared := 0
	for _, o := range s.places {
		if o.phase != phRequest {
			shared++
		}
	}
	c.Count("shared objects", shared)
	c.Count("objects of requests", len(s.places)-shared)
	c.Count("writes while a request is handled", s.nWrites)
	c.Need("request handlers", 5)
	c.Need("functions executed while a request is handled", 15)
	c.Need("functions executed by one-time loading", 8)
	c.Need("shared objects", 20)
	c.Need("writes while a request is handled", 40)
}

const callString = 2

func (s *sharing) context(fn *ssa.Function, phase int, calls []string) *shCtx {
	if len(calls) > callString {
		calls = calls[len(calls)-callString:]
	}
	key := fmt.Sprintf("%p/%d/%s", fn, phase, strings.Join(calls, "|"))
	x := s.ctxs[key]
	if x == nil {
		x = &shCtx{fn: fn, key: key, phase: phase, calls: calls}
		s.ctxs[key] = x
		s.order = append(s.order, x)
		s.changed = true
	}
	return x
}

func (s *sharing) place(key, what string, pos token.Pos, typ types.Type, phase int) *place {
	o := s.places[key]
	if o == nil {
		o = &place{id: len(s.places), key: key, what: what, pos: pos, typ: typ, phase: phase}
		s.places[key] = o
		s.changed = true
	}
	return o
}

func (s *sharing) add(dst locs, src locs) {
	for l := range src {
		if !dst[l] {
			dst[l] = true
			s.changed = true
		}
	}
}

// kinds of types
func isRefType(T types.Type) bool {
	switch u := T.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		return true
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	}
	return false
}

func isAggType(T types.Type) bool {
	switch T.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

func (s *sharing) leaves(T types.Type) []leafPath {
	if l, ok := s.leaf[T]; ok {
		return l
	}
	var r []leafPath
	switch u := T.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			for _, x := range s.leaves(u.Field(i).Type()) {
				r = append(r, leafPath{"." + fieldKey(u, i) + x.path, x.typ})
			}
		}
	case *types.Array:
		for _, x := range s.leaves(u.Elem()) {
			r = append(r, leafPath{"[]" + x.path, x.typ})
		}
	default:
		if isRefType(T) {
			r = append(r, leafPath{"", T})
		}
	}
	s.leaf[T] = r
	return r
}

func fieldKey(u *types.Struct, i int) string { return fmt.Sprintf("%d", i) }

func typeAt(T types.Type, path string) types.Type {
	for path != "" && T != nil {
		if strings.HasPrefix(path, "[") {
			k := strings.IndexByte(path, ']')
			key := path[:k+1]
			path = path[k+1:]
			switch u := T.Underlying().(type) {
			case *types.Slice:
				T = u.Elem()
			case *types.Array:
				T = u.Elem()
			case *types.Chan:
				T = u.Elem()
			case *types.Map:
				T = u.Elem()
				if key == "[k]" {
					T = u.Key()
				}
			default:
				return nil
			}
			continue
		}
		k := strings.IndexAny(path[1:], ".[")
		name := path[1:]
		if k >= 0 {
			name = path[1 : k+1]
			path = path[k+1:]
		} else {
			path = ""
		}
		u, ok := T.Underlying().(*types.Struct)
		if !ok {
			return nil
		}
		i := 0
		if _, err := fmt.Sscan(name, &i); err != nil || i >= u.NumFields() {
			return nil
		}
		T = u.Field(i).Type()
	}
	return T
}

func (l loc) at(path string) loc {
	if l.o.opaque {
		return loc{o: l.o}
	}
	return loc{o: l.o, path: l.path + path}
}

// load is what is stored in a memory of type T.
func (s *sharing) load(l loc, T types.Type) locs {
	r := locs{}
	if isAggType(T) {
		r[loc{o: l.o, path: l.path}] = true
		return r
	}
	if !isRefType(T) {
		return r
	}
	for x := range s.mem[shMem{l.o, l.path}] {
		r[x] = true
	}
	if l.o.opaque {
		r[loc{o: l.o}] = true
	}
	return r
}

func (s *sharing) store(dst loc, v locs, T types.Type) {
	switch {
	case isAggType(T):
		for _, f := range s.leaves(T) {
			for src := range v {
				s.put(dst.at(f.path), s.load(src.at(f.path), f.typ))
			}
		}
	case isRefType(T):
		s.put(dst, v)
	}
}

func (s *sharing) put(dst loc, v locs) {
	if len(v) == 0 {
		return
	}
	k := shMem{dst.o, dst.path}
	m := s.mem[k]
	if m == nil {
		m = locs{}
		s.mem[k] = m
	}
	s.add(m, v)
}

// val is the set of addresses a value may be.
func (s *sharing) val(x *shCtx, v ssa.Value) locs {
	switch v := v.(type) {
	case *ssa.Const:
		return nil
	case *ssa.Global:
		o := s.place("global "+v.String(), "variable "+v.String(), v.Pos(), derefT(v.Type()), phStart)
		if v.Pkg == nil || !s.p.InModule(v.Pkg.Pkg) {
			o.opaque = true
		}
		return locs{loc{o: o}: true}
	case *ssa.Function:
		o := s.place(fmt.Sprintf("function %p", v), "function "+v.String(), v.Pos(), v.Type(), phStart)
		o.fn = v
		return locs{loc{o: o}: true}
	case *ssa.Builtin:
		return nil
	}
	return s.vals[shVal{x, v, -1}]
}

func (s *sharing) set(x *shCtx, v ssa.Value, i int, l locs) {
	if len(l) == 0 {
		return
	}
	k := shVal{x, v, i}
	m := s.vals[k]
	if m == nil {
		m = locs{}
		s.vals[k] = m
	}
	s.add(m, l)
}

func isFull(sl *ssa.Slice) bool {
	if sl.Max == nil {
		return false
	}
	if sl.High == sl.Max {
		return true
	}
	if a, ok := sl.High.(*ssa.Const); ok {
		if b, ok := sl.Max.(*ssa.Const); ok && a.Value != nil && b.Value != nil && a.Value.String() == b.Value.String() {
			return true
		}
	}
	lenOf := func(v ssa.Value) ssa.Value {
		if call, ok := v.(*ssa.Call); ok {
			if b, ok := call.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				a := call.Call.Args[0]
				if u, ok := a.(*ssa.UnOp); ok && u.Op == token.MUL {
					return u.X
				}
				return a
			}
		}
		return nil
	}
	a, b := lenOf(sl.High), lenOf(sl.Max)
	return a != nil && a == b
}

func (s *sharing) visit(x *shCtx) {
	if x.fn.Blocks == nil {
		return
	}
	for _, b := range x.fn.Blocks {
		for _, in := range b.Instrs {
			s.instr(x, in)
		}
	}
}

func (s *sharing) site(x *shCtx, in ssa.Instruction, extra string) string {
	return fmt.Sprintf("%p%s@%s", in, extra, x.key)
}

// written checks one modification.
func (s *sharing) written(x *shCtx, targets locs, pos token.Pos, how string) {
	if !s.final || x.phase != phRequest {
		return
	}
	s.nWrites++
	var bad []string
	for l := range targets {
		if l.o.phase != phRequest {
			what := l.o.what
			if l.path != "" {
				if T := describePath(l.o.typ, l.path); T != "" {
					what += T
				}
			}
			bad = append(bad, fmt.Sprintf("%s (%s)", what, phaseNames[l.o.phase]))
		}
	}
	if len(bad) == 0 {
		return
	}
	sort.Strings(bad)
	s.c.Violate(fmt.Sprintf("shared:%s:%s", eng.FuncName(x.fn), s.p.Fset.Position(pos)), pos, "%s modifies data visible to other requests while a request is handled: %s", how, bad[0])
}

func describePath(T types.Type, path string) string {
	var b strings.Builder
	cur := ""
	for path != "" {
		n := 1
		for n < len(path) && path[n] != '.' && path[n] != '[' {
			n++
		}
		step := path[:n]
		if step[0] == '.' {
			if st, ok := typeAt(T, cur).(types.Type); ok && st != nil {
				if u, ok := st.Underlying().(*types.Struct); ok {
					i := 0
					fmt.Sscan(step[1:], &i)
					if i < u.NumFields() {
						step = "." + u.Field(i).Name()
					}
				}
			}
		}
		b.WriteString(step)
		cur += path[:n]
		path = path[n:]
	}
	return b.String()
}

// depends reports that loading depends on a request.
func (s *sharing) depends(x *shCtx, from locs, got locs, T types.Type, pos token.Pos) {
	if !s.final || x.phase != phLoad {
		return
	}
	s.c.Count("reads by one-time loading", 1)
	for l := range from {
		if l.o.phase != phRequest {
			continue
		}
		if !isRefType(T) && !isAggType(T) {
			s.c.Violate("loading depends:"+eng.FuncName(x.fn)+":"+s.p.Fset.Position(pos).String(), pos, "the one-time loading depends on data of the request it is caused by: %s", l.o.what)
			return
		}
		for v := range got {
			if v.o.phase == phRequest && !isAggType(T) {
				s.c.Violate("loading depends:"+eng.FuncName(x.fn)+":"+s.p.Fset.Position(pos).String(), pos, "the one-time loading depends on data of the request it is caused by: %s", v.o.what)
				return
			}
		}
	}
}

func (s *sharing) instr(x *shCtx, in ssa.Instruction) {
	name := eng.FuncName(x.fn)
	switch in := in.(type) {
	case *ssa.Alloc:
		o := s.place(s.site(x, in, ""), "object of "+name, in.Pos(), derefT(in.Type()), x.phase)
		s.set(x, in, -1, locs{loc{o: o}: true})
	case *ssa.MakeSlice:
		o := s.place(s.site(x, in, ""), "list made in "+name, in.Pos(), in.Type(), x.phase)
		s.set(x, in, -1, locs{loc{o: o, full: in.Len == in.Cap}: true})
	case *ssa.MakeMap:
		o := s.place(s.site(x, in, ""), "map made in "+name, in.Pos(), in.Type(), x.phase)
		s.set(x, in, -1, locs{loc{o: o}: true})
	case *ssa.MakeChan:
		o := s.place(s.site(x, in, ""), "channel made in "+name, in.Pos(), in.Type(), x.phase)
		s.set(x, in, -1, locs{loc{o: o}: true})
	case *ssa.MakeClosure:
		fn := in.Fn.(*ssa.Function)
		o := s.place(s.site(x, in, ""), "function value of "+name, in.Pos(), in.Type(), x.phase)
		o.fn = fn
		for i, b := range in.Bindings {
			s.store(loc{o: o, path: fmt.Sprintf("fv%d", i)}, s.val(x, b), b.Type())
			if isAggType(b.Type()) {
				s.put(loc{o: o, path: fmt.Sprintf("fv%d agg", i)}, s.val(x, b))
			}
		}
		s.set(x, in, -1, locs{loc{o: o}: true})
	case *ssa.MakeInterface:
		T := in.X.Type()
		if isRefType(T) && !types.IsInterface(T) {
			if _, isPtr := T.Underlying().(*types.Pointer); isPtr {
				s.set(x, in, -1, s.val(x, in.X))
				return
			}
		}
		o := s.place(s.site(x, in, ""), "value of "+name, in.Pos(), T, x.phase)
		o.boxed = true
		s.store(loc{o: o}, s.val(x, in.X), T)
		s.set(x, in, -1, locs{loc{o: o}: true})
	case *ssa.FieldAddr:
		r := locs{}
		u := derefT(in.X.Type()).Underlying().(*types.Struct)
		for l := range s.val(x, in.X) {
			r[l.at("."+fieldKey(u, in.Field))] = true
		}
		s.set(x, in, -1, r)
	case *ssa.Field:
		r := locs{}
		u := in.X.Type().Underlying().(*types.Struct)
		for l := range s.val(x, in.X) {
			for y := range s.load(l.at("."+fieldKey(u, in.Field)), in.Type()) {
				r[y] = true
			}
		}
		s.set(x, in, -1, r)
	case *ssa.IndexAddr:
		r := locs{}
		for l := range s.val(x, in.X) {
			r[l.at("[]")] = true
		}
		s.set(x, in, -1, r)
	case *ssa.Index:
		r := locs{}
		for l := range s.val(x, in.X) {
			for y := range s.load(l.at("[]"), in.Type()) {
				r[y] = true
			}
		}
		s.set(x, in, -1, r)
	case *ssa.Lookup:
		M, isMap := in.X.Type().Underlying().(*types.Map)
		if !isMap {
			return
		}
		r := locs{}
		for l := range s.val(x, in.X) {
			for y := range s.load(l.at("[]"), M.Elem()) {
				r[y] = true
			}
		}
		s.depends(x, s.val(x, in.X), r, M.Elem(), in.Pos())
		i := -1
		if in.CommaOk {
			i = 0
		}
		s.set(x, in, i, r)
	case *ssa.Range:
		s.set(x, in, -1, s.val(x, in.X))
	case *ssa.Next:
		if in.IsString {
			return
		}
		M, ok := in.Iter.(*ssa.Range).X.Type().Underlying().(*types.Map)
		if !ok {
			return
		}
		for l := range s.val(x, in.Iter) {
			s.set(x, in, 1, s.load(l.at("[k]"), M.Key()))
			s.set(x, in, 2, s.load(l.at("[]"), M.Elem()))
		}
	case *ssa.UnOp:
		switch in.Op {
		case token.MUL:
			r := locs{}
			for l := range s.val(x, in.X) {
				for y := range s.load(l, in.Type()) {
					r[y] = true
				}
			}
			s.depends(x, s.val(x, in.X), r, in.Type(), in.Pos())
			s.set(x, in, -1, r)
		case token.ARROW:
			r := locs{}
			ch := in.X.Type().Underlying().(*types.Chan)
			for l := range s.val(x, in.X) {
				for y := range s.load(l.at("[]"), ch.Elem()) {
					r[y] = true
				}
			}
			i := -1
			if in.CommaOk {
				i = 0
			}
			s.set(x, in, i, r)
		}
	case *ssa.Store:
		T := in.Val.Type()
		addr := s.val(x, in.Addr)
		s.written(x, addr, in.Pos(), "a store")
		v := s.val(x, in.Val)
		if a, ok := in.Addr.(*ssa.Alloc); ok && isAggType(T) {
			s.overwrite(x, in, a, v)
			return
		}
		for l := range addr {
			s.store(l, v, T)
		}
	case *ssa.MapUpdate:
		m := s.val(x, in.Map)
		s.written(x, m, in.Pos(), "a map update")
		for l := range m {
			s.store(l.at("[]"), s.val(x, in.Value), in.Value.Type())
			s.store(l.at("[k]"), s.val(x, in.Key), in.Key.Type())
		}
	case *ssa.Send:
		for l := range s.val(x, in.Chan) {
			s.store(l.at("[]"), s.val(x, in.X), in.X.Type())
		}
	case *ssa.Slice:
		r := locs{}
		_, isSlice := in.X.Type().Underlying().(*types.Slice)
		for l := range s.val(x, in.X) {
			switch {
			case in.Max != nil:
				l.full = isFull(in)
			case in.High != nil:
				l.full = false
			case !isSlice:
				l.full = true // whole array
			}
			r[l] = true
		}
		s.set(x, in, -1, r)
	case *ssa.Phi:
		for _, e := range in.Edges {
			s.set(x, in, -1, s.val(x, e))
		}
	case *ssa.ChangeType:
		s.set(x, in, -1, s.val(x, in.X))
	case *ssa.ChangeInterface:
		s.set(x, in, -1, s.val(x, in.X))
	case *ssa.SliceToArrayPointer:
		s.set(x, in, -1, s.val(x, in.X))
	case *ssa.Convert:
		if isRefType(in.Type()) {
			if isRefType(in.X.Type()) {
				s.set(x, in, -1, s.val(x, in.X))
			} else { // []byte(text)
				o := s.place(s.site(x, in, ""), "bytes made in "+name, in.Pos(), in.Type(), x.phase)
				s.set(x, in, -1, locs{loc{o: o}: true})
			}
		}
	case *ssa.TypeAssert:
		i := -1
		if in.CommaOk {
			i = 0
		}
		s.set(x, in, i, s.assert(s.val(x, in.X), in.AssertedType))
	case *ssa.Extract:
		s.set(x, in, -1, s.vals[shVal{x, in.Tuple, in.Index}])
	case *ssa.Select:
		n := 2
		for _, st := range in.States {
			if st.Dir == types.SendOnly {
				for l := range s.val(x, st.Chan) {
					s.store(l.at("[]"), s.val(x, st.Send), st.Send.Type())
				}
				continue
			}
			ch := st.Chan.Type().Underlying().(*types.Chan)
			for l := range s.val(x, st.Chan) {
				s.set(x, in, n, s.load(l.at("[]"), ch.Elem()))
			}
			n++
		}
	case *ssa.Return:
		r := s.rets[x]
		if r == nil {
			r = make([]locs, len(in.Results))
			for i := range r {
				r[i] = locs{}
			}
			s.rets[x] = r
		}
		for i, v := range in.Results {
			s.add(r[i], s.val(x, v))
		}
	case ssa.CallInstruction:
		s.call(x, in)
	}
}

// overwrite stores a structure to a local variable; fields that get other values before anything
// can read them are skipped, reads of old values are passed directly.
func (s *sharing) overwrite(x *shCtx, in *ssa.Store, a *ssa.Alloc, v locs) {
	T := in.Val.Type()
	u, ok := T.Underlying().(*types.Struct)
	if !ok {
		for l := range s.val(x, a) {
			s.store(l, v, T)
		}
		return
	}
	for i := 0; i < u.NumFields(); i++ {
		F := u.Field(i).Type()
		key := "." + fieldKey(u, i)
		old := locs{}
		for src := range v {
			for y := range s.load(src.at(key), F) {
				old[y] = true
			}
		}
		if len(old) == 0 {
			continue
		}
		loads, killed := s.overwritten(in, a, i)
		if !killed {
			for l := range s.val(x, a) {
				s.store(l.at(key), old, F)
			}
			continue
		}
		for _, ld := range loads {
			s.set(x, ld, -1, old)
		}
	}
}

type overKey struct {
	in *ssa.Store
	f  int
}

type overVal struct {
	loads []*ssa.UnOp
	ok    bool
}

// overwritten: the field of the local variable gets another value before it is used after the store.
func (s *sharing) overwritten(in *ssa.Store, a *ssa.Alloc, field int) ([]*ssa.UnOp, bool) {
	if r, ok := s.over[overKey{in, field}]; ok {
		return r.loads, r.ok
	}
	var r overVal
	r.ok = true
	derived := map[ssa.Value]bool{}
	for _, ref := range *a.Referrers() {
		if fa, ok := ref.(*ssa.FieldAddr); ok && fa.Field == field {
			derived[fa] = true
		}
	}
	seen := map[*ssa.BasicBlock]bool{}
	var scan func(b *ssa.BasicBlock, from int)
	scan = func(b *ssa.BasicBlock, from int) {
		for _, y := range b.Instrs[from:] {
			if !r.ok {
				return
			}
			switch y := y.(type) {
			case *ssa.DebugRef:
				continue
			case *ssa.FieldAddr:
				continue
			case *ssa.Store:
				if derived[y.Addr] || y.Addr == a {
					if y.Val == a || derived[y.Val] {
						r.ok = false
					}
					return // overwritten
				}
			case *ssa.UnOp:
				if y.Op == token.MUL && derived[y.X] {
					if isAggType(y.Type()) {
						r.ok = false
						return
					}
					r.loads = append(r.loads, y)
					continue
				}
			}
			for _, op := range y.Operands(nil) {
				if *op != nil && (*op == a || derived[*op]) {
					r.ok = false
					return
				}
			}
		}
		for _, n := range b.Succs {
			if !seen[n] {
				seen[n] = true
				scan(n, 0)
			}
		}
	}
	for i, y := range in.Block().Instrs {
		if y == in {
			scan(in.Block(), i+1)
		}
	}
	s.over[overKey{in, field}] = r
	return r.loads, r.ok
}

// assert selects values of a type from an interface.
func (s *sharing) assert(v locs, T types.Type) locs {
	r := locs{}
	for l := range v {
		switch {
		case l.o.opaque:
			r[l] = true
		case types.IsInterface(T):
			r[l] = true
		case l.o.boxed && l.path == "":
			if types.Identical(l.o.typ, T) {
				for y := range s.load(l, T) {
					r[y] = true
				}
			}
		default:
			if ptr, ok := T.Underlying().(*types.Pointer); ok {
				if at := typeAt(l.o.typ, l.path); at != nil && types.Identical(at, ptr.Elem()) {
					r[l] = true
				}
			}
		}
	}
	return r
}

// dynamic is the type of a value stored in an interface as an address.
func dynamic(l loc) types.Type {
	if l.o.opaque || l.o.fn != nil {
		return nil
	}
	if l.o.boxed && l.path == "" {
		return l.o.typ
	}
	if T := typeAt(l.o.typ, l.path); T != nil {
		return types.NewPointer(T)
	}
	return nil
}

func (s *sharing) enter(x *shCtx, in ssa.CallInstruction, fn *ssa.Function, phase int, args []locs, closure *loc) []locs {
	var calls []string
	if phase == x.phase {
		calls = append(append(calls, x.calls...), fmt.Sprintf("%p", in))
	} else {
		calls = []string{fmt.Sprintf("%p", in)}
	}
	if phase == phLoad && x.phase != phLoad {
		calls = nil // loaded at once by any of calls
	}
	y := s.context(fn, phase, calls)
	for i, p := range fn.Params {
		if i < len(args) {
			s.set(y, p, -1, args[i])
		}
	}
	if closure != nil {
		for i, fv := range fn.FreeVars {
			l := loc{o: closure.o, path: fmt.Sprintf("fv%d", i)}
			if isAggType(fv.Type()) {
				l.path += " agg"
			}
			s.set(y, fv, -1, s.mem[shMem{l.o, l.path}])
		}
	}
	return s.rets[y]
}

func (s *sharing) call(x *shCtx, in ssa.CallInstruction) {
	cc := in.Common()
	var args []locs
	var argTypes []types.Type
	if cc.IsInvoke() {
		args = append(args, s.val(x, cc.Value))
		argTypes = append(argTypes, cc.Value.Type())
	}
	for _, a := range cc.Args {
		args = append(args, s.val(x, a))
		argTypes = append(argTypes, a.Type())
	}
	res := func(r []locs) {
		v := in.Value()
		if v == nil || r == nil {
			return
		}
		if len(r) == 1 {
			if _, tuple := v.Type().(*types.Tuple); !tuple {
				s.set(x, v, -1, r[0])
				return
			}
		}
		for i, l := range r {
			s.set(x, v, i, l)
		}
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		s.builtin(x, in, b.Name(), args)
		return
	}
	if cc.IsInvoke() {
		lib := false
		for l := range args[0] {
			T := dynamic(l)
			if T == nil {
				lib = lib || l.o.opaque
				continue
			}
			sel := s.p.Prog.MethodSets.MethodSet(T).Lookup(cc.Method.Pkg(), cc.Method.Name())
			if sel == nil {
				continue
			}
			fn := s.p.Prog.MethodValue(sel)
			if fn == nil {
				continue
			}
			recv := locs{l: true}
			if l.o.boxed && l.path == "" {
				recv = s.load(l, T)
			}
			if s.inModule(fn) {
				res(s.enter(x, in, fn, x.phase, append([]locs{recv}, args[1:]...), nil))
			} else {
				res(s.library(x, in, eng.FuncName(fn), append([]locs{recv}, args[1:]...), argTypes))
			}
		}
		if lib || len(args[0]) == 0 {
			res(s.library(x, in, cc.Method.FullName(), args, argTypes))
		}
		return
	}
	if fn := cc.StaticCallee(); fn != nil {
		if _, closure := cc.Value.(*ssa.MakeClosure); !closure {
			if s.inModule(fn) {
				res(s.enter(x, in, fn, x.phase, args, nil))
			} else {
				res(s.library(x, in, eng.FuncName(fn), args, argTypes))
			}
			return
		}
	}
	for l := range s.val(x, cc.Value) {
		res(s.invoke(x, in, l, x.phase, args, argTypes))
	}
}

func (s *sharing) inModule(fn *ssa.Function) bool {
	if len(fn.Blocks) == 0 {
		return false
	}
	pk := fnPkg(fn)
	return pk == nil || s.p.InModule(pk) || fn.Synthetic != ""
}

// invoke calls a function value.
func (s *sharing) invoke(x *shCtx, in ssa.CallInstruction, l loc, phase int, args []locs, argTypes []types.Type) []locs {
	o := l.o
	if o.boxed && o.fn == nil { // a function in an interface
		return nil
	}
	if o.once {
		if o.phase != phRequest && phase == phRequest {
			phase = phLoad
		}
		var out []locs
		for f := range s.mem[shMem{o, "once"}] {
			out = s.invoke(x, in, f, phase, nil, nil)
		}
		return out
	}
	if o.fn == nil {
		return nil
	}
	if !s.inModule(o.fn) {
		return s.library(x, in, eng.FuncName(o.fn), args, argTypes)
	}
	return s.enter(x, in, o.fn, phase, args, &l)
}

func (s *sharing) builtin(x *shCtx, in ssa.CallInstruction, name string, args []locs) {
	cc := in.Common()
	switch name {
	case "append":
		v := in.Value()
		T := cc.Args[0].Type()
		elem := T.Underlying().(*types.Slice).Elem()
		o := s.place(s.site(x, in, ""), "list extended in "+eng.FuncName(x.fn), in.Pos(), T, x.phase)
		r := locs{loc{o: o}: true}
		grown := locs{}
		for l := range args[0] {
			if !l.full {
				grown[l] = true
				r[l] = true
			}
			s.copyElems(loc{o: o}, locs{l: true}, elem)
		}
		if len(cc.Args) > 1 {
			for l := range r {
				s.copyElems(l, args[1], elem)
			}
		}
		s.written(x, grown, in.Pos(), "appending to a list that may have spare capacity")
		if v != nil {
			s.set(x, v, -1, r)
		}
	case "copy":
		s.written(x, args[0], in.Pos(), "copy")
		elem := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
		for l := range args[0] {
			s.copyElems(l, args[1], elem)
		}
	case "delete", "clear":
		s.written(x, args[0], in.Pos(), name)
	case "min", "max", "len", "cap", "print", "println", "panic", "recover", "close", "ssa:wrapnilchk":
		if name == "ssa:wrapnilchk" && in.Value() != nil {
			s.set(x, in.Value(), -1, args[0])
		}
	}
}

func (s *sharing) copyElems(dst loc, src locs, elem types.Type) {
	for l := range src {
		if isAggType(elem) {
			s.store(dst.at("[]"), locs{l.at("[]"): true}, elem)
		} else {
			s.store(dst.at("[]"), s.load(l.at("[]"), elem), elem)
		}
	}
}

// writers are library functions that modify objects passed as arguments with listed numbers.
var writers = map[string][]int{
	"sort.Strings": {0}, "sort.Ints": {0}, "sort.Float64s": {0}, "sort.Slice": {0}, "sort.SliceStable": {0},
	"slices.Sort": {0}, "slices.SortFunc": {0}, "slices.SortStableFunc": {0}, "slices.Reverse": {0}, "slices.Delete": {0}, "slices.DeleteFunc": {0},
	"slices.Insert": {0}, "slices.Replace": {0}, "slices.Compact": {0}, "slices.CompactFunc": {0},
	"maps.Copy": {0}, "maps.DeleteFunc": {0}, "maps.Insert": {0},
	"io.ReadFull": {1}, "io.ReadAtLeast": {1}, "encoding/json.Unmarshal": {1}, "encoding/binary.Read": {2}, "encoding/xml.Unmarshal": {1},
	"(encoding/binary.ByteOrder).PutUint32": {1}, "(encoding/binary.ByteOrder).PutUint64": {1}, "(encoding/binary.ByteOrder).PutUint16": {1},
	"fmt.Sscan": {1}, "fmt.Sscanf": {2}, "fmt.Fscan": {1}, "fmt.Fscanf": {2}, "fmt.Sscanln": {1},
	"(*encoding/json.Decoder).Decode": {0, 1}, "math/rand.Shuffle": nil,
	"container/heap.Init": {0}, "container/heap.Push": {0}, "container/heap.Pop": {0}, "container/heap.Fix": {0}, "container/heap.Remove": {0},
	"sort.Sort": {0}, "sort.Stable": {0},
	"(*regexp.Regexp).Longest":        {0},
	"(*text/template.Template).Parse": {0}, "(*text/template.Template).Funcs": {0},
	"bytes.Fields":      nil,
	"strconv.AppendInt": {0}, "strconv.AppendQuote": {0}, "strconv.AppendUint": {0}, "strconv.AppendBool": {0}, "strconv.AppendFloat": {0},
	"fmt.Append": {0}, "fmt.Appendf": {0}, "fmt.Appendln": {0}, "unicode/utf8.AppendRune": {0}, "unicode/utf8.EncodeRune": {0},
	"fmt.Fprint": {0}, "fmt.Fprintf": {0}, "fmt.Fprintln": {0}, "io.WriteString": {0}, "io.Copy": {0, 1}, "io.CopyN": {0, 1},
}

// mutable library types: pointer methods modify the receiver.
var mutableTypes = []string{
	"(*strings.Builder).", "(*bytes.Buffer).", "(*bytes.Reader).", "(*strings.Reader).", "(*bufio.", "(*encoding/json.Encoder).", "(*encoding/json.Decoder).",
	"(*container/list.", "(*container/ring.", "(*math/rand.", "(*os/exec.Cmd).", "(*text/tabwriter.", "(*sync.Map).", "(*sync.Pool).", "(*sync/atomic.", "sync/atomic.", "(*math/big.",
	"(net/url.Values).Set", "(net/url.Values).Add", "(net/url.Values).Del", "(net/http.Header).", "(*text/scanner.", "(*hash/", "(hash.Hash", "(*expvar.", "(*container/heap",
}

var readOnlyMethods = map[string]bool{"Load": true, "Range": true, "Len": true, "String": true, "Cap": true, "Bytes": true, "Cmp": true, "Front": true, "Back": true, "Size": true}

// processState are functions that change the state of the whole process.
var processState = map[string]bool{
	"os.Setenv": true, "os.Unsetenv": true, "os.Clearenv": true, "os.Chdir": true, "log.SetOutput": true, "log.SetFlags": true, "log.SetPrefix": true,
	"syscall.Setenv": true, "syscall.Chdir": true, "math/rand.Seed": true, "flag.Set": true, "flag.Parse": true, "runtime.GOMAXPROCS": true,
	"(*log.Logger).SetOutput": true, "(*log.Logger).SetFlags": true, "(*log.Logger).SetPrefix": true, "syscall.Umask": true, "os/signal.Notify": true, "(*flag.FlagSet).Set": true, "(*flag.FlagSet).Parse": true,
}

func (s *sharing) library(x *shCtx, in ssa.CallInstruction, name string, args []locs, argTypes []types.Type) []locs {
	cc := in.Common()
	if i := strings.IndexByte(name, '['); i >= 0 {
		name = name[:i] // instance of a generic function
	}
	// registration of request handlers
	switch name {
	case "net/rpc.RegisterName", "net/rpc.Register", "(*net/rpc.Server).RegisterName", "(*net/rpc.Server).Register":
		s.register(args[len(args)-1])
		return nil
	case "(*sync.Once).Do":
		phase := x.phase
		if phase == phRequest {
			phase = phLoad
			for l := range args[0] {
				if l.o.phase == phRequest {
					phase = phRequest
				}
			}
		}
		for f := range args[1] {
			s.invoke(x, in, f, phase, nil, nil)
		}
		return nil
	case "sync.OnceFunc", "sync.OnceValue", "sync.OnceValues":
		o := s.place(s.site(x, in, ""), "function made by "+name, in.Pos(), nil, x.phase)
		o.once = true
		s.put(loc{o: o, path: "once"}, args[0])
		return []locs{{loc{o: o}: true}}
	}
	if s.final && x.phase == phRequest {
		if processState[name] {
			s.c.Violate("process:"+eng.FuncName(x.fn)+":"+name, in.Pos(), "%s changes the state of the whole process while a request is handled", name)
		}
	}
	if w, ok := writers[name]; ok {
		for _, i := range w {
			if i < len(args) {
				// fmt.Sscan and similar ones have a list of addresses
				t := args[i]
				if i == len(args)-1 && cc.Signature().Variadic() && !strings.HasPrefix(name, "fmt.Append") {
					t = locs{}
					for l := range args[i] {
						for y := range s.load(l.at("[]"), types.NewInterfaceType(nil, nil)) {
							t[y] = true
						}
					}
				}
				t = s.unbox(t)
				if strings.HasPrefix(name, "fmt.F") || strings.HasPrefix(name, "io.") {
					t = withoutOpaque(t)
				}
				s.written(x, t, in.Pos(), "call of "+name)
			}
		}
	} else {
		for _, m := range mutableTypes {
			if strings.HasPrefix(name, m) {
				method := name[strings.LastIndexByte(name, '.')+1:]
				if !readOnlyMethods[method] && !strings.HasPrefix(method, "Load") && len(args) > 0 {
					s.written(x, args[0], in.Pos(), "call of "+name)
				}
				break
			}
		}
		if strings.HasSuffix(name, ".Read") && len(args) == 2 {
			s.written(x, args[1], in.Pos(), "call of "+name)
		}
	}
	// functions and methods the library may call
	var lib locs
	unknown := func() locs {
		if lib == nil {
			o := s.place(s.site(x, in, " lib"), "result of "+name, in.Pos(), nil, x.phase)
			o.opaque = true
			lib = locs{loc{o: o}: true}
		}
		return lib
	}
	for i, a := range args {
		if i >= len(argTypes) {
			break
		}
		T := argTypes[i]
		switch u := T.Underlying().(type) {
		case *types.Signature:
			for f := range a {
				fargs := make([]locs, u.Params().Len())
				for k := range fargs {
					if P := u.Params().At(k).Type(); isRefType(P) || isAggType(P) {
						fargs[k] = unknown()
					}
				}
				s.invoke(x, in, f, x.phase, fargs, nil)
			}
		case *types.Interface:
			if i == 0 && cc.IsInvoke() {
				continue
			}
			s.callMethods(x, in, a, u, unknown)
		case *types.Slice:
			if I, ok := u.Elem().Underlying().(*types.Interface); ok {
				for l := range a {
					s.callMethods(x, in, s.load(l.at("[]"), u.Elem()), I, unknown)
				}
			}
		}
	}
	// results
	var out []locs
	R := cc.Signature().Results()
	for i := 0; i < R.Len(); i++ {
		T := R.At(i).Type()
		if !isRefType(T) && !isAggType(T) {
			out = append(out, nil)
			continue
		}
		r := locs{}
		for l := range unknown() {
			r[l] = true
		}
		if !eng.IsErrorType(T) {
			for k, a := range args {
				if k < len(argTypes) && types.Identical(argTypes[k], T) {
					for l := range a {
						r[l] = true
					}
				}
			}
		}
		out = append(out, r)
	}
	return out
}

func withoutOpaque(v locs) locs {
	r := locs{}
	for l := range v {
		if !l.o.opaque {
			r[l] = true
		}
	}
	return r
}

// unbox lists objects an interface value refers to.
func (s *sharing) unbox(v locs) locs {
	r := locs{}
	for l := range v {
		if l.o.boxed && l.path == "" {
			for y := range s.load(l, l.o.typ) {
				r[y] = true
			}
		} else {
			r[l] = true
		}
	}
	return r
}

// callMethods of a value passed to a library.
func (s *sharing) callMethods(x *shCtx, in ssa.CallInstruction, v locs, I *types.Interface, unknown func() locs) {
	var names []string
	if I.NumMethods() == 0 {
		names = []string{"String", "Error", "MarshalJSON", "MarshalText", "GoString", "Format"}
	}
	for i := 0; i < I.NumMethods(); i++ {
		names = append(names, I.Method(i).Name())
	}
	for l := range v {
		T := dynamic(l)
		if T == nil {
			continue
		}
		ms := s.p.Prog.MethodSets.MethodSet(T)
		for _, n := range names {
			sel := ms.Lookup(nil, n)
			if sel == nil {
				continue
			}
			fn := s.p.Prog.MethodValue(sel)
			if fn == nil || !s.inModule(fn) {
				continue
			}
			recv := locs{l: true}
			if l.o.boxed && l.path == "" {
				recv = s.load(l, T)
			}
			args := []locs{recv}
			for i := 1; i < len(fn.Params); i++ {
				if P := fn.Params[i].Type(); isRefType(P) || isAggType(P) {
					args = append(args, unknown())
				} else {
					args = append(args, nil)
				}
			}
			s.enter(x, in, fn, x.phase, args, nil)
		}
	}
}

// register: methods of the object handle requests.
func (s *sharing) register(objs locs) {
	for l := range objs {
		T := dynamic(l)
		if T == nil {
			continue
		}
		ms := s.p.Prog.MethodSets.MethodSet(T)
		for i := 0; i < ms.Len(); i++ {
			sel := ms.At(i)
			sig, ok := sel.Type().(*types.Signature)
			if !ok || !sel.Obj().Exported() || sig.Params().Len() != 2 || sig.Results().Len() != 1 || !eng.IsErrorType(sig.Results().At(0).Type()) {
				continue
			}
			fn := s.p.Prog.MethodValue(sel)
			if fn == nil || len(fn.Blocks) == 0 {
				continue
			}
			s.roots[fn] = true
			recv := locs{l: true}
			if l.o.boxed && l.path == "" {
				recv = s.load(l, T)
			}
			q := s.place("query "+fn.String(), "the request", fn.Pos(), nil, phRequest)
			q.opaque = true
			r := s.place("reply "+fn.String(), "the reply", fn.Pos(), derefT(sig.Params().At(1).Type()), phRequest)
			s.replies[r] = true
			y := s.context(fn, phRequest, nil)
			for k, v := range []locs{recv, {loc{o: q}: true}, {loc{o: r}: true}} {
				if k < len(fn.Params) {
					s.set(y, fn.Params[k], -1, v)
				}
			}
		}
	}
}

// encoders: replies are encoded by methods of their parts.
func (s *sharing) encoders() {
	seen := map[loc]bool{}
	var todo []loc
	push := func(l loc) {
		l.full = false
		if !seen[l] && !l.o.opaque {
			seen[l] = true
			todo = append(todo, l)
		}
	}
	for r := range s.replies {
		push(loc{o: r})
	}
	byObj := map[*place][]shMem{}
	for k := range s.mem {
		byObj[k.o] = append(byObj[k.o], k)
	}
	for len(todo) > 0 {
		l := todo[0]
		todo = todo[1:]
		s.encode(l)
		for _, k := range byObj[l.o] {
			if strings.HasPrefix(k.path, l.path) && !strings.HasPrefix(k.path, "fv") {
				// every enclosing part of the object
				for n := len(l.path); n < len(k.path); n++ {
					if k.path[n] == '.' || k.path[n] == '[' {
						push(loc{o: l.o, path: k.path[:n]})
					}
				}
				for y := range s.mem[k] {
					push(y)
				}
			}
		}
	}
}

func (s *sharing) encode(l loc) {
	T := typeAt(l.o.typ, l.path)
	if T == nil || l.o.fn != nil {
		return
	}
	ms := s.p.Prog.MethodSets.MethodSet(types.NewPointer(T))
	for _, n := range []string{"MarshalJSON", "MarshalText"} {
		sel := ms.Lookup(nil, n)
		if sel == nil {
			continue
		}
		fn := s.p.Prog.MethodValue(sel)
		if fn == nil || !s.inModule(fn) || len(fn.Params) == 0 {
			continue
		}
		y := s.context(fn, phRequest, []string{"encoding"})
		s.set(y, fn.Params[0], -1, locs{l: true})
	}
}
