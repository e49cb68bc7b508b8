package chk

import (
	"go/constant"
	"go/token"
	"go/types"
	"regexp/syntax"
	"strings"

	"burlcheck/eng"

	"golang.org/x/tools/go/ssa"
)

func init() { Rules["C13"] = ruleC13 }

// intField is the integer structure field a value was loaded from.
func intField(t *eng.Term) *types.Var {
	if t.Kind == eng.KInit && t.Args[0].Kind == eng.KFieldAddr && t.Typ != nil && isIntT(t.Typ) {
		v, _ := t.Args[0].Obj.(*types.Var)
		return v
	}
	return nil
}

// panicky are functions ending the process or panicking.
var panicky = map[string]bool{"os.Exit": true, "log.Fatal": true, "log.Fatalf": true, "log.Fatalln": true, "log.Panic": true, "log.Panicf": true, "log.Panicln": true,
	"(*log.Logger).Fatal": true, "(*log.Logger).Fatalf": true, "(*log.Logger).Fatalln": true, "(*log.Logger).Panic": true, "(*log.Logger).Panicf": true, "(*log.Logger).Panicln": true,
	"runtime.Goexit": true, "syscall.Exit": true}

func ruleC13(c *Ctx) {
	c.Rule = "Handlers of all published operations and all module code they reach (except reading of source files into the tree) are interpreted abstractly with arbitrary requests. Every operation that may panic is an obligation when it depends on the request: sizes for make, slice bounds, indices, divisors, dereferences of members of the request or of the service, type assertions, repetition counts, patterns for MustCompile. Fields that got request numbers are followed to other functions; such numbers have to be known to be not negative and bounded when they are stored, multiplied or used as sizes. Calls ending the process and explicit panics are not allowed."
	s := c.Server()
	if s == nil {
		return
	}
	e := s.E
	load := c.P.loaders()
	loaded := map[string]bool{}
	for f := range load {
		loaded[eng.FuncName(f)] = true
	}
	own := fnPkg(s.Methods[s.Names[0]])

	tainted := map[*types.Var]bool{}     // integer fields that hold numbers of requests
	signed := map[*types.Var]token.Pos{} // those that may be negative
	huge := map[*types.Var]token.Pos{}   // those that may be arbitrary large
	for f := range c.P.nonNegFields() {
		e.NonNeg[f] = true
	}
	for round := 0; ; round++ {
		changed := false
		final := round > 0
		type key struct {
			k string
			p token.Pos
		}
		type viol struct {
			pos  token.Pos
			text string
		}
		found := map[key]viol{}
		counts := map[string]int{}
		for _, name := range s.Names {
			q := s.query(name)
			direct := func(st *eng.State, t *eng.Term) bool { return t != nil && s.Tainted(st, t, q) }
			taint := func(st *eng.State, t *eng.Term) bool {
				if t == nil {
					return false
				}
				return e.Reaches(st, t, func(x *eng.Term) bool {
					if x == q {
						return true
					}
					v := intField(x)
					return v != nil && tainted[v]
				})
			}
			// a number computed from numbers and texts of the request
			var num func(st *eng.State, t *eng.Term, seen map[*eng.Term]bool) bool
			num = func(st *eng.State, t *eng.Term, seen map[*eng.Term]bool) bool {
				if t == nil || seen[t] {
					return false
				}
				seen[t] = true
				for _, o := range e.Origins(t) {
					switch o.Kind {
					case eng.KBin, eng.KConv, eng.KUn:
						for _, a := range o.Args {
							if num(st, a, seen) {
								return true
							}
						}
					case eng.KInit:
						if v := intField(o); v != nil && tainted[v] {
							return true
						}
						if _, ok := s.jsonPath(o, q); ok {
							return true
						}
					case eng.KConst, eng.KNil:
					default:
						if direct(st, o) {
							return true
						}
					}
				}
				return false
			}
			numeric := func(st *eng.State, t *eng.Term) bool { return num(st, t, map[*eng.Term]bool{}) }
			bad := func(kind string, pos token.Pos, format string) {
				found[key{name + ":" + kind, pos}] = viol{pos, format}
			}
			// a number of the request, perhaps shifted, not something computed from it
			var isNumber func(t *eng.Term, seen map[*eng.Term]bool) bool
			isNumber = func(t *eng.Term, seen map[*eng.Term]bool) bool {
				if seen[t] {
					return false
				}
				seen[t] = true
				for _, o := range e.Origins(t) {
					switch o.Kind {
					case eng.KInit:
						if _, ok := s.jsonPath(o, q); ok {
							return true
						}
					case eng.KBin:
						if (o.Op == token.ADD || o.Op == token.SUB) && (isNumber(o.Args[0], seen) || isNumber(o.Args[1], seen)) {
							return true
						}
					case eng.KConv, eng.KUn:
						if isNumber(o.Args[0], seen) {
							return true
						}
					}
				}
				return false
			}
			// boundTerm: a bound the client does not choose
			boundTerm := func(st *eng.State, u *eng.Term) bool {
				v := intField(u)
				return u.Kind == eng.KLen || !isNumber(u, map[*eng.Term]bool{}) && (v == nil || !tainted[v]) && !numeric(st, u)
			}
			var bounded func(st *eng.State, t *eng.Term) bool
			// raw: a number of the request, maybe taken from a field it was stored to
			raw := func(t *eng.Term) bool {
				if isNumber(t, map[*eng.Term]bool{}) {
					return true
				}
				for _, o := range e.Origins(t) {
					if v := intField(o); v != nil && tainted[v] {
						return true
					}
				}
				return false
			}
			var unboundedSeen func(st *eng.State, t *eng.Term, seen map[*eng.Term]bool) bool
			unboundedSeen = func(st *eng.State, t *eng.Term, seen map[*eng.Term]bool) bool {
				if seen[t] || !raw(t) || bounded(st, t) {
					return false
				}
				seen[t] = true
				for _, w := range e.OriginsWith(st, t) {
					o := w.T
					if v := intField(o); v != nil && tainted[v] {
						if _, h := huge[v]; h {
							return true
						}
						continue
					}
					if !isNumber(o, map[*eng.Term]bool{}) || bounded(st, o) {
						continue
					}
					if o.Kind == eng.KBin && (o.Op == token.SUB || o.Op == token.ADD) {
						if unboundedSeen(st, o.Args[0], seen) || o.Op == token.ADD && unboundedSeen(st, o.Args[1], seen) {
							return true
						}
						continue
					}
					limit := false
					for _, f := range w.Facts {
						if x := f.T; x.Kind == eng.KBin && x.Op == token.LSS {
							u := x.Args[1]
							if !f.Val {
								u = x.Args[0]
							}
							if (f.Val && x.Args[0] == o || !f.Val && x.Args[1] == o) && (u.Kind == eng.KConst || boundTerm(st, u)) {
								limit = true
							}
						}
					}
					if !limit {
						return true
					}
				}
				return false
			}
			unbounded := func(st *eng.State, t *eng.Term) bool { return unboundedSeen(st, t, map[*eng.Term]bool{}) }
			// an upper bound that is not chosen by the client
			bounded = func(st *eng.State, t *eng.Term) bool {
				if v := intField(t); v != nil && tainted[v] && !direct(st, t) {
					_, h := huge[v]
					return !h
				}
				if e.LE(st, t, e.Int(1<<31), 0) {
					return true
				}
				for _, u := range e.UpperBounds(st, t) {
					if boundTerm(st, u) {
						return true
					}
				}
				if t.Kind == eng.KBin && t.Op == token.ADD {
					return bounded(st, t.Args[0]) && bounded(st, t.Args[1])
				}
				return t.Kind == eng.KLen || t.Kind == eng.KCap
			}
			var nonneg func(st *eng.State, t *eng.Term) bool
			nonneg = func(st *eng.State, t *eng.Term) bool {
				if e.LE(st, e.Int(0), t, 0) {
					return true
				}
				return t.Kind == eng.KBin && t.Op == token.ADD && nonneg(st, t.Args[0]) && nonneg(st, t.Args[1])
			}
			// objects known to be absent possibly: members of the request and of the service
			optional := func(t *eng.Term) bool {
				for _, o := range e.Origins(t) {
					if o.Kind == eng.KNil {
						return true
					}
					if x := o; o.Kind == eng.KExtract || o.Kind == eng.KCall {
						if x.Kind == eng.KExtract {
							x = x.Args[0]
						}
						if x.Kind == eng.KCall && loaded[x.CalleeName()] {
							return true
						}
					}
					if o.Kind == eng.KInit {
						r := eng.Root(o.Args[0])
						if r == q {
							return true
						}
						for _, x := range s.Recv {
							if r == x {
								return true
							}
						}
						if r.Kind == eng.KInit && eng.Root(r.Args[0]) == q {
							return true
						}
					}
				}
				return false
			}
			requestList := func(t *eng.Term) bool {
				for _, o := range e.Origins(t) {
					if _, ok := s.jsonPath(o, q); ok {
						return true
					}
				}
				return false
			}
			constIdx := map[token.Pos]bool{}
			trees := map[*eng.Term]bool{}
			lenSize := map[token.Pos]bool{}
			s.Run(name, &eng.Hooks{
				Boundary: func(f *ssa.Function) bool { return load[f] && fnPkg(f) != own },
				OnInstr: func(st *eng.State, in ssa.Instruction) {
					switch in := in.(type) {
					case *ssa.IndexAddr:
						constIdx[in.Pos()] = constIndex(in.Index)
					case *ssa.Index:
						constIdx[in.Pos()] = constIndex(in.Index)
					case *ssa.Lookup:
						constIdx[in.Pos()] = constIndex(in.Index)
					case *ssa.MakeSlice:
						lenSize[in.Pos()] = isBuiltinLen(in.Len)
					}
				},
				AfterCall: func(ev *eng.CallEvent, st *eng.State, res []*eng.Term) {
					if ev.Callee == nil || !load[ev.Callee] {
						return
					}
					for _, t := range res {
						if t.Typ == nil {
							continue
						}
						if _, ok := t.Typ.Underlying().(*types.Pointer); ok {
							trees[t] = true
						}
					}
				},
				OnBranch: func(st *eng.State, in *ssa.If, taken bool) {
					// states with and without a tree are kept apart
					for t := range trees {
						if n, known := e.IsNil(st, t); known {
							st.SetGhost("tree", map[bool]string{true: "nil", false: "some"}[n])
						}
					}
				},
				OnPanic: func(st *eng.State, pos token.Pos) { bad("panic", pos, "an explicit panic is reachable") },
				OnCall: func(ev *eng.CallEvent) {
					if panicky[ev.Name] {
						bad("exit", ev.Pos, "the process is ended by "+ev.Name)
					}
					for i, a := range ev.Args {
						// a nil pointer in an interface is not a nil interface
						if a.Kind != eng.KIface || ev.InDefer || ev.Invoke || i >= len(ev.Site.Common().Args) || !optional(a.Args[0]) {
							continue
						}
						m, made := ev.Site.Common().Args[i].(*ssa.MakeInterface)
						if !made {
							continue
						}
						if _, ok := m.X.Type().Underlying().(*types.Pointer); !ok || !c.inModule(ev) {
							continue
						}
						counts["pointers passed as interfaces"]++
						if n, known := e.IsNil(ev.St, a.Args[0]); !known || n {
							bad("typednil", ev.Pos, "a pointer that may be nil is passed as an interface to "+ev.Name)
						}
					}
					switch ev.Name {
					case "regexp.MustCompile", "regexp.MustCompilePOSIX":
						counts["patterns"]++
						if taint(ev.St, ev.Args[0]) {
							bad("mustcompile", ev.Pos, "a pattern that depends on the request is compiled by "+ev.Name)
						}
					case "strings.Repeat", "bytes.Repeat":
						n := ev.Args[1]
						if taint(ev.St, n) && (!nonneg(ev.St, n) || unbounded(ev.St, n)) {
							bad("repeat", ev.Pos, "a count that depends on the request may be negative or too large")
						}
					}
				},
				OnStore: func(st *eng.State, addr, v *eng.Term, T types.Type, at string) {
					if addr.Kind != eng.KFieldAddr || !isIntT(T) || !isNumber(v, map[*eng.Term]bool{}) {
						return
					}
					f, ok := addr.Obj.(*types.Var)
					if !ok || !e.InModule(f.Pkg()) {
						return
					}
					if !tainted[f] {
						tainted[f] = true
						e.NonNeg[f] = true
						changed = true
					}
					counts["stored request numbers"]++
					if !nonneg(st, v) {
						if _, done := signed[f]; !done {
							signed[f] = token.NoPos
							delete(e.NonNeg, f)
							changed = true
						}
					}
					if !bounded(st, v) {
						if _, done := huge[f]; !done {
							huge[f] = token.NoPos
							changed = true
						}
					}
				},
				OnArith: func(st *eng.State, op token.Token, a, b *eng.Term, pos token.Pos) {
					if op != token.MUL && op != token.SHL {
						return
					}
					for _, x := range []*eng.Term{a, b} {
						if !numeric(st, x) {
							continue
						}
						counts["products of request numbers"]++
						if unbounded(st, x) {
							bad("overflow", pos, "a product of an unbounded number of the request may overflow")
						}
					}
				},
				Oblige: func(st *eng.State, kind string, ok bool, pos token.Pos, ts ...*eng.Term) {
					switch kind {
					case "makelen", "makecap":
						n := ts[len(ts)-1]
						if !numeric(st, n) {
							return
						}
						counts["sizes"]++
						if kind == "makelen" && lenSize[pos] || n.Kind == eng.KLen {
							return
						}
						if !ok && !(ts[0].Kind == eng.KConst && nonneg(st, n)) && !nonneg(st, n) {
							bad("size", pos, "a size that depends on the request may be negative or less than needed")
						}
						if unbounded(st, n) {
							bad("size", pos, "a size that depends on the request is not bounded")
						}
					case "slicehi", "slicelo", "sliceorder":
						t := false
						for _, x := range ts {
							t = t || numeric(st, x)
						}
						if !t {
							return
						}
						counts["slice bounds"]++
						if !ok {
							bad("slice", pos, "a slice bound that depends on the request may be out of range")
						}
					case "index":
						i, l := ts[0], ts[1]
						req := requestList(l) || l.Typ != nil && isStrT(l.Typ) && taint(st, l)
						re := isRegexpResult(l)
						if !(raw(i) && !constIdx[pos] || req && constIdx[pos] || re != nil && constIdx[pos]) {
							return
						}
						counts["indices"]++
						if ok {
							return
						}
						if re != nil {
							if why := c.groupMissing(e, st, l, re, i); why != "" {
								bad("group", pos, why)
							}
							return
						}
						bad("index", pos, "an index may be out of range for some request")
					case "div":
						if !numeric(st, ts[0]) {
							return
						}
						counts["divisors"]++
						if !ok {
							bad("div", pos, "a divisor that depends on the request may be zero")
						}
					case "nil":
						if !optional(ts[0]) {
							return
						}
						counts["dereferences"]++
						if !ok {
							bad("nil", pos, "an absent member of the request or of the service may be used")
						}
					case "nilmap":
						counts["map updates"]++
						if !ok {
							bad("nilmap", pos, "an entry may be added to a nil map")
						}
					case "assert":
						x := ts[0]
						for x.Kind == eng.KIface || x.Kind == eng.KConv {
							x = x.Args[0]
						}
						if _, fromQ := s.jsonPath(x, q); !fromQ && !(x.Kind == eng.KLookup && direct(st, x)) {
							return
						}
						counts["type assertions"]++
						if !ok {
							bad("assert", pos, "a type assertion may fail for some request")
						}
					}
				},
			})
		}
		if Debug {
			println("round", round, changed, len(tainted), len(signed), len(huge))
		}
		if changed && round < 8 || !final {
			continue
		}
		if changed {
			c.Violate("undecided:fields", token.NoPos, "dependencies of fields on the request are not stable")
		}
		for k, v := range found {
			c.Violate(k.k, v.pos, "%s: %s", k.k[:strings.IndexByte(k.k, ':')], v.text)
		}
		for k, n := range counts {
			c.Count(k, n)
		}
		break
	}
	for f := range tainted {
		c.Count("fields with request numbers", 1)
		c.Note("Field %s holds numbers of requests.", f.Name())
	}
	c.Need("dereferences", 1)
	c.Need("slice bounds", 1)
	c.Need("stored request numbers", 1)
}

func isStrT(T types.Type) bool {
	b, ok := T.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// constIndex: the index is a constant or a length minus a constant.
func constIndex(v ssa.Value) bool {
	if _, ok := v.(*ssa.Const); ok {
		return true
	}
	b, ok := v.(*ssa.BinOp)
	return ok && b.Op == token.SUB && isBuiltinLen(b.X)
}

func isBuiltinLen(v ssa.Value) bool {
	c, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	b, ok := c.Call.Value.(*ssa.Builtin)
	return ok && (b.Name() == "len" || b.Name() == "cap")
}

// isRegexpResult gives the call of a regular expression a list of groups is got from.
func isRegexpResult(l *eng.Term) *eng.Term {
	if x, _, ok := elemRef(l); ok {
		l = x
		if l.Kind == eng.KCall && strings.HasPrefix(l.CalleeName(), "(*regexp.Regexp).FindAll") && strings.HasSuffix(l.CalleeName(), "Submatch") {
			return l
		}
		return nil
	}
	if l.Kind == eng.KCall && strings.HasPrefix(l.CalleeName(), "(*regexp.Regexp).Find") && strings.HasSuffix(l.CalleeName(), "Submatch") {
		return l
	}
	return nil
}

// groupMissing tells why a group of a match may be absent.
func (c *Ctx) groupMissing(e *eng.Engine, st *eng.State, l, call, idx *eng.Term) string {
	if l == call {
		if n, known := e.IsNil(st, l); (!known || n) && !e.LE(st, e.Int(1), e.Len(l), 0) {
			return "groups of a match are used though there may be no match"
		}
	}
	p, ok := patternOf(e, call.Args[0])
	if !ok {
		return ""
	}
	r, err := syntax.Parse(p, syntax.Perl)
	if err != nil {
		return ""
	}
	if n, ok := eng.ConstInt(idx); ok && n > int64(r.MaxCap()) {
		return "the pattern has no such group"
	}
	return ""
}

// nonNegFields lists integer fields of module structures that get only lengths, not
// negative constants, other such fields and their sums.
func (p *Program) nonNegFields() map[*types.Var]bool {
	stores := map[*types.Var][]ssa.Value{}
	bad := map[*types.Var]bool{}
	g := p.Graph()
	for _, fn := range p.ModuleFuncs() {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				f := faField(fa)
				if f == nil || !isIntT(f.Type()) {
					continue
				}
				stores[f] = stores[f][:len(stores[f]):len(stores[f])]
				for _, r := range *fa.Referrers() {
					switch r := r.(type) {
					case *ssa.Store:
						if r.Addr == fa {
							stores[f] = append(stores[f], r.Val)
						} else {
							bad[f] = true
						}
					case *ssa.UnOp, *ssa.DebugRef:
					default:
						bad[f] = true
					}
				}
			}
		}
	}
	ok := map[*types.Var]bool{}
	for f := range stores {
		if !bad[f] && len(stores[f]) > 0 {
			ok[f] = true
		}
	}
	var nn func(v ssa.Value, seen map[ssa.Value]bool) bool
	nn = func(v ssa.Value, seen map[ssa.Value]bool) bool {
		if seen[v] {
			return true
		}
		seen[v] = true
		switch v := v.(type) {
		case *ssa.Const:
			n, isInt := constant.Int64Val(v.Value)
			return isInt && n >= 0
		case *ssa.Phi:
			for _, x := range v.Edges {
				if !nn(x, seen) {
					return false
				}
			}
			return true
		case *ssa.BinOp:
			switch v.Op {
			case token.ADD:
				return nn(v.X, seen) && nn(v.Y, seen)
			}
			return false
		case *ssa.UnOp:
			if fa, isFA := v.X.(*ssa.FieldAddr); isFA && v.Op == token.MUL {
				return ok[faField(fa)]
			}
			return false
		case *ssa.Call:
			if isBuiltinLen(v) {
				return true
			}
			ts := g.targets(v)
			for _, t := range ts {
				if t.To == nil && v.Call.IsInvoke() && v.Call.Method.Pkg() != nil && strings.HasPrefix(v.Call.Method.Pkg().Path(), p.Mod) {
					continue
				}
				if t.To == nil || len(t.To.Blocks) == 0 {
					return false
				}
				for _, b := range t.To.Blocks {
					if r, isR := b.Instrs[len(b.Instrs)-1].(*ssa.Return); isR && (len(r.Results) != 1 || !nn(r.Results[0], seen)) {
						return false
					}
				}
			}
			return len(ts) > 1 || len(ts) == 1 && ts[0].To != nil
		}
		return false
	}
	for changed := true; changed; {
		changed = false
		for f := range ok {
			for _, v := range stores[f] {
				if !nn(v, map[ssa.Value]bool{}) {
					delete(ok, f)
					changed = true
					break
				}
			}
		}
	}
	return ok
}

func faField(fa *ssa.FieldAddr) *types.Var {
	str, ok := derefStruct(fa.X.Type())
	if !ok {
		return nil
	}
	return str.Field(fa.Field)
}

// inModule tells whether a function of the module is called.
func (c *Ctx) inModule(ev *eng.CallEvent) bool {
	return strings.Contains(ev.Name, c.P.Mod)
}
