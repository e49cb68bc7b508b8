package chk

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"burlcheck/eng"
)

func init() { Rules["C28"] = ruleC28 }

const ghMatches = "considered matches"

// harvest follows matches of link patterns till they are collected.
type harvest struct {
	c     *Ctx
	e     *eng.Engine
	name  string
	f     *ssa.Function
	sites map[*ssa.BasicBlock]bool
	reach map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
	heads map[*ssa.BasicBlock]bool // headers of loops over matches
	deps  map[int]bool             // loops around handling of a match
}

// group: the term is a part of the match.
func (x *harvest) group(st *eng.State, t *eng.Term) bool {
	m := st.Track["matches"]
	for depth := 0; m != nil && t != nil && depth < 4; depth++ {
		t = unconv(t)
		base, _, ok := elemRef(t)
		if !ok {
			return false
		}
		if base == m {
			return true
		}
		t = base
	}
	return false
}

// alts returns possible values of the term loaded from one of several places.
func (x *harvest) alts(st *eng.State, t *eng.Term, depth int) []*eng.Term {
	e := x.e
	if depth > 4 {
		return []*eng.Term{t}
	}
	switch {
	case t.Kind == eng.KPhi:
		var r []*eng.Term
		for _, y := range e.Incoming(t) {
			if y.Kind != eng.KNil {
				r = append(r, x.alts(st, y, depth+1)...)
			}
		}
		if len(r) > 0 {
			return r
		}
	case t.Kind == eng.KInit && (t.Args[0].Kind == eng.KFieldAddr || t.Args[0].Kind == eng.KIndexAddr):
		a := t.Args[0]
		bases := x.alts(st, a.Args[0], depth+1)
		if len(bases) == 1 && bases[0] == a.Args[0] {
			break
		}
		var r []*eng.Term
		for _, b := range bases {
			if a.Kind == eng.KFieldAddr {
				S, _ := derefStruct(b.Typ)
				if S == nil || a.N >= S.NumFields() {
					return []*eng.Term{t}
				}
				r = append(r, x.alts(st, e.Load(st, e.FieldAddr(b, derefT(b.Typ), a.N), t.Typ), depth+1)...)
			} else {
				r = append(r, x.alts(st, e.Load(st, e.IndexAddr(b, a.Args[1], t.Typ), t.Typ), depth+1)...)
			}
		}
		return r
	}
	return []*eng.Term{t}
}

// exact: the text consists of parts of the match.
func (x *harvest) exact(st *eng.State, t *eng.Term, seen map[*eng.Term]bool) bool {
	t = unconv(t)
	if seen[t] {
		return true
	}
	seen[t] = true
	if s, ok := eng.ConstStr(t); ok {
		return s == ":"
	}
	if l := x.alts(st, t, 0); len(l) != 1 || l[0] != t {
		for _, y := range l {
			// a link that is not created on this path
			if s, ok := eng.ConstStr(y); ok && s == "" && len(l) > 1 {
				continue
			}
			if !x.exact(st, y, seen) {
				return false
			}
		}
		return len(l) > 0
	}
	switch {
	case x.group(st, t):
		return true
	case t.Kind == eng.KBin && t.Op == token.ADD:
		return x.exact(st, t.Args[0], seen) && x.exact(st, t.Args[1], seen)
	case t.Kind == eng.KSlice:
		return t.Args[1] != nil && x.group(st, t.Args[1]) && t.Args[2] != nil && x.group(st, t.Args[2])
	case t.Kind == eng.KPhi:
		in := x.e.Incoming(t)
		for _, y := range in {
			if !x.exact(st, y, seen) {
				return false
			}
		}
		return len(in) > 0
	}
	return false
}

func (x *harvest) ofMatch(st *eng.State, t *eng.Term) bool {
	m := st.Track["matches"]
	return m != nil && x.e.Reaches(st, t, func(t *eng.Term) bool { return t == m })
}

// own: the condition depends on the match, patterns and the filter only.
func (x *harvest) own(st *eng.State, t *eng.Term, seen map[*eng.Term]bool) bool {
	if t == nil || seen[t] {
		return true
	}
	seen[t] = true
	if t == st.Track["matches"] || x.group(st, t) {
		return true
	}
	if t.Kind == eng.KPhi && t.Typ != nil {
		if b, ok := t.Typ.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			for _, y := range x.e.Incoming(t) {
				if y != t && x.e.Reaches(st, y, func(z *eng.Term) bool { return z == t }) {
					if x.outer(t) {
						return false // a counter
					}
				}
			}
		}
	}
	if l := x.alts(st, t, 0); len(l) != 1 || l[0] != t {
		for _, y := range l {
			if !x.own(st, y, seen) {
				return false
			}
		}
		return true
	}
	all := func(l []*eng.Term) bool {
		for _, a := range l {
			if !x.own(st, a, seen) {
				return false
			}
		}
		return true
	}
	switch t.Kind {
	case eng.KConst, eng.KNil, eng.KFunc:
		return true
	case eng.KParam:
		_, ok := t.Typ.Underlying().(*types.Signature)
		return ok
	case eng.KAlloc:
		return x.isLink(t.Typ)
	case eng.KInit:
		if t.Typ != nil && t.Typ.String() == "*regexp.Regexp" {
			return true
		}
		return x.isLink(eng.Root(t.Args[0]).Typ)
	case eng.KLookup, eng.KLookupOk: // a link that is already in the set
		return len(t.Args) >= 2 && x.exact(st, t.Args[1], map[*eng.Term]bool{})
	case eng.KPhi:
		return all(x.e.Incoming(t))
	case eng.KCall:
		if t.Typ != nil && t.Typ.String() == "*regexp.Regexp" {
			return true
		}
	case eng.KExtract:
		if c := t.Args[0]; c.Kind == eng.KCall && strings.HasPrefix(c.CalleeName(), "regexp.") {
			return true
		}
	}
	if t.Typ != nil && t.Typ.String() == "*regexp.Regexp" {
		return true
	}
	if len(t.Args) == 0 {
		return false
	}
	return all(t.Args)
}

func (x *harvest) isLink(T types.Type) bool {
	if T == nil {
		return false
	}
	S, _ := numbered(T)
	return S != nil && urlField(S) >= 0
}

func urlField(S *types.Struct) int {
	for i := 0; i < S.NumFields(); i++ {
		if jsonName(S, i) == "url" {
			return i
		}
	}
	return -1
}

// close ends handling of the current match.
func (x *harvest) close(st *eng.State, pos token.Pos) {
	if st.Ghost["open"] == "1" && st.Ghost["foreign"] != "" {
		x.c.Violate("dropped:"+x.name, pos, "%s may drop a recognized link depending on something else than the link itself and the filter (%s)", x.name, st.Ghost["foreign"])
	}
	st.SetGhost("open", "")
	st.SetGhost("foreign", "")
}

// outer: the variable is updated outside of handling of a match.
func (x *harvest) outer(t *eng.Term) bool {
	for _, d := range t.Deps {
		if !x.deps[d] {
			return false
		}
	}
	return true
}

// settle notes facts that are known after the branch.
func (x *harvest) settle(st *eng.State, cond *eng.Term, end bool, pos token.Pos) {
	e := x.e
	nothing := func(t *eng.Term, n *eng.Term) bool {
		isNil, known := e.IsNil(st, t)
		return known && isNil || e.LE(st, e.Len(t), n, 0)
	}
	if m := st.Track["matches"]; m != nil && end && st.Ghost["matches"] == "1" && nothing(m, e.Ghost(ghMatches)) {
		x.close(st, pos)
		st.SetGhost("matches", "")
		delete(st.Track, "matches")
	}
	for _, key := range []string{"line", "word"} {
		if t := st.Track[key]; t != nil && st.Ghost[key] == "1" && (nothing(t, e.Int(0)) || x.noParts(st, cond, t)) {
			st.SetGhost(key, "")
		}
	}
}

// noParts: the condition means that a list made of the text is empty.
func (x *harvest) noParts(st *eng.State, cond, text *eng.Term) bool {
	if cond == nil {
		return false
	}
	for _, a := range cond.Args {
		if a.Kind == eng.KLen && x.e.LE(st, a, x.e.Int(0), 0) && x.e.Reaches(st, a, func(t *eng.Term) bool { return t == text }) {
			return true
		}
	}
	return false
}

// finish checks that all matches have been considered.
func (x *harvest) finish(st *eng.State, pos token.Pos) {
	x.settle(st, nil, true, pos)
	x.close(st, pos)
	if st.Ghost["matches"] == "1" {
		x.c.Violate("skipped:"+x.name, pos, "%s may skip some of recognized links", x.name)
	}
	st.SetGhost("matches", "")
	delete(st.Track, "matches")
}

// left checks that the text got earlier has been searched for links.
func (x *harvest) left(st *eng.State, key string, pos token.Pos) {
	if st.Ghost[key] == "1" {
		x.c.Violate("unsearched:"+x.name, pos, "%s may skip a part of the file without searching for links", x.name)
	}
	st.SetGhost(key, "")
	delete(st.Track, key)
}

// searched notes that links are searched in the text.
func (x *harvest) searched(st *eng.State, t *eng.Term, pos token.Pos) {
	e := x.e
	for _, key := range []string{"line", "word"} {
		text := st.Track[key]
		if text == nil || !e.Reaches(st, t, func(t *eng.Term) bool { return t == text }) {
			continue
		}
		delete(st.Track, key)
		st.SetGhost(key, "")
		for _, a := range x.alts(st, unconv(t), 0) {
			if a = unconv(a); a.Kind == eng.KSlice && unconv(a.Args[0]) == text && !isWhole(a) {
				x.c.Violate("partial:"+x.name, pos, "%s may search only a part of the text for links: %v", x.name, a)
			}
		}
	}
}

func isWhole(t *eng.Term) bool {
	if t.Args[2] != nil {
		return false
	}
	if t.Args[1] == nil {
		return true
	}
	n, ok := eng.ConstInt(t.Args[1])
	return ok && n == 0
}

func (x *harvest) collected(st *eng.State, url *eng.Term, pos token.Pos) {
	if st.Track["matches"] == nil || !x.ofMatch(st, url) {
		return
	}
	x.c.Count("collected links", 1)
	if !x.exact(st, url, map[*eng.Term]bool{}) {
		x.c.Violate("altered:"+x.name, pos, "%s collects an URL that differs from the recognized text: %v", x.name, url)
	}
	switch st.Ghost["open"] {
	case "1", "stored":
		st.SetGhost("open", "collected")
	case "collected":
		x.c.Violate("twice:"+x.name, pos, "%s may collect a recognized link twice", x.name)
	}
}

// visit is called when a match is read.
func (x *harvest) visit(st *eng.State, idx *eng.Term, pos token.Pos) {
	e := x.e
	if sameIdx(e, st, idx, e.Ghost(ghMatches)) {
		x.close(st, pos)
		for _, d := range idx.Deps {
			x.deps[d] = true
		}
		x.c.Count("considered matches", 1)
		e.GhostInc(st, ghMatches, 1)
		st.SetGhost("open", "1")
		return
	}
	if last := st.Track["match"]; last != nil && last == idx {
		return
	}
	if !sameIdxPlus(e, st, idx, e.Ghost(ghMatches), -1) {
		x.c.Violate("order:"+x.name, pos, "%s may skip some of recognized links", x.name)
	}
}

func sameIdxPlus(e *eng.Engine, st *eng.State, a, b *eng.Term, n int64) bool {
	return e.LE(st, a, b, n) && e.LE(st, b, a, -n)
}

// decisive: whether the link is collected may depend on the branch.
func (x *harvest) decisive(in *ssa.If) bool {
	b := in.Block()
	f := b.Parent()
	has := false
	for _, s := range f.Blocks {
		has = has || x.isSite(s)
	}
	if !has {
		return f != x.f && x.tells(f)
	}
	return x.mayCollect(b.Succs[0]) != x.mayCollect(b.Succs[1])
}

// tells: the result of the function may affect whether the link is collected.
func (x *harvest) tells(f *ssa.Function) bool {
	r := f.Signature.Results()
	for i := 0; i < r.Len(); i++ {
		T := r.At(i).Type()
		if x.isLink(T) {
			return true
		}
		switch u := T.Underlying().(type) {
		case *types.Basic:
			return true
		case *types.Slice:
			if _, ok := u.Elem().Underlying().(*types.Basic); ok || x.isLink(u.Elem()) {
				return true
			}
		}
	}
	return false
}

// isSite: the block contains an operation that may collect a link.
func (x *harvest) isSite(b *ssa.BasicBlock) bool {
	if v, ok := x.sites[b]; ok {
		return v
	}
	r := false
	for _, in := range b.Instrs {
		switch in := in.(type) {
		case *ssa.MapUpdate:
			r = true
		case *ssa.Store:
			if _, ok := in.Addr.(*ssa.IndexAddr); ok && x.isLink(in.Val.Type()) {
				r = true
			}
		case ssa.CallInstruction:
			com := in.Common()
			if bi, ok := com.Value.(*ssa.Builtin); ok {
				if bi.Name() == "append" {
					el := com.Args[0].Type().Underlying().(*types.Slice).Elem()
					r = r || x.isLink(el)
				}
				continue
			}
			for _, a := range com.Args {
				if com.Signature().Results().Len() == 0 && x.isLink(a.Type()) {
					r = true
				}
			}
		}
	}
	x.sites[b] = r
	return r
}

// mayCollect: a link may be collected before the next match is considered.
func (x *harvest) mayCollect(b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock) bool
	walk = func(b *ssa.BasicBlock) bool {
		if seen[b] || x.heads[b] {
			return false
		}
		seen[b] = true
		if x.isSite(b) {
			return true
		}
		for _, s := range b.Succs {
			if walk(s) {
				return true
			}
		}
		return false
	}
	return walk(b)
}

// overMatches: the condition of the loop over matches.
func (x *harvest) overMatches(st *eng.State, cond *eng.Term) bool {
	m := st.Track["matches"]
	return m != nil && x.e.Reaches(st, cond, func(t *eng.Term) bool { return t == x.e.Len(m) })
}

func (c *Ctx) collects(f *ssa.Function) {
	name := relName(c.P, f)
	x := &harvest{c: c, e: c.Engine(), name: name, f: f, sites: map[*ssa.BasicBlock]bool{}, heads: map[*ssa.BasicBlock]bool{}, deps: map[int]bool{}}
	e := x.e
	st := eng.NewState()
	var args []*eng.Term
	for _, p := range f.Params {
		args = append(args, e.Param(name+" "+p.Name(), p.Type()))
	}
	found := 0
	e.SetHooks(&eng.Hooks{
		NoUnroll: true,
		Model: func(ev *eng.CallEvent) ([]eng.Outcome, bool) {
			if ev.Name == "(*bufio.Scanner).Scan" || lineReaders[ev.Name] {
				x.finish(ev.St, ev.Pos)
				x.left(ev.St, "word", ev.Pos)
				x.left(ev.St, "line", ev.Pos)
				if ev.St.Ghost["scanned"] == "1" {
					x.c.Violate("unsearched:"+x.name, ev.Pos, "%s may skip a part of the file without searching for links", x.name)
				}
				if ev.Name == "(*bufio.Scanner).Scan" {
					ev.St.SetGhost("scanned", "1")
				}
			}
			if ev.Name == "bufio.ScanWords" {
				x.finish(ev.St, ev.Pos)
				x.left(ev.St, "word", ev.Pos)
				delete(ev.St.Track, "line")
				ev.St.SetGhost("line", "")
			}
			if ev.Callee == nil && !ev.Invoke && len(ev.Res) == 1 && types.Identical(ev.Res[0].Underlying(), types.Typ[types.Bool]) {
				other := ev.St.Clone()
				return []eng.Outcome{{St: ev.St, Res: []*eng.Term{e.Bool(true)}}, {St: other, Res: []*eng.Term{e.Bool(false)}}}, true
			}
			return nil, false
		},
		AfterCall: func(ev *eng.CallEvent, st *eng.State, res []*eng.Term) {
			switch ev.Name {
			case "(*bufio.Scanner).Text", "(*bufio.Scanner).Bytes":
				if len(res) == 1 && st.Ghost["scanned"] == "1" {
					st.SetGhost("scanned", "")
					st.Track["line"] = res[0]
					st.SetGhost("line", "1")
				}
			case "bufio.ScanWords":
				if len(res) == 3 {
					st.Track["word"] = res[1]
					st.SetGhost("word", "1")
				}
			}
			if !strings.HasPrefix(ev.Name, "(*regexp.Regexp).FindAll") || len(res) != 1 {
				return
			}
			x.finish(st, ev.Pos)
			x.searched(st, ev.Args[1], ev.Pos)
			found++
			c.Count("searches", 1)
			if n, ok := eng.ConstInt(ev.Args[len(ev.Args)-1]); !ok || n >= 0 {
				c.Violate("limited:"+name, ev.Pos, "%s may recognize only a limited number of links of a line", name)
			}
			st.Track["matches"] = res[0]
			e.GhostSet(st, ghMatches, 0)
			st.SetGhost("matches", "1")
		},
		OnLoad: func(st *eng.State, addr *eng.Term, pos token.Pos) {
			if addr.Kind == eng.KIndexAddr && st.Track["matches"] != nil && addr.Args[0] == st.Track["matches"] {
				x.visit(st, addr.Args[1], pos)
			}
		},
		OnBranch: func(st *eng.State, in *ssa.If, taken bool) {
			cond := e.Val(st, in.Cond)
			over := x.overMatches(st, cond)
			m := st.Track["matches"]
			x.settle(st, cond, over || m != nil && e.Reaches(st, cond, func(t *eng.Term) bool { return t == m }), in.Cond.Pos())
			if over {
				x.heads[in.Block()] = true
				return
			}
			if st.Ghost["open"] == "1" && st.Ghost["foreign"] == "" && !x.own(st, cond, map[*eng.Term]bool{}) && x.decisive(in) {
				st.SetGhost("foreign", c.P.Pos(in.Cond.Pos()))
			}
		},
		OnAppend: func(st *eng.State, base, tail *eng.Term, pos token.Pos) {
			el, exact := e.Elems(st, tail)
			if !exact {
				return
			}
			for _, v := range el {
				if v.Typ == nil || !x.isLink(v.Typ) {
					continue
				}
				S, _ := derefStruct(v.Typ)
				i := urlField(S)
				x.collected(st, e.Load(st, e.FieldAddr(v, derefT(v.Typ), i), S.Field(i).Type()), pos)
			}
		},
		OnStore: func(st *eng.State, addr, v *eng.Term, _ types.Type, _ string) {
			// literal list of links
			if addr.Kind == eng.KIndexAddr && v.Typ != nil && x.isLink(v.Typ) && st.Ghost["open"] == "1" {
				S, _ := derefStruct(v.Typ)
				i := urlField(S)
				if u := e.Load(st, e.FieldAddr(v, derefT(v.Typ), i), S.Field(i).Type()); x.ofMatch(st, u) {
					x.collected(st, u, f.Pos())
					st.SetGhost("open", "stored")
				}
			}
		},
		OnMapUpdate: func(st *eng.State, m, k, v *eng.Term, at string) {
			x.collected(st, k, f.Pos())
		},
		OnReturn: func(st *eng.State, fn *ssa.Function, res []*eng.Term, pos token.Pos) {
			if fn != f {
				return
			}
			if len(res) > 0 {
				if n, known := e.IsNil(st, res[len(res)-1]); known && !n {
					return
				}
			}
			x.finish(st, pos)
			x.left(st, "word", pos)
			x.left(st, "line", pos)
		},
	})
	e.Run(f, st, args, nil, "collect "+name)
	c.Count("extractors", 1)
	if found == 0 {
		c.Note("%s: search for links is not recognized", name)
	}
}

// replied checks that all keys of the set get to the reply.
func (c *Ctx) replied(s *Server, name string) {
	e := s.E
	ranges := 0
	// over tells that the loop is over keys of a set of links.
	over := func(in ssa.Value) *ssa.Next {
		x, ok := in.(*ssa.Extract)
		if !ok || x.Index != 0 {
			return nil
		}
		n, ok := x.Tuple.(*ssa.Next)
		if !ok || n.IsString {
			return nil
		}
		if r, ok := n.Iter.(*ssa.Range); !ok || !types.Identical(r.X.Type().Underlying(), types.NewMap(types.Typ[types.String], types.Typ[types.Bool])) {
			return nil
		}
		return n
	}
	lost := func(st *eng.State, pos token.Pos) {
		if st.Ghost["key"] == "1" {
			c.Violate("reply:"+name, pos, "links of the set may be missing from the reply of %s", name)
		}
		st.SetGhost("key", "")
		delete(st.Track, "key")
	}
	put := func(st *eng.State, v *eng.Term, pos token.Pos) {
		k := st.Track["key"]
		if k == nil || v.Typ == nil || !isString(v.Typ) || !e.Reaches(st, v, func(t *eng.Term) bool { return t == k }) {
			return
		}
		c.Count("replied links", 1)
		if unconv(v) != k {
			c.Violate("reply altered:"+name, pos, "reply of %s contains something else than a link of the set: %v", name, v)
		}
		st.SetGhost("key", "")
	}
	s.Run(name, &eng.Hooks{
		OnInstr: func(st *eng.State, in ssa.Instruction) {
			if n, ok := in.(*ssa.Next); ok && !n.IsString {
				lost(st, in.Pos())
			}
		},
		OnBranch: func(st *eng.State, in *ssa.If, taken bool) {
			n := over(in.Cond)
			if n == nil {
				return
			}
			ranges++
			if !taken {
				st.SetGhost("set", "")
				return
			}
			st.SetGhost("set", "1")
			if t := e.Val(st, n); t != nil && t.Kind == eng.KTuple && len(t.Args) == 3 {
				st.Track["key"] = t.Args[1]
				st.SetGhost("key", "1")
			}
		},
		OnStore: func(st *eng.State, addr, v *eng.Term, _ types.Type, _ string) {
			if addr.Kind == eng.KIndexAddr {
				put(st, v, s.Methods[name].Pos())
			}
		},
		OnMapUpdate: func(st *eng.State, m, k, v *eng.Term, at string) {
			put(st, k, s.Methods[name].Pos()) // to another set
		},
		OnReturn: func(st *eng.State, fn *ssa.Function, res []*eng.Term, pos token.Pos) {
			if len(res) > 0 && isError(res[len(res)-1]) {
				if n, known := e.IsNil(st, res[len(res)-1]); known && !n {
					return
				}
			}
			lost(st, pos)
			if st.Ghost["set"] == "1" {
				c.Violate("reply:"+name, pos, "links of the set may be missing from the reply of %s", name)
				st.SetGhost("set", "")
			}
		},
	})
	c.Count("loops over sets of links", ranges)
}

func isString(T types.Type) bool {
	b, ok := T.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isError(t *eng.Term) bool {
	return t.Typ != nil && t.Typ.String() == "error"
}

func ruleC28(c *Ctx) {
	c.Rule = "Extractors are interpreted with the number of considered matches of a link pattern: every text got from the scanner is searched before the next one is requested, each search is unlimited, matches are considered one by one till the end unless an error is returned, the URL of a collected link or the key put to the set consists of groups of the match, and a match is passed over only on paths whose decisive conditions depend on nothing but the match, patterns and the filter. The handler that replies with the set puts every key of the set to the reply unchanged before the next one is taken and finishes the loop over the set unless an error is returned."
	for _, m := range []string{"Extract", "ExtractSet"} {
		for _, f := range c.P.extractors(m) {
			if obj, ok := f.Object().(*types.Func); ok {
				if g := c.P.Prog.FuncValue(obj); g != nil {
					f = g
				}
			}
			c.collects(f)
		}
	}
	s := c.Server()
	for _, name := range s.Names {
		S, _ := derefStruct(s.reply(name).Typ)
		for i := 0; S != nil && i < S.NumFields(); i++ {
			if jsonName(S, i) == "urls" {
				c.replied(s, name)
			}
		}
	}
	c.Need("replied links", 1)
	c.Need("extractors", 4)
	c.Need("searches", 4)
	c.Need("considered matches", 4)
	c.Need("collected links", 4)
}
