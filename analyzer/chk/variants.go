package chk

import (
	"go/token"
	"go/types"

	"burlcheck/eng"

	"golang.org/x/tools/go/ssa"
)

// variantsFn is the function listing equivalents of an URL.
func (p *Program) variantsFn() *ssa.Function { return p.Func("pkg/burl_url", "UrlVariants") }

const variantsTerm = "variants of URL"

// variantsOf: the term is the list of equivalents of an URL.
func variantsOf(t *eng.Term) *eng.Term {
	if t != nil && t.Kind == eng.KCall && t.CalleeName() == variantsTerm {
		return t.Args[0]
	}
	return nil
}

// elemRef: the term is an element of a list.
func elemRef(t *eng.Term) (list, idx *eng.Term, ok bool) {
	for t.Kind == eng.KConv && len(t.Args) == 1 {
		t = t.Args[0]
	}
	switch {
	case t.Kind == eng.KInit && t.Args[0].Kind == eng.KIndexAddr:
		return t.Args[0].Args[0], t.Args[0].Args[1], true
	case t.Kind == eng.KIndex && len(t.Args) == 2:
		return t.Args[0], t.Args[1], true
	}
	return nil, nil, false
}

func sameIdx(e *eng.Engine, st *eng.State, a, b *eng.Term) bool {
	return e.LE(st, a, b, 0) && e.LE(st, b, a, 0)
}

// collector follows how equivalents of URLs are put together to a list or a set.
type collector struct {
	c  *Ctx
	e  *eng.Engine
	fn *ssa.Function
	// isList recognizes the list of URLs to handle; it is not modified
	isList func(l *eng.Term) bool
	lists  map[*eng.Term]bool
	// single tells whether the argument is the only URL to handle
	single func(st *eng.State, u *eng.Term) bool
	// emptyOK: any link is accepted if there are no URLs
	emptyOK bool
	calls   map[*eng.Term]bool
	key     string
}

const (
	ghHandled = "handled" // number of leading URLs that are processed
	ghInner   = "inner"   // number of leading variants of the current URL that are collected
)

func (k *collector) start(st *eng.State) {
	k.e.GhostSet(st, ghHandled, 0)
	k.e.GhostSet(st, ghInner, 0)
}

func (k *collector) model(ev *eng.CallEvent) ([]eng.Outcome, bool) {
	if ev.Callee != k.fn || k.fn == nil {
		return nil, false
	}
	e, st := k.e, ev.St
	r := e.Pure(variantsTerm, ev.Res[0], ev.Args...)
	u := ev.Args[0]
	if k.calls == nil {
		k.calls = map[*eng.Term]bool{}
	}
	k.calls[r] = true
	k.c.Count("calls of UrlVariants", 1)
	if st.Ghost["pending"] != "" {
		k.c.Violate("partial:"+k.key, ev.Pos, "some equivalents of an URL may be not collected")
	}
	mine := false
	if k.single != nil {
		mine = k.single(st, u)
	} else if l, idx, ok := elemRef(u); ok && k.query(l) {
		mine = sameIdx(e, st, idx, e.Ghost(ghHandled))
	}
	if mine {
		e.GhostInc(st, ghHandled, 1)
		e.GhostSet(st, ghInner, 0)
		st.SetGhost("pending", "1")
		st.Track["cur"] = r
	}
	return []eng.Outcome{{St: st, Res: []*eng.Term{r}}}, true
}

// branch updates counters using facts.
func (k *collector) branch(st *eng.State) {
	e := k.e
	if k.isList != nil {
		g := e.Ghost(ghHandled)
		for _, f := range e.Facts(st) {
			// u == "" or len(u) == 0
			if f.T.Kind != eng.KBin || f.T.Op != token.EQL {
				continue
			}
			for i := range f.T.Args {
				u, z := f.T.Args[i], f.T.Args[1-i]
				if s, ok := eng.ConstStr(z); !ok || s != "" {
					if n, ok := eng.ConstInt(z); !ok || n != 0 || u.Kind != eng.KLen {
						continue
					}
					u = u.Args[0]
				}
				l, idx, ok := elemRef(u)
				if !ok || !k.query(l) {
					continue
				}
				if !f.Val {
					st.SetGhost("nonempty", "1")
				} else if sameIdx(e, st, idx, g) {
					e.GhostInc(st, ghHandled, 1)
				}
			}
		}
	}
	k.settle(st)
}

func (k *collector) settle(st *eng.State) {
	g := k.e.Ghost(ghHandled)
	if k.single != nil && k.e.LE(st, k.e.Int(1), g, 0) {
		st.SetGhost("handledAll", "1")
	}
	for l := range k.lists {
		if k.e.LE(st, k.e.Len(l), g, 0) {
			st.SetGhost("handledAll", "1")
		}
	}
	if st.Ghost["pending"] != "" && st.Track["cur"] != nil && k.e.LE(st, k.e.Len(st.Track["cur"]), k.e.Ghost(ghInner), 0) {
		st.SetGhost("pending", "")
		delete(st.Track, "cur")
	}
}

func (k *collector) element(st *eng.State, x *eng.Term) {
	cur := st.Track["cur"]
	if cur == nil || st.Ghost["pending"] == "" {
		return
	}
	if l, idx, ok := elemRef(x); ok && l == cur && sameIdx(k.e, st, idx, k.e.Ghost(ghInner)) {
		k.e.GhostInc(st, ghInner, 1)
		st.SetGhost("some", "1")
		k.settle(st)
	}
}

func (k *collector) append(st *eng.State, base, tail *eng.Term, pos token.Pos) {
	e := k.e
	isOurs := func(t *eng.Term) bool {
		if variantsOf(t) != nil {
			return true
		}
		l, _, ok := elemRef(t)
		return ok && variantsOf(l) != nil
	}
	ours := isOurs(tail)
	el, exact := e.Elems(st, tail)
	if exact {
		for _, x := range el {
			if isOurs(x) {
				ours = true
			}
		}
	}
	if !ours {
		return
	}
	empty := e.LE(st, e.Len(base), e.Int(0), 0)
	if n, known := e.IsNil(st, base); known && n {
		empty = true
	}
	if empty && st.Ghost["some"] != "" {
		k.c.Violate("restart:"+k.key, pos, "equivalents of former URLs are dropped when further ones are added")
	}
	if tail == st.Track["cur"] {
		st.SetGhost("pending", "")
		st.SetGhost("some", "1")
		delete(st.Track, "cur")
		return
	}
	if exact {
		for _, x := range el {
			k.element(st, x)
		}
	}
}

func (k *collector) mapUpdate(st *eng.State, m, key, v *eng.Term) {
	if b, ok := eng.ConstBool(v); ok && !b {
		return
	}
	k.element(st, key)
}

// complete: everything is collected.
func (k *collector) complete(st *eng.State) bool {
	k.settle(st)
	if st.Ghost["pending"] != "" {
		return false
	}
	return st.Ghost["handledAll"] != ""
}

func (k *collector) query(l *eng.Term) bool {
	if k.isList == nil || !k.isList(l) {
		return false
	}
	if k.lists == nil {
		k.lists = map[*eng.Term]bool{}
	}
	k.lists[l] = true
	return true
}

// onlyVariants: the list consists of results of the function for permitted URLs; returns a foreign part otherwise.
func (k *collector) onlyVariants(st *eng.State, v *eng.Term) *eng.Term {
	e := k.e
	okURL := func(u *eng.Term) bool {
		for _, o := range e.Origins(u) {
			if k.single != nil {
				if !k.single(st, o) {
					return false
				}
				continue
			}
			l, _, ok := elemRef(o)
			if !ok {
				return false
			}
			for _, x := range e.Origins(l) {
				if !k.query(x) {
					return false
				}
			}
		}
		return true
	}
	return foreign(e, st, v, func(t *eng.Term) (bool, bool) {
		u := variantsOf(t)
		return u != nil && okURL(u), u != nil
	}, func(o *eng.Term) bool {
		l, _, ok := elemRef(o)
		return ok && variantsOf(l) != nil && okURL(variantsOf(l))
	})
}

// foreign finds a part of a list that is neither a good list nor a good element; nil if there is no such part.
func foreign(e *eng.Engine, st *eng.State, v *eng.Term, list func(t *eng.Term) (good, known bool), good func(x *eng.Term) bool) *eng.Term {
	seen := map[*eng.Term]bool{}
	var foreign *eng.Term
	elem := func(x *eng.Term) {
		for _, o := range e.Origins(x) {
			if !good(o) {
				foreign = o
			}
		}
	}
	var walk func(t *eng.Term)
	walk = func(t *eng.Term) {
		if t == nil || seen[t] || t.Kind == eng.KNil {
			return
		}
		seen[t] = true
		if list != nil {
			if ok, known := list(t); known {
				if !ok {
					foreign = t
				}
				return
			}
		}
		switch {
		case t.Kind == eng.KCat:
			walk(t.Args[0])
			walk(t.Args[1])
		case t.Kind == eng.KList:
			walk(t.Args[0])
			for _, x := range t.Args[1:] {
				elem(x)
			}
		case t.Kind == eng.KPhi && len(e.Incoming(t)) > 0:
			for _, in := range e.Incoming(t) {
				walk(in)
			}
		case (t.Kind == eng.KMake || t.Kind == eng.KAlloc || t.Kind == eng.KSlice) && e.LE(st, e.Len(t), e.Int(0), 0):
		default:
			if el, exact := e.Elems(st, t); exact {
				for _, x := range el {
					elem(x)
				}
				return
			}
			foreign = t
		}
	}
	walk(v)
	return foreign
}

// keysOnlyVariants does the same for keys of a map.
func (k *collector) keysOnlyVariants(st *eng.State, m *eng.Term) *eng.Term {
	for _, o := range k.e.Origins(m) {
		if o.Kind != eng.KMap {
			return o
		}
		for kv := range k.e.MapUpd[o] {
			l, _, ok := elemRef(kv[0])
			if !ok || k.onlyVariants(st, l) != nil {
				return kv[0]
			}
			if b, ok := eng.ConstBool(kv[1]); isBoolT(kv[1].Typ) && (!ok || !b) {
				return kv[1]
			}
		}
	}
	return nil
}

// noURL: there is nothing to search for.
func (k *collector) noURL(st *eng.State) bool {
	for r := range k.calls {
		if k.emptyOK && k.e.LE(st, k.e.Len(r), k.e.Int(0), 0) {
			return true
		}
	}
	return false
}

// checkFilter decides whether a link filter accepts exactly links whose URL is in a list or a set.
// It interprets the function with an arbitrary link.
func (k *collector) checkFilter(st *eng.State, f *eng.Term, pos token.Pos, what string) {
	c, e := k.c, k.e
	if f.Kind != eng.KClosure && f.Kind != eng.KFunc || f.Fn == nil || len(f.Fn.Blocks) == 0 {
		c.Violate("filter-unknown:"+k.key, pos, "%s: the filter of links is not known: %v", what, f)
		return
	}
	c.Count("filters", 1)
	linkT := f.Fn.Signature.Params().At(0).Type()
	link := e.Param("link given to a filter", linkT)
	st = st.Clone()
	e.Assume(st, e.Eq(link, e.Nil()), false)
	const cmp = "compared"
	e.GhostSet(st, cmp, 0)
	url := func(st *eng.State) *eng.Term {
		str, ok := derefStruct(linkT)
		if !ok {
			return nil
		}
		for i := 0; i < str.NumFields(); i++ {
			if jsonName(str, i) == "url" {
				return e.Load(st, e.FieldAddr(link, derefT(linkT), i), str.Field(i).Type())
			}
		}
		return nil
	}
	if url(st) == nil {
		c.Missing("member url of links")
		return
	}
	lists := map[*eng.Term]bool{}
	good := func(st *eng.State, l *eng.Term) bool {
		if !lists[l] {
			lists[l] = true
			c.Count("lists of accepted URLs", 1)
		}
		return k.onlyVariants(st, l) == nil
	}
	eqFact := func(st *eng.State, f eng.Fact) (l, idx *eng.Term, ok bool) {
		if f.T.Kind != eng.KBin || f.T.Op != token.EQL {
			return
		}
		u := url(st)
		for i := range f.T.Args {
			if f.T.Args[i] == u {
				if l, idx, ok = elemRef(f.T.Args[1-i]); ok {
					return
				}
			}
		}
		return nil, nil, false
	}
	g := e.Ghost(cmp)
	e.SetHooks(&eng.Hooks{
		OnBranch: func(st *eng.State, in *ssa.If, taken bool) {
			if k.noURL(st) {
				st.SetGhost("equal", "1")
			}
			for _, f := range e.Facts(st) {
				if l, _, ok := eqFact(st, f); ok && f.Val && good(st, l) {
					st.SetGhost("equal", "1")
				}
				if l, idx, ok := eqFact(st, f); ok && !f.Val && good(st, l) && sameIdx(e, st, idx, g) {
					e.GhostInc(st, cmp, 1)
				}
			}
		},
	})
	member := func(st *eng.State) (val, known bool) {
		u := url(st)
		for _, f := range e.Facts(st) {
			x := f.T
			switch {
			case (x.Kind == eng.KLookup && isBoolT(x.Typ) || x.Kind == eng.KLookupOk) && x.Args[1] == u:
				if k.keysOnlyVariants(st, x.Args[0]) == nil {
					c.Count("sets of accepted URLs", 1)
					return f.Val, true
				}
			case x.Kind == eng.KCall && x.CalleeName() == "slices.Contains" && len(x.Args) == 2 && x.Args[1] == u:
				if k.onlyVariants(st, x.Args[0]) == nil {
					c.Count("sets of accepted URLs", 1)
					return f.Val, true
				}
			}
		}
		return false, false
	}
	outs := e.Run(f.Fn, st, []*eng.Term{link}, f.Args, "filter "+k.key)
	for _, o := range outs {
		if o.Panic || len(o.Res) != 1 {
			continue
		}
		for _, v := range []bool{true, false} {
			s := o.St.Clone()
			if !e.Assume(s, o.Res[0], v) {
				continue
			}
			c.Count("filter outcomes", 1)
			in, known := member(s)
			if known && in == v {
				continue
			}
			ok := v && (k.noURL(s) || s.Ghost["equal"] != "")
			for _, f := range e.Facts(s) {
				l, _, isEq := eqFact(s, f)
				if isEq && f.Val && v && good(s, l) {
					ok = true
				}
			}
			if !v {
				for l := range lists {
					if good(s, l) && e.LE(s, e.Len(l), g, 0) {
						ok = true
					}
				}
				if len(lists) > 1 {
					ok = false
				}
				if s.Ghost["some"] == "" && k.complete(s) {
					ok = true // URLs of the query have no equivalents
				}
			}
			if !ok && v {
				c.Violate("filter-accepts:"+k.key, f.Fn.Pos(), "%s: a link may be accepted though its URL is not known to be equal to an equivalent of a queried URL", what)
			} else if !ok && !k.emptyOK {
				c.Violate("filter-rejects:"+k.key, f.Fn.Pos(), "%s: a link may be rejected though its URL is not known to differ from all equivalents of queried URLs", what)
			}
		}
	}
	if len(outs) == 0 {
		c.Violate("filter-unknown:"+k.key, pos, "%s: the filter never returns", what)
	}
}

func isFilterT(T types.Type) bool {
	sig, ok := T.Underlying().(*types.Signature)
	if !ok || sig.Params().Len() != 1 || sig.Results().Len() != 1 || !isBoolT(sig.Results().At(0).Type()) {
		return false
	}
	n := namedOf(sig.Params().At(0).Type())
	return n != nil && n.Obj().Name() == "Link"
}
